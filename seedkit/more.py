"""Further planted bugs, in the format of seeds.py."""
from seeds import seed, S, F, N
seed('C02-own-eviction-keeps-lock','C02',F,
"""            (fifo_order_id, resting_order)
        };
""","""            if self.get_trader_index(&self.get_trader_id_from_index(resting_order.trader_index as u32))
                != Some(resting_order.trader_index as u32)
                || resting_order.num_base_lots == BaseLots::ONE
            {
                return Some(resting_order);
            }
            (fifo_order_id, resting_order)
        };
""",
"a full book whose least aggressive order, of exactly one lot, is evicted by a better one",
"the evicted order's collateral stays locked although no order backs it",
"""
    let mut e = setup(std_params());
    for i in 0..512 { ok(&mut e, post(1, 0, 100 + i, 1)); }
    ok(&mut e, post(2, 0, 2000, 1));
    let s = e.snap();
    let v: u128 = s.bids.iter().filter(|o| o.trader == e.traders[1]).map(|o| s.val(o.price, o.lots)).sum();
    check("locked funds equal the resting orders", s.ts(&e.traders[1]).ql as u128 == v);
""")
seed('C03-time-expiry-stops','C03',F,
"""                    record_event_fn,
                )?;
                inflight_order.match_limit -= 1;
                continue;
            }

            // Handle self trade""",
"""                    record_event_fn,
                )?;
                inflight_order.match_limit -= 1;
                inflight_order.should_terminate = last_valid_slot == 0
                    || (last_valid_slot >= current_slot && trader_index == current_trader_index as u64);
                continue;
            }

            // Handle self trade""",
"a taker that meets an order expired by time alone in front of a live order",
"matching stops behind the expired order although live orders within the limit remain",
"""
    let mut e = setup(std_params());
    let t0 = e.w.ts as u64;
    ok(&mut e, Op::Limit { t: 1, ff: false, p: P { lvt: Some(t0 + 5), ..p0(1, 100, 5) } });
    ok(&mut e, limit(2, 1, 101, 5));
    e.w.ts += 50;
    let o = ok(&mut e, ioc(3, 0, Some(101), 5));
    let filled: u64 = evs(&o).iter().map(|x| if let Ev::Fill { filled, .. } = x { *filled } else { 0 }).sum();
    check("the order goes on to the live order", filled == 5);
""")
seed('C07-live-at-last-second','C07',F,
"""                || (last_valid_unix_timestamp_in_seconds != 0
                    && last_valid_unix_timestamp_in_seconds < current_unix_timestamp)""",
"""                || (last_valid_unix_timestamp_in_seconds != 0
                    && last_valid_slot == 0
                    && last_valid_unix_timestamp_in_seconds < current_unix_timestamp)""",
"a resting order with both deadlines, expired by time but not by slot, that a taker meets",
"an expired order is filled",
"""
    let mut e = setup(std_params());
    let (t0, s0) = (e.w.ts as u64, e.w.slot);
    ok(&mut e, Op::Limit { t: 1, ff: false, p: P { lvt: Some(t0 + 5), lvs: Some(s0 + 1000), ..p0(1, 100, 5) } });
    e.w.ts += 50;
    let o = ok(&mut e, ioc(3, 0, Some(101), 5));
    check("an expired order is not filled", !evs(&o).iter().any(|x| matches!(x, Ev::Fill { .. })));
""")
seed('C09-foreign-expiring-order','C09',F,
"""                    if order.trader_index != trader_index as u64 {
                        return None;""",
"""                    if order.trader_index != trader_index as u64
                        && (size.is_none() || order.last_valid_slot == 0)
                    {
                        return None;""",
"a partial reduction, with free funds of the same kind, of another trader's order that carries a last valid slot",
"a trader shrinks an order that is not its own",
"""
    let mut e = setup(std_params());
    ok(&mut e, Op::Limit { t: 1, ff: false, p: P { lvs: Some(1000), ..p0(1, 100, 50) } });
    ok(&mut e, limit(2, 1, 200, 50));
    let o = e.snap().asks[0].clone();
    let _ = run(&mut e, Op::Reduce { t: 2, ww: false, side: 1, price: o.price, seq: o.seq, size: 10 });
    check("another trader's order is untouched", e.snap().asks[0].lots == 50);
""")
seed('C12-posted-size-logged-before-fill','C12',F,
"""                    base_lots_placed: resting_order.num_base_lots,
                    client_order_id: order_packet.client_order_id(),""",
"""                    base_lots_placed: if matching_engine_response.num_quote_lots() > QuoteLots::ZERO
                        && matches!(order_packet, OrderPacket::Limit { match_limit: Some(_), .. })
                    {
                        order_packet.num_base_lots()
                    } else {
                        resting_order.num_base_lots
                    },
                    client_order_id: order_packet.client_order_id(),""",
"a limit order with a match limit that fills in part and rests with the remainder",
"the logged size of the posted order is the size of the whole order",
"""
    let mut e = setup(std_params());
    ok(&mut e, limit(1, 1, 100, 5));
    let o = ok(&mut e, Op::Limit { t: 2, ff: false, p: P { ml: Some(10), ..p0(0, 100, 8) } });
    check("the log gives the size that rests", evs(&o).iter().all(|x| if let Ev::Place { lots, .. } = x { *lots == 3 } else { true }));
""")
seed('C15-eviction-ignores-room','C15',F,
"                    self.asks.len() == self.asks.capacity(),",
"                    self.asks.len() == self.asks.capacity()\n                        || self.traders.len() == self.traders.capacity(),",
"an ask placed while every trader seat is taken and the ask book has room",
"a resting ask is evicted although the book is not full",
"""
    let mut e = setup(std_params());
    let auth = e.m.creator;
    for i in 0..124 {
        let t = key(b'X', 10 + i);
        e.w.accts.insert(t, Acct { owner: SYS, lamports: 1 << 40, data: vec![] });
        e.traders.push(t);
        let n = e.traders.len() - 1;
        ok(&mut e, Op::ReqSeatAuth { auth, t: n });
        ok(&mut e, Op::SeatStatus { auth, t: n, st: 1 });
    }
    check("every seat is taken", e.snap().traders.len() == 128);
    ok(&mut e, limit(1, 1, 100, 5));
    ok(&mut e, limit(2, 1, 90, 5));
    check("both asks rest", e.snap().asks.len() == 2);
""")
seed('C20-cancel-pays-once','C20',F,
"""                    (
                        quote_lots_released + quote_lots_out,
                        base_lots_released + base_lots_out,
                    )""",
"""                    (
                        quote_lots_released + quote_lots_out,
                        if base_lots_out > BaseLots::ZERO && quote_lots_released > QuoteLots::ZERO {
                            base_lots_released.max(base_lots_out)
                        } else {
                            base_lots_released + base_lots_out
                        },
                    )""",
"a cancel-all with withdrawal by a trader with a bid and at least two asks",
"the collateral of only one of the asks is paid out, the rest leaves the trader's balance",
"""
    let mut e = setup(std_params());
    ok(&mut e, limit(1, 0, 50, 5));
    ok(&mut e, limit(1, 1, 100, 5));
    ok(&mut e, limit(1, 1, 101, 7));
    ok(&mut e, Op::CancelAll { t: 1, ww: true });
    check("everything released is paid out", solvent(&e));
""")
seed('C21-expired-level-shown','C21','src/state/markets/market_traits.rs',
"""                            None
                        } else {
                            Some((order_id.price_in_ticks(), resting_order.size()))""",
"""                            if unix_timestamp_expiration == 0 {
                                None
                            } else {
                                Some((order_id.price_in_ticks(), 0))
                            }
                        } else {
                            Some((order_id.price_in_ticks(), resting_order.size()))""",
"a depth view with a current time over a book with an expired order alone at its price",
"the depth view shows a level without any live order and hides a live one behind it",
"""
    let mut e = setup(std_params());
    let (t0, s0) = (e.w.ts as u64, e.w.slot);
    ok(&mut e, Op::Limit { t: 1, ff: false, p: P { lvs: Some(s0 + 1), ..p0(1, 100, 5) } });
    ok(&mut e, limit(1, 1, 101, 3));
    check("only live levels are shown", depth(&e, 1, 1, Some(s0 + 10), Some(t0)) == vec![(101, 3)]);
""")
seed('C22-fee-in-percent','C22','src/program/processor/initialize.rs',
"        taker_fee_bps <= 10000,",
"        taker_fee_bps / 100 <= 100,",
"creating a market with a fee between 10001 and 10099 basis points",
"a market with a fee above 100 per cent is created",
"""
    install();
    let mut w = World::new();
    let p = Params { fee: 10050, ..std_params() };
    let b = body_size(p.sizes).unwrap();
    let (_m, o) = mk_market(&mut w, 3, p, key(b'B', 1), key(b'Q', 1), b);
    check("the market is refused", o.res.is_err());
""")
seed('C23-four-fields-optional','C23','src/state/order_schema/order_packet.rs',
"                0_u8, /* last_valid_slot */\n",
"                0_u8,\n                0_u8, /* last_valid_slot */\n",
"order data cut off one byte before the optional fields",
"data that is no encoding of any packet, old or new, is accepted as an order",
"""
    use phoenix::state::decode_order_packet;
    use borsh::BorshSerialize;
    let p = phoenix::state::OrderPacket::new_limit_order_default(phoenix::state::Side::Bid, 100, 5);
    let b = p.try_to_vec().unwrap();
    check("old encodings are accepted", (0..4).all(|k| decode_order_packet(&b[..b.len() - k]) == Some(p)));
    check("shorter data is refused", (4..b.len()).all(|k| decode_order_packet(&b[..b.len() - k]).is_none()));
""")
