"""Planted bugs: id -> (property, file, old, new, needs, breaks, scenario main body). mk() writes /verif/seeded/<id>/."""
import os, shutil, subprocess, json, sys
F='src/state/markets/fifo.rs'
N='src/program/processor/new_order.rs'
S={}
def seed(id,prop,file,old,new,needs,breaks,main): S[id]=(prop,file,old,new,needs,breaks,main)

seed('C03-self-cancel-stops','C03',F,
"""                            record_event_fn,
                        )?;
                        inflight_order.match_limit -= 1;
                    }
                    SelfTradeBehavior::DecrementTake""",
"""                            record_event_fn,
                        )?;
                        inflight_order.match_limit -= 1;
                        inflight_order.should_terminate = true;
                    }
                    SelfTradeBehavior::DecrementTake""",
"a taker with cancel-provide whose own order is at the top of the opposite book and another trader's order behind it",
"matching stops after the own order was cancelled although live orders within the limit remain",
"""
    let mut e = setup(std_params());
    ok(&mut e, limit(1, 1, 100, 5));
    ok(&mut e, limit(2, 1, 101, 5));
    let o = ok(&mut e, ioc(1, 0, Some(101), 5));
    let filled: u64 = evs(&o).iter().map(|x| if let Ev::Fill { filled, .. } = x { *filled } else { 0 }).sum();
    check("the order goes on to the next live order", filled == 5);
""")
seed('C04-expired-front-hides','C04',F,
"""                    .iter()
                    .find(|(_, resting_order)| {
                        !resting_order.is_expired(current_slot, current_unix_timestamp)
                            && resting_order.num_base_lots > BaseLots::ZERO
                    })""",
"""                    .iter()
                    .next()
                    .filter(|(_, resting_order)| {
                        !resting_order.is_expired(current_slot, current_unix_timestamp)
                            && resting_order.num_base_lots > BaseLots::ZERO
                    })""",
"a limit order that runs out of its match limit while an expired order is at the top of the opposite book in front of a live one",
"the remainder rests at a price that crosses a live opposite order",
"""
    let mut e = setup(std_params());
    ok(&mut e, limit(1, 1, 99, 1));
    ok(&mut e, Op::Limit { t: 1, ff: false, p: P { lvs: Some(101), ..p0(1, 100, 5) } });
    ok(&mut e, limit(2, 1, 101, 5));
    e.w.slot = 110;
    ok(&mut e, Op::Limit { t: 3, ff: false, p: P { ml: Some(1), ..p0(0, 105, 5) } });
    let s = e.snap();
    check("no resting bid at or above a live ask", s.bids.iter().all(|b| s.asks.iter().filter(|a| !a.expired(110, e.w.ts)).all(|a| b.price < a.price)));
""")
seed('C06-decrement-keeps-quote-budget','C06',F,
"""                        inflight_order.adjusted_quote_lot_budget =
                            inflight_order.adjusted_quote_lot_budget.saturating_sub(
                                self.tick_size_in_quote_lots_per_base_unit
                                    * order_id.price_in_ticks
                                    * base_lots_removed,
                            );
""","""                        if base_lots_removed < num_base_lots_quoted {
                            inflight_order.adjusted_quote_lot_budget =
                                inflight_order.adjusted_quote_lot_budget.saturating_sub(
                                    self.tick_size_in_quote_lots_per_base_unit
                                        * order_id.price_in_ticks
                                        * base_lots_removed,
                                );
                        }
""",
"an immediate-or-cancel order with a quote budget and decrement-take that meets an own order smaller than its budget before other orders",
"the quote budget is not reduced by the own order, so the incoming order does not shrink by the same amount",
"""
    let mut e = setup(Params { fee: 0, ..std_params() });
    ok(&mut e, limit(1, 1, 100, 5));
    ok(&mut e, limit(2, 1, 100, 50));
    // value of one base lot at price 100: 1000 quote lots
    let o = ok(&mut e, Op::Swap { t: 1, ff: false, p: P { kind: 2, price: None, base: 0, quote: 10_000, stb: 2, ..p0(0, 0, 0) } });
    let filled: u64 = evs(&o).iter().map(|x| if let Ev::Fill { filled, .. } = x { *filled } else { 0 }).sum();
    check("the incoming order shrinks by the own order", filled == 5);
""")
seed('C07-last-valid-slot-excluded','C07',F,
"if (last_valid_slot != 0 && last_valid_slot < current_slot)","if (last_valid_slot != 0 && last_valid_slot <= current_slot)",
"an order matched exactly in its last valid slot",
"a resting order in its last valid slot is removed as expired instead of being filled",
"""
    let mut e = setup(std_params());
    ok(&mut e, Op::Limit { t: 1, ff: false, p: P { lvs: Some(105), ..p0(1, 100, 5) } });
    e.w.slot = 105;
    let o = ok(&mut e, ioc(2, 0, Some(100), 5));
    check("an order in its last valid slot is filled", evs(&o).iter().any(|x| matches!(x, Ev::Fill { filled: 5, .. })));
""")
seed('C08-self-trades-free','C08',F,
"""                            false,
                            false,
                            record_event_fn,
                        )?;
                        inflight_order.match_limit -= 1;
                    }
                    SelfTradeBehavior::DecrementTake""",
"""                            false,
                            false,
                            record_event_fn,
                        )?;
                    }
                    SelfTradeBehavior::DecrementTake""",
"an order with a match limit and cancel-provide that meets own orders",
"own orders cancelled on the way do not count, so more orders than the match limit are touched",
"""
    let mut e = setup(std_params());
    ok(&mut e, limit(1, 1, 100, 5));
    ok(&mut e, limit(1, 1, 101, 5));
    ok(&mut e, limit(2, 1, 102, 5));
    let o = ok(&mut e, Op::Swap { t: 1, ff: false, p: P { kind: 2, price: Some(200), ml: Some(2), ..p0(0, 200, 5) } });
    let n = evs(&o).iter().filter(|x| matches!(x, Ev::Fill { .. } | Ev::Reduce { .. } | Ev::Expired { .. })).count();
    check("at most two resting orders touched", n <= 2);
""")
seed('C10-evict-with-locked','C10',F,
"                *trader_state == TraderState::default(),",
"                trader_state.quote_lots_free == QuoteLots::ZERO\n                    && trader_state.base_lots_free == BaseLots::ZERO\n                    && trader_state.quote_lots_locked == QuoteLots::ZERO,",
"eviction of the seat of a trader that still has resting asks (and no bids)",
"a trader entry with locked base lots is removed",
"""
    let mut e = setup(std_params());
    ok(&mut e, limit(1, 1, 100, 5));
    let auth = e.m.creator;
    ok(&mut e, Op::SeatStatus { auth, t: 1, st: 0 });
    let _ = run(&mut e, Op::Evict { auth, t: 1 });
    check("a trader with a resting ask stays registered", e.snap().traders.contains_key(&e.traders[1]));
""")
seed('C11-id-reused-after-evict','C11',F,
"""                self.order_sequence_number += 1;
            }
        }

        // If the trader""","""                if !book_full {
                    self.order_sequence_number += 1;
                }
            }
        }

        // If the trader""",
"a full book side on which a new order evicts the least aggressive one, followed by another order",
"the order that evicted another and the next order get the same sequence number",
"""
    let mut e = setup(std_params());
    for k in 0..16u64 {
        let asks = (0..32u64).map(|i| Cond { price: 1000 + k * 32 + i, size: 1, lvs: None, lvt: None }).collect();
        ok(&mut e, Op::Multi { t: 1, ff: false, bids: vec![], asks, cid: None, beh: 0 });
    }
    ok(&mut e, limit(2, 1, 900, 1));
    ok(&mut e, limit(2, 1, 900, 2));
    let s = e.snap();
    let mut q: Vec<u64> = s.asks.iter().map(|o| o.seq).collect();
    q.sort();
    q.dedup();
    check("every resting order has its own sequence number", q.len() == s.asks.len() && s.asks.len() == 512);
""")
seed('C12-tif-event-needs-slot','C12',F,
"""                if resting_order.last_valid_slot != 0
                    || resting_order.last_valid_unix_timestamp_in_seconds != 0
                {
                    // Record""","""                if resting_order.last_valid_slot != 0 {
                    // Record""",
"a posted order with a last valid time but no last valid slot",
"the log does not tell that the order expires",
"""
    let mut e = setup(std_params());
    let o = ok(&mut e, Op::Limit { t: 1, ff: false, p: P { lvt: Some(2000), ..p0(1, 100, 5) } });
    check("the deadline of the order is logged", evs(&o).iter().any(|x| matches!(x, Ev::Tif { ts: 2000, .. })));
""")
seed('C13-index-restarts','C13','src/program/event_recorder.rs',
"        event.set_index(self.state_tracker.events_added);","        event.set_index(self.state_tracker.get_batch_size());",
"an instruction with more events than fit in one log record",
"event numbers start again in the second record",
"""
    let mut e = setup(std_params());
    let asks = (0..60u64).map(|i| Cond { price: 100 + i, size: 1, lvs: None, lvt: None }).collect();
    let o = ok(&mut e, Op::Multi { t: 1, ff: false, bids: vec![], asks, cid: None, beh: 0 });
    let mut n = 0u16;
    let mut good = true;
    let mut recs = 0;
    for c in &o.cpis {
        if let Cpi::Log(d) = c {
            recs += 1;
            for (i, _) in decode_batch(d).unwrap().evs { good &= i == n; n += 1; }
        }
    }
    check("events are numbered consecutively over the records", good && n == 60 && recs > 1);
""")
seed('C14-search-counts-own','C14',F,
"""            .take(num_orders_to_search.unwrap_or(num_orders))
            .filter(|(_o_id, o)| o.trader_index == trader_index as u64)
""","""            .filter(|(_o_id, o)| o.trader_index == trader_index as u64)
            .take(num_orders_to_search.unwrap_or(num_orders))
""",
"cancel-up-to with a search bound on a book where other traders' orders come first",
"orders beyond the given number of searched orders are cancelled",
"""
    let mut e = setup(std_params());
    ok(&mut e, limit(2, 1, 100, 5));
    ok(&mut e, limit(1, 1, 101, 5));
    ok(&mut e, Op::CancelUpTo { t: 1, ww: true, side: 1, lim: None, search: Some(1), cancel: None });
    check("only the first order of the book was searched", e.snap().asks.len() == 2);
""")
seed('C15-equal-price-evicts','C15',F,
"                Side::Ask => fifo_order_id.price_in_ticks <= placed_order_id.price_in_ticks,\n            } {\n                phoenix_log!(\"New order is not",
"                Side::Ask => fifo_order_id.price_in_ticks < placed_order_id.price_in_ticks,\n            } {\n                phoenix_log!(\"New order is not",
"a full ask side and a new ask at exactly the price of the least aggressive resting ask",
"an order is evicted by one that is not more aggressive",
"""
    let mut e = setup(std_params());
    for k in 0..16u64 {
        let asks = (0..32u64).map(|i| Cond { price: 1000 + k * 32 + i, size: 1, lvs: None, lvt: None }).collect();
        ok(&mut e, Op::Multi { t: 1, ff: false, bids: vec![], asks, cid: None, beh: 0 });
    }
    let before = e.snap().asks;
    assert_eq!(before.len(), 512);
    let _ = run(&mut e, limit(2, 1, 1511, 1));
    check("no eviction at equal price", e.snap().asks == before);
""")
seed('C02-evict-unlocks-at-new-price','C02',F,
"""                let quote_lots_to_unlock = (order_id.price_in_ticks
                    * tick_size_in_quote_lots_per_base_unit""",
"""                let quote_lots_to_unlock = (placed_order_id.price_in_ticks.min(order_id.price_in_ticks + Ticks::ONE)
                    * tick_size_in_quote_lots_per_base_unit""",
"a full bid side whose least aggressive bid is evicted",
"the evicted order unlocks more quote lots than it had locked",
"""
    let mut e = setup(std_params());
    for k in 0..16u64 {
        let bids = (0..32u64).map(|i| Cond { price: 1000 + k * 32 + i, size: 1, lvs: None, lvt: None }).collect();
        ok(&mut e, Op::Multi { t: 1, ff: false, bids, asks: vec![], cid: None, beh: 0 });
    }
    ok(&mut e, limit(2, 0, 2000, 1));
    let s = e.snap();
    let v: u128 = s.bids.iter().filter(|o| o.trader == e.traders[1]).map(|o| s.val(o.price, o.lots)).sum();
    check("locked quote lots equal the value of the resting bids", s.ts(&e.traders[1]).ql as u128 == v);
""")
seed('C01-free-funds-credit-twice','C01',N,
"                order_packet.no_deposit_or_withdrawal()","",'','','')
del S['C01-free-funds-credit-twice']
seed('C16-paused-deposit','C16','src/program/status.rs',
"        matches!(self, MarketStatus::Active | MarketStatus::PostOnly)",
"        matches!(\n            self,\n            MarketStatus::Active | MarketStatus::PostOnly | MarketStatus::Closed\n        )",
"an order or deposit on a closed market",
"orders can be posted and funds deposited while the market is closed",
"""
    let mut e = setup(std_params());
    let auth = e.m.creator;
    ok(&mut e, Op::Status { auth, st: 2, recv: None });
    ok(&mut e, Op::Status { auth, st: 4, recv: None });
    check("no deposit into a closed market", run(&mut e, Op::Deposit { t: 1, q: 5, b: 5 }).res.is_err());
""")
seed('C17-any-signer-as-previous-recipient','C17','src/program/validation/loaders.rs',
"""            previous_fee_recipient: next_account_info(account_iter)
                .and_then(|a| Signer::new_with_key(a, &current_fee_recipient))
                .ok(),""",
"""            previous_fee_recipient: next_account_info(account_iter)
                .and_then(|a| {
                    if a.is_signer {
                        Signer::new(a)
                    } else {
                        Signer::new_with_key(a, &current_fee_recipient)
                    }
                })
                .ok(),""",
"uncollected fees and a change of the fee recipient countersigned by somebody else than the recipient",
"the fee recipient is replaced without its signature although fees are uncollected",
"""
    let mut e = setup(Params { fee: 100, ..std_params() });
    ok(&mut e, limit(1, 1, 100, 50));
    ok(&mut e, ioc(2, 0, Some(100), 50));
    assert!(e.snap().uncollected > 0);
    let auth = e.m.creator;
    let (other, new) = (e.traders[3], e.traders[0]);
    let was = e.snap().fee_rcpt;
    let _ = run(&mut e, Op::ChangeFee { auth, new, prev: Some((other, true)) });
    check("the fee recipient is unchanged", e.snap().fee_rcpt == was);
""")
seed('C18-retired-approved','C18','src/program/processor/manage_seat.rs',
"        (SeatApprovalStatus::NotApproved, SeatApprovalStatus::Approved) => {",
"        (SeatApprovalStatus::NotApproved | SeatApprovalStatus::Retired, SeatApprovalStatus::Approved) => {",
"approving a seat after it was retired",
"a retired seat becomes approved again, a step that the rules do not allow",
"""
    let mut e = setup(std_params());
    let auth = e.m.creator;
    ok(&mut e, Op::SeatStatus { auth, t: 1, st: 2 });
    check("a retired seat stays retired", run(&mut e, Op::SeatStatus { auth, t: 1, st: 1 }).res.is_err());
""")
seed('C19-quote-account-owner','C19','src/program/validation/loaders.rs',
"""            quote_account: TokenAccountInfo::new_with_owner(
                next_account_info(account_iter)?,
                &quote_params.mint_key,
                trader_key,
            )?,
            base_vault""","""            quote_account: TokenAccountInfo::new(
                next_account_info(account_iter)?,
                &quote_params.mint_key,
            )?,
            base_vault""",
"an instruction whose quote account belongs to somebody else",
"a token account of another owner is accepted as the trader's",
"""
    let mut e = setup(std_params());
    ok(&mut e, Op::Deposit { t: 1, q: 50, b: 50 });
    let (mut m, d) = e.build(&Op::Withdraw { t: 1, q: Some(5), b: Some(5) });
    let mine = e.quote_acct(&e.traders[1]);
    let theirs = e.quote_acct(&e.traders[2]);
    for x in m.iter_mut() { if x.pubkey == mine { x.pubkey = theirs; } }
    check("the foreign account is rejected", e.w.exec(&m, &d).res.is_err());
""")
seed('C20-batch-deposit-skipped','C20',N,
"""                    quote_lots_available -=
                        quote_lots_deposited + matching_engine_response.num_free_quote_lots_used;""",
"""                    quote_lots_available -= quote_lots_deposited;""",
"a batch that skips unaffordable orders, partly funded by deposited funds",
"funds used by earlier orders of the batch still count as available, so an unaffordable order is not skipped",
"""
    let mut e = setup(Params { fee: 0, ..std_params() });
    ok(&mut e, Op::Deposit { t: 1, q: 10_000, b: 0 });
    let c = |price| Cond { price, size: 10, lvs: None, lvt: None };
    // each order locks 10 lots at 100 or less: the deposited 10000 quote lots cover only the first one
    let o = run(&mut e, Op::Multi { t: 1, ff: true, bids: vec![c(100), c(99)], asks: vec![], cid: None, beh: 2 });
    check("the unaffordable order is skipped and the first one placed", o.res.is_ok() && e.snap().bids.len() == 1);
""")
S['C24-batch-available-funds']=('C24',)+S.pop('C20-batch-deposit-skipped')[1:]
seed('C21-expired-by-time-shown','C21','src/state/markets/market_traits.rs',
"                        if resting_order.is_expired(slot_expiration, unix_timestamp_expiration) {",
"                        if resting_order.is_expired(slot_expiration, 0) {",
"a book with an order that expired by time, viewed with the current time",
"the depth view shows an expired order",
"""
    use phoenix::program::load_with_dispatch;
    let mut e = setup(std_params());
    ok(&mut e, Op::Limit { t: 1, ff: false, p: P { lvt: Some(1500), ..p0(1, 100, 5) } });
    ok(&mut e, limit(1, 1, 101, 3));
    let d = e.w.get(&e.m.key).data;
    let mut buf = vec![0u64; d.len() / 8 + 1];
    let bytes = unsafe { std::slice::from_raw_parts_mut(buf.as_mut_ptr() as *mut u8, d.len()) };
    bytes.copy_from_slice(&d);
    let m = load_with_dispatch(&size_params(&d), &bytes[576..]).unwrap().inner;
    let l = m.get_ladder_with_expiration(5, Some(100), Some(1600));
    check("only the live ask is shown", l.asks.len() == 1 && l.asks[0].price_in_ticks == 101);
""")
seed('C23-legacy-odd-lengths','C23','src/state/order_schema/order_packet.rs',
"                0_u8, /* fail_silently_on_insufficient_funds */",
"                1_u8, /* fail_silently_on_insufficient_funds */",
"an order packet in the older encoding without the last field",
"an old packet decodes to an order that fails silently",
"""
    use phoenix::state::decode_order_packet;
    let p = P { kind: 0, ..p0(0, 100, 5) };
    let full = p.enc();
    let old = &full[..full.len() - 1];
    check("the older encoding keeps its meaning", decode_order_packet(old) == decode_order_packet(&full) && decode_order_packet(old).is_some());
""")
seed('C09-foreign-partial-reduce','C09',F,
"                    if order.trader_index != trader_index as u64 {",
"                    if order.trader_index != trader_index as u64\n                        && base_lots_to_remove == order.num_base_lots\n                    {",
"a reduce instruction naming another trader's order with less than its full size",
"a trader reduces an order that it does not own",
"""
    let mut e = setup(std_params());
    ok(&mut e, limit(1, 1, 100, 5));
    ok(&mut e, limit(2, 1, 102, 5));
    let o = e.snap().asks[0].clone();
    let _ = run(&mut e, Op::Reduce { t: 2, ww: false, side: 1, price: o.price, seq: o.seq, size: 2 });
    check("the order of another trader is untouched", e.snap().asks[0] == o);
""")
seed('C05-fee-rounded-before-sum','C05',F,
"            total_matched_adjusted_quote_lots += matched_adjusted_quote_lots;",
"            if !inflight_order.should_terminate || total_matched_adjusted_quote_lots == AdjustedQuoteLots::ZERO {\n                total_matched_adjusted_quote_lots += matched_adjusted_quote_lots;\n            }",
"an order that fills at least one resting order completely and then part of another",
"the last, partial fill is not counted in the volume the fee is computed on",
"""
    let mut e = setup(Params { fee: 100, ..std_params() });
    ok(&mut e, limit(1, 1, 100, 50));
    ok(&mut e, limit(1, 1, 101, 50));
    ok(&mut e, ioc(2, 0, Some(101), 80));
    // 50 lots at 100 and 30 lots at 101, ten quote lots per tick and lot: 80300 quote lots, one per cent
    check("the fee is charged on the whole volume", e.snap().uncollected == 803);
""")
seed('C01-partial-fill-credit','C01',F,
"""                Side::Ask => trader_state.process_limit_buy(
                    matched_adjusted_quote_lots / base_lots_per_base_unit,
                    matched_base_lots,
                ),""",
"""                Side::Ask => {
                    trader_state.process_limit_buy(
                        matched_adjusted_quote_lots / base_lots_per_base_unit,
                        matched_base_lots,
                    );
                    if last_valid_slot == current_slot && order_remaining_base_lots > BaseLots::ZERO {
                        trader_state.unlock_quote_lots(
                            order_id.price_in_ticks
                                * self.tick_size_in_quote_lots_per_base_unit
                                * order_remaining_base_lots
                                / base_lots_per_base_unit,
                        );
                    }
                }""",
"a resting bid partly filled by a seller exactly in its last valid slot",
"the collateral of the remaining part is handed back although the order keeps resting",
"""
    let mut e = setup(std_params());
    ok(&mut e, Op::Limit { t: 1, ff: false, p: P { lvs: Some(105), ..p0(0, 100, 5) } });
    e.w.slot = 105;
    ok(&mut e, ioc(2, 1, Some(100), 2));
    let s = e.snap();
    let v: u128 = s.bids.iter().map(|o| s.val(o.price, o.lots)).sum();
    check("the remaining bid stays backed", s.ts(&e.traders[1]).ql as u128 == v && s.ts(&e.traders[1]).qf == 0 && solvent(&e));
""")
S['C02-partial-fill-unlock']=('C02',)+S.pop('C01-partial-fill-credit')[1:]
seed('C20-uses-more-than-free','C20',F,
"""                        matching_engine_response.post_base_lots(resting_order.num_base_lots);
                        matching_engine_response.use_free_base_lots(base_lots_free_to_use);""",
"""                        matching_engine_response.post_base_lots(resting_order.num_base_lots);
                        matching_engine_response.use_free_base_lots(
                            if order_packet.no_deposit_or_withdrawal() {
                                resting_order.num_base_lots
                            } else {
                                base_lots_free_to_use
                            },
                        );""",
"an ask paid from deposited funds that exceeds the trader's free base lots",
"an ask larger than the deposited funds is posted without any deposit",
"""
    let mut e = setup(std_params());
    ok(&mut e, Op::Deposit { t: 1, q: 0, b: 3 });
    let _ = run(&mut e, Op::Limit { t: 1, ff: true, p: P { dep: true, ..p0(1, 100, 5) } });
    check("funds are backed by the vaults", solvent(&e));
""")
S['C01-unfunded-ask']=('C01',)+S.pop('C20-uses-more-than-free')[1:]
seed('C22-lot-size-check','C22','src/program/processor/initialize.rs',
"        quote_atoms_per_quote_unit % num_quote_lots_per_quote_unit == 0,",
"        quote_atoms_per_quote_unit % num_quote_lots_per_quote_unit == 0\n            || quote_atoms_per_quote_unit > num_quote_lots_per_quote_unit * 2,",
"a new market whose quote lots per unit do not divide the atoms per unit",
"a market is created with a quote lot size that is not a whole number of atoms",
"""
    install();
    let mut w = World::new();
    let p = Params { qlpu: 999, ..std_params() };
    let b = body_size(p.sizes).unwrap();
    let (_m, o) = mk_market(&mut w, 3, p, key(b'B', 1), key(b'Q', 1), b);
    check("the market is refused", o.res.is_err());
""")
CARGO='''[package]
name = "%s"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
phoenix-v1 = { path = "/repo", features = ["no-entrypoint"] }
solana-program = "=1.14.9"
lib-sokoban = "=0.3.0"
borsh = "=0.9.3"
'''
MAIN='''// %s: %s
#![allow(dead_code, unused_imports, unused_variables, unused_mut)]
mod env;
mod kit;
mod world;
use env::*;
use kit::*;
use world::*;
fn main() {%s}
'''
def mk(id):
    prop,file,old,new,needs,breaks,main=S[id]
    d='/verif/seeded/'+id
    shutil.rmtree(d,ignore_errors=True)
    os.makedirs(d+'/crate/src')
    src=open('/repo/'+file).read()
    if src.count(old)!=1: raise SystemExit('%s: %d occurrences'%(id,src.count(old)))
    w='/tmp/mkseed'
    shutil.rmtree(w,ignore_errors=True); os.makedirs(w+'/a/'+os.path.dirname(file)); os.makedirs(w+'/b/'+os.path.dirname(file))
    open(w+'/a/'+file,'w').write(src); open(w+'/b/'+file,'w').write(src.replace(old,new))
    p=subprocess.run(['diff','-u','a/'+file,'b/'+file],cwd=w,capture_output=True,text=True).stdout
    open(d+'/patch.diff','w').write('diff --git a/%s b/%s\n'%(file,file)+p)
    shutil.rmtree(w)
    name='demo-'+id.lower()
    open(d+'/crate/Cargo.toml','w').write(CARGO%name)
    open(d+'/crate/src/main.rs','w').write(MAIN%(id,breaks,main))
    for f in ('env','world'): shutil.copy('/verif/replay/src/%s.rs'%f,d+'/crate/src/')
    shutil.copy('/verif/seedkit/kit.rs',d+'/crate/src/')
    lock=open('/verif/replay/Cargo.lock').read().replace('name = "replay"','name = "%s"'%name)
    open(d+'/crate/Cargo.lock','w').write(lock)
    open(d+'/demo.sh','w').write(open('/verif/seedkit/demo.sh').read().replace('@BIN@',name)); os.chmod(d+'/demo.sh',0o755)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
BAD=['C02-evict-unlocks-at-new-price','C03-self-cancel-stops','C07-last-valid-slot-excluded','C09-foreign-partial-reduce','C12-tif-event-needs-slot','C15-equal-price-evicts','C23-legacy-odd-lengths','C21-expired-by-time-shown','C22-lot-size-check','C02-partial-fill-unlock']  # caught by the existing tests, or did not build
if __name__=='__main__':
    sys.modules['seeds']=sys.modules['__main__']
    import more, more2
    for b in BAD: S.pop(b,None)
    ids=sys.argv[1:] or list(S)
    for i in ids: mk(i)
    print(len(ids))
