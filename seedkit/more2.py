"""Further planted bugs, in the format of seeds.py."""
from seeds import seed, S, F, N
seed('C01-own-expired-claimed','C01',F,
"""                self.reduce_order_inner(
                    trader_index as u32,
                    &order_id,
                    inflight_order.side.opposite(),
                    None,
                    true,
                    false,
                    record_event_fn,
                )?;
                inflight_order.match_limit -= 1;
                continue;
            }

            // Handle self trade""",
"""                self.reduce_order_inner(
                    trader_index as u32,
                    &order_id,
                    inflight_order.side.opposite(),
                    None,
                    true,
                    trader_index == current_trader_index as u64,
                    record_event_fn,
                )?;
                inflight_order.match_limit -= 1;
                continue;
            }

            // Handle self trade""",
"a taker that meets its own expired order",
"the collateral of the expired order leaves the trader's balance and stays in the vault, owed to nobody",
"""
    let mut e = setup(std_params());
    let s0 = e.w.slot;
    ok(&mut e, Op::Limit { t: 1, ff: false, p: P { lvs: Some(s0 + 5), ..p0(1, 100, 5) } });
    ok(&mut e, limit(2, 1, 101, 5));
    e.w.slot += 50;
    ok(&mut e, ioc(1, 0, Some(101), 2));
    check("vaults back exactly what the market owes", solvent(&e));
""")
seed('C06-fee-on-self-trade','C06',F,
"""                        // Self trades will count towards the match limit
                        inflight_order.match_limit -= 1;""",
"""                        // Self trades will count towards the match limit
                        if base_lots_removed < num_base_lots_quoted {
                            total_matched_adjusted_quote_lots += self.tick_size_in_quote_lots_per_base_unit
                                * order_id.price_in_ticks
                                * base_lots_removed;
                        }
                        inflight_order.match_limit -= 1;""",
"a decrement-take order that ends inside its own resting order",
"the taker pays a fee on the lots it did not trade",
"""
    let mut e = setup(std_params());
    ok(&mut e, limit(1, 1, 100, 50000));
    let o = ok(&mut e, Op::Swap { t: 1, ff: false, p: P { kind: 2, stb: 2, price: Some(100), ..p0(0, 0, 20000) } });
    let fee: u64 = evs(&o).iter().map(|x| if let Ev::Summary { fee, .. } = x { *fee } else { 0 }).sum();
    check("no fee on a self trade", fee == 0);
""")
seed('C07-limit-ignores-time','C07','src/state/order_schema/order_packet.rs',
"            if current_unix_timestamp_in_seconds > last_valid_unix_timestamp_in_seconds {",
"            if current_unix_timestamp_in_seconds > last_valid_unix_timestamp_in_seconds\n                && (self.get_last_valid_slot().is_none() || self.is_take_only())\n            {",
"a limit order whose last valid time has passed while its last valid slot has not",
"an expired order packet trades",
"""
    let mut e = setup(std_params());
    let (t0, s0) = (e.w.ts as u64, e.w.slot);
    ok(&mut e, limit(1, 1, 100, 5));
    let o = run(&mut e, Op::Limit { t: 2, ff: false, p: P { lvt: Some(t0 - 5), lvs: Some(s0 + 1000), ..p0(0, 100, 5) } });
    check("an expired packet has no effect", evs(&o).is_empty() && e.snap().asks[0].lots == 5);
""")
seed('C08-limit-waives-minimum','C08',F,
"            if matching_engine_response.num_base_lots() < min_base_lots_to_fill\n",
"            if matching_engine_response.num_base_lots()\n                < min_base_lots_to_fill.min(order_packet.base_lot_budget())\n",
"an immediate-or-cancel order whose minimum fill is above its size",
"the order is accepted although it filled less than its stated minimum",
"""
    let mut e = setup(std_params());
    ok(&mut e, limit(1, 1, 100, 5));
    let o = run(&mut e, Op::Swap { t: 2, ff: false, p: P { kind: 2, min_base: 6, ..p0(0, 100, 5) } });
    check("refused below the minimum", o.res.is_err());
""")
seed('C09-full-cancel-pays-all-free','C09',F,
"""                Some(num_quote_lots),
                Some(num_base_lots),
                false,""",
"""                Some(num_quote_lots).filter(|_| size.is_some() || side == Side::Ask),
                Some(num_base_lots),
                false,""",
"a cancel with withdrawal of a bid by a trader that also has free quote funds",
"the cancel pays out all free quote funds instead of the order's collateral",
"""
    let mut e = setup(std_params());
    ok(&mut e, Op::Deposit { t: 1, q: 1000, b: 0 });
    ok(&mut e, limit(2, 0, 90, 5));
    let s1 = e.traders[1];
    ok(&mut e, Op::Limit { t: 1, ff: true, p: P { dep: true, ..p0(0, 10, 1) } });
    let before = e.snap().ts(&s1).clone();
    ok(&mut e, Op::CancelAll { t: 1, ww: true });
    check("only the collateral is paid out", e.snap().ts(&s1).qf == before.qf);
""")
seed('C10-zero-means-all','C10',F,
"""            let quote_lots_free = num_quote_lots
                .unwrap_or(trader_state.quote_lots_free)""",
"""            let quote_lots_free = num_quote_lots
                .filter(|lots| allow_seat_eviction || *lots > QuoteLots::ZERO || trader_state.base_lots_free > BaseLots::ZERO)
                .unwrap_or(trader_state.quote_lots_free)""",
"a withdrawal of zero quote lots by a trader that has free quote lots and no free base lots",
"the withdrawal pays out all free quote lots although none were requested",
"""
    let mut e = setup(std_params());
    ok(&mut e, Op::Deposit { t: 1, q: 1000, b: 0 });
    let t1 = e.traders[1];
    ok(&mut e, Op::Withdraw { t: 1, q: Some(0), b: Some(3) });
    check("nothing is paid out", e.snap().ts(&t1).qf == 1000);
""")
seed('C11-amended-id-not-returned','C11',N,
"""                    if let Some(order_id) = order_id {
                        order_ids.push(order_id);
                    }
                    matching_engine_response
                };

                let quote_lots_deposited =""",
"""                    if let Some(order_id) =
                        order_id.filter(|id| id.price_in_ticks == Ticks::new(price_in_ticks))
                    {
                        order_ids.push(order_id);
                    }
                    matching_engine_response
                };

                let quote_lots_deposited =""",
"a batch with an order that would cross and is amended",
"the identifier of the amended order is not returned",
"""
    let mut e = setup(std_params());
    ok(&mut e, limit(1, 1, 100, 5));
    let c = |price, size| Cond { price, size, lvs: None, lvt: None };
    let o = ok(&mut e, Op::Multi { t: 2, ff: false, bids: vec![c(120, 3), c(80, 2)], asks: vec![], cid: None, beh: 0 });
    let placed: Vec<u64> = evs(&o).iter().filter_map(|x| if let Ev::Place { seq, .. } = x { Some(*seq) } else { None }).collect();
    let r = o.ret.clone().unwrap_or_default();
    check("two orders rest", placed.len() == 2);
    check("as many identifiers are returned", r.len() == 4 + 16 * 2);
""")
seed('C13-status-keeps-number','C13','src/program/event_recorder.rs',
"            market_info.get_header_mut()?.increment_sequence_number();",
"            if self.phoenix_instruction != PhoenixInstruction::ChangeSeatStatus {\n                market_info.get_header_mut()?.increment_sequence_number();\n            }",
"a change of a seat's status",
"the log records of two instructions carry the same sequence number",
"""
    let mut e = setup(std_params());
    let auth = e.m.creator;
    let n = e.snap().mseq;
    ok(&mut e, Op::SeatStatus { auth, t: 1, st: 0 });
    check("the sequence number grows by one", e.snap().mseq == n + 1);
""")
seed('C14-count-of-other-book','C14',F,
"        let num_orders = book.len();\n",
"        let num_orders = match tick_limit {\n            Some(_) => book.len().min(NUM_SEATS),\n            None => book.len(),\n        };\n",
"a cancel-up-to with a price bound on a book that holds more orders than the market has seats",
"orders within the bound are left on the book",
"""
    let mut e = setup(std_params());
    for i in 0..140 { ok(&mut e, post(1, 1, 100 + i, 1)); }
    ok(&mut e, Op::CancelUpTo { t: 1, ww: false, side: 1, lim: Some(1000), search: None, cancel: None });
    check("every order within the bound is cancelled", e.snap().asks.is_empty());
""")
seed('C15-wrong-side-full','C15',F,
"                    self.asks.len() == self.asks.capacity(),",
"                    self.asks.len().max(self.bids.len()) == self.asks.capacity(),",
"an ask placed while the bid book is full",
"a resting ask is evicted although its book has room",
"""
    let mut e = setup(std_params());
    for i in 0..512 { ok(&mut e, post(1, 0, 100 + i, 1)); }
    ok(&mut e, post(2, 1, 2000, 1));
    ok(&mut e, post(2, 1, 1000, 1));
    check("both asks rest", e.snap().asks.len() == 2);
""")
seed('C16-paused-removed','C16','src/program/status.rs',
"                | (MarketStatus::Paused, MarketStatus::Active)\n",
"                | (MarketStatus::Paused, MarketStatus::Active)\n                | (MarketStatus::Paused, MarketStatus::Tombstoned)\n",
"a paused and empty market that its authority removes without closing it",
"the status goes from paused to tombstoned",
"""
    let mut e = setup(std_params());
    let auth = e.m.creator;
    for t in 0..4 {
        ok(&mut e, Op::SeatStatus { auth, t, st: 0 });
        ok(&mut e, Op::Evict { auth, t });
    }
    ok(&mut e, Op::Status { auth, st: 3, recv: None });
    check("only a closed market is removed", run(&mut e, Op::Status { auth, st: 5, recv: None }).res.is_err());
""")
seed('C21-stops-at-expired','C21','src/state/markets/market_traits.rs',
"""                    .filter_map(|(order_id, resting_order)| {
                        if resting_order""",
"""                    .take_while(|(_, resting_order)| {
                        last_valid_slot.is_none()
                            || last_valid_unix_timestamp_in_seconds.is_some()
                            || !resting_order.is_expired(slot_expiration, 0)
                    })
                    .filter_map(|(order_id, resting_order)| {
                        if resting_order""",
"a depth view by slot alone over a book with an expired order in front of live ones",
"live levels behind an expired order are missing",
"""
    let mut e = setup(std_params());
    let s0 = e.w.slot;
    ok(&mut e, Op::Limit { t: 1, ff: false, p: P { lvs: Some(s0 + 1), ..p0(1, 100, 5) } });
    ok(&mut e, limit(1, 1, 101, 3));
    check("live levels are shown", depth(&e, 1, 5, Some(s0 + 10), None) == vec![(101, 3)]);
""")
seed('C24-merge-deadlines','C24',N,
"""                        o.last_valid_slot,
                        o.last_valid_unix_timestamp_in_seconds,
                    )
                })
                .into_iter()""",
"""                        o.last_valid_slot.filter(|_| o.last_valid_unix_timestamp_in_seconds.is_none()),
                        o.last_valid_unix_timestamp_in_seconds,
                    )
                })
                .into_iter()""",
"a batch with an order that has both a last valid slot and a last valid time",
"the order rests without its last valid slot",
"""
    let mut e = setup(std_params());
    let (t0, s0) = (e.w.ts as u64, e.w.slot);
    let bids = vec![Cond { price: 90, size: 3, lvs: Some(s0 + 5), lvt: Some(t0 + 1000) }];
    ok(&mut e, Op::Multi { t: 2, ff: false, bids, asks: vec![], cid: None, beh: 0 });
    check("the order keeps its deadline", e.snap().bids[0].expired(s0 + 6, e.w.ts));
""")
