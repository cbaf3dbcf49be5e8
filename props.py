"""Writes properties.jsonl (one source for ids, titles, statements and anchors)."""
import json
E='src/state/markets/fifo.rs'
def P(id,title,statement,over,quant,why,files,mech,state=(),observe=()):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=quant),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(observe),hook_needed=None))
H=['histories','inputs']
L=[
P('C01','Every vault is exactly backed: no funds are created, lost or moved to others',
 "At every point between instructions, the tokens in a market's quote vault equal the quote lots owed to all its traders (free plus locked) plus the uncollected fees, times the quote lot size, and the tokens in its base vault equal the base lots owed to all its traders times the base lot size. A trade credits a maker exactly the base or quote lots of its own fills at the maker's own price, and no instruction changes the balance of a trader it does not concern.",
 H,'every history of instructions by any traders on any market configuration, and every order size, price, fee and lot size',
 'Integration tests sample a few scripted and randomised histories with one set of market parameters and compare some balances; the invariant ranges over all histories, and a loss of one lot shows only in unusual combinations (expired makers, self-trades, evictions, fee rounding).',
 [E,'src/program/processor/new_order.rs','src/program/processor/withdraw.rs','src/program/processor/deposit.rs','src/program/processor/fees.rs'],
 [('order matching and placement',E+' place_order_inner / match_order'),('trader ledger','src/state/trader_state.rs'),('token transfers','src/program/token_utils.rs')],
 [('traders','free and locked lots of each seat',E+' FIFOMarket.traders'),('unclaimed quote lot fees','fees held in the vault',E)],['token vault accounts','market account']),
P('C02','Locked funds equal the value of the resting orders that they back',
 "At every point between instructions, each trader's locked quote lots equal the sum of the values of its resting bids and its locked base lots equal the sum of the sizes of its resting asks. Every resting order has a positive size and belongs to a registered trader.",
 H,'every history of placements, matches, reductions, cancellations, expirations and evictions',
 'The tests check a few traders after a few operations; the sum must match after every path that adds, shrinks or removes an order, for all tick and lot sizes.',
 [E,'src/state/trader_state.rs'],[('locking and unlocking','src/state/trader_state.rs'),('removal paths',E+' reduce_order_inner, match_order, evict_order')],
 [('locked lots','collateral per trader','src/state/trader_state.rs')],['market account']),
P('C03','Orders match in price-time priority at the maker price, within their limit',
 "An incoming order fills only against the best-priced opposite order that is live, oldest first at equal price, at that order's price, and never beyond the incoming order's own limit price. When it stops, either its size, budget or match limit is used up or no live opposite order within its limit remains.",
 H,'every book state, every incoming order (any side, type, limit, budget, behaviour), any clock',
 'Tests build a handful of books; the guarantee quantifies over all book states including expired makers, the own orders of the taker and equal prices.',
 [E,'src/state/order_schema/order_packet.rs'],[('matching loop',E+' match_order'),('order id comparison',E+' FIFOOrderId::cmp'),('limit price to quote budget',E+' place_order_inner')],
 [('bids, asks','ordered resting orders',E)],['market events','market account']),
P('C04','The book never crosses and post-only orders never take',
 "After every instruction the best live bid is below the best live ask whenever an order was just posted, so an order is never left resting where it could trade with a live order. A post-only order produces no fill: if it would cross it is refused, or moved to one tick away from the best live opposite price, exactly as its reject flag says.",
 H,'every book state and incoming order, including expired opposite orders and prices at the ends of the range',
 'A few tests place a crossing post-only order; leaving a crossed book needs particular combinations of expired makers, match limits, partial fills and price extremes.',
 [E],[('crossing check',E+' check_for_cross'),('post-only amendment',E+' place_order_inner'),('cross check after matching with a limit',E+' place_order_inner')],[('bids, asks','resting orders',E)],['market events','market account']),
P('C05','Takers pay exactly the fee rate, stay within budget, and fees are counted once',
 "The fee charged on an order is the market's fee rate applied to its total matched quote volume, rounded up, added for a buyer and deducted for a seller, and it appears once in the market's uncollected fees. An order never trades more base lots than its base budget, nor more quote lots with fees than its quote budget. Collecting fees moves exactly the uncollected amount to the collected total.",
 H,'every fee rate from 0 to 100 per cent, every market lot and tick size, every order and book',
 'Tests use one or two fee rates and book shapes; rounding and budget errors show at particular ratios of size, fee and lot sizes.',
 [E,'src/program/processor/fees.rs'],[('fee rounding',E+' compute_fee, round_up_fee'),('budget adjustment',E+' adjusted_quote_lot_budget_post_fee_adjustment_for_*'),('collect',E+' collect_fees')],
 [('collected and unclaimed fees','fee counters',E)],['fill summary event','market account']),
P('C06','A trader never fills against itself and self-trade behaviours are exact',
 "An order never fills against a resting order of the same trader. With the abort behaviour meeting one's own order fails the whole instruction without effect; with cancel-provide the own resting order is removed and fully released; with decrement-take both the resting and the incoming order shrink by the same amount, at no fee.",
 H,'every book in which the taker has resting orders, all order types and budgets',
 'A few unit tests cover one self-trade per behaviour; the exact amounts depend on budget units, sizes and what was matched before.',
 [E],[('self-trade branch',E+' match_order')],[],['market events','market account']),
P('C07','Expired resting orders and expired order packets never trade',
 "A resting order whose last valid slot or last valid time has passed is never filled: an incoming order that meets it removes it and returns its full collateral to its owner, and an order that is not expired is never removed this way. An order submitted after its own last valid slot or time has no effect on the market.",
 H,'every slot, time, order deadline and history',
 'Tests use one or two deadlines; the boundary (last valid slot itself) and the combination with other rules are unsampled.',
 [E,'src/state/order_schema/order_packet.rs'],[('expiry of makers',E+' FIFORestingOrder::is_expired, match_order'),('expiry of packets','src/state/order_schema/order_packet.rs is_expired')],[],['market events','market account']),
P('C08','Immediate-or-cancel orders never rest and honour their minimum fill',
 "An immediate-or-cancel order never leaves an order on the book. If what it traded is below its stated minimum base or quote amount, the whole instruction fails without effect. An order with a match limit touches at most that many resting orders.",
 H,'every immediate-or-cancel order (by base, by quote, with or without limit price, minimums and match limit), every book',
 'Tests try a few sizes; the guarantee involves rounding, fees and self-trade or expired orders that count towards the limit.',
 [E,'src/program/processor/new_order.rs'],[('minimum fill check',E+' place_order_inner'),('match limit',E+' match_order'),('order type gate','src/program/processor/new_order.rs')],[],['market events','market account']),
P('C09','Only the owner can reduce or cancel an order, and gets exactly its collateral',
 "A reduce or cancel instruction affects only resting orders that belong to the trader that signed it. It removes at most what the order holds, at least the requested size or the whole order if smaller, and releases exactly the collateral of the removed lots to the owner, as free funds or as a withdrawal. An order identifier that does not exist has no effect on any book or balance.",
 H,'every set of traders, orders and identifiers, including foreign, stale and made-up ones',
 'Tests cancel a few own orders; they cannot cover all foreign identifiers, partial sizes and sides.',
 [E,'src/program/processor/reduce_order.rs','src/program/processor/cancel_multiple_orders.rs'],[('owner check',E+' reduce_order_inner'),('cancel loops',E+' cancel_*_inner')],[],['market events','market account','token accounts']),
P('C10','Withdrawals pay out at most free funds and seats are removed only when empty',
 "A withdrawal pays a trader at most its own free funds, and exactly the requested amount when that is available; locked funds cannot be withdrawn. A trader's entry in the market is removed only when it holds no funds, free or locked.",
 H,'every balance, requested amount and history of evictions of seats',
 'Tests withdraw a few amounts; boundary and multi-step histories (withdraw while orders rest, seat eviction with funds) are unsampled.',
 [E,'src/program/processor/withdraw.rs','src/program/processor/manage_seat.rs'],[('claim',E+' claim_funds_inner'),('seat removal',E+' try_remove_trader_state')],[],['token accounts','market account']),
P('C11','Order identifiers are unique, never reused, ordered, and returned to the caller',
 "Every posted order gets an identifier that no other order of that market ever had; its number grows with each posted order, and both books stay sorted by price and then by age. The identifiers returned by an order instruction are exactly those of the orders that it left on the book, in order.",
 H,'every history of orders of both sides',
 'Uniqueness and order over all histories cannot be sampled; tests look at a few identifiers.',
 [E,'src/program/processor/new_order.rs'],[('identifier creation',E+' FIFOOrderId::new_from_untyped, place_order_inner'),('return data','src/program/processor/new_order.rs')],[('order sequence number','next identifier',E)],['return data','market account']),
P('C12','Logged events describe exactly what happened to the book and balances',
 "Applying the logged fill, reduce, place, expire and evict events of an instruction to the book before it yields exactly the book after it; each event names the right order, owner, price and sizes. The fill summary states the total base, the total quote including fees and the fee of that order.",
 H,'every instruction in every state',
 'Tests look at events of a few scripted instructions; every path that changes the book must log it once with the right numbers.',
 [E,'src/program/event_recorder.rs','src/program/events.rs','src/state/markets/market_events.rs'],[('event recording',E+' record_event_fn calls'),('event conversion','src/program/event_recorder.rs add_event')],[],['log instruction data','market account']),
P('C13','Market logs are complete, ordered, sequenced and cannot be forged',
 "Each instruction that changes a market emits log records signed by the program's own log authority, whose header names the instruction, market, signer, slot, time and the market's sequence number, which then grows by one; the events are numbered consecutively from zero across the records and each record's count equals its events. The log instruction itself succeeds only with the log authority's signature and changes nothing.",
 H,'every number and kind of events, including instructions whose events span several records',
 'Tests rarely produce more events than fit in one record; batching errors show only at particular totals.',
 ['src/program/event_recorder.rs','src/program/mod.rs','src/lib.rs'],[('batching','src/program/event_recorder.rs add_event, flush'),('sequence number','src/program/event_recorder.rs new, increment_market_sequence_number'),('log gate','src/lib.rs process_instruction')],[('market sequence number','per-market counter','src/program/accounts.rs MarketHeader')],['log instruction data']),
P('C14','Cancel-many instructions cancel exactly the selected orders of the signer',
 "Cancel-all removes every resting order of the signer on both sides. Cancel-up-to removes the signer's orders of one side within the price bound, up to the given number searched and cancelled, and nothing else. Cancel-by-id removes exactly the listed orders that exist and belong to the signer, once each.",
 H,'every book, signer, bound, limits and identifier list (duplicates, foreign and absent ones included)',
 'Tests cancel in a few books; the exact selection ranges over all books and bounds.',
 [E,'src/program/processor/cancel_multiple_orders.rs'],[('selection',E+' cancel_all_orders_inner, cancel_up_to_inner, cancel_multiple_orders_by_id_inner')],[],['market events','market account']),
P('C15','A full book evicts only its least aggressive order, for a better one',
 "A book never holds more orders than its capacity. When it is full, a new order is accepted only if it is more aggressive than the least aggressive resting order of its side, which alone is removed with its full collateral returned to its owner; otherwise the instruction fails without effect.",
 H,'every full book and incoming order, both sides',
 'Filling a book takes hundreds of orders, so tests fill one book in one way.',
 [E],[('eviction',E+' place_order_inner, evict_order')],[],['market events','market account']),
P('C16','Market status gates every action and changes only along allowed transitions',
 "Orders are matched only while the market is active and posted only while it is active or post-only; deposits need one of those two; cancelling, reducing and withdrawing also work while paused or closed; nothing else works otherwise. The status changes only by the authority's status instruction and only along the documented transitions, and a closed market is removed only when its books, traders and fees are empty.",
 H,'every status, instruction, order type and funding mode, every pair of statuses',
 'Tests try a few instructions in a few statuses; the product of statuses, instructions and order kinds is not covered.',
 ['src/program/status.rs','src/program/processor/new_order.rs','src/program/processor/governance.rs','src/program/processor/withdraw.rs','src/program/processor/deposit.rs','src/program/validation/checkers/phoenix_checkers.rs'],[('status predicates','src/program/status.rs'),('loaders','src/program/validation/loaders.rs'),('transition check','src/program/status.rs assert_valid_state_transition')],[('market status','header field','src/program/accounts.rs')],['market account','instruction result']),
P('C17','Administrative actions need the right signer',
 "Only the market authority, by its signature, can change the status, name a successor, change the fee recipient, approve or retire seats, evict seats or force cancellations; only the named successor can claim authority. Collected fees go only to a token account of the recorded fee recipient, and the recipient cannot be replaced while fees are uncollected without its own signature.",
 H,'every administrative instruction with every signer, signer flag and account list',
 'Tests cover some wrong-signer cases per instruction, not all instructions with all account substitutions.',
 ['src/program/validation/loaders.rs','src/program/processor/governance.rs','src/program/processor/fees.rs','src/program/processor/manage_seat.rs'],[('authority check','src/program/validation/loaders.rs AuthorizedActionContext'),('successor claim','src/program/processor/governance.rs process_claim_authority'),('fee recipient','src/program/processor/fees.rs')],[],['market account','instruction result']),
P('C18','Only approved seats can place orders or deposit, and seats change by the rules',
 "Placing orders that may rest or that use deposited funds, and depositing, require the signer's own approved seat for that very market. A seat is created once per trader and market, unapproved, by the trader or the authority, and its approval changes only by the market authority along the allowed steps; evicting a seat or force-cancelling needs a seat that is not approved, and a successful eviction leaves the trader without an entry in the market.",
 H,'every seat state, trader, market and instruction, including seats of other markets and traders',
 'Tests use mostly valid seats and a few wrong ones.',
 ['src/program/validation/checkers/phoenix_checkers.rs','src/program/processor/manage_seat.rs','src/program/status.rs'],[('seat check','src/program/validation/checkers/phoenix_checkers.rs SeatAccountInfo'),('seat creation','src/program/processor/manage_seat.rs'),('seat transitions','src/program/status.rs SeatApprovalStatus')],[('seat approval','seat account','src/program/accounts.rs Seat')],['seat account','instruction result']),
P('C19','Substituted accounts are always rejected',
 "An instruction takes effect only if its market account belongs to the program and is a market, both vaults are the recorded vaults of that market, the trader's token accounts hold the right mints and belong to the trader, and the program, log authority and token program accounts are the genuine ones. Any other account list fails without effect, and an instruction on one market never changes another.",
 ['inputs','configurations'],'every instruction with every substitution of one or more of its accounts',
 'Negative tests exist for few instructions; the space of instruction times account substitutions is not sampled.',
 ['src/program/validation/loaders.rs','src/program/validation/checkers/phoenix_checkers.rs','src/program/validation/checkers/mod.rs'],[('account checkers','src/program/validation/checkers/'),('contexts','src/program/validation/loaders.rs')],[],['instruction result','accounts']),
P('C20','Tokens move by exactly the lots of the instruction, in the right direction',
 "Each instruction moves exactly the tokens it should: deposits and order payments from the trader to the vaults, withdrawals, released collateral and order proceeds from the vaults to the trader, each equal to the lots times the lot size. Instructions that use only deposited funds move no tokens, spend at most the trader's free funds, and credit the proceeds to them.",
 H,'every instruction, amount, lot size and free balance',
 'Tests compare balances for a few amounts with few lot sizes.',
 ['src/program/processor/new_order.rs','src/program/token_utils.rs','src/program/processor/deposit.rs','src/program/processor/withdraw.rs'],[('transfers','src/program/token_utils.rs'),('order payments','src/program/processor/new_order.rs process_new_order')],[],['token transfers','token accounts']),
P('C21','The depth view shows exactly the live book',
 "The market depth view lists for each side the best prices in order with the sum of the sizes of all live orders at that price, up to the requested number of levels, leaving out expired orders, and nothing else.",
 ['inputs','histories'],'every book, number of levels, slot and time',
 'Tests compare ladders for a few small books without expired orders.',
 [E,'src/state/markets/market_traits.rs'],[('ladder',E+' get_typed_ladder / get_ladder*')],[],['ladder view']),
P('C22','Market creation enforces parameters that then never change',
 "A market is created only with positive lot sizes and a positive tick size that divide each other and the token units as documented, a fee of at most 100 per cent, a supported size, account data of at least the needed length and the creator's signature; it then starts in post-only status with an empty book. Its mints, vaults, lot sizes, tick size, fee rate and capacity never change afterwards.",
 ['inputs','histories','configurations'],'every parameter combination, supported size and later history',
 'Tests create markets with a few valid parameter sets.',
 ['src/program/processor/initialize.rs','src/program/dispatch_market.rs',E],[('parameter checks','src/program/processor/initialize.rs'),('size dispatch','src/program/dispatch_market.rs')],[('market header','parameters','src/program/accounts.rs')],['market account','instruction result']),
P('C23','Order packets decode exactly as encoded, and legacy packets keep their meaning',
 "Decoding the encoding of any order packet gives back that packet. The two older encodings without the later optional fields decode to the same order with those fields at their defaults, and data that is not such an encoding, complete or with up to three zero bytes left out at its end, is refused.",
 ['inputs'],'every packet of every kind and every byte string',
 'Tests round-trip a few packets.',
 ['src/state/order_schema/order_packet.rs'],[('decoding','src/state/order_schema/order_packet.rs decode_order_packet')],[],['decoded packet']),
P('C24','Order batches act as their orders one by one; unaffordable orders are skipped',
 "A multi-order instruction posts exactly its listed bids and then asks, most aggressive first (neighbouring entries with the same price and deadlines count as one order), skipping an order only if it is expired or if the batch asks for skipping and the trader's remaining funds do not cover it. A single order marked to fail silently is skipped without effect exactly when the trader's funds do not cover it. No order of a batch may take.",
 H,'every batch of bids and asks, funding and flags',
 'Tests submit a few batches with ample or clearly insufficient funds.',
 ['src/program/processor/new_order.rs'],[('batch processing','src/program/processor/new_order.rs process_multiple_new_orders'),('funds check','src/program/processor/new_order.rs order_packet_has_sufficient_funds')],[],['market events','market account','token transfers']),
]
if __name__=='__main__':
    with open('/verif/properties.jsonl','w') as f:
        for p in L:
            assert len(p['title'])<=80,(p['id'],len(p['title']))
            f.write(json.dumps(p)+'\n')
