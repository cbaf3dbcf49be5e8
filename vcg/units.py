"""The verification units: which function is executed symbolically, against which contract, for which properties."""
import eng_specs as E
import eng2 as E2
import acct_specs as A
import batch, recorder, packet, ladder, ids, dispatch, getters

class U:
    def __init__(self, name, make, props, assumes=()):
        self.name, self.make, self.props, self.assumes = name, make, set(props.split(',')), list(assumes)

UNITS = []
for side in ('bid', 'ask'):
    UNITS.append(U('match_order[%s]' % side, lambda p, s=side: E.MatchOrder(p, s), 'C01,C02,C03,C05,C06,C07,C08,C09,C11,C12,C20,C22'))
    UNITS.append(U('check_for_cross[%s]' % side, lambda p, s=side: E.CheckForCross(p, s), 'C01,C02,C04,C07,C11,C12,C20,C22'))
    for v in ('Limit', 'PostOnly', 'ImmediateOrCancel'):
        UNITS.append(U('place_order[%s,%s]' % (side, v), lambda p, s=side, v=v: E.PlaceOrder(p, s, v), 'C01,C02,C03,C04,C05,C06,C07,C08,C09,C10,C11,C12,C15,C20,C22,C24'))
    UNITS.append(U('reduce_order[%s]' % side, lambda p, s=side: E2.ReduceOrder(p, s), 'C01,C02,C09,C11,C12,C20,C22'))
    UNITS.append(U('cancel_up_to[%s]' % side, lambda p, s=side: E2.CancelUpTo(p, s), 'C01,C02,C09,C11,C12,C14,C20,C22'))
for n, k, ps in (('cancel_all_orders', E2.CancelAll, 'C01,C02,C09,C11,C12,C14,C20,C22'), ('cancel_multiple_orders_by_id', E2.CancelById, 'C01,C02,C09,C11,C12,C14,C20,C22'),
                 ('claim_funds', E2.ClaimFunds, 'C01,C02,C10,C11,C12,C20,C22'), ('try_remove_trader_state', E2.RemoveTrader, 'C01,C02,C10,C11,C12'),
                 ('collect_fees', E2.CollectFees, 'C01,C05,C12,C20,C22'), ('initialize_with_params', E2.InitMarket, 'C02,C05,C11,C22'),
                 ('initialize_with_params[again]', E2.InitAgain, 'C22'), ('set_fee', E2.SetFee, 'C01,C22'),
                 ('claim_all_funds', E2.ClaimAll, 'C01,C02,C10,C12,C20,C22'), ('get_or_register_trader', E2.Register, 'C01,C02,C10,C11,C18,C22')):
    UNITS.append(U(n, k, ps))

INSTR = (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109)
for t in INSTR:
    UNITS.append(U('process_instruction[%s]' % A.TAGS[t], lambda p, t=t: (batch.Batch if t in (16, 17) else A.Instr)(p, t), 'C01,C05,C08,C09,C10,C11,C12,C13,C14,C16,C17,C18,C19,C20,C22,C24'))

for fn in ('flush', 'add_event', 'increment_market_sequence_number_and_flush'):
    UNITS.append(U('EventRecorder::' + fn, lambda p, fn=fn: recorder.Recorder(p, fn), 'C12,C13'))

for v in ('PostOnly', 'Limit', 'ImmediateOrCancel', None):
    UNITS.append(U('decode_order_packet[%s]' % (v or 'any bytes'), lambda p, v=v: packet.Packet(p, v), 'C23'))

for n, t, d in (('get_typed_ladder_with_expiration', 1, 1), ('get_typed_ladder', 1, 0), ('get_ladder_with_expiration', 0, 1), ('get_ladder', 0, 0)):
    UNITS.append(U('Market::' + n, lambda p, a=(n, t, d): ladder.Ladder(p, *a), 'C21'))

for n in ('cmp', 'partial_cmp', 'eq'):
    UNITS.append(U('FIFOOrderId::' + n, lambda p, n=n: ids.IdOrder(p, n), 'C03,C11,C15'))
for n in ('load_with_dispatch_mut', 'load_with_dispatch_init', 'load_with_dispatch', 'get_market_size'):
    UNITS.append(U(n, lambda p, n=n: dispatch.Dispatch(p, n), 'C16,C19,C22'))

for n in getters.ALL:
    UNITS.append(U('FIFOMarket::' + n, lambda p, n=n: getters.Getter(p, n), getters.PROPS + ',C01,C12'))

def lemmas():
    return [(n, f if isinstance(f, tuple) else (f,)) for n, f in E.LEMMAS.items()]

TRUSTED = ['rustc 1.75.0 MIR of /repo (-Zmir-opt-level=0), read back from its textual dump',
           'the VC generator vcg/ (symbolic semantics of MIR, joins, loop rule) and z3 5.3 / cvc5 1.1.2',
           'sokoban RedBlackTree (external crate) under an assumed contract: an ordered finite map, ordered by FIFOOrderId::cmp (under contract itself), with arbitrary capacity and address reuse']
ASSUMES = ['overflow and division-by-zero panics abort the transaction: paths that panic carry no obligation',
           'the market state read from the account satisfies the market invariant (established by initialize, preserved by every engine function: obligations tagged C02/C11)',
           'account slots of an instruction do not alias (trader accounts are not vaults, base vault is not the quote vault); the data of an account is read at one type; borrow conflicts only abort',
           'calls of other programs do not write the market account; token transfers move exactly the amount or abort; wrong signer seeds abort; program-derived addresses are uninterpreted functions of their seeds',
           'a failed or panicking instruction leaves no effect (Solana runtime)',
           'size_of MarketHeader is 576 and of Seat 128 (their Pod layout); status in 1..4 and positive lot sizes at entry of an instruction on an initialised market (established by InitializeMarket, kept by the frame obligations)',
           'a response of place_order leaves the fields of the other side zero (proved in the engine units, used by the instruction units)',
           'borsh primitives, itertools sorted_by/group_by/fold and the std iterator adapters behave as documented; pow is uninterpreted but at least 1; sums over a ladder level do not overflow']

def explain(prop, us, res):
    if not us:
        return 'no function under contract for this property; only the bounded stand-in decided'
    return 'Each unit executes the real MIR of one function from an arbitrary state satisfying the market invariant; loops by invariants, callees by contract or by execution of their MIR; every obligation is a verification condition discharged by z3 or cvc5 without any bound.'
