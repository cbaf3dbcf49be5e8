"""Contracts of the program level: process_instruction, once per instruction tag, from arbitrary accounts.

The real MIR of process_instruction and of everything below it down to the market object is executed for every account
list and every instruction payload; what is stated here holds at every exit that returns Ok (an error or a panic aborts
the transaction, which the runtime rolls back)."""
import z3
from sym import *
from acct import PEng, known, PDA, DISC, Mkt, Data, Enc
from eng_specs import eq_val
from stdlib import LVec, AVec
from mir import base_name

TAGS = {0: 'Swap', 1: 'SwapWithFreeFunds', 2: 'PlaceLimitOrder', 3: 'PlaceLimitOrderWithFreeFunds', 4: 'ReduceOrder', 5: 'ReduceOrderWithFreeFunds',
        6: 'CancelAllOrders', 7: 'CancelAllOrdersWithFreeFunds', 8: 'CancelUpTo', 9: 'CancelUpToWithFreeFunds', 10: 'CancelMultipleOrdersById',
        11: 'CancelMultipleOrdersByIdWithFreeFunds', 12: 'WithdrawFunds', 13: 'DepositFunds', 14: 'RequestSeat', 15: 'Log', 16: 'PlaceMultiplePostOnlyOrders',
        17: 'PlaceMultiplePostOnlyOrdersWithFreeFunds', 100: 'InitializeMarket', 101: 'ClaimAuthority', 102: 'NameSuccessor', 103: 'ChangeMarketStatus',
        104: 'ChangeSeatStatus', 105: 'RequestSeatAuthorized', 106: 'EvictSeat', 107: 'ForceCancelOrders', 108: 'CollectFees', 109: 'ChangeFeeRecipient'}
# positions: seat, (base account, quote account, base vault, quote vault, token program), the trader whose funds move
SEAT = {1: 4, 2: 4, 3: 4, 13: 4, 16: 4, 17: 4, 106: 5, 107: 5}
VAULT = {0: 4, 4: 4, 6: 4, 8: 4, 10: 4, 12: 4, 2: 5, 13: 5, 16: 5, 106: 6, 107: 6}
NO_TOKENS = {1, 3, 5, 7, 9, 11, 14, 15, 17, 101, 102, 103, 104, 105, 109}
ORDERS = {0, 1, 2, 3, 16, 17}
AUTHORITY = {102, 103, 104, 105, 106, 107, 109}
CALLS = {0: 'place_order', 1: 'place_order', 2: 'place_order', 3: 'place_order', 16: 'place_order', 17: 'place_order', 4: 'reduce_order', 5: 'reduce_order',
         6: 'cancel_all_orders', 7: 'cancel_all_orders', 8: 'cancel_up_to', 9: 'cancel_up_to', 107: 'cancel_up_to', 10: 'cancel_multiple_orders_by_id',
         11: 'cancel_multiple_orders_by_id', 12: 'claim_funds', 106: 'claim_funds', 108: 'collect_fees'}
DISCR, STATUS, SIZES, BASE, BLS, QUOTE, QLS, TICK, AUTH, FEEREC, SEQ, SUCC, RAW = range(13)
HNAMES = ['discriminant', 'status', 'market_size_params', 'base_params', 'base_lot_size', 'quote_params', 'quote_lot_size', 'tick_size_in_quote_atoms_per_base_unit',
          'authority', 'fee_recipient', 'market_sequence_number', 'successor', 'raw_base_units_per_base_unit']
TRANSITIONS = {(1, 2), (1, 3), (1, 1), (2, 1), (2, 3), (2, 4), (2, 2), (4, 5), (4, 3), (4, 4), (4, 2), (3, 1), (3, 2), (3, 4), (3, 3)}

def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if all(isinstance(x, bool) or isz(x) and z3.is_bool(x) for x in (a, b)):
        return z3.If(zB(c), zB(a), zB(b))
    return i_ite(c, a, b)
def AND(*a):
    return b_and(*a)
def EQ(a, b):
    if isz(a) and a.sort() == Key or isz(b) and b.sort() == Key:
        return a == b
    return cmp_op('Eq', a, b)
def ONE_OF(x, vs):
    return b_or(*[EQ(x, v) for v in vs])
def IMP(a, b):
    return b_or(b_not(a), b)

class Instr:
    def __init__(self, p, tag):
        self.p, self.tag = p, tag
        self.name = 'process_instruction[%s]' % TAGS[tag]
        self.eng = e = PEng(p)
        e.tag = tag
        fs = [f for f in p.by_last['process_instruction'] if f.kind == 'fn']
        if len(fs) != 1:
            raise Unsupported('process_instruction')
        self.f = fs[0]
        self.st = State()
        self.args = e.install(self.st)
        d = p.structs.get('MarketHeader')
        names = [x[0] for x in d] if d and isinstance(d[0], (list, tuple)) else None
        if names is not None and [n for n in names][:13] != HNAMES:
            raise Unsupported('layout of MarketHeader changed: %s' % names)
        e.market_post = self.post
        e.on_recorder = self.recorder

    def ob(self, st, label, *goals):
        g = AND(*goals)
        if g is True:
            self.eng.oblige(st, label, True, where='Ok exit')
            return
        self.eng.oblige(st, label, g, where='Ok exit of %s' % TAGS[self.tag])

    # ---- access
    def scalar(self, v):
        for _ in range(6):
            if isinstance(v, (Node, Lazy)):
                v = self.eng.get(v, 0)
            else:
                return v
        raise Unsupported('scalar')
    def view(self, st, i, ty):
        d = st.mem[('DATA', i)]
        if not isinstance(d, Data) or d.ver != 0:
            raise Unsupported('account data rewritten')
        return d.view(self.eng, ('view', ty))
    def hd(self, st, *path):
        v = self.view(st, 2, 'MarketHeader')
        for k in path:
            v = self.eng.get(v, k)
        return self.scalar(v) if not (isz(v) or isinstance(v, int)) else v
    def h0(self, *path):
        return self.hd(self.st, *path)
    def seat(self, st, i, k):
        return self.eng.get(self.view(st, i, 'Seat'), k)
    def key(self, i):
        return z3.Const('acct%d.key' % i, Key)
    def owner(self, i):
        return z3.Const('acct%d.owner' % i, Key)
    def signer(self, i):
        return z3.Bool('acct%d.is_signer' % i)
    def tok(self, i, lo):
        return z3.Const('acct%d.bytes%d_%d' % (i, lo, lo + 32), Key)
    def bytes(self, n):
        return 'ix.rest as ' + n

    # ---- assumptions on the market object (its engine functions are proved against these contracts in other units)
    def post(self, eng, st, rec):
        n, v = rec[1], rec[4]
        if n == 'place_order' and isinstance(v, (Node, Lazy)):
            r = eng.get(eng.get(eng.get(v, ('v', 'Some')), 0), 1)
            num = lambda k: self.scalar(eng.get(r, k))
            side = self.packet_side(rec[3][1])
            bid = EQ(side, 0)
            zero = lambda *ks: AND(*[EQ(num(k), 0) for k in ks])
            # MatchingEngineResponse: quote_in0 base_in1 quote_out2 base_out3 quote_posted4 base_posted5 free_quote6 free_base7
            eng.assume(st, IMP(bid, zero(1, 2, 5, 7)))
            eng.assume(st, IMP(b_not(bid), zero(0, 3, 4, 6)))
            ioc = EQ(eng.discr(rec[3][1]), eng.p.enums['OrderPacket'].index('ImmediateOrCancel'))
            eng.assume(st, IMP(ioc, EQ(eng.discr(eng.get(eng.get(eng.get(v, ('v', 'Some')), 0), 0)), 0)))       # C08|no order identifier is returned
    # ---- the log records of the instruction start with the right header
    def recorder(self, e, st, c, vals, tys, dty):
        from recorder import bytes_hook, HEADER, BBuf
        g = e.resolve_local(c, tys, dty, vals)
        if g is None:
            raise Unsupported('EventRecorder::new')
        old, e.pre_hook = e.pre_hook, bytes_hook
        try:
            outs = e.run_fn(g, vals, st, 'inline', e.tyenv_of(g, tys, dty))
        finally:
            e.pre_hook = old
        n = 0
        fx = lambda ty, nm: [i for i, x in enumerate(self.p.structs[ty]) if x[0] == nm][0]
        for s, r in outs:
            d = const_int(e.discr(r))
            if d == 1:
                continue
            n += 1
            w = 'EventRecorder::new'
            O = lambda label, *gs: e.oblige(s, label, AND(*gs), where=w)
            v = e.get(e.get(r, ('v', 'Ok')), 0)
            f = lambda nm: e.get(v, fx('EventRecorder', nm))
            ix = f('log_instruction')
            data = e.get(ix, 2)
            if not isinstance(data, BBuf):
                raise Unsupported('data of the log instruction')
            segs = data.segs
            shape = [x[1] for x in segs]
            if shape != [x for x, _ in HEADER]:
                raise Unsupported('shape of the log header: %s' % shape)
            val = {nm: x[2] for (_, nm), x in zip(HEADER, segs)}
            en = self.p.enums['PhoenixMarketEvent']
            O('C13|a log record is a log instruction that starts with a header', EQ(val['instruction tag'], 15), EQ(val['variant'], en.index('Header')))
            O('C13|the log header names the instruction', EQ(val['instruction'], self.tag))
            O('C13|the log header carries the sequence number of the market', EQ(val['sequence_number'], self.hd(st, SEQ)))
            O('C13|the log header carries slot and time', EQ(val['slot'], e.int_const('clock.0', 'u64')), EQ(val['timestamp'], e.int_const('clock.4', 'i64')))
            O('C13|the log header names market and signer', EQ(val['market'], self.key(2)), EQ(val['signer'], self.key(3)))
            O('C13|log records are sent to the program itself', EQ(e.key_of(s, e.get(ix, 0)), known('PHOENIX')))
            ac = e.get(ix, 1)
            items = getattr(ac, 'items', None)
            O('C13|log records are signed by the log authority', items is not None and len(items) == 1 and AND(EQ(e.get(items[0], 0), known('LOG_AUTH')), e.get(items[0], 1)))
            t = f('state_tracker')
            O('C13|a fresh recorder has no events', *[EQ(self.scalar(e.get(t, i)), 0) for i in range(len(self.p.structs['EventStateTracker']))])
            if any(x[0] == 'phoenix_instruction' for x in self.p.structs['EventRecorder']):
                O('C13|the recorder remembers the instruction', EQ(e.discr(f('phoenix_instruction')), e.discr(vals[2])))
            sb = f('scratch_buffer')
            O('C13|a fresh recorder has no events', isinstance(sb, BBuf) and not sb.segs, EQ(e.discr(f('error_code')), 0))
        if not n:
            raise Unsupported('EventRecorder::new never succeeds')
    def packet_side(self, pk):
        e = self.eng
        out = None
        for i, v in enumerate(e.p.enums['OrderPacket']):
            s = e.discr(e.get(e.get(pk, ('v', v)), e.variant_index('OrderPacket', v, 'side')))
            out = s if out is None else ite(EQ(e.discr(pk), i), s, out)
        return out

    def run(self):
        e, t = self.eng, self.tag
        st = self.st
        if t not in (15, 100):
            e.assume(st, ONE_OF(self.h0(STATUS), [0, 1, 2, 3, 4, 5]) if t == -1 else b_or(b_not(EQ(self.h0(DISCR), DISC['MarketHeader'])), ONE_OF(self.h0(STATUS), [1, 2, 3, 4])))
        if t not in (15, 100):
            e.assume(st, cmp_op('Gt', self.h0(QLS), 0))         # header invariant: established by InitializeMarket, kept by the frame obligations
            e.assume(st, cmp_op('Gt', self.h0(BLS), 0))
        outs = e.run_fn(self.f, list(self.args), st.fork())
        n, oks = 0, []
        for s, r in outs:
            d = e.discr(r)
            c = const_int(d)
            if c == 1:
                continue
            if c is None:
                e.assume(s, EQ(d, 0))
            n += 1
            self.exit(s)
            oks.append(s)
        if n == 0:
            raise Unsupported('no successful exit of instruction %d' % t)
        if 4 <= t <= 12:
            self.works(oks)

    def works(self, oks):
        """the status of a paused or closed market does not stop the instruction: some successful run exists for each of them"""
        for k, w in ((1, 'an active'), (2, 'a post-only'), (3, 'a paused'), (4, 'a closed')):
            r = z3.unsat
            for s in oks:
                z = z3.Solver()
                z.set('timeout', 3000)
                z.add(*s.pc)
                z.add(zI(self.h0(STATUS)) == k)
                x = z.check()
                if x == z3.sat:
                    r = x
                    break
                if x == z3.unknown or s.taint:
                    r = z3.unknown
            if r == z3.unknown:
                continue                                                        # lost: undecided, not refuted
            self.eng.oblige(self.st, 'C16|the instruction can succeed on %s market' % w, r == z3.sat, where='Ok exits of %s' % TAGS[self.tag])

    # ---- pieces of the trace
    def parts(self, s):
        tr = s.trace
        self.calls = [x for x in tr if x[0] == 'market']
        self.cpis = [x[1] for x in tr if x[0] == 'cpi']
        self.tr = tr

    def exit(self, s):
        t = self.tag
        self.parts(s)
        if t == 15:
            self.ob(s, 'C13,C17,C19|the log instruction succeeds only with the log authority as signer', EQ(self.key(0), known('LOG_AUTH')), self.signer(0))
            self.ob(s, 'C13|the log instruction has no effect', len(s.trace) == 0, self.nothing_written(s))
            return
        self.common(s)
        if t != 100:
            self.status_gate(s)
            self.header_frame(s)
        self.authority(s)
        self.seats(s)
        self.accounts(s)
        self.market_calls(s)
        self.tokens(s)
        self.returned(s)
        m = getattr(self, 'x%d' % t, None)
        if m:
            m(s)

    def nothing_written(self, s):
        return AND(*[self.data_same(s, i) for i in range(14)])
    def data_same(self, s, i, but=()):
        a, b = s.mem[('DATA', i)], self.st.mem[('DATA', i)]
        if not isinstance(a, Data) or a.ver != b.ver:
            return False
        return AND(*[eq_val(self.eng, s, a.views[k], self.st, b.view(self.eng, k)) for k in a.views if k not in but])

    def common(self, s):
        t = self.tag
        self.ob(s, 'C19,C13|the program and log authority accounts are the genuine ones', EQ(self.key(0), known('PHOENIX')), EQ(self.key(1), known('LOG_AUTH')))
        self.ob(s, 'C19,C17|the signer account signed', self.signer(3))
        self.ob(s, 'C19|the market account belongs to the program', EQ(self.owner(2), known('PHOENIX')))
        if t != 100:
            self.ob(s, 'C19|the market account is a market', EQ(self.h0(DISCR), DISC['MarketHeader']))
        self.ob(s, 'C19|only the market account of the instruction is changed', AND(*[x[2] == 2 for x in self.tr if x[0] in ('load', 'market')]),
                AND(*[self.data_same(s, i) for i in range(14) if i != 2 and not (t == 104 and i == 4) and not (t == 14 and i == 4) and not (t == 105 and i == 6)]))
        rec = [x for x in self.tr if x[0] == 'recorder']
        first = [i for i, x in enumerate(self.tr) if x[0] in ('market', 'cpi', 'load')]
        self.ob(s, 'C13|the event recorder exists before anything happens', len(rec) == 1, rec and (not first or self.tr.index(rec[0]) < first[0]))
        gone = any(x[0] == 'realloc' for x in self.tr)
        fl = [i for i, x in enumerate(self.tr) if x[0] == 'flush']
        last = [i for i, x in enumerate(self.tr) if x[0] in ('market', 'cpi')]
        fin = [i for i, x in enumerate(self.tr) if x[0] == 'finish']
        self.ob(s, 'C13|the log is closed once, after the work is done', len(fin) == 1 and isinstance(self.tr[fin[0]][1], Lazy) and self.tr[fin[0]][1].name == 'recorder' and (not last or fin[0] > last[-1]))
        self.ob(s, 'C13|no log is flushed before the work is done', not fl or not last or fl[-1] > last[-1])
        if t == 100:
            self.ob(s, 'C13|the sequence number of a new market is one', EQ(self.hd(s, SEQ), 1))
        elif not gone:
            self.ob(s, 'C13|the market sequence number grows by one', EQ(self.hd(s, SEQ), i_add(self.h0(SEQ), 1)))

    def status_gate(self, s):
        t, S = self.tag, self.h0(STATUS)
        if t in (2, 3, 13, 14, 16, 17):
            self.ob(s, 'C16|posting, depositing and requesting a seat need an active or post-only market', ONE_OF(S, [1, 2]))
        if t in (0, 1):
            self.ob(s, 'C16|swaps need an active market', EQ(S, 1))
        if t in ORDERS and t < 16:
            for x in self.calls:
                if x[1] == 'place_order':
                    r = self.eng.get(self.eng.get(self.eng.get(x[4], ('v', 'Some')), 0), 1)
                    num = lambda k: self.scalar(self.eng.get(r, k))
                    self.ob(s, 'C16|an order is matched only while the market is active', IMP(b_or(cmp_op('Gt', self.matched(r, 0), 0), cmp_op('Gt', self.matched(r, 1), 0)), EQ(S, 1)))
        if t in (4, 6, 8, 10, 12):
            self.ob(s, 'C16|cancelling, reducing and withdrawing need a live market', ONE_OF(S, [1, 2, 3, 4]))
        if t not in (103,):
            self.ob(s, 'C16|the status changes only by the status instruction', EQ(self.hd(s, STATUS), S), not any(x[0] in ('realloc', 'assign') for x in self.tr))
        if t not in (103,):
            self.ob(s, 'C16|a market account is removed only by the status instruction', not any(x[0] in ('realloc', 'assign') for x in self.tr))

    def matched(self, r, k):
        """lots of quote (0) or base (1) that the order traded: what it took in or gave out on either side"""
        num = lambda i: self.scalar(self.eng.get(r, i))
        return i_add(num(0), num(2)) if k == 0 else i_add(num(1), num(3))

    def header_frame(self, s):
        t = self.tag
        allowed = {SEQ} | {101: {AUTH}, 102: {SUCC}, 103: {STATUS}, 109: {FEEREC}}.get(t, set())
        v1, v0 = self.view(s, 2, 'MarketHeader'), self.view(self.st, 2, 'MarketHeader')
        def unch(ks):
            if isinstance(v1, Lazy):
                return True
            if isinstance(v1, Node) and v1.base is None and not set(v1.f) >= set(ks):
                return False
            return AND(*[eq_val(self.eng, s, self.eng.get(v1, k), self.st, self.eng.get(v0, k)) for k in ks if k in v1.f])
        self.ob(s, 'C22,C19,C20|mints, vaults, lot sizes, tick size and capacity never change', unch([k for k in (DISCR, SIZES, BASE, BLS, QUOTE, QLS, TICK, RAW) if k not in allowed]))
        self.ob(s, 'C17|authority, successor and fee recipient change only by their own instructions', unch([k for k in (AUTH, FEEREC, SUCC) if k not in allowed]))
        if isinstance(v1, Node):
            self.ob(s, 'C22|the padding of the header does not change', unch([k for k in v1.f if isinstance(k, int) and k > RAW]))

    def authority(self, s):
        t = self.tag
        if t in AUTHORITY:
            self.ob(s, 'C17|the signer is the market authority', EQ(self.h0(AUTH), self.key(3)), self.signer(3))
        if t == 101:
            self.ob(s, 'C17|only the named successor claims authority', EQ(self.h0(SUCC), self.key(3)), self.signer(3))
            self.ob(s, 'C17|the claimant becomes the authority', EQ(self.hd(s, AUTH), self.key(3)))
        if t == 102:
            self.ob(s, 'C17|the named successor is recorded', EQ(self.hd(s, SUCC), z3.Const(self.bytes('Pubkey'), Key)))
        if t == 109:
            self.ob(s, 'C17|the recipient is replaced without its signature only when no fees are uncollected',
                    b_or(EQ(z3.Int('mkt2.v0.fees.0'), 0), AND(EQ(self.key(5), self.h0(FEEREC)), self.signer(5), cmp_op('Gt', self.eng.naccts, 5))))
            self.ob(s, 'C17|the new recipient is recorded', EQ(self.hd(s, FEEREC), self.key(4)))

    def seats(self, s):
        t = self.tag
        if t in SEAT:
            i = SEAT[t]
            trader = self.key(4) if i == 5 else self.key(3)
            ok = [EQ(self.owner(i), known('PHOENIX')), EQ(self.seat(self.st, i, 0), DISC['Seat']), EQ(self.seat(self.st, i, 1), self.key(2)), EQ(self.seat(self.st, i, 2), trader)]
            self.ob(s, 'C18,C19|the seat is the seat of the trader for that market', *ok)
            self.ob(s, 'C18,C19|the seat account has the address derived for that market and trader', EQ(self.key(i), PDA(z3.StringVal('b"seat"'), self.key(2), trader)))
            if i == 4:
                self.ob(s, 'C18|the seat is approved', EQ(self.seat(self.st, i, 3), 1))
            else:
                self.ob(s, 'C18,C17|the seat is not approved', b_not(EQ(self.seat(self.st, i, 3), 1)))
        if t not in (14, 104, 105):
            self.ob(s, 'C18|no seat changes', AND(*[self.data_same(s, i) for i in range(14) if i != 2]))
        if t != 104 and t != 13 and t not in ORDERS:
            self.ob(s, 'C18|no trader is registered', not any(x[1] == 'get_or_register_trader' for x in self.calls))
        if t in (14, 105):
            i = 4 if t == 14 else 6
            trader = self.key(3) if t == 14 else self.key(5)
            self.ob(s, 'C18|the seat has the address derived for that market and trader', EQ(self.key(i), PDA(z3.StringVal('b"seat"'), self.key(2), trader)))
            kinds = [(x.kind, x.f) for x in self.cpis]
            cr = [f for k, f in kinds if k == 'system_create_account']
            asg = [f for k, f in kinds if k == 'system_assign']
            al = [f for k, f in kinds if k == 'system_allocate']
            own = (cr or asg)
            self.ob(s, 'C18|the seat account is created by the program for itself', len(cr) == 1 and not asg or len(asg) == 1 and len(al) == 1 and not cr,
                    *[AND(EQ(f['account'], self.key(i)), EQ(f['owner'], known('PHOENIX'))) for f in own], *[EQ(f['space'], 128) for f in (cr or al)])
            payer = self.key(3) if t == 14 else self.key(4)
            self.ob(s, 'C18,C20|the payer signed and pays for the seat', self.signer(3 if t == 14 else 4), *[EQ(f['src'], payer) for k, f in kinds if 'src' in f and k.startswith('system')])
            self.ob(s, 'C18,C20|the payer funds the seat and nothing else', *[EQ(f['account'], self.key(i)) for k, f in kinds if k.startswith('system')])
            self.ob(s, 'C18|an existing seat is never created again', ONE_OF_Z(z3.Int('acct%d.data_len' % i)))
            v = self.view(s, i, 'Seat')
            g = lambda k: self.eng.get(v, k)
            self.ob(s, 'C18|a new seat is unapproved and names its market and trader', EQ(g(0), DISC['Seat']), EQ(g(1), self.key(2)), EQ(g(2), trader), EQ(g(3), 0))
            self.ob(s, 'C18,C01|nothing else happens', not self.calls, all(k.startswith('system') for k, f in kinds))
        if t == 104:
            old, new = self.seat(self.st, 4, 3), self.seat(s, 4, 3)
            want = self.eng.discr(Lazy(self.bytes('SeatApprovalStatus'), 'SeatApprovalStatus'))
            self.ob(s, 'C18,C19|the seat belongs to that market', EQ(self.owner(4), known('PHOENIX')), EQ(self.seat(self.st, 4, 0), DISC['Seat']), EQ(self.seat(self.st, 4, 1), self.key(2)))
            self.ob(s, 'C18|seat approval changes only along the allowed steps', EQ(new, want), b_or(EQ(old, new), *[AND(EQ(old, a), EQ(new, b)) for a, b in ((0, 1), (1, 0), (1, 2), (0, 2))]))
            v1, v0 = self.view(s, 4, 'Seat'), self.view(self.st, 4, 'Seat')
            self.ob(s, 'C18|nothing else of the seat changes', AND(*[eq_val(self.eng, s, self.eng.get(v1, k), self.st, self.eng.get(v0, k)) for k in (0, 1, 2)]))
            reg = [x for x in self.calls if x[1] == 'get_or_register_trader']
            up = AND(EQ(old, 0), EQ(new, 1))
            if reg:
                self.ob(s, 'C18|a trader is registered only when its seat becomes approved', up, len(reg) == 1, EQ(reg[0][3][0], self.seat(self.st, 4, 2)))
                self.ob(s, 'C18|an approved trader is registered', EQ(self.eng.discr(reg[0][4]), 1))
            else:
                self.ob(s, 'C18|a newly approved trader is registered', b_not(up))

    def accounts(self, s):
        t = self.tag
        if t == 106:
            ms = [m for m in s.mem.values() if isinstance(m, Mkt) and m.i == 2]
            for m in ms:
                idx = self.eng.mk('%s(%s)' % (m.part('get_trader_index'), self.key(4)), 'Option<u32>')
                self.ob(s, 'C18,C10|after an eviction the trader is no longer registered', EQ(self.eng.discr(idx), 0))
        if t in VAULT:
            b = VAULT[t]
            trader = self.key(4) if t in (106, 107) else self.key(3)
            ok = []
            for i, par in ((b, BASE), (b + 1, QUOTE)):
                ok += [EQ(self.owner(i), known('SPL_TOKEN')), EQ(self.tok(i, 0), self.h0(par, 2)), EQ(self.tok(i, 32), trader)]
            self.ob(s, 'C19|the token accounts hold the right mints and belong to the trader', *ok)
            ok = []
            for i, par in ((b + 2, BASE), (b + 3, QUOTE)):
                ok += [EQ(self.key(i), self.h0(par, 3)), EQ(self.owner(i), known('SPL_TOKEN')), EQ(self.tok(i, 0), self.h0(par, 2)), EQ(self.tok(i, 32), self.h0(par, 3))]
            self.ob(s, 'C19|both vaults are the vaults recorded in the market', *ok)
            self.ob(s, 'C19|the token program is the genuine one', EQ(self.key(b + 4), known('SPL_TOKEN')))
        if t == 108:
            self.ob(s, 'C17,C19|fees go to a token account of the recorded recipient', EQ(self.owner(4), known('SPL_TOKEN')), EQ(self.tok(4, 0), self.h0(QUOTE, 2)), EQ(self.tok(4, 32), self.h0(FEEREC)))
            self.ob(s, 'C19|the quote vault is the vault recorded in the market', EQ(self.key(5), self.h0(QUOTE, 3)), EQ(self.owner(5), known('SPL_TOKEN')))
            self.ob(s, 'C19|the token program is the genuine one', EQ(self.key(6), known('SPL_TOKEN')))

    # ---- the market
    def market_calls(self, s):
        t = self.tag
        want = CALLS.get(t)
        readers = ('get_trader_state', 'get_trader_index', 'get_trader_state_from_index')
        names = [x[1] for x in self.calls if x[1] not in readers]
        if t in (0, 1, 2, 3):
            self.ob(s, 'C24,C01|the instruction places its order and does nothing else to the market', names in ([want], []))
        elif t in (10, 11):
            self.ob(s, 'C14,C09,C01|the instruction cancels and does nothing else to the market', names in ([want], []))
        elif t in (16, 17):
            pass
        elif t == 13:
            self.ob(s, 'C20,C01|a deposit only credits the depositor', names in (['get_or_register_trader', 'get_trader_state_mut'], ['get_trader_state_mut']))
        elif t == 100:
            self.ob(s, 'C22|the new market is initialised and its fee set', sorted(names) == ['initialize_with_params', 'set_fee'])
        elif t == 104:
            self.ob(s, 'C18,C01|a seat change only registers', all(n == 'get_or_register_trader' for n in names))
        elif want is None:
            self.ob(s, 'C01,C16,C17|the instruction does not touch the market', names == [])
        else:
            self.ob(s, 'C09,C10,C14,C01|the instruction makes exactly one change to the market', names == [want])
        trader = self.key(4) if t in (106, 107) else self.key(3)
        for x in self.calls:
            if x[1] == want and t != 108:
                self.ob(s, 'C09,C10,C14,C20,C01|the market acts for the trader of the instruction', EQ(x[3][0], trader))
                self.params(s, x)
            if x[1] == want:
                self.fn_args(s, x)

    # position of the event recorder among the arguments of a market function, of the clock
    REC = {'place_order': 2, 'cancel_order': 5, 'reduce_order': 5, 'cancel_all_orders': 2, 'cancel_up_to': 6, 'cancel_multiple_orders_by_id': 3, 'collect_fees': 0}
    def fn_args(self, s, x):
        """the closures given to the market really record the event and read the clock"""
        e = self.eng
        i = self.REC.get(x[1])
        if i is None:
            return
        s0 = x[5].fork()
        ev = e.mk('any.event', 'MarketEvent<Pubkey>')
        for s1, _ in e.invoke(x[3][i], [ev], s0, '()'):
            new = s1.trace[len(x[5].trace):]
            good = len(new) == 1 and new[0][0] == 'add_event' and isinstance(new[0][1], Lazy) and new[0][1].name == 'recorder'
            e.oblige(s1, 'C12|every event of the market goes to the log of the instruction', AND(good, eq_val(e, s1, new[0][2], s1, ev)) if good else False, where=TAGS[self.tag])
        if x[1] == 'place_order':
            s0 = x[5].fork()
            for s1, r in e.invoke(x[3][3], [], s0, '(u64, u64)'):
                ts = e.int_const('clock.4', 'i64')
                slot, unix = e.get(r, 0), e.get(r, 1)
                e.oblige(s1, 'C08|orders are matched at the time of the cluster', EQ(slot, e.int_const('clock.0', 'u64')), where=TAGS[self.tag])
                e.oblige(s1, 'C08|orders are matched at the time of the cluster', IMP(cmp_op('Ge', ts, 0), EQ(unix, ts)), where=TAGS[self.tag])
    def fld(self, v, *path):
        for k in path:
            v = self.eng.get(v, k)
        return self.scalar(v) if isinstance(v, (Node, Lazy)) and not (isinstance(v.ty, str) and v.ty.startswith('Option')) else v
    def opt_is(self, v, w):
        """two Option values carry the same thing"""
        dv, dw = self.eng.discr(v), self.eng.discr(w)
        pv, pw = self.scalar(self.eng.get(self.eng.get(v, ('v', 'Some')), 0)), self.scalar(self.eng.get(self.eng.get(w, ('v', 'Some')), 0))
        return AND(EQ(dv, dw), IMP(EQ(dv, 1), EQ(pv, pw)))

    def params(self, s, x):
        """the market is asked for exactly what the instruction says"""
        t, a, e = self.tag, x[3], self.eng
        L = lambda n: Lazy(self.bytes(n), n)
        if t in (4, 5):
            q = L('ReduceOrderParams')
            b = e.get(q, 0)
            self.ob(s, 'C09|the order reduced is the one named', EQ(self.fld(a[1], 0), self.scalar(e.get(b, 1))), EQ(self.fld(a[1], 1), self.scalar(e.get(b, 2))), EQ(e.discr(a[2]), e.discr(e.get(b, 0))))
            self.ob(s, 'C09|the size reduced is the one requested', EQ(e.discr(a[3]), 1), EQ(self.scalar(e.get(e.get(a[3], ('v', 'Some')), 0)), self.scalar(e.get(q, 1))))
            self.ob(s, 'C20,C09|the collateral is paid out exactly when withdrawing', a[4] if t == 4 else b_not(a[4]))
        if t in (6, 7):
            self.ob(s, 'C20,C14|the collateral is paid out exactly when withdrawing', a[1] if t == 6 else b_not(a[1]))
        if t in (8, 9, 107):
            q = L('CancelUpToParams')
            self.ob(s, 'C14|the cancellation uses the side, price bound and limits of the instruction', EQ(e.discr(a[1]), e.discr(e.get(q, 0))),
                    self.opt_is(a[2], e.get(q, 2)), self.opt_is(a[3], e.get(q, 3)), self.opt_is(a[4], e.get(q, 1)))
            self.ob(s, 'C20,C14|the collateral is paid out exactly when withdrawing', b_not(a[5]) if t == 9 else a[5])
        if t in (10, 11):
            self.ob(s, 'C20,C14|the collateral is paid out exactly when withdrawing', a[2] if t == 10 else b_not(a[2]))
        if t == 12:
            q = L('WithdrawParams')
            self.ob(s, 'C10|the amounts withdrawn are the ones requested', self.opt_is(a[1], e.get(q, 0)), self.opt_is(a[2], e.get(q, 1)))
            self.ob(s, 'C10|a withdrawal does not remove the trader', b_not(a[3]))
        if t == 106:
            self.ob(s, 'C10,C18|an eviction withdraws everything and removes the trader', EQ(e.discr(a[1]), 0), EQ(e.discr(a[2]), 0), a[3])

    # ---- tokens
    def tokens(self, s):
        t = self.tag
        tr = [x.f for x in self.cpis if x.kind == 'token_transfer']
        if t in NO_TOKENS:
            self.ob(s, 'C20,C01|no tokens move', not tr)
            if t not in (14, 105):
                self.ob(s, 'C20,C19|no other program is called', not self.cpis)
            if t in (5, 7, 9, 11):
                for x in self.calls:
                    if x[1] == CALLS[t]:
                        q, b = self.released(x)
                        self.ob(s, 'C20,C01|nothing is left unpaid', EQ(q, 0), EQ(b, 0))
            if t in (1, 3):
                for x in self.calls:
                    if x[1] == 'place_order':
                        q, b = self.due(x)
                        self.ob(s, 'C20,C01|nothing is left to be paid by the trader', EQ(q, 0), EQ(b, 0))
            return
        if t == 100:
            self.ob(s, 'C20,C22|no tokens move', not tr)
            return
        self.ob(s, 'C20|only token transfers are made', len(tr) == len(self.cpis))
        bv, qv, prog = self.h0(BASE, 3), self.h0(QUOTE, 3), known('SPL_TOKEN')
        if t == 108:
            self.ob(s, 'C17,C20|fees go from the quote vault to the recipient account', *[AND(EQ(f['src'], qv), EQ(f['dst'], self.key(4)), EQ(f['auth'], qv), EQ(f['prog'], prog)) for f in tr])
            c = [x for x in self.calls if x[1] == 'collect_fees']
            amt = 0
            for f in tr:
                amt = i_add(amt, f['amount'])
            self.ob(s, 'C05,C17,C20,C01|exactly the collected fees are paid', len(c) == 1, EQ(amt, i_mul(self.scalar(c[0][4]), self.h0(QLS))) if len(c) == 1 else False)
            return
        b = VAULT[t]
        ba, qa = self.key(b), self.key(b + 1)
        me = self.key(3)
        pat = {'base_out': (bv, ba, bv), 'quote_out': (qv, qa, qv), 'base_in': (ba, bv, me), 'quote_in': (qa, qv, me)}
        if t in (4, 6, 8, 10, 12, 106, 107):
            legal = ('base_out', 'quote_out')
        elif t in (13, 16):
            legal = ('base_in', 'quote_in')
        else:
            legal = tuple(pat)
        is_ = lambda f, k: AND(EQ(f['src'], pat[k][0]), EQ(f['dst'], pat[k][1]), EQ(f['auth'], pat[k][2]), EQ(f['prog'], prog))
        self.ob(s, 'C20,C19,C01|tokens move only between the trader and the vaults of the market', *[b_or(*[is_(f, k) for k in legal]) for f in tr])
        # the vaults and the trader's accounts are four different accounts (DESIGN.md, assumptions)
        distinct = z3.Distinct(bv, qv, ba, qa)
        def total(k):
            a = 0
            for f in tr:
                a = i_add(a, ite(is_(f, k), f['amount'], 0))
            return a
        if t in (4, 6, 8, 10, 12, 106, 107):
            x = [x for x in self.calls if x[1] == CALLS[t]]
            if x:
                q, bb = self.released(x[0])
                w = (i_mul(q, self.h0(QLS)), i_mul(bb, self.h0(BLS)))
            else:
                w = (0, 0)
            want = {'quote_out': w[0], 'base_out': w[1]}
        elif t == 13:
            q = Lazy(self.bytes('DepositParams'), 'DepositParams')
            want = {'quote_in': i_mul(self.scalar(self.eng.get(q, 0)), self.h0(QLS)), 'base_in': i_mul(self.scalar(self.eng.get(q, 1)), self.h0(BLS))}
        elif t in (0, 2):
            x = [x for x in self.calls if x[1] == 'place_order']
            if x:
                r = self.eng.get(self.eng.get(self.eng.get(x[0][4], ('v', 'Some')), 0), 1)
                num = lambda k: self.scalar(self.eng.get(r, k))
                q, bb = self.due(x[0])
                want = {'quote_in': i_mul(q, self.h0(QLS)), 'base_in': i_mul(bb, self.h0(BLS)), 'quote_out': i_mul(num(2), self.h0(QLS)), 'base_out': i_mul(num(3), self.h0(BLS))}
            else:
                want = {k: 0 for k in pat}
        else:
            return
        for k, w in want.items():
            self.ob(s, 'C20,C01|%s' % {'quote_in': 'the trader pays in exactly the quote due', 'base_in': 'the trader pays in exactly the base due', 'quote_out': 'exactly the quote released is paid out', 'base_out': 'exactly the base released is paid out'}[k],
                    IMP(distinct, EQ(total(k), w)))

    def released(self, x):
        """(quote, base) lots that the market released; an absent response means none"""
        e, v = self.eng, x[4]
        r = e.get(e.get(v, ('v', 'Some')), 0)
        some = EQ(e.discr(v), 1)
        return ite(some, self.scalar(e.get(r, 2)), 0), ite(some, self.scalar(e.get(r, 3)), 0)
    def due(self, x):
        e = self.eng
        r = e.get(e.get(e.get(x[4], ('v', 'Some')), 0), 1)
        num = lambda k: self.scalar(e.get(r, k))
        return i_sub(i_add(num(0), num(4)), num(6)), i_sub(i_add(num(1), num(5)), num(7))

    # ---- orders that fail silently
    def pk_field(self, pk, field, dflt=None):
        """a field of an order packet, by name, over its variants; dflt for a variant without it"""
        e = self.eng
        out = None
        for i, v in enumerate(e.p.enums['OrderPacket']):
            try:
                j = e.variant_index('OrderPacket', v, field)
            except Unsupported:
                if dflt is None:
                    raise
                j = None
            x = dflt if j is None or (v == 'ImmediateOrCancel' and field == 'price_in_ticks') else e.get(e.get(pk, ('v', v)), j)
            if x is None:
                raise Unsupported('field %s of %s' % (field, v))
            if isinstance(x, (Node, Lazy)):
                x = e.discr(x) if field == 'side' else self.scalar(x)
            out = x if out is None else ite(EQ(e.discr(pk), i), x, out)
        return out
    def free_lots(self, trader):
        """(base, quote) free lots of the trader in the market as the instruction found it"""
        e = self.eng
        idx = e.mk('mkt2.v0.get_trader_index(%s)' % trader, 'Option<u32>')
        k = self.scalar(e.get(e.get(idx, ('v', 'Some')), 0))
        ts = Lazy('mkt2.v0.get_trader_state_from_index(%s)*' % k, 'TraderState')
        return self.scalar(e.get(ts, 3)), self.scalar(e.get(ts, 1))
    def funds_cover(self, s, side, price, lots):
        e, t = self.eng, self.tag
        base, quote = self.free_lots(self.key(3))
        if t in VAULT:
            amt = lambda i: z3.Int('acct%d.v0.u64@64' % i)
            base = i_add(base, e.divrem(s, 'Div', amt(VAULT[t]), self.h0(BLS)))
            quote = i_add(quote, e.divrem(s, 'Div', amt(VAULT[t] + 1), self.h0(QLS)))
        need = e.divrem(s, 'Div', i_mul(i_mul(price, z3.Int('mkt2.v0.tick.0')), lots), z3.Int('mkt2.v0.blpbu.0'))
        return ite(EQ(side, 0), cmp_op('Ge', quote, need), cmp_op('Ge', base, lots))
    def silent(self, s):
        pks = [x[1] for x in s.trace if x[0] == 'packet']
        if len(pks) != 1:
            raise Unsupported('the decoded order packet')
        e = self.eng
        pk = e.get(e.get(pks[0], ('v', 'Some')), 0)
        placed = [x for x in self.calls if x[1] == 'place_order']
        flag = self.pk_field(pk, 'fail_silently_on_insufficient_funds', False)
        if self.tag in (0, 1):
            self.ob(s, 'C24,C20|a swap is always attempted', len(placed) == 1)
        else:
            funds = self.funds_cover(s, self.pk_field(pk, 'side'), self.pk_field(pk, 'price_in_ticks', 0), self.pk_field(pk, 'num_base_lots'))
            if placed:
                self.ob(s, 'C24|an order that is not covered and marked to fail silently is not placed', IMP(flag, funds))
            else:
                self.ob(s, 'C24|an order is skipped only if it asks for that and is not covered', flag, b_not(funds))
        for x in placed:
            self.ob(s, 'C24,C23|the order placed is the one in the instruction', self.same_packet(s, x[3][1], pk))
    def same_packet(self, s, a, b):
        e = self.eng
        return eq_val(e, s, a, s, b)

    # ---- the identifiers handed back to the caller
    def order_id(self, rec):
        return self.eng.get(self.eng.get(self.eng.get(rec[4], ('v', 'Some')), 0), 0)
    def returned(self, s):
        e = self.eng
        ret = [(i, x[1]) for i, x in enumerate(s.trace) if x[0] == 'retdata']
        if self.tag not in ORDERS:
            self.ob(s, 'C11|no order identifiers are returned', not ret)
            return
        last = [i for i, x in enumerate(s.trace) if x[0] in ('cpi', 'finish', 'flush')]
        self.ob(s, 'C11|the identifiers are returned after the last call of another program', len(ret) <= 1, not ret or not last or ret[0][0] > max(last))
        self.ids(s, [v for _, v in ret])
    def ids(self, s, ret):
        e = self.eng
        got = []
        for v in ret:
            if not isinstance(v, Enc) or not isinstance(v.v, LVec):
                raise Unsupported('the data returned')
            got = v.v.items
        want = [self.order_id(x) for x in self.calls if x[1] == 'place_order']
        label = 'C11|the identifiers returned are exactly those of the orders posted'
        if len(want) > 1 or len(got) > 1:
            self.ob(s, label, False)
            return
        for w in want:
            self.ob(s, label, EQ(e.discr(w), 1 if got else 0))
            if got:
                self.ob(s, label, eq_val(e, s, got[0], s, e.get(e.get(w, ('v', 'Some')), 0)))
        if not want:
            self.ob(s, label, not got)

    # ---- single instructions
    def x0(self, s): self.silent(s)
    def x1(self, s): self.silent(s)
    def x2(self, s): self.silent(s)
    def x3(self, s): self.silent(s)
    def x13(self, s):
        e = self.eng
        ts = [x for x in self.calls if x[1] in ('get_trader_state_mut', 'get_trader_state_from_index_mut')]
        if len(ts) != 1 or not isinstance(ts[0][4], Ref) or ts[0][1] != 'get_trader_state_mut':
            raise Unsupported('trader state of the depositor')
        self.ob(s, 'C20,C01|the depositor is credited', EQ(ts[0][3][0], self.key(3)))
        self.ob(s, 'C18,C20,C01|a deposit registers nobody but the depositor', *[EQ(x[3][0], self.key(3)) for x in self.calls if x[1] == 'get_or_register_trader'])
        q = Lazy(self.bytes('DepositParams'), 'DepositParams')
        rt = ts[0][4]
        new, old = e.load(s, rt), e.expand(Lazy(rt.root[1], 'TraderState'))
        g = lambda v, k: self.scalar(e.get(v, k))
        self.ob(s, 'C20,C01|exactly the lots deposited are credited as free funds', EQ(g(new, 1), i_add(g(old, 1), self.scalar(e.get(q, 0)))), EQ(g(new, 3), i_add(g(old, 3), self.scalar(e.get(q, 1)))))
        self.ob(s, 'C02,C01|a deposit locks nothing', EQ(g(new, 0), g(old, 0)), EQ(g(new, 2), g(old, 2)))

    def x103(self, s):
        S = self.h0(STATUS)
        want = self.eng.discr(Lazy(self.bytes('MarketStatus'), 'MarketStatus'))
        self.ob(s, 'C16|the status follows an allowed transition', b_or(*[AND(EQ(S, a), EQ(want, b)) for a, b in sorted(TRANSITIONS)]))
        gone = [x for x in self.tr if x[0] in ('realloc', 'assign')]
        if gone:
            z = lambda n: EQ(z3.Int('mkt2.v0.%s' % n), 0)
            self.ob(s, 'C16|a market is removed only by the tombstone status', EQ(want, 5))
            self.ob(s, 'C16,C01|a market is removed only when its books, traders and fees are empty', z('bids.len'), z('asks.len'), z('traders.len'), z('fees.0'))
            self.ob(s, 'C16|the removed account is given back empty', AND(*[AND(x[1] == 2, EQ(x[2], 0)) if x[0] == 'realloc' else AND(x[1] == 2, EQ(x[2], known('SYSTEM'))) for x in gone]), len(gone) == 2)
            l0 = lambda i: z3.Int('acct%d.lamports' % i)
            lam = lambda i: self.eng.load(s, Ref(('ACCF', i, 'lam*')))
            has = cmp_op('Gt', self.eng.naccts, 4)
            self.ob(s, 'C16,C01|the lamports of the account go to the receiver or the authority', EQ(lam(2), 0),
                    ite(has, AND(EQ(lam(4), i_add(l0(4), l0(2))), EQ(lam(3), l0(3))), AND(EQ(lam(3), i_add(l0(3), l0(2))), EQ(lam(4), l0(4)))))
        else:
            self.ob(s, 'C16|the new status is the one requested', EQ(self.hd(s, STATUS), want), b_not(EQ(want, 5)))

    def x100(self, s):
        e = self.eng
        q = Lazy(self.bytes('InitializeParams'), 'InitializeParams')
        names = [x[0] for x in self.p.structs['InitializeParams']] if isinstance(self.p.structs['InitializeParams'][0], (list, tuple)) else None
        if names is None or len(names) < 7:
            raise Unsupported('InitializeParams')
        ix = {n: i for i, n in enumerate(names)}
        P = lambda n, *r: self.scalar(self.walk(e.get(q, ix[n]), r))
        H = lambda *p: self.hd(s, *p)
        self.ob(s, 'C22|only an uninitialised account becomes a market', EQ(self.h0(DISCR), 0), EQ(self.h0(STATUS), 0))
        self.ob(s, 'C22,C16|a new market is post-only', EQ(H(DISCR), DISC['MarketHeader']), EQ(H(STATUS), 2))
        self.ob(s, 'C22,C17|the recorded authority and fee recipient are the requested ones', EQ(H(AUTH), self.key(3)), EQ(H(FEEREC), P('fee_collector')))
        self.ob(s, 'C22|the fee is at most 100 per cent', cmp_op('Le', P('taker_fee_bps'), 10000))
        c = {x[1]: x for x in self.calls}
        if 'set_fee' not in c or 'initialize_with_params' not in c:
            return
        self.ob(s, 'C22,C05|the fee of the market is the requested one', EQ(self.scalar(c['set_fee'][3][0]), P('taker_fee_bps')))
        a = c['initialize_with_params'][3]
        blpbu, tick = P('num_base_lots_per_base_unit'), P('tick_size_in_quote_lots_per_base_unit')
        qlpqu = P('num_quote_lots_per_quote_unit')
        self.ob(s, 'C22|the engine gets the requested tick size and lots per unit', EQ(self.scalar(a[0]), tick), EQ(self.scalar(a[1]), blpbu))
        raw = e.get(q, ix['raw_base_units_per_base_unit'])
        rawv = ite(EQ(e.discr(raw), 1), self.scalar(e.get(e.get(raw, ('v', 'Some')), 0)), 1)
        pw = z3.Function('pow_u64', z3.IntSort(), z3.IntSort(), z3.IntSort())
        dec = lambda i: self.scalar(e.get(Lazy('acct%d.Mint' % i, 'Mint'), {n: k for k, (n, _) in enumerate(self.p.structs['Mint'])}['decimals'])) if 'Mint' in self.p.structs else z3.Int('acct%d.Mint.2' % i)
        ba, qa = i_mul(pw(10, zI(dec(4))), rawv), pw(10, zI(dec(5)))
        self.ob(s, 'C22|a base lot is a whole number of base atoms', EQ(i_mul(H(BLS), blpbu), ba), cmp_op('Gt', blpbu, 0))
        self.ob(s, 'C22|a quote lot is a whole number of quote atoms', EQ(i_mul(H(QLS), qlpqu), qa), cmp_op('Gt', qlpqu, 0))
        k = self.sk_div(s, tick, blpbu)
        self.ob(s, 'C22|the value of one base lot at one tick is a whole number of quote lots', k)
        self.ob(s, 'C22,C20|lot sizes and tick size are positive', *[cmp_op('Gt', x, 0) for x in (H(BLS), H(QLS), tick)])
        self.ob(s, 'C22|the recorded tick size is the requested one', EQ(H(TICK), i_mul(H(QLS), tick)))
        self.ob(s, 'C22|the recorded raw units and sizes are the requested ones', EQ(H(RAW), rawv),
                *[EQ(H(SIZES, j), self.scalar(self.walk(e.get(q, ix['market_size_params']), [j]))) for j in range(3)])
        self.ob(s, 'C22,C20|the creator funds the vaults and nothing else', *[b_or(EQ(x.f['account'], self.key(6)), EQ(x.f['account'], self.key(7))) for x in self.cpis if x.kind.startswith('system')],
                *[EQ(x.f['src'], self.key(3)) for x in self.cpis if x.kind.startswith('system') and 'src' in x.f])
        for par, mint, vault, w in ((BASE, 4, 6, 'base'), (QUOTE, 5, 7, 'quote')):
            pda = PDA(z3.StringVal('b"vault"'), self.key(2), self.key(mint))
            self.ob(s, 'C22,C19|the %s vault is the address derived for the market and the mint' % w, EQ(self.key(vault), pda), EQ(H(par, 3), self.key(vault)), EQ(H(par, 2), self.key(mint)),
                    EQ(self.owner(mint), known('SPL_TOKEN')), EQ(H(par, 0), dec(mint)))
            own = [x.f for x in self.cpis if x.kind in ('system_create_account', 'system_assign')]
            ini = [x.f for x in self.cpis if x.kind == 'token_init']
            self.ob(s, 'C22,C19|the %s vault is created as a token account owned by itself' % w,
                    b_or(*[AND(EQ(f['account'], self.key(vault)), EQ(f['owner'], known('SPL_TOKEN'))) for f in own]),
                    b_or(*[AND(EQ(f['account'], self.key(vault)), EQ(f['mint'], self.key(mint)), EQ(f['owner'], self.key(vault)), EQ(f['prog'], known('SPL_TOKEN'))) for f in ini]))
    def sk_div(self, s, a, b):
        """b divides a: the remainder the code computed, or a fresh one"""
        q = z3.Int('div!' + str(self.tag))
        e = self.eng
        quot = e.divrem(s, 'Div', a, b)
        return EQ(i_mul(quot, b), a)
    def walk(self, v, r):
        for k in r:
            v = self.eng.get(v, k)
        return v

def ONE_OF_Z(x):
    return EQ(x, 0)
