"""The event recorder: byte buffers as sequences of typed pieces, and the contracts of EventRecorder.

A buffer is a list of (length, kind, value) pieces; borsh's serialisation of a primitive appends one piece, the derived
serialisers and everything of the recorder are the real code.  The events already waiting in a record are one piece of
unknown length (`pending`)."""
import z3
from sym import *
from mir import norm, base_name
from stdlib import res_ok, res_err, opt_some, opt_none, LVec
from eng_specs import eq_val

PRIM = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'i64': 8, 'u128': 16, 'bool': 1, 'Pubkey': 32}

class LE:
    def __init__(self, ty, v):
        self.ty, self.v = ty, v
    def same(self, o):
        return isinstance(o, LE) and self.ty == o.ty and same(self.v, o.v)

class BBuf:
    def __init__(self, segs=()):
        self.segs = tuple(segs)
    def same(self, o):
        return isinstance(o, BBuf) and len(self.segs) == len(o.segs) and all(a is b or a[1] == b[1] and same(a[0], b[0]) and same(a[2], b[2]) for a, b in zip(self.segs, o.segs))
    def length(self):
        n = 0
        for s in self.segs:
            n = i_add(n, s[0])
        return n
    def cut(self, lo, hi):
        """indices of the pieces that cover [lo, hi)"""
        pos, i = 0, 0
        while i < len(self.segs) and isinstance(pos, int) and pos < lo:
            pos, i = i_add(pos, self.segs[i][0]), i + 1
        if not isinstance(pos, int) or pos != lo:
            raise Unsupported('cut inside a piece')
        if hi is None:
            return i, len(self.segs)
        j = i
        while j < len(self.segs) and isinstance(pos, int) and pos < hi:
            pos, j = i_add(pos, self.segs[j][0]), j + 1
        if not isinstance(pos, int) or pos != hi:
            raise Unsupported('cut inside a piece')
        return i, j
    def proj(self, eng, k, ty=None):
        if k[0] == 'sl':
            i, j = self.cut(k[1], k[2])
            return BBuf(self.segs[i:j])
        raise Unsupported('projection of a buffer')
    def proj_put(self, eng, k, rest, val):
        if k[0] != 'sl' or rest:
            raise Unsupported('store into a buffer')
        i, j = self.cut(k[1], k[2])
        if not isinstance(val, LE):
            raise Unsupported('store of other bytes')
        return BBuf(self.segs[:i] + ((PRIM[val.ty], val.ty, val.v),) + self.segs[j:])
    def __repr__(self):
        return 'BBuf(%s)' % (self.segs,)

def base(eng, st, v):
    """(last reference, value behind it)"""
    r = None
    for _ in range(8):
        if not isinstance(v, Ref):
            break
        try:
            x = eng.load(st, v)
        except Unsupported:
            return v, None
        r, v = v, x
    return r, v

def bytes_hook(eng, c, vals, tys, dty, st, span):
    n, s, tr = c['name'], c['self'], c['trait']
    if n in ('with_capacity', 'new') and norm(dty) == 'Vec<u8>':
        return [(st, BBuf())]
    if n == 'to_le_bytes' and vals and (isinstance(vals[0], int) or isz(vals[0])):
        t = norm(tys[0])
        return [(st, LE(t, vals[0]))] if t in PRIM else None
    if n in ('new_readonly', 'new') and base_name(dty) == 'AccountMeta':
        return [(st, Node('AccountMeta', {0: eng.key_of(st, vals[0]), 1: vals[1], 2: n == 'new'}))]
    if n == 'serialize' and tr == 'BorshSerialize' and norm(c['selfty'] or s or '') in PRIM:
        r, b = base(eng, st, vals[1])
        if not isinstance(b, BBuf):
            return None
        t = norm(c['selfty'] or s)
        v = base(eng, st, vals[0])[1]
        eng.store(st, r, BBuf(b.segs + ((PRIM[t], t, v),)))
        return [(st, res_ok(dty, UNIT))]
    if n == 'into_vec':
        r, x = base(eng, st, vals[0])
        if isinstance(x, Node) and x.f:
            return [(st, LVec([x.f[k] for k in sorted(x.f)], 'Vec<AccountMeta>'))] if all(isinstance(k, tuple) and k[0] == 'i' for k in x.f) else None
    if not vals or not isinstance(vals[0], (Ref, BBuf)):
        return None
    r, b = base(eng, st, vals[0])
    if not isinstance(b, BBuf):
        return None
    if n in ('len', 'is_empty'):
        l = b.length()
        return [(st, l if n == 'len' else cmp_op('Eq', l, 0))]
    if n == 'push':
        eng.store(st, r, BBuf(b.segs + ((1, 'u8', vals[1]),)))
        return [(st, UNIT)]
    if n in ('extend_from_slice', 'write_all'):
        x = base(eng, st, vals[1])[1]
        if isinstance(x, LE):
            segs = ((PRIM[x.ty], x.ty, x.v),)
        elif isinstance(x, BBuf):
            segs = x.segs
        else:
            raise Unsupported('append of %r' % (x,))
        eng.store(st, r, BBuf(b.segs + segs))
        return [(st, UNIT if n == 'extend_from_slice' else res_ok(dty, UNIT))]
    def rng(v):
        t = base_name(v.ty) if isinstance(v, Node) and isinstance(v.ty, str) else '?'
        g = lambda i: const_int(v.f[i])
        k = {'Range': lambda: (g(0), g(1)), 'RangeFrom': lambda: (g(0), None), 'RangeTo': lambda: (0, g(0))}.get(t)
        if k:
            lo, hi = k()
            if lo is None or t != 'RangeFrom' and hi is None:
                raise Unsupported('symbolic range of a buffer')
            return lo, hi
        if t == 'RangeFull' or v is UNIT or not isinstance(v, Node):
            return 0, None
        raise Unsupported('range %s' % t)
    if n in ('drain', 'truncate', 'clear'):
        lo, hi = rng(vals[1]) if n == 'drain' else ((const_int(vals[1]), None) if n == 'truncate' else (0, None))
        if lo is None:
            raise Unsupported('symbolic range of a buffer')
        i, j = b.cut(lo, hi)
        eng.store(st, r, BBuf(b.segs[:i] + b.segs[j:]))
        return [(st, Opaque('drain') if n == 'drain' else UNIT)]
    if n in ('index', 'index_mut'):
        lo, hi = rng(vals[1])
        b.cut(lo, hi)
        return [(st, r.sub(('sl', lo, hi)))]
    if n == 'copy_from_slice':
        x = base(eng, st, vals[1])[1]
        if not isinstance(x, LE):
            raise Unsupported('copy of %r' % (x,))
        k = r.path[-1]
        if b.length() != PRIM[x.ty]:
            raise Unsupported('copy of another length')
        eng.store(st, r, x)
        return [(st, UNIT)]
    if n in ('as_slice', 'deref', 'as_ref', 'deref_mut', 'as_mut', 'borrow', 'by_ref'):
        return [(st, r)]
    raise Unsupported('%s of a buffer' % n)

HEADER = [('u8', 'instruction tag'), ('u8', 'variant'), ('u8', 'instruction'), ('u64', 'sequence_number'), ('i64', 'timestamp'), ('u64', 'slot'), ('Pubkey', 'market'), ('Pubkey', 'signer'), ('u16', 'count')]

# ---------------------------------------------------------------- the unit
from acct import PEng, known, Fn
from acct_specs import AND, EQ, IMP, ONE_OF

ALIAS = {'total_quote_lots_filled': 'total_quote_lots_filled_including_fees'}
MAXCPI = 1280

class Recorder:
    """EventRecorder::{flush, add_event, increment_market_sequence_number_and_flush}, each from any recorder that
    satisfies the invariant (established by EventRecorder::new, see Instr.recorder):
      data = header ++ the events not yet emitted, which are numbered emitted..added; its length leaves room for the CPI;
      the scratch buffer is empty; no error is pending; some record was sent if any event was emitted"""
    def __init__(self, p, fn):
        self.p, self.fn, self.name = p, fn, 'EventRecorder::' + fn
        self.eng = e = PEng(p)
        e.tag = -1
        del e.contracts[('EventRecorder', 'flush')], e.contracts[('EventRecorder', 'add_event')]
        e.contracts[(None, 'bump')] = Fn('bump', lambda eng, st, c, vals, tys, dty, span: [(st, eng.int_const('log.bump', 'u8'))] if not vals else None)
        e.pre_hook = self.hook
        fs = [f for f in p.by_last[fn] if f.kind == 'fn' and f.impl_self and base_name(f.impl_self) == 'EventRecorder']
        if len(fs) != 1:
            raise Unsupported(self.name)
        self.f = fs[0]
    def fx(self, ty, nm):
        for i, x in enumerate(self.p.structs.get(ty) or []):
            if x[0] == nm:
                return i
        raise Unsupported('field %s of %s' % (nm, ty))
    def scalar(self, v):
        for _ in range(6):
            if isinstance(v, (Node, Lazy)):
                v = self.eng.get(v, 0)
        return v
    def hook(self, e, c, vals, tys, dty, st, span):
        n = c['name']
        if n in ('invoke', 'invoke_signed', 'invoke_unchecked', 'invoke_signed_unchecked') and not c['self']:
            x = base(e, st, vals[0])[1]
            if isinstance(x, (Node, Lazy)):
                st.trace.append(('logcpi', x, st.fork(), vals[1]))
                from acct import both
                return both(e, st, dty, UNIT, 'cpi_ok')
        if n in ('print_status',):
            return [(st, UNIT)]
        return bytes_hook(e, c, vals, tys, dty, st, span)
    def start(self):
        e = self.eng
        st = State()
        e.install(st)
        self.E, self.A = e.int_const('emitted', 'u16'), e.int_const('added', 'u16')
        self.L, self.bi = e.int_const('pending.len', (0, MAXCPI)), e.int_const('batches', 'usize')
        e.assume(st, AND(cmp_op('Le', self.E, self.A), cmp_op('Le', i_add(93 + 34, self.L), MAXCPI), IMP(cmp_op('Gt', self.E, 0), cmp_op('Gt', self.bi, 0))))
        self.hdr = tuple((PRIM[t], t, (15 if i == 0 else self.p.enums['PhoenixMarketEvent'].index('Header') if i == 1 else e.mk('hdr.' + n, t))) for i, (t, n) in enumerate(HEADER))
        self.pend = (self.L, 'pending', i_sub(self.A, self.E))
        trk = {self.fx('EventStateTracker', 'batch_index'): self.bi, self.fx('EventStateTracker', 'events_emitted'): self.E, self.fx('EventStateTracker', 'events_added'): self.A}
        ix = Node('Instruction', {0: known('PHOENIX'), 1: LVec([Node('AccountMeta', {0: known('LOG_AUTH'), 1: True, 2: False})], 'Vec<AccountMeta>'), 2: BBuf(self.hdr + (self.pend,))})
        F = {'phoenix_program': e.load(st, e.acct(st, 0)), 'log_authority': e.load(st, e.acct(st, 1)), 'phoenix_instruction': Lazy('rec.ix', 'PhoenixInstruction'),
             'scratch_buffer': BBuf(), 'log_instruction': ix, 'state_tracker': Node('EventStateTracker', trk), 'error_code': Node('Option<PhoenixError>', {'d': 0})}
        r = Node('EventRecorder', {self.fx('EventRecorder', k): v for k, v in F.items()})
        if len(F) != len(self.p.structs['EventRecorder']):
            raise Unsupported('fields of EventRecorder')
        self.ref = e.alloc(st, r, 'recorder')
        return st
    def fld(self, s, nm):
        return self.eng.get(self.eng.load(s, self.ref), self.fx('EventRecorder', nm))
    def trk(self, s, nm):
        return self.eng.get(self.fld(s, 'state_tracker'), self.fx('EventStateTracker', nm))
    def data(self, s):
        d = self.eng.get(self.fld(s, 'log_instruction'), 2)
        if not isinstance(d, BBuf):
            raise Unsupported('data of the log instruction')
        return d.segs
    def seg_same(self, a, b):
        return a is b or a[1] == b[1] and AND(EQ(a[0], b[0]), eq_val(self.eng, State(), a[2], State(), b[2]))
    def run(self):
        e = self.eng
        st = self.start()
        args = [self.ref]
        if self.fn == 'add_event':
            self.ev = e.mk('event', 'MarketEvent<Pubkey>')
            args.append(self.ev)
        if self.fn.startswith('increment'):
            a = e.acct(st, 2)
            args.append(Node('MarketAccountInfo', {self.fx('MarketAccountInfo', 'info'): a, self.fx('MarketAccountInfo', 'size_params'): Lazy('sp', 'MarketSizeParams')}))
            self.seq0 = e.get(st.mem[('DATA', 2)].view(e, ('view', 'MarketHeader')), 10)
        n = 0
        for s, r in e.run_fn(self.f, args, st.fork()):
            if self.fn != 'add_event':
                d = e.discr(r)
                if const_int(d) == 1:
                    continue
                if const_int(d) is None:
                    e.assume(s, EQ(d, 0))
            n += 1
            self.exit(s)
        if not n:
            raise Unsupported('%s never succeeds' % self.name)
    def O(self, s, label, *g):
        self.eng.oblige(s, label, AND(*g), where=self.name)
    def cpis(self, s):
        """the records sent: each is the header, the count of its events, and the events that were waiting"""
        e = self.eng
        out = [x for x in s.trace if x[0] == 'logcpi']
        for x in out:
            ix = x[1]
            segs = e.get(ix, 2).segs
            self.O(s, 'C13|a log record is the header followed by the events that were waiting', len(segs) == 10 and AND(*[self.seg_same(a, b) for a, b in zip(segs[:8], self.hdr)]), len(segs) == 10 and self.seg_same(segs[9], self.pend))
            self.O(s, 'C13|the count of a log record is the number of its events', len(segs) == 10 and segs[8][1] == 'u16' and EQ(segs[8][2], self.pend[2]))
            ac = getattr(e.get(ix, 1), 'items', [])
            self.O(s, 'C13|a log record goes to the program, signed by the log authority', EQ(e.key_of(s, e.get(ix, 0)), known('PHOENIX')), len(ac) == 1 and AND(EQ(e.get(ac[0], 0), known('LOG_AUTH')), e.get(ac[0], 1)))
        return out
    def exit(self, s):
        e = self.eng
        err = e.discr(self.fld(s, 'error_code'))
        if const_int(err) == 1 and self.fn == 'add_event':
            return                      # the instruction will fail: increment_market_sequence_number_and_flush succeeds only without an error
        self.O(s, 'C13,C12|an event is dropped only if the instruction then fails', EQ(err, 0))
        cp = self.cpis(s)
        self.O(s, 'C13|at most one log record is sent at a time', len(cp) <= 1)
        segs = self.data(s)
        A, E_, bi = self.trk(s, 'events_added'), self.trk(s, 'events_emitted'), self.trk(s, 'batch_index')
        sb = self.fld(s, 'scratch_buffer')
        self.O(s, 'C13|the scratch buffer is left empty', isinstance(sb, BBuf) and not sb.segs)
        self.O(s, 'C13|the header of the log stays in place', len(segs) >= 9 and AND(*[self.seg_same(a, b) for a, b in zip(segs[:8], self.hdr)]), len(segs) >= 9 and segs[8][1] == 'u16')
        rest = list(segs[9:])
        if cp:
            self.O(s, 'C13|events that were sent are not sent again', not rest or rest[0] is not self.pend)
            self.O(s, 'C13|events that were sent are counted as sent', EQ(E_, self.A))
            self.O(s, 'C13|a record that was sent is counted', cmp_op('Gt', bi, 0))
        else:
            self.O(s, 'C13,C12|events wait until they are sent', bool(rest) and self.seg_same(rest[0], self.pend))
            rest = rest[1:]
            self.O(s, 'C13|events that were not sent are not counted as sent', EQ(E_, self.E), EQ(bi, self.bi))
        if self.fn == 'add_event':
            self.event(s, rest)
            self.O(s, 'C13|every event gets the next number', EQ(A, i_add(self.A, 1)))
            n = 0
            for x in segs:
                n = i_add(n, x[0])
            self.O(s, 'C13|a log record fits into a CPI', cmp_op('Le', i_add(n, 34), MAXCPI))
            return
        self.O(s, 'C13|nothing but events is logged', not rest, EQ(A, self.A))
        if self.fn == 'flush':
            self.O(s, 'C13|flushing sends one record', len(cp) == 1)
        if self.fn.startswith('increment'):
            self.O(s, 'C13|an instruction ends with all its events sent', EQ(E_, A))
            self.O(s, 'C13|an instruction sends at least one record', len(cp) == 1 or cmp_op('Gt', self.bi, 0))
    def event(self, s, rest):
        """the pieces of the event that was added"""
        e = self.eng
        ok = len(rest) >= 2 and rest[0][1] == 'u8' and rest[1][1] == 'u16'
        self.O(s, 'C13,C12|one event is added, with its number', ok, ok and EQ(rest[1][2], self.A))
        if not ok:
            return
        d = e.discr(self.ev)
        names = self.p.enums['MarketEvent']
        hit = []
        for i, v in enumerate(names):
            if const_int(d) is not None and const_int(d) != i:
                continue
            t = s.fork()
            e.assume(t, EQ(d, i))
            if not e.feasible(t):
                continue
            hit.append(v)
            if v not in self.p.enums['PhoenixMarketEvent']:
                raise Unsupported('event %s' % v)
            want = [(n, ty) for n, ty in self.p.structs.get(v + 'Event') or []]
            self.O(t, 'C12|the event logged is the event that happened', EQ(rest[0][2], self.p.enums['PhoenixMarketEvent'].index(v)))
            self.O(t, 'C12|the event logged is the event that happened', len(want) == len(rest) - 1 and want[0][0] == 'index')
            if len(want) != len(rest) - 1:
                continue
            for (n, ty), sg in zip(want[1:], rest[2:]):
                x = None
                for nm in (n, ALIAS.get(n)):
                    try:
                        x = e.get(e.get(self.ev, ('v', v)), e.variant_index('MarketEvent', v, nm)) if nm else x
                    except Unsupported:
                        pass
                if x is None:
                    raise Unsupported('field %s of event %s' % (n, v))
                self.O(t, 'C12|the log carries the numbers of the event', EQ(sg[2], self.scalar(x)), sg[1] == norm(ty))
        if not hit:
            raise Unsupported('event of no variant')
