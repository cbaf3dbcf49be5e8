"""Program level: the accounts of an instruction, the Solana runtime and the market behind `dyn WritableMarket`.

An account is the real `AccountInfo` struct with symbolic fields; its data is an object with typed views (the market
header, a seat, the mint/owner/amount of a token account), so `load_bytes` of the right region yields the same view every
time.  CPIs and market calls are recorded in the state's trace; the obligations are stated over that trace and the
views before and after."""
import z3, re
from sym import *
from mir import norm, base_name, generic_args
import stdlib
from stdlib import opt_some, opt_none, res_ok, res_err, payload, cases, LVec, AVec, It, strip_ref
from eng_specs import Eng

DISC = {'MarketHeader': 8167313896524341111, 'Seat': 2002603505298356104}
import os
DBG = os.environ.get('DBG', '').split(',') if os.environ.get('DBG') else []
SIZES = {'MarketHeader': 576, 'Seat': 128, 'TokenParams': 72, 'MarketSizeParams': 24, 'Pubkey': 32, 'u64': 8, 'u32': 4, 'u8': 1, 'u128': 16}
KNOWN = {'crate': 'PHOENIX', 'phoenix': 'PHOENIX', 'spl_token': 'SPL_TOKEN', 'system_program': 'SYSTEM', 'phoenix_log_authority': 'LOG_AUTH'}
PDA = z3.Function('find_pda', z3.StringSort(), Key, Key, Key)
BUMP = z3.Function('find_bump', z3.StringSort(), Key, Key, z3.IntSort())

def known(n):
    return z3.Const('id.' + n, Key)

class Data:
    """the bytes of account i"""
    def __init__(self, i, views=None, ver=0):
        self.i, self.views, self.ver = i, views or {}, ver
    def __repr__(self):
        return 'Data(%s)' % self.i
    def same(self, o):
        return isinstance(o, Data) and self.i == o.i and self.ver == o.ver and set(self.views) == set(o.views) and all(same(self.views[k], o.views[k]) for k in self.views)
    def havoc(self, eng, st, nm):
        return Data(self.i, {}, nm)
    def view(self, eng, k):
        if k in self.views:
            return self.views[k]
        nm = 'acct%s%s.%s' % (self.i, '' if self.ver == 0 else '.v%s' % self.ver, k[1] if k[0] == 'view' else 'bytes%s_%s' % (k[1], k[2]))
        if k[0] == 'view':
            return Lazy(nm, k[1])
        if k[2] - k[1] == 32:
            return z3.Const(nm, Key)
        return Lazy(nm, '[u8]')
    def proj(self, eng, k, ty=None):
        if k[0] == 'view':
            return self.view(eng, k)
        if k[0] == 'sl':
            return Slice(self, k[1], k[2])
        raise Unsupported('projection %r of account data' % (k,))
    def proj_put(self, eng, k, rest, val):
        if k[0] != 'view':
            raise Unsupported('byte store into account data')
        v = dict(self.views)
        v[k] = val if not rest else eng.put(self.view(eng, k), rest, val)
        return Data(self.i, v, self.ver)

class Slice:
    def __init__(self, data, lo, hi):
        self.data, self.lo, self.hi = data, lo, hi
    def same(self, o):
        return isinstance(o, Slice) and self.data.same(o.data) and (self.lo, self.hi) == (o.lo, o.hi)
    def value(self, eng):
        if self.hi is None:
            raise Unsupported('open slice')
        return self.data.view(eng, ('by', self.lo, self.hi))
    def proj(self, eng, k, ty=None):
        if k[0] == 'sl':
            lo, hi = self.lo + k[1], None if k[2] is None else self.lo + k[2]
            return Slice(self.data, lo, hi if hi is not None else self.hi)
        if k[0] == 'view':
            return self.data.view(eng, k)
        raise Unsupported('projection of a byte slice')
    def proj_put(self, eng, k, rest, val):
        raise Unsupported('byte store')

class Ix:
    """a CPI instruction"""
    def __init__(self, kind, **f):
        self.kind, self.f = kind, f
    def same(self, o):
        return self is o
    def __repr__(self):
        return 'Ix(%s)' % self.kind

class Accts:
    """&[AccountInfo] from position lo; n: length of the whole list"""
    def __init__(self, lo, hi=None):
        self.lo, self.hi = lo, hi
    def same(self, o):
        return isinstance(o, Accts) and (self.lo, self.hi) == (o.lo, o.hi)

class AcctIter:
    def __init__(self, pos, hi):
        self.pos, self.hi = pos, hi
    def same(self, o):
        return isinstance(o, AcctIter) and (self.pos, self.hi) == (o.pos, o.hi)
    def havoc(self, eng, st, nm):
        raise Unsupported('account iterator changed by a loop')

class Bytes:
    """the instruction data"""
    def __init__(self, name):
        self.name = name
    def same(self, o):
        return isinstance(o, Bytes) and self.name == o.name

class Enc:
    """the borsh encoding of a vector"""
    def __init__(self, v, ref=None):
        self.v, self.ref = v, ref
    def same(self, o):
        return isinstance(o, Enc) and same(self.v, o.v)
    def havoc(self, eng, st, nm):
        return Opaque('bytes')

class Mkt:
    """the market stored behind the header of account i"""
    def __init__(self, i, ver=0):
        self.i, self.ver = i, ver
    def same(self, o):
        return isinstance(o, Mkt) and (self.i, self.ver) == (o.i, o.ver)
    def havoc(self, eng, st, nm):
        return Mkt(self.i, nm)
    def part(self, n):
        return 'mkt%s.v%s.%s' % (self.i, self.ver, n)
    def proj(self, eng, k, ty=None):
        if isinstance(k, tuple) and k[0] == 'part':
            return Part(self, k[1])
        raise Unsupported('projection of the market object')
    def proj_put(self, eng, k, rest, val):
        raise Unsupported('store into the market object')

class Part:
    def __init__(self, m, n):
        self.m, self.n = m, n
    def same(self, o):
        return isinstance(o, Part) and self.m.same(o.m) and self.n == o.n

AI = ('key', 'lamports', 'data', 'owner', 'rent_epoch', 'is_signer', 'is_writable', 'executable')
MUTATORS = ('initialize_with_params', 'set_fee', 'place_order', 'cancel_order', 'reduce_order', 'cancel_all_orders', 'cancel_multiple_orders_by_id', 'cancel_up_to', 'claim_all_funds', 'claim_base_funds', 'claim_quote_funds', 'claim_funds', 'collect_fees', 'get_or_register_trader', 'try_remove_trader_state', 'get_trader_state_mut', 'get_trader_state_from_index_mut')

def note_push(eng, st, ref, old, v):
    if base_name(str(getattr(v, 'ty', ''))) == 'FIFOOrderId':
        st.trace.append(('push', ref, v, old, eng.load(st, ref)))

class PEng(Eng):
    def __init__(self, p):
        super().__init__(p)
        self.maptypes = {}
        self.cur_span = None
        self.std_hook = hook
        self.dyn_hook = lambda en, c, v: None
        self.naccts = self.int_const('naccts', (0, 2**16))
        C = self.contracts
        for n in ('load_with_dispatch_mut', 'load_with_dispatch_init', 'load_with_dispatch', 'get_discriminant', 'get_decimal_string', 'decode_order_packet'):
            C[(None, n)] = Fn(n, globals()['c_' + n])
        C[('EventRecorder', 'new')] = Fn('EventRecorder::new', c_recorder_new)
        C[('EventRecorder', 'add_event')] = Fn('EventRecorder::add_event', c_add_event)
        C[('EventRecorder', 'increment_market_sequence_number_and_flush')] = Fn('EventRecorder::increment_market_sequence_number_and_flush', c_finish)
        C[('EventRecorder', 'flush')] = Fn('EventRecorder::flush', c_flush)
        self.pre_hook = None
        self.on_push = note_push
        self.sinks['event'] = lambda en, s, a, sp: [(s, UNIT)]
    def size_of(self, t):
        b = base_name(t)
        if b in SIZES:
            return SIZES[b]
        return super().size_of(t)
    def static_val(self, name, ty):
        n = {'ID': 'PHOENIX', 'phoenix_log_authority::ID': 'LOG_AUTH', 'system_program::ID': 'SYSTEM', 'spl_token::ID': 'SPL_TOKEN'}.get(name)
        if n is None or 'Pubkey' not in ty:
            return None
        return Ref(('K', n))
    def acct(self, st, i):
        """the AccountInfo in position i"""
        root = ('ACC', i)
        if root not in st.mem:
            n = 'acct%s' % i
            ref = lambda nm, v: (st.mem.__setitem__(('ACCF', i, nm), v), Ref(('ACCF', i, nm)))[1]
            lam = ref('lam*', self.int_const(n + '.lamports', 'u64'))
            f = {0: ref('key', z3.Const(n + '.key', Key)), 1: z3.Bool(n + '.is_signer'), 2: z3.Bool(n + '.is_writable'), 3: ref('lamrc', lam), 4: ref('datarc', Ref(('DATA', i))),
                 5: ref('owner', z3.Const(n + '.owner', Key)), 6: z3.Bool(n + '.executable'), 7: self.int_const(n + '.rent', 'u64')}
            st.mem[('DATA', i)] = Data(i)
            st.mem[('MKT', i)] = Mkt(i)
            st.mem[root] = Node('AccountInfo', f)
        return Ref(root)
    def install(self, st, n=14):
        for i in range(n):
            self.acct(st, i)
            st.mem[('LEN', i)] = self.int_const('acct%s.data_len' % i, 'usize')
        return self.alloc(st, z3.Const('program_id', Key)), self.alloc(st, Accts(0), 'accts'), self.alloc(st, Bytes('ix'), 'data')
    def key_of(self, st, v):
        """Key value behind references"""
        for _ in range(6):
            if isinstance(v, Ref):
                v = self.load(st, v)
            elif isinstance(v, Node) and v.ty == 'AccountInfo':
                v = v.f[0]
            else:
                break
        return v
    def call(self, callee, vals, tys, dty, st, span, caller=None):
        c = self.parse_callee(callee)
        if c['dyn'] or c['self'] in ('WritableMarket', 'Market') or c['trait'] in ('WritableMarket', 'Market'):
            r = market_call(self, c, vals, tys, dty, st, span)
            if r is not None:
                return r
        return super().call(callee, vals, tys, dty, st, span, caller)
    def do_loop(self, f, fid, head, st, active, region):
        if self.over_list(f, fid, head, st):
            work, res = [st.fork()], []
            n = self.npaths
            for _ in range(12):
                nxt = []
                for s in work:
                    for kind, s2, x in self.exec(f, fid, [(s, head)], active | {head}, region, skip_head=head):
                        if kind == 'back' and x == head:
                            nxt.append(s2)
                        else:
                            res.append((kind, s2, x))
                work = nxt
                if not work:
                    return res
            raise Unsupported('loop over a list in %s' % f.last)
        return super().do_loop(f, fid, head, st, active, region)

    def over_list(self, f, fid, head, st):
        """the loop takes its elements from a list of known length"""
        refs, src = {}, None
        for b in f.blocks[head]:
            if b[0] == 'assign' and isinstance(b[2], tuple) and b[2][0] == 'ref':
                refs[b[1][0]] = b[2][2][0]
            if b[0] == 'call' and b[2].endswith('::next') and b[3] and b[3][0][0] == 'place':
                src = b[3][0][1][0]
        for _ in range(6):
            if src in refs:
                src = refs[src]
        if src is None:
            return any(k[0] == 'L' and k[1] == fid and isinstance(v, It) and v.src[0] == 'list' for k, v in st.mem.items()) and not self.loop_provider(f)
        v = st.mem.get(('L', fid, src))
        for _ in range(4):
            if isinstance(v, Ref):
                v = self.load(st, v)
        if isinstance(v, Node) and isinstance(v.ty, str) and v.ty.startswith('Range') or isinstance(v, Node) and base_name(str(v.ty)) == 'Range':
            return const_int(v.f.get(0)) is not None and const_int(v.f.get(1)) is not None and const_int(v.f[1]) - const_int(v.f[0]) <= 8 and not self.loop_provider(f)
        return isinstance(v, It) and v.src[0] == 'list'

class Fn:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn
    def matches(self, c, tys):
        return True
    def apply(self, eng, st, c, vals, tys, dty, span):
        return self.fn(eng, st, c, vals, tys, dty, span)

def both(eng, st, dty, v, hint):
    """Ok(v) or an arbitrary error"""
    out = []
    for ns, ok in eng.branch(st, z3.Bool(eng.fresh(hint))):
        out.append((ns, res_ok(dty, v) if ok else res_err(dty, Opaque('error'))))
    return out

def c_get_discriminant(eng, st, c, vals, tys, dty, span):
    t = base_name(c['targs'][0]) if c['targs'] else '?'
    if t not in DISC:
        return None
    return [(st, res_ok(dty, DISC[t]))]

def c_decode_order_packet(eng, st, c, vals, tys, dty, span):
    """runs the real function; only notes the packet it returned"""
    g = eng.resolve_local(c, tys, dty, vals)
    if g is None:
        return None
    out = []
    for s, v in eng.run_fn(g, vals, st, 'inline', eng.tyenv_of(g, tys, dty)):
        s.trace.append(('packet', v))
        out.append((s, v))
    return out

def c_get_decimal_string(eng, st, c, vals, tys, dty, span):
    return [(st, Opaque('string'))]

def c_load_with_dispatch_mut(eng, st, c, vals, tys, dty, span):
    r = vals[1]
    while isinstance(r, Ref) and isinstance(eng.load(st, r), Ref):
        r = eng.load(st, r)
    s = eng.load(st, r)
    if not isinstance(s, Slice) or s.lo != 576:
        raise Unsupported('market loaded from other bytes: %r' % (s,))
    st.trace.append(('load', c['name'], s.data.i, vals[0], st.fork(), span))
    h = generic_args(dty)[0] if generic_args(dty) else 'MarketWrapperMut'
    w = Node(h, {0: Ref(('MKT', s.data.i))})
    return both(eng, st, dty, w, 'dispatch_ok')

c_load_with_dispatch = c_load_with_dispatch_init = c_load_with_dispatch_mut

def c_recorder_new(eng, st, c, vals, tys, dty, span):
    h = getattr(eng, 'on_recorder', None)
    if h and eng.mute == 0:
        h(eng, st.fork(), c, vals, tys, dty)
    st.trace.append(('recorder', vals, st.fork(), span))
    rec = Lazy('recorder', 'EventRecorder')
    k = [i for i, x in enumerate(eng.p.structs['EventRecorder']) if x[0] == 'phoenix_instruction']
    if k:
        eng.assume(st, cmp_op('Eq', eng.discr(eng.get(rec, k[0])), eng.discr(vals[2])))   # shown of EventRecorder::new ('remembers the instruction')
    return both(eng, st, dty, rec, 'recorder_ok')

def c_add_event(eng, st, c, vals, tys, dty, span):
    r = vals[0]
    x = eng.load(st, r)
    while isinstance(x, Ref):
        x = eng.load(st, x)
    st.trace.append(('add_event', x, vals[1]))
    return [(st, UNIT)]

def c_finish(eng, st, c, vals, tys, dty, span):
    """runs the real function (with the contract of flush); notes that it was called"""
    g = eng.resolve_local(c, tys, dty, vals)
    if g is None:
        return None
    x = vals[0]
    while isinstance(x, Ref):
        x = eng.load(st, x)
    st.trace.append(('finish', x))
    return eng.run_fn(g, vals, st, 'inline', eng.tyenv_of(g, tys, dty))

def c_flush(eng, st, c, vals, tys, dty, span):
    st.trace.append(('flush', st.fork(), span))
    return both(eng, st, dty, UNIT, 'flush_ok')

def slice_ref(eng, st, v):
    while isinstance(v, Ref):
        x = eng.load(st, v)
        if isinstance(x, (Data, Slice)):
            return v, x
        if not isinstance(x, Ref):
            return v, x
        v = x
    return None, v

def as_slice(x):
    return Slice(x, 0, None) if isinstance(x, Data) else x

def bytes_ref(data_i, lo, hi):
    return Ref(('DATA', data_i), (('sl', lo, hi),))

def find_pda(eng, st, seeds):
    """literal, key, key"""
    v = seeds
    while isinstance(v, Ref):
        v = eng.load(st, v)
    items = [v.f[('i', i)] for i in range(len(v.f))]
    lit, ks = None, []
    for x in items:
        y = x
        while isinstance(y, Ref):
            y = eng.load(st, y)
        if isz(y) and y.sort() == Key:
            ks.append(y)
        elif isinstance(y, Str):
            lit = y.s
        else:
            lit = literal(eng, y)
    if lit is None or len(ks) != 2:
        raise Unsupported('seeds of a program address: %r' % (items,))
    return PDA(z3.StringVal(lit), *ks), BUMP(z3.StringVal(lit), *ks)

def literal(eng, y):
    return getattr(y, 'name', None) or str(y)

def hook(eng, c, vals, tys, dty, st, span):
    if DBG and (c['name'] in DBG or DBG == ['ALL']):
        print('HOOK', {k: v for k, v in c.items()}, vals, tys, dty)
    if eng.pre_hook:
        r = eng.pre_hook(eng, c, vals, tys, dty, st, span)
        if r is not None:
            return r
    n, s, tr = c['name'], c['self'], c['trait']
    if tr == 'NodeAllocatorMap' or tr == 'OrderedNodeAllocatorMap':
        x = eng.load(st, vals[0])
        while isinstance(x, Ref):
            x = eng.load(st, x)
        if isinstance(x, Part):
            if n == 'is_empty':
                return [(st, eng.int_const(x.m.part(x.n + '.len'), 'usize') == 0)]
            if n == 'len':
                return [(st, eng.int_const(x.m.part(x.n + '.len'), 'usize'))]
            if n == 'contains' and x.n == 'traders':
                idx = eng.mk('%s(%s)' % (x.m.part('get_trader_index'), eng.key_of(st, vals[1])), 'Option<u32>')
                return [(st, eng.discr(idx) == 1)]
            raise Unsupported('%s of the %s of a market' % (n, x.n))
    # ---- program identifiers
    if n == 'id' and not vals:
        m = (c.get('mod') or 'crate').split('::')
        for k, v in KNOWN.items():
            if k in m or (m == ['crate'] and k == 'crate'):
                return [(st, known(v))]
        if c.get('mod') is None:
            return [(st, known('PHOENIX'))]
    if n == 'bump' and not vals:
        return [(st, eng.int_const('log.bump', 'u8'))]
    # ---- account list
    if vals and isinstance(vals[0], Ref):
        try:
            x = eng.load(st, vals[0])
        except Unsupported:
            x = None
        if isinstance(x, Ref) and n != 'clone':
            y = x
            while isinstance(y, Ref):
                try:
                    y2 = eng.load(st, y)
                except Unsupported:
                    break
                if not isinstance(y2, Ref):
                    break
                y = y2
            if isinstance(y, Ref):
                try:
                    z = eng.load(st, y)
                    if isinstance(z, (Accts, AcctIter, Bytes)):
                        x = z
                        vals = [y] + list(vals[1:])
                except Unsupported:
                    pass
        if isinstance(x, Accts):
            if n in ('iter', 'into_iter'):
                return [(st, AcctIter(x.lo, x.hi))]
            if n == 'split_at':
                k = const_int(vals[1])
                if k is None:
                    raise Unsupported('split_at of accounts')
                end = x.hi if x.hi is not None else eng.naccts
                out = []
                for ns, ok in eng.branch(st, cmp_op('Ge', end, x.lo + k)):
                    if ok:
                        out.append((ns, Node(dty, {0: eng.alloc(ns, Accts(x.lo, x.lo + k), 'accs'), 1: eng.alloc(ns, Accts(x.lo + k, x.hi), 'accs')})))
                return out
            if n in ('len', 'is_empty'):
                end = x.hi if x.hi is not None else eng.naccts
                ln = i_sub(end, x.lo)
                return [(st, ln if n == 'len' else cmp_op('Eq', ln, 0))]
            if n in ('get', 'first', 'index'):
                k = const_int(vals[1]) if len(vals) > 1 else 0
                if k is None:
                    raise Unsupported('account index')
                end = x.hi if x.hi is not None else eng.naccts
                out = []
                for ns, ok in eng.branch(st, cmp_op('Lt', x.lo + k, end)):
                    a = eng.acct(ns, x.lo + k) if ok else None
                    if n == 'index':
                        if ok:
                            out.append((ns, a))
                    else:
                        out.append((ns, opt_some(dty, a) if ok else opt_none(dty)))
                return out
        if isinstance(x, AcctIter) and (n == 'next' or n == 'next_account_info'):
            end = x.hi if x.hi is not None else eng.naccts
            out = []
            for ns, ok in eng.branch(st, cmp_op('Lt', x.pos, end)):
                if ok:
                    eng.store(ns, vals[0], AcctIter(x.pos + 1, x.hi))
                    a = eng.acct(ns, x.pos)
                    out.append((ns, opt_some(dty, a) if n == 'next' else res_ok(dty, a)))
                else:
                    out.append((ns, opt_none(dty) if n == 'next' else res_err(dty, Opaque('NotEnoughAccountKeys'))))
            return out
        if isinstance(x, Bytes):
            if n == 'split_first':
                out = []
                for ns, ok in eng.branch(st, z3.Bool(x.name + '.nonempty')):
                    if ok:
                        t = eng.alloc(ns, eng.tag, 'tag')
                        d = eng.alloc(ns, Bytes(x.name + '.rest'), 'ixdata')
                        out.append((ns, opt_some(dty, Node('(&u8, &[u8])', {0: t, 1: d}))))
                    else:
                        out.append((ns, opt_none(dty)))
                return out
            if n == 'is_empty':
                return [(st, z3.Not(z3.Bool(x.name + '.nonempty')))]
            if n == 'len':
                return [(st, eng.int_const(x.name + '.len', 'usize'))]
    if n == 'next_account_info':
        raise Unsupported('account iterator %r' % (vals,))
    # ---- borsh
    if n in ('try_from_slice', 'deserialize') and tr in ('BorshDeserialize', None):
        t = norm(c['selfty'] or s)
        src = eng.load(st, vals[0]) if isinstance(vals[0], Ref) else None
        while isinstance(src, Ref):
            src = eng.load(st, src)
        nm = '%s as %s' % (src.name if isinstance(src, Bytes) else eng.fresh('bytes'), base_name(t))
        return both(eng, st, dty, eng.mk(nm, t), 'deserialize_ok')
    if n in ('is_empty', 'len') and len(vals) == 1 and isinstance(vals[0], Ref) and 'FIFOOrderId' in str(tys):
        x = r = vals[0]
        for _ in range(6):
            if isinstance(x, Ref):
                r, x = x, eng.load(st, x)
        if isinstance(x, (LVec, AVec)):
            st.trace.append(('idlen', r, x))
    if n == 'try_to_vec' or (n == 'serialize' and tr == 'BorshSerialize'):
        v = UNIT
        if n == 'try_to_vec':
            x = vals[0]
            for _ in range(6):
                if isinstance(x, Ref):
                    x = eng.load(st, x)
            v = Enc(x, vals[0]) if isinstance(x, (LVec, AVec)) else Opaque('bytes')
        return both(eng, st, dty, v, 'serialize_ok')
    if n == 'set_return_data':
        x = vals[0]
        for _ in range(6):
            if isinstance(x, Ref):
                x = eng.load(st, x)
        st.trace.append(('retdata', x))
        return [(st, UNIT)]
    if n in ('as_ref', 'deref', 'as_slice', 'borrow') and vals:
        x = vals[0]
        for _ in range(6):
            if isinstance(x, Ref):
                try:
                    x = eng.load(st, x)
                except Unsupported:
                    break
        if isinstance(x, Enc):
            return [(st, vals[0])]
    # ---- account data
    if s == 'AccountInfo':
        return account_call(eng, c, vals, tys, dty, st, span)
    if s in ('RefCell',) and n in ('borrow', 'borrow_mut', 'try_borrow', 'try_borrow_mut'):
        v = vals[0]
        if isinstance(v, Ref):
            return [(st, v)] if not n.startswith('try') else both(eng, st, dty, v, 'borrow_ok')
    if s in ('Ref', 'RefMut') and n == 'map':
        out = []
        for ns, r in eng.invoke(vals[1], [vals[0]], st, '?'):
            out.append((ns, r))
        return out
    if s == 'Rc' and n in ('clone', 'as_ref') and isinstance(vals[0], Ref):
        return [(st, eng.load(st, vals[0]))]
    if n in ('index', 'index_mut') and tr in ('Index', 'IndexMut'):
        r, x = slice_ref(eng, st, vals[0])
        if isinstance(x, (Data, Slice)):
            x = as_slice(x)
            rng = vals[1]
            k = base_name(c['traitargs'][0]) if c['traitargs'] else '?'
            g = lambda i: const_int(rng.f[i])
            if k == 'RangeFull':
                lo, hi = 0, None
            elif k == 'RangeFrom':
                lo, hi = g(0), None
            elif k == 'RangeTo':
                lo, hi = 0, g(0)
            elif k == 'Range':
                lo, hi = g(0), g(1)
            else:
                raise Unsupported('index %s of account data' % k)
            if lo is None or (hi is None and k in ('RangeTo', 'Range')):
                raise Unsupported('symbolic index of account data')
            nhi = x.hi if hi is None else x.lo + hi
            if x.hi is None:
                eng.assume(st, cmp_op('Ge', st.mem[('LEN', x.data.i)], x.lo + max(lo, hi or 0)))
            return [(st, bytes_ref(x.data.i, x.lo + lo, nhi))]
    if n in ('split_at', 'split_at_mut'):
        r, x = slice_ref(eng, st, vals[0])
        if isinstance(x, (Data, Slice)):
            x = as_slice(x)
            k = const_int(vals[1])
            if k is None:
                raise Unsupported('split of account data')
            if x.hi is None:
                eng.assume(st, cmp_op('Ge', st.mem[('LEN', x.data.i)], x.lo + k))       # otherwise it panics
            return [(st, Node(dty, {0: bytes_ref(x.data.i, x.lo, x.lo + k), 1: bytes_ref(x.data.i, x.lo + k, x.hi)}))]
    if n in ('load_bytes', 'load_mut_bytes') and tr == 'ZeroCopy':
        r, x = slice_ref(eng, st, vals[0])
        if isinstance(x, (Data, Slice)):
            x = as_slice(x)
            t = base_name(c['selfty'])
            if x.lo != 0:
                raise Unsupported('%s loaded at offset %s' % (t, x.lo))
            out = []
            for ns, ok in eng.branch(st, z3.Bool('acct%s.sized.%s' % (x.data.i, t))):
                out.append((ns, opt_some(dty, Ref(('DATA', x.data.i), (('view', t),))) if ok else opt_none(dty)))
            return out
    if n in ('try_from_bytes', 'try_from_bytes_mut', 'from_bytes', 'from_bytes_mut') and c['targs']:
        r, x = slice_ref(eng, st, vals[0])
        if isinstance(x, (Data, Slice)):
            raise Unsupported('bytemuck cast of account data')
    if tr == 'PartialEq' and n in ('eq', 'ne'):
        vs = []
        for v in vals:
            y = v
            while isinstance(y, Ref):
                y = eng.load(st, y)
            if isinstance(y, Slice):
                y = y.value(eng)
            vs.append(y)
        if all(isz(y) and y.sort() == Key for y in vs):
            return [(st, vs[0] == vs[1] if n == 'eq' else vs[0] != vs[1])]
    if n == 'copy_from_slice':
        r, x = slice_ref(eng, st, vals[1])
        if isinstance(x, Slice):
            eng.store(st, vals[0], ('bytes', x) and ByteCopy(x))
            return [(st, UNIT)]
    if n == 'from_le_bytes' and isinstance(vals[0], ByteCopy):
        x = vals[0].x
        return [(st, eng.int_const('acct%s.v%s.u64@%s' % (x.data.i, x.data.ver, x.lo), 'u64'))]
    # ---- program derived addresses
    if n == 'find_program_address':
        k, b = find_pda(eng, st, vals[0])
        eng.assume(st, z3.And(b >= 0, b <= 255))
        return [(st, Node(dty, {0: k, 1: b}))]
    # ---- CPI
    if n == 'transfer' and 'spl_token' in (c.get('mod') or ''):
        kv = [eng.key_of(st, v) for v in vals[:4]]
        return both(eng, st, dty, Ix('token_transfer', prog=kv[0], src=kv[1], dst=kv[2], auth=kv[3], amount=vals[5]), 'ix_ok')
    if n in ('initialize_account3',) and not s:
        kv = [eng.key_of(st, v) for v in vals[:4]]
        return both(eng, st, dty, Ix('token_init', prog=kv[0], account=kv[1], mint=kv[2], owner=kv[3]), 'ix_ok')
    if not s and ('system_instruction' in (c.get('mod') or '') or base_name(dty) == 'Instruction') and n in ('create_account', 'transfer', 'allocate', 'assign'):
        kv = [eng.key_of(st, v) for v in vals]
        f = {'create_account': ('src', 'account', 'lamports', 'space', 'owner'), 'transfer': ('src', 'account', 'lamports'), 'allocate': ('account', 'space'), 'assign': ('account', 'owner')}[n]
        return [(st, Ix('system_' + n, **dict(zip(f, kv))))]
    if n in ('invoke', 'invoke_signed', 'invoke_unchecked', 'invoke_signed_unchecked') and not s:
        ix = vals[0]
        while isinstance(ix, Ref):
            ix = eng.load(st, ix)
        if not isinstance(ix, Ix):
            raise Unsupported('CPI of %r' % (ix,))
        ns = st.fork()
        st.trace.append(('cpi', ix, ns, span, vals[2] if len(vals) > 2 else None))
        eng.cpi_n = getattr(eng, 'cpi_n', 0) + 1
        for k in list(st.mem):
            if k[0] == 'DATA' and isinstance(st.mem[k], Data):
                d = st.mem[k]
                st.mem[k] = Data(d.i, d.views, d.ver)
        return both(eng, st, dty, UNIT, 'cpi_ok')
    if n == 'get' and s in ('Clock', 'Rent') and tr == 'Sysvar':
        return both(eng, st, dty, Lazy(s.lower(), s), 'sysvar_ok')
    if s == 'Rent' and n == 'minimum_balance':
        return [(st, eng.int_const(eng.fresh('rent'), 'u64'))]
    if n == 'unpack' and tr == 'Pack':
        r, x = slice_ref(eng, st, vals[0])
        if isinstance(x, (Data, Slice)):
            x = as_slice(x)
            t = base_name(c['selfty'])
            return both(eng, st, dty, Lazy('acct%s.%s' % (x.data.i, t), t), 'unpack_ok')
    if n in ('to_vec', 'into_vec', 'to_owned') and '[u8]' in ''.join(str(t) for t in tys) or n == 'into_vec':
        v = vals[0]
        if isinstance(v, Ref):
            x = eng.load(st, v)
            if isinstance(x, Node) and not x.f:
                return [(st, Opaque('vec'))]
        return [(st, Opaque('bytes'))]
    if n in ('iter', 'map', 'collect') and 'Vec<u8>' in str(tys[0]):
        return [(st, Opaque('seeds'))]
    if isinstance(vals[0] if vals else None, Opaque) and n in ('as_slice', 'iter', 'map', 'collect', 'as_ref', 'deref'):
        return [(st, Opaque(n))]
    return None

class ByteCopy:
    def __init__(self, x):
        self.x = x
    def same(self, o):
        return isinstance(o, ByteCopy) and self.x.same(o.x)

def account_call(eng, c, vals, tys, dty, st, span):
    n = c['name']
    v = vals[0]
    a = v
    while isinstance(a, Ref):
        b = eng.load(st, a)
        if isinstance(b, Node) and b.ty == 'AccountInfo':
            break
        a = b
    if n == 'clone':
        return [(st, eng.load(st, a))]
    ai = eng.load(st, a)
    if not (isinstance(ai, Node) and ai.ty == 'AccountInfo'):
        return None
    i = ai.f[4].root[1]
    if n in ('try_borrow_data', 'try_borrow_mut_data'):
        return both(eng, st, dty, ai.f[4], 'borrow_ok')
    if n in ('try_borrow_lamports', 'try_borrow_mut_lamports'):
        return both(eng, st, dty, ai.f[3], 'borrow_ok')
    if n == 'lamports':
        return [(st, eng.load(st, eng.load(st, ai.f[3])))]
    if n in ('data_len', 'data_is_empty', 'try_data_len', 'try_data_is_empty'):
        l = st.mem.get(('LEN', i))
        if l is None:
            l = eng.int_const('acct%s.data_len' % i, 'usize')
        x = l if 'len' in n else cmp_op('Eq', l, 0)
        return [(st, x)] if not n.startswith('try') else both(eng, st, dty, x, 'borrow_ok')
    if n == 'realloc':
        st.trace.append(('realloc', i, vals[1], st.fork(), span))
        st.mem[('LEN', i)] = vals[1]
        return both(eng, st, dty, UNIT, 'realloc_ok')
    if n == 'assign':
        st.trace.append(('assign', i, eng.key_of(st, vals[1]), st.fork(), span))
        eng.store(st, ai.f[5], eng.key_of(st, vals[1]))
        return [(st, UNIT)]
    if n in ('signer_key',):
        raise Unsupported('AccountInfo::' + n)
    return None

GETTERS = {'get_uncollected_fee_amount': 'fees', 'get_collected_fee_amount': 'collected', 'get_sequence_number': 'seq', 'get_tick_size': 'tick', 'get_base_lots_per_base_unit': 'blpbu', 'get_taker_fee_bps': 'bps'}

def market_call(eng, c, vals, tys, dty, st, span):
    n = c['name']
    r = vals[0]
    x = eng.load(st, r) if isinstance(r, Ref) else None
    while isinstance(x, Ref):
        r = x
        x = eng.load(st, x)
    if not isinstance(x, Mkt):
        return None
    if n in GETTERS:
        if n in ('get_tick_size', 'get_base_lots_per_base_unit') and eng.tag != 100:
            return [(st, eng.mk(Mkt(x.i).part(GETTERS[n]), dty))]       # never change after initialisation (C22, engine units)
        return [(st, eng.mk(x.part(GETTERS[n]), dty))]
    if n in ('get_book', 'get_book_mut'):
        d = const_int(eng.discr(vals[1]))
        if d is None:
            raise Unsupported('book of a symbolic side')
        return [(st, Ref(r.root, r.path + (('part', 'bids' if d == 0 else 'asks'),)))]
    if n in ('get_registered_traders', 'get_registered_traders_mut'):
        return [(st, Ref(r.root, r.path + (('part', 'traders'),)))]
    if n in ('get_trader_index', 'get_trader_state', 'get_trader_state_from_index', 'get_trader_id_from_index'):
        k = eng.key_of(st, vals[1])
        nm = '%s(%s)' % (x.part(n), k)
        if n == 'get_trader_state':
            raise Unsupported(n)
        if n == 'get_trader_state_from_index':
            st.trace.append(('trader_read', x.ver, k))
        return [(st, eng.mk(nm, dty))]
    args = []
    for v, t in zip(vals[1:], tys[1:]):
        y = v
        while isinstance(y, Ref):
            try:
                z = eng.load(st, y)
            except Unsupported:
                break
            if not (isinstance(z, Ref) or isz(z) and z.sort() == Key or isinstance(z, Node) and not (isinstance(z.ty, str) and z.ty.startswith('{closure'))):
                break
            y = z
        args.append(y)
    rec = ['market', n, r.root[1], args, None, st.fork(), span]
    h = getattr(eng, 'on_market', None)
    if h:
        h(eng, st, rec)
    if n in MUTATORS or n not in GETTERS:
        st.mem[r.root] = Mkt(x.i, x.ver + 1 if isinstance(x.ver, int) else eng.fresh('mv'))
    st.trace.append(rec)
    if n in ('get_trader_state_mut',):
        out = []
        for ns, some in eng.branch(st, z3.Bool(eng.fresh('registered'))):
            if some:
                rt = ('TS', eng.fresh('ts'))
                ns.mem[rt] = eng.expand(Lazy(rt[1], 'TraderState'))
                rr = list(rec)
                rr[4] = Ref(rt)
                ns.trace[-1] = rr
                out.append((ns, opt_some(dty, Ref(rt))))
            else:
                out.append((ns, opt_none(dty)))
        return out
    v = eng.mk('%s!%d' % (n, next(eng.fresh_n)), dty) if norm(dty) != '()' else UNIT
    rec[4] = v
    h = getattr(eng, 'market_post', None)
    if h:
        h(eng, st, rec)
    return [(st, v)]
