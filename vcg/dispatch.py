"""Which market type the bytes behind a header are read as: the capacities recorded in the header, and no others."""
import re, z3
from sym import *
from mir import norm, base_name, generic_args
from stdlib import opt_some, opt_none
from eng_specs import Eng, fn

SIZES = [(n, n, k) for n, ks in ((512, (128, 1025, 1153)), (1024, (128, 2049, 2177)), (2048, (128, 4097, 4225)), (4096, (128, 8193, 8321))) for k in ks]
OK = 'C22|a market is one of the supported sizes'
SAME = 'C22,C19|a market is read with the capacities recorded in its header'

class Buf:
    """the bytes given to the function"""
    def same(self, o):
        return isinstance(o, Buf)
    def havoc(self, eng, st, nm):
        return self

class TheMarket:
    def __init__(self, n):
        self.n = n
    def same(self, o):
        return isinstance(o, TheMarket) and self.n == o.n
    def havoc(self, eng, st, nm):
        return self

class Dispatch:
    def __init__(self, p, method):
        self.p, self.name, self.method = p, method, method
        self.f = fn(p, method, slf=None)
        e = self.eng = Eng(p)
        e.maptypes, e.cur_span = {}, None
        e.std_hook = self.hook
        e.dyn_hook = lambda en, c, v: None
        e.contracts[(None, 'get_sequence_number')] = self
        self.dims = [e.int_const('params.%d' % i, 'u64') for i in range(3)]
        names = [x[0] for x in p.structs.get('MarketSizeParams') or []]
        if names != ['bids_size', 'asks_size', 'num_seats']:
            raise Unsupported('MarketSizeParams')
    # contract: the sequence number of the market just read
    def matches(self, c, tys):
        return c['name'] == 'get_sequence_number'
    def apply(self, e, st, c, vals, tys, dty, span):
        v = vals[0]
        for _ in range(6):
            if isinstance(v, Ref):
                v = e.load(st, v)
        if not isinstance(v, TheMarket):
            raise Unsupported('sequence number of %r' % (v,))
        return [(st, e.int_const('seq', 'u64'))]
    def capacity(self, t):
        """the capacities of a market type, as numbers"""
        a = generic_args(norm(t))
        if base_name(norm(t)) != 'FIFOMarket' or len(a) != 4:
            return None
        k = [int(re.sub(r'_?usize$', '', x)) if re.match(r'^\d+(_?usize)?$', x.strip()) else None for x in a[1:]]
        return None if None in k else k
    def hook(self, e, c, vals, tys, dty, st, span):
        n = c['name']
        if n in ('load_mut_bytes', 'load_bytes') and c['trait'] == 'ZeroCopy':
            k = self.capacity(c['selfty'])
            v = vals[0]
            for _ in range(6):
                if isinstance(v, Ref):
                    v = e.load(st, v)
            if k is None or not isinstance(v, Buf):
                raise Unsupported('what the market is read from')
            if e.mute == 0:
                e.oblige(st, SAME, z3.And(*[zI(a) == b for a, b in zip(self.dims, k)]), where='load_bytes')
            out = []
            for ns, ok in e.branch(st, z3.Bool('sized')):
                out.append((ns, opt_some(dty, e.alloc(ns, TheMarket(tuple(k)), 'market')) if ok else opt_none(dty)))
            return out
        if n == 'size_of' and c['targs']:
            k = self.capacity(c['targs'][0])
            if k is None:
                raise Unsupported('size of %s' % c['targs'][0])
            if e.mute == 0:
                e.oblige(st, SAME, z3.And(*[zI(a) == b for a, b in zip(self.dims, k)]), where='size_of')
            return [(st, e.int_const('size.%d.%d.%d' % tuple(k), 'usize'))]
        return None
    def run(self):
        e = self.eng
        st = State()
        self.p.parse(self.f)
        par = e.alloc(st, Node('MarketSizeParams', {i: d for i, d in enumerate(self.dims)}), 'params')
        buf = e.alloc(st, Buf(), 'bytes')
        args = [par]
        for t in self.f.argtys[1:]:
            args.append({'bool': z3.BoolVal(False)}.get(norm(t), buf))
        ok_dims = z3.Or(*[z3.And(*[d == k for d, k in zip(self.dims, s)]) for s in SIZES])
        init = self.method == 'load_with_dispatch_init'
        n = 0
        for s, r in e.run_fn(self.f, args, st):
            d = const_int(e.discr(r))
            if d is None:
                raise Unsupported('result of %s' % self.method)
            if d == 1:
                continue
            n += 1
            O = lambda label, g: e.oblige(s, label, g, where='Ok exit')
            O(OK, ok_dims)
            v = e.get(e.get(r, ('v', 'Ok')), 0)
            if self.method == 'get_market_size':
                for k in SIZES:
                    O('C22|the size of a market is that of its type', z3.Implies(z3.And(*[a == b for a, b in zip(self.dims, k)]), zI(v) == z3.Int('size.%d.%d.%d' % k)))
                continue
            v = e.get(v, 0)
            for _ in range(6):
                if isinstance(v, Ref):
                    v = e.load(s, v)
            if not isinstance(v, TheMarket):
                raise Unsupported('the market loaded: %r' % (v,))
            if self.method == 'load_with_dispatch_mut':
                O('C16,C19|only an initialised market is loaded for an instruction', z3.Int('seq') > 0)
        if not n:
            raise Unsupported('%s never succeeds' % self.method)
        self.nexits = n
