"""The ladder of a market (C21): every level of the view aggregates exactly the unexpired orders of one price.

The view is a pipeline over an order book.  std's and itertools' adapters are taken at their word (filter_map keeps what
the closure returns, take_while stops at the first it returns false for, group_by puts runs of equal keys into one group, take(n) keeps the first n, collect keeps order; an
order book is iterated best price first: C03's contract of the map); every closure is the real one, applied to an arbitrary
order of the book, an arbitrary level and an arbitrary member of its group."""
import re
import z3
from sym import *
from maps import mk_key, less
import stdlib
from stdlib import It, LVec, run_stages, key_node, opt_some, opt_none
from eng_specs import Unit, Eng, fn, SIDES
from acct import PEng
from mkt import MKT
from mir import norm, base_name
from batch import Group

W = 'the ladder'

class Levels:
    """levels of one side; `what`: LevelsOf(side, typed)"""
    def __init__(self, side, ty):
        self.side, self.ty = side, ty
    def same(self, o):
        return isinstance(o, Levels) and (self.side, self.ty) == (o.side, o.ty)
    def havoc(self, eng, st, nm):
        return self

class LEng(Eng):
    over_list = PEng.over_list
    do_loop = PEng.do_loop
    def tyenv_of(self, g, tys, dty):
        env = super().tyenv_of(g, tys, dty)
        if re.search(r'(^|::)Market::\w+$', g.name):       # a provided method of the trait, on the market under proof
            env = dict(env or {}, **self.tyenv0)
        return env

class Ladder(Unit):
    eng_class = LEng
    def __init__(self, p, method, typed, dated):
        super().__init__(p)
        e = self.eng
        self.method, self.typed, self.dated = method, typed, dated
        self.name = method
        c = [g for g in p.by_last.get(method, []) if g.kind == 'fn' and re.search(r'(^|::)Market::%s$' % method, g.name)]
        if len(c) != 1:
            raise Unsupported('anchor function %s (%d candidates)' % (method, len(c)))
        self.f = c[0]
        e.tyenv0 = {'MarketOrderId': 'FIFOOrderId', 'MarketRestingOrder': 'FIFORestingOrder', 'Self': 'FIFOMarket'}
        for t, fs in (('TypedLadder', ('bids', 'asks')), ('Ladder', ('bids', 'asks')), ('TypedLadderOrder', ('price_in_ticks', 'size_in_base_lots')), ('LadderOrder', ('price_in_ticks', 'size_in_base_lots'))):
            if [x[0] for x in p.structs.get(t) or []] != list(fs):
                raise Unsupported(t)
        e.std_hook = self.hook
        self.levels = e.int_const('levels', 'u64')
        if dated:
            self.os, self.ot = Lazy('arg.slot', 'Option<u64>'), Lazy('arg.ts', 'Option<u64>')
            val = lambda o: z3.If(zI(e.discr(o)) == 1, self.scal(e.get(e.get(o, ('v', 'Some')), 0, 'u64')), 0)
            self.S, self.T = val(self.os), val(self.ot)
        else:
            self.S = self.T = z3.IntVal(0)
    def scal(self, v):
        e = self.eng
        for _ in range(4):
            if isinstance(v, int) or isz(v):
                return zI(v)
            v = e.get(v, 0, 'u64')
        raise Unsupported('a number')
    def O(self, st, label, g):
        if self.eng.mute == 0:
            self.eng.oblige(st, 'C21|' + label, g, where=W)
    # ---- std over books and ladders
    def hook(self, e, c, vals, tys, dty, st, span):
        n = c['name']
        r = v0 = vals[0] if vals else None
        x = v0
        for _ in range(6):
            if not isinstance(x, Ref):
                break
            r = x
            try:
                x = e.load(st, x)
            except Unsupported:
                return None
        if isinstance(x, Group):
            return self.group(e, c, x, vals, dty, st)
        if isinstance(x, Levels):
            if n in ('deref', 'as_slice', 'borrow', 'as_ref', 'index', 'deref_mut'):
                return [(st, r if isinstance(r, Ref) else e.alloc(st, x, 'lv'))]
            if n in ('clone', 'to_vec', 'into_boxed_slice'):
                return [(st, x)]
            if n in ('iter', 'into_iter'):
                return [(st, It(('levels', x)))]
            raise Unsupported('%s of the levels of a ladder' % n)
        if n in ('extend_from_slice', 'extend', 'append') and isinstance(x, LVec) and len(vals) == 2:
            y = vals[1]
            for _ in range(6):
                if isinstance(y, Ref):
                    y = e.load(st, y)
            if isinstance(y, It) and y.src[0] in ('book', 'levels'):
                y = self.collect(e, y, dty, st)
            if isinstance(y, Levels):
                if x.items:
                    raise Unsupported('levels appended to a ladder')
                e.store(st, r, y)
                return [(st, UNIT)]
        if isinstance(x, It) and x.src[0] in ('book', 'levels') and n == 'collect':
            return [(st, self.collect(e, x, dty, st))]
        return None
    def group(self, e, c, g, vals, dty, st):
        n = c['name']
        if n in ('map', 'into_iter', 'copied', 'cloned', 'by_ref'):
            if n == 'map':
                g2 = Group(g.name)
                g2.stages = getattr(g, 'stages', ()) + (('map', vals[1]),)
                return [(st, g2)]
            return [(st, g)]
        s = st.fork()
        o = s.mem[('GRP', g.name)]
        res = lambda: self.mknum(e, dty, e.int_const(g.name + '.sum', (0, None)))
        for s1, keep, v in run_stages(e, s, getattr(g, 'stages', ()), o[1], '?'):
            if n == 'sum':
                self.O(s1, 'a level of the ladder is the sum of its orders', self.scal(v) == o[2])
            elif n == 'fold':
                acc = e.int_const(e.fresh('acc'), 'u64')
                self.O(s1, 'a level of the ladder is the sum of its orders', self.scal(vals[1]) == 0)
                for s2, r in e.invoke(vals[2], [self.mknum(e, dty, acc), v], s1, dty):
                    self.O(s2, 'a level of the ladder is the sum of its orders', self.scal(r) == acc + o[2])
            else:
                raise Unsupported('%s of the orders of a level' % n)
        return [(st, res())]
    def mknum(self, e, ty, v):
        return v if norm(ty) in ('u64', 'u128', 'usize') else Node(ty, {0: v})
    def collect(self, e, it, dty, st):
        e.no_merge += 1
        try:
            return self.from_book(e, it, dty, st) if it.src[0] == 'book' else self.from_levels(e, it, dty, st)
        finally:
            e.no_merge -= 1
    def from_levels(self, e, it, dty, st):
        lv = it.src[1]
        s = st.fork()
        t = e.mk(e.fresh('level'), lv.ty)
        ty = stdlib.elem_ty(dty) if norm(dty) != '()' else lv.ty
        for s1, keep, r in run_stages(e, s, it.stages, e.alloc(s, t, 'level'), ty):
            if isinstance(r, Ref):
                r = e.load(s1, r)
            self.O(s1, 'the plain ladder shows what the typed one shows', b_and(b_and(keep), self.scal(e.get(r, 0)) == self.scal(e.get(t, 0)), self.scal(e.get(r, 1)) == self.scal(e.get(t, 1))))
        return Levels(lv.side, ty)
    def from_book(self, e, it, dty, st):
        if len(it.src) > 3:
            raise Unsupported('the rest of an order book')
        bref, m = it.src[1], it.src[2]
        kinds = [s[0] for s in it.stages]
        if kinds.count('group_by') != 1:
            raise Unsupported('pipeline %s over an order book' % kinds)
        gi = kinds.index('group_by')
        pre, by, post = it.stages[:gi], it.stages[gi][1], it.stages[gi + 1:]
        ty = stdlib.elem_ty(dty) if norm(dty) != '()' else 'TypedLadderOrder'
        if any(s[0] not in ('filter', 'map', 'filter_map', 'copied', 'cloned', 'take_while') for s in pre):
            raise Unsupported('pipeline %s over an order book' % kinds)
        if sorted(s[0] for s in post) != ['map', 'take']:
            raise Unsupported('pipeline %s over an order book' % kinds)
        # an arbitrary order of the book
        s = st.fork()
        nm = e.fresh('order')
        k = mk_key(e.int_const(nm + '.p', 'u64'), e.int_const(nm + '.s', 'u64'))
        e.assume(s, m.dom[k])
        for x in m.facts(e, k):
            e.assume(s, x)
        e.inst(s, 'ord', k)
        item = Node('(&FIFOOrderId, &FIFORestingOrder)', {0: e.alloc(s, key_node(e, k), 'itkey'), 1: Ref(bref.root, bref.path + (('k', k),))})
        expired = z3.Or(z3.And(m.lvs[k] != 0, m.lvs[k] < self.S), z3.And(m.lvt[k] != 0, m.lvt[k] < self.T))
        price, lots = k.arg(0), m.lots[k]
        seen = False
        for j, sg in enumerate(pre):
            if sg[0] == 'take_while':                  # where it stops, everything that follows is hidden
                k2 = mk_key(e.int_const(nm + '.p2', 'u64'), e.int_const(nm + '.s2', 'u64'))
                for s1, keep, v in run_stages(e, s.fork(), self.as_filters(pre[:j + 1]), item, '?'):
                    if keep:
                        continue
                    e.assume(s1, z3.And(m.dom[k2], less(m.side, k, k2)))
                    for x in m.facts(e, k2):
                        e.assume(s1, x)
                    e.inst(s1, 'ord', k2)
                    gone = z3.Or(z3.And(m.lvs[k2] != 0, m.lvs[k2] < self.S), z3.And(m.lvt[k2] != 0, m.lvt[k2] < self.T))
                    for s2, keep2, _ in run_stages(e, s1, self.as_filters(pre[:j]), item, '?'):
                        if keep2:                      # k reaches the stage and stops it
                            self.O(s2, 'an order is part of the ladder exactly if it has not expired at the given slot and time', gone)
        pre = self.as_filters(pre)
        for s1, keep, v in run_stages(e, s, pre, item, '?'):
            self.O(s1, 'an order is part of the ladder exactly if it has not expired at the given slot and time', expired != z3.BoolVal(bool(keep)))
            if not keep:
                continue
            for s2, key in e.invoke(by, [e.alloc(s1, v, 'item')], s1, '?'):
                self.O(s2, 'orders of the same price form one level', self.scal(key) == price)
                g = Group(e.fresh('group'))
                s2.mem[('GRP', g.name)] = (0, v, lots)
                cur = [(s2, Node('(K, Group)', {0: key, 1: g}))]
                for sg in post:
                    if sg[0] == 'take':
                        self.O(s2, 'the ladder has at most the requested number of levels, and no fewer than there are', zI(sg[1]) == self.levels)
                    else:
                        cur = [x for s3, lvl in cur for x in e.invoke(sg[1], [lvl], s3, ty)]
                for s3, lvl in cur:
                    seen = True
                    self.O(s3, 'a level of the ladder has the price of its orders', self.scal(e.get(lvl, 0)) == price)
                    self.O(s3, 'a level of the ladder is the sum of its orders', self.scal(e.get(lvl, 1)) == z3.Int(g.name + '.sum'))
        if not seen:
            self.O(s, 'the ladder has levels', z3.BoolVal(False))
        return Levels(m.side, ty)
    def as_filters(self, stages):
        return [('filter',) + tuple(s[1:]) if s[0] == 'take_while' else s for s in stages]
    # ---- the unit
    def run(self):
        e, st = self.eng, self.st
        self.nexits = 0
        args = [self.ref, self.levels] + ([self.os, self.ot] if self.dated else [])
        self.p.parse(self.f)
        if len(self.f.argtys) != len(args):
            raise Unsupported('arguments of %s' % self.method)
        st0 = st.fork()
        for s, r in e.run_fn(self.f, args, st, tyenv=e.tyenv0):
            self.nexits += 1
            for i, w in ((0, 'bids'), (1, 'asks')):
                v = e.get(r, i)
                ok = isinstance(v, Levels) and v.side == w
                if not ok and not (isinstance(v, Levels) or isinstance(v, LVec) and not v.items):
                    raise Unsupported('%s of the ladder: %r' % (w, v))
                self.O(s, 'the %s of the ladder come from the %s of the market' % (w, w), z3.BoolVal(ok))
            self.O(s, 'the ladder only reads the market', z3.BoolVal(s.mem[MKT] is st0.mem[MKT] or same(s.mem[MKT], st0.mem[MKT])))
