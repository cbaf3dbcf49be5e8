"""Abstract models of the dependency's red-black tree (lib-sokoban RedBlackTree): the assumed contract.

OrderBook: FIFOOrderId -> FIFORestingOrder;  Traders: trader key -> address -> TraderState.
Both carry ghost aggregates (sum of order values per owner, sum of trader balances) that every update maintains."""
import z3
from sym import *
from mir import norm, base_name, generic_args

I, B = z3.IntSort(), z3.BoolSort()

class Schema:
    """universally quantified fact: for all x of the sort, fn(x)"""
    __slots__ = ('sort', 'fn', 'name')
    def __init__(self, sort, fn, name=''):
        self.sort, self.fn, self.name = sort, fn, name

def less(side, a, b):
    """book order: a strictly before b (better price, then earlier)"""
    pa, pb = OrdKey.price(a), OrdKey.price(b)
    sa, sb = OrdKey.seq(a), OrdKey.seq(b)
    if side == 'bids':
        return z3.Or(pa > pb, z3.And(pa == pb, sa > sb))
    return z3.Or(pa < pb, z3.And(pa == pb, sa < sb))

def mk_key(p, s):
    return OrdKey.mk(zI(p), zI(s))

class OrderBook:
    FIELDS = ('dom', 'owner', 'lots', 'lvs', 'lvt', 'n', 'vown', 'vtot')
    def __init__(self, side, name, tk, fresh=True):
        self.side, self.name, self.tk = side, name, tk
        self.pred = None
        if fresh:
            A = lambda n, s: z3.Const('%s.%s' % (name, n), z3.ArraySort(OrdKey, s))
            self.dom = A('dom', B)
            self.owner, self.lots, self.lvs, self.lvt = A('owner', I), A('lots', I), A('lvs', I), A('lvt', I)
            self.n = z3.Int(name + '.n')
            self.vown = z3.Const(name + '.vown', z3.ArraySort(I, I))
            self.vtot = z3.Int(name + '.vtot')
    def copy(self):
        b = OrderBook(self.side, self.name, self.tk, False)
        for f in self.FIELDS:
            setattr(b, f, getattr(self, f))
        return b
    def same(self, o):
        return isinstance(o, OrderBook) and all(getattr(self, f).eq(getattr(o, f)) for f in self.FIELDS)
    def havoc(self, eng, st, nm):
        b = OrderBook(self.side, nm, self.tk)
        eng.ranges[nm + '.n'] = (0, 2**32)
        eng.ranges[nm + '.vtot'] = (0, None)
        return b
    def value(self, key, lots):
        """lots of collateral an order of this size locks (quote lots for bids, base lots for asks)"""
        if self.side == 'bids':
            return zI(OrdKey.price(key)) * self.tk * zI(lots)
        return zI(lots)
    def entry(self, eng, key):
        t = 'FIFORestingOrder'
        f = {eng.field_index(t, 'trader_index'): self.owner[key],
             eng.field_index(t, 'num_base_lots'): Node('BaseLots', {0: self.lots[key]}),
             eng.field_index(t, 'last_valid_slot'): self.lvs[key],
             eng.field_index(t, 'last_valid_unix_timestamp_in_seconds'): self.lvt[key]}
        return Node(t, f)
    def fields_of(self, eng, st, v):
        t = 'FIFORestingOrder'
        g = lambda n: eng.get(v, eng.field_index(t, n))
        lots = g('num_base_lots')
        return zI(g('trader_index')), zI(eng.get(lots, 0, 'u64')), zI(g('last_valid_slot')), zI(g('last_valid_unix_timestamp_in_seconds'))
    def facts(self, eng, key):
        """what the ranges of the stored machine integers and the ghost sums give for one key"""
        o, l = self.owner[key], self.lots[key]
        v = self.value(key, l)
        m = 2**64 - 1
        fs = [o >= 0, o <= m, l >= 0, l <= m, self.lvs[key] >= 0, self.lvs[key] <= m, self.lvt[key] >= 0, self.lvt[key] <= m,
              OrdKey.price(key) >= 0, OrdKey.price(key) <= m, OrdKey.seq(key) >= 0, OrdKey.seq(key) <= m,
              self.n >= 0, z3.Implies(self.dom[key], z3.And(self.n >= 1, v >= 0, v <= self.vown[o], self.vown[o] <= self.vtot))]
        return fs
    def set(self, key, o, l, s, t, present):
        """(key present beforehand: formula) store the order"""
        b = self.copy()
        old = z3.If(self.dom[key], self.value(key, self.lots[key]), 0) if const_bool(present) is None else (self.value(key, self.lots[key]) if present else z3.IntVal(0))
        new = self.value(key, l)
        b.dom = z3.Store(self.dom, key, z3.BoolVal(True))
        b.owner = z3.Store(self.owner, key, o)
        b.lots = z3.Store(self.lots, key, l)
        b.lvs = z3.Store(self.lvs, key, s)
        b.lvt = z3.Store(self.lvt, key, t)
        c = const_bool(present)
        if c is True:
            if self.owner[key].eq(o) or z3.simplify(self.owner[key]).eq(z3.simplify(o)):
                b.vown = z3.Store(self.vown, o, self.vown[o] - old + new)
                b.owner = self.owner
            else:
                v1 = z3.Store(self.vown, self.owner[key], self.vown[self.owner[key]] - old)
                b.vown = z3.Store(v1, o, v1[o] + new)
        elif c is False:
            b.vown = z3.Store(self.vown, o, self.vown[o] + new)
            b.n = self.n + 1
        else:
            v1 = z3.If(present, z3.Store(self.vown, self.owner[key], self.vown[self.owner[key]] - self.value(key, self.lots[key])), self.vown)
            b.vown = z3.Store(v1, o, v1[o] + new)
            b.n = z3.If(present, self.n, self.n + 1)
        b.vtot = self.vtot - old + new
        return b
    def delete(self, key):
        """key present"""
        b = self.copy()
        o = self.owner[key]
        v = self.value(key, self.lots[key])
        b.dom = z3.Store(self.dom, key, z3.BoolVal(False))
        b.vown = z3.Store(self.vown, o, self.vown[o] - v)
        b.vtot = self.vtot - v
        b.n = self.n - 1
        return b
    # engine protocol
    def proj(self, eng, k, ty=None):
        if isinstance(k, tuple) and k[0] == 'k':
            return self.entry(eng, k[1])
        raise Unsupported('order book field %r' % (k,))
    def proj_put(self, eng, k, rest, val):
        if not (isinstance(k, tuple) and k[0] == 'k'):
            raise Unsupported('order book store %r' % (k,))
        e = eng.put(self.entry(eng, k[1]), rest, val)
        o, l, s, t = self.fields_of(eng, None, e)
        return self.set(k[1], o, l, s, t, True)
    def __repr__(self):
        return 'OrderBook(%s)' % self.name

class Traders:
    FIELDS = ('live', 'key', 'addr', 'ql', 'qf', 'bl', 'bf', 'tq', 'tb', 'n')
    def __init__(self, name, fresh=True):
        self.name = name
        if fresh:
            A = lambda n, s: z3.Const('%s.%s' % (name, n), z3.ArraySort(I, s))
            self.live, self.key = A('live', B), A('key', Key)
            self.addr = z3.Const(name + '.addr', z3.ArraySort(Key, I))
            self.ql, self.qf, self.bl, self.bf = A('ql', I), A('qf', I), A('bl', I), A('bf', I)
            self.tq, self.tb, self.n = z3.Int(name + '.tq'), z3.Int(name + '.tb'), z3.Int(name + '.n')
    def copy(self):
        b = Traders(self.name, False)
        for f in self.FIELDS:
            setattr(b, f, getattr(self, f))
        return b
    def same(self, o):
        return isinstance(o, Traders) and all(getattr(self, f).eq(getattr(o, f)) for f in self.FIELDS)
    def havoc(self, eng, st, nm):
        eng.ranges[nm + '.n'] = (0, 2**32)
        eng.ranges[nm + '.tq'] = (0, None)
        eng.ranges[nm + '.tb'] = (0, None)
        return Traders(nm)
    def facts(self, eng, a):
        m = 2**64 - 1
        fs = []
        for x in (self.ql, self.qf, self.bl, self.bf):
            fs += [x[a] >= 0, x[a] <= m]
        fs += [z3.Implies(self.live[a], z3.And(self.addr[self.key[a]] == a, a >= 1, a < 2**31, self.n >= 1,
                                               self.ql[a] + self.qf[a] <= self.tq, self.bl[a] + self.bf[a] <= self.tb))]
        return fs
    def key_facts(self, eng, k):
        a = self.addr[k]
        return [a >= 0, a < 2**31, z3.Implies(a != 0, z3.And(self.live[a], self.key[a] == k))] + self.facts(eng, a)
    def entry(self, eng, a):
        t = 'TraderState'
        n = lambda ty, v: Node(ty, {0: v})
        f = {eng.field_index(t, 'quote_lots_locked'): n('QuoteLots', self.ql[a]), eng.field_index(t, 'quote_lots_free'): n('QuoteLots', self.qf[a]),
             eng.field_index(t, 'base_lots_locked'): n('BaseLots', self.bl[a]), eng.field_index(t, 'base_lots_free'): n('BaseLots', self.bf[a]),
             eng.field_index(t, '_padding'): Lazy('trader.pad', '[u64; 8]')}
        return Node('RBNode', {0: self.key[a], 1: Node(t, f)})
    def state_fields(self, eng, v):
        t = 'TraderState'
        g = lambda n: zI(eng.get(eng.get(v, eng.field_index(t, n)), 0, 'u64'))
        return g('quote_lots_locked'), g('quote_lots_free'), g('base_lots_locked'), g('base_lots_free')
    def set_state(self, a, ql, qf, bl, bf):
        b = self.copy()
        b.tq = self.tq
        dq, db = [], []
        for nm, v in (('ql', ql), ('qf', qf), ('bl', bl), ('bf', bf)):
            arr = getattr(self, nm)
            if v.eq(arr[a]):
                continue
            setattr(b, nm, z3.Store(arr, a, v))
            (dq if nm[0] == 'q' else db).append(v - arr[a])
        for d in dq:
            b.tq = b.tq + d
        for d in db:
            b.tb = b.tb + d
        return b
    def proj(self, eng, k, ty=None):
        if isinstance(k, tuple) and k[0] == 'k':
            return self.entry(eng, k[1])
        raise Unsupported('traders field %r' % (k,))
    def proj_put(self, eng, k, rest, val):
        if not (isinstance(k, tuple) and k[0] == 'k') or not rest or rest[0] != 1:
            raise Unsupported('traders store %r %r' % (k, rest))
        e = eng.put(self.entry(eng, k[1]), rest, val)
        return self.set_state(k[1], *self.state_fields(eng, eng.get(e, 1)))
    def __repr__(self):
        return 'Traders(%s)' % self.name
