"""PlaceMultiplePostOnlyOrders: the loop over the levels of a batch.

The batch is two unbounded lists.  itertools' sorted_by/group_by/fold are taken at their word (a stable sort by the
comparator; runs of equal keys become one group; every member of a group has the key of the group); the comparator, the
key, the level built from a group and the body of the loop are the real closures and the real code."""
import z3
from sym import *
import stdlib
from stdlib import It, LVec, AVec, opt_some, opt_none, run_stages
from acct import Enc
from acct_specs import Instr, AND, EQ, IMP, ONE_OF, ite
from eng_specs import eq_val

FLAGS = ['FailOnInsufficientFundsAndAmendOnCross', 'FailOnInsufficientFundsAndFailOnCross', 'SkipOnInsufficientFundsAndAmendOnCross', 'SkipOnInsufficientFundsAndFailOnCross']
FIELDS = ('price_in_ticks', 'size_in_base_lots', 'last_valid_slot', 'last_valid_unix_timestamp_in_seconds')
W = 'a level of the batch'

class Group:
    """the orders of one level; `rep` is an arbitrary one of them"""
    def __init__(self, name):
        self.name = name
    def same(self, o):
        return isinstance(o, Group) and self.name == o.name
    def havoc(self, eng, st, nm):
        raise Unsupported('a group of orders kept over iterations')

class Batch(Instr):
    def __init__(self, p, tag):
        super().__init__(p, tag)
        e = self.eng
        if p.enums.get('FailedMultipleLimitOrderBehavior') != FLAGS:
            raise Unsupported('FailedMultipleLimitOrderBehavior')
        for i, n in enumerate(FIELDS):
            if self.fidx('CondensedOrder', n) is None:
                raise Unsupported('CondensedOrder')
        e.pre_hook = self.hook
        e.invariants['process_multiple_new_orders'] = self.loop
        e.on_back_edge = self.back
        for g in ('dq', 'db', 'uq', 'ub'):
            self.st.ghost[g] = z3.IntVal(0)
        self.pk = Lazy(self.bytes('MultipleOrderPacket'), 'MultipleOrderPacket')
        d = e.discr(e.get(self.pk, self.fidx('MultipleOrderPacket', 'failed_multiple_limit_order_behavior')))
        self.skip = ONE_OF(d, [2, 3])
        self.reject = ONE_OF(d, [1, 3])
        self.nlevels = 0
        self.idvec = []
    def fidx(self, ty, n):
        for i, x in enumerate(self.p.structs.get(ty) or []):
            if (x[0] if isinstance(x, (tuple, list)) else x) == n:
                return i
        return None
    def of(self, o, n):
        return self.eng.get(o, self.fidx('CondensedOrder', n))
    # ---- the pipeline over one list
    def side_of(self, it):
        v = it.src[1]
        nm = getattr(v, 'name', '')
        for s, n in ((0, 'bids'), (1, 'asks')):
            if nm == '%s.%d' % (self.pk.name, self.fidx('MultipleOrderPacket', n)) or nm.startswith('%s.%d' % (self.pk.name, self.fidx('MultipleOrderPacket', n))):
                return s
        return None
    def hook(self, e, c, vals, tys, dty, st, span):
        n = c['name']
        v0 = vals[0] if vals else None
        x = v0
        for _ in range(6):
            if not isinstance(x, Ref):
                break
            try:
                x = e.load(st, x)
            except Unsupported:
                return None
        if isinstance(x, Group):
            if n in ('fold', 'sum'):
                return self.fold(e, x, vals, dty, st, span)
            if n == 'map':
                g = Group(x.name)
                g.stages = getattr(x, 'stages', ()) + (('map', vals[1]),)
                return [(st, g)]
            if n in ('into_iter', 'by_ref'):
                return [(st, x)]
            raise Unsupported('%s of a group of orders' % n)
        if not isinstance(x, It) or x.src[0] != 'abs' or self.side_of(x) is None:
            return None
        if n in ('max_by', 'min_by', 'max', 'min'):
            return [(st, e.mk(e.fresh('extreme'), dty))]
        if n == 'next':
            return self.next(e, x, dty, st, span)
        return None
    def order(self, st, nm):
        e = self.eng
        o = e.alloc(st, e.mk(e.fresh(nm), 'CondensedOrder'), 'order')
        return o, e.alloc(st, o, 'orderref')
    def one(self, outs, what):
        if len(outs) != 1:
            raise Unsupported(what)
        return outs[0]
    def next(self, e, it, dty, st, span):
        kinds = [s[0] for s in it.stages]
        side = self.side_of(it)
        if kinds != ['sorted_by', 'group_by', 'map']:
            raise Unsupported('pipeline %s over a batch' % kinds)
        out = []
        for ns, more in e.branch(st, z3.Bool(e.fresh('more'))):
            if not more:
                ns.trace.append(('end', side, ns.fork()))
                out.append((ns, opt_none(dty)))
                continue
            o, oo = self.order(ns, 'order')
            e.no_merge += 1
            try:
                for s1, key in e.invoke(it.stages[1][1], [oo], ns, '?'):
                    # the comparator and the key on another order
                    if e.mute == 0:
                        self.comparator(e, it, s1, side, o, oo, key)
                    g = Group(e.fresh('group'))
                    s1.mem[('GRP', g.name)] = o
                    for s2, lvl in e.invoke(it.stages[2][1], [Node('(K, Group)', {0: key, 1: g})], s1, 'CondensedOrder'):
                        s2.trace.append(('elem', side, lvl, dict(s2.ghost), o, g.name))
                        out.append((s2, opt_some(dty, lvl)))
            finally:
                e.no_merge -= 1
        return out
    def comparator(self, e, it, s1, side, o, oo, key):
        s = s1.fork()
        o2, oo2 = self.order(s, 'other')
        L = lambda r: e.load(s, r)
        for s2, k2 in e.invoke(it.stages[1][1], [oo2], s, '?'):
            eq = AND(*[self.sameval(s2, self.of(L(o), n), self.of(L(o2), n)) for n in FIELDS if n != 'size_in_base_lots'])
            e.oblige(s2, 'C24|orders of a batch with the same price and deadlines form one level', IMP(eq, eq_val(e, s2, key, s2, k2)), where=W)
        s = s1.fork()
        o2, oo2 = self.order(s, 'other')
        for s2, r in e.invoke(it.stages[0][1], [oo, oo2], s, 'Ordering'):
            p1, p2 = self.scalar(self.of(e.load(s2, o), 'price_in_ticks')), self.scalar(self.of(e.load(s2, o2), 'price_in_ticks'))
            if side == 0:
                p1, p2 = p2, p1
            d = e.discr(r)
            e.oblige(s2, 'C24|the levels of a batch come most aggressive first', AND(IMP(cmp_op('Lt', p1, p2), EQ(d, -1)), IMP(cmp_op('Gt', p1, p2), EQ(d, 1)), IMP(EQ(p1, p2), EQ(d, 0))), where=W)
    def sameval(self, s, a, b):
        return eq_val(self.eng, s, a, s, b)
    def fold(self, e, g, vals, dty, st, span):
        if e.mute == 0:
            label = 'C24|a level of a batch is the sum of its orders'
            if len(vals) > 1:
                e.oblige(st, label, EQ(vals[1], 0), where=W)
            s = st.fork()
            o, oo = self.order(s, 'member')
            acc = e.int_const(e.fresh('acc'), 'u64')
            for s1, keep, v in run_stages(e, s, getattr(g, 'stages', ()), o, '?'):
                if len(vals) == 1:                      # sum
                    if isinstance(v, Ref):
                        v = e.load(s1, v)
                    e.oblige(s1, label, EQ(self.scalar(v), self.scalar(self.of(e.load(s1, o), 'size_in_base_lots'))), where=W)
                    continue
                for s2, r in e.invoke(vals[2], [acc, v], s1, 'u64'):
                    e.oblige(s2, label, EQ(r, i_add(acc, self.scalar(self.of(e.load(s2, o), 'size_in_base_lots')))), where=W)
        return [(st, e.int_const(g.name + '.sum', 'u64'))]
    # ---- the loop
    def loop(self, c):
        e, st, en = c.eng, c.st, c.entry
        d = lambda n: st.ghost[n] - en.ghost[n]
        out = []
        for (root, path) in c.mods or ():
            if root[0] != 'L':
                continue
            try:
                v, v0 = e.read(st, root, path), e.read(en, root, path)
            except Unsupported:
                continue
            if isinstance(v, (Node, Lazy)) and v.ty in ('QuoteLots', 'BaseLots'):
                v, v0 = self.scalar(v), self.scalar(v0)
            if not (isinstance(v, int) or isz(v) and z3.is_int(v)) or isinstance(v, bool):
                continue
            for g in ('dq', 'db'):
                out.append(('?%s = %s' % (root[2:], g) + str(path), EQ(v, i_add(v0, d(g)))))
            for g in ('uq', 'ub'):
                out.append(('?%s -= %s' % (root[2:], g) + str(path), IMP(self.skip, EQ(v, i_sub(v0, d(g))))))
        for g in ('dq', 'db', 'uq', 'ub'):
            if not same(st.ghost[g], en.ghost[g]):
                out.append(('?%s grows' % g, d(g) >= 0))
        return out
    def post(self, eng, st, rec):
        super().post(eng, st, rec)
        if rec[1] == 'place_order':
            q, b = self.due(rec)
            r = eng.get(eng.get(eng.get(rec[4], ('v', 'Some')), 0), 1)
            num = lambda k: self.scalar(eng.get(r, k))
            g = st.ghost
            g['dq'], g['db'] = g['dq'] + zI(q), g['db'] + zI(b)
            g['uq'], g['ub'] = g['uq'] + zI(q) + zI(num(6)), g['ub'] + zI(b) + zI(num(7))
    def covered(self, s, side, price, lots, used):
        """the trader's remaining funds cover a level"""
        e, t = self.eng, self.tag
        base, quote = self.free_lots(self.key(3))
        if t == 16:
            amt = lambda i: z3.Int('acct%d.v0.u64@64' % i)
            from acct_specs import VAULT
            base = i_add(base, e.divrem(s, 'Div', amt(VAULT[t]), self.h0(BLS_)))
            quote = i_add(quote, e.divrem(s, 'Div', amt(VAULT[t] + 1), self.h0(QLS_)))
        if side == 0:
            need = e.divrem(s, 'Div', i_mul(i_mul(price, z3.Int('mkt2.v0.tick.0')), lots), z3.Int('mkt2.v0.blpbu.0'))
            return cmp_op('Ge', i_sub(quote, used['uq']), need)
        return cmp_op('Ge', i_sub(base, used['ub']), lots)
    def back(self, e, f, fid, s, entry):
        if e.mute or f.last != 'process_multiple_new_orders':
            return
        tr = s.trace[len(entry.trace):]
        el = [x for x in tr if x[0] == 'elem']
        pl = [x for x in tr if x[0] == 'market' and x[1] == 'place_order']
        rd = [x for x in tr if x[0] == 'market' and x[1] in ('get_trader_state', 'get_trader_index', 'get_trader_state_from_index') or x[0] in ('trader_read', 'end', 'push')]
        if len(el) != 1:
            raise Unsupported('an iteration that does not take one level of the batch')
        self.nlevels += 1
        O = lambda label, *g: e.oblige(s, label, AND(*g), where=W)
        side, lvl, used, o, gname = el[0][1:6]
        om = e.load(s, o)
        O('C24|a batch level has the price and deadlines of its orders', *[self.sameval(s, self.of(lvl, n), self.of(om, n)) for n in FIELDS if n != 'size_in_base_lots'])
        lots = e.int_const(gname + '.sum', 'u64')
        price = self.scalar(self.of(om, 'price_in_ticks'))
        O('C24,C01,C20|a level of a batch does nothing but place one order', len(pl) <= 1, len(tr) == 1 + len(pl) + len(rd))
        pushed = [x for x in rd if x[0] == 'push']
        label = 'C11|the identifiers returned are exactly those of the orders posted'
        if pl:
            w = self.order_id(pl[0])
            O(label, EQ(e.discr(w), len(pushed)) if len(pushed) < 2 else False)
            if len(pushed) == 1:
                O(label, eq_val(e, s, pushed[0][2], s, e.get(e.get(w, ('v', 'Some')), 0)))
        else:
            O(label, not pushed)
        for x in pushed:
            self.idvec.append(x[1])
        cov = self.covered(s, side, price, lots, used)
        if not pl:
            O('C24|a level of a batch is skipped only if the batch asks for it and the remaining funds do not cover it', self.skip, b_not(cov))
            return
        O('C24|a level of a batch that the remaining funds do not cover is skipped if the batch asks for it', b_not(AND(self.skip, b_not(cov))))
        a = pl[0][3]
        O('C24,C20,C01|the order of a batch is placed for the trader of the instruction', EQ(a[0], self.key(3)), pl[0][2] == 2)
        pk = a[1]
        O('C24,C16|a batch only posts', EQ(e.discr(pk), e.p.enums['OrderPacket'].index('PostOnly')))
        O('C24|the order placed is the level of the batch', EQ(self.pk_field(pk, 'side'), side), EQ(self.pk_field(pk, 'price_in_ticks', 0), price), EQ(self.pk_field(pk, 'num_base_lots'), lots))
        cid = e.get(self.pk, self.fidx('MultipleOrderPacket', 'client_order_id'))
        O('C24,C12|the order carries the client order id of the batch', EQ(self.pk_field(pk, 'client_order_id'), ite(EQ(e.discr(cid), 1), self.scalar(e.get(e.get(cid, ('v', 'Some')), 0)), 0)))
        O('C24,C04|a crossing order is rejected exactly if the batch says so', self.same_bool(self.pk_field(pk, 'reject_post_only', False), self.reject))
        O('C24,C20|the order uses only deposited funds exactly if the instruction says so', self.same_bool(self.pk_field(pk, 'use_only_deposited_funds'), self.tag == 17))
        po = e.get(pk, ('v', 'PostOnly'))
        for n in ('last_valid_slot', 'last_valid_unix_timestamp_in_seconds'):
            O('C24,C08|the order of a batch has the deadlines of its level', self.opt_is(e.get(po, e.variant_index('OrderPacket', 'PostOnly', n)), self.of(om, n)))
        self.fn_args(s, pl[0])
    def same_bool(self, a, b):
        return AND(IMP(a, b), IMP(b, a))
    def ids(self, s, ret):
        e = self.eng
        label = 'C11|the identifiers returned are exactly those of the orders posted'
        self.ob(s, label, not [x for x in s.trace if x[0] == 'push'])       # only the loop over the levels adds identifiers
        if not self.idvec or any(not r.same(self.idvec[0]) for r in self.idvec):
            raise Unsupported('where the identifiers are collected')
        seen = [x[2] for x in s.trace if x[0] == 'idlen' and x[1].same(self.idvec[0])]
        if ret:
            if not isinstance(ret[0], Enc) or not isinstance(ret[0].v, (LVec, AVec)) or not isinstance(ret[0].ref, Ref):
                raise Unsupported('the data returned')
            self.ob(s, label, ret[0].ref.same(self.idvec[0]))
        else:
            if not seen:
                raise Unsupported('whether identifiers are returned')
            self.ob(s, label, EQ(e.seq_len(seen[-1]), 0))
    # ---- the successful exits
    def x16(self, s):
        ends = [x[1] for x in s.trace if x[0] == 'end']
        self.ob(s, 'C24|the bids of a batch are placed, then its asks', ends == [0, 1])
        if not self.nlevels:
            raise Unsupported('no level of the batch was seen')
        g = s.ghost
        if self.tag == 17:
            self.ob(s, 'C20,C01|nothing is left to be paid by the trader', EQ(g['dq'], 0), EQ(g['db'], 0))
            return
        tr = [x.f for x in self.cpis if x.kind == 'token_transfer']
        b = 5
        bv, qv = self.h0(3, 3), self.h0(5, 3)
        ba, qa, me, prog = self.key(b), self.key(b + 1), self.key(3), known('SPL_TOKEN')
        distinct = z3.Distinct(bv, qv, ba, qa)
        for k, src, dst, w in (('quote', qa, qv, i_mul(g['dq'], self.h0(QLS_))), ('base', ba, bv, i_mul(g['db'], self.h0(BLS_)))):
            t = 0
            for f in tr:
                t = i_add(t, ite(AND(EQ(f['src'], src), EQ(f['dst'], dst), EQ(f['auth'], me), EQ(f['prog'], prog)), f['amount'], 0))
            self.ob(s, 'C20,C01|the trader pays in exactly the %s due for the whole batch' % k, IMP(distinct, EQ(t, w)))
    x17 = x16
from acct import known
from acct_specs import BLS as BLS_, QLS as QLS_
