"""Units for the other engine functions: reduce, cancel, withdraw, fee collection, creation, seat removal."""
import z3, re
from sym import *
from maps import OrderBook, Traders, Schema, mk_key, less
from mkt import Market, MKT, MT
from mir import norm, base_name
import stdlib
from stdlib import opt_some, opt_none, payload, key_val, Sel, ListSel
from eng_specs import Unit, PlaceOrder, lem_pos3, GBook, SIDES, fn, eq_val, TOP, I, B

class Eng2(Unit):
    """a trait function of the market with arguments given by position and type"""
    method = '?'
    argtypes = ()
    num, opt, resp, frame, goals_of, inv_items, totals_item = (PlaceOrder.__dict__[n] for n in ('num', 'opt', 'resp', 'frame', 'goals_of', 'inv_items', 'totals_item'))
    def __init__(self, p):
        super().__init__(p)
        self.name = self.method
        self.f = fn(p, self.method, trait=self.trait)
        self.sels = []
        self.eng.on_select = lambda st, s: self.sels.append(s)
    trait = 'WritableMarket'
    def args(self, want):
        """values for the parameters; `want`: expected types in order after self"""
        p = self.p
        p.parse(self.f)
        have = [norm(t) for t in self.f.argtys]
        if len(have) != len(want) + 1 or base_name(re.sub(r'^&(mut )?', '', have[0])) != 'FIFOMarket':
            raise Unsupported('arguments of %s' % self.method)
        out = [self.ref]
        for h, (t, v) in zip(have[1:], want):
            if t == 'event' and 'FnMut' in h or base_name(re.sub(r'^&(mut )?', '', h)) == base_name(t) or h == t:
                out.append(v)
            else:
                raise Unsupported('argument %s of %s (expected %s)' % (h, self.method, t))
        return out
    def unchanged(self, st, but=()):
        M = self.M
        o = lambda l, g: self.oblige(st, l, g, where='exit')
        o(*self.frame(self.st0, st, but))
    def same_book(self, st, label, i):
        b1, b0 = self.M.books(st)[i], (self.b0, self.a0)[i]
        k = self.sk('ord')
        self.oblige(st, label, GBook.of(b0).eq_at(b1, k), where='exit')

class Cancels(Eng2):
    """common to reduce and cancel: every event is a Reduce of an own order, the collateral goes to free funds or out"""
    def actor(self, st):
        return self.x0
    def setup(self):
        e, st = self.eng, self.st
        self.cl = z3.Bool('claim_funds')
        self.tref = e.alloc(st, self.taker, 'trader')
        self.ev = e.alloc(st, Sink('event'))
        st.ghost['relf'] = z3.IntVal(0)
        self.st0 = st.fork()
    def reduce_extra(self, st, w, k, g, f):
        gh = st.ghost
        x = self.x0
        v = self.value(w, k, f['base_lots_removed'])
        n = 'GQ' if w == 'gb' else 'GB'
        gh[n] = z3.Store(gh[n], x, gh[n][x] - z3.If(self.cl, v, 0))
        self.reduced(st, w, k, g, f)
    def reduced(self, st, w, k, g, f):
        self.oblige(st, 'C14|a cancelled order is removed in full', f['base_lots_remaining'] == 0, where='Reduce')
    def ev_ExpiredOrder(self, st, f, span):
        self.oblige(st, 'C12,C07|no expiry event in a cancellation', False, where='ExpiredOrder')
    def loop_extra(self, c, d):
        M, e = self.M, self.eng
        st, en = c.st, c.entry
        t, t0 = M.fld(st, 'traders'), M.fld(en, 'traders')
        x = self.x0
        out = []
        if t is not t0:
            for tot, n, F, rel in (('tq', 'GQ', 'qf', 'relq'), ('tb', 'GB', 'bf', 'relb')):
                out.append(('C01,C20|the funds of all traders fall by what is paid out', getattr(t, tot) == getattr(t0, tot) - z3.If(self.cl, d(rel), 0)))
                g1, g0 = st.ghost[n], en.ghost[n]
                if not same(g1, g0):
                    out.append(('C09,C01|the owner is debited what is paid out', g1[x] == g0[x] - z3.If(self.cl, d(rel), 0)))
                    fnc = lambda y, g1=g1, g0=g0: z3.Implies(y != x, g1[y] == g0[y])
                    self.both(c, out, 'C01,C09|no other trader is touched', 'tr', fnc)
                out.append(('C09|released collateral becomes free funds unless paid out', getattr(t, F)[x] == getattr(t0, F)[x] + z3.If(self.cl, 0, d(rel))))
        done = st.ghost.get(c.sel.name) if c.sel is not None else None
        for i in (0, 1):
            b, b0 = M.books(st)[i], M.books(en)[i]
            if b.same(b0):
                continue
            if done is not None:
                if c.sel.distinct:
                    gone = lambda k: done[k]
                else:
                    gone = lambda k, b0=b0: z3.And(done[k], b0.owner[k] == x)
                fnc = lambda k, b=b, b0=b0, gone=gone: z3.And(b.dom[k] == z3.And(b0.dom[k], z3.Not(gone(k))), z3.Implies(b.dom[k], z3.And(b.owner[k] == b0.owner[k], b.lots[k] == b0.lots[k], b.lvs[k] == b0.lvs[k], b.lvt[k] == b0.lvt[k])))
                self.both(c, out, 'C14,C09|the orders removed are the selected own orders processed so far', 'ord', fnc)
        if done is not None:
            sel = c.sel
            self.both(c, out, 'C14|only selected orders are processed', 'ord', lambda k: z3.Implies(done[k], sel.member(k)))
        return out
    def both(self, c, out, label, sort, fnc):
        if c.assume:
            self.eng.assume_all(c.st, Schema(sort, fnc, label))
        else:
            out.append((label, fnc(self.sk(sort))))
    def cand_terms(self, d, bl):
        z = lambda t: z3.If(self.cl, t, 0)
        return [('paid quote', z(d('relq'))), ('paid base', z(d('relb'))), ('same', z3.IntVal(0))]
    def run(self):
        e, st = self.eng, self.st
        self.setup()
        n = 0
        for s, r in e.run_fn(self.f, self.args(self.want()), st):
            for s2, some in e.branch(s, cmp_op('Eq', e.discr(r), 1)):
                if some:
                    n += 1
                    self.exit(s2, payload(e, r, 'Some'))
                else:
                    self.refused(s2)
        self.nexits = n
        if n == 0:
            raise Unsupported('no successful exit')
    def refused(self, st):
        self.oblige(st, 'C09|nothing is logged for a refused cancellation', st.ghost['nevents'] == 0, where='refused')
        self.nochange(st, 'C09|a refused cancellation changes nothing')
    def nochange(self, st, label):
        M, e = self.M, self.eng
        if not same(st.mem[MKT], self.st0.mem[MKT]):
            self.oblige(st, label, False, where='refused')
    def exit(self, st, r):
        e, M, gh = self.eng, self.M, st.ghost
        R = self.resp(st, r)
        t, t0, x = M.fld(st, 'traders'), self.t0, self.x0
        for y in t.facts(e, x):
            e.assume(st, y)
        e.inst(st, 'tr', x)
        o = lambda l, g: self.oblige(st, l, g, where='exit')
        for l, g in self.inv_goals(st) + self.ghost_goals(st) + [self.totals_goal(st)]:
            o(l, g)
        qout, bout = z3.If(self.cl, gh['relq'], 0), z3.If(self.cl, gh['relb'], 0)
        o('C09,C20|the collateral of the removed lots is paid out exactly when asked (quote)', R['num_quote_lots_out'] == qout)
        o('C09,C20|the collateral of the removed lots is paid out exactly when asked (base)', R['num_base_lots_out'] == bout)
        o('C20|a cancellation takes nothing in', z3.And(*[R[n] == 0 for n in R if n not in ('num_quote_lots_out', 'num_base_lots_out')]))
        o('C01,C20|quote lots in the vault equal quote lots owed', t.tq + R['num_quote_lots_out'] == t0.tq)
        o('C01,C20|base lots in the vault equal base lots owed', t.tb + R['num_base_lots_out'] == t0.tb)
        o('C09|released quote becomes free funds of the owner unless paid out', z3.Implies(t.live[x], t.qf[x] == t0.qf[x] + gh['relq'] - qout))
        o('C09|released base becomes free funds of the owner unless paid out', z3.Implies(t.live[x], t.bf[x] == t0.bf[x] + gh['relb'] - bout))
        y = self.sk('tr')
        o('C01,C09|the funds of other traders stay', z3.Implies(z3.And(t.live[y], y != x), z3.And(t.ql[y] + t.qf[y] == t0.ql[y] + t0.qf[y], t.bl[y] + t.bf[y] == t0.bl[y] + t0.bf[y])))
        self.unchanged(st, ('bids', 'asks', 'traders'))
        o('C12|no other event is logged', z3.And(gh['nplace'] == 0, gh['nsummary'] == 0, gh['nevict'] == 0, gh['ntif'] == 0, gh['nfee'] == 0))
        self.exit_extra(st, R)

class ReduceOrder(Cancels):
    method = 'reduce_order'
    def __init__(self, p, side):
        super().__init__(p)
        self.side = side
        self.name = 'reduce_order[%s]' % side
        e, st = self.eng, self.st
        self.k = mk_key(e.int_const('oid.p', 'u64'), e.int_const('oid.s', 'u64'))
        e.inst(st, 'ord', self.k)
        b = self.b0 if side == 'bid' else self.a0
        self.bk = b
        for x in b.facts(e, self.k):
            e.assume(st, x)
    def want(self):
        e, st = self.eng, self.st
        self.size = e.expand(e.mk('size', 'Option<BaseLots>'))
        return [('MarketTraderId', self.tref), ('FIFOOrderId', e.alloc(st, stdlib.key_node(e, self.k), 'oid')), ('Side', Node('Side', {'d': SIDES[self.side]})), ('Option<BaseLots>', self.size), ('bool', self.cl), ('event', self.ev)]
    def amount(self):
        some, x = self.opt(self.size)
        l = self.bk.lots[self.k]
        return z3.If(z3.And(zB(some), x < l), x, l)
    def reduced(self, st, w, k, g, f):
        o = lambda l, x: self.oblige(st, l, x, where='Reduce')
        o('C09,C12|the event names the order of the instruction', k == self.k)
        o('C09|the requested size is removed, or the whole order if smaller', f['base_lots_removed'] == self.amount())
        o('C09|one reduction', st.ghost['touched'] == 0)
    def refused(self, st):
        super().refused(st)
        b = self.bk
        self.oblige(st, 'C09|refused only for an unknown trader or a foreign order', z3.Or(self.x0 == 0, z3.And(b.dom[self.k], b.owner[self.k] != self.x0)), where='refused')
    def exit_extra(self, st, R):
        o = lambda l, g: self.oblige(st, l, g, where='exit')
        b, gh = self.bk, st.ghost
        o('C09|an own order is reduced, an absent one has no effect', z3.And((gh['touched'] == 1) == b.dom[self.k], z3.Implies(b.dom[self.k], b.owner[self.k] == self.x0), gh['nevents'] == gh['touched']))
        v = self.value('gb' if self.side == 'bid' else 'ga', self.k, self.amount())
        o('C09|exactly the collateral of the removed lots is released', z3.And(gh['relq'] == z3.If(z3.And(b.dom[self.k], z3.BoolVal(self.side == 'bid')), v, 0), gh['relb'] == z3.If(z3.And(b.dom[self.k], z3.BoolVal(self.side == 'ask')), v, 0)))

class CancelMany(Cancels):
    def selected(self, i, k):
        """the orders of book i that the instruction selects"""
        raise NotImplementedError
    def exit_extra(self, st, R):
        M = self.M
        for i in (0, 1):
            b, b0 = M.books(st)[i], (self.b0, self.a0)[i]
            k = self.sk('ord')
            for x in b0.facts(self.eng, k):
                self.eng.assume(st, x)
            self.oblige(st, 'C14|exactly the selected orders of the signer are removed', b.dom[k] == z3.And(b0.dom[k], z3.Not(self.selected(i, k))), where='exit')
            self.oblige(st, 'C14,C09|every other order stays as it was', z3.Implies(b.dom[k], GBook.of(b0).eq_at(b, k)), where='exit')
    def refused(self, st):
        super().refused(st)
        self.oblige(st, 'C14|refused only for an unknown trader', self.x0 == 0, where='refused')

class CancelAll(CancelMany):
    method = 'cancel_all_orders'
    def want(self):
        return [('MarketTraderId', self.tref), ('bool', self.cl), ('event', self.ev)]
    def selected(self, i, k):
        b = (self.b0, self.a0)[i]
        return b.owner[k] == self.x0

class CancelUpTo(CancelMany):
    method = 'cancel_up_to'
    def __init__(self, p, side):
        super().__init__(p)
        self.side = side
        self.name = 'cancel_up_to[%s]' % side
    def want(self):
        e = self.eng
        self.search, self.count, self.tick = (e.expand(e.mk(n, t)) for n, t in (('num_search', 'Option<usize>'), ('num_cancel', 'Option<usize>'), ('tick_limit', 'Option<Ticks>')))
        return [('MarketTraderId', self.tref), ('Side', Node('Side', {'d': SIDES[self.side]})), ('Option<usize>', self.search), ('Option<usize>', self.count), ('Option<Ticks>', self.tick), ('bool', self.cl), ('event', self.ev)]
    R1, R2 = z3.Const('spec.rank.searched', z3.ArraySort(OrdKey, I)), z3.Const('spec.rank.selected', z3.ArraySort(OrdKey, I))
    def pre1(self, k):
        return (self.b0 if self.side == 'bid' else self.a0).dom[k]
    def pre2(self, k):
        b = self.b0 if self.side == 'bid' else self.a0
        s, n = self.opt(self.search)
        ts, t = self.opt(self.tick)
        p = OrdKey.price(k)
        return z3.And(b.dom[k], z3.Implies(zB(s), self.R1[k] < n), b.owner[k] == self.x0, z3.Implies(zB(ts), p >= t if self.side == 'bid' else p <= t))
    def selected(self, i, k):
        if i != SIDES[self.side]:
            return z3.BoolVal(False)
        c, n = self.opt(self.count)
        return z3.And(self.pre2(k), z3.Implies(zB(c), self.R2[k] < n))
    def run(self):
        # ranks of the specification: counting functions of the searched and of the selected orders
        e = self.eng
        b = self.b0 if self.side == 'bid' else self.a0
        def on_select(st, s):
            self.sels.append(s)
            for i, j in s.takes():
                for R, pre in ((self.R1, self.pre1), (self.R2, self.pre2)):
                    k = self.sk('ord')
                    for x in b.facts(e, k):
                        e.assume(st, x)
                    if e.quick_prove(st, s.prefix(i, k, j) == pre(k)):
                        e.assume(st, s.rank(i, j) == R)       # equal sets have equal counting functions
                        break
        e.on_select = on_select
        for R, pre in ((self.R1, self.pre1), (self.R2, self.pre2)):
            e.assume_all(self.st, Schema('ord', lambda k, R=R: R[k] >= 0, 'rank'))
        super().run()

class CancelById(CancelMany):
    method = 'cancel_multiple_orders_by_id'
    def want(self):
        e, st = self.eng, self.st
        self.ids = e.alloc(st, Lazy('ids', '[FIFOOrderId]'), 'ids')
        return [('MarketTraderId', self.tref), ('&[FIFOOrderId]', self.ids), ('bool', self.cl), ('event', self.ev)]
    def selected(self, i, k):
        b = (self.b0, self.a0)[i]
        listed = z3.Const('list.ids.member', z3.ArraySort(OrdKey, B))
        return z3.And(listed[k], b.owner[k] == self.x0)

class ClaimFunds(Eng2):
    """withdrawal of free funds"""
    method = 'claim_funds'
    def on_inv_sk(self, st, sort, k):
        if sort == 'ord':
            for b in (self.b0, self.a0):
                for x in b.facts(self.eng, k):
                    self.eng.assume(st, x)
                self.eng.assume(st, z3.Implies(b.dom[k], lem_pos3(OrdKey.price(k), self.M.tk, b.lots[k])))
    def run(self):
        e, st, M = self.eng, self.st, self.M
        tref = e.alloc(st, self.taker, 'trader')
        q, b = e.expand(e.mk('want_q', 'Option<QuoteLots>')), e.expand(e.mk('want_b', 'Option<BaseLots>'))
        ev = z3.Bool('allow_eviction')
        self.st0 = st.fork()
        n = 0
        t0, x = self.t0, self.x0
        for s, r in e.run_fn(self.f, self.args([('MarketTraderId', tref), ('Option<QuoteLots>', q), ('Option<BaseLots>', b), ('bool', ev)]), st):
            for s2, some in e.branch(s, cmp_op('Eq', e.discr(r), 1)):
                o = lambda l, g: self.oblige(s2, l, g, where='exit' if some else 'refused')
                if not some:
                    o('C10|a withdrawal is refused only for an unknown trader', x == 0)
                    if not same(s2.mem[MKT], self.st0.mem[MKT]):
                        o('C10|a refused withdrawal changes nothing', False)
                    continue
                n += 1
                R = self.resp(s2, payload(e, r, 'Some'))
                t = M.fld(s2, 'traders')
                for f in t.facts(e, x):
                    e.assume(s2, f)
                e.inst(s2, 'tr', x)
                for l, g in self.inv_goals(s2) + self.ghost_goals(s2):
                    o(l, g)
                def paid(opt, free):
                    some_, w = self.opt(opt)
                    return z3.If(z3.And(zB(some_), w < free), w, free)
                pq, pb = paid(q, t0.qf[x]), paid(b, t0.bf[x])
                o('C10,C20|a withdrawal pays the requested amount, at most the free funds (quote)', R['num_quote_lots_out'] == pq)
                o('C10,C20|a withdrawal pays the requested amount, at most the free funds (base)', R['num_base_lots_out'] == pb)
                o('C10,C20|a withdrawal takes nothing in', z3.And(*[R[k] == 0 for k in R if k not in ('num_quote_lots_out', 'num_base_lots_out')]))
                o('C01,C20|quote lots in the vault equal quote lots owed', t.tq + R['num_quote_lots_out'] == t0.tq)
                o('C01,C20|base lots in the vault equal base lots owed', t.tb + R['num_base_lots_out'] == t0.tb)
                o('C10|locked funds are not withdrawn', z3.Implies(t.live[x], z3.And(t.ql[x] == t0.ql[x], t.bl[x] == t0.bl[x], t.qf[x] == t0.qf[x] - pq, t.bf[x] == t0.bf[x] - pb)))
                o('C10|an entry is removed only when empty and allowed', z3.Implies(z3.Not(t.live[x]), z3.And(ev, t0.ql[x] == 0, t0.bl[x] == 0, t0.qf[x] == pq, t0.bf[x] == pb)))
                y = self.sk('tr')
                o('C01,C10|no other trader is touched', z3.Implies(y != x, z3.And(t.live[y] == t0.live[y], z3.Implies(t.live[y], z3.And(t.key[y] == t0.key[y], t.ql[y] == t0.ql[y], t.qf[y] == t0.qf[y], t.bl[y] == t0.bl[y], t.bf[y] == t0.bf[y])))))
                o('C12|a withdrawal logs nothing in the engine', s2.ghost['nevents'] == 0)
                b1, a1 = M.books(s2)
                o('C10,C12|a withdrawal leaves the books alone', z3.BoolVal(b1.same(self.b0) and a1.same(self.a0)))
                self.unchanged_rest(s2)
        self.nexits = n
        if n == 0:
            raise Unsupported('no successful exit')
    def unchanged_rest(self, st):
        e, M = self.eng, self.M
        fs = [zB(eq_val(e, self.st0, e.read(self.st0, MKT, (M.ix[n],)), st, e.read(st, MKT, (M.ix[n],)))) for n in M.ix if n not in ('traders', '_padding')]
        self.oblige(st, 'C01,C22|nothing else of the market changes', b_and(*fs), where='exit')

class RemoveTrader(ClaimFunds):
    """removal of an empty trader entry"""
    method = 'try_remove_trader_state'
    def __init__(self, p):
        Unit.__init__(self, p)
        self.name = self.method
        c = [g for g in p.by_last.get(self.method, []) if g.kind == 'fn']
        if len(c) != 1:
            raise Unsupported('anchor function %s' % self.method)
        self.f = c[0]
    def run(self):
        e, st, M = self.eng, self.st, self.M
        tref = e.alloc(st, self.taker, 'trader')
        self.st0 = st.fork()
        if len(self.f.args) != 2:
            raise Unsupported('arguments of %s' % self.method)
        t0, x = self.t0, self.x0
        self.nexits = 0
        for s, r in e.run_fn(self.f, [self.ref, tref], st):
            self.nexits += 1
            o = lambda l, g: self.oblige(s, l, g, where='exit')
            t = M.fld(s, 'traders')
            for f in t.facts(e, x):
                e.assume(s, f)
            e.inst(s, 'tr', x)
            for l, g in self.inv_goals(s) + self.ghost_goals(s):
                o(l, g)
            y = self.sk('tr')
            o('C10|an entry is removed only when empty', z3.Implies(z3.And(t0.live[y], z3.Not(t.live[y])), z3.And(y == x, t0.ql[x] == 0, t0.qf[x] == 0, t0.bl[x] == 0, t0.bf[x] == 0)))
            o('C01,C10|no other trader is touched', z3.Implies(t.live[y], z3.And(t0.live[y], t.key[y] == t0.key[y], t.ql[y] == t0.ql[y], t.qf[y] == t0.qf[y], t.bl[y] == t0.bl[y], t.bf[y] == t0.bf[y])))
            o('C01|no funds appear or vanish', z3.And(t.tq == t0.tq, t.tb == t0.tb))
            self.unchanged_rest(s)

class CollectFees(ClaimFunds):
    method = 'collect_fees'
    def ev_Fee(self, st, f, span):
        self.oblige(st, 'C12,C05|the fee event states the fees collected', f['fees_collected_in_quote_lots'] == self.unclaimed0, where='Fee')
        st.ghost['nfee'] = st.ghost['nfee'] + 1
    def run(self):
        e, st, M = self.eng, self.st, self.M
        self.st0 = st.fork()
        self.nexits = 0
        for s, r in e.run_fn(self.f, self.args([('event', e.alloc(st, Sink('event')))]), st):
            self.nexits += 1
            o = lambda l, g: self.oblige(s, l, g, where='exit')
            o('C05,C20|collecting pays out exactly the uncollected fees', zI(self.num(r)) == self.unclaimed0)
            o('C05,C01|no fees remain uncollected after a collection', zI(M.fld(s, 'unclaimed_quote_lot_fees')) == 0)
            o('C05|the collected total grows by the fees collected', zI(M.fld(s, 'collected_quote_lot_fees')) == self.collected0 + self.unclaimed0)
            o('C12|one fee event', z3.And(s.ghost['nfee'] == 1, s.ghost['nevents'] == 1))
            fs = [zB(eq_val(e, self.st0, e.read(self.st0, MKT, (M.ix[n],)), s, e.read(s, MKT, (M.ix[n],)))) for n in M.ix if n not in ('unclaimed_quote_lot_fees', 'collected_quote_lot_fees', '_padding')]
            o('C01,C22|nothing else of the market changes', b_and(*fs))

class InitMarket(Eng2):
    """initialize_with_params on the zeroed state that new_from_slice requires"""
    method = 'initialize_with_params'
    def __init__(self, p):
        super().__init__(p)
        e = self.eng
        st = self.st = State()
        M = self.M
        self.ref = M.install(st)
        w = lambda t, v: Node(t, {0: v})
        for n, t in p.structs['FIFOMarket']:
            if n in ('base_lots_per_base_unit', 'tick_size_in_quote_lots_per_base_unit', 'collected_quote_lot_fees', 'unclaimed_quote_lot_fees'):
                e.write(st, MKT, (M.ix[n],), w(norm(t), 0))
            elif n in ('order_sequence_number', 'taker_fee_bps'):
                e.write(st, MKT, (M.ix[n],), 0 if n == 'order_sequence_number' else e.int_const('fee0', 'u64'))
        self.b0, self.a0 = M.books(st)
        self.t0 = M.fld(st, 'traders')
        for b in (self.b0, self.a0):
            e.assume(st, z3.And(b.n == 0, b.vtot == 0))
            e.assume_all(st, Schema('ord', lambda k, b=b: z3.Not(b.dom[k]), 'empty book'))
            e.assume_all(st, Schema('tr', lambda x, b=b: b.vown[x] == 0, 'empty book'))
        e.assume(st, z3.And(self.t0.n == 0, self.t0.tq == 0, self.t0.tb == 0))
        e.assume_all(st, Schema('tr', lambda x: z3.Not(self.t0.live[x]), 'no traders'))
        g = st.ghost
        g['nevents'] = z3.IntVal(0)
    def run(self):
        e, st, M = self.eng, self.st, self.M
        tick, base = e.int_const('arg.tick', 'u64'), e.int_const('arg.base', 'u64')
        self.nexits = 0
        a = self.args([('QuoteLotsPerBaseUnitPerTick', Node('QuoteLotsPerBaseUnitPerTick', {0: tick})), ('BaseLotsPerBaseUnit', Node('BaseLotsPerBaseUnit', {0: base}))])
        for s, r in e.run_fn(self.f, a, st):
            self.nexits += 1
            o = lambda l, g: self.oblige(s, l, g, where='exit')
            o('C22|the market gets the tick size it was asked for', zI(M.fld(s, 'tick_size_in_quote_lots_per_base_unit')) == tick)
            o('C22|the market gets the base lots per unit it was asked for', zI(M.fld(s, 'base_lots_per_base_unit')) == base)
            o('C22|the tick size is a multiple of the base lots per unit', z3.And(base > 0, tick % base == 0))
            o('C22,C11|the sequence number starts at one', zI(M.fld(s, 'order_sequence_number')) == 1)
            o('C22,C05|no fees on a new market', z3.And(zI(M.fld(s, 'collected_quote_lot_fees')) == 0, zI(M.fld(s, 'unclaimed_quote_lot_fees')) == 0))
            b, a_ = M.books(s)
            t = M.fld(s, 'traders')
            o('C22|a new market is empty', z3.And(b.n == 0, a_.n == 0, t.n == 0))
            for l, g in self.inv_goals(s):
                o(l.replace('C02|', 'C02,C22|') + ' (established)', g)
        if not self.nexits:
            raise Unsupported('no exit')

class InitAgain(InitMarket):
    """the parameters cannot be set a second time"""
    def __init__(self, p):
        super().__init__(p)
        self.name = 'initialize_with_params[again]'
        e = self.eng
        n = e.int_const('seq.again', 'u64')
        e.assume(self.st, n > 0)
        e.write(self.st, MKT, (self.M.ix['order_sequence_number'],), n)
    def run(self):
        e, st, M = self.eng, self.st, self.M
        a = self.args([('QuoteLotsPerBaseUnitPerTick', Node('QuoteLotsPerBaseUnitPerTick', {0: e.int_const('arg.tick', 'u64')})), ('BaseLotsPerBaseUnit', Node('BaseLotsPerBaseUnit', {0: e.int_const('arg.base', 'u64')}))])
        self.nexits = 1
        st0 = st.fork()
        for s, r in e.run_fn(self.f, a, st):
            for n in ('base_lots_per_base_unit', 'tick_size_in_quote_lots_per_base_unit'):
                self.oblige(s, 'C22|the parameters of an initialised market cannot be set again', zB(eq_val(e, st0, e.read(st0, MKT, (M.ix[n],)), s, e.read(s, MKT, (M.ix[n],)))), where='exit')
        self.oblige(st0, 'C22|the parameters of an initialised market cannot be set again', z3.BoolVal(True), where='entry')

class SetFee(Eng2):
    method = 'set_fee'
    def run(self):
        e, st, M = self.eng, self.st, self.M
        fee = e.int_const('arg.fee', 'u64')
        self.st0 = st.fork()
        self.nexits = 0
        for s, r in e.run_fn(self.f, self.args([('u64', fee)]), st):
            self.nexits += 1
            self.oblige(s, 'C22|the fee rate is the one asked for', zI(M.fld(s, 'taker_fee_bps')) == fee, where='exit')
            fs = [zB(eq_val(e, self.st0, e.read(self.st0, MKT, (M.ix[n],)), s, e.read(s, MKT, (M.ix[n],)))) for n in M.ix if n not in ('taker_fee_bps', '_padding')]
            self.oblige(s, 'C22,C01|setting the fee changes nothing else', b_and(*fs), where='exit')

class ClaimAll(ClaimFunds):
    """claim_all_funds: a withdrawal of everything, checked against the same contract as claim_funds with nothing named"""
    method = 'claim_all_funds'
    def __init__(self, p):
        Unit.__init__(self, p)
        self.name = self.method
        c = [g for g in p.by_last.get(self.method, []) if g.kind == 'fn' and g.impl_self is None]
        if len(c) != 1:
            raise Unsupported('anchor function %s' % self.method)
        self.f = c[0]
    def args(self, want):
        if len(self.f.args) != 3:
            raise Unsupported('arguments of %s' % self.method)
        for o in (want[1][1], want[2][1]):
            self.eng.assume(self.st, self.eng.discr(o) == 0)
        return [self.ref, want[0][1], want[3][1]]

class Register(RemoveTrader):
    """registration of a trader"""
    method = 'get_or_register_trader'
    def run(self):
        e, st, M = self.eng, self.st, self.M
        tref = e.alloc(st, self.taker, 'trader')
        if len(self.f.args) != 2:
            raise Unsupported('arguments of %s' % self.method)
        t0, x = self.t0, self.x0
        for f in t0.key_facts(e, self.taker):
            e.assume(st, f)
        self.st0 = st.fork()
        self.nexits = 0
        for s, r in e.run_fn(self.f, [self.ref, tref], st):
            for s2, some in e.branch(s, cmp_op('Eq', e.discr(r), 1)):
                self.nexits += 1
                o = lambda l, g: self.oblige(s2, l, g, where='exit')
                t = M.fld(s2, 'traders')
                a = t.addr[self.taker]
                for f in t.key_facts(e, self.taker):
                    e.assume(s2, f)
                e.inst(s2, 'tr', a)
                y = self.sk('tr')
                if some:
                    o('C18|a registered trader is found', z3.And(t.live[a], t.key[a] == self.taker, zI(e.get(e.get(r, ('v', 'Some')), 0)) == a))
                else:
                    o('C18|registration is refused only for a new trader', x == 0)
                    o('C18,C01|a refused registration changes nothing', z3.And(t.live[y] == t0.live[y]))
                o('C01,C10|no trader is touched by a registration', z3.Implies(t0.live[y], z3.And(t.live[y], t.key[y] == t0.key[y], t.ql[y] == t0.ql[y], t.qf[y] == t0.qf[y], t.bl[y] == t0.bl[y], t.bf[y] == t0.bf[y])))
                o('C01,C10|a new trader entry starts empty', z3.Implies(z3.And(t.live[y], z3.Not(t0.live[y])), z3.And(y == a, x == 0, t.ql[y] == 0, t.qf[y] == 0, t.bl[y] == 0, t.bf[y] == 0)))
                o('C01|no funds appear or vanish', z3.And(t.tq == t0.tq, t.tb == t0.tb))
                for l, g in self.inv_goals(s2):
                    o(l, g)
                self.unchanged_rest(s2)
        if not self.nexits:
            raise Unsupported('no exit')
