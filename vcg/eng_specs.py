"""Contracts of the matching engine (src/state/markets/fifo.rs) and the obligations of the properties over them.

A *unit* executes one real function (its MIR) from an arbitrary market state that satisfies the market
invariant, with every event it emits folded into ghost books; the properties are obligations at the events,
at the loop heads and at the normal exits.  Labels start with the properties they decide: 'C02,C09|text'."""
import z3, itertools
from sym import *
from maps import OrderBook, Traders, Schema, mk_key, less
from mkt import Market, MKT
from mir import norm, base_name, generic_args
import stdlib
from stdlib import opt_some, opt_none, payload, key_val, It, Sel

TOP = 2**63
A_OB = lambda n, s: z3.Const(n, z3.ArraySort(OrdKey, s))
I, B = z3.IntSort(), z3.BoolSort()

class GBook:
    """ghost copy of a book: what the logged events say it contains"""
    F = FIELDS = ('dom', 'owner', 'lots', 'lvs', 'lvt')
    def __init__(self, side, **kw):
        self.side = side
        for f in self.F:
            setattr(self, f, kw[f])
    @staticmethod
    def of(b):
        return GBook(b.side, **{f: getattr(b, f) for f in GBook.F})
    def copy(self, **kw):
        d = {f: getattr(self, f) for f in self.F}
        d.update(kw)
        return GBook(self.side, **d)
    def same(self, o):
        return isinstance(o, GBook) and all(getattr(self, f).eq(getattr(o, f)) for f in self.F)
    def havoc(self, eng, st, nm):
        return GBook(self.side, dom=A_OB(nm + '.dom', B), owner=A_OB(nm + '.owner', I), lots=A_OB(nm + '.lots', I), lvs=A_OB(nm + '.lvs', I), lvt=A_OB(nm + '.lvt', I))
    def eq_at(self, b, k):
        return z3.And(self.dom[k] == b.dom[k], z3.Implies(b.dom[k], z3.And(self.owner[k] == b.owner[k], self.lots[k] == b.lots[k], self.lvs[k] == b.lvs[k], self.lvt[k] == b.lvt[k])))

def ceil_spec(x, c, d):
    """c is x/d rounded up"""
    return z3.And(d * (c - 1) < x, x <= d * c)

LEMMAS = {}
def lem_cancel(m, a, b):
    """m > 0 and m*a <= m*b give a <= b  (proved once per run, for all integers)"""
    x, y, z = z3.Ints('lem.m lem.a lem.b')
    LEMMAS['a common positive factor cancels'] = (z3.Implies(z3.And(x > 0, x * y <= x * z), y <= z))
    return z3.Implies(z3.And(m > 0, m * a <= m * b), a <= b)

def lem_cancel_lt(m, a, b):
    x, y, z = z3.Ints('lem.m lem.a lem.b')
    LEMMAS['a common positive factor cancels (strict)'] = (z3.Implies(z3.And(x > 0, x * y < x * z), y < z))
    return z3.Implies(z3.And(m > 0, m * a < m * b), a < b)

def lem_pos3(a, b, c):
    x, y, z = z3.Ints('lem.m lem.a lem.b')
    LEMMAS['a product of positive integers is positive'] = (z3.Implies(z3.And(x > 0, y > 0, z > 0), x * y * z > 0))
    return z3.Implies(z3.And(a > 0, b > 0, c > 0), a * b * c > 0)

def eq_val(eng, st1, a, st2, b, depth=0):
    """structural equality of two values as a formula"""
    if depth > 12:
        raise Unsupported('deep comparison')
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a.same(b):
            return True
        return eq_val(eng, st1, eng.load(st1, a), st2, eng.load(st2, b), depth + 1)
    if a is b or same(a, b):
        return True
    sc = lambda x: isinstance(x, (int, bool)) or isz(x)
    if sc(a) and sc(b):
        if isz(a) and isz(b) and a.sort() != b.sort():
            raise Unsupported('comparison of different sorts')
        if isz(a) and a.sort().kind() == z3.Z3_ARRAY_SORT or isz(a) and a.sort() == Key:
            return a == b
        return cmp_op('Eq', a, b)
    if isinstance(a, (OrderBook, Traders)):
        return b_and(*[getattr(a, f) == getattr(b, f) for f in a.FIELDS])
    if isinstance(a, (Lazy, Node)) and isinstance(b, (Lazy, Node)):
        a, b = eng.expand(a), eng.expand(b)
        if isinstance(a, Node) and isinstance(b, Node) and a.base is None and b.base is None:
            fs = []
            if 'd' in a.f or 'd' in b.f:
                da, db = eng.discr(a), eng.discr(b)
                fs.append(cmp_op('Eq', da, db))
                for k in set(a.f) | set(b.f):
                    if isinstance(k, tuple) and k[0] == 'v':
                        if k in a.f and k in b.f:
                            d = eng.discr_of(a.ty, k[1])
                            c = cmp_op('Eq', da, d) if d is not None else True
                            if const_bool(c) is False:
                                continue
                            fs.append(implies(c, eq_val(eng, st1, a.f[k], st2, b.f[k], depth + 1)))
                return b_and(*fs)
            for k in set(a.f) | set(b.f):
                if k not in a.f or k not in b.f:
                    raise Unsupported('comparison: field %r missing' % (k,))
                fs.append(eq_val(eng, st1, a.f[k], st2, b.f[k], depth + 1))
            return b_and(*fs)
        if isinstance(a, Lazy) and isinstance(b, Lazy) and a.name == b.name:
            return True
    raise Unsupported('comparison of %r and %r' % (a, b))

# ---------------------------------------------------------------- engine set-up
class Eng(Engine):
    def sel_element(self, cur, sel):
        """one element of a collected selection"""
        k = mk_key(self.int_const(self.fresh('sel.p'), 'u64'), self.int_const(self.fresh('sel.s'), 'u64'))
        self.assume(cur, sel.member(k))
        self.inst(cur, 'ord', k)
        done = cur.ghost[sel.name]
        if sel.distinct:
            self.assume(cur, z3.Not(done[k]))
        cur.ghost[sel.name] = z3.Store(done, k, z3.BoolVal(True))
        cur.ghost['lastsel'] = k
        x = stdlib.key_node(self, k)
        return [(cur, self.alloc(cur, x, 'elem'))]

    def abstract_loop(self, label, st, body, it):
        sel = getattr(it, 'selobj', None) or (it.src[1] if it.src[0] == 'sel' else None)
        entry = st.fork()
        if sel is not None and sel.name not in entry.ghost:
            entry.ghost[sel.name] = z3.K(OrdKey, z3.BoolVal(False))
        prov = self.invariants.get('*')
        f = self.stack[-1][0]
        fid = self.stack[-1][1]
        class Pseudo:
            pass
        mods, gmods = {}, set()
        ctx = lambda cur, assume: self.ictx(prov, f, fid, label, entry, cur, assume, mods, sel)
        self.mute += 1
        try:
            for i in range(10):
                cur = entry.fork()
                self.havoc(f, fid, cur, mods, gmods, 'atrial%d' % i)
                for lab, inv in ctx(cur, True):
                    self.assume(cur, inv)
                if i > 0 and not self.feasible(cur):
                    raise Unsupported('loop invariant of %s contradicts the entry state' % label)
                ref = cur.fork()
                grew = False
                for s in body(cur):
                    for k in ref.mem:
                        if k in s.mem and s.mem[k] is not ref.mem[k]:
                            for path in self.diff(ref.mem[k], s.mem[k]):
                                if not self.covered(mods, k, path):
                                    mods[(k, path)] = None
                                    grew = True
                    for k in s.mem:
                        if k not in ref.mem and k[0] == 'Z':
                            base = self.mk(k[1], self.ztypes.get(k[1]))
                            for path in self.diff(base, s.mem[k]):
                                if not self.covered(mods, k, path):
                                    mods[(k, path)] = None
                                    grew = True
                    for g in s.ghost:
                        if g not in ('pend', 'lastsel') and (g not in ref.ghost or not same(s.ghost[g], ref.ghost[g])):
                            if g not in gmods:
                                gmods.add(g)
                                grew = True
                if not grew:
                    break
            else:
                raise Unsupported('modification set of %s does not stabilise' % label)
        finally:
            self.mute -= 1
        cand = list(ctx(entry, False))
        hard = [(l, i) for l, i in cand if not l.startswith('?')]
        for lab, inv in hard:
            self.oblige(entry, lab + ' (loop entry)', inv, where=label)
        soft = [l for l, i in cand if l.startswith('?') and self.fast_prove(entry, i)]
        while True:
            cur = entry.fork()
            self.havoc(f, fid, cur, mods, gmods, 'aloop')
            for lab, inv in ctx(cur, True):
                if not lab.startswith('?') or lab in soft:
                    self.assume(cur, inv)
            if not soft:
                break
            self.mute += 1
            bad = set()
            for s in body(cur.fork()):
                for l, i in ctx(s, False):
                    if l in soft and l not in bad and not self.fast_prove(s, i) and not self.pc_prove(s, i):
                        bad.add(l)
            self.mute -= 1
            if not bad:
                break
            self.houdini_dropped += [(f.last, l) for l in bad]
            soft = [l for l in soft if l not in bad]
        exit_st = cur.fork()
        for s in body(cur):
            if not self.feasible(s):
                continue
            for lab, inv in ctx(s, False):
                if not lab.startswith('?') or lab in soft:
                    self.oblige(s, lab + ' (loop preserved)', inv, where=label)
        self.loops.append({'fn': f.last, 'at': label, 'modified': len(mods), 'invariants': [l for l, _ in hard] + soft})
        if sel is not None:
            done = exit_st.ghost[sel.name]
            self.assume_all(exit_st, Schema('ord', lambda k, sel=sel, done=done: z3.Implies(sel.member(k), done[k]), 'all selected processed'))
        return [exit_st]

    def ictx(self, prov, f, fid, label, entry, cur, assume, mods, sel):
        if prov is None:
            return []
        c = LoopCtx(self, f, fid, label, entry, cur)
        c.mods = mods
        c.assume = assume
        c.sel = sel
        return list(prov(c))

def fn(p, name, slf='FIFOMarket', trait=None):
    c = [g for g in p.by_last.get(name, []) if g.kind == 'fn' and (slf is None or (g.impl_self and base_name(g.impl_self) == slf))]
    if trait is not None:
        c = [g for g in c if (g.impl_trait and base_name(g.impl_trait) == trait)]
    if len(c) != 1:
        raise Unsupported('anchor function %s (%d candidates)' % (name, len(c)))
    return c[0]

# ---------------------------------------------------------------- units
def tot(arr1, arr2, x):
    return arr1[x] + arr2[x]

def ev_unexpected(name):
    def h(self, st, f, span):
        self.oblige(st, 'C12|no %s event in this instruction' % name, False, where=name)
    return h

class Unit:
    """common state of an engine unit: market, ghosts, event obligations"""
    name = '?'
    props = ()
    eng_class = None
    def __init__(self, p):
        self.p = p
        self.eng = e = (self.eng_class or Eng)(p)
        e.maptypes = {}
        e.dyn_hook = lambda en, c, v: 'FIFOMarket' if c['self'] in ('Self', 'WritableMarket', 'Market') else None
        e.cur_span = None
        self.M = Market(e)
        self.st = State()
        self.ref = self.M.install(self.st)
        self.slot, self.ts = e.int_const('now.slot', 'u64'), e.int_const('now.ts', 'u64')
        e.sinks['event'] = self.on_event
        e.sinks['clock'] = lambda en, s, a, sp: [(s, Node('(u64, u64)', {0: self.slot, 1: self.ts}))]
        e.invariants['*'] = self.loop
        e.on_node_access = self.on_node
        e.on_seat_remove = self.on_seat_remove
        e.on_seat_insert = self.on_seat_insert
        self.nsk = 0
        self.taker = z3.Const('trader', Key)
        st = self.st
        b0, a0 = self.M.books(st)
        self.b0, self.a0 = b0, a0
        self.t0 = self.M.fld(st, 'traders')
        t = self.t0
        self.M.assume_inv(st)
        g = st.ghost
        g['gb'], g['ga'] = GBook.of(b0), GBook.of(a0)
        AII = z3.ArraySort(I, I)
        g['GQ'], g['GB'] = z3.Const('GQ0', AII), z3.Const('GB0', AII)
        g0q, g0b = g['GQ'], g['GB']
        e.assume_all(st, Schema('tr', lambda x: z3.And(g0q[x] == t.ql[x] + t.qf[x], g0b[x] == t.bl[x] + t.bf[x]), 'ghost totals'))
        for n in ('sumb', 'sumq', 'decb', 'decq', 'touched', 'nplace', 'nsummary', 'nevict', 'nevents', 'ntif', 'nfee', 'relq', 'relb'):
            g[n] = z3.IntVal(0)
        g['pkey'], g['ekey'] = z3.Const('nokey', OrdKey), z3.Const('noekey', OrdKey)
        for n in ('plots', 'pcid', 's_cid', 's_b', 's_q', 's_f', 'tif_seq', 'tif_s', 'tif_t', 'fee_amt'):
            g[n] = z3.Int('none.' + n)
        self.unclaimed0 = zI(self.M.fld(st, 'unclaimed_quote_lot_fees'))
        self.collected0 = zI(self.M.fld(st, 'collected_quote_lot_fees'))
        self.seq0 = self.M.fld(st, 'order_sequence_number')
        self.bps = self.M.fld(st, 'taker_fee_bps')
        self.x0 = t.addr[self.taker]
        for x in t.key_facts(e, self.taker):
            e.assume(st, x)
    # -- helpers
    def sk(self, sort, hint='sk'):
        self.nsk += 1
        n = '%s.%d' % (hint, self.nsk)
        if not isinstance(sort, str) or sort == 'ord':
            k = mk_key(self.eng.int_const(n + '.p', 'u64'), self.eng.int_const(n + '.s', 'u64'))
            return k
        if sort == 'key':
            return z3.Const(n, Key)
        return self.eng.int_const(n, 'u64')
    def expired(self, b, k):
        return z3.Or(z3.And(b.lvs[k] != 0, b.lvs[k] < self.slot), z3.And(b.lvt[k] != 0, b.lvt[k] < self.ts))
    def live(self, b, k):
        return z3.And(b.dom[k], z3.Not(self.expired(b, k)))
    def oblige(self, st, label, goal, hints=None, where=None):
        self.eng.oblige(st, label, goal, where=where or self.name, hints=hints)
    def goal_all(self, st, label, sort, fn, where=None):
        """oblige: for all x of the sort, fn(x)"""
        x = self.sk(sort)
        self.oblige(st, label, fn(x), hints=[x == x] if False else None, where=where)
    def market_facts(self, st, k):
        for b in self.M.books(st):
            for x in b.facts(self.eng, k):
                self.eng.assume(st, x)
    def on_node(self, eng, st, m, a):
        """get_node of an address that is no trader's reads another or freed slot"""
        eng.oblige(st, 'C02,C01|trader slot in use when accessed', m.live[a], where='get_node')
    def on_seat_insert(self, eng, st, m, a):
        eng.oblige(st, 'C10,C01|a new trader entry starts empty', z3.And(m.ql[a] == 0, m.qf[a] == 0, m.bl[a] == 0, m.bf[a] == 0), where='insert trader')
        for g in ('GQ', 'GB'):
            st.ghost[g] = z3.Store(st.ghost[g], a, z3.IntVal(0))
    def on_seat_remove(self, eng, st, m, a):
        eng.oblige(st, 'C10|only empty entries are removed', z3.And(m.ql[a] == 0, m.qf[a] == 0, m.bl[a] == 0, m.bf[a] == 0), where='remove trader')
    # -- events
    def ev_fields(self, eng, v, variant):
        n = eng.p.structs['MarketEvent::'][variant]
        pl = eng.get(v, ('v', variant))
        out = {}
        for i, (fn_, t) in enumerate(n):
            x = eng.get(pl, i)
            if fn_ != 'maker_id' and not isz(x) and not isinstance(x, int):
                x = eng.get(x, 0, 'u64')
            out[fn_] = x
        return out
    def on_event(self, eng, st, args, span):
        v = args[0]
        d = eng.discr(v)
        if const_int(d) is None:
            raise Unsupported('event of unknown kind')
        var = eng.variant_of('MarketEvent', const_int(d))
        f = self.ev_fields(eng, v, var)
        st.ghost['nevents'] = st.ghost['nevents'] + 1
        h = getattr(self, 'ev_' + var, None)
        if h is None:
            raise Unsupported('event %s' % var)
        h(st, {k: (zI(x) if not isz(x) else x) for k, x in f.items()}, span)
        return [(st, UNIT)]
    def evkey(self, st, f):
        k = mk_key(f['price_in_ticks'], f['order_sequence_number'])
        self.eng.inst(st, 'ord', k)
        return k
    def which(self, st, k, side=None):
        """ghost book an order of this identifier lives in: decided by the identifier"""
        if side is not None:
            return side
        c = self.eng
        seq = OrdKey.seq(k) if not z3.is_app_of(k, z3.Z3_OP_DT_CONSTRUCTOR) else k.arg(1)
        r = c.quick_prove(st, seq >= TOP)
        if r:
            return 'gb'
        if c.quick_prove(st, seq < TOP):
            return 'ga'
        raise Unsupported('side of the order of an event is not determined')
    def value(self, which, k, lots):
        if which == 'gb':
            return OrdKey.price(k) * self.M.tk * lots
        return lots
    def ev_Reduce(self, st, f, span):
        k = self.evkey(st, f)
        w = self.which(st, k)
        g = st.ghost[w]
        self.oblige(st, 'C12,C09|reduce event names an order on the book', g.dom[k], where='Reduce')
        self.oblige(st, 'C12|reduce event: removed and remaining add up to the size of the order', f['base_lots_removed'] + f['base_lots_remaining'] == g.lots[k], where='Reduce')
        self.oblige(st, 'C09|only the owner reduces an order', g.owner[k] == self.actor(st), where='Reduce')
        self.removed(st, w, k, f['base_lots_removed'], f['base_lots_remaining'])
        self.reduce_extra(st, w, k, g, f)
        st.ghost['touched'] = st.ghost['touched'] + 1
        v = self.value(w, k, f['base_lots_removed'])
        st.ghost['relq' if w == 'gb' else 'relb'] = st.ghost['relq' if w == 'gb' else 'relb'] + v
    def reduce_extra(self, st, w, k, g, f):
        pass
    def actor(self, st):
        return self.x0
    def removed(self, st, w, k, lots, remaining):
        g = st.ghost[w]
        zero = remaining == 0 if isz(remaining) else z3.BoolVal(remaining == 0)
        zero = z3.simplify(zero)
        st.ghost[w] = g.copy(dom=z3.Store(g.dom, k, z3.Not(zero)) if not z3.is_true(zero) else z3.Store(g.dom, k, z3.BoolVal(False)), lots=z3.Store(g.lots, k, zI(remaining)) if not z3.is_true(zero) else g.lots)
    def ev_ExpiredOrder(self, st, f, span):
        k = self.evkey(st, f)
        w = self.which(st, k)
        g = st.ghost[w]
        self.oblige(st, 'C12,C07|expiry event names an order on the book', g.dom[k], where='ExpiredOrder')
        self.oblige(st, 'C07|only expired orders are removed as expired', self.expired(g, k), where='ExpiredOrder')
        self.oblige(st, 'C07,C12|an expired order is removed in full', f['base_lots_removed'] == g.lots[k], where='ExpiredOrder')
        self.oblige(st, 'C12|expiry event names the owner', f['maker_id'] == self.M.fld(st, 'traders').key[g.owner[k]], where='ExpiredOrder')
        st.ghost[w] = g.copy(dom=z3.Store(g.dom, k, z3.BoolVal(False)))
        st.ghost['touched'] = st.ghost['touched'] + 1
    ev_Fill = ev_unexpected('Fill')
    ev_Place = ev_unexpected('Place')
    ev_Evict = ev_unexpected('Evict')
    ev_FillSummary = ev_unexpected('FillSummary')
    ev_TimeInForce = ev_unexpected('TimeInForce')
    ev_Fee = ev_unexpected('Fee')
    # -- invariants
    def inv_goals(self, st, pre=''):
        b, a = self.M.books(st)
        t = self.M.fld(st, 'traders')
        out = []
        for n, s, fnc in self.M.inv(st):
            tag = 'C11' if n == 'order-id-side-and-age' else 'C02'
            x = self.sk(s)
            self.on_inv_sk(st, s, x)
            out.append(('%s|%s' % (tag, n), fnc(x)))
        return out
    def on_inv_sk(self, st, sort, x):
        pass
    def ghost_goals(self, st):
        out = []
        b, a = self.M.books(st)
        for w, bk in (('gb', b), ('ga', a)):
            k = self.sk('ord')
            out.append(('C12|the events applied to the %s give the %s' % (bk.side, bk.side), st.ghost[w].eq_at(bk, k)))
        return out
    def totals_goal(self, st, except_taker=False):
        t = self.M.fld(st, 'traders')
        x = self.sk('tr')
        g = z3.And(t.ql[x] + t.qf[x] == st.ghost['GQ'][x], t.bl[x] + t.bf[x] == st.ghost['GB'][x])
        pre = t.live[x]
        if except_taker:
            pre = z3.And(pre, x != t.addr[self.taker])
        return ('C01|every trader holds exactly its funds before plus its own fills', z3.Implies(pre, g))
    def sums_rel(self, entry, st):
        """(quote total, base total) of the traders against the ghost sums since entry"""
        return []
    def loop(self, c):
        e, st, en = c.eng, c.st, c.entry
        M = self.M
        out = []
        mb = {p[0] for (r, p) in c.mods if r == MKT and p}
        whole = any(r == MKT and not p for (r, p) in c.mods)
        if whole:
            raise Unsupported('whole market replaced in a loop')
        t_en = M.fld(en, 'traders')
        if c.assume:
            if M.ix['traders'] in mb:
                t = M.fld(st, 'traders').copy()
                for x in ('live', 'key', 'addr', 'n'):
                    setattr(t, x, getattr(t_en, x))
                e.write(st, MKT, (M.ix['traders'],), t)
            b, a = M.books(st)
            st.ghost['gb'], st.ghost['ga'] = GBook.of(b), GBook.of(a)
            if mb & {M.ix['traders'], M.ix['bids'], M.ix['asks'], M.ix['order_sequence_number']}:
                for n, s, fnc in M.inv(st):
                    e.assume_all(st, Schema(s, fnc, n))
            t = M.fld(st, 'traders')
            gq, gb_ = st.ghost['GQ'], st.ghost['GB']
            if M.ix['traders'] in mb:
                e.assume_all(st, Schema('tr', lambda x: z3.And(gq[x] == t.ql[x] + t.qf[x], gb_[x] == t.bl[x] + t.bf[x]), 'ghost totals'))
                for x in t.key_facts(e, self.taker):
                    e.assume(st, x)
        else:
            for x in ('live', 'key', 'addr'):
                t = M.fld(st, 'traders')
                if not getattr(t, x).eq(getattr(t_en, x)):
                    out.append(('C01|the set of traders is unchanged in the loop', getattr(t, x) == getattr(t_en, x)))
            if not self.all_same(en, st):
                out += self.inv_goals(st) + self.ghost_goals(st) + [self.totals_goal(st)]
        d = lambda n: st.ghost[n] - en.ghost[n]
        for n in ('sumb', 'sumq', 'decb', 'decq', 'touched', 'relq', 'relb', 'nevents'):
            if not same(st.ghost[n], en.ghost[n]):
                out.append(('aux|%s grows' % n, d(n) >= 0))
        if not same(st.ghost['nevents'], en.ghost['nevents']):
            out.append(('C12,C05|nothing is filled without an event', z3.Implies(d('nevents') == 0, z3.And(*[d(n) == 0 for n in ('sumb', 'sumq', 'decb', 'decq', 'touched', 'relq', 'relb') if not same(st.ghost[n], en.ghost[n])] or [z3.BoolVal(True)]))))
        t = M.fld(st, 'traders')
        out += self.loop_extra(c, d)
        out += self.inflight(c, d)
        out += self.candidates(c, d)
        return out
    def all_same(self, en, st):
        b, a = self.M.books(st)
        b1, a1 = self.M.books(en)
        return st is en and False or (b.same(b1) and a.same(a1) and self.M.fld(st, 'traders').same(self.M.fld(en, 'traders')) and st is not en and same(st.ghost['gb'], en.ghost['gb']))
    def loop_extra(self, c, d):
        return []
    def rd(self, c, st, root, path):
        v = c.eng.read(st, root, path)
        if isinstance(v, (Node, Lazy)):
            v = c.eng.get(v, 0, 'u64')
        return v
    def inflight(self, c, d):
        """relations of the InflightOrder record, found by its type and field names"""
        out = []
        self._infl = set()
        fl = [n for n, t in self.p.structs.get('InflightOrder', [])] if isinstance(self.p.structs.get('InflightOrder'), list) else []
        names = {}
        for (root, path) in c.mods:
            if root[0] not in 'LZ' or not path:
                continue
            ty = c.eng.path_type(c.f, c.fid, root, ())
            if not ty or base_name(ty) != 'InflightOrder' or not isinstance(path[0], int):
                continue
            names[fl[path[0]]] = (root, path)
        if not names:
            return out
        bl = self.M.bl
        for n, (root, path) in names.items():
            v, v0 = self.rd(c, c.st, root, path), self.rd(c, c.entry, root, path)
            if n == 'base_lot_budget':
                out.append(('C05,C06|base budget falls by what was filled or self-traded', v == v0 - d('sumb') - d('decb')))
            elif n == 'adjusted_quote_lot_budget':
                out.append(('C05,C06|quote budget falls by what was filled or self-traded', v == v0 - bl * (d('sumq') + d('decq'))))
            elif n == 'matched_base_lots':
                out.append(('C05,C12|matched base lots are the base lots filled', v == v0 + d('sumb')))
            elif n == 'matched_adjusted_quote_lots':
                out.append(('C05,C12|matched quote lots are the quote lots filled', v == v0 + bl * d('sumq')))
            elif n == 'match_limit':
                out.append(('C08|every touched order counts towards the match limit', v + d('touched') <= v0))
                if 'should_terminate' in names:
                    t = self.rd(c, c.st, *names['should_terminate'])
                    t0 = self.rd(c, c.entry, *names['should_terminate'])
                    out.append(('C03,C08|the match limit falls only by the orders touched', implies(b_and(b_not(t), b_not(t0)), v + d('touched') == v0)))
            elif n == 'should_terminate':
                base = self.rd(c, c.st, root, names['base_lot_budget'][1]) if 'base_lot_budget' in names else None
                adj = self.rd(c, c.st, root, names['adjusted_quote_lot_budget'][1]) if 'adjusted_quote_lot_budget' in names else None
                if base is not None and adj is not None and hasattr(self, 'opp'):
                    bk = self.M.books(c.st)[0 if self.opp == 'bids' else 1]
                    k = self.best(c.st, bk)
                    out.append(('C03|matching stops early only when the budget is used up', implies(zB(v), z3.Or(base == 0, z3.And(bk.n > 0, OrdKey.price(k) * self.M.tk * bl > adj)))))
            else:
                continue
            self._infl.add((root, path))
        return out
    def best(self, st, bk):
        """the first order of a book (definitional: exists when the book is not empty)"""
        key = ('best', bk.dom.get_id())
        c = self.eng.const_cache.get(key)
        if c is None:
            c = (mk_key(self.eng.int_const(self.eng.fresh('best.p'), 'u64'), self.eng.int_const(self.eng.fresh('best.s'), 'u64')), bk.dom)
            self.eng.const_cache[key] = c
        k = c[0]
        self.eng.assume(st, z3.Implies(bk.n > 0, bk.dom[k]))
        for x in bk.facts(self.eng, k):
            self.eng.assume(st, x)
        self.eng.inst(st, 'ord', k)
        self.eng.assume_all(st, Schema('ord', lambda j: z3.Implies(bk.dom[j], z3.And(bk.n > 0, z3.Or(j == k, less(bk.side, k, j)))), 'best'))
        return k
    def candidates(self, c, d):
        """'?' candidates for the other integers the loop changes; the ones that are not inductive are dropped"""
        out = []
        bl = self.M.bl
        for (root, path) in c.mods:
            if root == MKT or (root, path) in self._infl:
                continue
            try:
                v, v0 = self.rd(c, c.st, root, path), self.rd(c, c.entry, root, path)
            except Unsupported:
                continue
            if isinstance(v, bool) or isinstance(v0, bool) or not (isz(v) or isinstance(v, int)) or not (isz(v0) or isinstance(v0, int)):
                continue
            if isz(v) and v.sort() != I or isz(v0) and v0.sort() != I:
                continue
            v, v0 = zI(v), zI(v0)
            nm = '%s%s' % (root, path)
            for l, r in self.cand_terms(d, bl):
                out.append(('?%s %s' % (nm, l), v == v0 + r))
        return out
    def cand_terms(self, d, bl):
        return [('sumb', d('sumb')), ('bl*sumq', bl * d('sumq')), ('sumq', d('sumq')), ('-sumb-decb', -d('sumb') - d('decb')), ('-bl*(sumq+decq)', -bl * (d('sumq') + d('decq'))), ('-touched', -d('touched')), ('touched', d('touched')), ('relq', d('relq')), ('relb', d('relb')), ('same', z3.IntVal(0))]

SIDES = {'bid': 0, 'ask': 1}
def roles(p, f):
    """what each argument of an engine function is, by type and name"""
    out = []
    p.parse(f)
    loc = {x: n for n, xs in f.names.items() for x in xs}
    for a, t in zip(f.args, f.argtys):
        t = norm(t)
        nm = loc.get('_%d' % a, '')
        inner = re.sub(r'^&(mut )?', '', t)
        if base_name(inner) == 'FIFOMarket':
            r = 'self'
        elif 'FnMut' in t:
            r = 'clock' if '(u64, u64)' in t else 'event'
        elif base_name(inner) in ('InflightOrder', 'OrderPacket', 'Side', 'Ticks', 'FIFOOrderId', 'MarketTraderId', 'BaseLots', 'QuoteLots'):
            r = base_name(inner)
        elif t == 'u32':
            r = 'index'
        elif t == 'u64' and 'slot' in nm:
            r = 'slot'
        elif t == 'u64' and 'time' in nm:
            r = 'ts'
        elif t == 'bool' or t.startswith('Option<') or t == 'u64' or t == 'usize':
            r = nm
        else:
            raise Unsupported('argument %s: %s of %s' % (nm, t, f.last))
        if r in out:
            raise Unsupported('two arguments of kind %s in %s' % (r, f.last))
        out.append(r)
    return out

class FnContract:
    """a callee under contract: its precondition is an obligation of the caller, its postcondition is assumed there
    and is proved by the unit that executes the callee"""
    def __init__(self, unit, name, f, fn_):
        self.unit, self.name, self.f, self.fn = unit, name, f, fn_
        self.roles = roles(unit.p, f)
    def matches(self, c, tys):
        return len(tys) == len(self.roles)
    def apply(self, eng, st, c, vals, tys, dty, span):
        return self.fn(st, dict(zip(self.roles, vals)), dty, span)

class PlaceOrder(Unit):
    """place_order for one side and one kind of packet"""
    def __init__(self, p, side, variant):
        super().__init__(p)
        self.side, self.variant = side, variant
        self.name = 'place_order[%s,%s]' % (side, variant)
        self.own, self.oppw, self.opp = ('gb', 'ga', 'asks') if side == 'bid' else ('ga', 'gb', 'bids')
        self.f = self.anchor(p)
        self.install_contracts()
    def anchor(self, p):
        return fn(p, 'place_order')
    def install_contracts(self):
        for n, h in (('match_order', self.c_match), ('check_for_cross', self.c_cross)):
            try:
                f = fn(self.p, n)
                self.eng.contracts[(None, n)] = FnContract(self, n, f, h)
            except Unsupported:
                pass            # the function is gone: whatever replaced it is executed in place
    def pf(self, n, ty='u64'):
        """field of the packet as an integer (or Option payload)"""
        e = self.eng
        i = e.variant_index('OrderPacket', self.variant, n)
        return e.get(e.get(self.pkt, ('v', self.variant)), i)
    def has(self, n):
        return any(x == n for x, t in self.p.structs['OrderPacket::'][self.variant])
    def num(self, v):
        return zI(self.eng.get(v, 0, 'u64')) if isinstance(v, (Lazy, Node)) else v
    def opt(self, v):
        """(is some, payload) of an Option field"""
        e = self.eng
        d = e.discr(v)
        return d == 1, self.num(e.get(e.get(v, ('v', 'Some')), 0))
    def run(self):
        e, st, M = self.eng, self.st, self.M
        v = self.variant
        si = e.variant_index('OrderPacket', v, 'side')
        pl = Node(('variant', 'OrderPacket', v), {si: Node('Side', {'d': SIDES[self.side]})}, Lazy('pkt#' + v, ('variant', 'OrderPacket', v)))
        self.pkt = Node('OrderPacket', {'d': e.discr_of('OrderPacket', v), ('v', v): pl})
        tref = e.alloc(st, self.taker, 'trader')
        self.setup_spec(st)
        args = []
        for a, t in zip(self.f.args, self.f.argtys):
            t = norm(t)
            if a == self.f.args[0]:
                args.append(self.ref)
            elif 'FnMut' in t:
                args.append(e.alloc(st, Sink('clock' if '(u64, u64)' in t else 'event')))
            elif base_name(t) == 'OrderPacket':
                args.append(self.pkt)
            elif t.startswith('&'):
                args.append(tref)
            else:
                raise Unsupported('argument %s of place_order' % t)
        outs = e.run_fn(self.f, args, st)
        n = 0
        for s, r in outs:
            d = const_int(e.discr(r))
            if d is None:
                for s2, some in e.branch(s, e.discr(r) == 1):
                    if some:
                        n += 1
                        self.exit(s2, r)
                continue
            if d == 1:
                n += 1
                self.exit(s, r)
        self.nexits = n
        if n == 0:
            raise Unsupported('no successful exit')
    # ---- the specification
    def setup_spec(self, st):
        e, M = self.eng, self.M
        v = self.variant
        bl, tk = M.bl, M.tk
        self.cid = self.pf('client_order_id')
        g = lambda n: self.num(self.pf(n)) if self.has(n) else None
        if self.has('price_in_ticks'):
            pv = self.pf('price_in_ticks')
            if v == 'ImmediateOrCancel':
                some, pr = self.opt(pv)
                self.limit = z3.If(some, pr, z3.IntVal(2**64 - 1) if self.side == 'bid' else z3.IntVal(0))
            else:
                pr = self.num(pv)
                self.limit = pr if self.side == 'bid' else z3.If(pr == 0, z3.IntVal(1), pr)
        self.price0 = self.limit
        self.nb = g('num_base_lots')
        self.nq = g('num_quote_lots')
        self.minb, self.minq = g('min_base_lots_to_fill'), g('min_quote_lots_to_fill')
        MX = 2**64 - 1
        self.B0 = z3.If(self.nb == 0, MX, self.nb) if v == 'ImmediateOrCancel' else self.nb
        if self.has('match_limit'):
            some, x = self.opt(self.pf('match_limit'))
            self.ml0 = z3.If(some, x, MX)
        self.stb = e.discr(self.pf('self_trade_behavior')) if self.has('self_trade_behavior') else None
        self.ff = zB(self.pf('use_only_deposited_funds'))
        def dl(n):
            some, x = self.opt(self.pf(n))
            return z3.If(some, x, 0), some, x
        self.lvs, s1, x1 = dl('last_valid_slot')
        self.lvt, s2, x2 = dl('last_valid_unix_timestamp_in_seconds')
        self.pkt_expired = z3.Or(z3.And(s1, x1 < self.slot), z3.And(s2, x2 < self.ts))
        # best live order of the other side before the instruction (exists or not)
        bk = self.a0 if self.opp == 'asks' else self.b0
        self.bk0 = bk
        w = mk_key(e.int_const('w.p', 'u64'), e.int_const('w.s', 'u64'))
        self.w, self.haslive = w, z3.Bool('haslive')
        e.assume(st, z3.Implies(self.haslive, self.live(bk, w)))
        for x in bk.facts(e, w):
            e.assume(st, x)
        e.inst(st, 'ord', w)
        e.assume_all(st, Schema('ord', lambda j: z3.If(self.haslive, z3.Implies(self.live(bk, j), z3.Or(j == w, less(bk.side, w, j))), z3.Not(self.live(bk, j))), 'best live order'))
    def actor(self, st):
        return self.xi if self.xi is not None else self.M.fld(st, 'traders').addr[self.taker]
    xi = None
    def within(self, k, limit=None):
        limit = self.limit if limit is None else limit
        return OrdKey.price(k) <= limit if self.side == 'bid' else OrdKey.price(k) >= limit
    def which(self, st, k, side=None):
        return self.oppw
    def loop_extra(self, c, d):
        st, en, M = c.st, c.entry, self.M
        t, t0 = M.fld(st, 'traders'), M.fld(en, 'traders')
        out = []
        if t is not t0:
            s = 1 if self.side == 'bid' else -1
            out.append(('C01,C20|quote lots of all traders change by the quote lots filled', t.tq == t0.tq + s * d('sumq')))
            out.append(('C01,C20|base lots of all traders change by the base lots filled', t.tb == t0.tb - s * d('sumb')))
        x = self.actor(st)
        for g in ('GQ', 'GB'):
            if not same(st.ghost[g], en.ghost[g]):
                out.append(('C06,C01|matching does not change what the taker itself holds', z3.Implies(t.live[x], st.ghost[g][x] == en.ghost[g][x])))
        if self.variant == 'PostOnly':
            # the crossing check only removes expired orders
            bk = M.books(st)[0 if self.opp == 'bids' else 1]
            b1 = M.books(en)[0 if self.opp == 'bids' else 1]
            fnc = lambda k: z3.And(z3.Implies(bk.dom[k], z3.And(b1.dom[k], bk.lvs[k] == b1.lvs[k], bk.lvt[k] == b1.lvt[k], bk.lots[k] == b1.lots[k], bk.owner[k] == b1.owner[k])), z3.Implies(self.live(b1, k), bk.dom[k]))
            if bk is not b1:
                if c.assume:
                    self.eng.assume_all(st, Schema('ord', fnc, 'live orders stay'))
                else:
                    x = self.sk('ord')
                    out.append(('C04,C07|the crossing check keeps every live order', fnc(x)))
        return out
    def ev_Fill(self, st, f, span):
        e, M = self.eng, self.M
        k = self.evkey(st, f)
        w = self.oppw
        g = st.ghost[w]
        lots = f['base_lots_filled']
        o = lambda l, x: self.oblige(st, l, x, where='Fill')
        o('C12,C03|fill event names an order on the opposite book', g.dom[k])
        o('C12|fill event names the owner of the resting order', f['maker_id'] == M.fld(st, 'traders').key[g.owner[k]])
        o('C12,C01|fill event: filled and remaining add up to the size of the resting order', z3.And(lots >= 1, f['base_lots_remaining'] + lots == g.lots[k]))
        o('C03|fills only within the limit price', self.within(k))
        o('C06|no fill against an own order', g.owner[k] != self.actor(st))
        o('C07|no fill of an expired order', z3.Not(self.expired(g, k)))
        j = self.sk('ord')
        o('C03|fills the best live order, oldest first', z3.Implies(self.live(g, j), z3.Or(j == k, less(self.opp, k, j))))
        if self.variant == 'PostOnly':
            o('C04|a post-only order never fills', False)
        o('C07|an expired order packet never fills', z3.Not(self.pkt_expired))
        a = g.owner[k]
        q = OrdKey.price(k) * M.tk * lots
        s = 1 if self.side == 'bid' else -1
        gh = st.ghost
        gh['GQ'] = z3.Store(gh['GQ'], a, gh['GQ'][a] + s * q)
        gh['GB'] = z3.Store(gh['GB'], a, gh['GB'][a] - s * lots)
        gh['sumb'] = gh['sumb'] + lots
        gh['sumq'] = gh['sumq'] + q
        gh['touched'] = gh['touched'] + 1
        self.removed(st, w, k, lots, f['base_lots_remaining'])
    def reduce_extra(self, st, w, k, g, f):
        M = self.M
        if self.stb is None:
            self.oblige(st, 'C12,C04|no reduce event for a post-only order', False, where='Reduce')
            return
        e = self.eng
        D = lambda n: e.discr_of('SelfTradeBehavior', n)
        o = lambda l, x: self.oblige(st, l, x, where='Reduce')
        o('C06|meeting an own order with the abort behaviour fails', self.stb != D('Abort'))
        o('C06|cancel-provide removes the whole own order', z3.Implies(self.stb == D('CancelProvide'), f['base_lots_remaining'] == 0))
        o('C06|only own orders are self-traded', g.owner[k] == self.actor(st))
        o('C07|an expired order packet touches no order', z3.Not(self.pkt_expired))
        dec = self.stb == D('DecrementTake')
        gh = st.ghost
        q = OrdKey.price(k) * M.tk * f['base_lots_removed']
        if e.fast_prove(st, dec):
            gh['decb'] = gh['decb'] + f['base_lots_removed']
            gh['decq'] = gh['decq'] + q
        elif not e.fast_prove(st, z3.Not(dec)):
            gh['decb'] = gh['decb'] + z3.If(dec, f['base_lots_removed'], 0)
            gh['decq'] = gh['decq'] + z3.If(dec, q, 0)
    def ev_Evict(self, st, f, span):
        k = self.evkey(st, f)
        g = st.ghost[self.own]
        bk = self.M.books(st)[0 if self.own == 'gb' else 1]
        o = lambda l, x: self.oblige(st, l, x, where='Evict')
        o('C15,C12|evict event names an order on the book', g.dom[k])
        o('C12|evict event names the owner', f['maker_id'] == self.M.fld(st, 'traders').key[g.owner[k]])
        o('C15,C12|the evicted order is removed in full', f['base_lots_evicted'] == g.lots[k])
        j = self.sk('ord')
        o('C15|only the least aggressive order is evicted', z3.Implies(g.dom[j], z3.Or(j == k, less(bk.side, j, k))))
        b0 = self.b0 if self.own == 'gb' else self.a0
        o('C15|eviction only when the book is full', b0.n >= self.eng.int_const('cap.' + b0.side, (1, 2**31 - 1)))
        o('C15|only orders that may rest evict', self.variant != 'ImmediateOrCancel')
        o('C15|at most one order is evicted', st.ghost['nevict'] == 0)
        st.ghost['nevict'] = st.ghost['nevict'] + 1
        st.ghost['ekey'] = k
        st.ghost[self.own] = g.copy(dom=z3.Store(g.dom, k, z3.BoolVal(False)))
    def ev_Place(self, st, f, span):
        k = self.evkey(st, f)
        g = st.ghost[self.own]
        b0 = self.b0 if self.own == 'gb' else self.a0
        gh = st.ghost
        o = lambda l, x: self.oblige(st, l, x, where='Place')
        o('C11|the new identifier is not in use', z3.And(z3.Not(g.dom[k]), z3.Not(b0.dom[k])))
        seq = self.seq0 if self.side == 'ask' else 2**64 - 1 - self.seq0
        o('C11|the new identifier carries the next sequence number', f['order_sequence_number'] == seq)
        o('C12,C08|at most one order is placed', z3.And(gh['nplace'] == 0, z3.BoolVal(self.variant != 'ImmediateOrCancel')))
        if self.variant == 'ImmediateOrCancel':
            o('C08|an immediate-or-cancel order never rests', False)
        o('C07|an expired order packet is never posted', z3.Not(self.pkt_expired))
        o('C12|place event carries the client order id', f['client_order_id'] == self.cid)
        rest = self.B0 - gh['sumb'] - gh['decb']
        o('C05,C06,C12|the posted size is the size of the order less what was matched or self-traded', z3.And(f['base_lots_placed'] == rest, rest >= 1))
        e = gh['ekey']
        o('C15|the evicted order is less aggressive than the new one', z3.Implies(gh['nevict'] > 0, (OrdKey.price(k) > OrdKey.price(e)) if self.side == 'bid' else (OrdKey.price(k) < OrdKey.price(e))))
        p = OrdKey.price(k)
        if self.variant == 'PostOnly':
            cross = z3.And(self.haslive, self.within(self.w))
            rej = zB(self.pf('reject_post_only'))
            want = z3.If(cross, OrdKey.price(self.w) + (-1 if self.side == 'bid' else 1), self.price0)
            o('C04|a crossing post-only order is refused when it says so', z3.Not(z3.And(cross, rej)))
            o('C04|a post-only order rests at its price or one tick from the best live opposite price', p == want)
        else:
            o('C03,C04|a limit order rests at its limit price', p == self.limit)
        gh['nplace'] = gh['nplace'] + 1
        gh['pkey'] = k
        gh['plots'] = f['base_lots_placed']
        self.placed_k = k
        t = self.M.fld(st, 'traders')
        gh[self.own] = GBook(g.side, dom=z3.Store(g.dom, k, z3.BoolVal(True)), owner=z3.Store(g.owner, k, t.addr[self.taker]), lots=z3.Store(g.lots, k, f['base_lots_placed']), lvs=z3.Store(g.lvs, k, z3.IntVal(0)), lvt=z3.Store(g.lvt, k, z3.IntVal(0)))
    def ev_TimeInForce(self, st, f, span):
        gh = st.ghost
        k = gh['pkey']
        g = gh[self.own]
        self.oblige(st, 'C12|the time-in-force event follows the placement of its order', z3.And(gh['nplace'] == 1, f['order_sequence_number'] == OrdKey.seq(k)), where='TimeInForce')
        gh[self.own] = g.copy(lvs=z3.Store(g.lvs, k, f['last_valid_slot']), lvt=z3.Store(g.lvt, k, f['last_valid_unix_timestamp_in_seconds']))
        gh['ntif'] = gh['ntif'] + 1
    def ev_FillSummary(self, st, f, span):
        gh = st.ghost
        self.oblige(st, 'C12|one fill summary', gh['nsummary'] == 0, where='FillSummary')
        gh['nsummary'] = gh['nsummary'] + 1
        gh['s_cid'], gh['s_b'], gh['s_q'], gh['s_f'] = f['client_order_id'], f['total_base_lots_filled'], f['total_quote_lots_filled'], f['total_fee_in_quote_lots']
    def resp(self, st, r):
        e = self.eng
        out = {}
        for i, (n, t) in enumerate(self.p.structs['MatchingEngineResponse']):
            x = e.get(r, i)
            out[n] = zI(x) if (isz(x) or isinstance(x, int)) else zI(e.get(x, 0, 'u64'))
        return out
    def exit(self, st, r):
        e, M = self.eng, self.M
        some = payload(e, r, 'Some')
        idopt, resp = e.get(some, 0), e.get(some, 1)
        R = self.resp(st, resp)
        gh = st.ghost
        b, a = M.books(st)
        t = M.fld(st, 'traders')
        for x in t.key_facts(e, self.taker):
            e.assume(st, x)
        e.inst(st, 'tr', t.addr[self.taker])
        x = t.addr[self.taker]
        o = lambda l, g: self.oblige(st, l, g, where='exit')
        bid = self.side == 'bid'
        for l, g in self.inv_goals(st) + self.ghost_goals(st):
            o(l, g)
        o(*self.totals_goal(st, True))
        fee = zI(M.fld(st, 'unclaimed_quote_lot_fees')) - self.unclaimed0
        fee_ok = ceil_spec(gh['sumq'] * self.bps, fee, 10000)
        o('C05,C06|the fee is the rate applied to the quote volume, rounded up', fee_ok)
        o('C05|the collected total is untouched by orders', zI(M.fld(st, 'collected_quote_lot_fees')) == self.collected0)
        o('C22|market parameters are unchanged', b_and(*[eq_val(e, self.st, e.read(self.st, MKT, (M.ix[n],)), st, e.read(st, MKT, (M.ix[n],))) for n in ('base_lots_per_base_unit', 'tick_size_in_quote_lots_per_base_unit', 'taker_fee_bps')]))
        qin, qout, bin_, bout = R['num_quote_lots_in'], R['num_quote_lots_out'], R['num_base_lots_in'], R['num_base_lots_out']
        qp, bp, qf, bf = R['num_quote_lots_posted'], R['num_base_lots_posted'], R['num_free_quote_lots_used'], R['num_free_base_lots_used']
        tq1 = zI(M.fld(st, 'unclaimed_quote_lot_fees'))
        o('C01,C20|quote lots in the vault equal quote lots owed', t.tq + tq1 + qout == self.t0.tq + self.unclaimed0 + qin + qp - qf)
        o('C01,C20|base lots in the vault equal base lots owed', t.tb + bout == self.t0.tb + bin_ + bp - bf)
        pv = OrdKey.price(gh['pkey']) * M.tk * gh['plots']
        if bid:
            o('C05,C20|a buyer pays the quote filled plus the fee', qin == gh['sumq'] + fee)
            o('C20,C05|a buyer receives the base filled', z3.And(bin_ == 0, bout == z3.If(self.ff_reg(t), 0, gh['sumb'])))
            o('C20|a bid pays no base and receives no quote', z3.And(qout == 0, bp == 0, bf == 0))
            o('C20,C02|the locked quote is the value of the posted bid', z3.If(gh['nplace'] == 0, qp == 0, qp == pv))
        else:
            o('C05,C20|a seller receives the quote filled less the fee', qout == z3.If(self.ff_reg(t), 0, gh['sumq'] - fee))
            o('C20,C05|a seller pays the base filled', z3.And(qin == 0, bin_ == gh['sumb']))
            o('C20|an ask pays no quote and receives no base', z3.And(bout == 0, qp == 0, qf == 0))
            o('C20,C02|the locked base is the size of the posted ask', z3.If(gh['nplace'] == 0, bp == 0, bp == gh['plots']))
        # the taker's own funds
        q1, b1 = t.ql[x] + t.qf[x], t.bl[x] + t.bf[x]
        x0 = self.x0
        q0 = z3.If(x0 != 0, self.t0.ql[x0] + self.t0.qf[x0], 0)
        bb0 = z3.If(x0 != 0, self.t0.bl[x0] + self.t0.bf[x0], 0)
        if bid:
            o('C01,C20|the taker keeps its other funds and gets its proceeds (quote)', z3.Implies(x != 0, q1 == q0 + qp - qf))
            o('C01,C20|the taker keeps its other funds and gets its proceeds (base)', z3.Implies(x != 0, b1 == bb0 + z3.If(self.ff, gh['sumb'], 0)))
        else:
            o('C01,C20|the taker keeps its other funds and gets its proceeds (quote)', z3.Implies(x != 0, q1 == q0 + z3.If(self.ff, gh['sumq'] - fee, 0)))
            o('C01,C20|the taker keeps its other funds and gets its proceeds (base)', z3.Implies(x != 0, b1 == bb0 + bp - bf))
        o('C20|an order that uses only deposited funds needs no deposit and pays nothing out', z3.Implies(self.ff_reg(t), z3.And(qin + qp == qf, bin_ + bp == bf, qout == 0, bout == 0)))
        # set of traders
        y = self.sk('tr')
        o('C10,C01|no trader entry disappears and only the taker is added', z3.And(z3.Implies(self.t0.live[y], z3.And(t.live[y], t.key[y] == self.t0.key[y])), z3.Implies(z3.And(t.live[y], z3.Not(self.t0.live[y])), z3.And(t.key[y] == self.taker, z3.BoolVal(self.variant != 'ImmediateOrCancel')))))
        # budgets, stop condition
        if self.variant != 'PostOnly':
            o('C05|never more base than the base budget', gh['sumb'] <= self.B0)
            if self.nq is not None:
                if bid:
                    o('C05|never more quote with fees than the quote budget', z3.Implies(self.nq > 0, gh['sumq'] + fee <= self.nq))
                else:
                    o('C05|never more quote after fees than the quote budget', z3.Implies(self.nq > 0, gh['sumq'] - fee <= self.nq))
            o('C08|at most the match limit of orders is touched', gh['touched'] <= self.ml0)
        if self.variant == 'ImmediateOrCancel':
            o('C08|the minimum base fill is honoured', z3.Or(gh['sumb'] >= self.minb, z3.And(self.pkt_expired, gh['nevents'] == 0)))
            o('C08|the minimum quote fill is honoured', z3.Or(gh['sumq'] + (fee if bid else -fee) >= self.minq, z3.And(self.pkt_expired, gh['nevents'] == 0)))
            o('C08|no order identifier is returned', e.discr(idopt) == 0)
        o('C07|an expired packet has no effect', z3.Implies(self.pkt_expired, z3.And(gh['nevents'] == 0, qin == 0, qout == 0, bin_ == 0, bout == 0, qp == 0, bp == 0, qf == 0, bf == 0)))
        # identifiers
        d = e.discr(idopt)
        o('C11|an identifier is returned exactly when an order was posted', zB(cmp_op('Eq', d, 1)) == (gh['nplace'] == 1))
        dc = const_int(d)
        if dc is None or dc == 1:
            k = key_val(e, st, b, payload(e, idopt, 'Some'))
            o('C11|the returned identifier is the posted one', implies(cmp_op('Eq', d, 1), k == gh['pkey']))
        seq1 = M.fld(st, 'order_sequence_number')
        o('C11|the sequence number grows with each posted order', seq1 == self.seq0 + gh['nplace'])
        # crossing
        opp = b if self.opp == 'bids' else a
        j = self.sk('ord')
        o('C04|a posted order crosses no live order', z3.Implies(z3.And(gh['nplace'] == 1, self.live(opp, j)), z3.Not(self.within(j, OrdKey.price(gh['pkey'])))))
        own, own0 = (b, self.b0) if self.own == 'gb' else (a, self.a0)
        cap = e.int_const('cap.' + own0.side, (1, 2**31 - 1))
        o('C15|the book stays within its capacity', z3.Implies(own0.n <= cap, own.n <= cap))
        # summary
        if self.variant == 'PostOnly':
            o('C12|no fill summary for a post-only order', gh['nsummary'] == 0)
        else:
            o('C12|the fill summary states the totals of the order', z3.If(self.pkt_expired, gh['nsummary'] == 0, z3.And(gh['nsummary'] == 1, gh['s_cid'] == self.cid, gh['s_b'] == gh['sumb'], gh['s_q'] == gh['sumq'] + (fee if bid else -fee), gh['s_f'] == fee)))
        o('C12,C07|a time limit is logged exactly when the posted order has one', z3.Implies(gh['nplace'] == 1, (gh['ntif'] == 1) == z3.Or(self.lvs != 0, self.lvt != 0)))
        if self.variant != 'ImmediateOrCancel':
            pk = gh['pkey']
            o('C07,C12|the posted order carries its time limits', z3.Implies(gh['nplace'] == 1, z3.And(own.dom[pk], own.lvs[pk] == self.lvs, own.lvt[pk] == self.lvt, own.owner[pk] == x)))
        if self.variant != 'PostOnly':
            self.stop_goal(st, opp, own)
    def ff_reg(self, t):
        return z3.And(self.ff, t.addr[self.taker] != 0)
    def adj0(self):
        return None
    def stop_goal(self, st, opp, own):
        """when matching stops, the size, budget or match limit is used up, or nothing live within the limit is left"""
        e, M, gh = self.eng, self.M, st.ghost
        s = st.fork()
        j = self.sk('ord')
        k = self.best(s, opp)
        rest = self.B0 - gh['sumb'] - gh['decb']
        # one more lot of the first resting order would take the order to its quote budget (fees included) or beyond,
        # or past the largest volume the engine can count
        S = gh['sumq'] + gh['decq'] + OrdKey.price(k) * M.tk
        MX = 2**64 - 1
        budget = M.bl * S > MX
        if self.nq is not None:
            rate = 10000 + self.bps if self.side == 'bid' else 10000 - self.bps
            budget = z3.Or(budget, z3.And(self.nq > 0, z3.Or(S * rate >= 10000 * self.nq, 10000 * S >= MX)))
        self.oblige(s, 'C03|matching stops only when the order is used up or nothing live within its limit is left', z3.Implies(z3.And(z3.Not(self.pkt_expired), self.live(opp, j), self.within(j)), z3.Or(rest == 0, gh['touched'] >= self.ml0, budget)), where='exit')
        if self.variant == 'Limit':
            self.oblige(s, 'C03,C24|what is left of a limit order is posted unless it would cross', z3.Implies(z3.And(z3.Not(self.pkt_expired), rest > 0, z3.Not(z3.And(opp.n > 0, self.within(k))), self.limit < 2**64 - 1), gh['nplace'] == 1), where='exit')
    # ---- contracts of the functions it calls
    def goals_of(self, st, items):
        """postcondition items as goals"""
        for it in items:
            if len(it) == 2:
                yield it
            else:
                l, sort, fnc = it
                x = self.sk(sort)
                yield l, fnc(x)
    def assume_items(self, st, items):
        for it in items:
            if len(it) == 2:
                self.eng.assume(st, it[1])
            else:
                self.eng.assume_all(st, Schema(it[1], it[2], it[0]))
    def inv_items(self, st):
        return [('%s|%s' % ('C11' if n == 'order-id-side-and-age' else 'C02', n), s, f) for n, s, f in self.M.inv(st)]
    def totals_item(self, st):
        t = self.M.fld(st, 'traders')
        gq, gb = st.ghost['GQ'], st.ghost['GB']
        return ('C01|every trader holds exactly its funds before plus its own fills', 'tr', lambda x: z3.Implies(t.live[x], z3.And(t.ql[x] + t.qf[x] == gq[x], t.bl[x] + t.bf[x] == gb[x])))
    def infl(self, st, ref):
        e = self.eng
        v = e.load(st, ref)
        out = {}
        for i, (n, t) in enumerate(self.p.structs['InflightOrder']):
            x = e.get(v, i)
            b = base_name(norm(t))
            if b == 'Option':
                some, y = self.opt(x)
                x = z3.If(zB(some), y, 0)
            elif b in ('Side', 'SelfTradeBehavior'):
                x = e.discr(x)
            elif isinstance(x, (Lazy, Node)):
                x = e.get(x, 0, 'u64')
            out[n] = zB(x) if b == 'bool' else zI(x)
        return out
    ERASED = ('should_terminate', 'match_limit', 'base_lot_budget', 'adjusted_quote_lot_budget', 'matched_base_lots', 'matched_adjusted_quote_lots', 'quote_lot_fees')
    def match_pre(self, st, idx, i, slot, ts):
        D = self.eng.discr_of
        gh = st.ghost
        t = self.M.fld(st, 'traders')
        for x in t.key_facts(self.eng, self.taker):
            self.eng.assume(st, x)
        a = t.addr[self.taker]
        out = [('C03|matching is for the side of the order', i['side'] == SIDES[self.side]),
               ('C03|matching respects the limit price of the order', i['limit_price_in_ticks'] == self.limit),
               ('C05|matching starts with the size of the order', i['base_lot_budget'] == self.B0),
               ('C08|matching starts with the match limit of the order', i['match_limit'] == self.ml0),
               ('C06|matching applies the self-trade behaviour of the order', i['self_trade_behavior'] == self.stb),
               ('C07,C12|matching carries the deadlines of the order', z3.And(i['last_valid_slot'] == self.lvs, i['last_valid_unix_timestamp_in_seconds'] == self.lvt)),
               ('C05|matching starts from nothing', z3.And(i['matched_base_lots'] == 0, i['matched_adjusted_quote_lots'] == 0, i['quote_lot_fees'] == 0, z3.Not(i['should_terminate']), gh['sumb'] == 0, gh['sumq'] == 0, gh['decb'] == 0, gh['decq'] == 0, gh['touched'] == 0, gh['nevents'] == 0)),
               ('C07|matching uses the current clock', z3.And(zI(slot) == self.slot, zI(ts) == self.ts)),
               ('C06,C02|matching knows the seat of the taker', zI(idx) == z3.If(a != 0, a, 2**32 - 1)),
               ('C07|an expired order packet is not matched', z3.Not(self.pkt_expired))]
        return out
    def match_post(self, s0, s1, i0, i1, idx, rest):
        M, e = self.M, self.eng
        bl, tk = M.bl, M.tk
        d = lambda n: s1.ghost[n] - s0.ghost[n]
        t0, t1 = M.fld(s0, 'traders'), M.fld(s1, 'traders')
        out = self.inv_items(s1)
        out.append(self.totals_item(s1))
        x = zI(idx)
        for g in ('GQ', 'GB'):
            out.append(('C06,C01|matching does not change what the taker itself holds', z3.Implies(t1.live[x], s1.ghost[g][x] == s0.ghost[g][x])))
        s = 1 if self.side == 'bid' else -1
        out.append(('C01,C20|quote lots of all traders change by the quote lots filled', t1.tq == t0.tq + s * d('sumq')))
        out.append(('C01,C20|base lots of all traders change by the base lots filled', t1.tb == t0.tb - s * d('sumb')))
        for n in ('sumb', 'sumq', 'decb', 'decq', 'touched', 'nevents'):
            out.append(('aux|%s grows' % n, d(n) >= 0))
        out.append(('C12,C05|nothing is filled without an event', z3.Implies(d('nevents') == 0, z3.And(d('sumb') == 0, d('sumq') == 0, d('decb') == 0, d('touched') == 0))))
        out.append(('C05,C06|base budget falls by what was filled or self-traded', i1['base_lot_budget'] == i0['base_lot_budget'] - d('sumb') - d('decb')))
        out.append(('C05,C06|quote budget falls by what was filled or self-traded', i1['adjusted_quote_lot_budget'] == i0['adjusted_quote_lot_budget'] - bl * (d('sumq') + d('decq'))))
        out.append(('C05,C12|matched base lots are the base lots filled', i1['matched_base_lots'] == i0['matched_base_lots'] + d('sumb')))
        out.append(('C05,C12|matched quote lots are the quote lots filled', i1['matched_adjusted_quote_lots'] == i0['matched_adjusted_quote_lots'] + bl * d('sumq')))
        fees = i1['quote_lot_fees']
        out.append(('C05|the fee is the rate applied to the quote volume, rounded up', ceil_spec(d('sumq') * self.bps, fees, 10000)))
        u0, u1 = (zI(M.fld(z, 'unclaimed_quote_lot_fees')) for z in (s0, s1))
        out.append(('C05,C01|the fee is added once to the uncollected fees', u1 == u0 + fees))
        out.append(('C08|at most the match limit of orders is touched', d('touched') <= i0['match_limit']))
        for n, w in (('num_base_lots', 'C05,C06|what is left to post is what was not filled or self-traded'), ('trader_index', 'C02,C09|the posted order belongs to the taker'), ('last_valid_slot', 'C07,C12|the posted order carries its time limits'), ('last_valid_unix_timestamp_in_seconds', 'C07,C12|the posted order carries its time limits')):
            v = e.get(rest, e.field_index('FIFORestingOrder', n))
            v = zI(e.get(v, 0, 'u64') if isinstance(v, (Lazy, Node)) else v)
            want = {'num_base_lots': i1['base_lot_budget'], 'trader_index': x, 'last_valid_slot': i0['last_valid_slot'], 'last_valid_unix_timestamp_in_seconds': i0['last_valid_unix_timestamp_in_seconds']}[n]
            out.append((w, v == want))
        opp = M.books(s1)[0 if self.opp == 'bids' else 1]
        k = self.best(s1, opp)
        out.append(('C03|matching stops only when the order is used up or nothing live within its limit is left', 'ord', lambda j: z3.Implies(z3.And(self.live(opp, j), self.within(j)), z3.Or(i1['base_lot_budget'] == 0, d('touched') >= i0['match_limit'], OrdKey.price(k) * tk * bl > i1['adjusted_quote_lot_budget']))))
        out.append(('aux|the first order of the book', z3.Implies(opp.n > 0, opp.dom[k])))
        return out
    def frame(self, s0, s1, changed):
        """market fields a callee may not change"""
        M, e = self.M, self.eng
        fs = []
        for n in M.ix:
            if n not in changed and n != '_padding':
                a, b = e.read(s0, MKT, (M.ix[n],)), e.read(s1, MKT, (M.ix[n],))
                fs.append(zB(eq_val(e, s0, a, s1, b)))
        t0, t1 = M.fld(s0, 'traders'), M.fld(s1, 'traders')
        for x in ('live', 'key', 'addr', 'n'):
            p, q = getattr(t0, x), getattr(t1, x)
            if not p.eq(q):
                fs.append(p == q)
        return ('C01,C22|nothing else of the market changes', b_and(*fs))
    def fresh_market(self, st, changed, ghosts, tag):
        """havoc the parts of the market and the ghosts a contract may change"""
        e, M = self.eng, self.M
        for n in changed:
            old = M.fld(st, n)
            if n == 'traders':
                new = old.havoc(e, st, e.fresh(tag + '.traders'))
                for x in ('live', 'key', 'addr', 'n'):
                    setattr(new, x, getattr(old, x))
                e.write(st, MKT, (M.ix[n],), new)
            elif n in ('bids', 'asks'):
                e.write(st, MKT, (M.ix[n],), old.havoc(e, st, e.fresh(tag + '.' + n)))
            else:
                t = dict(self.p.structs['FIFOMarket'])[n]
                v = e.mk(e.fresh(tag + '.' + n), t)
                e.write(st, MKT, (M.ix[n],), e.expand(v) if isinstance(v, Lazy) else v)
        for g in ghosts:
            st.ghost[g] = z3.Const(e.fresh(tag + '.' + g), st.ghost[g].sort())
        b, a = M.books(st)
        st.ghost['gb'], st.ghost['ga'] = GBook.of(b), GBook.of(a)
        for x in M.fld(st, 'traders').key_facts(e, self.taker):
            e.assume(st, x)
    def c_match(self, st, r, dty, span):
        e, M = self.eng, self.M
        if set(r) != {'self', 'InflightOrder', 'index', 'event', 'slot', 'ts'} or not r['self'].same(self.ref):
            return None
        i0 = self.infl(st, r['InflightOrder'])
        self.actor_ix = r['index']
        o = lambda l, g: self.oblige(st, l, g, where='match_order call')
        for l, g in self.match_pre(st, r['index'], i0, r['slot'], r['ts']):
            o(l, g)
        for l, g in list(self.goals_of(st, self.inv_items(st) + [self.totals_item(st)])) + self.ghost_goals(st):
            o(l, g)
        s0 = st.fork()
        none = st.fork()
        self.fresh_market(st, [self.opp, 'traders', 'unclaimed_quote_lot_fees'], ['sumb', 'sumq', 'decb', 'decq', 'touched', 'nevents', 'GQ', 'GB'], 'mo')
        v = e.load(st, r['InflightOrder'])
        f = dict(v.f)
        for i, (n, t) in enumerate(self.p.structs['InflightOrder']):
            if n in self.ERASED:
                x = e.mk(e.fresh('mo.' + n), t)
                f[i] = e.expand(x) if isinstance(x, Lazy) else x
        e.store(st, r['InflightOrder'], Node(v.ty, f, v.base))
        i1 = self.infl(st, r['InflightOrder'])
        rest = e.expand(Lazy(e.fresh('mo.rest'), 'FIFORestingOrder'))
        self.assume_items(st, self.match_post(s0, st, i0, i1, r['index'], rest))
        return [(st, opt_some(dty, rest)), (none, opt_none(dty))]
    def cross_post(self, s0, s1, d, price):
        M = self.M
        t0, t1 = M.fld(s0, 'traders'), M.fld(s1, 'traders')
        i = 0 if self.opp == 'bids' else 1
        b0, b1 = M.books(s0)[i], M.books(s1)[i]
        out = self.inv_items(s1) + [self.totals_item(s1)]
        out.append(('C01,C20|the crossing check moves no funds between traders', z3.And(t1.tq == t0.tq, t1.tb == t0.tb)))
        out.append(('C01,C20|the crossing check moves no funds between traders', 'tr', lambda x: z3.Implies(t0.live[x], z3.And(s1.ghost['GQ'][x] == s0.ghost['GQ'][x], s1.ghost['GB'][x] == s0.ghost['GB'][x]))))
        out.append(('C04,C07|the crossing check keeps every live order', 'ord', lambda k: z3.And(
            z3.Implies(b1.dom[k], z3.And(b0.dom[k], b0.lvs[k] == b1.lvs[k], b0.lvt[k] == b1.lvt[k], b0.lots[k] == b1.lots[k], b0.owner[k] == b1.owner[k])), z3.Implies(self.live(b0, k), b1.dom[k]))))
        crossed = z3.And(self.haslive, self.within(self.w))
        out.append(('C04|the crossing check finds a live crossing order exactly when there is one', zB(cmp_op('Eq', d, 1)) == crossed))
        if price is not None:
            out.append(('C04|the crossing check returns the best live opposite price', implies(cmp_op('Eq', d, 1), price == OrdKey.price(self.w))))
        return out
    def c_cross(self, st, r, dty, span):
        e, M = self.eng, self.M
        if set(r) != {'self', 'Side', 'Ticks', 'slot', 'ts', 'event'} or not r['self'].same(self.ref):
            return None
        i = 0 if self.opp == 'bids' else 1
        if self.variant != 'PostOnly' or not M.books(st)[i].same((self.b0, self.a0)[i]):
            return None
        o = lambda l, g: self.oblige(st, l, g, where='check_for_cross call')
        o('C04|the crossing check is for the side of the order', zB(cmp_op('Eq', e.discr(r['Side']), SIDES[self.side])))
        o('C04|the crossing check is for the price of the order', zI(self.num(r['Ticks'])) == self.limit)
        o('C07,C04|the crossing check uses the current clock', z3.And(zI(r['slot']) == self.slot, zI(r['ts']) == self.ts))
        for l, g in list(self.goals_of(st, self.inv_items(st) + [self.totals_item(st)])) + self.ghost_goals(st):
            o(l, g)
        s0 = st.fork()
        self.fresh_market(st, [self.opp, 'traders'], ['touched', 'nevents', 'GQ', 'GB'], 'cc')
        d = e.int_const(e.fresh('cc.d'), (0, 1))
        p = e.int_const(e.fresh('cc.price'), 'u64')
        self.assume_items(st, self.cross_post(s0, st, d, p))
        e.assume(st, z3.And(st.ghost['touched'] >= s0.ghost['touched'], st.ghost['nevents'] >= s0.ghost['nevents']))
        ns = st.fork()
        e.assume(st, d == 1)
        e.assume(ns, d == 0)
        return [(st, opt_some(dty, Node('Ticks', {0: p}))), (ns, opt_none(dty))]

class MatchOrder(PlaceOrder):
    """match_order for one side, from any market state and any in-flight order"""
    def __init__(self, p, side):
        super().__init__(p, side, 'match')
        self.name = 'match_order[%s]' % side
    def anchor(self, p):
        return fn(p, 'match_order')
    def install_contracts(self):
        pass
    def has(self, n):
        return False
    def run(self):
        e, st, M = self.eng, self.st, self.M
        rs = roles(self.p, self.f)
        if set(rs) != {'self', 'InflightOrder', 'index', 'event', 'slot', 'ts'}:
            raise Unsupported('arguments of match_order')
        ix = {n: i for i, (n, t) in enumerate(self.p.structs['InflightOrder'])}
        e.ztypes['infl'] = 'InflightOrder'
        iref = Ref(('Z', 'infl'))
        v = e.expand(Lazy('infl', 'InflightOrder'))
        w = lambda i: Node(norm(self.p.structs['InflightOrder'][i][1]), {0: 0})
        v.f[ix['side']] = Node('Side', {'d': SIDES[self.side]})
        v.f[ix['should_terminate']] = False
        for n in ('matched_base_lots', 'matched_adjusted_quote_lots', 'quote_lot_fees'):
            v.f[ix[n]] = w(ix[n])
        st.mem[iref.root] = v
        i0 = self.infl(st, iref)
        self.limit, self.B0, self.ml0, self.stb = i0['limit_price_in_ticks'], i0['base_lot_budget'], i0['match_limit'], i0['self_trade_behavior']
        self.pkt_expired = z3.BoolVal(False)
        self.xi = e.int_const('xi', 'u32')
        e.assume(st, self.xi == z3.If(self.x0 != 0, self.x0, 2**32 - 1))
        e.inst(st, 'tr', self.xi)
        for x in self.t0.facts(e, self.xi):
            e.assume(st, x)
        vals = {'self': self.ref, 'InflightOrder': iref, 'index': self.xi, 'event': e.alloc(st, Sink('event')), 'slot': self.slot, 'ts': self.ts}
        s0 = st.fork()
        n = 0
        for s, r in e.run_fn(self.f, [vals[x] for x in rs], st):
            for s2, some in e.branch(s, cmp_op('Eq', e.discr(r), 1)):
                if not some:
                    continue
                n += 1
                i1 = self.infl(s2, iref)
                items = self.match_post(s0, s2, i0, i1, self.xi, payload(e, r, 'Some')) + [self.frame(s0, s2, (self.opp, 'traders', 'unclaimed_quote_lot_fees'))]
                for x in ('side', 'self_trade_behavior', 'limit_price_in_ticks', 'last_valid_slot', 'last_valid_unix_timestamp_in_seconds'):
                    items.append(('C03,C06|matching leaves the terms of the order alone', i1[x] == i0[x]))
                for x in ('nplace', 'nsummary', 'nevict', 'ntif', 'nfee'):
                    items.append(('C12|matching logs fills and removals only', s2.ghost[x] == s0.ghost[x]))
                X, F = (s2.ghost['sumq'] - s0.ghost['sumq']) * self.bps, i1['quote_lot_fees']
                for z in (lem_cancel(M.bl, X, 10000 * F), lem_cancel_lt(M.bl, 10000 * (F - 1), X)):
                    e.assume(s2, z)
                for l, g in list(self.goals_of(s2, items)) + self.ghost_goals(s2):
                    self.oblige(s2, l, zB(g), where='exit')
        self.nexits = n
        if n == 0:
            raise Unsupported('no successful exit')

class CheckForCross(PlaceOrder):
    """check_for_cross for one side, from any market state"""
    def __init__(self, p, side):
        super().__init__(p, side, 'PostOnly')
        self.name = 'check_for_cross[%s]' % side
    def anchor(self, p):
        return fn(p, 'check_for_cross')
    def install_contracts(self):
        pass
    def run(self):
        e, st, M = self.eng, self.st, self.M
        rs = roles(self.p, self.f)
        if set(rs) != {'self', 'Side', 'Ticks', 'slot', 'ts', 'event'}:
            raise Unsupported('arguments of check_for_cross')
        v = self.variant
        si = e.variant_index('OrderPacket', v, 'side')
        self.pkt = Node('OrderPacket', {'d': e.discr_of('OrderPacket', v), ('v', v): Node(('variant', 'OrderPacket', v), {si: Node('Side', {'d': SIDES[self.side]})}, Lazy('pkt#' + v, ('variant', 'OrderPacket', v)))})
        self.setup_spec(st)
        vals = {'self': self.ref, 'Side': Node('Side', {'d': SIDES[self.side]}), 'Ticks': Node('Ticks', {0: self.limit}), 'slot': self.slot, 'ts': self.ts, 'event': e.alloc(st, Sink('event'))}
        s0 = st.fork()
        n = 0
        for s, r in e.run_fn(self.f, [vals[x] for x in rs], st):
            n += 1
            d = e.discr(r)
            price = None
            if const_int(d) != 0:
                price = zI(self.num(payload(e, r, 'Some')))
            items = self.cross_post(s0, s, zI(d), price) + [self.frame(s0, s, (self.opp, 'traders'))]
            for x in ('sumb', 'sumq', 'decb', 'decq', 'nplace', 'nsummary', 'nevict', 'ntif', 'nfee'):
                items.append(('C12,C04|the crossing check logs expirations only', s.ghost[x] == s0.ghost[x]))
            items.append(('aux|counters grow', z3.And(s.ghost['touched'] >= s0.ghost['touched'], s.ghost['nevents'] >= s0.ghost['nevents'])))
            for l, g in list(self.goals_of(s, items)) + self.ghost_goals(s):
                self.oblige(s, l, zB(g), where='exit')
        self.nexits = n
        if n == 0:
            raise Unsupported('no exit')
