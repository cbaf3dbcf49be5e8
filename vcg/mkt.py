"""The market state under proof and its invariant."""
import z3
from sym import *
from maps import OrderBook, Traders, Schema, mk_key, less
from mir import norm, base_name

MKT = ('Z', 'mkt')
MT = 'FIFOMarket<MarketTraderId, BIDS_SIZE, ASKS_SIZE, NUM_SEATS>'

class Market:
    """field access helpers for the market object at MKT"""
    def __init__(self, eng):
        self.eng = eng
        self.ix = {n: i for i, (n, t) in enumerate(eng.p.structs['FIFOMarket'])}
        self.tk = eng.int_const('tk', (1, None))
        self.bl = eng.int_const('bl', (1, 2**64 - 1))

    def install(self, st, name='m0'):
        eng = self.eng
        w = lambda t, v: Node(t, {0: v})
        f = {}
        for n, t in eng.p.structs['FIFOMarket']:
            i = self.ix[n]
            if n == 'bids' or n == 'asks':
                f[i] = OrderBook(n, '%s.%s' % (name, n), self.tk)
                eng.ranges['%s.%s.n' % (name, n)] = (0, 2**31)
                eng.ranges['%s.%s.vtot' % (name, n)] = (0, None)
            elif n == 'traders':
                f[i] = Traders(name + '.traders')
                eng.ranges[name + '.traders.n'] = (0, 2**31)
                eng.ranges[name + '.traders.tq'] = (0, None)
                eng.ranges[name + '.traders.tb'] = (0, None)
            elif n == 'base_lots_per_base_unit':
                f[i] = w('BaseLotsPerBaseUnit', self.bl)
            elif n == 'tick_size_in_quote_lots_per_base_unit':
                f[i] = w('QuoteLotsPerBaseUnitPerTick', self.tk * self.bl)
            elif n == '_padding':
                f[i] = Lazy('mkt.pad', '[u64; 32]')
            else:
                f[i] = eng.mk('%s.%s' % (name, n), t)
                if isinstance(f[i], Lazy):
                    f[i] = eng.expand(f[i])
        st.mem[MKT] = Node(MT, f)
        eng.ztypes['mkt'] = MT
        eng.assume(st, self.tk * self.bl <= 2**64 - 1)
        return Ref(MKT)

    def fld(self, st, n):
        v = self.eng.read(st, MKT, (self.ix[n],))
        if isinstance(v, Lazy) or isinstance(v, Node):
            v = self.eng.get(v, 0, 'u64')
        return v

    def books(self, st):
        return self.fld(st, 'bids'), self.fld(st, 'asks')

    def inv(self, st, taker=None):
        """schemas: the market invariant over the state st (also usable as goals at skolem terms)"""
        b, a = self.books(st)
        t = self.fld(st, 'traders')
        seq = self.fld(st, 'order_sequence_number')
        out = []
        TOP = 2**63
        for bk in (b, a):
            bid = bk.side == 'bids'
            out.append(('order-size-positive', 'ord', lambda k, bk=bk: z3.Implies(bk.dom[k], z3.And(bk.lots[k] > 0, bk.lots[k] < 2**64))))
            out.append(('order-owner-seated', 'ord', lambda k, bk=bk: z3.Implies(bk.dom[k], z3.And(bk.owner[k] < 2**32, t.live[bk.owner[k]]))))
            out.append(('order-price-positive', 'ord', lambda k, bk=bk: z3.Implies(bk.dom[k], z3.And(OrdKey.price(k) >= 1, OrdKey.price(k) < 2**64))))
            if bid:
                out.append(('order-id-side-and-age', 'ord', lambda k, bk=bk: z3.Implies(bk.dom[k], z3.And(OrdKey.seq(k) >= TOP, OrdKey.seq(k) < 2**64, 2**64 - 1 - OrdKey.seq(k) < seq))))
            else:
                out.append(('order-id-side-and-age', 'ord', lambda k, bk=bk: z3.Implies(bk.dom[k], z3.And(OrdKey.seq(k) >= 0, OrdKey.seq(k) < TOP, OrdKey.seq(k) < seq))))
        out.append(('locked-quote-backs-bids', 'tr', lambda x: z3.If(t.live[x], t.ql[x] == b.vown[x], b.vown[x] == 0)))
        out.append(('locked-base-backs-asks', 'tr', lambda x: z3.If(t.live[x], t.bl[x] == a.vown[x], a.vown[x] == 0)))
        return out

    def assume_inv(self, st):
        for n, s, f in self.inv(st):
            self.eng.assume_all(st, Schema(s, f, n))
        seq = self.fld(st, 'order_sequence_number')
        self.eng.assume(st, b_and(seq >= 1, seq <= 2**63 - 1))
        self.eng.assume(st, self.fld(st, 'taker_fee_bps') <= 10000)
