"""The read-only functions of the market that the instructions build on (the contracts assumed for them in acct.py)."""
import z3
from sym import *
from mkt import MKT
from mir import norm, base_name
from eng_specs import Unit, fn, eq_val

NUM = {'get_taker_fee_bps': ('taker_fee_bps', 'C05,C22'), 'get_tick_size': ('tick_size_in_quote_lots_per_base_unit', 'C22,C24'), 'get_base_lots_per_base_unit': ('base_lots_per_base_unit', 'C22,C24'),
       'get_sequence_number': ('order_sequence_number', 'C22,C19'), 'get_collected_fee_amount': ('collected_quote_lot_fees', 'C05'),
       'get_uncollected_fee_amount': ('unclaimed_quote_lot_fees', 'C05,C16')}
PART = {'get_book': 'C16,C21', 'get_book_mut': 'C11', 'get_registered_traders': 'C16,C10', 'get_registered_traders_mut': 'C18,C10'}
STATE = ('get_trader_index', 'get_trader_state', 'get_trader_state_mut', 'get_trader_state_from_index', 'get_trader_state_from_index_mut', 'get_trader_id_from_index')
ALL = list(NUM) + list(PART) + list(STATE)
PROPS = 'C05,C10,C11,C16,C18,C19,C20,C21,C22,C24'

class Getter(Unit):
    def __init__(self, p, method):
        super().__init__(p)
        self.method = method
        self.name = 'FIFOMarket::' + method
        self.f = fn(p, method, trait='WritableMarket' if method.endswith('_mut') else 'Market')
    def scal(self, v):
        for _ in range(4):
            if isinstance(v, int) or isz(v):
                return zI(v)
            v = self.eng.get(v, 0, 'u64')
        raise Unsupported('a number')
    def run(self):
        e, st, M, m = self.eng, self.st, self.M, self.method
        t = M.fld(st, 'traders')
        st0 = st.fork()
        who = z3.Const('who', Key)
        self.nexits = 0
        def go(st, args):
            for s, r in e.run_fn(self.f, [self.ref] + args, st):
                self.nexits += 1
                same_market = same(s.mem[MKT], st0.mem[MKT])
                e.oblige(s, 'C12,C01|reading the market does not change it', z3.BoolVal(bool(same_market)), where='exit')
                yield s, r, (lambda label, g, s=s: e.oblige(s, label, g, where='exit'))
        if m in NUM:
            f, tags = NUM[m]
            for s, r, O in go(st, []):
                O('%s|%s reads its own field' % (tags, m), self.scal(r) == zI(M.fld(s, f)))
        elif m.startswith('get_book'):
            en = e.p.enums['Side']
            for i, n in ((en.index('Bid'), 'bids'), (en.index('Ask'), 'asks')):
                for s, r, O in go(st.fork(), [Node('Side', {'d': i})]):
                    O('%s|%s is the book of that side' % (PART[m], m), z3.BoolVal(isinstance(r, Ref) and r.root == MKT and tuple(r.path) == (M.ix[n],)))
        elif m in PART:
            for s, r, O in go(st, []):
                O('%s|%s are the registered traders' % (PART[m], m), z3.BoolVal(isinstance(r, Ref) and r.root == MKT and tuple(r.path) == (M.ix['traders'],)))
        else:
            k, a = e.alloc(st, who, 'who'), e.int_const('index', 'u32')
            by_key = 'index' not in m.replace('get_trader_index', 'get_trader_inx')
            if by_key:
                for x in t.key_facts(e, who):
                    e.assume(st, x)
                at = t.addr[who]
            else:
                e.assume(st, z3.And(a >= 1, a < 2**31, t.live[a]))
                for x in t.facts(e, a):
                    e.assume(st, x)
                at = a
            for s, r, O in go(st, [k if by_key else a]):
                tags = 'C18,C20,C24'
                if m == 'get_trader_id_from_index':
                    O('%s|the trader of an index' % tags, (e.load(s, r) if isinstance(r, Ref) else r) == t.key[a])
                    continue
                if by_key:
                    O('%s|a trader is found exactly if it is registered' % tags, (zI(e.discr(r)) == 1) == (at != 0))
                    if const_int(e.discr(r)) == 0:
                        continue
                    r = e.get(e.get(r, ('v', 'Some')), 0)
                if m == 'get_trader_index':
                    O('%s|the index found is that of the trader' % tags, z3.Implies(at != 0, zI(r) == at))
                    continue
                v = e.load(s, r)
                O('%s|the state found is that of the trader' % tags, z3.And(*[x == y for x, y in zip(t.state_fields(e, v), (t.ql[at], t.qf[at], t.bl[at], t.bf[at]))]))
