"""The order of order identifiers: what the assumed contract of the book (an ordered map) sorts by."""
import z3
from sym import *
from maps import mk_key, less
from mir import norm, base_name
from stdlib import key_node
from eng_specs import Eng, fn

TOP = 2**63

class IdOrder:
    def __init__(self, p, method):
        self.p, self.name, self.method = p, 'FIFOOrderId::' + method, method
        self.eng = Eng(p)
        self.eng.maptypes = {}
        self.eng.cur_span = None
        self.f = fn(p, method, slf='FIFOOrderId') if method != 'eq' else self.find_eq(p)
    def find_eq(self, p):
        c = []
        for g in p.by_last.get('eq', []):
            if g.kind == 'fn':
                p.parse(g)
                if len(g.argtys) == 2 and all(base_name(norm(t).lstrip('&')) == 'FIFOOrderId' for t in g.argtys):
                    c.append(g)
        if len(c) != 1:
            raise Unsupported('eq of FIFOOrderId (%d candidates)' % len(c))
        return c[0]
    def run(self):
        e = self.eng
        self.nexits = 0
        for side in ('bids', 'asks'):
            st = State()
            ks = [mk_key(e.int_const('%s.p' % n, 'u64'), e.int_const('%s.s' % n, (TOP, 2**64 - 1) if side == 'bids' else (0, TOP - 1))) for n in (side + '.x', side + '.y')]
            args = [e.alloc(st, key_node(e, k), 'id') for k in ks]
            x, y = ks
            for s, r in e.run_fn(self.f, args, st):
                self.nexits += 1
                O = lambda label, g: e.oblige(s, label, g, where='exit, ' + side)
                if self.method == 'eq':
                    O('C11,C03|identifiers are equal exactly if price and number are', zB(r) == (x == y))
                    continue
                if self.method == 'partial_cmp':
                    O('C11,C03|identifiers of one side are always comparable', zI(e.discr(r)) == 1)
                    r = e.get(e.get(r, ('v', 'Some')), 0)
                d = zI(e.discr(r))
                w = 'C03,C11,C15|the book of %s is sorted %s, then oldest first' % (side, 'from the highest price down' if side == 'bids' else 'from the lowest price up')
                O(w, z3.And((d == -1) == less(side, x, y), (d == 1) == less(side, y, x), (d == 0) == (x == y)))
        if not self.nexits:
            raise Unsupported('no exit')
