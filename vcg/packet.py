"""Order packets: the derived serialiser, the derived deserialiser and decode_order_packet, all real code, over byte
strings seen as sequences of typed pieces (borsh's primitives are taken at their word: fixed little-endian integers, a
bool or an Option tag is one byte 0 or 1, anything else is refused)."""
import itertools
import z3
from sym import *
from mir import norm, base_name, generic_args
from stdlib import res_ok, res_err, opt_some, opt_none, LVec
from eng_specs import eq_val
from acct import PEng
from acct_specs import AND, EQ, IMP
from recorder import BBuf, base, bytes_hook, PRIM

class PS:
    """the pieces of a known encoding"""
    def __init__(self, pieces, i=0):
        self.pieces, self.i = tuple(pieces), i
    def same(self, o):
        return isinstance(o, PS) and self.i == o.i and (self.pieces is o.pieces or len(self.pieces) == len(o.pieces) and all(a is b or a[1] == b[1] and same(a[2], b[2]) for a, b in zip(self.pieces, o.pieces)))
    def read(self, e, st, ty):
        """[(state, value or None, stream)]"""
        if self.i >= len(self.pieces):
            return [(st, None, self)]
        n, k, v = self.pieces[self.i]
        if n != PRIM[ty]:
            e.oblige(st, 'C23|the decoder reads the fields as they are encoded', False, where='decoding')
            raise Unsupported('a field is read in another size')
        if k == 'bool' and ty == 'u8':
            v = i_ite(zB(v), 1, 0)
        elif k != ty:
            raise Unsupported('a field is read as %s and written as %s' % (ty, k))
        return [(st, v, PS(self.pieces, self.i + 1))]
    def end(self, e, st):
        return self.i == len(self.pieces)
    def pad(self, vs):
        return PS(self.pieces + tuple((1, 'u8', v) for v in vs), self.i)
    def pop(self):
        if self.pieces[-1][0] != 1:
            raise Unsupported('pop of part of a field')
        return PS(self.pieces[:-1], self.i)

class AS:
    """arbitrary bytes of length n, then k zero bytes; log: the pieces read so far"""
    def __init__(self, n, k=0, pos=0, log=()):
        self.n, self.k, self.pos, self.log = n, k, pos, log
    def same(self, o):
        return isinstance(o, AS) and (self.k, self.pos) == (o.k, o.pos) and len(self.log) == len(o.log) and all(same(a[2], b[2]) for a, b in zip(self.log, o.log))
    def read(self, e, st, ty):
        out = []
        n = PRIM[ty]
        for ns, ok in e.branch(st, cmp_op('Le', self.pos + n, i_add(self.n, self.k))):
            if not ok:
                out.append((ns, None, self))
                continue
            v = e.int_const('bytes+%d.%s@%d' % (self.k, ty, self.pos), ty)
            out.append((ns, v, AS(self.n, self.k, self.pos + n, self.log + ((n, ty, v),))))
        return out
    def end(self, e, st):
        return cmp_op('Eq', self.pos, i_add(self.n, self.k))
    def pad(self, vs):
        if self.k or any(const_int(v) != 0 for v in vs):
            raise Unsupported('padding of an order packet')
        return AS(self.n, len(vs))
    def pop(self):
        if self.pos or not self.k:
            raise Unsupported('pop')
        return AS(self.n, self.k - 1)

def impl_of(p, name, ty):
    """the local BorshSerialize / BorshDeserialize implementation for a type, found by its signature"""
    def of(g):
        if name == 'serialize':
            return re.sub(r'^&(mut )?', '', g.argtys[0])
        m = re.match(r'^(?:std::result::)?Result<(.*), std::io::Error>$', g.ret)
        return m.group(1) if m else g.ret
    cands = [(of(g), g) for g in p.by_last.get(name, []) if g.kind == 'fn' and g.impl_trait and base_name(g.impl_trait) in ('BorshSerialize', 'BorshDeserialize', 'Serialize', 'Deserialize')]
    good = [g for n, g in cands if n == ty] or [g for n, g in cands if norm(n) == norm(ty)] or [g for n, g in cands if base_name(n) == base_name(ty)]
    return good[0] if len(good) == 1 else None

def raw(c):
    m = re.match(r'^<(.*) as \w+>::\w+$', c['raw'])
    return m.group(1) if m else c['selfty'] or c['self']

def hook(e, c, vals, tys, dty, st, span):
    n, tr = c['name'], c['trait']
    if tr == 'BorshDeserialize' and n == 'try_from_slice':
        s = base(e, st, vals[0])[1]
        g = impl_of(e.p, 'deserialize', raw(c))
        if g is None or not isinstance(s, (PS, AS)):
            raise Unsupported('try_from_slice of %s' % c['selfty'])
        ins = []
        out = []
        s0 = st.fork()
        buf = e.alloc(s0, s, 'buf')
        for s1, r in e.run_fn(g, [buf], s0, 'inline'):
            for s2, ok in e.branch(s1, EQ(e.discr(r), 0)):
                if not ok:
                    if isinstance(s, PS):
                        out.append((s2, res_err(dty, Opaque('error'))))
                    continue
                z = e.load(s2, buf)
                for s3, done in e.branch(s2, z.end(e, s2)):
                    if done:
                        ins.append(z3.And(*[x for x in s3.pc if not st.pc.has(x)]) if len(s3.pc) else z3.BoolVal(True))
                        s3.trace.append(('decoded', z))
                        out.append((s3, r))
                    elif isinstance(s, PS):
                        out.append((s3, res_err(dty, Opaque('error'))))
        if isinstance(s, PS):
            return out
        # arbitrary bytes: every other way ends in an error
        for ns, ok in e.branch(st, z3.Or(*ins) if ins else False):
            if not ok:
                out.append((ns, res_err(dty, Opaque('error'))))
        return out
    if tr == 'BorshDeserialize' and n == 'deserialize':
        t = norm(c['selfty'] or c['self'])
        r, s = base(e, st, vals[0])
        if not isinstance(s, (PS, AS)):
            return None
        if t in PRIM and t != 'bool':
            out = []
            for s1, v, s2 in s.read(e, st, t):
                e.store(s1, r, s2)
                out.append((s1, res_err(dty, Opaque('error')) if v is None else res_ok(dty, v)))
            return out
        if t == 'bool' or base_name(t) == 'Option':
            out = []
            for s1, v, s2 in s.read(e, st, 'u8'):
                e.store(s1, r, s2)
                if v is None:
                    out.append((s1, res_err(dty, Opaque('error'))))
                    continue
                for s3, zero in e.branch(s1, EQ(v, 0)):
                    if zero:
                        out.append((s3, res_ok(dty, False if t == 'bool' else opt_none(t))))
                        continue
                    for s4, one in e.branch(s3, EQ(v, 1)):
                        if not one:
                            out.append((s4, res_err(dty, Opaque('error'))))
                        elif t == 'bool':
                            out.append((s4, res_ok(dty, True)))
                        else:
                            it = generic_args(t)[0]
                            rt = 'Result<%s, std::io::Error>' % it
                            for s5, q in e.call('<%s as BorshDeserialize>::deserialize' % it, [vals[0]], ['&mut &[u8]'], rt, s4, span):
                                for s6, ok in e.branch(s5, EQ(e.discr(q), 0)):
                                    out.append((s6, res_ok(dty, opt_some(t, e.get(e.get(q, ('v', 'Ok')), 0))) if ok else res_err(dty, Opaque('error'))))
            return out
        g = impl_of(e.p, 'deserialize', raw(c))
        return None if g is None else e.run_fn(g, [vals[0]], st, 'inline')
    if n == 'serialize' and tr == 'BorshSerialize' and base_name(norm(c['selfty'] or '')) == 'Option':
        t = norm(c['selfty'])
        it = generic_args(t)[0]
        x = base(e, st, vals[0])[1]
        r, b = base(e, st, vals[1])
        if not isinstance(b, BBuf):
            return None
        out = []
        for s1, some in e.branch(st, EQ(e.discr(x), 1)):
            e.store(s1, r, BBuf(b.segs + ((1, 'u8', 1 if some else 0),)))
            if not some:
                out.append((s1, res_ok(dty, UNIT)))
                continue
            v = e.alloc(s1, e.get(e.get(x, ('v', 'Some')), 0), 'val')
            out += e.call('<%s as BorshSerialize>::serialize' % it, [v, vals[1]], ['&' + it, tys[1]], dty, s1, span)
        return out
    if n == 'serialize' and tr == 'BorshSerialize' and norm(c['selfty'] or '') not in PRIM:
        g = impl_of(e.p, 'serialize', raw(c))
        if g is not None and isinstance(base(e, st, vals[1])[1], BBuf):
            return e.run_fn(g, list(vals), st, 'inline')
    if n == 'concat' and vals:
        x = base(e, st, vals[0])[1]
        items = [x.f[('i', i)] for i in range(len(x.f))] if isinstance(x, Node) else getattr(x, 'items', None)
        if items and len(items) == 2:
            a, b = base(e, st, items[0])[1], base(e, st, items[1])[1]
            if isinstance(a, (PS, AS)) and isinstance(b, Node):
                return [(st, a.pad([b.f[('i', i)] for i in range(len(b.f))]))]
        raise Unsupported('concat')
    if vals and isinstance(vals[0], (Ref, PS, AS)):
        r, s = base(e, st, vals[0])
        if isinstance(s, (PS, AS)):
            if n == 'pop':
                e.store(st, r, s.pop())
                return [(st, Opaque('popped'))]
            if n in ('deref', 'as_slice', 'as_ref', 'borrow'):
                return [(st, r if r is not None else s)]
            if n == 'is_empty':
                return [(st, s.end(e, st))]
            raise Unsupported('%s of the bytes of a packet' % n)
    return bytes_hook(e, c, vals, tys, dty, st, span)

class Packet:
    def __init__(self, p, variant=None):
        self.p, self.variant = p, variant
        self.name = 'decode_order_packet[%s]' % (variant or 'any bytes')
        self.eng = e = PEng(p)
        e.tag = -1
        e.pre_hook = hook
        del e.contracts[(None, 'decode_order_packet')]
        fs = [f for f in p.by_last['decode_order_packet'] if f.kind == 'fn']
        if len(fs) != 1:
            raise Unsupported('decode_order_packet')
        self.f = fs[0]
        ar = impl_of(p, 'serialize', re.match(r'^(?:std::option::)?Option<(.*)>$', self.f.ret).group(1))
        if ar is None:
            raise Unsupported('serialize of OrderPacket')
        self.ser = ar
    def ty(self):
        return norm(generic_args(self.f.ret)[0])
    def encode(self, st, x):
        """[(state, pieces)]: the real serialiser"""
        e = self.eng
        b = e.alloc(st, BBuf(), 'out')
        r = e.alloc(st, x, 'packet')
        out = []
        for s, q in e.run_fn(self.ser, [r, b], st, 'inline'):
            if const_int(e.discr(q)) != 0:
                raise Unsupported('serialisation may fail')
            out.append((s, e.load(s, b).segs))
        return out
    def fields(self, v):
        return self.p.structs[base_name(self.ty()) + '::'][v]
    def run(self):
        if self.variant:
            self.forward()
        else:
            self.backward()
    # every packet of the variant, in every shape, and its older encodings
    def forward(self):
        e, v = self.eng, self.variant
        fs = self.fields(v)
        i = self.p.enums['OrderPacket'].index(v)
        opts = [j for j, (n, t) in enumerate(fs) if base_name(norm(t)) == 'Option']
        for pat in itertools.product((0, 1), repeat=len(opts)):
            pl = {}
            for j, (n, t) in enumerate(fs):
                t = norm(t)
                if j in opts:
                    q = pat[opts.index(j)]
                    pl[j] = opt_some(t, e.mk('x.%s' % n, generic_args(t)[0])) if q else opt_none(t)
                else:
                    pl[j] = e.mk('x.%s' % n, t)
            x = Node(self.ty(), {'d': i, ('v', v): Node(('variant', self.ty(), v), pl)})
            st = State()
            for s, segs in self.encode(st, x):
                self.decode(s.fork(), segs, x, 'C23|decoding the encoding of a packet gives that packet')
                # the encodings without the later optional fields
                last = [n for n, t in fs]
                tail = 0
                while last and last[-1] in ('fail_silently_on_insufficient_funds', 'last_valid_unix_timestamp_in_seconds', 'last_valid_slot'):
                    n = last.pop()
                    j = len(last)
                    if j in opts and pat[opts.index(j)]:
                        break
                    tail += 1
                    s1 = s.fork()
                    ok = True
                    for (ln, k, val), jj in zip(reversed(segs), range(tail)):
                        e.assume(s1, b_not(val) if k == 'bool' else EQ(val, 0))
                    self.decode(s1, segs[:-tail], x, 'C23|an older encoding without the later fields decodes to the packet with those fields unset')
                if not tail and not any(pat):
                    raise Unsupported('no older encoding')
    def decode(self, st, pieces, x, label):
        e = self.eng
        n = 0
        for s, r in e.run_fn(self.f, [e.alloc(st, PS(pieces), 'bytes')], st):
            n += 1
            some = EQ(e.discr(r), 1)
            e.oblige(s, label, some, where=self.name)
            if const_bool(some) is not False:
                y = e.get(e.get(r, ('v', 'Some')), 0)
                e.oblige(s, label, IMP(some, eq_val(e, s, y, s, x)), where=self.name)
        if not n:
            raise Unsupported('decoding never returns')
    # every byte string that is accepted
    def backward(self):
        e = self.eng
        st = State()
        n = e.int_const('bytes.len', 'usize')
        e.no_merge += 1
        k = 0
        for s, r in e.run_fn(self.f, [e.alloc(st, AS(n), 'bytes')], st):
            d = const_int(e.discr(r))
            if d == 0:
                continue
            dec = [x for x in s.trace if x[0] == 'decoded']
            L = 'C23|only the encoding of a packet, complete or without at most three zero bytes at its end, is accepted'
            e.oblige(s, L, len(dec) >= 1 and dec[-1][1].k <= 3, where=self.name)
            if not dec:
                continue
            k += 1
            z = dec[-1][1]
            x = e.get(e.get(r, ('v', 'Some')), 0)
            for s1, segs in self.encode(s.fork(), x):
                good = len(segs) == len(z.log) and all(a[0] == b[0] for a, b in zip(segs, z.log))
                e.oblige(s1, L, AND(*([EQ(i_ite(zB(a[2]), 1, 0) if a[1] == 'bool' else a[2], b[2]) for a, b in zip(segs, z.log)] if good else [False])), where=self.name)
        if not k:
            raise Unsupported('nothing is accepted')
