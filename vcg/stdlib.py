"""Summaries (assumed contracts) of functions outside the crate: core/alloc, solana_program, spl_token, lib-sokoban."""
import re, z3
from sym import *
from maps import OrderBook, Traders, Schema, mk_key, less
from mir import norm, base_name, generic_args, split_top

I, B = z3.IntSort(), z3.BoolSort()

NOEFFECT = {'_print', 'sol_log', 'sol_log_compute_units', 'sol_log_64', 'caller', 'format', 'new_const', 'new_v1', 'new_v1_formatted', 'new_debug', 'new_display', 'log_impl'}

def opt_some(dty, v):
    d = dty if dty and base_name(dty) == 'Option' else 'Option'
    return Node(d, {'d': 1, ('v', 'Some'): Node(('variant', d, 'Some'), {0: v})})

def opt_none(dty):
    return Node(dty if dty and base_name(dty) == 'Option' else 'Option', {'d': 0})

def res_ok(dty, v):
    d = dty if dty and base_name(dty) == 'Result' else 'Result'
    return Node(d, {'d': 0, ('v', 'Ok'): Node(('variant', d, 'Ok'), {0: v})})

def res_err(dty, v):
    d = dty if dty and base_name(dty) == 'Result' else 'Result'
    return Node(d, {'d': 1, ('v', 'Err'): Node(('variant', d, 'Err'), {0: v})})

def payload(eng, v, variant, i=0):
    return eng.get(eng.get(v, ('v', variant)), i)

def cases(eng, st, v, first):
    """split on an Option/Result: first = discriminant value tested"""
    d = eng.discr(v)
    return eng.branch(st, cmp_op('Eq', d, first))

def bool_opt(c, dty, v):
    k = const_bool(c)
    if k is True:
        return opt_some(dty, v)
    if k is False:
        return opt_none(dty)
    d = dty if dty and base_name(dty) == 'Option' else 'Option'
    return Node(d, {'d': z3.If(c, z3.IntVal(1), z3.IntVal(0)), ('v', 'Some'): Node(('variant', d, 'Some'), {0: v})})

# ------------------------------------------------------------------ iterators
class It:
    """iterator pipeline. src: ('list', [items]) concrete; ('abs', vec, elemref-maker) unknown length; ('book', mapref)"""
    selobj = None
    def __init__(self, src, stages=()):
        self.src, self.stages = src, tuple(stages)
    def same(self, o):
        return isinstance(o, It) and self.src[0] == o.src[0] and len(self.src) == len(o.src) and all(a is b or same(a, b) for a, b in zip(self.src[1:], o.src[1:])) and self.stages == o.stages
    def havoc(self, eng, st, nm):
        if self.src[0] == 'book':
            raise Unsupported('a loop over an order book')
        return self
    def add(self, s):
        return It(self.src, self.stages + (s,))
    def __repr__(self):
        return 'It(%s,%s)' % (self.src[0], [s[0] for s in self.stages])

class Sel:
    """Vec<order id> collected from an order book: the set of keys satisfying a predicate. `take(n)` keeps the keys whose
    rank (number of earlier kept keys) is below n; a rank is an unknown function of the set it counts (see ranks())"""
    distinct = True
    def __init__(self, parts, name):
        self.parts, self.name = parts, name        # parts: [(side, book, ref, stages, probe)]
    def at(self, f, probe, k):
        c = z3.is_app_of(k, z3.Z3_OP_DT_CONSTRUCTOR)
        return z3.substitute(f, (probe.arg(0), k.arg(0) if c else OrdKey.price(k)), (probe.arg(1), k.arg(1) if c else OrdKey.seq(k)))
    def rank(self, i, j):
        return z3.Const('rank.%s.%d.%d' % (self.name, i, j), z3.ArraySort(OrdKey, I))
    def prefix(self, i, k, n=None):
        """the keys of part i that reach stage n"""
        side, m, ref, stages, probe = self.parts[i]
        g = [m.dom[k]]
        for j, sg in enumerate(stages[:n]):
            if sg[0] == 'filter':
                g.append(self.at(sg[1], probe, k))
            elif sg[0] == 'take':
                g.append(self.rank(i, j)[k] < sg[1])
            else:
                raise Unsupported('iterator stage %s' % sg[0])
        return z3.And(*g)
    def takes(self):
        return [(i, j) for i, p in enumerate(self.parts) for j, sg in enumerate(p[3]) if sg[0] == 'take']
    def facts(self):
        """ranks count a subset of the book"""
        for i, j in self.takes():
            r, m = self.rank(i, j), self.parts[i][1]
            yield Schema('ord', lambda k, r=r, i=i, j=j, m=m: z3.And(r[k] >= 0, z3.Implies(self.prefix(i, k, j), r[k] < m.n)), 'rank')
    def member(self, k):
        fs = [self.prefix(i, k) for i in range(len(self.parts))]
        return z3.Or(*fs) if len(fs) > 1 else fs[0]
    def same(self, o):
        return self is o
    def havoc(self, eng, st, nm):
        return self
    def length(self):
        raise Unsupported('length of selection')

class ListSel:
    """caller-supplied list of order ids (may repeat, may name absent orders)"""
    distinct = False
    def __init__(self, name):
        self.name = name
        self.mem = z3.Const(name + '.member', z3.ArraySort(OrdKey, B))
    def member(self, k):
        return self.mem[k]

class AVec:
    """growable vector whose elements are not tracked individually (ghost: symbolic length)"""
    def __init__(self, ty, name, n=None):
        self.ty, self.name, self.n = ty, name, n
    def same(self, o):
        return isinstance(o, AVec) and o.name == self.name and same(self.n, o.n)
    def havoc(self, eng, st, nm):
        eng.ranges[nm + '.len'] = (0, 2**40)
        return AVec(self.ty, nm, z3.Int(nm + '.len'))
    def proj(self, eng, k, ty=None):
        if isinstance(k, tuple) and k[0] == 'i':
            return eng.mk('%s[%s]' % (self.name, k[1]), elem_ty(self.ty))
        return Lazy('%s.%s' % (self.name, k), '?')
    def proj_put(self, eng, k, rest, val):
        return AVec(self.ty, eng.fresh('vec'), self.n)
    def length(self):
        return self.n

class LVec:
    """vector with concretely known elements"""
    def __init__(self, items, ty='Vec'):
        self.items, self.ty = list(items), ty
    def same(self, o):
        return isinstance(o, LVec) and len(o.items) == len(self.items) and all(same(a, b) for a, b in zip(self.items, o.items))
    def havoc(self, eng, st, nm):
        eng.ranges[nm + '.len'] = (0, 2**40)
        return AVec(self.ty, nm, z3.Int(nm + '.len'))
    def proj(self, eng, k, ty=None):
        if isinstance(k, tuple) and k[0] == 'i' and isinstance(k[1], int) and k[1] < len(self.items):
            return self.items[k[1]]
        raise Unsupported('vector element %r' % (k,))
    def proj_put(self, eng, k, rest, val):
        if isinstance(k, tuple) and k[0] == 'i' and isinstance(k[1], int) and k[1] < len(self.items):
            it = list(self.items)
            it[k[1]] = eng.put(it[k[1]], rest, val)
            return LVec(it, self.ty)
        raise Unsupported('vector store %r' % (k,))
    def length(self):
        return len(self.items)

def elem_ty(t):
    if not t:
        return '?'
    b = base_name(t)
    g = generic_args(t)
    if b in ('Vec', 'IntoIter', 'Iter') and g:
        return g[-1]
    if t.startswith('['):
        return re.match(r'^\[(.*?)(?:; .*)?\]$', t).group(1)
    return '?'

def strip_ref(t):
    if t and t.startswith('&'):
        t = t[1:].strip()
        return t[4:] if t.startswith('mut ') else t
    return t

def wrapper_target(eng, st, v):
    """Ref<..>/RefMut<..>/Rc<..>/Box<..> values are represented by the reference they hold"""
    x = eng.load(st, v) if isinstance(v, Ref) else v
    return x

# ------------------------------------------------------------------ order / equality on any type
def ordering(c_lt, c_eq):
    return i_ite(c_eq, 0, i_ite(c_lt, -1, 1))

def scal(x):
    return isinstance(x, (int, bool)) or isz(x)

def value_eq(eng, st, a, b, depth=0):
    if isinstance(a, Ref) and isinstance(b, Ref):
        a, b = eng.load(st, a), eng.load(st, b)
    if scal(a) and scal(b):
        if isz(a) and a.sort() == Key or isz(b) and b.sort() == Key:
            return a == b
        return cmp_op('Eq', a, b)
    if isinstance(a, Str) and isinstance(b, Str):
        return a.s == b.s
    raise Unsupported('equality of %r and %r' % (a, b))

def pre(eng, c, vals, tys, dty, st, span):
    n, s, tr = c['name'], c['self'], c['trait']
    if n in ('call_mut', 'call_once', 'call') and tr in ('FnMut', 'FnOnce', 'Fn'):
        fv = vals[0]
        argt = vals[1]
        args = [argt.f[i] for i in range(len(argt.f))] if isinstance(argt, Node) else []
        if isinstance(fv, Ref):
            v = eng.load(st, fv)
            while isinstance(v, Ref):
                fv = v
                v = eng.load(st, fv)
            return eng.invoke(fv, args, st, dty)
        return eng.invoke(fv, args, st, dty)
    if n in NOEFFECT and not (s and s in eng.p.structs):
        return [(st, Opaque(n))]
    if c['selfty'] and ('fmt::' in (c['selfty'] or '') or s in ('Arguments', 'Argument', 'Placeholder')):
        return [(st, Opaque('fmt'))]
    return None

def call(eng, c, vals, tys, dty, st, span):
    n, s, tr = c['name'], c['self'], c['trait']
    h = getattr(eng, 'std_hook', None)
    if h:
        r = h(eng, c, vals, tys, dty, st, span)
        if r is not None:
            return r
    # ---- Try
    if tr == 'Try' and n == 'branch':
        v = vals[0]
        out = []
        if s == 'Option':
            for ns, some in cases(eng, st, v, 1):
                if some:
                    out.append((ns, Node(dty, {'d': 0, ('v', 'Continue'): Node(('variant', dty, 'Continue'), {0: payload(eng, v, 'Some')})})))
                else:
                    out.append((ns, Node(dty, {'d': 1, ('v', 'Break'): Node(('variant', dty, 'Break'), {0: opt_none('Option')})})))
            return out
        for ns, ok in cases(eng, st, v, 0):
            if ok:
                out.append((ns, Node(dty, {'d': 0, ('v', 'Continue'): Node(('variant', dty, 'Continue'), {0: payload(eng, v, 'Ok')})})))
            else:
                out.append((ns, Node(dty, {'d': 1, ('v', 'Break'): Node(('variant', dty, 'Break'), {0: res_err('Result', payload(eng, v, 'Err'))})})))
        return out
    if tr == 'FromResidual':
        if s == 'Option':
            return [(st, opt_none(dty))]
        e = vals[0]
        try:
            e = payload(eng, e, 'Err')
        except Unsupported:
            e = Opaque('error')
        return [(st, res_err(dty, e))]
    if s == 'Option':
        r = option(eng, c, vals, dty, st)
        if r is not None:
            return r
    if s == 'Result':
        r = result(eng, c, vals, dty, st)
        if r is not None:
            return r
    # ---- comparison operators
    if tr == 'PartialOrd' and n in ('lt', 'le', 'gt', 'ge'):
        return compare(eng, c, vals, tys, st, span, n)
    if tr == 'PartialOrd' and n == 'partial_cmp':
        a, b = eng.load(st, vals[0]), eng.load(st, vals[1])
        if scal(a) and scal(b):
            return [(st, opt_some('Option<Ordering>', Node('Ordering', {'d': ordering(cmp_op('Lt', a, b), cmp_op('Eq', a, b))})))]
    if tr == 'Ord' and n == 'cmp':
        a, b = eng.load(st, vals[0]), eng.load(st, vals[1])
        if scal(a) and scal(b):
            return [(st, Node('Ordering', {'d': ordering(cmp_op('Lt', a, b), cmp_op('Eq', a, b))}))]
    if n in ('min', 'max') and (tr == 'Ord' or c.get('mod', '').endswith('cmp')):
        a, b = vals
        if scal(a) and scal(b):
            k = cmp_op('Le', a, b)
            return [(st, i_ite(k, a, b) if n == 'min' else i_ite(k, b, a))]
        ra, rb = eng.alloc(st, a, 'cmpa'), eng.alloc(st, b, 'cmpb')
        res = compare(eng, c, [ra, rb], tys, st, span, 'le')
        out = []
        for ns, k in res:
            try:
                out.append((ns, eng.ite_val(k, a, b) if n == 'min' else eng.ite_val(k, b, a)))
            except Unsupported:
                for n2, t in eng.branch(ns, k):
                    out.append((n2, (a if t else b) if n == 'min' else (b if t else a)))
        return out
    if tr == 'PartialEq' and n in ('eq', 'ne'):
        r = equal(eng, c, vals, tys, st, span)
        if r is not None:
            return [(ns, b_not(x) if n == 'ne' else x) for ns, x in r]
    if tr == 'Clone' and n == 'clone' or (n == 'cloned' or n == 'copied') and s == 'Option':
        if isinstance(vals[0], Ref):
            return [(st, eng.load(st, vals[0]))]
        return [(st, vals[0])]
    if tr in ('Deref', 'DerefMut', 'AsRef', 'AsMut', 'Borrow', 'BorrowMut') or n in ('as_slice', 'as_mut_slice', 'as_bytes', 'as_str'):
        v = vals[0]
        if isinstance(v, Ref):
            inner = eng.load(st, v)
            if isinstance(inner, Ref):
                return [(st, inner)]
            return [(st, v)]
        if isinstance(v, (Str, Opaque)):
            return [(st, v)]
    if tr in ('Into', 'From') or (tr == 'IntoIterator' and n == 'into_iter'):
        if tr == 'IntoIterator':
            return iter_call(eng, c, vals, tys, dty, st, span)
        v = vals[0]
        if scal(v) and norm(dty) in INT:
            return [(st, v)]
        if dty and base_name(dty) in ('ProgramError', 'String', 'Error'):
            return [(st, Opaque('error'))]
        src = c['selfty'] if tr == 'Into' else (c['traitargs'][0] if c['traitargs'] else None)
        if tr == 'Into':
            g = eng.resolve_local({'raw': '', 'self': base_name(dty), 'trait': 'From', 'name': 'from', 'targs': [], 'traitargs': [c['selfty']], 'selfty': dty, 'dyn': False}, tys, dty, vals)
            if g is None:
                cand = [f for f in eng.p.by_last.get('from', []) if f.kind == 'fn' and len(f.argtys) == 1 and norm(f.argtys[0]) == norm(c['selfty'] or '?') and norm(f.ret) == norm(dty)]
                g = cand[0] if len(cand) == 1 else None
            if g is not None:
                return eng.run_fn(g, vals, st, 'inline')
        if same(norm(dty), norm(src or '')):
            return [(st, v)]
        if isinstance(v, (Opaque, Str)):
            return [(st, v)]
    if tr == 'Default' and n == 'default':
        t = norm(c['selfty'])
        if t in INT:
            return [(st, 0)]
        if t == 'bool':
            return [(st, False)]
        if base_name(t) == 'Option':
            return [(st, opt_none(t))]
        if t.startswith('['):
            return [(st, Lazy('zero.' + t, t))]
        if base_name(t) == 'Vec':
            return [(st, LVec([], t))]
    # ---- integers
    if s in INT or (c.get('mod') or '').split('::')[-1] in INT:
        r = integer(eng, c, vals, tys, dty, st, s if s in INT else c['mod'].split('::')[-1])
        if r is not None:
            return r
    if n in ('size_of', 'align_of'):
        return [(st, eng.size_of(c['targs'][0] if c['targs'] else '?') if n == 'size_of' else 8)]
    if n in ('drop', 'forget', 'type_name') and tr is None:
        return [(st, UNIT if n != 'type_name' else Opaque('type name'))]
    if n == 'replace' and len(vals) == 2 and (c.get('mod') or '').endswith('mem'):
        old = eng.load(st, vals[0])
        eng.store(st, vals[0], vals[1])
        return [(st, old)]
    if n == 'take' and (c.get('mod') or '').endswith('mem'):
        old = eng.load(st, vals[0])
        eng.store(st, vals[0], 0 if scal(old) else eng.mk(eng.fresh('taken'), strip_ref(tys[0])))
        return [(st, old)]
    if n == 'swap' and (c.get('mod') or '').endswith('mem'):
        a, b = eng.load(st, vals[0]), eng.load(st, vals[1])
        eng.store(st, vals[0], b)
        eng.store(st, vals[1], a)
        return [(st, UNIT)]
    if n == 'exchange_malloc':
        return [(st, eng.alloc(st, Node('?box', {}), 'box'))]
    if s == 'bool' and n in ('then', 'then_some'):
        out = []
        for ns, t in eng.branch(st, vals[0]):
            if not t:
                out.append((ns, opt_none(dty)))
            elif n == 'then_some':
                out.append((ns, opt_some(dty, vals[1])))
            else:
                out += [(n2, opt_some(dty, v)) for n2, v in eng.invoke(vals[1], [], ns, '?')]
        return out
    r = tree_call(eng, c, vals, tys, dty, st, span)
    if r is not None:
        return r
    r = iter_call(eng, c, vals, tys, dty, st, span)
    if r is not None:
        return r
    r = vec_call(eng, c, vals, tys, dty, st, span)
    if r is not None:
        return r
    if s == 'Ordering':
        if n in ('reverse',):
            return [(st, Node('Ordering', {'d': i_sub(0, eng.discr(vals[0]))}))]
        if n in ('is_lt', 'is_gt', 'is_le', 'is_ge', 'is_eq', 'is_ne'):
            op = {'is_lt': 'Lt', 'is_gt': 'Gt', 'is_le': 'Le', 'is_ge': 'Ge', 'is_eq': 'Eq', 'is_ne': 'Ne'}[n]
            return [(st, cmp_op(op, eng.discr(vals[0]), 0))]
        if n in ('then', 'then_with'):
            a = eng.discr(vals[0])
            if n == 'then':
                return [(st, Node('Ordering', {'d': i_ite(cmp_op('Eq', a, 0), eng.discr(vals[1]), a)}))]
            out = []
            for ns, z in eng.branch(st, cmp_op('Eq', a, 0)):
                out += eng.invoke(vals[1], [], ns, 'Ordering') if z else [(ns, vals[0])]
            return out
    return None

def compare(eng, c, vals, tys, st, span, op):
    a, b = vals
    va, vb = eng.load(st, a), eng.load(st, b)
    while isinstance(va, Ref):
        a, va = va, eng.load(st, va)
    while isinstance(vb, Ref):
        b, vb = vb, eng.load(st, vb)
    if scal(va) and scal(vb):
        return [(st, cmp_op(op.capitalize(), va, vb))]
    cc = dict(c)
    cc['name'], cc['trait'] = 'partial_cmp', 'PartialOrd'
    t = c['selfty']
    while t.startswith('&'):
        t = strip_ref(t)
    cc['selfty'], cc['self'], cc['traitargs'] = t, base_name(t), []
    g = eng.resolve_local(cc, ['&' + t, '&' + t], 'Option<Ordering>', [a, b])
    if g is None:
        raise Unsupported('comparison on %s' % t)
    out = []
    for ns, r in eng.run_fn(g, [a, b], st, 'inline'):
        d = eng.discr(r)
        o = eng.discr(payload(eng, r, 'Some'))
        k = {'lt': cmp_op('Lt', o, 0), 'le': cmp_op('Le', o, 0), 'gt': cmp_op('Gt', o, 0), 'ge': cmp_op('Ge', o, 0)}[op]
        out.append((ns, b_and(cmp_op('Eq', d, 1), k)))
    return out

def equal(eng, c, vals, tys, st, span):
    a, b = vals
    va, vb = eng.load(st, a), eng.load(st, b)
    while isinstance(va, Ref):
        a, va = va, eng.load(st, va)
    while isinstance(vb, Ref):
        b, vb = vb, eng.load(st, vb)
    if scal(va) and scal(vb):
        if (isz(va) and va.sort() == Key) or (isz(vb) and vb.sort() == Key):
            if not (isz(va) and isz(vb) and va.sort() == vb.sort()):
                raise Unsupported("comparison of %s and %s" % (str(va)[:60], str(vb)[:60]))
            return [(st, va == vb)]
        return [(st, cmp_op('Eq', va, vb))]
    if isinstance(va, Str) and isinstance(vb, Str):
        return [(st, va.s == vb.s)]
    t = c['selfty']
    while t.startswith('&'):
        t = strip_ref(t)
    if t.startswith('[') and all(isinstance(x, (Lazy, Opaque, Node)) for x in (va, vb)):
        nm = sorted(x.name if isinstance(x, Lazy) else '?' for x in (va, vb))
        if any(x.startswith('trader.pad') for x in nm):
            return [(st, True)]         # padding is only ever written with zeros
        return [(st, z3.Bool('eq(%s,%s)' % tuple(nm)))]
    bn = base_name(t)
    if bn == 'Option':
        da, db = eng.discr(va), eng.discr(vb)
        out = []
        for ns, e in eng.branch(st, cmp_op('Eq', da, db)):
            if not e:
                out.append((ns, False))
                continue
            for n2, some in eng.branch(ns, cmp_op('Eq', da, 1)):
                if not some:
                    out.append((n2, True))
                else:
                    pa, pb = payload(eng, va, 'Some'), payload(eng, vb, 'Some')
                    if scal(pa) and scal(pb):
                        out.append((n2, pa == pb if isz(pa) and pa.sort() == Key else cmp_op('Eq', pa, pb)))
                    else:
                        ra, rb = eng.alloc(n2, pa), eng.alloc(n2, pb)
                        g = generic_args(t)
                        cc = eng.parse_callee('<%s as PartialEq>::eq' % (g[0] if g else '?'))
                        out += eng.call(cc['raw'], [ra, rb], ['&' + g[0]] * 2, 'bool', n2, span)
        return out
    if bn in eng.p.enums and not eng.p.structs.get(bn + '::') or bn == 'Ordering':
        return [(st, cmp_op('Eq', eng.discr(va), eng.discr(vb)))]
    cc = eng.parse_callee('<%s as PartialEq>::eq' % t)
    cc = dict(cc)
    cc['traitargs'] = c['traitargs']
    g = eng.resolve_local(cc, ['&' + t, '&' + t], 'bool', [a, b])
    if g is not None:
        return eng.run_fn(g, [a, b], st, 'inline')
    vs = eng.p.enums.get(bn)
    if vs is not None:
        return [(st, cmp_op('Eq', eng.discr(va), eng.discr(vb)))]
    if isinstance(va, (Opaque, Lazy, AVec)) or isinstance(vb, (Opaque, Lazy, AVec)):
        return [(st, z3.Bool(eng.fresh('opaque_eq')))]
    return None

def option(eng, c, vals, dty, st):
    n = c['name']
    v = vals[0]
    if n in ('as_ref', 'as_mut', 'as_deref'):
        x = eng.load(st, v)
        d = eng.discr(x)
        return [(st, Node(dty, {'d': d, ('v', 'Some'): Node(('variant', dty, 'Some'), {0: v.sub(('v', 'Some'), 0)})}))]
    if n in ('is_some', 'is_none'):
        x = eng.load(st, v) if isinstance(v, Ref) else v
        return [(st, cmp_op('Eq', eng.discr(x), 1 if n == 'is_some' else 0))]
    if n in ('clone', 'default', 'eq', 'ne', 'partial_cmp', 'from'):
        return None
    if n in ('cloned', 'copied'):
        d = eng.discr(v)
        kc = const_int(d)
        if kc == 0:
            return [(st, opt_none(dty))]
        p = payload(eng, v, 'Some')
        out = []
        for ns, some in eng.branch(st, cmp_op('Eq', d, 1)):
            out.append((ns, opt_some(dty, eng.load(ns, p)) if some else opt_none(dty)))
        return out
    if n == 'take' or n == 'replace':
        x = eng.load(st, v)
        eng.store(st, v, opt_none(x.ty) if n == 'take' else opt_some(x.ty, vals[1]))
        return [(st, x)]
    if n == 'filter':
        out = []
        for ns, some in cases(eng, st, v, 1):
            if not some:
                out.append((ns, opt_none(dty)))
                continue
            p = payload(eng, v, 'Some')
            for n2, k in eng.invoke(vals[1], [eng.alloc(ns, p)], ns, 'bool'):
                for n3, t in eng.branch(n2, k):
                    out.append((n3, opt_some(dty, p) if t else opt_none(dty)))
        return out
    if n in ('unwrap', 'expect', 'unwrap_unchecked'):
        d = eng.discr(v)
        if const_int(d) == 0:
            return []
        eng.assume(st, cmp_op('Eq', d, 1))
        return [(st, payload(eng, v, 'Some'))]
    if n in ('unwrap_or', 'unwrap_or_default'):
        d = eng.discr(v)
        kc = const_int(d)
        alt = vals[1] if n == 'unwrap_or' else None
        if kc == 1:
            return [(st, payload(eng, v, 'Some'))]
        if alt is None:
            if norm(dty) in INT:
                alt = 0
            elif norm(dty) == 'bool':
                alt = False
            else:
                r = eng.call('<%s as Default>::default' % dty, [], [], dty, st, eng.cur_span)
                if len(r) != 1:
                    return None
                st, alt = r[0]
        if kc == 0:
            return [(st, alt)]
        p = payload(eng, v, 'Some')
        try:
            return [(st, eng.ite_val(cmp_op('Eq', d, 1), p, alt))]
        except Unsupported:
            return [(ns, p if t else alt) for ns, t in eng.branch(st, cmp_op('Eq', d, 1))]
    table = {'map': ('some', 'wrap'), 'and_then': ('some', 'raw'), 'unwrap_or_else': ('none', 'raw'), 'ok_or': None, 'ok_or_else': None,
             'map_or': None, 'map_or_else': None, 'or_else': None, 'or': None, 'ok': None, 'is_some_and': None, 'xor': None, 'and': None}
    if n not in table:
        return None
    out = []
    for ns, some in cases(eng, st, v, 1):
        p = payload(eng, v, 'Some') if some else None
        if n == 'map':
            out += [(n2, opt_some(dty, x)) for n2, x in eng.invoke(vals[1], [p], ns, inner_ty(dty))] if some else [(ns, opt_none(dty))]
        elif n == 'and_then':
            out += eng.invoke(vals[1], [p], ns, dty) if some else [(ns, opt_none(dty))]
        elif n == 'and':
            out += [(ns, vals[1] if some else opt_none(dty))]
        elif n == 'unwrap_or_else':
            out += [(ns, p)] if some else eng.invoke(vals[1], [], ns, dty)
        elif n == 'ok_or':
            out += [(ns, res_ok(dty, p) if some else res_err(dty, vals[1]))]
        elif n == 'ok_or_else':
            out += [(ns, res_ok(dty, p))] if some else [(n2, res_err(dty, x)) for n2, x in eng.invoke(vals[1], [], ns, '?')]
        elif n == 'map_or':
            out += eng.invoke(vals[2], [p], ns, dty) if some else [(ns, vals[1])]
        elif n == 'map_or_else':
            out += eng.invoke(vals[2], [p], ns, dty) if some else eng.invoke(vals[1], [], ns, dty)
        elif n == 'or_else':
            out += [(ns, v)] if some else eng.invoke(vals[1], [], ns, dty)
        elif n == 'or':
            out += [(ns, v if some else vals[1])]
        elif n == 'is_some_and':
            out += eng.invoke(vals[1], [p], ns, 'bool') if some else [(ns, False)]
        else:
            return None
    return merge_pairs(eng, out)

def merge_pairs(eng, out):
    return out

def inner_ty(t):
    g = generic_args(t) if t else None
    return g[0] if g else '?'

def result(eng, c, vals, dty, st):
    n = c['name']
    v = vals[0]
    if n in ('is_ok', 'is_err'):
        x = eng.load(st, v) if isinstance(v, Ref) else v
        return [(st, cmp_op('Eq', eng.discr(x), 0 if n == 'is_ok' else 1))]
    if n == 'as_ref':
        x = eng.load(st, v)
        return [(st, Node(dty, {'d': eng.discr(x), ('v', 'Ok'): Node(('variant', dty, 'Ok'), {0: v.sub(('v', 'Ok'), 0)}), ('v', 'Err'): Node(('variant', dty, 'Err'), {0: v.sub(('v', 'Err'), 0)})}))]
    if n in ('unwrap', 'expect'):
        d = eng.discr(v)
        if const_int(d) == 1:
            return []
        eng.assume(st, cmp_op('Eq', d, 0))
        return [(st, payload(eng, v, 'Ok'))]
    if n not in ('ok', 'err', 'map', 'map_err', 'and_then', 'unwrap_or', 'unwrap_or_else', 'or', 'or_else', 'unwrap_or_default', 'map_or', 'map_or_else'):
        return None
    d = eng.discr(v)
    if n == 'ok' and const_int(d) is None:
        return [(st, Node(dty, {'d': i_sub(1, d), ('v', 'Some'): Node(('variant', dty, 'Some'), {0: payload(eng, v, 'Ok')})}))]
    out = []
    for ns, ok in cases(eng, st, v, 0):
        p = payload(eng, v, 'Ok') if ok else payload(eng, v, 'Err')
        if n == 'ok':
            out.append((ns, opt_some(dty, p) if ok else opt_none(dty)))
        elif n == 'err':
            out.append((ns, opt_none(dty) if ok else opt_some(dty, p)))
        elif n == 'map':
            out += [(n2, res_ok(dty, x)) for n2, x in eng.invoke(vals[1], [p], ns, inner_ty(dty))] if ok else [(ns, res_err(dty, p))]
        elif n == 'map_err':
            out += [(ns, res_ok(dty, p))] if ok else [(n2, res_err(dty, x)) for n2, x in eng.invoke(vals[1], [p], ns, '?')]
        elif n == 'and_then':
            out += eng.invoke(vals[1], [p], ns, dty) if ok else [(ns, res_err(dty, p))]
        elif n == 'unwrap_or':
            out.append((ns, p if ok else vals[1]))
        elif n == 'unwrap_or_default':
            out.append((ns, p if ok else 0))
        elif n == 'unwrap_or_else':
            out += [(ns, p)] if ok else eng.invoke(vals[1], [p], ns, dty)
        elif n == 'or':
            out.append((ns, v if ok else vals[1]))
        elif n == 'or_else':
            out += [(ns, v)] if ok else eng.invoke(vals[1], [p], ns, dty)
        else:
            return None
    return out

def integer(eng, c, vals, tys, dty, st, t):
    n, tr = c['name'], c['trait']
    lo, hi = INT[t]
    if tr in ('Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitAnd', 'BitOr', 'Shl', 'Shr'):
        vs = [eng.load(st, v) if isinstance(v, Ref) else v for v in vals]
        if tr in ('Add', 'Sub', 'Mul'):
            r = {'Add': i_add, 'Sub': i_sub, 'Mul': i_mul}[tr](*vs)
            eng.assume(st, b_and(cmp_op('Le', lo, r), cmp_op('Le', r, hi)))
            return [(st, r)]
        return [(st, eng.binop(st, tr, vs[0], vs[1], t))]
    if tr in ('AddAssign', 'SubAssign'):
        old = eng.load(st, vals[0])
        b = eng.load(st, vals[1]) if isinstance(vals[1], Ref) else vals[1]
        r = i_add(old, b) if tr == 'AddAssign' else i_sub(old, b)
        eng.assume(st, b_and(cmp_op('Le', lo, r), cmp_op('Le', r, hi)))
        eng.store(st, vals[0], r)
        return [(st, UNIT)]
    if n in ('saturating_sub', 'saturating_add', 'saturating_mul'):
        r = {'s': i_sub, 'a': i_add, 'm': i_mul}[n[11]](vals[0], vals[1])
        r = i_ite(cmp_op('Lt', r, lo), lo, i_ite(cmp_op('Gt', r, hi), hi, r))
        return [(st, r)]
    if n in ('wrapping_add', 'wrapping_sub', 'wrapping_mul'):
        return [(st, eng.binop(st, {'a': 'Add', 's': 'Sub', 'm': 'Mul'}[n[9]], vals[0], vals[1], t))]
    if n in ('checked_add', 'checked_sub', 'checked_mul'):
        r = {'a': i_add, 's': i_sub, 'm': i_mul}[n[8]](vals[0], vals[1])
        return [(st, bool_opt(b_and(cmp_op('Le', lo, r), cmp_op('Le', r, hi)), dty, r))]
    if n in ('overflowing_add', 'overflowing_sub', 'overflowing_mul'):
        r = {'a': i_add, 's': i_sub, 'm': i_mul}[n[12]](vals[0], vals[1])
        ov = b_not(b_and(cmp_op('Le', lo, r), cmp_op('Le', r, hi)))
        w = eng.binop(st, {'a': 'Add', 's': 'Sub', 'm': 'Mul'}[n[12]], vals[0], vals[1], t)
        return [(st, Node(dty, {0: w, 1: ov}))]
    if n in ('checked_div', 'checked_rem'):
        a, b = vals
        out = []
        for ns, z in eng.branch(st, cmp_op('Eq', b, 0)):
            out.append((ns, opt_none(dty) if z else opt_some(dty, eng.divrem(ns, 'Div' if n == 'checked_div' else 'Rem', a, b))))
        return out
    if n == 'div_ceil':
        a, b = vals
        eng.assume(st, cmp_op('Gt', b, 0))
        q = eng.divrem(st, 'Div', i_sub(i_add(a, b), 1), b)
        return [(st, q)]
    if n == 'leading_zeros':
        bits = hi.bit_length()
        x = zI(vals[0])
        r = z3.Int('lz!%s' % abs(hash(x.sexpr())))
        eng.ranges[r.decl().name()] = (0, bits)
        eng.assume(st, z3.And((r == 0) == (x >= 2 ** (bits - 1)), (r == bits) == (x == 0)))
        return [(st, r)]
    if n == 'pow':
        a, b = const_int(vals[0]), const_int(vals[1])
        if a is not None and b is not None:
            if a ** b > hi:
                return []
            return [(st, a ** b)]
        f = z3.Function('pow_' + t, z3.IntSort(), z3.IntSort(), z3.IntSort())
        r = f(zI(vals[0]), zI(vals[1]))
        eng.assume(st, z3.And(r >= (1 if a is not None and a >= 1 else 0), r <= hi))
        return [(st, r)]
    if n in ('min', 'max'):
        k = cmp_op('Le', vals[0], vals[1])
        return [(st, i_ite(k, vals[0], vals[1]) if n == 'min' else i_ite(k, vals[1], vals[0]))]
    if n == 'try_from' and tr == 'TryFrom' or n == 'try_into':
        x = vals[0]
        tgt = t
        lo, hi = INT[tgt]
        ok = b_and(cmp_op('Le', lo, x), cmp_op('Le', x, hi))
        k = const_bool(ok)
        return [(st, Node(dty, {'d': (0 if k else 1) if k is not None else z3.If(ok, z3.IntVal(0), z3.IntVal(1)), ('v', 'Ok'): Node(('variant', dty, 'Ok'), {0: x}), ('v', 'Err'): Node(('variant', dty, 'Err'), {0: Opaque('TryFromIntError')})}))]
    if n in ('from_le_bytes', 'from_be_bytes'):
        v = vals[0]
        if isinstance(v, Lazy):
            return [(st, eng.int_const('le(%s)' % v.name, t))]
        return [(st, eng.int_const(eng.fresh('le'), t))]
    if n in ('to_le_bytes', 'to_be_bytes'):
        return [(st, Lazy(eng.fresh('bytes'), dty))]
    if n in ('is_power_of_two',):
        return [(st, z3.Bool(eng.fresh(n)))]
    if n == 'abs_diff':
        k = cmp_op('Le', vals[0], vals[1])
        return [(st, i_ite(k, i_sub(vals[1], vals[0]), i_sub(vals[0], vals[1])))]
    if n == 'from' and tr == 'From':
        x = vals[0]
        if scal(x):
            return [(st, i_ite(x, 1, 0) if isinstance(x, bool) or (isz(x) and z3.is_bool(x)) else x)]
    return None

# ------------------------------------------------------------------ red-black tree (assumed contract)
def the_map(eng, st, v):
    r = v
    m = eng.load(st, r)
    while isinstance(m, Ref):
        r = m
        m = eng.load(st, r)
    if isinstance(m, (OrderBook, Traders)):
        return r, m
    return None, None

def key_val(eng, st, m, k):
    if isinstance(k, Ref):
        k = eng.load(st, k)
    while isinstance(k, Ref):
        k = eng.load(st, k)
    if isinstance(m, Traders):
        return k
    if isz(k) and k.sort() == OrdKey:
        return k
    p = eng.get(eng.get(k, eng.field_index('FIFOOrderId', 'price_in_ticks')), 0, 'u64')
    s = eng.get(k, eng.field_index('FIFOOrderId', 'order_sequence_number'))
    return mk_key(p, s)

def key_node(eng, key):
    """OrdKey term -> FIFOOrderId value"""
    t = 'FIFOOrderId'
    if z3.is_app_of(key, z3.Z3_OP_DT_CONSTRUCTOR):
        p, s = key.arg(0), key.arg(1)
    else:
        p, s = OrdKey.price(key), OrdKey.seq(key)
    return Node(t, {eng.field_index(t, 'price_in_ticks'): Node('Ticks', {0: p}), eng.field_index(t, 'order_sequence_number'): s})

def tree_call(eng, c, vals, tys, dty, st, span):
    n = c['name']
    if not (c['self'] in ('RedBlackTree', 'OrderedNodeAllocatorMap', 'NodeAllocatorMap') or c['trait'] in ('NodeAllocatorMap', 'OrderedNodeAllocatorMap')):
        return None
    if not vals or not isinstance(vals[0], Ref):
        return None
    ref, m = the_map(eng, st, vals[0])
    if m is None:
        return None
    bk = isinstance(m, OrderBook)
    eng.used_summaries['RedBlackTree::' + n] = eng.used_summaries.get('RedBlackTree::' + n, 0) + 1
    if n == 'len' or n == 'size':
        return [(st, m.n)]
    if n == 'is_empty':
        return [(st, m.n == 0)]
    if n == 'capacity':
        return [(st, eng.int_const('cap.' + (m.side if bk else 'traders'), (1, 2**31 - 1)))]
    if n == 'initialize':
        eng.assume(st, m.n == 0)
        return [(st, UNIT)]
    def facts(k):
        for x in m.facts(eng, k):
            eng.assume(st, x)
        eng.inst(st, 'ord', k)
    if bk:
        if n in ('get', 'get_mut'):
            k = key_val(eng, st, m, vals[1])
            facts(k)
            if const_bool(z3.simplify(m.dom[k])) is False:
                return [(st, opt_none(dty))]
            return [(ns, opt_some(dty, Ref(ref.root, ref.path + (('k', k),))) if p else opt_none(dty)) for ns, p in eng.branch(st, m.dom[k])]
        if n == 'contains':
            k = key_val(eng, st, m, vals[1])
            return [(st, m.dom[k])]
        if n == 'remove':
            k = key_val(eng, st, m, vals[1])
            facts(k)
            out = []
            for ns, p in eng.branch(st, m.dom[k]):
                if p:
                    v = m.entry(eng, k)
                    eng.store(ns, ref, m.delete(k))
                    out.append((ns, opt_some(dty, v)))
                else:
                    out.append((ns, opt_none(dty)))
            return out
        if n == 'insert':
            k = key_val(eng, st, m, vals[1])
            facts(k)
            cap = eng.int_const('cap.' + m.side, (1, 2**31 - 1))
            o, l, s, t = m.fields_of(eng, st, vals[2])
            out = []
            for ns, p in eng.branch(st, m.dom[k]):
                if p:
                    eng.store(ns, ref, m.set(k, o, l, s, t, True))
                    out.append((ns, opt_some(dty, eng.int_const(eng.fresh('addr'), 'u32'))))
                    continue
                for n2, room in eng.branch(ns, m.n < cap):
                    if room:
                        eng.store(n2, ref, m.set(k, o, l, s, t, False))
                        h = getattr(eng, 'on_insert', None)
                        if h:
                            h(eng, n2, m, k)
                        out.append((n2, opt_some(dty, eng.int_const(eng.fresh('addr'), 'u32'))))
                    else:
                        out.append((n2, opt_none(dty)))
            return out
        if n in ('get_min', 'get_max'):
            out = []
            for ns, e in eng.branch(st, m.n == 0):
                if e:
                    eng.assume_all(ns, Schema('ord', lambda j, m=m: z3.Not(m.dom[j]), 'empty ' + m.name))
                    out.append((ns, opt_none(dty)))
                    continue
                nm = eng.fresh(n)
                p, s = eng.int_const(nm + '.p', 'u64'), eng.int_const(nm + '.s', 'u64')
                k = mk_key(p, s)
                eng.assume(ns, m.dom[k])
                for x in m.facts(eng, k):
                    eng.assume(ns, x)
                eng.inst(ns, 'ord', k)
                eng.inst(ns, 'tr', m.owner[k])
                if n == 'get_min':
                    eng.assume_all(ns, Schema('ord', lambda j, m=m, k=k: z3.Implies(m.dom[j], z3.Or(j == k, less(m.side, k, j))), 'min'))
                else:
                    eng.assume_all(ns, Schema('ord', lambda j, m=m, k=k: z3.Implies(m.dom[j], z3.Or(j == k, less(m.side, j, k))), 'max'))
                ty = generic_args(dty)[0] if generic_args(dty) else '(FIFOOrderId, FIFORestingOrder)'
                out.append((ns, opt_some(dty, Node(ty, {0: key_node(eng, k), 1: m.entry(eng, k)}))))
            return out
        if n == 'iter':
            return [(st, It(('book', ref, m)))]
        raise Unsupported('order book method %s' % n)
    # traders
    if n in ('get_addr', 'contains', 'get', 'get_mut'):
        k = key_val(eng, st, m, vals[1])
        for x in m.key_facts(eng, k):
            eng.assume(st, x)
        a = m.addr[k]
        if n == 'get_addr':
            return [(st, a)]
        if n == 'contains':
            return [(st, a != 0)]
        return [(ns, opt_some(dty, Ref(ref.root, ref.path + (('k', a), 1))) if p else opt_none(dty)) for ns, p in eng.branch(st, a != 0)]
    if n in ('get_node', 'get_node_mut'):
        a = zI(vals[1])
        for x in m.facts(eng, a):
            eng.assume(st, x)
        eng.inst(st, 'tr', a)
        h = getattr(eng, 'on_node_access', None)
        if h:
            h(eng, st, m, a)
        return [(st, Ref(ref.root, ref.path + (('k', a),)))]
    if n == 'insert':
        k = key_val(eng, st, m, vals[1])
        for x in m.key_facts(eng, k):
            eng.assume(st, x)
        ql, qf, bl, bf = m.state_fields(eng, vals[2])
        cap = eng.int_const('cap.traders', (1, 2**31 - 1))
        out = []
        for ns, p in eng.branch(st, m.addr[k] != 0):
            if p:
                a = m.addr[k]
                eng.store(ns, ref, m.set_state(a, ql, qf, bl, bf))
                out.append((ns, opt_some(dty, a)))
                continue
            for n2, room in eng.branch(ns, m.n < cap):
                if not room:
                    out.append((n2, opt_none(dty)))
                    continue
                a = eng.int_const(eng.fresh('newaddr'), (1, 2**31 - 1))
                eng.assume(n2, z3.Not(m.live[a]))
                b = m.copy()
                b.live = z3.Store(m.live, a, z3.BoolVal(True))
                b.key = z3.Store(m.key, a, k)
                b.addr = z3.Store(m.addr, k, a)
                b.ql, b.qf, b.bl, b.bf = z3.Store(m.ql, a, ql), z3.Store(m.qf, a, qf), z3.Store(m.bl, a, bl), z3.Store(m.bf, a, bf)
                b.tq, b.tb, b.n = m.tq + ql + qf, m.tb + bl + bf, m.n + 1
                eng.store(n2, ref, b)
                h = getattr(eng, 'on_seat_insert', None)
                if h:
                    h(eng, n2, b, a)
                out.append((n2, opt_some(dty, a)))
        return out
    if n == 'remove':
        k = key_val(eng, st, m, vals[1])
        for x in m.key_facts(eng, k):
            eng.assume(st, x)
        a = m.addr[k]
        out = []
        for ns, p in eng.branch(st, a != 0):
            if not p:
                out.append((ns, opt_none(dty)))
                continue
            h = getattr(eng, 'on_seat_remove', None)
            if h:
                h(eng, ns, m, a)
            v = eng.get(m.entry(eng, a), 1)
            b = m.copy()
            b.live = z3.Store(m.live, a, z3.BoolVal(False))
            b.addr = z3.Store(m.addr, k, z3.IntVal(0))
            b.tq, b.tb, b.n = m.tq - m.ql[a] - m.qf[a], m.tb - m.bl[a] - m.bf[a], m.n - 1
            eng.store(ns, ref, b)
            out.append((ns, opt_some(dty, v)))
        return out
    raise Unsupported('traders method %s' % n)

# ------------------------------------------------------------------ iterators
ADAPT = {'filter', 'map', 'take', 'skip', 'filter_map', 'flat_map', 'enumerate', 'rev', 'chain', 'zip', 'copied', 'cloned', 'peekable', 'by_ref', 'take_while', 'skip_while', 'inspect', 'flatten', 'step_by', 'sorted_by', 'group_by', 'sorted', 'unique'}

def seq_of(eng, st, v, byref=True):
    """sequence behind a reference -> ('list', items) or ('abs', value, ty)"""
    r = v
    x = eng.load(st, v) if isinstance(v, Ref) else v
    while isinstance(x, Ref):
        r = x
        x = eng.load(st, x)
    if isinstance(x, Sel):
        return ('sel', x)
    if isinstance(x, LVec):
        if byref and isinstance(r, Ref):
            return ('list', [r.sub(('i', i)) for i in range(len(x.items))])
        return ('list', list(x.items))
    if isinstance(x, Node) and x.base is None and isinstance(x.ty, str) and x.ty.startswith('['):
        n = len([k for k in x.f if isinstance(k, tuple) and k[0] == 'i'])
        if byref and isinstance(r, Ref):
            return ('list', [r.sub(('i', i)) for i in range(n)])
        return ('list', [x.f[('i', i)] for i in range(n)])
    if isinstance(x, AVec):
        return ('abs', x, elem_ty(x.ty), byref)
    if isinstance(x, Lazy):
        return ('abs', x, elem_ty(x.ty), byref)
    return None

def apply_key_pred(eng, st, book, ref, stages, key):
    """run the filter stages on one symbolic entry; -> formula over the entry and the state (or Unsupported)"""
    n0 = next(eng.fresh_n)
    eng.no_merge += 1
    try:
        r = apply_key_pred0(eng, st, book, ref, stages, key)
    finally:
        eng.no_merge -= 1
    seen, todo = set(), [r[0]] if isz(r[0]) else []
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            m = re.search(r'!(\d+)$', x.decl().name())
            if m and int(m.group(1)) > n0:
                raise Unsupported('a filter predicate with auxiliary unknowns')
        todo += x.children()
    return r

def apply_key_pred0(eng, st, book, ref, stages, key):
    s0 = st.fork()
    s0.pc = PC()
    kn = eng.alloc(s0, key_node(eng, key), 'itkey')
    item = Node('(&FIFOOrderId, &FIFORestingOrder)', {0: kn, 1: Ref(ref.root, ref.path + (('k', key),))})
    cond = True
    for sg in stages:
        if sg[0] == 'filter':
            ri = eng.alloc(s0, item, 'item')
            outs = eng.invoke(sg[1], [ri], s0, 'bool')
            if len(outs) == 0:
                raise Unsupported('filter closure diverges')
            f = False
            for ns, v in outs:
                f = b_or(f, b_and(*(list(ns.pc) + [zB(v)])))
                if ns.trace != st.trace:
                    raise Unsupported('filter closure has effects')
            s0 = outs[0][0]
            s0.pc = PC()
            cond = b_and(cond, f)
        else:
            raise Unsupported('iterator stage %s' % sg[0])
    return cond, s0, item

def ref_state(eng, st):
    return st

def iter_call(eng, c, vals, tys, dty, st, span):
    n, s, tr = c['name'], c['self'], c['trait']
    v0 = vals[0] if vals else None
    if n in ('iter', 'iter_mut', 'into_iter') and (tr in (None, 'IntoIterator')):
        if isinstance(v0, It) or (isinstance(v0, Ref) and isinstance(eng.load(st, v0), It)):
            return [(st, v0)]
        if isinstance(v0, Node) and s == 'Range':
            return [(st, It(('range', v0)))] if False else [(st, v0)]
        q = seq_of(eng, st, v0, byref=(n != 'into_iter' or isinstance(v0, Ref)))
        if q is not None:
            return [(st, It(q))]
        if isinstance(v0, Opaque):
            return [(st, It(('abs', Lazy(eng.fresh('opq'), '?'), '?', False)))]
        return None
    it = v0
    if isinstance(v0, Ref):
        try:
            it = eng.load(st, v0)
        except Unsupported:
            it = None
        while isinstance(it, Ref):
            v0 = it
            it = eng.load(st, it)
    if isinstance(it, Node) and isinstance(it.ty, str) and base_name(it.ty) == 'Range' and n == 'next':
        lo, hi = it.f[0], it.f[1]
        out = []
        for ns, more in eng.branch(st, cmp_op('Lt', lo, hi)):
            if more:
                eng.store(ns, v0.sub(0), i_add(lo, 1))
                out.append((ns, opt_some(dty, lo)))
            else:
                out.append((ns, opt_none(dty)))
        return out
    if not isinstance(it, It):
        return None
    if n in ADAPT:
        return [(st, it.add((n,) + tuple(vals[1:])))]
    if n == 'next':
        return iter_next(eng, st, v0, it, dty, span)
    h = getattr(eng, 'iter_hook', None)
    if h:
        r = h(eng, c, it, v0, vals, tys, dty, st, span)
        if r is not None:
            return r
    if it.src[0] == 'book':
        return book_iter(eng, c, it, vals, dty, st, span)
    if it.src[0] == 'list' and n in ('fold', 'for_each', 'all', 'any', 'sum', 'collect', 'find', 'count', 'try_for_each'):
        return list_iter(eng, c, it, vals, dty, st, span)
    if it.src[0] in ('abs', 'sel'):
        if n in ('fold', 'for_each', 'collect', 'find', 'any', 'all', 'sum', 'count', 'max_by', 'min_by', 'max', 'min', 'last'):
            return abs_iter(eng, c, it, vals, dty, st, span)
    return None

def iter_next(eng, st, ref, it, dty, span):
    if it.src[0] == 'list':
        if not it.src[1]:
            return [(st, opt_none(dty))]
        x = it.src[1][0]
        rest = It(('list', it.src[1][1:]) + it.src[2:], it.stages)
        eng.store(st, ref, rest)
        outs = run_stages(eng, st, it.stages, x, dty)
        res = []
        for ns, keep, v in outs:
            if keep:
                res.append((ns, opt_some(dty, v)))
            else:
                res += iter_next(eng, ns, ref, rest, dty, span)
        return res
    if it.src[0] == 'abs':
        out = []
        more = z3.Bool(eng.fresh('more'))
        for ns, m in eng.branch(st, more):
            if not m:
                out.append((ns, opt_none(dty)))
                continue
            if it.stages or it.src[2] in ('?', None):
                x = eng.mk(eng.fresh('item'), inner_ty(dty))
                out.append((ns, opt_some(dty, x)))
                if it.stages:
                    ns.notes.append('iterator elements abstracted: %s' % [q[0] for q in it.stages])
            else:
                x = eng.mk(eng.fresh('elem'), it.src[2])
                if it.src[3]:
                    x = eng.alloc(ns, x, 'elem')
                out.append((ns, opt_some(dty, x)))
        return out
    if it.src[0] == 'book':
        return book_next(eng, st, ref, it, dty)
    raise Unsupported('next on %r' % it)

def book_next(eng, st, ref, it, dty):
    """the first order of the book, behind the previous one handed out, that passes the filters"""
    bref, m = it.src[1], it.src[2]
    prev = it.src[3] if len(it.src) > 3 else None
    probe = mk_key(eng.int_const('probe.p', 'u64'), eng.int_const('probe.s', 'u64'))
    for sg in it.stages:
        if sg[0] != 'filter':
            raise Unsupported('next on %r' % it)
    cond = zB(apply_key_pred(eng, st, m, bref, it.stages, probe)[0]) if it.stages else z3.BoolVal(True)
    def at(k):
        c = z3.is_app_of(k, z3.Z3_OP_DT_CONSTRUCTOR)
        x = z3.substitute(cond, (probe.arg(0), k.arg(0) if c else OrdKey.price(k)), (probe.arg(1), k.arg(1) if c else OrdKey.seq(k)))
        return x if prev is None else z3.And(x, less(m.side, prev, k))
    out = []
    s2 = st.fork()
    nm = eng.fresh('next')
    k = mk_key(eng.int_const(nm + '.p', 'u64'), eng.int_const(nm + '.s', 'u64'))
    eng.assume(st, m.dom[k])
    for x in m.facts(eng, k):
        eng.assume(st, x)
    eng.inst(st, 'ord', k)
    eng.assume(st, at(k))
    eng.assume_all(st, Schema('ord', lambda j, m=m, k=k: z3.Implies(z3.And(m.dom[j], at(j)), z3.Or(j == k, less(m.side, k, j))), 'next'))
    if eng.feasible(st):
        kn = eng.alloc(st, key_node(eng, k), 'itkey')
        eng.store(st, ref, It(('book', bref, m, k), it.stages))
        out.append((st, opt_some(dty, Node('(&FIFOOrderId, &FIFORestingOrder)', {0: kn, 1: Ref(bref.root, bref.path + (('k', k),))}))))
    eng.assume_all(s2, Schema('ord', lambda j, m=m: z3.Not(z3.And(m.dom[j], at(j))), 'no next'))
    if eng.feasible(s2):
        out.append((s2, opt_none(dty)))
    return out

def run_stages(eng, st, stages, x, dty):
    """-> [(state, kept, value)]"""
    cur = [(st, True, x)]
    for sg in stages:
        nxt = []
        for ns, keep, v in cur:
            if not keep:
                nxt.append((ns, keep, v))
            elif sg[0] == 'map':
                nxt += [(n2, True, r) for n2, r in eng.invoke(sg[1], [v], ns, '?')]
            elif sg[0] == 'filter':
                for n2, r in eng.invoke(sg[1], [eng.alloc(ns, v)], ns, 'bool'):
                    for n3, t in eng.branch(n2, r):
                        nxt.append((n3, t, v))
            elif sg[0] == 'filter_map':
                for n2, r in eng.invoke(sg[1], [v], ns, 'Option'):
                    for n3, t in cases(eng, n2, r, 1):
                        nxt.append((n3, t, payload(eng, r, 'Some') if t else None))
            elif sg[0] in ('copied', 'cloned'):
                nxt.append((ns, True, eng.load(ns, v)))
            else:
                raise Unsupported('iterator stage %s' % sg[0])
        cur = nxt
    return cur

def list_iter(eng, c, it, vals, dty, st, span):
    n = c['name']
    if n == 'collect' and len(it.stages) == 1 and it.stages[0][0] == 'flat_map':
        probe = mk_key(eng.int_const('probe.p', 'u64'), eng.int_const('probe.s', 'u64'))
        parts = []
        for x in it.src[1]:
            outs = eng.invoke(it.stages[0][1], [x], st, '?')
            if len(outs) != 1 or not isinstance(outs[0][1], It) or outs[0][1].src[0] != 'book':
                raise Unsupported('flat_map')
            st = outs[0][0]
            parts.append(select(eng, st, outs[0][1], probe))
        return [(st, mk_sel(eng, st, parts))]
    states = [(st, vals[1] if n == 'fold' else [])]
    for x in it.src[1]:
        nxt = []
        for ns, acc in states:
            for n2, keep, v in run_stages(eng, ns, it.stages, x, dty):
                if not keep:
                    nxt.append((n2, acc))
                elif n == 'fold':
                    nxt += eng.invoke(vals[2], [acc, v], n2, dty)
                elif n == 'for_each':
                    nxt += [(n3, acc) for n3, _ in eng.invoke(vals[1], [v], n2, '()')]
                elif n == 'collect':
                    nxt.append((n2, acc + [v]))
                else:
                    raise Unsupported('iterator consumer %s' % n)
        states = nxt
    if n == 'collect':
        return [(ns, LVec(a, dty)) for ns, a in states]
    if n == 'for_each':
        return [(ns, UNIT) for ns, _ in states]
    return states

def book_iter(eng, c, it, vals, dty, st, span):
    """consumers of an iterator over an order book"""
    n = c['name']
    if len(it.src) > 3:
        raise Unsupported('%s on the rest of an order book' % n)
    ref, m = it.src[1], it.src[2]
    probe = mk_key(eng.int_const('probe.p', 'u64'), eng.int_const('probe.s', 'u64'))
    if n == 'find':
        cond, _, _ = apply_key_pred(eng, st, m, ref, it.stages + (('filter', vals[1]),), probe)
        at = lambda k: z3.substitute(zB(cond), (probe.arg(0), OrdKey.price(k) if not z3.is_app_of(k, z3.Z3_OP_DT_CONSTRUCTOR) else k.arg(0)), (probe.arg(1), OrdKey.seq(k) if not z3.is_app_of(k, z3.Z3_OP_DT_CONSTRUCTOR) else k.arg(1)))
        out = []
        found = z3.Bool(eng.fresh('found'))
        s2 = st.fork()
        # found
        nm = eng.fresh('find')
        k = mk_key(eng.int_const(nm + '.p', 'u64'), eng.int_const(nm + '.s', 'u64'))
        eng.assume(st, m.dom[k])
        for x in m.facts(eng, k):
            eng.assume(st, x)
        eng.inst(st, 'ord', k)
        eng.assume(st, at(k))
        eng.assume_all(st, Schema('ord', lambda j, m=m, k=k: z3.Implies(z3.And(m.dom[j], at(j)), z3.Or(j == k, less(m.side, k, j))), 'find'))
        if eng.feasible(st):
            kn = eng.alloc(st, key_node(eng, k), 'itkey')
            out.append((st, opt_some(dty, Node('(&FIFOOrderId, &FIFORestingOrder)', {0: kn, 1: Ref(ref.root, ref.path + (('k', k),))}))))
        eng.assume_all(s2, Schema('ord', lambda j, m=m: z3.Not(z3.And(m.dom[j], at(j))), 'find none'))
        out.append((s2, opt_none(dty)))
        return out
    if n == 'collect':
        return [(st, mk_sel(eng, st, [select(eng, st, it, probe)]))]
    raise Unsupported('order book iterator consumer %s' % n)

def mk_sel(eng, st, parts):
    s = Sel(parts, eng.fresh('sel'))
    for x in s.facts():
        eng.assume_all(st, x)
    h = getattr(eng, 'on_select', None)
    if h:
        h(st, s)
    return s

def select(eng, st, it, probe):
    """pipeline over a book -> ('book', side, book, ref, stage list) with each filter turned into a formula over `probe`"""
    ref, m = it.src[1], it.src[2]
    stages = []
    s = st.fork()
    s.pc = PC()
    for sg in it.stages:
        if sg[0] == 'filter':
            cond, s, _ = apply_key_pred(eng, s, m, ref, (sg,), probe)
            stages.append(('filter', zB(cond)))
        elif sg[0] == 'take':
            stages.append(('take', zI(sg[1])))
        elif sg[0] == 'map':
            kn = eng.alloc(s, key_node(eng, probe), 'itkey')
            item = Node('(&FIFOOrderId, &FIFORestingOrder)', {0: kn, 1: Ref(ref.root, ref.path + (('k', probe),))})
            outs = eng.invoke(sg[1], [item], s, '?')
            if len(outs) != 1 or not key_val(eng, outs[0][0], m, outs[0][1]).eq(probe):
                raise Unsupported('map stage is not the order id')
            s = outs[0][0]
            s.pc = PC()
        elif sg[0] in ('rev', 'skip'):
            stages.append((sg[0],) + tuple(zI(x) for x in sg[1:]))
        else:
            raise Unsupported('iterator stage %s' % sg[0])
    return (m.side, m, ref, stages, probe)

def abs_iter(eng, c, it, vals, dty, st, span):
    """fold / for_each over a sequence of unknown length: a loop cut by an invariant"""
    n = c['name']
    if n in ('fold', 'for_each'):
        acc0 = vals[1] if n == 'fold' else UNIT
        fold = vals[2] if n == 'fold' else vals[1]
        root = eng.alloc(st, acc0, 'acc')
        accty = dty if n == 'fold' else '()'
        eng.ztypes[root.root[1]] = accty
        eng.accroot = root
        if it.src[0] == 'abs' and it.src[2] == 'FIFOOrderId' and isinstance(it.src[1], (Lazy, AVec)):
            it.selobj = ListSel('list.' + it.src[1].name)
        def body(cur):
            outs = []
            if it.src[0] == 'sel':
                starts = eng.sel_element(cur, it.src[1])
            elif getattr(it, 'selobj', None):
                starts = eng.sel_element(cur, it.selobj)
            else:
                if it.src[2] == 'FIFOOrderId':
                    nm = eng.fresh('elem')
                    x = key_node(eng, mk_key(eng.int_const(nm + '.p', 'u64'), eng.int_const(nm + '.s', 'u64')))
                else:
                    x = eng.mk(eng.fresh('elem'), it.src[2])
                if it.src[3]:
                    x = eng.alloc(cur, x, 'elem')
                starts = [(cur, x)]
            for s0, x in starts:
                for ns, keep, v in run_stages(eng, s0, it.stages, x, dty):
                    if not keep:
                        outs.append(ns)
                        continue
                    if n == 'fold':
                        for n2, a in eng.invoke(fold, [eng.load(ns, root), v], ns, dty):
                            eng.store(n2, root, a)
                            outs.append(n2)
                    else:
                        outs += [n2 for n2, _ in eng.invoke(fold, [v], ns, '()')]
            return outs
        exits = eng.abstract_loop('%s over %s' % (n, it.src[0]), st, body, it)
        return [(s, eng.load(s, root)) for s in exits]
    if n == 'collect':
        if it.src[0] == 'sel':
            raise Unsupported('collect of selection')
        if any(sg[0] == 'flat_map' for sg in it.stages):
            return flat_collect(eng, it, dty, st)
        nm = eng.fresh('collected')
        eng.ranges[nm + '.len'] = (0, 2**40)
        return [(st, AVec(dty, nm, z3.Int(nm + '.len')))]
    return [(st, eng.mk(eng.fresh(n), dty))]

def flat_collect(eng, it, dty, st):
    raise Unsupported('flat_map over unknown sequence')

# ------------------------------------------------------------------ vectors, slices
def vec_call(eng, c, vals, tys, dty, st, span):
    n, s = c['name'], c['self']
    if s == 'Vec' and n in ('new', 'with_capacity'):
        return [(st, LVec([], dty))]
    v0 = vals[0] if vals else None
    if s == '[]' or s == '[u8]' or (c['selfty'] or '').startswith('[') or s in ('Vec', 'str', 'String') or c['trait'] in ('Index', 'IndexMut'):
        x = None
        if isinstance(v0, Ref):
            x = eng.load(st, v0)
            while isinstance(x, Ref):
                v0 = x
                x = eng.load(st, v0)
        if n == 'len':
            if isinstance(x, (LVec, AVec, Lazy, Node)):
                return [(st, eng.seq_len(x))]
            return [(st, eng.int_const(eng.fresh('len'), (0, 2**40)))]
        if n == 'is_empty':
            l = eng.seq_len(x) if isinstance(x, (LVec, AVec, Lazy, Node)) else eng.int_const(eng.fresh('len'), (0, 2**40))
            return [(st, cmp_op('Eq', l, 0))]
        if n == 'push' and isinstance(x, (LVec, AVec)):
            if isinstance(x, LVec):
                eng.store(st, v0, LVec(x.items + [vals[1]], x.ty))
            else:
                eng.store(st, v0, AVec(x.ty, eng.fresh('vec'), x.n + 1))
            h = getattr(eng, 'on_push', None)
            if h:
                h(eng, st, v0, x, vals[1])
            return [(st, UNIT)]
        if n == 'extend' and isinstance(x, (LVec, AVec)) and len(vals) == 2 and isinstance(vals[1], (Node, Lazy)) and base_name(str(getattr(vals[1], 'ty', ''))) == 'Option':
            out = []
            for ns, some in cases(eng, st, vals[1], 1):
                out += vec_call(eng, dict(c, name='push'), [v0, payload(eng, vals[1], 'Some')], tys, dty, ns, span) if some else [(ns, UNIT)]
            return out
        if n == 'extend_from_slice' and isinstance(x, (LVec, AVec)):
            q = seq_of(eng, st, vals[1], byref=False)
            if isinstance(x, LVec) and q and q[0] == 'list':
                eng.store(st, v0, LVec(x.items + list(q[1]), x.ty))
            else:
                l = z3.Int(eng.fresh('ext'))
                eng.ranges[l.decl().name()] = (0, 2**40)
                if q and q[0] == 'abs' and getattr(q[1], 'n', None) is not None:
                    l = q[1].n
                eng.store(st, v0, AVec(x.ty, eng.fresh('vec'), i_add(eng.seq_len(x), l)))
            return [(st, UNIT)]
        if n == 'clear' and isinstance(x, (LVec, AVec)):
            eng.store(st, v0, LVec([], x.ty))
            return [(st, UNIT)]
        if n == 'into_vec':
            vv = vals[0]
            y = eng.load(st, vv) if isinstance(vv, Ref) else vv
            if isinstance(y, Node) and y.base is None:
                items = [y.f[k] for k in sorted((k for k in y.f if isinstance(k, tuple) and k[0] == 'i'), key=lambda k: k[1])]
                return [(st, LVec(items, dty))]
        if n in ('to_vec', 'to_owned', 'into_boxed_slice', 'to_string', 'concat'):
            return [(st, x if isinstance(x, (LVec, AVec)) and n == 'to_vec' else AVec(dty, eng.fresh('vec'), eng.int_const(eng.fresh('len'), (0, 2**40))))]
        if n in ('index', 'index_mut') and len(vals) == 2:
            ix = vals[1]
            if scal(ix):
                k = const_int(ix)
                return [(st, v0.sub(('i', k if k is not None else ix)))]
            # a range of a byte buffer: keep a reference that remembers the region
            if isinstance(v0, Ref):
                return [(st, Ref(v0.root, v0.path))]
        if n in ('copy_from_slice', 'clone_from_slice'):
            return [(st, UNIT)]
        if n in ('split_at', 'split_first', 'split_at_mut'):
            return [(st, eng.mk(eng.fresh(n), dty))]
        if n in ('first', 'last', 'get') and isinstance(x, (Lazy, AVec)):
            return [(st, eng.mk(eng.fresh(n), dty))]
        if n == 'drain':
            q = seq_of(eng, st, v0, byref=False)
            return [(st, It(q if q else ('abs', Lazy(eng.fresh('drain'), '?'), '?', False)))]
        if n == 'pop' and isinstance(x, AVec):
            eng.store(st, v0, AVec(x.ty, eng.fresh('vec'), z3.If(x.n > 0, x.n - 1, 0)))
            return [(st, bool_opt(x.n > 0, dty, eng.mk(eng.fresh('pop'), inner_ty(dty))))]
    return None
