"""Symbolic executor / verification-condition generator over MIR.

Every function is executed symbolically on all paths; loops are cut by invariants; calls to functions
under contract use the contract, other calls into the crate are inlined; calls that leave the crate use
the summaries in stdlib.py.  Machine integers are mathematical integers with explicit range facts; the
overflow assertions rustc inserts are followed (a failing assertion aborts the transaction)."""
import re, itertools, z3
from mir import norm, base_name, generic_args, split_top

INT = {'u8': (0, 2**8 - 1), 'u16': (0, 2**16 - 1), 'u32': (0, 2**32 - 1), 'u64': (0, 2**64 - 1), 'u128': (0, 2**128 - 1), 'usize': (0, 2**64 - 1),
       'i8': (-2**7, 2**7 - 1), 'i16': (-2**15, 2**15 - 1), 'i32': (-2**31, 2**31 - 1), 'i64': (-2**63, 2**63 - 1), 'i128': (-2**127, 2**127 - 1), 'isize': (-2**63, 2**63 - 1), 'char': (0, 0x10ffff)}
Key = z3.DeclareSort('Key')
_OD = z3.Datatype('OrdKey')
_OD.declare('mk', ('price', z3.IntSort()), ('seq', z3.IntSort()))
OrdKey = _OD.create()
KEYTYPES = {'Pubkey', 'MarketTraderId'}

class Unsupported(Exception):
    pass

class Node:
    __slots__ = ('ty', 'f', 'base')
    def __init__(self, ty, f=None, base=None):
        self.ty = ty
        self.f = f if f is not None else {}
        self.base = base
    def __repr__(self):
        return 'Node(%s,%s%s)' % (self.ty, self.f, ',base=%s' % self.base.name if self.base else '')

class Lazy:
    __slots__ = ('name', 'ty')
    def __init__(self, name, ty):
        self.name = name
        self.ty = ty
    def __repr__(self):
        return 'Lazy(%s:%s)' % (self.name, self.ty)

class Ref:
    __slots__ = ('root', 'path', 'meta')
    def __init__(self, root, path=(), meta=None):
        self.root = root
        self.path = path
        self.meta = meta
    def sub(self, *p):
        return Ref(self.root, self.path + p)
    def __repr__(self):
        return 'Ref(%s,%s)' % (self.root, self.path)
    def same(self, o):
        return isinstance(o, Ref) and self.root == o.root and len(self.path) == len(o.path) and all(same(a, b) for a, b in zip(self.path, o.path))

class FnItem:
    __slots__ = ('path',)
    def __init__(self, p):
        self.path = p
    def __repr__(self):
        return 'FnItem(%s)' % self.path

class Str:
    __slots__ = ('s',)
    def __init__(self, s):
        self.s = s
    def __repr__(self):
        return 'Str(%s)' % self.s

class Opaque:
    """value whose content no property depends on"""
    __slots__ = ('why',)
    def __init__(self, why=''):
        self.why = why
    def __repr__(self):
        return 'Opaque(%s)' % self.why

class Sink:
    """an external callback (dyn FnMut) supplied by the caller of the function under proof"""
    __slots__ = ('name',)
    def __init__(self, name):
        self.name = name

UNIT = Node('()')

def isz(x):
    return isinstance(x, z3.ExprRef)

def same(a, b):
    if a is b:
        return True
    if isz(a) and isz(b):
        return a.eq(b)
    if isz(a) or isz(b):
        return False
    if isinstance(a, (int, bool, str)) or isinstance(b, (int, bool, str)):
        return type(a) == type(b) and a == b
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Ref):
        return a.same(b)
    if isinstance(a, Lazy) and isinstance(b, Lazy):
        return a.name == b.name
    if isinstance(a, Node) and isinstance(b, Node):
        if (a.base is None) != (b.base is None) or (a.base and a.base.name != b.base.name):
            return False
        return a.f.keys() == b.f.keys() and all(same(a.f[k], b.f[k]) for k in a.f)
    if hasattr(a, 'same'):
        return a.same(b)
    if isinstance(a, (Opaque,)) and isinstance(b, Opaque):
        return True
    if isinstance(a, FnItem) and isinstance(b, FnItem):
        return a.path == b.path
    if isinstance(a, Str) and isinstance(b, Str):
        return a.s == b.s
    return False

def zI(x):
    if isinstance(x, bool):
        raise Unsupported('bool as int')
    return z3.IntVal(x) if isinstance(x, int) else x

def zB(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x

def const_int(x):
    if isinstance(x, int) and not isinstance(x, bool):
        return x
    if isz(x) and z3.is_int_value(x):
        return x.as_long()
    return None

def const_bool(x):
    if isinstance(x, bool):
        return x
    if isz(x):
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
    return None

def b_not(x):
    c = const_bool(x)
    if c is not None:
        return not c
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)

def b_and(*xs):
    out = []
    for x in xs:
        c = const_bool(x)
        if c is False:
            return False
        if c is None:
            out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)

def b_or(*xs):
    out = []
    for x in xs:
        c = const_bool(x)
        if c is True:
            return True
        if c is None:
            out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)

def implies(a, b):
    return b_or(b_not(a), b)

def i_ite(c, a, b):
    k = const_bool(c)
    if k is not None:
        return a if k else b
    if same(a, b):
        return a
    if isinstance(a, bool) or isinstance(b, bool) or (isz(a) and z3.is_bool(a)):
        return z3.If(c, zB(a), zB(b))
    return z3.If(c, zI(a) if not isz(a) else a, zI(b) if not isz(b) else b)

def cmp_op(op, a, b):
    ca, cb = const_int(a), const_int(b)
    if ca is not None and cb is not None:
        return {'Eq': ca == cb, 'Ne': ca != cb, 'Lt': ca < cb, 'Le': ca <= cb, 'Gt': ca > cb, 'Ge': ca >= cb}[op]
    if isinstance(a, bool) or isinstance(b, bool) or (isz(a) and z3.is_bool(a)):
        if op == 'Eq':
            if isinstance(a, bool) and isinstance(b, bool):
                return a == b
            return zB(a) == zB(b)
        if op == 'Ne':
            return b_not(cmp_op('Eq', a, b))
        raise Unsupported('bool order')
    if isz(a) and isz(b) and a.eq(b):
        return op in ('Eq', 'Le', 'Ge')
    # comparing an enumeration-valued ite with a constant: push inside
    if cb is not None and isz(a) and z3.is_app_of(a, z3.Z3_OP_ITE) and op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
        t, e = a.arg(1), a.arg(2)
        if (const_int(t) is not None or z3.is_app_of(t, z3.Z3_OP_ITE)) and (const_int(e) is not None or z3.is_app_of(e, z3.Z3_OP_ITE)):
            x, y = cmp_op(op, t, cb), cmp_op(op, e, cb)
            cx, cy = const_bool(x), const_bool(y)
            if cx is not None and cy is not None:
                if cx == cy:
                    return cx
                return a.arg(0) if cx else b_not(a.arg(0))
            if cx is not None:
                return b_or(a.arg(0), y) if cx else b_and(b_not(a.arg(0)), y)
            if cy is not None:
                return b_or(b_not(a.arg(0)), x) if cy else b_and(a.arg(0), x)
            return z3.If(a.arg(0), zB(x), zB(y))
    a, b = (zI(a) if not isz(a) else a), (zI(b) if not isz(b) else b)
    if op == 'Eq':
        return a == b
    if op == 'Ne':
        return z3.Not(a == b)
    return {'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b}[op]

def i_add(a, b):
    ca, cb = const_int(a), const_int(b)
    if ca is not None and cb is not None:
        return ca + cb
    if ca == 0:
        return b
    if cb == 0:
        return a
    return zI(a) + zI(b)

def i_sub(a, b):
    ca, cb = const_int(a), const_int(b)
    if ca is not None and cb is not None:
        return ca - cb
    if cb == 0:
        return a
    return zI(a) - zI(b)

def i_mul(a, b):
    ca, cb = const_int(a), const_int(b)
    if ca is not None and cb is not None:
        return ca * cb
    if ca == 0 or cb == 0:
        return 0
    if ca == 1:
        return b
    if cb == 1:
        return a
    return zI(a) * zI(b)

class PC(list):
    """path condition with a set of the ids of its conjuncts"""
    __slots__ = ('ids',)
    def __init__(self, it=()):
        if isinstance(it, PC):
            list.__init__(self, it)
            self.ids = set(it.ids)
        else:
            list.__init__(self, it)
            self.ids = {x.get_id() for x in self}
    def append(self, x):
        list.append(self, x)
        self.ids.add(x.get_id())
    def has(self, x):
        return x.get_id() in self.ids

class State:
    __slots__ = ('mem', 'pc', 'q', 'trace', 'ghost', 'taint', 'notes')
    def __init__(self):
        self.mem = {}
        self.pc = PC()
        self.q = []
        self.trace = []
        self.ghost = {}
        self.taint = []
        self.notes = []
    def fork(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.pc = PC(self.pc)
        s.q = list(self.q)
        s.trace = list(self.trace)
        s.ghost = dict(self.ghost)
        s.taint = list(self.taint)
        s.notes = list(self.notes)
        return s

class Schema_:
    __slots__ = ('sort', 'fn', 'name')
    def __init__(self, sort, fn, name=''):
        self.sort, self.fn, self.name = sort, fn, name

def guard(a, f):
    return None if f is None else implies(a, f)

class Obl:
    __slots__ = ('label', 'pc', 'q', 'goal', 'taint', 'where', 'smt', 'status', 'model', 'time', 'backend', 'notes', 'hints')

class LoopCtx:
    def __init__(self, eng, f, fid, head, entry, cur):
        self.eng, self.f, self.fid, self.head, self.entry, self.st = eng, f, fid, head, entry, cur

class Engine:
    def __init__(self, prog):
        self.p = prog
        self.ranges = {}          # z3 const name -> (lo,hi)
        self.ztypes = {}
        self.obls = []
        self.mute = 0
        self.fid = itertools.count(1)
        self.fresh_n = itertools.count(1)
        self.contracts = {}       # (impl self or None, name) -> callable(eng, st, args, argtys, destty, span) -> [(st,ret)] or None
        self.invariants = {}      # name -> provider
        self.inlined = {}
        self.unmodelled = {}
        self.used_summaries = {}
        self.used_contracts = {}
        self.sinks = {}
        self.maptypes = {}        # type base -> constructor(name, ty)
        self.stack = []
        self.tenvs = []
        self.max_depth = 60
        self.npaths = 0
        self.path_budget = 400000
        self.steps = 0
        self.lits = {}
        self.solver = None
        self.nchecks = 0
        self.unknown_feas = 0
        self.loops = []
        self.houdini_dropped = []
        self.feas_rlimit = 1500000
        import stdlib
        self.std = stdlib
        self._cfg = {}
        self.const_cache = {}
        self.deadline = None

    # ---------------------------------------------------------------- symbolic values
    def fresh(self, hint):
        return '%s!%d' % (hint, next(self.fresh_n))

    def int_const(self, name, ty='u64'):
        if ty in INT:
            self.ranges[name] = INT[ty]
        elif isinstance(ty, tuple):
            self.ranges[name] = ty
        return z3.Int(name)

    def mk(self, name, ty):
        t = norm(ty) if ty else '?'
        if t in INT:
            return self.int_const(name, t)
        if t == 'bool':
            return z3.Bool(name)
        if t in KEYTYPES:
            return z3.Const(name, Key)
        if t == '()' or t == '!':
            return UNIT
        if t.startswith('&'):
            inner = t[1:].strip()
            if inner.startswith('mut '):
                inner = inner[4:]
            self.ztypes[name + '*'] = inner
            return Ref(('Z', name + '*'))
        b = base_name(t)
        if b in self.maptypes:
            return self.maptypes[b](self, name, t)
        if t.startswith('*'):
            inner = re.sub(r'^\*(const|mut) ', '', t)
            self.ztypes[name + '*'] = inner
            return Ref(('Z', name + '*'))
        return Lazy(name, t)

    def field_type(self, ty, i):
        """type of field i of struct type ty (normalised), or None"""
        if isinstance(ty, tuple) and ty[0] == 'variant':
            _, ety, v = ty
            b = base_name(ety)
            g = generic_args(ety)
            if b == 'Option' and v == 'Some':
                return g[0] if g else None
            if b == 'Result':
                return (g[0] if v == 'Ok' else g[1]) if len(g) == 2 else (g[0] if v == 'Ok' and g else None)
            if b == 'ControlFlow':
                return (g[1] if v == 'Continue' and len(g) > 1 else g[0]) if g else None
            fl = self.p.structs.get(b + '::', {}).get(v)
            if fl and isinstance(i, int) and i < len(fl):
                return fl[i][1]
            return None
        if not ty:
            return None
        if ty.startswith('('):
            parts = split_top(ty[1:-1])
            return parts[i] if isinstance(i, int) and i < len(parts) else None
        if ty.startswith('['):
            m = re.match(r'^\[(.*?)(?:; .*)?\]$', ty)
            return m.group(1) if m else None
        fl = self.p.structs.get(base_name(ty))
        if isinstance(fl, list) and isinstance(i, int) and i < len(fl):
            return fl[i][1]
        return None

    def field_index(self, ty, name):
        b = base_name(ty)
        for i, (n, t) in enumerate(self.p.structs.get(b, [])):
            if n == name:
                return i
        raise Unsupported('no field %s in %s' % (name, ty))

    def variant_index(self, ety, v, fname):
        b = base_name(ety)
        for i, (n, t) in enumerate(self.p.structs.get(b + '::', {}).get(v, [])):
            if n == fname:
                return i
        raise Unsupported('no field %s in %s::%s' % (fname, ety, v))

    def get(self, v, k, ty=None):
        """project value v by key k: int field, ('v',name), ('i',n), ('k',key), 'd'"""
        if isinstance(v, Node):
            if k in v.f:
                return v.f[k]
            if v.base is not None:
                return self.get(v.base, k, ty)
            if isinstance(k, tuple) and k[0] == 'v':
                # payload of a variant that was not built on this path: unreachable content
                return Lazy(self.fresh('undef'), ('variant', v.ty, k[1]))
            raise Unsupported('no field %r in %s' % (k, v.ty))
        if isinstance(v, Lazy):
            if k == 'd':
                n = self.enum_values(v.ty)
                nm = v.name + '#d'
                self.ranges[nm] = (min(n), max(n)) if n else (0, 2**31)
                return z3.Int(nm)
            if isinstance(k, tuple) and k[0] == 'v':
                return Lazy(v.name + '#' + k[1], ('variant', v.ty, k[1]))
            if isinstance(k, tuple) and k[0] == 'i':
                t = ty or self.field_type(v.ty, 0)
                return self.mk('%s[%s]' % (v.name, k[1]), t)
            if isinstance(k, tuple) and k[0] == 'k':
                raise Unsupported('map entry of opaque %s' % v.ty)
            t = ty or self.field_type(v.ty, k)
            if t is None:
                raise Unsupported('field %r of %s: unknown type' % (k, v.ty))
            return self.mk('%s.%s' % (v.name, k), t)
        if isinstance(v, Ref) and isinstance(k, int):
            return v            # Box / Unique / NonNull wrappers around a pointer
        if hasattr(v, 'proj'):
            return v.proj(self, k, ty)
        if isinstance(v, Opaque):
            return Opaque(v.why)
        raise Unsupported('project %r of %r' % (k, v))

    def put(self, v, path, val):
        if not path:
            return val
        k = path[0]
        if hasattr(v, 'proj_put'):
            return v.proj_put(self, k, path[1:], val)
        if isinstance(v, Lazy):
            v = Node(v.ty, {}, v)
        if isinstance(v, Node):
            f = dict(v.f)
            f[k] = val if len(path) == 1 else self.put(self.get(v, k), path[1:], val)
            return Node(v.ty, f, v.base)
        if isinstance(v, Ref) and isinstance(k, int):
            return v
        raise Unsupported('store %r into %r' % (path, v))

    def enum_values(self, ty):
        if isinstance(ty, tuple):
            return None
        b = base_name(ty)
        vals = self.p.enums.get('=' + b)
        if vals:
            return vals
        vs = self.p.enums.get(b)
        if b == 'Ordering':
            return [-1, 0, 1]
        return list(range(len(vs))) if vs else None

    def discr_of(self, ety, variant):
        b = base_name(ety)
        if b == 'Ordering':
            return {'Less': -1, 'Equal': 0, 'Greater': 1}[variant]
        vs = self.p.enums.get(b)
        if vs and variant in vs:
            vals = self.p.enums.get('=' + b)
            i = vs.index(variant)
            return vals[i] if vals else i
        return None

    def variant_of(self, ety, d):
        b = base_name(ety)
        vs = self.p.enums.get(b)
        vals = self.enum_values(ety)
        if vs and vals and d in vals:
            return vs[vals.index(d)]
        return None

    # ---------------------------------------------------------------- memory
    def read(self, st, root, path=()):
        v = st.mem.get(root)
        if v is None:
            if root[0] == 'Z':
                v = self.mk(root[1], self.ztypes.get(root[1]))
            elif root[0] == 'K':
                v = z3.Const('id.' + root[1], Key)
            else:
                raise Unsupported('read of uninitialised %s' % (root,))
        for k in path:
            v = self.getp(st, v, k)
        return v

    def getp(self, st, v, k):
        if isinstance(k, tuple) and k[0] == 't':       # typed field
            return self.get(v, k[1], k[2])
        return self.get(v, k)

    def write(self, st, root, path, val):
        if not path:
            st.mem[root] = val
            return
        v = st.mem.get(root)
        if v is None:
            if root[0] == 'Z':
                v = self.mk(root[1], self.ztypes.get(root[1]))
            elif root[0] == 'L':
                v = Node('?', {})
            else:
                raise Unsupported('write to uninitialised %s' % (root,))
        st.mem[root] = self.put(v, tuple(path), val)

    def load(self, st, ref):
        if not isinstance(ref, Ref):
            raise Unsupported('deref of %r' % (ref,))
        return self.read(st, ref.root, ref.path)

    def store(self, st, ref, val):
        if not isinstance(ref, Ref):
            raise Unsupported('store through %r' % (ref,))
        self.write(st, ref.root, ref.path, val)

    def alloc(self, st, val, hint='h'):
        root = ('H', self.fresh(hint))
        st.mem[root] = val
        return Ref(root)

    def resolve(self, st, f, fid, place):
        """place -> (root, path) following derefs; field types make lazies well typed"""
        loc, projs = place
        root, path = ('L', fid, loc), ()
        for p in projs:
            if p[0] == 'd':
                v = self.read(st, root, path)
                if not isinstance(v, Ref):
                    if isinstance(v, Str):
                        v = Ref(('S', v.s))
                        st.mem[v.root] = Str(v.root[1])
                    elif isinstance(v, (Lazy, Opaque)):
                        # Box<T> etc: pointee keyed by the lazy's name
                        if isinstance(v, Lazy):
                            g = generic_args(v.ty)
                            self.ztypes.setdefault(v.name + '*', g[0] if g else '?')
                            v = Ref(('Z', v.name + '*'))
                        else:
                            raise Unsupported('deref of opaque value')
                    else:
                        raise Unsupported('deref of %r' % (v,))
                root, path = v.root, v.path
            elif p[0] == 'f':
                v = self.read(st, root, path) if (root in st.mem or root[0] == 'Z') else None
                if isinstance(v, Lazy) or (isinstance(v, Node) and p[1] not in v.f and v.base is not None):
                    # materialise the field with the type MIR gives
                    fv = self.get(v, p[1], self.spec_type(norm(p[2])))
                    b = v if isinstance(v, Node) else Node(v.ty, {}, v)
                    nf = dict(b.f)
                    nf[p[1]] = fv
                    self.write(st, root, path, Node(b.ty, nf, b.base))
                path = path + (p[1],)
            elif p[0] == 'v':
                path = path + (('v', p[1]),)
            elif p[0] == 'ix':
                ix = self.read(st, ('L', fid, p[1]))
                c = const_int(ix)
                if c is None:
                    c2 = self.concretise(st, ix)
                    if c2 is None:
                        path = path + (('i', ix),)
                        continue
                    c = c2
                path = path + (('i', c),)
            elif p[0] == 'ci':
                if p[3]:
                    v = self.read(st, root, path)
                    n = self.seq_len(v)
                    path = path + (('i', n - p[1]),)
                else:
                    path = path + (('i', p[1]),)
            else:
                raise Unsupported('projection %r' % (p,))
        return root, path

    def spec_type(self, t):
        return self.subst(t)

    def subst(self, t):
        """substitute the generic parameters of the function being executed"""
        env = self.tenvs[-1] if self.tenvs else None
        if not env or not t:
            return t
        return re.sub(r'(?<![A-Za-z0-9_:])(%s)(?![A-Za-z0-9_])' % '|'.join(env), lambda m: env[m.group(1)], t)

    def unify(self, formal, actual, env):
        if not formal or not actual:
            return
        formal, actual = norm(formal), norm(actual)
        if formal == actual:
            return
        if re.match(r'^[A-Z]\w*$', formal):
            if formal not in self.p.structs and formal not in self.p.enums and formal not in INT and formal not in KEYTYPES and formal != 'Self':
                env.setdefault(formal, actual)
            return
        if formal[0] == '&' and actual[0] == '&':
            return self.unify(re.sub(r'^&(mut )?', '', formal), re.sub(r'^&(mut )?', '', actual), env)
        a, b = generic_args(formal), generic_args(actual)
        if base_name(formal) == base_name(actual) and len(a) == len(b):
            for x, y in zip(a, b):
                self.unify(x, y, env)

    def tyenv_of(self, g, tys, dty):
        env = {}
        for x, y in zip(g.argtys, tys):
            self.unify(x, y, env)
        self.unify(g.ret, dty, env)
        return env or None

    def concretise(self, st, e):
        return None

    def seq_len(self, v):
        if isinstance(v, Node):
            n = [k for k in v.f if isinstance(k, tuple) and k[0] == 'i']
            if n and v.base is None:
                return len(n)
            if v.ty and str(v.ty).startswith('[') and v.base is None:
                return len(n)
        if hasattr(v, 'length'):
            return v.length()
        if isinstance(v, Lazy):
            m = re.match(r'^\[.*; (\d+)\]$', v.ty) if isinstance(v.ty, str) else None
            if m:
                return int(m.group(1))
            return self.int_const(v.name + '.len', 'usize')
        if isinstance(v, Str):
            return len(v.s)
        raise Unsupported('length of %r' % (v,))

    # ---------------------------------------------------------------- solver for path feasibility
    def _lit(self, e):
        i = e.get_id()
        l = self.lits.get(i)
        if l is None:
            if self.solver is None or len(self.lits) > 4000:
                self.solver = z3.Solver()
                self.solver.set('rlimit', self.feas_rlimit)
                self.lits = {}
                self.known_vars = set()
            lv = z3.Bool('lit!%d' % i)
            le = self.linear(e)
            self.solver.add(z3.Implies(lv, le))
            self.add_ranges(self.solver, le, self.known_vars)
            l = (lv, e)
            self.lits[i] = l
        return l[0]

    _lin_cache = {}
    def linear(self, e):
        """over-approximation for feasibility: products of variables become opaque integers (same product, same integer)"""
        c = self._lin_cache.get(e.get_id())
        if c is not None and c[0].eq(e):
            return c[1]
        if not z3.is_app(e) or e.num_args() == 0:
            r = e
        else:
            k = e.decl().kind()
            if k == z3.Z3_OP_MUL and sum(1 for x in e.children() if const_int(x) is None) > 1:
                p, at = self.poly(e)
                out = []
                for m, cc in p.items():
                    if not m:
                        out.append(z3.IntVal(cc))
                        continue
                    ts = [self.linear(at[i]) for i in m]
                    if len(ts) == 1:
                        out.append(cc * ts[0])
                        continue
                    ids = tuple(sorted(t.get_id() for t in ts))
                    key = ('mono', ids)
                    v = self._lin_cache.get(key)
                    if v is None:
                        v = (z3.Int('mono!%d' % len(self._lin_cache)), ts)
                        self._lin_cache[key] = v
                    out.append(cc * v[0])
                r = z3.Sum(out) if len(out) > 1 else (out[0] if out else z3.IntVal(0))
            elif k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and const_int(e.arg(1)) is None:
                r = z3.Int('divm!%d' % e.get_id())
            else:
                ch = e.children()
                nc = [self.linear(x) for x in ch]
                r = e if all(a.eq(b) for a, b in zip(ch, nc)) else e.decl()(*nc)
        self._lin_cache[e.get_id()] = (e, r)
        return r

    def add_ranges(self, solver, e, known):
        for n, r in self.vars_of(e):
            if n not in known:
                known.add(n)
                if r is not None:
                    v = z3.Int(n)
                    if r[0] is not None:
                        solver.add(v >= r[0])
                    if r[1] is not None:
                        solver.add(v <= r[1])

    _vars_cache = {}
    def vars_of(self, e):
        key = e.get_id()
        c = self._vars_cache.get(key)
        if c is not None and c[0].eq(e):
            return [(n, self.ranges.get(n)) for n in c[1]]
        seen = set()
        out = []
        todo = [e]
        while todo:
            x = todo.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_quantifier(x):
                todo.append(x.body())
            elif z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if x.sort().kind() == z3.Z3_INT_SORT:
                    out.append(x.decl().name())
            else:
                todo.extend(x.children())
        self._vars_cache[key] = (e, out)
        return [(n, self.ranges.get(n)) for n in out]

    def feasible(self, st, extra=None):
        cs = [c for c in st.pc]
        if extra is not None:
            k = const_bool(extra)
            if k is False:
                return False
            if k is None:
                cs.append(extra)
        for c in cs:
            if z3.is_false(c):
                return False
        ls = [self._lit(c) for c in cs]
        self.nchecks += 1
        r = self.solver.check(*ls) if ls else z3.sat
        if r == z3.unknown:
            self.unknown_feas += 1
            return True
        return r == z3.sat

    def assume(self, st, c):
        k = const_bool(c)
        if k is True:
            return True
        if k is False:
            st.pc.append(z3.BoolVal(False))
            return False
        if z3.is_and(c):
            for x in c.children():
                self.assume(st, x)
        else:
            if not st.pc.has(c):
                st.pc.append(c)
        return True

    def assume_all(self, st, schema):
        st.q.append(schema)

    def inst(self, st, sort, term):
        """instantiate the quantified facts known in st at one term"""
        for sc in list(st.q):
            if sc.sort == sort:
                f = sc.fn(term)
                if f is not None and const_bool(f) is not True:
                    self.assume(st, f)

    def branch(self, st, cond):
        """-> list of (state, bool) for the feasible outcomes"""
        k = const_bool(cond)
        if k is not None:
            return [(st, k)]
        nc = b_not(cond)
        if isz(cond) and st.pc.has(cond):
            return [(st, True)]
        if isz(nc) and st.pc.has(nc):
            return [(st, False)]
        t = self.feasible(st, cond)
        f = self.feasible(st, nc)
        out = []
        if t and f:
            s2 = st.fork()
            self.assume(st, cond)
            self.assume(s2, nc)
            return [(st, True), (s2, False)]
        if t:
            self.assume(st, cond)
            return [(st, True)]
        if f:
            self.assume(st, nc)
            return [(st, False)]
        return []

    def oblige(self, st, label, goal, where=None, hints=None):
        if self.mute:
            return
        o = Obl()
        o.label, o.pc, o.q, o.goal, o.taint, o.where = label, list(st.pc), list(st.q), zB(goal), list(st.taint), where
        o.status = o.model = o.time = o.backend = o.smt = None
        o.notes = list(st.notes)
        o.hints = hints or []
        self.obls.append(o)

    # ---------------------------------------------------------------- operands / rvalues
    def const(self, st, f, s):
        s = s.strip()
        if s.startswith('@'):
            return self.uneval(st, f, f.strs[int(s[1:])])
        m = re.match(r'^(-?\d+)_([ui]\w+)$', s)
        if m:
            return int(m.group(1))
        if s == 'true':
            return True
        if s == 'false':
            return False
        if s == '()':
            return UNIT
        m = re.match(r'^"#(\d+)"$', s)
        if m:
            return Str(f.strs[int(m.group(1))])
        if re.match(r"^'.*'$", s):
            return Opaque('char')
        m = re.match(r'^(?:core::num::<impl )?([ui]\d+|usize|isize)>?::(MAX|MIN)$', s)
        if m:
            lo, hi = INT[m.group(1)]
            return hi if m.group(2) == 'MAX' else lo
        if s.startswith('{alloc') or s.startswith('{transmute'):
            m = re.match(r'^\{(\w+)(?:<[^>]*>)?: (.*)\}$', s)
            if m:
                nm = self.p.statics.get(m.group(1))
                r = self.static_val(nm, m.group(2)) if nm else None
                return r if r is not None else self.mk('static.' + (nm or m.group(1)), m.group(2))
        if s in ('BIDS_SIZE', 'ASKS_SIZE', 'NUM_SEATS') or re.match(r'^[A-Z][A-Z_0-9]*$', s):
            r = self.named_const(s)
            if r is not None:
                return r
            return self.int_const('generic.' + s, 'usize')
        return FnItem(s)

    def named_const(self, name):
        return None

    def uneval(self, st, f, u):
        """Unevaluated(PATH, [..], Some(promoted[N]) | None)"""
        parts = split_top(u)
        path = parts[0]
        m = re.match(r'^(?:(?:core|std)::\w+::)*(?:<impl )?([ui]\d+|usize|isize)>?::(MAX|MIN|BITS)$', path)
        if m:
            lo, hi = INT[m.group(1)]
            return {'MAX': hi, 'MIN': lo, 'BITS': hi.bit_length()}[m.group(2)]
        pr = re.search(r'Some\(promoted\[(\d+)\]\)', parts[-1])
        key = (path, pr.group(1) if pr else None, f.name if pr else '')
        if pr:
            cands = [g for g in self.p.fns if g.kind == 'promoted' and g.name == f.name + '::promoted[%s]' % pr.group(1)]
            if len(cands) > 1 and f.name in self.p.by_key:
                idx = self.p.by_key[f.name].index(f)
                if idx < len(cands):
                    cands = [cands[idx]]
            if not cands:
                return Opaque('promoted')
            g = cands[0]
        else:
            g = self.find_const(path)
            ext = {'SENTINEL': 0, 'Account::LEN': 165, 'Mint::LEN': 82}
            if g is None:
                for k, v in ext.items():
                    if path == k or path.endswith('::' + k):
                        return v
                m = re.match(r'^(?:.*::)?([A-Z]\w*)::([A-Z]\w*)$', path)
                if m and self.discr_of(m.group(1), m.group(2)) is not None:
                    return self.discr_of(m.group(1), m.group(2))
                m = re.match(r'^(?:core|std)::.*$', path)
                raise Unsupported('constant %s in %s' % (path, f.name))
        if key in self.const_cache:
            v, mem = self.const_cache[key]
            st.mem.update(mem)
            return v
        before = dict(st.mem)
        outs = self.run_fn(g, [], st.fork(), 'const')
        if len(outs) != 1:
            raise Unsupported('constant %s has %d outcomes' % (path, len(outs)))
        s2, v = outs[0]
        v, mem = self.detach(s2, v, {})
        self.const_cache[key] = (v, mem)
        st.mem.update(mem)
        return v

    def detach(self, st, v, mem):
        """move locals a constant refers to into immortal roots"""
        if isinstance(v, Ref) and v.root[0] == 'L':
            root = ('H', self.fresh('const'))
            inner, mem = self.detach(st, self.read(st, v.root, v.path), mem)
            mem[root] = inner
            return Ref(root), mem
        if isinstance(v, Ref) and v.root[0] == 'H':
            mem[v.root] = st.mem[v.root]
            return v, mem
        if isinstance(v, Node):
            nf = {}
            for k, x in v.f.items():
                nf[k], mem = self.detach(st, x, mem)
            return Node(v.ty, nf, v.base), mem
        return v, mem

    def find_const(self, path):
        p = norm(path)
        last = re.split(r'::(?![^<]*>)', p)[-1]
        cands = [g for g in self.p.fns if g.kind == 'const' and g.last == last]
        if len(cands) == 1:
            return cands[0]
        ty = None
        m = re.match(r'^<(.*?)(?: as (.*))?>::(\w+)$', path)
        if m:
            ty = norm(m.group(1))
        else:
            seg = path.rsplit('::', 1)
            ty = norm(seg[0]) if len(seg) == 2 else None
        if ty:
            b = base_name(ty)
            for g in cands:
                if g.impl_self and base_name(g.impl_self) == b:
                    return g
            for g in cands:
                if norm(g.ret) == ty or base_name(g.ret) == b:
                    return g
        return None

    def operand(self, st, f, fid, o):
        if o[0] == 'const':
            return self.const(st, f, o[1])
        root, path = self.resolve(st, f, fid, o[1])
        return self.read(st, root, path)

    def optype(self, f, o):
        if o[0] == 'place':
            loc, projs = o[1]
            if not projs:
                return norm(f.locals[loc])
            for p in reversed(projs):
                if p[0] == 'f':
                    if projs[-1] is p:
                        return norm(p[2])
                    break
            if projs[-1][0] == 'd':
                base = ('place', (loc, projs[:-1]))
                t = self.optype(f, base)
                if t and t.startswith('&'):
                    t = t[1:].strip()
                    return t[4:] if t.startswith('mut ') else t
            return None
        m = re.match(r'^-?\d+_([ui]\w+)$', o[1])
        if m:
            return m.group(1)
        return None

    def binop(self, st, op, a, b, ty=None):
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if isinstance(a, (Ref, Opaque, Str)) or isinstance(b, (Ref, Opaque, Str)):
                return z3.Bool(self.fresh('ptrcmp'))
            return cmp_op(op, a, b)
        if op.startswith('Checked') or op in ('Add', 'Sub', 'Mul', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            o = op.replace('Checked', '').replace('Unchecked', '')
            r = {'Add': i_add, 'Sub': i_sub, 'Mul': i_mul}[o](a, b) if o in ('Add', 'Sub', 'Mul') else None
            if r is None:
                raise Unsupported(op)
            lo, hi = INT.get(ty, INT['u64'])
            cr = const_int(r)
            if op.startswith('Checked'):
                if cr is not None:
                    ov = not (lo <= cr <= hi)
                elif o == 'Sub' and lo == 0:
                    ov = cmp_op('Lt', a, b)
                elif o == 'Add' and lo == 0:
                    ov = zI(r) > hi
                elif o == 'Mul' and lo == 0:
                    ov = zI(r) > hi
                else:
                    ov = z3.Or(zI(r) > hi, zI(r) < lo)
                return Node('(%s, bool)' % (ty or 'u64'), {0: r, 1: ov})
            if cr is not None:
                return (cr - lo) % (hi - lo + 1) + lo
            m = hi - lo + 1
            if o == 'Add':
                return i_ite(cmp_op('Gt', r, hi), i_sub(r, m), r)
            if o == 'Sub':
                return i_ite(cmp_op('Lt', r, lo), i_add(r, m), r)
            return zI(r) % m
        if op in ('Div', 'Rem'):
            return self.divrem(st, op, a, b)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if isinstance(a, bool) or isinstance(b, bool) or (isz(a) and z3.is_bool(a)):
                return {'BitAnd': b_and, 'BitOr': b_or, 'BitXor': lambda x, y: b_not(cmp_op('Eq', x, y))}[op](a, b)
            ca, cb = const_int(a), const_int(b)
            if ca is not None and cb is not None:
                return {'BitAnd': ca & cb, 'BitOr': ca | cb, 'BitXor': ca ^ cb}[op]
            if op == 'BitAnd':
                for x, y in ((ca, b), (cb, a)):
                    if x is not None and x >= 0 and (x + 1) & x == 0:
                        return zI(y) % (x + 1)
                    if x == 0:
                        return 0
        if op in ('Shr', 'Shl'):
            ca, cb = const_int(a), const_int(b)
            if ca is not None and cb is not None:
                lo, hi = INT.get(ty, INT['u64'])
                return (ca >> cb) if op == 'Shr' else (ca << cb) & hi
            if cb is not None and op == 'Shr':
                return zI(a) / (2 ** cb)
        raise Unsupported('binop %s %r %r' % (op, a, b))

    def divrem(self, st, op, a, b):
        ca, cb = const_int(a), const_int(b)
        if ca is not None and cb:
            return ca // cb if op == 'Div' else ca % cb
        if cb == 1:
            return a if op == 'Div' else 0
        if isz(b) or isz(a):
            q = self.exact_div(a, b)
            if q is not None:
                return q if op == 'Div' else 0
        a, b = zI(a), zI(b)
        if cb is not None:
            return a / b if op == 'Div' else a % b
        # nonlinear: introduce the quotient by its defining property (operands are non-negative)
        key = ('div', a.get_id(), b.get_id())
        c = self.const_cache.get(key)
        if c is None:
            q = z3.Int(self.fresh('quot'))
            self.ranges[q.decl().name()] = (0, 2**200)
            c = (q, [q * b <= a, a < q * b + b], a, b)
            self.const_cache[key] = c
        q, facts = c[0], c[1]
        for x in facts:
            self.assume(st, z3.Implies(b > 0, x))
        return q if op == 'Div' else a - q * b

    # polynomial view of an integer expression: {monomial(tuple of sorted atom ids): coef}
    def poly(self, e, depth=0):
        c = const_int(e)
        if c is not None:
            return ({(): c} if c else {}), {}
        if depth > 40:
            return None
        k = e.decl().kind()
        if k == z3.Z3_OP_ADD:
            r, at = {}, {}
            for x in e.children():
                p = self.poly(x, depth + 1)
                for m, cc in p[0].items():
                    r[m] = r.get(m, 0) + cc
                at.update(p[1])
            return {m: c for m, c in r.items() if c}, at
        if k == z3.Z3_OP_SUB:
            r, at = {}, {}
            for j, x in enumerate(e.children()):
                p = self.poly(x, depth + 1)
                for m, cc in p[0].items():
                    r[m] = r.get(m, 0) + (cc if j == 0 else -cc)
                at.update(p[1])
            return {m: c for m, c in r.items() if c}, at
        if k == z3.Z3_OP_UMINUS:
            p = self.poly(e.arg(0), depth + 1)
            return {m: -c for m, c in p[0].items()}, p[1]
        if k == z3.Z3_OP_MUL:
            r, at = {(): 1}, {}
            for x in e.children():
                p = self.poly(x, depth + 1)
                n = {}
                for m1, c1 in r.items():
                    for m2, c2 in p[0].items():
                        m = tuple(sorted(m1 + m2))
                        n[m] = n.get(m, 0) + c1 * c2
                r = n
                at.update(p[1])
            return {m: c for m, c in r.items() if c}, at
        return {(e.get_id(),): 1}, {e.get_id(): e}

    def from_poly(self, p, at):
        out = []
        for m, c in p.items():
            t = None
            for i in m:
                t = at[i] if t is None else t * at[i]
            if t is None:
                out.append(z3.IntVal(c))
            else:
                out.append(t if c == 1 else c * t)
        if not out:
            return 0
        return out[0] if len(out) == 1 else z3.Sum(out)

    def exact_div(self, a, b):
        """a / b when b is a single atom (or constant times atom) dividing every monomial of a"""
        if not isz(a) or not isz(b):
            if not isz(a):
                return None
            return None
        pa, aa = self.poly(a)
        pb, ab = self.poly(b)
        if len(pb) != 1:
            return None
        (mb, cb), = pb.items()
        if not mb:
            return None
        out = {}
        for m, c in pa.items():
            if c % cb:
                return None
            l = list(m)
            for x in mb:
                if x in l:
                    l.remove(x)
                else:
                    return None
            out[tuple(l)] = c // cb
        return self.from_poly(out, aa)

    def as_bool_val(self, v):
        return v

    def rvalue(self, st, f, fid, rv, destty):
        k = rv[0]
        if k == 'use':
            return self.operand(st, f, fid, rv[1])
        if k == 'ref':
            root, path = self.resolve(st, f, fid, rv[2])
            return Ref(root, path)
        if k == 'bin':
            a = self.operand(st, f, fid, rv[2])
            b = self.operand(st, f, fid, rv[3])
            return self.binop(st, rv[1], a, b, self.optype(f, rv[2]) or self.optype(f, rv[3]) or norm(destty).strip('()').split(',')[0])
        if k == 'un':
            a = self.operand(st, f, fid, rv[2])
            if rv[1] == 'Not':
                if isinstance(a, bool) or (isz(a) and z3.is_bool(a)):
                    return b_not(a)
                t = self.optype(f, rv[2]) or norm(destty)
                lo, hi = INT[t]
                return i_sub(hi, a) if lo == 0 else i_sub(-1, a)
            if rv[1] == 'Neg':
                return i_sub(0, a)
        if k == 'discriminant':
            root, path = self.resolve(st, f, fid, rv[1])
            v = self.read(st, root, path)
            return self.discr(v)
        if k == 'len':
            root, path = self.resolve(st, f, fid, rv[1])
            return self.seq_len(self.read(st, root, path))
        if k == 'tuple':
            return Node(norm(destty), {i: self.operand(st, f, fid, o) for i, o in enumerate(rv[1])})
        if k == 'array':
            return Node(norm(destty), {('i', i): self.operand(st, f, fid, o) for i, o in enumerate(rv[1])})
        if k == 'repeat':
            v = self.operand(st, f, fid, rv[1])
            m = re.match(r'^(?:const )?(\d+)(?:_usize)?$', rv[2].strip())
            if m and int(m.group(1)) <= 64:
                return Node(norm(destty), {('i', i): v for i in range(int(m.group(1)))})
            return Opaque('repeat')
        if k == 'closure':
            return Node(rv[1], {i: self.operand(st, f, fid, o) for i, o in enumerate(rv[2])})
        if k == 'adt':
            return self.aggregate(st, f, fid, rv[1], rv[2], destty)
        if k == 'cast':
            return self.cast(st, f, fid, rv, destty)
        if k == 'null':
            if rv[1] == 'SizeOf':
                return self.size_of(rv[2])
            return 8
        if k == 'shallowbox':
            return self.alloc(st, Node('?box', {}), 'box')
        raise Unsupported('rvalue %r' % (rv,))

    def static_val(self, name, ty):
        return None

    def size_of(self, t):
        t = norm(t)
        if t in INT:
            return {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'usize': 8, 'u128': 16, 'i64': 8}.get(t, 8)
        n = 'sizeof.' + t
        return self.int_const(n, (0, 2**40))

    def discr(self, v):
        if isinstance(v, (Node, Lazy)):
            return self.get(v, 'd')
        if isinstance(v, Opaque):
            raise Unsupported('discriminant of opaque value (%s)' % v.why)
        raise Unsupported('discriminant of %r' % (v,))

    def aggregate(self, st, f, fid, path, fields, destty):
        vals = [self.operand(st, f, fid, o) for _, o in fields]
        p = norm(path)
        segs = re.split(r'::(?![^<]*>)', path)
        last = norm(segs[-1])
        dt = norm(destty)
        db = base_name(dt)
        if len(segs) >= 2 or True:
            d = self.discr_of(dt, last)
            if d is not None and base_name(last) != db:
                pay = Node(('variant', dt, last), {i: v for i, v in enumerate(vals)})
                return Node(dt, {'d': d, ('v', last): pay})
            if d is not None and not fields and db not in self.p.structs:
                return Node(dt, {'d': d})
        if base_name(last) == db or db in self.p.structs or self.p.structs.get(base_name(last)):
            return Node(dt, {i: v for i, v in enumerate(vals)})
        if len(segs) >= 2 and re.match(r'^[A-Z]', last) and base_name(segs[-2] if not segs[-2].startswith('<') else dt) == db:
            d = self.ext_discr(db, last)
            pay = Node(('variant', dt, last), {i: v for i, v in enumerate(vals)})
            return Node(dt, {'d': d, ('v', last): pay})
        return Node(dt, {i: v for i, v in enumerate(vals)})

    _ext = {}
    def ext_discr(self, ty, v):
        t = self._ext.setdefault(ty, {})
        return t.setdefault(v, 1000 + len(t))

    def cast(self, st, f, fid, rv, destty):
        v = self.operand(st, f, fid, rv[1])
        kind = rv[3]
        t = norm(rv[2])
        if kind == 'IntToInt':
            src = self.optype(f, rv[1])
            if isinstance(v, bool):
                return 1 if v else 0
            if isz(v) and z3.is_bool(v):
                return i_ite(v, 1, 0)
            if isinstance(v, (Node, Lazy)):
                v = self.discr(v)
            if t not in INT:
                return v
            lo, hi = INT[t]
            c = const_int(v)
            if c is not None:
                return (c - lo) % (hi - lo + 1) + lo
            if src in INT and INT[src][0] >= lo and INT[src][1] <= hi:
                return v
            # truncation: equal when in range, otherwise wrapped
            key = ('trunc', v.get_id(), t)
            c = self.const_cache.get(key)
            if c is None:
                r = z3.Int(self.fresh('trunc'))
                self.ranges[r.decl().name()] = (lo, hi)
                q = z3.Int(self.fresh('wrap'))
                self.ranges[q.decl().name()] = (-2**140, 2**140)
                c = (r, z3.And(r == v - q * (hi - lo + 1), z3.Implies(z3.And(v >= lo, v <= hi), z3.And(q == 0, r == v))), v)
                self.const_cache[key] = c
            self.assume(st, c[1])
            return c[0]
        if kind.startswith('PointerCoercion') or kind in ('PtrToPtr', 'PointerExposeAddress', 'FnPtrToPtr'):
            return v
        if kind == 'Transmute':
            if t in ('usize', 'u64') and isinstance(v, (Ref, Lazy, Opaque)):
                return 0
            return v
        if kind.startswith(('IntToFloat', 'FloatToInt', 'FloatToFloat')):
            return Opaque('float')
        raise Unsupported('cast %s to %s' % (kind, t))

    # ---------------------------------------------------------------- control flow
    def cfg(self, f):
        c = self._cfg.get(id(f))
        if c is not None:
            return c
        self.p.parse(f)
        succ = {}
        for b, st in f.blocks.items():
            if st is None:
                continue
            t = st[-1] if st else ('unreachable', None)
            if t[0] == 'goto':
                succ[b] = [t[1]]
            elif t[0] == 'switch':
                succ[b] = [x for _, x in t[2]] + ([t[3]] if t[3] is not None else [])
            elif t[0] == 'drop':
                succ[b] = [t[2]]
            elif t[0] == 'assert':
                succ[b] = [t[4]]
            elif t[0] == 'call':
                succ[b] = [t[4]] if t[4] is not None else []
            else:
                succ[b] = []
        # back edges by iterative DFS
        heads = {}
        color = {}
        stack = [(0, iter(succ.get(0, [])))]
        color[0] = 1
        back = []
        while stack:
            b, it = stack[-1]
            for n in it:
                if f.blocks.get(n) is None:
                    continue
                if color.get(n) == 1:
                    back.append((b, n))
                elif n not in color:
                    color[n] = 1
                    stack.append((n, iter(succ.get(n, []))))
                    break
            else:
                color[b] = 2
                stack.pop()
        pred = {}
        for b, ss in succ.items():
            for x in ss:
                pred.setdefault(x, []).append(b)
        for b, h in back:
            body = heads.setdefault(h, {h})
            todo = [b]
            while todo:
                x = todo.pop()
                if x in body:
                    continue
                body.add(x)
                todo.extend(pred.get(x, []))
        # liveness (locals read before written), address-taken locals are always live
        c = (succ, heads)
        self._cfg[id(f)] = c
        return c

    def run_fn(self, f, args, st, why='', tyenv=None):
        """execute f; -> [(state, return value)]"""
        self.p.parse(f)
        if len(self.stack) > self.max_depth:
            raise Unsupported('call depth')
        if any(x[0] is f for x in self.stack) and sum(1 for x in self.stack if x[0] is f) > 2:
            raise Unsupported('recursion in %s' % f.name)
        fid = next(self.fid)
        n0 = len(st.mem)
        for a, v in zip(f.args, args):
            st.mem[('L', fid, a)] = v
        self.stack.append((f, fid))
        self.tenvs.append(tyenv if tyenv is not None or f.kind != 'fn' else (self.tenvs[-1] if why == 'closure' and self.tenvs else None))
        self.inlined[f.name] = self.inlined.get(f.name, 0) + 1
        try:
            outs = self.exec(f, fid, [(st, 0)], frozenset(), None)
        finally:
            self.stack.pop()
            self.tenvs.pop()
        res = []
        for kind, s, v in outs:
            if kind != 'ret':
                raise Unsupported('escaped loop edge')
            if f.kind == 'fn':
                for k in [k for k in s.mem if k[0] == 'L' and k[1] == fid]:
                    del s.mem[k]
            res.append((s, v))
        return self.merge_pure(st, res, f)

    def merge_pure(self, st0, res, f):
        """join the outcomes of a call (per constructor of the result) into one state each; a fresh selector
        per outcome keeps the join exact"""
        if len(res) < 2 or f.kind != 'fn':
            return res
        groups = {}
        for s, v in res:
            d = None
            if isinstance(v, Node) and 'd' in v.f and base_name(v.ty if isinstance(v.ty, str) else '') in ('Option', 'Result', 'ControlFlow'):
                d = const_int(v.f['d'])
            groups.setdefault((d, tuple(id(x) for x in s.trace), len(s.taint)), []).append((s, v))
        out = []
        for g in groups.values():
            if len(g) > 1:
                try:
                    g = [self.merge_states(g)]
                except Unsupported:
                    pass
            out += g
        return out

    no_merge = 0
    def merge_states(self, g):
        if self.no_merge:
            raise Unsupported('merging inside a predicate')
        s0, v0 = g[0]
        n = 0
        mn = min(len(s.pc) for s, _ in g)
        while n < mn and all(s.pc[n] is s0.pc[n] or s.pc[n].eq(s0.pc[n]) for s, _ in g):
            n += 1
        nq = 0
        mq = min(len(s.q) for s, _ in g)
        while nq < mq and all(s.q[nq] is s0.q[nq] for s, _ in g):
            nq += 1
        # activation conditions
        if len(g) == 2 and len(g[0][0].pc) > n and len(g[1][0].pc) > n and b_not(g[0][0].pc[n]).eq(g[1][0].pc[n]):
            conds = [g[0][0].pc[n]]
        else:
            conds = [z3.Bool(self.fresh('join')) for _ in g[:-1]]
        acts, neg = [], []
        for c in conds:
            acts.append(b_and(*(neg + [c])))
            neg.append(b_not(c))
        acts.append(b_and(*neg))
        def fold(vals, f):
            r = vals[-1]
            for c, x in list(zip(conds, vals))[::-1]:
                r = f(c, x, r)
            return r
        v = fold([x for _, x in g], self.ite_val)
        mem = {}
        keys = set()
        for s, _ in g:
            keys |= set(s.mem)
        for k in keys:
            vals = []
            for s, _ in g:
                x = s.mem.get(k)
                if x is None and k[0] == 'Z':
                    x = self.mk(k[1], self.ztypes.get(k[1]))
                vals.append(x)
            if any(x is None for x in vals):
                continue
            if all(x is vals[0] for x in vals):
                mem[k] = vals[0]
            else:
                mem[k] = fold(vals, self.ite_val)
        ghost = {}
        for k in set().union(*[s.ghost.keys() for s, _ in g]):
            vals = [s.ghost.get(k) for s, _ in g]
            if any(x is None for x in vals):
                have = next((x for x in vals if x is not None), None)
                if have is None:
                    continue
                if not isz(have):
                    raise Unsupported('merge of ghost %s' % k)
                vals = [x if x is not None else z3.Const(self.fresh('noghost'), have.sort()) for x in vals]
            ghost[k] = vals[0] if all(x is vals[0] for x in vals) else fold(vals, self.ite_val)
        out = s0.fork()
        out.pc = PC(s0.pc[:n])
        out.q = s0.q[:nq]
        out.mem, out.ghost = mem, ghost
        for (s, _), a in zip(g, acts):
            for c in s.pc[n:]:
                self.assume(out, implies(a, c))
            for sc in s.q[nq:]:
                out.q.append(Schema_(sc.sort, lambda *t, a=a, sc=sc: guard(a, sc.fn(*t)), sc.name))
        return (out, v)

    def ite_val(self, c, a, b):
        if same(a, b):
            return a
        if hasattr(a, 'FIELDS') and type(a) is type(b):
            if not self.merge_arrays:
                raise Unsupported('merge of different collections')
            r = a.copy()
            for x in a.FIELDS:
                p, q = getattr(a, x), getattr(b, x)
                setattr(r, x, p if p.eq(q) else z3.If(c, p, q))
            return r
        scal = lambda x: isinstance(x, (int, bool)) or isz(x)
        if scal(a) and scal(b):
            if isz(a) and a.sort().kind() == z3.Z3_ARRAY_SORT and not self.merge_arrays:
                raise Unsupported('merge of different arrays')
            return i_ite(c, a, b)
        if isinstance(a, (Node, Lazy)) and isinstance(b, (Node, Lazy)):
            ba = a if isinstance(a, Lazy) else a.base
            bb = b if isinstance(b, Lazy) else b.base
            fa = a.f if isinstance(a, Node) else {}
            fb = b.f if isinstance(b, Node) else {}
            ty = a.ty if a.ty else b.ty
            if (ba is None) == (bb is None) and (ba is None or ba.name == bb.name):
                f = {}
                for k in list(fa) + [k for k in fb if k not in fa]:
                    if k in fa and k in fb:
                        f[k] = self.ite_val(c, fa[k], fb[k])
                    elif ba is not None:
                        x, y = fa.get(k), fb.get(k)
                        f[k] = self.ite_val(c, self.get(ba, k) if x is None else x, self.get(ba, k) if y is None else y)
                    elif isinstance(k, tuple) and k[0] == 'v':
                        f[k] = fa.get(k, fb.get(k))
                    else:
                        raise Unsupported('merge')
                return Node(ty, f, ba)
            a2, b2 = self.expand(a), self.expand(b)
            if isinstance(a2, Node) and isinstance(b2, Node) and a2.base is None and b2.base is None and not (a2 is a and b2 is b):
                return self.ite_val(c, a2, b2)
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            return a
        raise Unsupported('merge of %r and %r' % (a, b))

    def expand(self, v):
        """fully materialise a struct value"""
        ty = v.ty
        if isinstance(v, Node) and v.base is None:
            return v
        base = v.base if isinstance(v, Node) else v
        over = v.f if isinstance(v, Node) else {}
        if isinstance(ty, tuple):
            f, i = {}, 0
            while True:
                t = self.field_type(ty, i)
                if t is None or (base_name(ty[1]) in ('Option', 'Result', 'ControlFlow') and i > 0):
                    break
                x = over.get(i)
                if x is None:
                    x = self.get(base, i, t)
                if isinstance(x, (Lazy, Node)):
                    x = self.expand(x)
                f[i] = x
                i += 1
            return Node(ty, f)
        b = base_name(ty)
        fl = self.p.structs.get(b)
        if isinstance(fl, list) and fl:
            f = {}
            for i, (n, t) in enumerate(fl):
                x = over.get(i)
                if x is None:
                    x = self.get(base, i, t)
                if isinstance(x, (Lazy, Node)):
                    x = self.expand(x)
                f[i] = x
            return Node(ty, f)
        if ty.startswith('(') and ty != '()':
            f = {}
            for i, t in enumerate(split_top(ty[1:-1])):
                x = over.get(i)
                if x is None:
                    x = self.get(base, i, t)
                if isinstance(x, (Lazy, Node)):
                    x = self.expand(x)
                f[i] = x
            return Node(ty, f)
        vs = self.p.enums.get(b)
        if vs and not ty.startswith('&'):
            f = {'d': self.get(v, 'd')}
            for name in vs:
                k = ('v', name)
                if k in over:
                    f[k] = over[k]
                    continue
                pl = Lazy(base.name + '#' + name, ('variant', ty, name))
                ft = {}
                i = 0
                while True:
                    t = self.field_type(('variant', ty, name), i)
                    if t is None or (b in ('Option', 'Result', 'ControlFlow') and i > 0):
                        break
                    x = self.get(pl, i, t)
                    if isinstance(x, Lazy):
                        x = self.expand(x)
                    ft[i] = x
                    i += 1
                f[k] = Node(('variant', ty, name), ft)
            return Node(ty, f)
        return v

    def exec(self, f, fid, starts, active, region, skip_head=None):
        """run from (state, block) pairs. Edges to a head in `active` are reported as ('back', (state, head)).
        region: if not None, blocks outside are dropped (trial runs)."""
        succ, heads = self.cfg(f)
        rpo = self.rpo(f)
        outs = []
        pend = {}
        for s, b in starts:
            pend.setdefault((rpo.get(b, 0), b, b == skip_head), []).append(s)
        while pend:
            # the skipped loop head first, then blocks in topological order: every predecessor of a join is done before it
            key = min(pend, key=lambda k: (not k[2], k[0]))
            _, bb, skip = key
            sts = pend.pop(key)
            if region is not None and bb not in region:
                continue
            if bb in heads and not skip and bb in active:
                for st in sts:
                    outs.append(('back', st, bb))
                continue
            if len(sts) > 1 and self.join:
                sts = self.join_states(f, fid, bb, sts)
            if bb in heads and not skip:
                for st in sts:
                    outs.extend(self.do_loop(f, fid, bb, st, active, region))
                continue
            body = f.blocks[bb]
            if body is None:
                continue
            for st in sts:
                for nst, nb in self.block(f, fid, st, bb, body, outs):
                    pend.setdefault((rpo.get(nb, 0), nb, False), []).append(nst)
        return outs

    join = True
    merge_arrays = False
    def rpo(self, f):
        k = ('rpo', id(f))
        r = self._cfg.get(k)
        if r is None:
            succ, heads = self.cfg(f)
            seen, order = {0}, []
            stack = [(0, iter(succ.get(0, [])))]
            while stack:
                b, it = stack[-1]
                for n in it:
                    if n not in seen and f.blocks.get(n) is not None:
                        seen.add(n)
                        stack.append((n, iter(succ.get(n, []))))
                        break
                else:
                    order.append(b)
                    stack.pop()
            # the loops of the region must be finished before what follows them: plain reverse postorder is
            # topological on the forward edges
            r = {b: i for i, b in enumerate(reversed(order))}
            self._cfg[k] = r
        return r

    def live_in(self, f):
        """locals read before they are written, per block; locals whose address is taken count as always live"""
        k = ('live', id(f))
        r = self._cfg.get(k)
        if r is not None:
            return r
        succ, heads = self.cfg(f)
        taken = set()
        def place(pl, uses, dest=False):
            if not dest or pl[1]:
                uses.add(pl[0])
            for p in pl[1]:
                if p[0] == 'ix':
                    uses.add(p[1])
        def walk(x, uses):
            if isinstance(x, tuple) and x:
                if x[0] == 'place':
                    place(x[1], uses)
                    return
                if x[0] == 'ref':
                    if not any(p[0] == 'd' for p in x[2][1]):
                        taken.add(x[2][0])
                    place(x[2], uses)
                    return
                if x[0] in ('discriminant', 'len'):
                    place(x[1], uses)
                    return
                for y in x:
                    walk(y, uses)
            elif isinstance(x, list):
                for y in x:
                    walk(y, uses)
        gen, kill = {}, {}
        for b, sts in f.blocks.items():
            g, kl = set(), set()
            for s in sts or []:
                u, d = set(), None
                t = s[0]
                if t == 'assign':
                    walk(s[2], u)
                    place(s[1], u, True)
                    d = s[1][0] if not s[1][1] else None
                elif t == 'call':
                    for a in s[3]:
                        walk(a, u)
                    place(s[1], u, True)
                    m = re.match(r'^(?:move|copy) (.*)$', s[2])
                    if m:
                        place(__import__('mir').parse_place(m.group(1)), u)
                    d = s[1][0] if not s[1][1] else None
                elif t in ('switch', 'assert', 'assume'):
                    walk(s[1], u)
                elif t in ('drop', 'setdiscr'):
                    place(s[1], u)
                elif t == 'return':
                    u.add(0)
                g |= u - kl
                if d is not None:
                    kl.add(d)
            gen[b], kill[b] = g, kl
        live = {b: set() for b in f.blocks}
        ch = True
        while ch:
            ch = False
            for b in f.blocks:
                o = set()
                for n in succ.get(b, []):
                    o |= live.get(n, set())
                n = gen[b] | (o - kill[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        r = (live, taken)
        self._cfg[k] = r
        return r

    def join_states(self, f, fid, bb, sts):
        live, taken = self.live_in(f)
        keep = live.get(bb, set()) | taken
        groups = {}
        for s in sts:
            for k in [k for k in s.mem if k[0] == 'L' and k[1] == fid and k[2] not in keep]:
                del s.mem[k]
            sig = []
            for k in sorted((k for k in s.mem if k[0] == 'L' and k[1] == fid), key=lambda k: k[2]):
                d = self.shape(s.mem[k])
                if d:
                    sig.append((k[2], d))
            groups.setdefault((tuple(sig), tuple(id(x) for x in s.trace), len(s.taint)), []).append(s)
        out = []
        for g in groups.values():
            while len(g) > 1:
                done = []
                for j in range(1, len(g)):
                    try:
                        m, _ = self.merge_states([(g[0], UNIT), (g[j], UNIT)])
                        g[0] = m
                        done.append(j)
                    except Unsupported:
                        pass
                out.append(g[0])
                g = [x for j, x in enumerate(g) if j and j not in done]
            out += g
        return out

    def shape(self, v, depth=0):
        """the constant discriminants of a value (states that differ in them are kept apart)"""
        if not isinstance(v, Node) or depth > 4:
            return ()
        out = []
        if 'd' in v.f:
            out.append(const_int(v.f['d']))
        for k in v.f:
            if k != 'd' and isinstance(v.f[k], Node):
                x = self.shape(v.f[k], depth + 1)
                if x:
                    out.append((str(k), x))
        return tuple(sorted(out, key=str))

    def block(self, f, fid, st, bb, body, outs):
        for s in body:
            k = s[0]
            self.steps += 1
            if k in ('StorageLive', 'nop'):
                continue
            if k == 'StorageDead':
                continue
            if k == 'assign':
                lt = f.locals[s[1][0]] if not s[1][1] else self.place_type(f, s[1])
                v = self.rvalue(st, f, fid, s[2], self.subst(lt) if self.tenvs and self.tenvs[-1] else lt)
                if not s[1][1]:
                    st.mem[('L', fid, s[1][0])] = v
                else:
                    root, path = self.resolve(st, f, fid, s[1])
                    self.write(st, root, path, v)
                continue
            if k == 'assume':
                v = self.operand(st, f, fid, s[1])
                self.assume(st, v)
                continue
            if k == 'setdiscr':
                root, path = self.resolve(st, f, fid, s[1])
                self.write(st, root, path + ('d',), s[2])
                continue
            if k == 'goto':
                return [(st, s[1])]
            if k == 'return':
                v = st.mem.get(('L', fid, 0), UNIT)
                outs.append(('ret', st, v))
                self.npaths += 1
                if self.npaths > self.path_budget:
                    raise Unsupported('path budget exceeded in %s' % f.name)
                return []
            if k in ('unreachable', 'resume'):
                return []
            if k == 'drop':
                self.do_drop(st, f, fid, s)
                return [(st, s[2])]
            if k == 'switch':
                return self.switch(st, f, fid, s)
            if k == 'assert':
                c = self.operand(st, f, fid, s[1])
                cond = c if s[2] else b_not(c)
                self.on_assert(st, f, s, cond)
                kc = const_bool(cond)
                if kc is False:
                    return []
                if kc is None:
                    self.assume(st, cond)
                return [(st, s[4])]
            if k == 'call':
                return self.do_call(f, fid, st, s, outs)
            if k == 'bad':
                raise Unsupported('MIR syntax: %s' % s[1][:160])
            raise Unsupported('statement %r' % (s,))
        return []

    def on_assert(self, st, f, s, cond):
        pass

    def do_drop(self, st, f, fid, s):
        h = getattr(self, 'drop_hook', None)
        if h:
            h(self, st, f, fid, s)

    def place_type(self, f, place):
        loc, projs = place
        for p in reversed(projs):
            if p[0] == 'f':
                if p is projs[-1]:
                    return p[2]
                break
        t = self.optype(f, ('place', place))
        return t or '?'

    def switch(self, st, f, fid, s):
        v = self.operand(st, f, fid, s[1])
        if isinstance(v, (Opaque, Lazy, Node)):
            raise Unsupported('switch on %r at %s' % (v, s[-1]))
        if isinstance(v, bool):
            v = 1 if v else 0
        if isz(v) and z3.is_bool(v):
            out = []
            tgt = {0: None, 1: None}
            for val, b in s[2]:
                tgt[val] = b
            for val in (0, 1):
                if tgt[val] is None:
                    tgt[val] = s[3]
            for ns, r in self.branch(st, v):
                out.append((ns, tgt[1 if r else 0]))
            return out
        c = const_int(v)
        if c is not None:
            for val, b in s[2]:
                if val == c or (c < 0 and val == c % (1 << 64)) or (c < 0 and val in (255, 2**64 - 1) and c == -1):
                    return [(st, b)]
            return [(st, s[3])] if s[3] is not None else []
        out = []
        cur = st
        alive = True
        for val, b in s[2]:
            vv = -1 if val in (255, 2**64 - 1, 2**128 - 1) and self.signed_switch(f, s) else val
            r = self.branch(cur, cmp_op('Eq', v, vv))
            nxt = None
            for ns, t in r:
                if t:
                    out.append((ns, b))
                else:
                    nxt = ns
            if nxt is None:
                alive = False
                break
            cur = nxt
        if alive and s[3] is not None:
            out.append((cur, s[3]))
        return out

    def signed_switch(self, f, s):
        t = self.optype(f, s[1])
        return t in ('i8', 'i64', 'isize', 'i32', 'i128')

    # ---------------------------------------------------------------- loops
    def do_loop(self, f, fid, head, st, active, region):
        succ, heads = self.cfg(f)
        body = heads[head]
        prov = self.loop_provider(f)
        entry = st.fork()
        # trial runs: find what the loop changes
        mods = {}           # (root, path) -> None
        gmods = set()
        self.mute += 1
        try:
            for it in range(10):
                cur = entry.fork()
                self.havoc(f, fid, cur, mods, gmods, 'trial%d' % it)
                if prov:
                    for lab, inv in self.inv_list(prov, f, fid, head, entry, cur, assume=True, mods=mods):
                        self.assume(cur, inv)
                if it > 0 and not self.feasible(cur):
                    raise Unsupported('loop invariant of %s contradicts the entry state' % f.last)
                ref = cur.fork()
                outs = self.exec(f, fid, [(cur, head)], active | {head}, body if region is None else body & region, skip_head=head)
                grew = False
                for kind, s, hb in outs:
                    if kind == 'back' and hb == head:
                        for k in ref.mem:
                            if k in s.mem and s.mem[k] is not ref.mem[k]:
                                for path in self.diff(ref.mem[k], s.mem[k]):
                                    if not self.covered(mods, k, path):
                                        mods[(k, path)] = None
                                        grew = True
                        for k in s.mem:
                            if k not in ref.mem and k[0] == 'Z':
                                base = self.mk(k[1], self.ztypes.get(k[1]))
                                for path in self.diff(base, s.mem[k]):
                                    if not self.covered(mods, k, path):
                                        mods[(k, path)] = None
                                        grew = True
                        for g in s.ghost:
                            if g not in ref.ghost or not same(s.ghost[g], ref.ghost[g]):
                                if g not in gmods:
                                    gmods.add(g)
                                    grew = True
                        if s.trace != ref.trace:
                            if 'trace' not in gmods and s.trace[:len(ref.trace)] == ref.trace:
                                pass
                if not grew:
                    break
            else:
                raise Unsupported('loop modification set of %s does not stabilise' % f.last)
        finally:
            self.mute -= 1
        name = '%s@%s' % (f.last, f.blocks[head][0][-1] if f.blocks[head] else head)
        # establish
        cand = []
        if prov:
            cand = self.inv_list(prov, f, fid, head, entry, entry, assume=False, mods=mods)
        hard = [(l, i) for l, i in cand if not l.startswith('?')]
        for lab, inv in hard:
            self.oblige(entry, '%s:loop-entry:%s' % (f.last, lab), inv, where=name)
        soft = [l for l, i in cand if l.startswith('?') and self.fast_prove(entry, i)]
        # Houdini on the soft candidates
        while True:
            cur = entry.fork()
            self.havoc(f, fid, cur, mods, gmods, 'loop')
            if cur.trace is not None:
                cur.trace = list(entry.trace)
            invs = self.inv_list(prov, f, fid, head, entry, cur, assume=True, mods=mods) if prov else []
            for l, i in invs:
                if not l.startswith('?') or l in soft:
                    self.assume(cur, i)
            if not soft:
                break
            self.mute += 1
            probe = cur.fork()
            outs = self.exec(f, fid, [(probe, head)], active | {head}, body if region is None else body & region, skip_head=head)
            self.mute -= 1
            bad = set()
            for kind, s, hb in outs:
                if kind == 'back' and hb == head:
                    for l, i in self.inv_list(prov, f, fid, head, entry, s, assume=False, mods=mods):
                        if l in soft and l not in bad and not self.fast_prove(s, i) and not self.pc_prove(s, i):
                            bad.add(l)
            if not bad:
                break
            self.houdini_dropped += [(f.last, l) for l in bad]
            soft = [l for l in soft if l not in bad]
        self.loops.append({'fn': f.last, 'at': name, 'modified': len(mods), 'invariants': [l for l, _ in hard] + soft})
        outs = self.exec(f, fid, [(cur, head)], active | {head}, region, skip_head=head)
        res = []
        for kind, s, x in outs:
            if kind == 'back' and x == head:
                if self.mute == 0:
                    for lab, inv in self.inv_list(prov, f, fid, head, entry, s, assume=False, mods=mods) if prov else []:
                        if not lab.startswith('?') or lab in soft:
                            self.oblige(s, '%s:loop-preserved:%s' % (f.last, lab), inv, where=name)
                h = getattr(self, 'on_back_edge', None)
                if h:
                    h(self, f, fid, s, entry)
                continue
            res.append((kind, s, x))
        return res

    def with_instances(self, seeds, schemas, base):
        import solve
        return solve.instantiate(seeds, schemas, base)

    def quick_prove(self, st, g):
        k = const_bool(g)
        if k is not None:
            return k
        s = z3.Solver()
        s.set('rlimit', 6000000)
        known = set()
        for c in self.with_instances(st.pc + [g], st.q, st.pc):
            s.add(c)
            self.add_ranges(s, c, known)
        self.add_ranges(s, g, known)
        s.add(z3.Not(g))
        return s.check() == z3.unsat

    def pc_prove(self, st, g, rlimit=1500000):
        """g follows from the path condition alone (nonlinear, no instantiation)"""
        k = const_bool(g)
        if k is not None:
            return k
        s = z3.Solver()
        s.set('rlimit', rlimit)
        known = set()
        for c in list(st.pc) + [z3.Not(g)]:
            s.add(c)
            self.add_ranges(s, c, known)
        return s.check() == z3.unsat

    def fast_prove(self, st, g):
        """g follows from the path condition alone (linear view, no instantiation)"""
        k = const_bool(g)
        if k is not None:
            return k
        u = self.unknown_feas
        r = not self.feasible(st, b_not(g))
        self.unknown_feas = u
        return r

    def covered(self, mods, root, path):
        for i in range(len(path) + 1):
            if (root, path[:i]) in mods:
                return True
        return False

    def inv_list(self, prov, f, fid, head, entry, cur, assume, mods=None):
        c = LoopCtx(self, f, fid, head, entry, cur)
        c.mods = mods
        c.assume = assume
        return list(prov(c))

    def loop_provider(self, f):
        p = self.invariants.get(f.last)
        if p is None:
            p = self.invariants.get('*')
        return p

    def diff(self, a, b, pre=()):
        if a is b or same(a, b):
            return []
        if isinstance(a, Lazy) and isinstance(b, Node) and b.base is not None and b.base.name == a.name:
            a = Node(a.ty, {}, a)
        if isinstance(a, Node) and isinstance(b, Node) and ((a.base is None and b.base is None) or (a.base and b.base and a.base.name == b.base.name)):
            out = []
            for k in set(a.f) | set(b.f):
                if k in a.f and k in b.f:
                    out += self.diff(a.f[k], b.f[k], pre + (k,))
                else:
                    try:
                        out += self.diff(self.get(a, k), self.get(b, k), pre + (k,))
                    except Unsupported:
                        return [pre]
            return out
        return [pre]

    def havoc(self, f, fid, st, mods, gmods, tag):
        for (root, path) in mods:
            try:
                old = self.read(st, root, path)
            except Unsupported:
                continue
            ty = self.path_type(f, fid, root, path)
            nm = self.fresh('%s.%s' % (tag, self.root_name(f, fid, root, path)))
            nv = self.havoc_val(st, old, nm, ty)
            if nv is None:
                if root[0] == 'L':
                    st.mem.pop(root, None)
                    continue
                raise Unsupported('cannot havoc %s%s' % (root, path))
            self.write(st, root, path, nv)
        for g in gmods:
            old = st.ghost.get(g)
            st.ghost[g] = self.havoc_val(st, old, self.fresh(tag + '.ghost.' + g), 'ghost')
        st.trace = list(st.trace)

    def havoc_val(self, st, old, nm, ty):
        if hasattr(old, 'havoc'):
            return old.havoc(self, st, nm)
        if ty == 'ghost':
            if isinstance(old, bool):
                return z3.Bool(nm)
            if isinstance(old, int):
                return z3.Int(nm)
            if isz(old):
                return z3.Const(nm, old.sort())
            return old
        if ty is not None:
            if ty == 'discr' or (isinstance(ty, tuple) and ty[0] == 'discr'):
                vals = self.enum_values(ty[1]) if isinstance(ty, tuple) else None
                self.ranges[nm] = (min(vals), max(vals)) if vals else (0, 2**31)
                return z3.Int(nm)
            if isinstance(ty, tuple):
                return Lazy(nm, ty)
            v = self.mk(nm, ty)
            if isinstance(v, Ref) or isinstance(v, Node) and v is not UNIT:
                return None
            if isinstance(v, Lazy) and not isinstance(old, (Lazy, Node)):
                return None
            return v
        if isinstance(old, bool) or (isz(old) and z3.is_bool(old)):
            return z3.Bool(nm)
        if isz(old):
            return z3.Const(nm, old.sort())
        if isinstance(old, int):
            return z3.Int(nm)
        return None

    def root_name(self, f, fid, root, path):
        if root[0] == 'L':
            return '_%d%s' % (root[2], ''.join('.%s' % (p,) for p in path if not isz(p))[:40])
        return str(root[1])[:40] + ''.join('.%s' % (p,) for p in path if isinstance(p, int))

    def path_type(self, f, fid, root, path):
        if root[0] == 'L':
            ff = next((x for x, i in self.stack if i == root[1]), None)
            if ff is None:
                return None
            ty = norm(ff.locals[root[2]])
        elif root[0] == 'Z':
            ty = norm(self.ztypes.get(root[1]) or '?')
        else:
            v = None
            return None
        for k in path:
            if k == 'd':
                return ('discr', ty)
            if isinstance(k, tuple) and k[0] == 'v':
                ty = ('variant', ty, k[1])
                continue
            if isinstance(k, tuple) and k[0] in 'k':
                return None
            ty = self.field_type(ty, k if isinstance(k, int) else 0)
            if ty is None:
                return None
            ty = norm(ty)
        return ty

    # ---------------------------------------------------------------- calls
    def do_call(self, f, fid, st, s, outs):
        _, dest, callee, args, tgt, span = s
        vals = [self.operand(st, f, fid, a) for a in args]
        tys = [self.optype(f, a) for a in args]
        dty = self.place_type(f, dest) if dest[1] else f.locals[dest[0]]
        if self.tenvs and self.tenvs[-1]:
            tys = [self.subst(t) for t in tys]
            dty = self.subst(norm(dty))
            callee = self.subst(callee)
        self.cur_span = span
        if tgt is None:
            # diverging call: panic => the transaction aborts
            h = getattr(self, 'on_panic', None)
            if h:
                h(self, st, f, callee, span)
            return []
        if callee.startswith(('move ', 'copy ')):
            fv = self.operand(st, f, fid, ('place', __import__('mir').parse_place(callee[5:])))
            res = self.invoke(fv, vals, st, dty)
        else:
            res = self.call(callee, vals, tys, norm(dty), st, span, f)
        nxt = []
        for ns, rv in res:
            if rv is None:
                rv = UNIT
            if not dest[1]:
                ns.mem[('L', fid, dest[0])] = rv
            else:
                root, path = self.resolve(ns, f, fid, dest)
                self.write(ns, root, path, rv)
            nxt.append((ns, tgt))
        return nxt

    def call(self, callee, vals, tys, dty, st, span, caller=None):
        c = self.parse_callee(callee)
        # frame-local generic substitution is not tracked: type parameters stay opaque
        h = self.contracts.get((c['self'], c['name'])) or self.contracts.get((None, c['name']))
        if h is not None and h.matches(c, tys):
            r = h.apply(self, st, c, vals, tys, dty, span)
            if r is not None:
                self.used_contracts[h.name] = self.used_contracts.get(h.name, 0) + 1
                return r
        r = self.std.pre(self, c, vals, tys, dty, st, span)
        if r is not None:
            return r
        self.cur_state = st
        g = self.resolve_local(c, tys, dty, vals)
        if g is not None:
            return self.run_fn(g, vals, st, 'inline', self.tyenv_of(g, tys, dty))
        r = self.std.call(self, c, vals, tys, dty, st, span)
        if r is not None:
            k = '%s::%s' % (c['self'], c['name']) if c['self'] else c['name']
            self.used_summaries[k] = self.used_summaries.get(k, 0) + 1
            return r
        return self.unknown_call(c, vals, tys, dty, st, span)

    def unknown_call(self, c, vals, tys, dty, st, span):
        nm = c['raw']
        self.unmodelled[nm] = self.unmodelled.get(nm, 0) + 1
        for v, t in zip(vals, tys):
            if isinstance(v, Ref) and t and t.startswith('&mut'):
                try:
                    old = self.load(st, v)
                    if isinstance(old, (Lazy, Node)) and isinstance(old.ty, str):
                        self.store(st, v, Lazy(self.fresh('havoc'), old.ty))
                    elif isz(old) or isinstance(old, int):
                        nv = self.havoc_val(st, old, self.fresh('havoc'), None)
                        self.store(st, v, nv)
                except Unsupported:
                    pass
        st.taint.append('unmodelled call %s at %s' % (nm, span))
        return [(st, self.mk(self.fresh('ret.' + c['name']), dty))]

    _callee_cache = {}
    def parse_callee(self, s):
        r = self._callee_cache.get(s)
        if r is not None:
            return r
        raw = s
        t = norm(s)
        out = {'raw': raw, 'self': None, 'trait': None, 'name': None, 'targs': [], 'traitargs': [], 'selfty': None, 'dyn': False}
        if t.startswith('<'):
            d = 0
            for i, ch in enumerate(t):
                if ch == '<':
                    d += 1
                elif ch == '>' and t[i - 1] not in '-=':
                    d -= 1
                    if d == 0:
                        break
            inner, rest = t[1:i], t[i + 1:]
            # rest: ::name<..>
            rest = rest[2:] if rest.startswith('::') else rest
            m = re.match(r'^([A-Za-z_0-9]+)', rest)
            out['name'] = m.group(1)
            out['targs'] = generic_args(rest)
            # split ' as '
            d = 0
            pos = -1
            for i in range(len(inner)):
                ch = inner[i]
                if ch in '<([{':
                    d += 1
                elif ch in ')]}' or (ch == '>' and inner[i - 1] not in '-='):
                    d -= 1
                elif d == 0 and inner.startswith(' as ', i):
                    pos = i
                    break
            if pos >= 0:
                out['selfty'] = inner[:pos]
                tr = inner[pos + 4:]
                out['trait'] = base_name(tr)
                out['traitargs'] = generic_args(tr)
            else:
                out['selfty'] = inner
            out['dyn'] = 'dyn ' in out['selfty'][:9]
            out['self'] = base_name(out['selfty'])
        else:
            # Path::m  — norm strips lowercase and uppercase path segments alike, so work on the raw text
            r = s
            r = re.sub(r"'[a-z_][a-z0-9_]*\b", "'_", r)
            segs = []
            d = 0
            start = 0
            i = 0
            while i < len(r):
                ch = r[i]
                if ch in '<([{':
                    d += 1
                elif ch in ')]}' or (ch == '>' and r[i - 1] not in '-='):
                    d -= 1
                elif d == 0 and r.startswith('::', i):
                    segs.append(r[start:i])
                    i += 2
                    start = i
                    continue
                i += 1
            segs.append(r[start:])
            # merge generic segments
            g = []
            for x in segs:
                if x.startswith('<') and not x.startswith('<impl') and g:
                    g[-1] = g[-1] + x
                else:
                    g.append(x)
            last = g[-1]
            m = re.match(r'^(\{?[A-Za-z_0-9#]+\}?)', last)
            out['name'] = m.group(1)
            out['targs'] = generic_args(last)
            if len(g) >= 2:
                sg = g[-2]
                mi = re.match(r'^<impl (.*)>$', sg)
                if mi:
                    out['selfty'] = norm(mi.group(1))
                    out['self'] = base_name(out['selfty']) if not out['selfty'].startswith('[') else '[]'
                elif re.match(r'^[A-Z]', sg) or sg in ('str',):
                    out['selfty'] = norm(sg)
                    out['self'] = base_name(out['selfty'])
                else:
                    out['mod'] = '::'.join(g[:-1])
        self._callee_cache[s] = out
        return out

    def resolve_local(self, c, tys, dty, vals):
        cands = [g for g in self.p.by_last.get(c['name'], []) if g.kind == 'fn' and len(g.args) == len(vals)]
        if not cands:
            return None
        selfb = c['self']
        if c['trait']:
            sb = selfb
            conc = None
            if c['dyn'] or sb in ('Self',):
                conc = self.concrete_self(c, vals)
                if conc:
                    sb = conc
            good = []
            for g in cands:
                if g.impl_trait == 'TryFromPrimitive' and c['trait'] in ('TryFrom', 'TryFromPrimitive'):
                    ga = generic_args(g.ret)
                    if ga and base_name(ga[0]) == sb:
                        good.append(g)
                    continue
                if g.impl_trait is None or base_name(g.impl_trait) != c['trait']:
                    continue
                if g.impl_self is not None and '$' not in g.impl_self:
                    if base_name(g.impl_self) != sb:
                        continue
                    ta = generic_args(g.impl_trait)
                    if c['traitargs'] and ta and [norm(x) for x in ta] != [norm(x) for x in c['traitargs']] and len(ta) == len(c['traitargs']) and not any('MarketTraderId' in x or 'Pubkey' in x or len(x) <= 2 for x in ta + c['traitargs']):
                        continue
                    # macro impls with concrete header but operand type still decides
                    good.append(g)
                else:
                    # derive / macro: match on the signature
                    if g.argtys:
                        if base_name(g.argtys[0]) != sb and not (c['trait'] in ('From', 'Default') and base_name(g.ret) == sb) and not (c['trait'] == 'WrapperU64' and base_name(g.ret) == sb):
                            continue
                        if c['traitargs'] and len(g.argtys) > 1 and c['trait'] in ('Add', 'Sub', 'Mul', 'Div', 'Rem', 'AddAssign', 'SubAssign', 'PartialEq', 'PartialOrd'):
                            if base_name(g.argtys[1]) != base_name(c['traitargs'][0]):
                                continue
                        elif not c['traitargs'] and len(g.argtys) > 1 and c['trait'] in ('Add', 'Sub', 'Mul', 'Div', 'Rem', 'AddAssign', 'SubAssign', 'PartialEq', 'PartialOrd', 'Ord'):
                            if base_name(g.argtys[1]) != sb:
                                continue
                        if c['trait'] == 'From' and c['traitargs'] and base_name(g.argtys[0]) != base_name(c['traitargs'][0]):
                            continue
                    else:
                        if base_name(g.ret) != sb:
                            continue
                    good.append(g)
            if c['trait'] in ('Add', 'Sub', 'Mul', 'Div', 'Rem', 'AddAssign', 'SubAssign') and len(good) > 1:
                want = base_name(c['traitargs'][0]) if c['traitargs'] else sb
                good = [g for g in good if base_name(g.argtys[1]) == want and base_name(g.argtys[0]) == sb]
            if len(good) == 1:
                return good[0]
            if len(good) > 1:
                g2 = [g for g in good if norm(g.ret) == dty]
                if len(g2) == 1:
                    return g2[0]
                g2 = [g for g in good if [base_name(t) for t in g.argtys] == [base_name(t) if t else base_name(u) for t, u in zip(tys, g.argtys)]]
                if len(g2) == 1:
                    return g2[0]
                return None
            # trait-provided default method
            dflt = [g for g in cands if g.impl_trait is None and g.implspan is None and re.search(r'(^|::)%s::%s$' % (c['trait'], c['name']), g.name)]
            if len(dflt) == 1:
                return dflt[0]
            return None
        if selfb:
            good = []
            for g in cands:
                if g.implspan is not None:
                    if g.impl_trait is None and g.impl_self is not None and '$' not in g.impl_self:
                        if base_name(g.impl_self) == selfb:
                            good.append(g)
                    elif g.impl_trait is None and g.argtys and base_name(g.argtys[0]) == selfb:
                        good.append(g)
            if len(good) == 1:
                return good[0]
            if len(good) > 1:
                g2 = [g for g in good if norm(g.ret) == dty]
                if len(g2) == 1:
                    return g2[0]
            if not good:
                # trait method called through the trait path: Trait::method
                dflt = [g for g in cands if re.search(r'(^|::)%s::%s$' % (re.escape(selfb), c['name']), g.name)]
                if len(dflt) == 1:
                    return dflt[0]
            return None
        good = [g for g in cands if g.implspan is None]
        if len(good) == 1:
            return good[0]
        if len(good) > 1 and c.get('mod'):
            g2 = [g for g in good if g.name.endswith(c['mod'].split('::')[-1] + '::' + c['name'])]
            if len(g2) == 1:
                return g2[0]
        return None

    def concrete_self(self, c, vals):
        v = vals[0] if vals else None
        for _ in range(4):
            if not isinstance(v, Ref):
                break
            v = self.load(getattr(self, 'cur_state'), v) if getattr(self, 'cur_state', None) is not None else None
        t = getattr(v, 'ty', None)
        if isinstance(t, str) and base_name(t) != 'FIFOMarket' and any(g.impl_trait and base_name(g.impl_trait) == c['trait'] and g.impl_self and base_name(g.impl_self) == base_name(t) for g in self.p.by_last.get(c['name'], [])):
            return base_name(t)
        if isinstance(t, str) and base_name(t) in self.p.enums and c['self'] == 'Self':
            return base_name(t)
        h = getattr(self, 'dyn_hook', None)
        return h(self, c, vals) if h else None

    def invoke(self, fv, args, st, dty, byref=None):
        """call a closure / fn item / sink value with already spread arguments"""
        if isinstance(fv, Ref):
            inner = self.load(st, fv)
            return self.invoke(inner, args, st, dty, byref=fv)
        if isinstance(fv, Sink):
            h = self.sinks.get(fv.name)
            if h is None:
                raise Unsupported('sink %s' % fv.name)
            return h(self, st, args, self.cur_span)
        if isinstance(fv, FnItem):
            # fn item used as a value: type in path, or constructor
            p = fv.path
            m = re.match(r'^(.*)::(Some|Ok|Err)$', p)
            if m:
                d = norm(dty)
                if base_name(d) not in ('Option', 'Result'):
                    d = 'Option' if m.group(2) == 'Some' else 'Result'
                return [(st, Node(d, {'d': {'Some': 1, 'Ok': 0, 'Err': 1}[m.group(2)], ('v', m.group(2)): Node(('variant', d, m.group(2)), {0: args[0]})}))]
            return self.call(p, args, [None] * len(args), norm(dty) if dty else '?', st, self.cur_span)
        if isinstance(fv, Node) and isinstance(fv.ty, str) and fv.ty.startswith('{closure@'):
            g = self.p.closures.get(fv.ty)
            if g is None:
                raise Unsupported('closure %s' % fv.ty)
            t0 = g.argtys[0]
            if t0.startswith('&'):
                ref = byref or self.alloc(st, fv, 'clos')
                return self.run_fn(g, [ref] + list(args), st, 'closure')
            return self.run_fn(g, [fv] + list(args), st, 'closure')
        raise Unsupported('invoke %r' % (fv,))
