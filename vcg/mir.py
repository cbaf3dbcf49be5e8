"""Parser for rustc's textual MIR (rustc 1.75, -Zunpretty=mir -Zmir-opt-level=0 -Zmir-include-spans)
and for the struct/enum declarations of the same source tree."""
import os, re, hashlib

OPEN = {'(': ')', '[': ']', '{': '}'}

def match_close(s, i):
    """index of the bracket closing s[i]"""
    d = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c in '([{':
            d += 1
        elif c in ')]}':
            d -= 1
            if d == 0:
                return i
        i += 1
    raise ValueError('unbalanced: ' + s)

def split_top(s, sep=','):
    out = []
    d = 0
    a = 0
    start = 0
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c in '([{':
            d += 1
        elif c in ')]}':
            d -= 1
        elif c == '<':
            a += 1
        elif c == '>':
            if i > 0 and s[i - 1] in '-=':
                pass
            else:
                a = max(0, a - 1)
        elif c == sep and d == 0 and a == 0:
            out.append(s[start:i].strip())
            start = i + 1
        i += 1
    last = s[start:].strip()
    if last:
        out.append(last)
    return out

_LIFE = re.compile(r"'(?:[a-z_][a-z0-9_]*)\b ?")
_PATH = re.compile(r'(?:\b[A-Za-z_][A-Za-z_0-9]*::)+(?=[A-Za-z_{<\[])')
_norm_cache = {}

def norm(t):
    """short canonical type string: no lifetimes, no module paths"""
    r = _norm_cache.get(t)
    if r is None:
        clos = []
        def keep(m):
            clos.append(m.group(0))
            return '\x01%d\x01' % (len(clos) - 1)
        r = re.sub(r'\{closure@[^}]*\}', keep, t)
        r = r.replace('::<', '<')
        r = _LIFE.sub('', r)
        r = _PATH.sub('', r)
        r = re.sub(r'<(?:, )*>', '', r)
        r = re.sub(r'<, ', '<', r)
        r = re.sub(r'\bmut ', 'mut ', r)
        r = re.sub(r'\x01(\d+)\x01', lambda m: clos[int(m.group(1))], r)
        r = r.strip()
        _norm_cache[t] = r
    return r

def base_name(t):
    t = norm(t)
    while t.startswith('&'):
        t = t[1:].strip()
        if t.startswith('mut '):
            t = t[4:]
    if t.startswith('dyn '):
        t = t[4:]
    if t.startswith('{'):
        return t
    i = t.find('<')
    return t if i < 0 else t[:i]

def generic_args(t):
    t = norm(t)
    i = t.find('<')
    if i < 0:
        return []
    d = 0
    for j in range(i, len(t)):
        if t[j] == '<':
            d += 1
        elif t[j] == '>' and t[j - 1] not in '-=':
            d -= 1
            if d == 0:
                return split_top(t[i + 1:j])
    return []

# ---------------------------------------------------------------- places / operands / rvalues
_place_cache = {}

def parse_place(s):
    r = _place_cache.get(s)
    if r is None:
        r = _parse_place(s)
        _place_cache[s] = r
    return r

def _parse_place(s):
    """-> (local:int, (proj,...))"""
    s = s.strip()
    if s[0] == '(':
        c = match_close(s, 0)
        inner = s[1:c]
        rest = s[c + 1:]
        if inner[0] == '*':
            l, p = _parse_place(inner[1:])
            p = p + (('d',),)
        else:
            # prefix place then .N: ty or as Variant
            if inner[0] == '(':
                e = match_close(inner, 0) + 1
            else:
                e = re.match(r'_\d+', inner).end()
            while e < len(inner) and inner[e] == '[':
                e = match_close(inner, e) + 1
            l, p = _parse_place(inner[:e])
            tail = inner[e:]
            m = re.match(r'\.(\d+): (.*)$', tail, re.S)
            if m:
                p = p + (('f', int(m.group(1)), m.group(2)),)
            else:
                m = re.match(r' as (?:variant#)?(\S+)$', tail)
                if not m:
                    raise ValueError('place? ' + s)
                p = p + (('v', m.group(1)),)
    else:
        m = re.match(r'_(\d+)', s)
        if not m:
            raise ValueError('place? ' + s)
        l, p = int(m.group(1)), ()
        rest = s[m.end():]
    while rest:
        if rest[0] != '[':
            raise ValueError('place rest? ' + s)
        e = match_close(rest, 0)
        ix = rest[1:e]
        m = re.match(r'^_(\d+)$', ix)
        if m:
            p = p + (('ix', int(m.group(1))),)
        else:
            m = re.match(r'^(-?)(\d+) of (\d+)$', ix)
            if m:
                p = p + (('ci', int(m.group(2)), int(m.group(3)), bool(m.group(1))),)
            else:
                m = re.match(r'^(\d+):(-?)(\d*)$', ix)
                if not m:
                    raise ValueError('index? ' + s)
                p = p + (('sub', int(m.group(1)), m.group(3), bool(m.group(2))),)
        rest = rest[e + 1:]
    return l, p

BINOPS = {'Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitXor', 'BitAnd', 'BitOr', 'Shl', 'Shr', 'Eq', 'Lt', 'Le', 'Ne', 'Ge', 'Gt', 'Offset', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked', 'ShlUnchecked', 'ShrUnchecked',
          'CheckedAdd', 'CheckedSub', 'CheckedMul', 'CheckedShl', 'CheckedShr'}
UNOPS = {'Not', 'Neg'}
NULLOPS = {'SizeOf', 'AlignOf', 'OffsetOf'}

def parse_operand(s):
    s = s.strip()
    if s.startswith('move '):
        return ('place', parse_place(s[5:]))
    if s.startswith('copy '):
        return ('place', parse_place(s[5:]))
    if s.startswith('const '):
        return ('const', s[6:])
    if s[0] == '(' or re.match(r'^_\d', s):
        return ('place', parse_place(s))
    return ('const', s)          # function item printed without the keyword

def _find_top_as(s):
    d = 0
    i = 0
    last = -1
    while i < len(s):
        c = s[i]
        if c in '([{':
            d += 1
        elif c in ')]}':
            d -= 1
        elif d == 0 and s.startswith(' as ', i):
            last = i
            return last
        i += 1
    return -1

def parse_rvalue(s):
    s = s.strip()
    if s.startswith('&'):
        t = s[1:]
        kind = 'shared'
        if t.startswith('mut '):
            kind = 'mut'
            t = t[4:]
        elif t.startswith('raw const '):
            kind = 'raw'
            t = t[10:]
        elif t.startswith('raw mut '):
            kind = 'raw'
            t = t[8:]
        elif t.startswith('fake '):
            t = t[5:]
        return ('ref', kind, parse_place(t))
    m = re.match(r'^(discriminant|Len|deref_copy|ShallowInitBox)\b ?(.*)$', s, re.S)
    if m:
        k = m.group(1)
        if k == 'deref_copy':
            return ('use', ('place', parse_place(m.group(2))))
        inner = m.group(2)
        if inner[0] == '(' and k == 'ShallowInitBox':
            inner = inner[1:-1]
            a = split_top(inner)
            return ('shallowbox', parse_operand(a[0]), ','.join(a[1:]))
        if k in ('discriminant', 'Len'):
            return (k.lower(), parse_place(inner[1:match_close(inner, 0)]))
    if s[0] == '(':
        c = match_close(s, 0)
        if c == len(s) - 1:
            inner = s[1:-1].strip()
            # place like (*_1) or (_1.0: T) is never bare rvalue without move/copy except Use of place
            if inner == '':
                return ('tuple', [])
            if inner.startswith(('move ', 'const ')):
                return ('tuple', [parse_operand(x) for x in split_top(inner)])
            if inner[0] == '*' or re.match(r'^(_\d+|\(.*\))(\[[^\]]*\])*(\.\d+: | as )', inner):
                try:
                    return ('use', ('place', parse_place(s)))
                except ValueError:
                    pass
            return ('tuple', [parse_operand(x) for x in split_top(inner)])
    if s[0] == '[':
        inner = s[1:match_close(s, 0)]
        if match_close(s, 0) == len(s) - 1:
            if ';' in inner:
                parts = split_top(inner, ';')
                if len(parts) == 2:
                    return ('repeat', parse_operand(parts[0]), parts[1])
            return ('array', [parse_operand(x) for x in split_top(inner)])
    m = re.match(r'^([A-Z][A-Za-z]*)\(', s)
    if m and s.endswith(')') and match_close(s, m.end() - 1) == len(s) - 1:
        n = m.group(1)
        args = s[m.end():-1]
        if n in BINOPS:
            a = split_top(args)
            if len(a) == 2:
                return ('bin', n, parse_operand(a[0]), parse_operand(a[1]))
        if n in UNOPS:
            return ('un', n, parse_operand(args))
        if n in NULLOPS:
            return ('null', n, args)
    if s.startswith(('move ', 'copy ', 'const ', '_', '(')):
        i = _find_top_as(s)
        if i > 0 and s.endswith(')'):
            m = re.match(r'^(.*) \(([A-Za-z]+(?:\(.*\))?)\)$', s[i + 4:], re.S)
            if m:
                return ('cast', parse_operand(s[:i]), m.group(1), m.group(2))
        return ('use', parse_operand(s))
    # aggregates by path
    if s.startswith('{closure@'):
        c = match_close(s, 0)
        name = s[:c + 1]
        rest = s[c + 1:].strip()
        ops = []
        if rest.startswith('{'):
            for f in split_top(rest[1:match_close(rest, 0)]):
                k, v = f.split(': ', 1)
                ops.append(parse_operand(v))
        return ('closure', name, ops)
    if s.endswith('}'):
        i = s.index(' {')
        # find the top-level ' { '
        d = 0
        j = 0
        pos = -1
        while j < len(s):
            c = s[j]
            if c == '<':
                d += 1
            elif c == '>' and s[j - 1] not in '-=':
                d -= 1
            elif c == '{' and d == 0:
                pos = j
                break
            j += 1
        path = s[:pos].strip()
        fields = []
        for f in split_top(s[pos + 1:-1]):
            k, v = f.split(': ', 1)
            fields.append((k, parse_operand(v)))
        return ('adt', path, fields)
    if s.endswith(')'):
        # tuple variant / tuple struct
        d = 0
        j = len(s) - 1
        while j >= 0:
            if s[j] in ')]}':
                d += 1
            elif s[j] in '([{':
                d -= 1
                if d == 0:
                    break
            j -= 1
        path = s[:j].strip()
        args = split_top(s[j + 1:-1])
        return ('adt', path, [(str(k), parse_operand(a)) for k, a in enumerate(args)])
    return ('adt', s, [])

# ---------------------------------------------------------------- functions
class Fn:
    __slots__ = ('name', 'header', 'kind', 'raw', 'args', 'argtys', 'ret', 'locals', 'names', 'blocks',
                 'strs', '_parsed', 'last', 'implspan', 'file', 'is_cleanup', 'spans', 'body_hash', 'key', 'impl_trait', 'impl_self', 'owner')

    def __init__(self):
        self._parsed = False
        self.owner = None

_UNEVAL = re.compile(r'val: Unevaluated\((.*)\) \}\s*$')
_scope = re.compile(r'\s+// (?:scope \d+ )?(?:at|in scope \d+ at) (\S+?):(\d+):\d+: \d+:\d+(?: \(#\d+\))?\s*$')
_scope2 = re.compile(r'\s*// (?:scope|in scope) .*$')

class Program:
    def __init__(self, path, repo):
        self.repo = repo
        self.fns = []
        self.by_last = {}
        self.by_key = {}
        self.closures = {}
        self.promoted = {}
        self._load(path)
        self.structs, self.enums = parse_decls(repo)
        self._impl_headers()

    def _load(self, path):
        lines = open(path, encoding='utf8').read().split('\n')
        self.statics = {}
        sre = re.compile(r'^(alloc\d+) \((?:extern )?static: ([\w:]+)')
        for l in lines:
            if l.startswith('alloc'):
                m = sre.match(l)
                if m:
                    self.statics[m.group(1)] = m.group(2)
        i = 0
        n = len(lines)
        hdr = re.compile(r'^(fn|const|static|promoted\[\d+\] in|static mut) ?(.*) = \{|^fn (.*) \{$')
        while i < n:
            l = lines[i]
            if l and not l[0].isspace() and not l.startswith('//') and l.rstrip().endswith('{') or (l.startswith('fn ') and '{' in l):
                j = i + 1
                while j < n and lines[j] != '}':
                    j += 1
                self._add(re.sub(r'\s+// (?:scope|in scope) .*$', '', l).rstrip(), lines[i + 1:j])
                i = j + 1
            else:
                i += 1

    def _add(self, header, raw):
        f = Fn()
        f.header = header
        f.raw = raw
        f.kind = 'fn'
        h = header
        if h.startswith('fn '):
            h = h[3:]
            # name up to the argument list: first '(' at top level outside <> with _1 or empty, scanning
            m = re.search(r'\((?:_1: |\) ->)', h)
            if not m:
                return
            name = h[:m.start()]
            c = match_close(h, m.start())
            args = split_top(h[m.start() + 1:c])
            f.args = []
            f.argtys = []
            for a in args:
                k, t = a.split(': ', 1)
                f.args.append(int(k[1:]))
                f.argtys.append(t)
            m2 = re.match(r' -> (.*) \{$', h[c + 1:])
            f.ret = m2.group(1) if m2 else '()'
        else:
            m = re.match(r'^(promoted\[\d+\] in |const |static mut |static |)(.*) = \{$', h)
            if not m:
                return
            f.kind = m.group(1).strip() or 'const'
            nm = m.group(2)
            # NAME: TYPE
            k = None
            d = 0
            for idx in range(len(nm) - 1):
                if nm[idx] in '<([{':
                    d += 1
                elif nm[idx] in ')]}' or (nm[idx] == '>' and nm[idx - 1] not in '-='):
                    d -= 1
                elif nm[idx] == ':' and nm[idx + 1] == ' ' and d == 0:
                    k = idx
                    break
            if k is None:
                return
            name, f.ret = nm[:k], nm[k + 2:]
            f.args, f.argtys = [], []
            if f.kind.startswith('promoted'):
                name = name + '::' + f.kind.split(' ')[0]
                f.kind = 'promoted'
        f.name = name
        f.key = name
        f.implspan = re.search(r'<impl at ([^:]+):(\d+):(\d+): (\d+):(\d+)>', name)
        f.last = re.split(r'::(?![^<]*>)', name)[-1] if '::' in name else name
        f.impl_trait = f.impl_self = None
        # distinguish duplicates (macro-generated impls share a span): keep all under by_last
        self.fns.append(f)
        self.by_last.setdefault(f.last, []).append(f)
        self.by_key.setdefault(name, []).append(f)
        if f.args and f.kind == 'fn' and '{closure' in f.last:
            m = re.search(r'\{closure@[^}]*\}', f.argtys[0])
            if m:
                self.closures.setdefault(m.group(0), f)

    # -- lazily parse a body
    def parse(self, f):
        if f._parsed:
            return f
        f._parsed = True
        f.locals = {0: f.ret}
        for a, t in zip(f.args, f.argtys):
            f.locals[a] = t
        f.names = {}
        f.blocks = {}
        f.spans = {}
        f.strs = []
        f.is_cleanup = set()
        cur = None
        stmts = []      # list of [text, span, [uneval...]]
        for l in f.raw:
            t = l.strip()
            if not t:
                continue
            if t.startswith('//'):
                m = _UNEVAL.search(t)
                if m and stmts:
                    stmts[-1][2].append(m.group(1))
                continue
            sp = None
            m = re.search(r'\s+// (?:scope|in scope) \d+ at (.*)$', l)
            if m:
                sp = m.group(1)
                t = l[:m.start()].strip()
            if cur is None:
                m = re.match(r'^let (?:mut )?_(\d+): (.*);$', t)
                if m:
                    f.locals[int(m.group(1))] = m.group(2)
                    continue
                m = re.match(r'^debug (.*) => (.*);$', t)
                if m:
                    f.names.setdefault(m.group(1), []).append(m.group(2))
                    continue
                if t.startswith('scope ') or t == '}':
                    continue
            m = re.match(r'^bb(\d+)( \(cleanup\))?: \{$', t)
            if m:
                cur = int(m.group(1))
                if m.group(2):
                    f.is_cleanup.add(cur)
                stmts = []
                f.blocks[cur] = stmts
                continue
            if t == '}':
                continue
            if cur is not None:
                stmts.append([t, sp, []])
        for b, st in f.blocks.items():
            if b in f.is_cleanup:
                f.blocks[b] = None
                continue
            f.blocks[b] = [self._stmt(f, t, sp, un) for t, sp, un in st]
            self._captures(f.blocks[b])
        return f

    def _captures(self, stmts):
        """rustc prints a closure with as many operands as it captures variables; a closure that captures several places
        of one variable has more.  They are the temporaries made for it, in order."""
        live = []
        for i, s in enumerate(stmts):
            if s[0] == 'StorageLive':
                live.append(s[1])
            elif s[0] == 'StorageDead' and s[1] in live:
                live.remove(s[1])
            elif s[0] == 'assign' and s[2][0] == 'closure':
                g = self.closures.get(s[2][1])
                if g is None or not s[2][2]:
                    continue
                caps = [int(x) for x in re.findall(r'\(\(?\*?_1\)?\.(\d+):', '\n'.join(g.raw))]
                n = max(caps, default=-1) + 1
                ops = s[2][2]
                if n <= len(ops) or s[1][1] or s[1][0] not in live:
                    continue
                t = live[live.index(s[1][0]) + 1:]
                if len(t) == n and all(o == ('place', (x, ())) for o, x in zip(ops, t)):
                    stmts[i] = (s[0], s[1], ('closure', s[2][1], [('place', (x, ())) for x in t])) + tuple(s[3:])


    def _mask(self, f, t):
        def sub(m):
            f.strs.append(m.group(0))
            return '"#%d"' % (len(f.strs) - 1)
        return re.sub(r'b?"(?:[^"\\]|\\.)*"', sub, t)

    _srcs = {}
    def _src_text(self, sp):
        m = re.match(r'^(\S+?):(\d+):(\d+): (\d+):(\d+)', sp)
        if not m:
            return None
        fn = m.group(1)
        if fn not in self._srcs:
            p = fn if fn.startswith('/') else os.path.join(self.repo, fn)
            try:
                self._srcs[fn] = open(p).read().split('\n')
            except OSError:
                self._srcs[fn] = None
        L = self._srcs[fn]
        if L is None:
            return None
        a, b, c, d = (int(x) for x in m.groups()[1:])
        if a == c:
            return L[a - 1][b - 1:d - 1]
        return '\n'.join([L[a - 1][b - 1:]] + L[a:c - 1] + [L[c - 1][:d - 1]])

    def _src_consts(self, f, t, sp):
        """rustc prints scalar named constants as `const _`: recover the name from the source text of the statement"""
        src = self._src_text(sp)
        if src is None:
            return t
        names = [m.group(0) for m in re.finditer(r'(?:\w+::)*[A-Z]\w*::\w+ as u\w+|(?:\w+::)*[A-Z][A-Z0-9_]+\b(?!::|\()', src)]
        names = [re.sub(r' as u\w+$', '', n) for n in names]
        if not names:
            return t
        n = len(re.findall(r'const _(?![A-Za-z0-9_])', t))
        if n == 1 and re.search(r'[,(] ?(?:move |copy )?\(?_\d+[^,]*, const _(?![A-Za-z0-9_])', t):
            names = names[-1:]
        it = iter(names)
        def rep(m):
            x = next(it, None)
            if x is None:
                return m.group(0)
            f.strs.append(x)
            return 'const @%d' % (len(f.strs) - 1)
        return re.sub(r'const _(?![A-Za-z0-9_])', rep, t)

    def _stmt(self, f, t, sp, un):
        t = self._mask(f, t)
        if 'const _' in t and un:
            it = iter(un)
            def rep(m):
                try:
                    u = next(it)
                except StopIteration:
                    return m.group(0)
                f.strs.append(u)
                return 'const @%d' % (len(f.strs) - 1)
            t = re.sub(r'const _(?![A-Za-z0-9_])', rep, t)
        if re.search(r'const _(?![A-Za-z0-9_])', t) and sp:
            t = self._src_consts(f, t, sp)
        t = t.rstrip(';')
        try:
            return self._stmt2(f, t) + (sp,)
        except Exception as e:      # unsupported syntax is reported when executed
            return ('bad', t, str(e), sp)

    def _stmt2(self, f, t):
        if t.startswith(('StorageLive', 'StorageDead')):
            return (t[:11], int(re.search(r'_(\d+)', t).group(1)))
        if t in ('nop', 'ConstEvalCounter') or t.startswith(('FakeRead', 'PlaceMention', 'AscribeUserType', 'Coverage', 'Retag', 'assume(')):
            if t.startswith('assume('):
                return ('assume', parse_operand(t[7:-1]))
            return ('nop',)
        if t == 'return':
            return ('return',)
        if t == 'resume' or t.startswith('terminate') or t == 'unreachable':
            return ('unreachable',) if t == 'unreachable' else ('resume',)
        m = re.match(r'^goto -> bb(\d+)$', t)
        if m:
            return ('goto', int(m.group(1)))
        m = re.match(r'^switchInt\((.*)\) -> \[(.*)\]$', t)
        if m:
            targets = []
            other = None
            for x in m.group(2).split(', '):
                k, b = x.split(': bb')
                if k == 'otherwise':
                    other = int(b)
                else:
                    targets.append((int(k), int(b)))
            return ('switch', parse_operand(m.group(1)), targets, other)
        m = re.match(r'^drop\((.*)\) -> \[return: bb(\d+)', t)
        if m:
            return ('drop', parse_place(m.group(1)), int(m.group(2)))
        m = re.match(r'^assert\((!?)(.*?), "#(\d+)".*\) -> \[success: bb(\d+)', t)
        if m:
            return ('assert', parse_operand(m.group(2)), m.group(1) != '!', f.strs[int(m.group(3))], int(m.group(4)))
        m = re.match(r'^discriminant\((.*)\) = (\d+)$', t)
        if m:
            return ('setdiscr', parse_place(m.group(1)), int(m.group(2)))
        # call?
        m = re.match(r'^(.*?) = (.*\)) -> (\[return: bb(\d+).*\]|unwind .*|bb(\d+))$', t, re.S)
        if m:
            dest = m.group(1)
            call = m.group(2)
            d = 0
            j = len(call) - 1
            while j >= 0:
                if call[j] in ')]}':
                    d += 1
                elif call[j] in '([{':
                    d -= 1
                    if d == 0:
                        break
                j -= 1
            callee = call[:j].strip()
            args = [parse_operand(x) for x in split_top(call[j + 1:-1])]
            tgt = int(m.group(4)) if m.group(4) else (int(m.group(5)) if m.group(5) else None)
            return ('call', parse_place(dest), callee, args, tgt)
        i = _find_assign(t)
        if i is None:
            raise ValueError('stmt? ' + t)
        return ('assign', parse_place(t[:i]), parse_rvalue(t[i + 3:]))

    # -- impl headers from the source text
    def _impl_headers(self):
        cache = {}
        for f in self.fns:
            m = f.implspan
            if not m:
                mm = re.match(r'^(.*)::([A-Za-z_0-9]+)$', f.name)
                continue
            k = m.group(0)
            if k not in cache:
                cache[k] = self._header_text(m)
            txt = cache[k]
            f.impl_trait, f.impl_self = classify_header(txt)

    def _header_text(self, m):
        p = os.path.join(self.repo, m.group(1))
        try:
            L = open(p, encoding='utf8').read().split('\n')
        except OSError:
            return ''
        l1, c1, l2, c2 = [int(m.group(x)) for x in (2, 3, 4, 5)]
        if l1 == l2:
            return L[l1 - 1][c1 - 1:c2 - 1]
        return ' '.join([L[l1 - 1][c1 - 1:]] + L[l1:l2 - 1] + [L[l2 - 1][:c2 - 1]])


def _find_assign(t):
    d = 0
    for i in range(len(t)):
        c = t[i]
        if c in '([{':
            d += 1
        elif c in ')]}':
            d -= 1
        elif d == 0 and t.startswith(' = ', i):
            return i
    return None


def classify_header(txt):
    """'impl<..> Trait<..> for Type<..>' -> (trait, self); derive 'Clone' -> ('Clone', None)"""
    t = txt.strip()
    if not t.startswith('impl'):
        m = re.match(r'^([A-Za-z_]+)$', t)
        return (t, None) if m else (None, None)
    t = t[4:].strip()
    if t.startswith('<'):
        d = 0
        for i, c in enumerate(t):
            if c == '<':
                d += 1
            elif c == '>' and t[i - 1] not in '-=':
                d -= 1
                if d == 0:
                    t = t[i + 1:].strip()
                    break
    t = re.split(r'\bwhere\b', t)[0].strip().rstrip('{').strip()
    m = re.match(r'^(.*?)\s+for\s+(.*)$', t, re.S)
    if m:
        return norm(m.group(1)), norm(m.group(2))
    return None, norm(t)


def parse_decls(repo):
    structs = {}
    enums = {
        'Option': ['None', 'Some'], 'Result': ['Ok', 'Err'], 'ControlFlow': ['Continue', 'Break'],
        'Ordering': ['Less', 'Equal', 'Greater'],
    }
    # descriptions for the IDL repeat type names of the program: look at them last
    places = sorted(os.walk(os.path.join(repo, 'src')), key=lambda x: x[0])
    places = [(r, sorted(f for f in fs if 'shank' not in f)) for r, _, fs in places] + [(r, sorted(f for f in fs if 'shank' in f)) for r, _, fs in places]
    for root, files in places:
        for fn in files:
            if not fn.endswith('.rs') or fn.startswith('test_'):
                continue
            s = open(os.path.join(root, fn), encoding='utf8').read()
            s = re.sub(r'//[^\n]*', '', s)
            s = re.sub(r'/\*.*?\*/', '', s, flags=re.S)
            for m in re.finditer(r'\b(struct|enum)\s+([A-Za-z_0-9$]+)', s):
                name = m.group(2)
                if '$' in name:
                    continue
                i = m.end()
                # skip generics
                if i < len(s) and s[i] == '<':
                    d = 0
                    while i < len(s):
                        if s[i] == '<':
                            d += 1
                        elif s[i] == '>' and s[i - 1] not in '-=':
                            d -= 1
                            if d == 0:
                                i += 1
                                break
                        i += 1
                mm = re.match(r'\s*(?:where[^{;]*)?([{(;])', s[i:])
                if not mm:
                    continue
                br = mm.group(1)
                if br == ';':
                    if m.group(1) == 'struct':
                        structs.setdefault(name, [])
                    continue
                j = i + mm.end() - 1
                body = s[j + 1:match_close(s, j)]
                items = split_top(strip_attrs(body))
                if m.group(1) == 'struct':
                    fl = []
                    for k, it in enumerate(items):
                        it = re.sub(r'^\s*pub(\([^)]*\))?\s+', '', it.strip())
                        if br == '{':
                            a, b = it.split(':', 1)
                            fl.append((a.strip(), norm(re.sub(r'\s+', ' ', b.strip()))))
                        else:
                            fl.append((str(k), norm(it)))
                    structs.setdefault(name, fl)
                else:
                    vs = []
                    vals = []
                    nxt = 0
                    fields = {}
                    for it in items:
                        it = it.strip()
                        mm = re.match(r'^([A-Za-z_0-9]+)', it)
                        v = mm.group(1)
                        vs.append(v)
                        mv = re.search(r'=\s*(\d+)\s*$', it)
                        nxt = int(mv.group(1)) if mv else nxt
                        vals.append(nxt)
                        nxt += 1
                        rest = it[mm.end():].strip()
                        fl = []
                        if rest.startswith('{'):
                            for x in split_top(strip_attrs(rest[1:match_close(rest, 0)])):
                                a, b = x.split(':', 1)
                                fl.append((a.strip(), norm(re.sub(r'\s+', ' ', b.strip()))))
                        elif rest.startswith('('):
                            for k, x in enumerate(split_top(rest[1:match_close(rest, 0)])):
                                fl.append((str(k), norm(x)))
                        fields[v] = fl
                    if name not in enums:
                        enums[name] = vs
                        enums['=' + name] = vals
                        structs['%s::' % name] = fields
    # macro generated newtypes
    q = os.path.join(repo, 'src/quantities.rs')
    if os.path.exists(q):
        for m in re.finditer(r'\bbasic_u64(?:_struct)?!\(\s*([A-Za-z_0-9]+)', open(q).read()):
            structs.setdefault(m.group(1), [('inner', 'u64')])
    return structs, enums


def strip_attrs(s):
    out = ''
    i = 0
    while i < len(s):
        if s[i] == '#' and i + 1 < len(s) and s[i + 1] == '[':
            i = match_close(s, i + 1) + 1
        else:
            out += s[i]
            i += 1
    return out
