"""Discharging obligations: instantiate the universally quantified facts at the ground terms of the
obligation, then ask z3 (and cvc5 for what z3 leaves open)."""
import z3, time, os, sys
from sym import OrdKey, Key, b_and, b_or, b_not, const_bool

def walk(es, seen, out):
    todo = list(es)
    while todo:
        e = todo.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(e):
            s = e.sort()
            if s == OrdKey:
                out['ord'].setdefault(i, e)
            elif s == Key:
                out['key'].setdefault(i, e)
            k = e.decl().kind()
            if k in (z3.Z3_OP_SELECT, z3.Z3_OP_STORE):
                ix = e.arg(1)
                if ix.sort().kind() == z3.Z3_INT_SORT:
                    out['tr'].setdefault(ix.get_id(), ix)
            todo.extend(e.children())

TRUNC = [False]
def instantiate(seeds, schemas, base, rounds=2, limit=1500):
    """base facts + the schemas instantiated at the ground terms of seeds"""
    TRUNC[0] = False
    res = list(base)
    if not schemas:
        return res
    out = {'ord': {}, 'tr': {}, 'key': {}}
    seen = set()
    walk(seeds, seen, out)
    done = set()
    n = 0
    for r in range(rounds):
        new = []
        terms = {k: list(v.values()) for k, v in out.items()}
        for si, sc in enumerate(schemas):
            if sc.sort == 'ord2':
                pairs = [(a, b) for a in terms['ord'] for b in terms['ord']]
                for a, b in pairs:
                    k = (si, a.get_id(), b.get_id())
                    if k in done:
                        continue
                    if n > limit:
                        TRUNC[0] = True
                        continue
                    done.add(k)
                    f = sc.fn(a, b)
                    if f is not None and const_bool(f) is not True:
                        new.append(f)
                        n += 1
                continue
            for t in terms[sc.sort]:
                k = (si, t.get_id())
                if k in done:
                    continue
                if n > limit:
                    TRUNC[0] = True
                    continue
                done.add(k)
                f = sc.fn(t)
                if f is not None and const_bool(f) is not True:
                    new.append(f)
                    n += 1
        if not new:
            break
        res += new
        walk(new, seen, out)
    return res

def prepare(eng, o, rounds=2, limit=1500):
    neg = z3.Not(o.goal)
    fs = instantiate(o.pc + [neg] + list(o.hints or []), o.q, o.pc, rounds, limit)
    fs.append(neg)
    s = z3.Solver()
    known = set()
    for f in fs:
        s.add(f)
        eng.add_ranges(s, f, known)
    return s

def check(s, timeout):
    s.set('timeout', int(timeout * 1000))
    t = time.time()
    r = s.check()
    return r, time.time() - t

def groups(obls):
    """runs of obligations raised at one place of one path"""
    out = []
    for i, o in enumerate(obls):
        if out:
            g = out[-1]
            p = obls[g[-1]]
            if p.where == o.where and len(p.pc) <= len(o.pc) and len(p.q) <= len(o.q) and len(g) < 60 and (not p.pc or p.pc[-1] is o.pc[len(p.pc) - 1] and p.pc[0] is o.pc[0]) and o.taint == p.taint:
                g.append(i)
                continue
        out.append([i])
    return out

def run_group(eng, obls, ix, t1):
    """-> {index: (result, seconds)} with the shared facts of the run; leaves the unproved ones out"""
    res = {}
    last = obls[ix[-1]]
    live = [i for i in ix if not z3.is_true(obls[i].goal)]
    for i in ix:
        if i not in live:
            res[i] = ('proved', 0.0)
    if not live:
        return res
    t0 = time.time()
    seeds = list(last.pc) + [obls[i].goal for i in live] + [h for i in live for h in (obls[i].hints or [])]
    fs = instantiate(seeds, last.q, last.pc)
    for lin in (True, False):
        s = z3.Solver()
        known = set()
        for f in fs:
            if lin:
                f = eng.linear(f)
            s.add(f)
            eng.add_ranges(s, f, known)
        s.set('timeout', int(t1 * 1000))
        bad = 0
        for i in live:
            eng.add_ranges(s, eng.linear(obls[i].goal) if lin else obls[i].goal, known)
        for i in live:
            if i in res:
                continue
            s.push()
            g = z3.Not(obls[i].goal)
            s.add(eng.linear(g) if lin else g)
            t = time.time()
            r = s.check()
            s.pop()
            if r == z3.unsat:
                res[i] = ('proved', time.time() - t)
            elif not lin:
                bad += 1
                if bad > 8 and len(res) == 0:
                    break
    return res

def mul_conditions(fs):
    """conditions of the case distinctions that occur inside products"""
    seen, out = set(), {}
    def ites(e, n=0):
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_ITE and e.sort().kind() == z3.Z3_INT_SORT:
                out[e.arg(0).get_id()] = e.arg(0)
            if n < 6:
                for c in e.children():
                    if c.sort().kind() == z3.Z3_INT_SORT:
                        ites(c, n + 1)
    todo = list(fs)
    while todo:
        e = todo.pop()
        if e.get_id() in seen or not z3.is_app(e):
            continue
        seen.add(e.get_id())
        if e.decl().kind() == z3.Z3_OP_MUL:
            for c in e.children():
                ites(c)
        todo += e.children()
    return list(out.values())

def split_prove(eng, o, t):
    """case analysis over the conditions inside products of the goal, then linear and nonlinear attempts"""
    cs = mul_conditions([o.goal] + list(o.hints or []))[:3]
    if not cs:
        return False
    neg = z3.Not(o.goal)
    fs = instantiate(o.pc + [neg] + list(o.hints or []), o.q, o.pc) + [neg]
    import itertools
    end = time.time() + t
    for bits in itertools.product((True, False), repeat=len(cs)):
        sub = [(c, z3.BoolVal(b)) for c, b in zip(cs, bits)]
        gs = [c if b else z3.Not(c) for c, b in zip(cs, bits)] + [z3.substitute(f, *sub) for f in fs]
        ok = False
        for lin in (True, False):
            s = z3.Solver()
            known = set()
            for f in gs:
                f = eng.linear(f) if lin else f
                s.add(f)
                eng.add_ranges(s, f, known)
            left = end - time.time()
            if left <= 0:
                return False
            s.set('timeout', int(1000 * min(left, 2 if lin else t / 2)))
            if s.check() == z3.unsat:
                ok = True
                break
        if not ok:
            return False
    return True

def run_one(eng, o, t):
    t0 = time.time()
    if split_prove(eng, o, t / 2):
        return 'proved', time.time() - t0, 'z3', None
    s = prepare(eng, o)
    r, dt = check(s, t)
    if r == z3.unsat:
        return 'proved', dt, 'z3', None
    if r == z3.sat:
        # a model of the instances taken so far: believed only if more instances do not exclude it
        s = prepare(eng, o, 5, 6000)
        trunc = TRUNC[0]
        r, d2 = check(s, t)
        dt += d2
        if r == z3.unsat:
            return 'proved', dt, 'z3', None
        if r == z3.sat and not trunc:
            m = s.model()
            txt = '\n'.join('%s = %s' % (d.name(), ' '.join(str(m[d]).split())[:160]) for d in sorted(m.decls(), key=lambda d: d.name()) if '!' not in d.name())
            return 'sat', dt, 'z3', txt[:6000]
        return 'unknown', dt, 'z3', None
    # second opinion
    import subprocess, tempfile
    f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
    f.write('(set-logic ALL)\n' + s.sexpr() + '\n(check-sat)\n')
    f.close()
    t0 = time.time()
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % int(t * 1000), f.name], capture_output=True, text=True, timeout=t + 5)
        o2 = p.stdout.strip().splitlines()
        r2 = o2[-1] if o2 else 'unknown'
    except Exception:
        r2 = 'unknown'
    os.unlink(f.name)
    if r2 == 'unsat':
        return 'proved', dt + time.time() - t0, 'cvc5', None
    return 'unknown', dt + time.time() - t0, 'z3+cvc5', None

def discharge(eng, obls, jobs, t1=3, t2=20, deadline=None, only=None):
    """-> list of (status, seconds, backend, model) per obligation; forks workers"""
    import multiprocessing as mp, json, tempfile
    n = len(obls)
    res = [None] * n
    sel = [i for i in range(n) if only is None or only(obls[i])]
    gs = [[i for i in g if only is None or only(obls[i])] for g in groups(obls)]
    gs = [g for g in gs if g]
    ctr = mp.Value('i', 0)
    pipes = []
    for w in range(jobs):
        fd, r = tempfile.mkstemp(suffix='.vcg')
        os.close(fd)
        pid = os.fork()
        if pid == 0:
            out = open(r, 'w')
            try:
                while True:
                    with ctr.get_lock():
                        k = ctr.value
                        ctr.value += 1
                    if k >= len(gs):
                        break
                    if deadline and time.time() > deadline:
                        break
                    g = gs[k]
                    got = {}
                    if len(g) > 0:
                        try:
                            got = run_group(eng, obls, g, t1)
                        except z3.Z3Exception:
                            got = {}
                    for i in g:
                        if i in got:
                            out.write(json.dumps([i, got[i][0], got[i][1], 'z3', None]) + '\n')
                            continue
                        if deadline and time.time() > deadline:
                            break
                        t = t2 if not deadline else max(1, min(t2, deadline - time.time()))
                        try:
                            st, dt, be, m = run_one(eng, obls[i], t)
                        except z3.Z3Exception as e:
                            st, dt, be, m = 'unknown', 0, 'z3', str(e)[:200]
                        out.write(json.dumps([i, st, dt, be, m]) + '\n')
                    out.flush()
            finally:
                out.flush()
                os._exit(0)
        pipes.append((pid, r))
    for pid, r in pipes:
        os.waitpid(pid, 0)
        with open(r) as f:
            for l in f:
                try:
                    i, st, dt, be, m = json.loads(l)
                    res[i] = (st, dt, be, m)
                except Exception:
                    pass
        os.unlink(r)
    for i in sel:
        if res[i] is None:
            res[i] = ('unknown', 0, '', 'not reached')
    return res
