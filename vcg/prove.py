"""prove.py PROP --mir M --repo R --tier T --out J --jobs N   (or: ALL --baseline)

Runs the verification units that carry obligations of the property over the MIR of the current tree, discharges every
obligation of those units (the property's own and the ones they rest on) and writes the verdicts as JSON."""
import sys, os, json, time, tempfile, traceback, collections, argparse
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import z3
from mir import Program
from sym import Unsupported
import solve, units

HERE = os.path.dirname(os.path.abspath(__file__))

def tags(label):
    """(set of properties, text) of an obligation label"""
    h, _, t = label.partition('|')
    h = h.rsplit(':', 1)[-1]
    return set(x for x in h.split(',') if x), t or label

def shape(e):
    return sorted([l['fn'], sorted(set(x for x in l['invariants'] if not x.startswith('?')))] for l in e.loops)

def run_unit(p, u, deadline, jobs, tier):
    """-> JSON-able result of one unit"""
    t0 = time.time()
    out = {'unit': u.name, 'labels': {}, 'error': None, 'loops': [], 'functions': []}
    e = None
    try:
        w = u.make(p)
        w.run()
        e = w.eng
        obls = list(e.obls)
        out['loops'] = shape(e)
        out['run_s'] = round(time.time() - t0, 2)
        res = solve.discharge(e, obls, jobs, 3, 12 if tier == 'quick' else 90, deadline)
        lem = []
        for n, (f,) in units.lemmas():
            s = z3.Solver(); s.set('timeout', 20000); s.add(z3.Not(f))
            lem.append((n, str(s.check())))
        for o, (st, dt, be, m) in zip(obls, res):
            d = out['labels'].setdefault(o.label, {'where': o.where or '', 'n': 0, 's': 0.0, 'proved': 0, 'sat': 0, 'unknown': 0, 'backends': {}, 'taint': [], 'model': None, 'at': None})
            d['n'] += 1
            d['s'] += dt
            d['backends'][be or '-'] = d['backends'].get(be or '-', 0) + 1
            if st == 'sat' and o.taint:
                st = 'unknown'
                d['taint'] = sorted(set(d['taint']) | set(map(str, o.taint)))[:10]
            d[st] += 1
            if st == 'sat' and d['model'] is None:
                d['model'], d['at'] = m, o.where
        for n, r in lem:
            out['labels']['aux|lemma: ' + n] = {'where': 'lemma', 'n': 1, 's': 0.0, 'proved': int(r == 'unsat'), 'sat': 0, 'unknown': int(r != 'unsat'), 'backends': {'z3': 1}, 'taint': [], 'model': None, 'at': None}
    except Unsupported as x:
        out['error'] = 'outside the verifier: %s' % x
    except Exception as x:
        out['error'] = 'verifier error: %s %s' % (type(x).__name__, traceback.format_exc()[-600:])
    if e is not None:
        out['functions'] = sorted(e.inlined)
        out['contracts'] = dict(e.used_contracts)
        out['summaries'] = dict(e.used_summaries)
        out['unmodelled'] = {str(k): v for k, v in e.unmodelled.items()}
        out['paths'] = e.npaths
    out['s'] = round(time.time() - t0, 2)
    return out

def run_all(p, us, jobs, deadline, tier):
    """forked workers, at most `jobs` units at a time"""
    pend, live, res = list(us), {}, {}
    width = max(1, min(jobs, len(pend)))
    inner = max(1, jobs // width)
    while pend or live:
        while pend and len(live) < width:
            u = pend.pop(0)
            fd, fn = tempfile.mkstemp(suffix='.unit')
            os.close(fd)
            pid = os.fork()
            if pid == 0:
                try:
                    r = run_unit(p, u, deadline, inner + (1 if len(pend) == 0 else 0), tier)
                    json.dump(r, open(fn, 'w'))
                finally:
                    os._exit(0)
            live[pid] = (u, fn)
        done = None
        while done is None:
            pid, _ = os.waitpid(-1, os.WNOHANG)
            if pid in live:
                done = pid
                break
            if time.time() > deadline + 20:
                for q in live:
                    os.kill(q, 9)
            time.sleep(0.05)
        u, fn = live.pop(done)
        try:
            res[u.name] = json.load(open(fn))
        except Exception:
            res[u.name] = {'unit': u.name, 'labels': {}, 'error': 'no result (time or memory)', 'loops': [], 'functions': [], 's': 0}
        os.unlink(fn)
    return res

def main():
    a = argparse.ArgumentParser()
    a.add_argument('prop')
    a.add_argument('--mir', required=True)
    a.add_argument('--repo', default='/repo')
    a.add_argument('--tier', default='quick')
    a.add_argument('--out')
    a.add_argument('--jobs', type=int, default=6)
    a.add_argument('--baseline', action='store_true')
    a.add_argument('--report', action='store_true')         # ALL: print what is not proved, change nothing
    o = a.parse_args()
    t0 = time.time()
    deadline = t0 + (240 if o.tier == 'quick' else 2400)
    p = Program(o.mir, o.repo)
    basef = os.path.join(HERE, 'baseline.json')
    base = json.load(open(basef)) if os.path.exists(basef) else {}
    us = [u for u in units.UNITS if o.prop == 'ALL' or o.prop in u.props or any(o.prop in tags(l)[0] for l in base.get(u.name, {'labels': []})['labels'])]
    res = run_all(p, us, o.jobs, deadline, o.tier)
    if o.report:
        for n, r in sorted(res.items()):
            b = base.get(n, {'loops': [], 'labels': []})
            if r['error']:
                print(n, 'ERROR', r['error'][:200])
            for l, d in sorted(r['labels'].items()):
                if d['proved'] != d['n']:
                    print('%s  %s | %s' % ('REFUTED' if d['sat'] and r['loops'] == b['loops'] else 'open', n, l), d['at'] or d['where'], d['taint'][:2] or '')
            for l in b['labels']:
                if l not in r['labels'] and not r['error']:
                    print('lost ', n, l)
        print('total %.1f s' % (time.time() - t0))
        return
    if o.baseline:
        b = {}
        for n, r in sorted(res.items()):
            b[n] = {'loops': r['loops'], 'labels': sorted(l for l, d in r['labels'].items() if '?' not in l)}
            bad = [(l, d['where'], d['proved'], d['sat'], d['unknown']) for l, d in r['labels'].items() if d['proved'] != d['n']]
            ptags = collections.Counter(t for l in r['labels'] for t in tags(l)[0])
            print('%-40s %5.1fs labels %d queries %d %s %s' % (n, r['s'], len(r['labels']), sum(d['n'] for d in r['labels'].values()), r['error'] or '', dict(r.get('unmodelled') or {})))
            print('      tags', ' '.join(sorted(t for t in ptags if t.startswith('C'))))
            for x in bad:
                print('   OPEN', x)
        if o.prop == 'ALL':
            json.dump(b, open(basef, 'w'), indent=0, sort_keys=True)
        print('total %.1f s' % (time.time() - t0))
        return
    obl, funcs, assume = [], set(), []
    be = collections.Counter()
    trusted, summaries, openaux = set(), set(), []
    for u in us:
        r = res[u.name]
        b = base.get(u.name, {'loops': [], 'labels': []})
        changed = r['loops'] != b['loops']
        funcs |= set(r.get('functions') or [])
        summaries |= set(r.get('summaries') or {})
        for l in sorted(set(b['labels']) | set(r['labels'])):
            tg, text = tags(l)
            if o.prop not in tg:
                d = r['labels'].get(l)
                if d is None:
                    if '?' not in l and (r['error'] or l in b['labels']):
                        openaux.append('%s: %s' % (u.name, l))
                elif d['proved'] != d['n']:
                    openaux.append('%s: %s' % (u.name, l))
                if d:
                    for k, v in d['backends'].items():
                        be[k] += v
                continue
            d = r['labels'].get(l)
            name = '%s: %s' % (u.name, l)
            x = {'name': name, 'fn': u.name, 'where': '', 'solver': '', 's': 0, 'n': 0, 'reason': ''}
            if d is None:
                x['status'], x['reason'] = 'undecided', r['error'] or 'the obligation is no longer generated from the current code'
            else:
                for k, v in d['backends'].items():
                    be[k] += v
                x.update(where=d['at'] or d['where'], solver='+'.join(sorted(k for k in d['backends'] if k != '-')) or 'syntactic', s=round(d['s'], 2), n=d['n'])
                if d['proved'] == d['n']:
                    x['status'] = 'proved'
                elif d['sat'] and not changed:
                    x['status'] = 'refuted'
                    x['reason'] = 'counterexample to the obligation (values of the state before the function):\n' + (d['model'] or '')
                else:
                    x['status'] = 'undecided'
                    x['reason'] = 'unmodelled: %s' % d['taint'] if d['taint'] else 'loops of the function changed; its invariants no longer apply' if d['sat'] else 'solver gave no answer'
            obl.append(x)
        if u.assumes:
            assume += u.assumes
    for x in openaux:
        assume.append('supporting obligation not discharged on this tree: ' + x)
    out = {'obligations': obl, 'functions': sorted(funcs), 'backends': dict(be), 'solver_s': round(sum(d['s'] for r in res.values() for d in r['labels'].values()), 2),
           'trusted': units.TRUSTED + ['library summary: ' + s for s in sorted(summaries)], 'assumptions': sorted(set(assume)) + units.ASSUMES,
           'explanation': units.explain(o.prop, us, res), 'wall_s': round(time.time() - t0, 2)}
    json.dump(out, open(o.out, 'w'), indent=1)
    print('prove %s: %d obligations, %d proved, %d refuted, %d undecided, %.1f s' % (o.prop, len(obl), sum(x['status'] == 'proved' for x in obl), sum(x['status'] == 'refuted' for x in obl), sum(x['status'] == 'undecided' for x in obl), time.time() - t0))
    for x in obl:
        if x['status'] != 'proved':
            print('  ', x['status'], x['name'], x['where'], x['reason'][:400])

main()
