#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

1. dumps rustc MIR of /repo's current tree and lets the deductive verifier (vcg/) discharge the obligations of the property;
2. builds replay/ (path dependency on /repo) and runs it as the replayer / bounded stand-in for what the verifier cannot reach.
Exit 0: every obligation accepted (or undecided, never an alarm) and no failing history; exit 1: VIOLATION line."""
import hashlib, json, os, shutil, subprocess, sys, time, glob
from levels import LEVEL
V = os.path.dirname(os.path.abspath(__file__))
R = '/repo'
T0 = time.time()

PROFILES = {  # which kinds of random histories exercise the property (see replay/src/gen.rs)
 'C01': '0,1,0,0,0,5', 'C02': '0,1,0,0,0,5', 'C03': '0,0,0,1', 'C04': '0,0,0,1', 'C05': '0,0,0,1,5', 'C06': '0,0,0,1', 'C07': '0,0,0,1',
 'C08': '0,0,0,1', 'C09': '0,0,0,1,4', 'C10': '0,0,5,6', 'C11': '0,0,0,1,3', 'C12': '0,0,0,1,5', 'C13': '0,1,4,0', 'C14': '0,0,1,5',
 'C15': '1,1,1,0', 'C16': '5,0,5,6', 'C17': '4,5,6,0', 'C18': '6,4,5,0', 'C19': '4,4,4,5', 'C20': '0,0,5,1', 'C21': '0,0,1',
 'C22': '2,2,5,4', 'C23': '3,3,3,0', 'C24': '0,0,0,1'}

def sh(cmd, log, timeout, env=None):
    """run a shell command; -> (rc, tail of output)"""
    with open(log, 'ab') as f:
        try:
            p = subprocess.run(['bash', '-c', cmd], stdout=f, stderr=subprocess.STDOUT, timeout=timeout, env=env)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = 124
    with open(log, 'rb') as f:
        t = f.read()[-3000:].decode('utf8', 'replace')
    return rc, t

def tree_hash():
    h = hashlib.sha256()
    for pat in ('src/**/*.rs', 'Cargo.toml', 'Cargo.lock', 'src/**/*', 'build.rs'):
        for f in sorted(glob.glob(os.path.join(R, pat), recursive=True)):
            if os.path.isfile(f):
                h.update(f.encode() + b'\0' + open(f, 'rb').read())
    for f in sorted(glob.glob(V + '/replay/src/*')):
        h.update(open(f, 'rb').read())
    return h.hexdigest()

def fail(msg):
    print('ERROR: ' + msg, file=sys.stderr)
    sys.exit(2)

def build(scratch):
    """MIR dump and replay binary, both from /repo's current tree; cargo decides freshness by mtimes, so a content
    stamp forces a rebuild whenever the sources differ from the ones the products were built from"""
    td = R + '/target' if os.access(R, os.W_OK) else V + '/.build'
    os.makedirs(td, exist_ok=True)
    stamp, th = os.path.join(td, '.verif-stamp'), tree_hash()
    mir = os.path.join(td, 'verif-phoenix.mir')
    binf = os.path.join(td, 'debug', 'replay')
    log = os.path.join(scratch, 'build.log')
    pre = 'source /opt/vp/env.sh; export CARGO_TARGET_DIR=%s; ' % td
    def products():  # what the stamp vouches for: these very files, built from these very sources
        return th + ' ' + ' '.join(hashlib.sha256(open(f, 'rb').read()).hexdigest() if os.path.exists(f) else '-' for f in (mir, binf))
    if os.path.exists(stamp) and os.path.exists(mir) and os.path.exists(binf) and open(stamp).read() == products():
        return mir, binf, th
    if os.path.exists(stamp):
        os.remove(stamp)
    for d in glob.glob(td + '/debug/.fingerprint/phoenix-v1-*') + glob.glob(td + '/debug/.fingerprint/replay-*'):
        shutil.rmtree(d, ignore_errors=True)
    tmp = mir + '.tmp'
    rc, t = sh(pre + 'cd %s && RUSTC_BOOTSTRAP=1 cargo rustc --lib --locked --offline --features no-entrypoint -- -Zunpretty=mir -Zmir-opt-level=0 -Zmir-include-spans > %s' % (R, tmp), log, 600)
    if rc != 0 or os.path.getsize(tmp) < 1000000:
        if os.path.exists(mir): os.remove(mir)
        print('note: no MIR of the current tree (rc %d)' % rc, file=sys.stderr)
        mir = None
    else:
        os.replace(tmp, mir)
    rc, t = sh(pre + 'cd %s/replay && cargo build --locked --offline' % V, log, 800)
    if rc != 0:
        fail('cannot build the replayer against /repo:\n' + t)
    if mir:
        with open(stamp, 'w') as f: f.write(products())
    return mir, binf, th

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ncpu = os.cpu_count() or 4
    scratch = os.path.join(V, '.build', 'run-%s-%d' % (prop, os.getpid()))
    os.makedirs(scratch, exist_ok=True)
    os.makedirs(V + '/evidence', exist_ok=True); os.makedirs(V + '/replays', exist_ok=True)
    try:
        rc = run(prop, tier, seed, ncpu, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)

def known(prop):
    """known findings: lines 'KNOWN property=Cxx match=<text> | description' (none open at present)"""
    out = []
    f = V + '/known-findings.txt'
    if os.path.exists(f):
        for l in open(f):
            if l.startswith('known: property=%s ' % prop):
                m = l.split('match=', 1)[1].rstrip('\n')
                pat, _, desc = m.partition(' | ')
                out.append((pat, desc))
    return out

def explore(cmd, limit, out):
    try:
        with open(os.devnull, 'w') as dn:
            subprocess.run(cmd, stdout=dn, stderr=dn, timeout=limit)
    except subprocess.TimeoutExpired:
        pass
    return json.load(open(out)) if os.path.exists(out) else None

def run(prop, tier, seed, ncpu, scratch):
    mir, binf, th = build(scratch)
    b1 = time.time()
    secs = 18 if tier == 'quick' else 300
    out = os.path.join(scratch, 'explore.json')
    # the verifier and the explorer share the cores
    pj = os.path.join(scratch, 'proof.json')
    proof = None
    vp = None
    if mir and os.path.exists(V + '/vcg/prove.py'):
        vp = subprocess.Popen(['python3-vt', V + '/vcg/prove.py', prop, '--mir', mir, '--repo', R, '--tier', tier, '--out', pj, '--jobs', str(max(2, ncpu - 2))],
                              stdout=open(scratch + '/prove.log', 'w'), stderr=subprocess.STDOUT)
    cmd = [binf, 'explore', '--secs', str(secs), '--seed', str(seed), '--only', prop, '--out', out, '--threads', str(ncpu if not vp else max(2, ncpu // 2)), '--profiles', PROFILES[prop]]
    ex = explore(cmd, secs + 120, out)
    if ex is None:
        print('note: the explorer gave no answer', file=sys.stderr)
        ex = {'cases': 0, 'steps': 0, 'stats': {}, 'violations': {}}
        if not vp:
            fail('neither the explorer nor the verifier gave an answer')
    if vp:
        try:
            vp.wait(timeout=(330 if tier == 'quick' else 3000))
        except subprocess.TimeoutExpired:
            vp.kill(); vp.wait()
        if os.path.exists(pj):
            proof = json.load(open(pj))
        else:
            print('note: verifier gave no result:\n' + open(scratch + '/prove.log').read()[-1500:], file=sys.stderr)
    if os.environ.get('VERIF_DEBUG') and vp: print(open(scratch + '/prove.log').read()[-5000:], file=sys.stderr)
    if any(o['status'] == 'refuted' for o in (proof or {}).get('obligations', [])) and not ex['violations'].get(prop):
        # the verifier refuted an obligation: look harder for a failing history on the real code
        more = min(150, max(0, 700 - (time.time() - T0))) if tier == 'quick' else 600
        if more > 10:
            cmd[cmd.index('--secs') + 1], cmd[cmd.index('--seed') + 1], cmd[cmd.index('--threads') + 1] = str(int(more)), str(seed + 1000), str(ncpu)
            out2 = os.path.join(scratch, 'explore2.json')
            cmd[cmd.index('--out') + 1] = out2
            ex2 = explore(cmd, more + 60, out2)
            if ex2 is not None:
                ex['cases'] += ex2['cases']; ex['steps'] += ex2['steps']
                for k, v in ex2['violations'].items(): ex['violations'].setdefault(k, v)
    viol = 0
    rp = os.path.join(V, 'replays', prop + '.txt')
    line = None
    if os.path.exists(rp): os.remove(rp)
    e = ex['violations'].get(prop)
    for pat, desc in known(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, desc))
        if e and pat in e['what']: e = None
    if e:
        # replay the failing history on the real code once more before reporting it
        r = subprocess.run([binf, 'case', str(e['profile']), str(e['seed']), '--only', prop], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        tr = r.stderr.decode('utf8', 'replace')
        if r.returncode == 1:
            viol = 1
            with open(rp, 'w') as f:
                f.write('property %s violated by /repo (source hash %s)\n%s\n\nre-run: %s case %d %d --only %s\n\nhistory and verdict:\n%s\n' % (prop, th, e['what'], binf, e['profile'], e['seed'], prop, tr[-60000:]))
            line = 'VIOLATION property=%s replay=%s' % (prop, rp)
            print('failing history: profile %s seed %s (of %d): %s' % (e['profile'], e['seed'], ex['cases'], e['what'][:400]))
    ref = [o for o in (proof or {}).get('obligations', []) if o['status'] == 'refuted']
    if ref:
        viol = 1
        with open(rp, 'a') as f:
            f.write('\nobligations of %s that the verifier refuted on the current /repo (source hash %s)\n' % (prop, th))
            for o in ref:
                f.write('\n- %s\n  function: %s  at: %s\n  solver: %s\n  counterexample / reason:\n%s\n' % (o['name'], o['fn'], o.get('where'), o.get('solver'), o.get('reason', '')))
        if line is None:
            line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp)
    und = [o for o in (proof or {}).get('obligations', []) if o['status'] == 'undecided']
    done = [o for o in (proof or {}).get('obligations', []) if o['status'] == 'proved']
    n_ob = len((proof or {}).get('obligations', []))
    if not ref and not e and not ex['cases'] and (und or not done):
        fail('the explorer gave no answer, and the verifier none for %d obligations' % len(und))
    level = 'proof' if prop in LEVEL and n_ob and not und and not ref else 'other'
    cov = {
        'evaluations': ex['cases'], 'instructions_executed': ex['steps'],
        'distinct_nontrivial': ex['cases'],
        'rule': 'bounded stand-in: random instruction histories against the real program entry point, profiles %s, one case = one history of a fresh seed; every instruction is judged by independent oracles' % PROFILES[prop],
        'samples': [{k: ex['stats'][k] for k in sorted(ex['stats'])[:40]}],
        'obligations': n_ob, 'discharged': len(done), 'undecided': [o['name'] for o in und][:60],
        'checker_cmd': 'python3-vt vcg/prove.py %s --mir <fresh rustc MIR dump of /repo>' % prop,
        'trusted_base': (proof or {}).get('trusted', ['rustc 1.75 MIR printer', 'vcg (this repository)', 'z3', 'cvc5']),
        'functions_under_contract': (proof or {}).get('functions', []),
        'back_ends': (proof or {}).get('backends', {}), 'solver_s': (proof or {}).get('solver_s', 0),
        'obligation_list': [{'name': o['name'], 'fn': o['fn'], 'status': o['status'], 'solver': o.get('solver'), 's': o.get('s'), 'queries': o.get('n')} for o in (proof or {}).get('obligations', [])],
        'explanation': (proof or {}).get('explanation', 'no deductive obligation for this property ran; only the bounded stand-in decided'),
        'source_hash': th,
        'harness_errors': ex['violations'].get('HARNESS'),
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': (proof or {}).get('assumptions', []) + ['the explorer part is a bounded check: it samples histories and proves nothing'],
          'wall_s': round(time.time() - T0, 2), 'violations': viol}
    with open(V + '/evidence/%s.json' % prop, 'w') as f:
        json.dump(ev, f, indent=1)
    if line:
        print(line)
        return 1
    print('OK %s: %d/%d obligations proved, %d undecided; %d histories, %d instructions, no violation; %.1f s' % (prop, len(done), n_ob, len(und), ex['cases'], ex['steps'], time.time() - T0))
    return 0

if __name__ == '__main__':
    main()
