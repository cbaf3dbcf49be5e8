#!/usr/bin/env python3
"""tryseeds.py [--slots N] [--nocheck] [--checks C01,C02] [seed ids...]: confirm planted bugs in scratch copies of /repo and
/verif, each mounted over the real path in a private mount namespace (so nothing real is touched), and run the checks on them."""
import os, subprocess, sys, json, threading, queue, time
V = '/verif'
args = sys.argv[1:]
slots = 2; nocheck = False; checks = None; only = []
while args:
    a = args.pop(0)
    if a == '--slots': slots = int(args.pop(0))
    elif a == '--nocheck': nocheck = True
    elif a == '--checks': checks = args.pop(0).split(',')
    else: only.append(a)
ids = sorted(only or os.listdir(V + '/seeded'))
q = queue.Queue()
for i in ids: q.put(i)
res = {}
def inner(slot, sid):
    prop = json.load(open('%s/seeded/%s/meta.json' % (V, sid)))['property']
    cs = checks or ([] if nocheck else [prop])
    s = '''set -u
mount --bind {b}/repo /repo; mount --bind {b}/verif /verif; cd /repo
git checkout -q -- . 2>/dev/null
S={b}/seed; rm -rf $S; cp -r {b}/seeds/{sid} $S
bash $S/demo.sh >{b}/d0.log 2>&1; echo R demo0 $?
git apply $S/patch.diff; echo R apply $?
bash /opt/vp/build.sh >{b}/build.log 2>&1; echo R build $?
bash /opt/vp/test.sh {b}/out.json >{b}/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('{b}/out.json'))
def names(x):
    if isinstance(x,dict):
        for k in ('stable','passed','pass','tests'):
            if k in x: return x[k]
    return x
B=names(b); O=names(o)
bad=[t for t in (B if isinstance(B,list) else [k for k in B]) if not ((t in O) if isinstance(O,list) else (O.get(t) in ('pass','passed','ok',True)))]
print('R tests', len(bad), bad[:4])
P
bash $S/demo.sh >{b}/d1.log 2>&1; echo R demo1 $?
'''.format(b='/tmp/slots/%d' % slot, sid=sid)
    for c in cs:
        s += 'cd /verif; T0=$(date +%%s); timeout 900 python3 check.py %s >{b}/chk.log 2>{b}/chk.err; echo "R check:%s $? $(tail -1 {b}/chk.log) [$(( $(date +%%s)-T0 ))s]"; cp -f replays/%s.txt {b}/{sid}.replay 2>/dev/null\n'.format(b='/tmp/slots/%d' % slot, sid=sid) % (c, c, c)
    s += 'cd /repo; git checkout -q -- .\n'
    p = subprocess.run(['unshare', '-Urm', 'bash', '-c', s], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return [l[2:] for l in p.stdout.splitlines() if l.startswith('R ')] or [p.stdout[-500:]]
def work(k):
    b = '/tmp/slots/%d' % k
    subprocess.run('mkdir -p {b} && rsync -a --delete /repo/ {b}/repo/ 2>/dev/null || (rm -rf {b}/repo; cp -a /repo {b}/repo); rm -rf {b}/verif {b}/seeds; mkdir -p {b}/verif; cd /verif; cp -a $(ls -A | grep -v -e "^seeded$" -e "^.git$" -e "^.build$") {b}/verif/; cp -a seeded {b}/seeds'.format(b=b), shell=True)
    while True:
        try: sid = q.get_nowait()
        except queue.Empty: return
        t = time.time()
        r = inner(k, sid)
        res[sid] = r
        print('%s [%ds]\n   %s' % (sid, time.time() - t, '\n   '.join(r)), flush=True)
ts = [threading.Thread(target=work, args=(k,)) for k in range(slots)]
[t.start() for t in ts]; [t.join() for t in ts]
