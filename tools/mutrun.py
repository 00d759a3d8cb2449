#!/usr/bin/env python3
"""mutrun.py OUT [-n MAX] [-j JOBS] PROP...: mutation testing of the checks. Mutates the anchored functions of each property in scratch
copies of /repo; mutants that do not compile or that the tests of the package catch are dropped, the others are given to the check.
Writes one JSON line per mutant that was checked, with whether it was caught."""
import sys, json, subprocess, os, random, shutil, threading, queue, re, tempfile
import argparse
ap = argparse.ArgumentParser(); ap.add_argument('out'); ap.add_argument('-n', type=int, default=12); ap.add_argument('-j', type=int, default=2); ap.add_argument('-w', type=int, default=3); ap.add_argument('-f', default=''); ap.add_argument('props', nargs='+')
A = ap.parse_args()
P = {j['id']: j for j in map(json.loads, open('/verif/properties.jsonl'))}
def sh(cmd, cwd, timeout=900):
    try:
        r = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; ' + cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors='replace')
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, 'timeout'
sh('mkdir -p /tmp/w && go build -o /tmp/w/mutate main.go', '/verif/tools/mutate')
q = queue.Queue(); lock = threading.Lock()
for pid in A.props:
    p = P[pid]
    try: enc = set(json.load(open('/verif/evidence/%s.json' % pid))['coverage']['functions'])
    except Exception: enc = set()
    short = {re.sub(r'^\(?\*?.*[/.]?', '', f) for f in enc}
    names = set()
    for f in enc:
        m = re.match(r'(.*)\.(\w+)(\$[\d$]+)?$', f)
        if m: names.add(m.group(2))
    ms = []
    for f in p['anchors']['files']:
        rc, o = sh('/tmp/w/mutate ' + f, '/repo')
        for l in o.split('\n'):
            if not l.startswith('{'): continue
            m = json.loads(l)
            if m['Func'].split('.')[-1] not in names: continue
            if A.f and not re.search(A.f, m['Func']): continue
            ms.append(m)
    random.seed(pid + str(len(ms))); random.shuffle(ms)
    # spread over functions
    by = {}
    for m in ms: by.setdefault(m['Func'], []).append(m)
    pick = []
    while len(pick) < A.n * 4 and by:
        for k in list(by):
            pick.append(by[k].pop())
            if not by[k]: del by[k]
    cnt = [0]
    for m in pick: q.put((pid, m, cnt))
def work():
    w = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
    subprocess.check_call(['cp', '-a', '/repo/.', w])
    try:
        while True:
            try: pid, m, cnt = q.get_nowait()
            except queue.Empty: return
            with lock:
                if cnt[0] >= A.n: continue
            fn = os.path.join(w, m['File'])
            orig = open(fn, 'rb').read()
            try:
                open(fn, 'wb').write(orig[:m['Start']] + m['New'].encode() + orig[m['End']:])
                pkg = './' + os.path.dirname(m['File'])
                rc, o = sh('go build ' + pkg, w)
                if rc: continue
                rc, o = sh('export MCOLLECTIVE_CERTNAME=rip.mcollective; timeout 100 go test -vet=off -count=1 ' + pkg, w, 200)
                if rc: continue
                with lock:
                    if cnt[0] >= A.n: continue
                    cnt[0] += 1
                rc, o = sh('./run.sh %s quick -repo %s -workers %d -only .' % (pid, w, A.w), '/verif')
                caught = ('VIOLATION property=' + pid) in o
                r = dict(prop=pid, caught=caught, rc=rc, where='%s:%d %s' % (m['File'], m['Line'], m['Func']), desc=m['Desc'], new=m['New'])
                notes = [l[:200] for l in o.split('\n') if re.search('UNCONF|MISM|not covered|VACUOUS', l)]
                if notes and not caught: r['notes'] = notes[:3]
                with lock:
                    open(A.out, 'a').write(json.dumps(r) + '\n')
            finally:
                open(fn, 'wb').write(orig)
    finally:
        shutil.rmtree(w)
ts = [threading.Thread(target=work) for _ in range(A.j)]
[t.start() for t in ts]; [t.join() for t in ts]
