#!/usr/bin/env python3
"""mkseed.py SPEC.py [ID...]: builds /verif/seeded/<id>/ from a spec and confirms it in a scratch copy of /repo.
A spec is a Python file defining SEEDS, a list of dict(id, prop, edits=[(file, old, new)], pkg, test, needs, breaks)."""
import sys, os, subprocess, json, shutil, tempfile
spec = {}
exec(open(sys.argv[1]).read(), spec)
only = sys.argv[2:]
nocheck = os.environ.get('NOCHECK')
def sh(cmd, cwd, timeout=1500):
    r = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; ' + cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout
DEMO = '''#!/bin/bash
# exit 0: the property holds; non-zero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp -d) || exit 0
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$here" > "$t/overlay.json"
TMPDIR=$t timeout 280 go test -vet=off -count=1 -overlay "$t/overlay.json" -run '^TestZZDemo$' ./%(pkg)s
'''
for s in spec['SEEDS']:
    if only and s['id'] not in only:
        continue
    print('==', s['id'], flush=True)
    d = '/verif/seeded/' + s['id']
    w = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    try:
        subprocess.check_call(['cp', '-a', '/repo/.', w])
        bad = False
        for f, old, new in s['edits']:
            p = os.path.join(w, f)
            t = open(p).read()
            if t.count(old) != 1:
                print('  edit matches', t.count(old), 'times in', f); bad = True; break
            open(p, 'w').write(t.replace(old, new))
        if bad: continue
        rc, diff = sh('git diff', w)
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo_test.go', 'w').write(s['test'])
        open(d + '/demo.sh', 'w').write(DEMO % {'pkg': s['pkg']})
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        rc, o = sh('go build $(packages | grep -v /integration/)', w)
        if rc: print('  BUILD FAILS', o[-1500:]); continue
        rc, o = sh('bash %s/demo.sh' % d, w)
        print('  demo patched rc', rc, '' if rc else o[-800:])
        if rc and 'FAIL: TestZZDemo' not in o: print(o[-2500:])
        sh('git checkout -- .', w)
        rc, o = sh('bash %s/demo.sh' % d, w)
        print('  demo clean rc', rc, '' if not rc else o[-2500:])
        sh('git apply %s/patch.diff' % d, w)
        pk = sorted({'./' + os.path.dirname(f) for f, _, _ in s['edits']} | set(s.get('also', [])))
        rc, o = sh('export MCOLLECTIVE_CERTNAME=rip.mcollective; go test -vet=off -count=1 ' + ' '.join(pk), w)
        print('  tests rc', rc, '' if not rc else '\n'.join(l for l in o.split('\n') if 'FAIL' in l)[-1500:])
        if not nocheck:
            for prop in [s['prop']] + s.get('props', []):
                rc, o = sh('cd /verif && ./run.sh %s quick -repo %s -only . | grep -A2 -E "VIOLATION|exit=" | tail -8' % (prop, w), '/verif')
                cf = '/verif/tools/caught.json'
                cj = json.load(open(cf)) if os.path.exists(cf) else {}
                cs = set(cj.get(s['id'], [])) - {prop}
                if 'VIOLATION property=' + prop in o: cs.add(prop)
                cj[s['id']] = sorted(cs)
                json.dump(cj, open(cf, 'w'), indent=1, sort_keys=True)
                print('  check', prop, 'VIOLATION' in o and 'CAUGHT' or 'MISSED', o[-700:])
    finally:
        shutil.rmtree(w)
