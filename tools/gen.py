#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from tools/props/*.py, and checks that every claimed property has a harness."""
import json, glob, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(here)
props = []
for f in sorted(glob.glob('tools/props/*.py')):
    ns = {}
    exec(open(f).read(), ns)
    props += ns['PROPS']
props.sort(key=lambda p: p['id'])
have = set()
for root, _, fs in os.walk('harness'):
    for f in fs:
        for m in re.finditer(r'//verif:harness prop=(\w+)', open(os.path.join(root, f)).read()):
            have.add(m.group(1))
ids = [p['id'] for p in props]
assert len(ids) == len(set(ids)), 'duplicate ids'
checks, na = [], []
with open('properties.jsonl', 'w') as out:
    for p in props:
        for fn in p['files']:
            assert os.path.exists('/repo/' + fn), (p['id'], fn)
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        rec = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
               'quantifier': {'over': p['over'], 'text': p['qtext']},
               'why_tests_cant': p['why'],
               'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}
        if p.get('observe'):
            rec['anchors']['observe_at'] = p['observe']
        out.write(json.dumps(rec) + '\n')
        if p.get('na'):
            na.append({'property': p['id'], 'reason': p['na']})
            continue
        if p['id'] not in have:
            print('no harness for', p['id'])
            na.append({'property': p['id'], 'reason': 'no check has been built for it yet'})
            continue
        checks.append({'property': p['id'], 'quick_cmd': './run.sh %s quick' % p['id'], 'thorough_cmd': './run.sh %s thorough' % p['id'],
                       'technique': 'symbolic execution of the Go SSA of the real code with an SMT solver (gosym, z3)',
                       'level': 'model_checking',
                       'level_note': p['note'] + ' Bounded: the claim covers all values within the bounds stated in the evidence per harness and nothing outside; paths listed there as not covered are outside too. Trusted: the symbolic executor (validated on every run against the compiled code on sampled paths), the solver, and the stubs named in the harness.'})
extra = have - set(ids)
if extra:
    print('harness without property:', extra)
man = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
       'notes': 'Every check regenerates the encoding from /repo: the package sources are loaded with go/packages, harness files from /verif/harness are laid over them, the SSA is executed symbolically by /verif/engine (gosym), assertions are decided by z3 and counterexamples are replayed against a native build of the same sources before they are reported.'}
json.dump(man, open('MANIFEST.json', 'w'), indent=1)
print(len(props), 'properties', len(checks), 'checks', len(na), 'not applicable')

# DESIGN.md
known = json.load(open('known-findings.json'))
byprop = {}
for root, _, fs in os.walk('harness'):
    for f in sorted(fs):
        p = os.path.join(root, f)
        lines = open(p).read().split('\n')
        repl = sorted({' '.join(l.split()[1:]) for l in lines if l.startswith(('//verif:replace', '//verif:override', '//verif:call'))})
        mods = sorted({l.split(':')[1].split()[0] for l in lines if re.match(r'//verif:(fs|clock|exec)\b', l)})
        i = 0
        while i < len(lines):
            m = re.match(r'//verif:harness prop=(\w+)\s*(.*)', lines[i])
            if m:
                b, name = '', '?'
                for l in lines[i+1:i+12]:
                    if l.startswith('//verif:bounds'):
                        b += ('; ' if b else '') + l[len('//verif:bounds '):].strip()
                    n = re.match(r'func (\w+)', l)
                    if n:
                        name = n.group(1); break
                opts = ' '.join(o for o in m.group(2).split() if not o.startswith(('reach=', 'seconds=', 't.seconds=', 'maxsteps=', 'paths=', 't.paths=', 'samples=', 'solverms=')))
                byprop.setdefault(m.group(1), []).append((p, name, opts, b, repl, mods))
            i += 1
out = [open('tools/DESIGN.head.md').read().rstrip('\n'), '', '## The properties and their checks', '',
       'Options: `preempt` preemptions, `delays` departures from the default schedule, `simul` timers may fire together, `deadlock=violation` a deadlock is a violation, `t.` thorough tier.', '']
for p in props:
    out += ['### %s %s' % (p['id'], p['title']), '', p['statement'], '']
    if p.get('na'):
        out += ['Not claimed: ' + p['na'], '']
        continue
    out += ['Anchors: ' + '; '.join('%s (%s)' % (w, n) for n, w in p['mech']) + '. ' + p['why'] + ' ' + p['note'], '']
    last = None
    for h in byprop.get(p['id'], []):
        if h[0] != last:
            out.append('* `%s`%s%s' % (h[0], ' models ' + ', '.join(h[5]) if h[5] else '', '; stands in for ' + ', '.join('`%s`' % r.split()[0].replace('github.com/choria-io/go-choria/', '') for r in h[4]) if h[4] else ''))
            last = h[0]
        out.append('  * `%s`%s: %s' % (h[1], ' (%s)' % h[2] if h[2] else '', h[3] or 'see the source'))
    for f in known['fixed']:
        if ('property=%s ' % p['id']) in f:
            out.append('* Found and repaired: ' + f.split(' ', 2)[2])
    for f in known['findings']:
        if f['property'] == p['id']:
            out.append('* Known finding %s: %s' % (f['id'], f['what']))
    out.append('')
out += ['## Planted bugs', '', 'Each is confirmed (compiles, existing tests of its packages pass, demonstration fails with and passes without it).', '', '| bug | property | needs | caught by |', '|---|---|---|---|']
try: caught = json.load(open('tools/caught.json'))
except OSError: caught = {}
for d in sorted(glob.glob('seeded/*/meta.json')):
    i = d.split('/')[1]; m = json.load(open(d))
    out.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), ', '.join(caught.get(i, [])) or 'missed'))
open('DESIGN.md', 'w').write('\n'.join(out) + '\n')
