#!/usr/bin/env python3
"""Development tool: turns an entry of the list given as a python file into
seeded/<id>/ and tries it: plant.py FILE ID... [--check]"""
import sys, os, json, subprocess, shutil
REPO = os.environ.get('PLANT_REPO', '/repo'); SEED = '/verif/seeded'
ns = {}; exec(open(sys.argv[1]).read(), ns); P = {p['id']: p for p in ns['PLANTS']}
ids = [a for a in sys.argv[2:] if a[0] != '-'] or list(P)
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
def clean(): sh('git -C %s checkout -- .' % REPO)
DEMO = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -w %s -I include "$d/demo.cpp" -o "$t/demo" || exit 3
export LEXERTL_INC="$PWD/include"; cd "$t" && timeout 100 ./demo
'''
base = json.load(open('/opt/vp/BASELINE.json'))
for i in ids:
    p = P[i]; d = os.path.join(SEED, i)
    if sh('git -C %s status --porcelain -uno' % REPO).stdout.strip(): sys.exit('repo dirty')
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in p['edits']:
            fp = os.path.join(REPO, 'include/lexertl', f); s = open(fp, newline='').read(); nl = '\r\n' if '\r\n' in s else '\n'
            o = old.replace('\n', nl); n = new.replace('\n', nl); c = s.count(o)
            assert c == p.get('count', 1), '%s: %d occurrences of %r' % (i, c, old)
            open(fp, 'w', newline='').write(s.replace(o, n))
        diff = subprocess.run('git -C %s diff --binary' % REPO, shell=True, stdout=subprocess.PIPE).stdout
        open(d + '/patch.diff', 'wb').write(diff)
        open(d + '/demo.cpp', 'w').write(p['demo']); open(d + '/demo.sh', 'w').write(DEMO % p.get('flags', ''))
        json.dump({'property': p['property'], 'needs': p['needs'], 'what_it_breaks': p['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        b = sh('bash %s/demo.sh' % d, cwd=REPO); t = sh('bash %s /tmp/plant_out.json' % os.environ.get('PLANT_TEST', '/opt/vp/test.sh'))
        try: bad = set(base['stable']) - set(map(str, json.load(open('/tmp/plant_out.json'))['passed']))
        except Exception as e: bad = {'?' + repr(e) + t.stdout[-500:]}
        ck = ''
        if '--check' in sys.argv:
            r = sh('python3 /verif/lib/check.py %s quick' % p['property'], env=dict(os.environ, VERIF_DEADLINE='400', VERIF_REPO=REPO)); ck = ' check rc=%d %s' % (r.returncode, r.stdout.strip().split('\n')[0][:200] + ' | ' + r.stdout.strip().split('\n')[-1][:200])
    finally:
        clean()
    a = sh('bash %s/demo.sh' % d, cwd=REPO)
    print('%s %s: demo unpatched rc=%d, patched rc=%d%s, broken tests=%s%s' % (i, p['property'], a.returncode, b.returncode, '' if b.returncode not in (0, 3) else ' !!! ' + b.stdout[-1500:], sorted(bad)[:3], ck), flush=True)
    if a.returncode: print(a.stdout[-1000:])
