"""Authoring aid: mkseed.py SPEC.py...   Each SPEC defines id, prop, edits=[(file, old, new)], needs, breaks, demo (C++ text), bin(optional).
Applies the change to /repo, builds, runs the stable tests and the demo with and without it, and keeps it under seeded/<id>."""
import sys, os, subprocess, json, shutil, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = '/repo'
SH = '''#!/bin/bash
# cwd: /repo.  Builds demo.cpp against the tree's headers in a scratch directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
g++ -std=gnu++20 -O0 -w -I"$here/stub" -I"$here/stub/gen" -Isrc/include -Isrc/pdaaal-bin -I_build/src/include "$here/demo.cpp" %s _build/src/include/libpdaaal.a -o "$tmp/demo" -lboost_program_options -labsl_hash -labsl_city -labsl_low_level_hash -labsl_raw_hash_set || { echo "demo does not build"; exit 3; }
timeout 60 "$tmp/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, cwd=R, capture_output=True, text=True, **k)
base = json.load(open('/opt/vp/BASELINE.json'))['stable']
for spec in sys.argv[1:]:
    s = runpy.run_path(spec)
    d = os.path.join(V, 'seeded', s['id']); os.makedirs(d, exist_ok=True)
    open(d + '/demo.cpp', 'w').write(s['demo'])
    open(d + '/demo.sh', 'w').write(SH % s.get('src', '')); os.chmod(d + '/demo.sh', 0o755)
    shutil.rmtree(d + '/stub', ignore_errors=True); shutil.copytree(V + '/stub', d + '/stub')
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    assert not sh('git status --porcelain').stdout.strip()
    good = True
    try:
        if not os.environ.get('SKIPCLEAN'):
            r = sh('bash /opt/vp/build.sh'); r = sh('bash %s/demo.sh' % d)
            if r.returncode: print(s['id'], 'demo fails on clean tree', r.stdout[-500:], r.stderr[-1500:]); good = False
        for f, a, b in s['edits']:
            p = os.path.join(R, 'src', f); t = open(p, newline='').read()
            if '\r\n' in t: a, b = a.replace('\n', '\r\n'), b.replace('\n', '\r\n')
            if t.count(a) != 1: print(s['id'], 'edit matches', t.count(a), 'times', f, repr(a)[:80]); good = False; break
            open(p, 'w', newline='').write(t.replace(a, b))
        if good:
            open(d + '/patch.diff', 'wb').write(subprocess.run('git diff', shell=True, cwd=R, capture_output=True).stdout)
            r = sh('bash /opt/vp/test.sh /tmp/t.json')
            res = json.load(open('/tmp/t.json'))
            miss = [x for x in base if x not in res['passed']]
            if miss: print(s['id'], 'tests fail / build fails', miss[:3], r.stdout[-800:]); good = False
            r = sh('bash %s/demo.sh' % d)
            if r.returncode in (0, 3): print(s['id'], 'demo exit', r.returncode, r.stdout[-300:], r.stderr[-1500:]); good = False
            else: out = r.stdout[-200:] + r.stderr[-200:]
    finally: sh('git checkout -- .')
    print(s['id'], 'OK ' + out.strip()[:200] if good else 'REJECTED', flush=True)
    if not good: shutil.rmtree(d)
