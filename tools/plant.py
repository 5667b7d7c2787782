#!/usr/bin/env python3
"""plant.py <id> : checks a planted bug in a scratch copy of /repo: builds, stable tests pass, demo 0 without / non-zero with it.
With --run also runs the property's check against the patched tree (VERIF_REPO)."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bid = sys.argv[1]; d = V + '/seeded/' + bid; meta = json.load(open(d + '/meta.json'))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def tests():
    r = sh('bash /opt/vp/build.sh'); 
    if r.returncode: return 'BUILD FAILS ' + r.stdout[-1500:]
    r = sh('bash /opt/vp/test.sh /tmp/plant_out.json'); 
    return r.stdout.strip().split('\n')[-1]
st = sh('git -C /repo status --porcelain').stdout
assert not st.strip(), st
demo_src = '/tmp/plant_demo'; shutil.rmtree(demo_src, ignore_errors=True); shutil.copytree(d, demo_src)
ok = True
try:
    if '--nodemo' not in sys.argv:
        tests()
        r = sh('bash %s/demo.sh' % demo_src, cwd='/repo', timeout=300); print('clean demo:', r.returncode); ok &= r.returncode == 0
        if r.returncode: print(r.stdout[-1500:])
    r = sh('git -C /repo apply %s/patch.diff' % d); assert r.returncode == 0, r.stdout
    if '--nodemo' not in sys.argv:
        t = tests(); print('tests:', t); ok &= t == '86 passed, 0 failed'
        r = sh('bash %s/demo.sh' % demo_src, cwd='/repo', timeout=300); print('patched demo:', r.returncode, r.stdout.strip()[-300:]); ok &= r.returncode != 0
    if '--run' in sys.argv:
        r = sh('python3 run.py %s %s' % (meta['property'], ' '.join(sys.argv[sys.argv.index('--run') + 1:])), cwd=V); print('check:', r.returncode, r.stdout.strip()[-900:])
finally:
    sh('git -C /repo checkout -- .'); shutil.rmtree(demo_src, ignore_errors=True)
    if '--nodemo' not in sys.argv: sh('bash /opt/vp/build.sh')
print('COUNTS' if ok else 'DOES NOT COUNT')
