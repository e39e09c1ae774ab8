#!/usr/bin/env python3
"""seedtest.py <id>... [--nocheck] [-cPxx]: confirms planted changes in a scratch clone of /repo ($SEEDREPO: applies, builds, suite, demo both ways),
then runs the checks ($SEEDVERIF/lib/check.py with VERIF_REPO) on them and undoes them. Nothing happens in /repo itself."""
import json, os, subprocess, sys
V = os.environ.get('SEEDVERIF', '/verif'); R = os.environ.get('SEEDREPO', '/tmp/rs'); OUT = os.environ.get('SEEDOUT', '/verif/seeded')
assert R != '/repo'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def build():
    if not os.path.exists(R+'/build/build.ninja'):
        r = sh('cmake -S . -B build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_C_FLAGS=-Wno-error -DCMAKE_CXX_FLAGS=-Wno-error -DCMAKE_C_COMPILER_LAUNCHER= -DCMAKE_CXX_COMPILER_LAUNCHER=', cwd=R, env=dict(os.environ, CC='gcc', CXX='g++', CCACHE_DISABLE='1'))
    return sh('ninja -C build', cwd=R)
def suite():
    b = build()
    if b.returncode: return 'build fails: '+b.stdout[-800:]
    s = open('/opt/vp/test.sh').read().replace('bash /opt/vp/build.sh ||', 'true ||').replace('/repo', R)
    open('/tmp/seed_test.sh', 'w').write(s)
    sh('bash /tmp/seed_test.sh /tmp/seed_st.json')
    b = json.load(open('/opt/vp/BASELINE.json')); o = json.load(open('/tmp/seed_st.json'))
    k = [k for k in b if isinstance(b[k], list)]
    st = set(b.get('stable_passes') or b.get('passed') or b[k[0]])
    m = sorted(st-set(o['passed']))
    return m[:3] if m else 'ok'
def demo(i):
    d = '/tmp/seed_demo'
    sh('rm -rf %s; cp -r %s/%s %s; sed -i "s#/repo#%s#g" %s/*' % (d, OUT, i, d, R, d))
    return sh('bash %s/demo.sh' % d, cwd=R, timeout=400)
nocheck = '--nocheck' in sys.argv
checks = [a[2:] for a in sys.argv[1:] if a.startswith('-c')]
ids = [a for a in sys.argv[1:] if not a.startswith('-')]
sh('git -C %s checkout -q -- .' % R)
if build().returncode: print('base does not build'); sys.exit(1)
bases = {i: demo(i) for i in ids}
for i in ids:
    d = '%s/%s' % (OUT, i)
    meta = json.load(open(d+'/meta.json'))
    base = bases[i]
    r = sh('git -C %s apply %s/patch.diff' % (R, d))
    if r.returncode: print(i, 'PATCH DOES NOT APPLY', r.stderr); continue
    try:
        s = suite(); dm = demo(i) if s == 'ok' else None
        res = {}
        if s == 'ok' and not nocheck:
            for p in checks or [meta['property']]:
                c = sh('cd %s && VERIF_REPO=%s python3 lib/check.py %s' % (V, R, p))
                res[p] = (c.returncode, [l.strip()[:150] for l in c.stdout.split('\n') if ': case' in l][:1])
        good = s == 'ok' and not base.returncode and dm.returncode and (nocheck or any(v[0] == 1 for v in res.values()))
        print('OK  ' if good else 'BAD ', i, meta['property'], 'suite', s, 'demo base', base.returncode, 'patched', dm and dm.returncode, (dm.stderr or dm.stdout).strip()[-160:] if dm else '', 'checks', res, flush=True)
        if base.returncode: print('   base:', base.stdout[-500:], base.stderr[-500:])
    finally:
        sh('git -C %s checkout -q -- .' % R)
