"""SEEDREPO names the (scratch) clone of /repo to work on, SEEDOUT the folder of the planted changes. mkseed.add(id, property, needs, breaks, edits, demo): writes /verif/seeded/<id>; edits are (file, old, new) on /repo's HEAD."""
import json, os, shutil, subprocess
R = os.environ.get('SEEDREPO', '/repo'); OUT = os.environ.get('SEEDOUT', '/verif/seeded')
K = os.path.dirname(os.path.abspath(__file__))
def add(i, prop, needs, breaks, edits, demo, demosh=None, extra=()):
    d = OUT+'/'+i
    os.makedirs(d, exist_ok=True)
    saved = {}
    for f, o, n in edits:
        p = R+'/'+f
        s = open(p).read(); saved.setdefault(p, s)
        assert s.count(o) == 1, (i, f, s.count(o), o)
        open(p, 'w').write(s.replace(o, n))
    diff = subprocess.run(['git', '-C', R, 'diff'], capture_output=True, text=True).stdout
    for p, s in saved.items(): open(p, 'w').write(s)
    open(d+'/patch.diff', 'w').write(diff)
    if demo is not None:
        open(d+'/demo.cpp', 'w').write('#include "dg.hpp"\nint main()\n{\n'+demo.strip('\n')+'\n   return 0;\n}\n' if 'int main' not in demo else '#include "dg.hpp"\n'+demo.strip('\n')+'\n')
        shutil.copy(K+'/dg.hpp', d)
    if demosh: open(d+'/demo.sh', 'w').write(demosh)
    else: shutil.copy(K+'/demo.sh', d)
    for name, txt in extra: open(d+'/'+name, 'w').write(txt)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d+'/meta.json', 'w'), indent=1)
