#!/usr/bin/env python3
"""fixed.py <property> <what failed> : records /repo's HEAD commit as the repair of a defect (maintenance helper)."""
import json, subprocess, sys, os
f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known-findings.json')
d = json.load(open(f)) if os.path.exists(f) else {'findings': [], 'fixed': []}
c = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', '--short', 'HEAD'], text=True).strip()
d['fixed'].append('fixed: property=%s %s %s' % (sys.argv[1], c, sys.argv[2]))
json.dump(d, open(f, 'w'), indent=1)
