#!/usr/bin/env python3
'''
mkseed.py ID PROPERTY DEMO.py NEEDS BREAKS: records the uncommitted change in
/repo as a planted bug and undoes it.
'''
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, prop, demo, needs, breaks = sys.argv[1:6]
d = os.path.join(V, 'seeded', sid)
shutil.rmtree(d, ignore_errors=True)
os.makedirs(d)
patch = subprocess.check_output(['git', '-C', '/repo', 'diff'])
assert patch
with open(os.path.join(d, 'patch.diff'), 'wb') as f:
    f.write(patch)
for sub in ('lib', 'stubs', 'keys'):
    shutil.copytree(os.path.join(V, 'mc', sub), os.path.join(d, 'h', sub), ignore=shutil.ignore_patterns('__pycache__', '*.class', '*.pyc', 'runner.py', 'explore.py'))
with open(demo) as f:
    body = f.read()
with open(os.path.join(d, 'demo.py'), 'w') as f:
    f.write('''import os, sys
D = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(D, 'h', 'lib'), os.path.join(D, 'h', 'stubs')]
import env
''' + body)
with open(os.path.join(d, 'demo.sh'), 'w') as f:
    f.write('''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export MC_SCRATCH=$T HOME=$T
bash /opt/vp/jy.sh "$D/demo.py"
''')
os.chmod(os.path.join(d, 'demo.sh'), 0o755)
with open(os.path.join(d, 'meta.json'), 'w') as f:
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, f, indent=1)
    f.write('\n')
subprocess.check_call(['git', '-C', '/repo', 'checkout', '--', '.'])
