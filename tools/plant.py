#!/usr/bin/env python3
"""plant.py ID < spec: creates /verif/seeded/ID from a python spec on stdin defining
prop, needs, breaks, edits=[(file, old, new)], demo (C++ source).  The patch is made from /repo's HEAD."""
import sys, os, json, subprocess
R = os.environ.get('PLANT_REPO', '/repo'); ID = sys.argv[1]; ns = {}; exec(sys.stdin.read(), ns)
d = '/verif/seeded/' + ID; os.makedirs(d, exist_ok=True)
assert not subprocess.run(['git', '-C', R, 'status', '--porcelain'], capture_output=True, text=True).stdout
try:
    for f, a, b in ns['edits']:
        p = R + '/orocos_kdl/src/' + f if not f.startswith('python') else R + '/' + f; s = open(p, newline='').read()
        if '\r\n' in s: a = a.replace('\n', '\r\n'); b = b.replace('\n', '\r\n')
        assert s.count(a) == 1, (f, s.count(a), a); open(p, 'w', newline='').write(s.replace(a, b))
    diff = subprocess.run(['git', '-C', R, 'diff'], capture_output=True).stdout
finally:
    subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'])
open(d + '/patch.diff', 'wb').write(diff)
json.dump(dict(property=ns['prop'], needs=ns['needs'], what_it_breaks=ns['breaks']), open(d + '/meta.json', 'w'), indent=1)
if 'pydemo' in ns:
    open(d + '/demo.py', 'w').write(ns['pydemo'])
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# run with cwd /repo after the build
here=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/_build/py" LD_LIBRARY_PATH="$PWD/_build/install/lib" timeout 60 /usr/bin/python3 "$here/demo.py"
'''); sys.exit()
open(d + '/demo.cpp', 'w').write(ns['demo'])
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# run with cwd /repo after the build
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -O1 -std=c++14 -I/usr/include/eigen3 -I_build/install/include -I_build/install/include/kdl -Iorocos_kdl/src -I_build/kdl/src "$here/demo.cpp" -o "$t/demo" -L_build/install/lib -lorocos-kdl -Wl,-rpath,"$PWD/_build/install/lib" || exit 3
timeout 60 "$t/demo"
''')
