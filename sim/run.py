#!/usr/bin/env python3
"""run.py ID [quick|thorough] [extra simulator args]   or   run.py --replay FILE
Builds the simulator for property ID from /repo's working tree and explores seeds (VERIF_SEED, VERIF_TIER).
Exit 0: held on everything explored; 1: VIOLATION line printed; anything else: an error of the check."""
import os, re, subprocess, sys, json, time
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
TARGET = json.load(open(os.path.join(HERE, 'targets.json')))
def build(t):
    r = subprocess.run([sys.executable, os.path.join(HERE, 'build.py'), t], capture_output=True, text=True)
    if r.returncode: print(r.stdout + r.stderr); sys.exit(2)
    return r.stdout.split()[-1]
def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay':
        prop = re.search(r'^property (\w+)', open(a[1]).read(), re.M).group(1)
        b = build(TARGET[prop]); return subprocess.call([b, '--prop', prop] + a)
    prop = a[0]; tier = a[1] if len(a) > 1 and a[1] in ('quick', 'thorough') else os.environ.get('VERIF_TIER', 'quick')
    extra = [x for x in a[1:] if x not in ('quick', 'thorough')]
    seed = os.environ.get('VERIF_SEED', '1')
    if not re.match(r'^\d+$', seed): seed = str(abs(hash(seed)) % 10**9) if False else str(sum(ord(c) * 131 ** i for i, c in enumerate(seed)) % 10**9)
    ev = os.path.join(VERIF, 'evidence'); os.makedirs(ev, exist_ok=True)
    p = os.path.join(ev, prop + '.json')
    if os.path.exists(p): os.unlink(p)
    b = build(TARGET[prop])
    cmd = [b, '--prop', prop, '--tier', tier, '--seed', seed, '--evidence', p, '--replay-dir', os.path.join(ev, 'replays'), '--known', os.path.join(VERIF, 'KNOWN_FINDINGS.txt')] + extra
    return subprocess.call(cmd)
sys.exit(main())
