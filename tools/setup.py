#!/usr/bin/env python3
"""Setup: nothing is built ahead; verifies that the tools work and that every specification typechecks."""
import concurrent.futures, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def one(f):
    p = subprocess.run(['quint', 'typecheck', f], cwd=os.path.join(ROOT, 'spec'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return f, p.returncode, p.stdout
fs = sorted(f for f in os.listdir(os.path.join(ROOT, 'spec')) if f.endswith('.qnt'))
bad = 0
with concurrent.futures.ThreadPoolExecutor(6) as ex:
    for f, rc, out in ex.map(one, fs):
        if rc: bad += 1; print('typecheck failed', f, out[-2000:])
for d in ('evidence', 'replays'): os.makedirs(os.path.join(ROOT, d), exist_ok=True)
print(len(fs), 'specifications,', bad, 'failures')
sys.exit(1 if bad else 0)
