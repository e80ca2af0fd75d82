#!/usr/bin/env python3
"""Every check three times (other worker counts, other hash seeds): the digest of every
run must be the same.  usage: determinism.py [FRACTION] [ID ...]"""
import os, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from dst.registry import PROPS
frac = float(sys.argv[1]) if len(sys.argv) > 1 else 0.2
ids = sys.argv[2:] or sorted(PROPS)
bad = total = 0
for p in ids:
    n = max(20, int(PROPS[p]['runs']['quick'] * frac))
    got = []
    for workers, hs in (('8', '0'), ('3', '0'), ('5', '4711')):
        f = tempfile.mktemp(prefix='dig')
        e = dict(os.environ, DST_RUNS=str(n), DST_WORKERS=workers, PYTHONHASHSEED=hs, DST_DIGESTS=f, VERIF_SEED=os.environ.get('VERIF_SEED', '1'))
        r = subprocess.run([os.path.join(ROOT, 'check'), p], env=e, capture_output=True, text=True)
        if r.returncode:
            print(p, 'exit', r.returncode, r.stdout[-300:], r.stderr[-500:])
        got.append(dict(l.split() for l in open(f)) if os.path.exists(f) else {})
        os.unlink(f)
    keys = set().union(*got)
    diff = [k for k in keys if len(set(g.get(k) for g in got)) != 1]
    total += len(keys)
    bad += len(diff)
    print('%s runs=%d different=%d %s' % (p, len(keys), len(diff), sorted(map(int, diff))[:10]), flush=True)
print('total runs=%d different=%d' % (total, bad))
sys.exit(1 if bad else 0)
