#!/usr/bin/env python3
"""Confirm planted bugs: tools/plant.py [--nocheck] [ID ...]
For each seeded/ID: the demonstration passes on a copy of /repo, and with the patch the copy
builds, the stable tests pass, the demonstration fails; then runs the property's check on it."""
import json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '/tmp/plant'


def sh(cmd, cwd=None, env=None, t=900):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    return p.returncode, p.stdout.decode(errors='replace')


def confirm(i):
    d = os.path.join(V, 'seeded', i)
    w = os.path.join(BASE, i)
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    repo = w + '/repo'
    try:
        shutil.copytree('/repo', repo, symlinks=True)
        demo = w + '/demo'
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns('*.diff', '*.patch', 'meta.json'))
        rc, out = sh('bash %s/demo.sh' % demo, repo, t=300)
        if rc:
            return 'DEMO FAILS UNPATCHED\n' + out
        rc, out = sh('git apply %s/patch.diff' % d, repo)
        if rc:
            return 'PATCH\n' + out
        text = open(d + '/patch.diff').read()
        if not re.search(r'^-(?!--)', text, re.M):
            return 'NO ORIGINAL LINE CHANGED'
        for f in ('build.sh', 'check_build.py', 'test.sh'):
            s = open('/opt/vp/' + f).read().replace('/repo', repo).replace('/opt/vp/check_build.py', w + '/check_build.py')
            open(w + '/' + f, 'w').write(s)
        rc, out = sh('bash %s/build.sh' % w)
        if rc:
            return 'BUILD\n' + out
        rc, out = sh('bash %s/test.sh %s/res.json' % (w, w))
        res = json.load(open(w + '/res.json'))
        stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
        passed = res.get('passed') or [k for k, v in res.get('results', {}).items() if v in ('pass', 'passed')]
        bad = [s for s in stable if s not in passed]
        if bad:
            return 'TESTS %s\n%s' % (bad[:3], str(res)[:300])
        rc, out = sh('bash %s/demo.sh' % demo, repo, t=300)
        if rc == 0:
            return 'DEMO PASSES PATCHED\n' + out
        return None
    finally:
        shutil.rmtree(repo + '/.git', ignore_errors=True)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    ids = sorted(os.listdir(V + '/seeded'))
    if args:
        ids = [i for i in ids if any(i.startswith(a) for a in args)]
    with ThreadPoolExecutor(4) as ex:
        bad = list(ex.map(confirm, ids))
    for i, b in zip(ids, bad):
        if b:
            print('%-28s NOT CONFIRMED: %s' % (i, b), flush=True)
            shutil.rmtree(os.path.join(BASE, i), ignore_errors=True)
            continue
        meta = json.load(open(os.path.join(V, 'seeded', i, 'meta.json')))
        verdict = 'confirmed'
        if '--nocheck' not in sys.argv:
            rc, out = sh('./check %s' % meta['property'], V, dict(DST_REPO=os.path.join(BASE, i, 'repo')))
            last = [l for l in out.splitlines() if l.startswith('VIOLATION')]
            verdict += '  %s rc=%d %s' % (meta['property'], rc, (out.splitlines()[-2:] if not last else [l for l in out.splitlines()][-1])[:150] if rc != 1 else 'CAUGHT')
        print('%-28s %s' % (i, verdict), flush=True)
        shutil.rmtree(os.path.join(BASE, i), ignore_errors=True)


main()
