"""check <ID>: seeded search for violations of one property, over all cores."""
import json
import os
import subprocess
import sys
import threading
import time
import queue as _queue

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
if not os.path.exists(PY):
    PY = sys.executable
STALL = 150           # seconds one run may take before it counts as hung


def env():
    e = dict(os.environ)
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e.setdefault('PYTHONHASHSEED', '0')
    e['PYTHONPATH'] = HERE
    return e


def spawn(args, **kw):
    return subprocess.Popen([PY, '-m', 'dst.worker'] + [str(a) for a in args], cwd=HERE, env=env(),
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def settings(prop):
    """N runs and the wall cap, from the property module's source constants."""
    out = subprocess.run([PY, '-c', 'import json,sys;sys.path.insert(0,%r)\n'
                          'import dst.registry as r;print(json.dumps(r.PROPS[%r]))' % (HERE, prop)],
                         env=env(), capture_output=True, text=True)
    if out.returncode:
        sys.stderr.write(out.stderr)
        sys.exit(3)
    return json.loads(out.stdout)


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    base = os.environ.get('VERIF_SEED', '1')
    workers = int(os.environ.get('DST_WORKERS', os.cpu_count() or 8))
    t0 = time.monotonic()
    st = settings(prop)
    n = int(os.environ.get('DST_RUNS', st['runs'][tier]))
    cap = float(os.environ.get('DST_CAP', 240 if tier == 'quick' else 720))
    outdir = os.path.join(HERE, 'out')
    os.makedirs(os.path.join(outdir, 'replays'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    digest_file = os.environ.get('DST_DIGESTS')

    q = _queue.Queue()
    procs = []
    workers = max(1, min(workers, n))

    def reader(w, p):
        for line in p.stdout:
            try:
                q.put((w, json.loads(line)))
            except ValueError:
                q.put((w, dict(status='error', message='bad line from worker: %r' % line)))
        err = p.stderr.read()
        p.wait()
        q.put((w, dict(status='eof', rc=p.returncode, err=err)))
    for w in range(workers):
        p = spawn(['run', prop, tier, base, w, workers, n, cap])
        procs.append(p)
        threading.Thread(target=reader, args=(w, p), daemon=True).start()

    stats = dict(runs=0, nontrivial=0, sim_us=0, steps=0, switches=0, decisions=0)
    faults, probes = {}, {}
    sigs, samples, digests = set(), [], {}
    found, errors, deadline = [], [], False
    live = set(range(workers))
    current = {}
    finished = set()
    best_found = None
    while live:
        try:
            w, m = q.get(timeout=5)
        except _queue.Empty:
            now = time.monotonic()
            for w in list(live):
                if w in current and now - current[w][1] > STALL:
                    errors.append(dict(i=current[w][0], message='run hung for %d s of real time' % STALL))
                    procs[w].kill()
                    current.pop(w, None)
            continue
        s = m['status']
        if s == 'begin':
            current[w] = (m['i'], time.monotonic())
            # a lower failing seed is already known: nothing to gain here
            if best_found is not None and m['i'] > best_found:
                procs[w].kill()
        elif s == 'done':
            finished.add(w)
        elif s == 'deadline':
            deadline = True
        elif s == 'eof':
            live.discard(w)
            if w not in finished and not (best_found is not None) and not errors:
                errors.append(dict(i=current.get(w, (None,))[0],
                                   message='worker died (rc %s): %s' % (m['rc'], m['err'][-3000:])))
        elif s in ('ok', 'violation', 'error'):
            current.pop(w, None)
            if 'digest' in m:
                stats['runs'] += 1
                for kk in ('sim_us', 'steps', 'switches', 'decisions'):
                    stats[kk] += m[kk]
                for a, b in m['faults'].items():
                    faults[a] = faults.get(a, 0) + b
                for a, b in m['probes'].items():
                    probes[a] = probes.get(a, 0) + b
                if m['nontrivial']:
                    stats['nontrivial'] += 1
                    sigs.add(m['sig'])
                digests[m['i']] = m['digest']
            if 'plan' in m and len(samples) < 3:
                samples.append(dict(seed=m.get('seed'), plan=m['plan'], faults=m.get('faults'),
                                    sim_s=m.get('sim_us', 0) / 1e6, steps=m.get('steps'),
                                    result=s))
            if s == 'violation':
                found.append(m)
                best_found = m['i'] if best_found is None else min(best_found, m['i'])
                for w2, (i2, _) in list(current.items()):
                    if i2 > best_found:
                        procs[w2].kill()
            elif s == 'error':
                errors.append(m)
    search_s = time.monotonic() - t0
    if digest_file:
        with open(digest_file, 'w') as f:
            for i in sorted(digests):
                f.write('%d %s\n' % (i, digests[i]))

    violations = []
    rc = 0
    if found:
        m = min(found, key=lambda x: x['i'])
        path = report(prop, tier, base, m, outdir)
        violations.append(path)
        rc = 1
    elif errors:
        rc = 2
    ev = dict(property=prop, tier=tier, seed=int(base) if base.isdigit() else 0, level='exploration',
              wall_s=round(time.monotonic() - t0, 3), violations=len(violations),
              coverage=dict(
                  evaluations=stats['runs'], distinct_nontrivial=len(sigs),
                  rule='One evaluation = one simulated run from one seed (plan of operations and faults drawn from the '
                       'seed, then every scheduling, delay and fault decision). Non-trivial = at least one injected '
                       'fault or contended scheduling decision fired in it. Distinct = by a hash over the run\'s order '
                       'of thread switches, deliveries, accepts, closes, handler calls and I/O steps (no times, no payloads). '
                       + st['rule'],
                  samples=trim(samples),
                  runs_per_hour=int(stats['runs'] / max(search_s, 1e-6) * 3600),
                  seeds_per_hour=int(stats['runs'] / max(search_s, 1e-6) * 3600),
                  simulated_seconds=round(stats['sim_us'] / 1e6, 1),
                  simulator_steps=stats['steps'], thread_switches=stats['switches'],
                  nonbenign_decisions=stats['decisions'],
                  faults_fired=faults, probes=probes, workers=workers,
                  runs_planned=n, stopped_by_wall_cap=deadline,
                  real_components=st['real'], stub_components=st['stub']),
              assumptions=st['assumptions'])
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    for e in errors[:3]:
        sys.stderr.write('HARNESS ERROR seed index %s: %s\n' % (e.get('i'), e.get('message')))
    for line in st.get('known', []):
        if rc == 0:
            print('KNOWN-FINDING: property=%s %s' % (prop, line))
    if rc == 0:
        print('OK property=%s runs=%d distinct=%d sim=%.0fs wall=%.1fs faults=%s' % (
            prop, stats['runs'], len(sigs), stats['sim_us'] / 1e6, search_s, sum(faults.values())))
        if stats['runs'] == 0:
            return 2
    return rc


def trim(samples):
    out = []
    for s in samples:
        t = json.dumps(s)
        if len(t) > 6000:
            s = dict(s)
            s['plan'] = t[:5000] + '...'
        out.append(s)
    return out or [dict(note='no run completed')]


def report(prop, tier, base, m, outdir):
    """Minimise, write the replay file, confirm it in a fresh process, print."""
    tag = '%s-%s-%s' % (prop, base, m['i'])
    raw = os.path.join(outdir, 'replays', tag + '.raw.json')
    path = os.path.join(outdir, 'replays', tag + '.json')
    with open(raw, 'w') as f:
        json.dump(dict(seed=m['seed'], plan=m['plan'], taken=m['taken'], cls=m['cls']), f)
    full = dict(property=prop, seed=m['seed'], plan=m['plan'], decisions=m['taken'], cls=m['cls'],
                message=m['message'], digest=m['digest'])
    with open(path, 'w') as f:
        json.dump(full, f, indent=1, sort_keys=True)
    budget = float(os.environ.get('DST_SHRINK', 20 if tier == 'quick' else 90))
    info = {}
    if budget > 0:
        p = spawn(['shrink', prop, raw, path, budget])
        try:
            out, err = p.communicate(timeout=budget + 120)
            info = json.loads(out.splitlines()[-1]) if out.strip() else dict(status='failed', err=err[-500:])
        except subprocess.TimeoutExpired:
            p.kill()
            info = dict(status='timeout')
    rep = replay(path)
    if not rep.get('same'):
        # the minimised file must reproduce exactly; otherwise fall back to the full run
        with open(path, 'w') as f:
            json.dump(full, f, indent=1, sort_keys=True)
        rep = replay(path)
    d = json.load(open(path))
    print('violation class=%s seed=%s' % (d['cls'], d['seed']))
    text = str(d['message'])
    if len(text) > 3000:
        text = text[:1500] + ' ... ' + text[-1500:]
    print('  ' + text.replace('\n', '\n  '))
    print('  minimised: %s ops, %s faults, %s non-benign decisions (%s); replay %s' % (
        len(d['plan'].get('ops', [])), len(d['plan'].get('faults', [])),
        sum(len(v) for v in d['decisions'].values()), info.get('status'),
        'reproduces exactly' if rep.get('same') else 'DID NOT REPRODUCE: %s' % rep))
    print('VIOLATION property=%s replay=%s' % (prop, path))
    try:
        os.remove(raw)
    except OSError:
        pass
    return path


def replay(path, verbose=False):
    p = spawn(['replay', path] + (['-v'] if verbose else []))
    try:
        out, err = p.communicate(timeout=300)
    except subprocess.TimeoutExpired:
        p.kill()
        return dict(status='timeout')
    lines = out.splitlines()
    if verbose:
        for l in lines[:-1]:
            print(l)
    return json.loads(lines[-1]) if lines else dict(status='died', err=err[-800:])


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
