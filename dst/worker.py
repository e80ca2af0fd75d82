"""A worker process: runs a slice of the seeds and reports one JSON line each.
   python -m dst.worker run PROP TIER BASE START STEP COUNT DEADLINE
   python -m dst.worker shrink PROP IN OUT BUDGET
   python -m dst.worker replay FILE [-v]
"""
import importlib
import json
import os
import random
import sys
import threading
import time

real_out = os.fdopen(os.dup(1), 'w', buffering=1)
wall = time.monotonic
PlanRandom = random.Random

from . import patch        # noqa: E402
patch.install(os.environ.get('DST_REPO', '/repo'))
from . import core         # noqa: E402
import faulthandler        # noqa: E402


def load(prop):
    return importlib.import_module('dst.props.%s' % prop)


def seed_of(base, prop, i):
    return '%s:%s:%d' % (base, prop, i)


def plan_for(prop, mod, seed, tier, i):
    r = PlanRandom('%s|plan' % seed)
    plan = mod.gen(r, tier, i)
    if prop[0] == 'N':          # which node of which coin
        if r.random() < 0.2:
            plan['coin'] = dict(magic=r.choice(('fabfb5da', '0b110907', '%08x' % r.getrandbits(32))), name=r.choice(('testcoin', 'nbc2')),
                                version=r.choice((70001, 70015, 90000)), port=r.choice((8333, 18333, 20303)))
        if r.random() < 0.2:
            plan['raw'] = True
    if prop[0] == 'W' and r.random() < 0.2:     # how file names are given
        plan['names'] = r.choice(('bytes', 'Path'))
    return json.loads(json.dumps(plan))


def emit(d):
    real_out.write(json.dumps(d) + '\n')


def cmd_run(prop, tier, base, start, step, count, deadline):
    mod = load(prop)
    t_end = wall() + float(deadline)
    start, step, count = int(start), int(step), int(count)
    for i in range(start, count, step):
        if wall() > t_end:
            emit(dict(i=i, status='deadline'))
            break
        seed = seed_of(base, prop, i)
        emit(dict(i=i, status='begin'))
        t0 = wall()
        plan = plan_for(prop, mod, seed, tier, i)
        r = core.run_one(mod, plan, seed)
        r['i'] = i
        r['seed'] = seed
        r['wall'] = wall() - t0
        if r['status'] == 'ok':
            r.pop('taken')
            if i < 3:
                r['plan'] = plan
        else:
            r['plan'] = plan
        emit(r)
        if r['status'] != 'ok':
            break
    emit(dict(status='done'))


def cmd_shrink(prop, fin, fout, budget):
    mod = load(prop)
    d = json.load(open(fin))

    def save(plan, table, res):
        tmp = fout + '.tmp'
        with patch.real.open(tmp, 'w') as f:
            json.dump(dict(property=prop, seed=d['seed'], plan=plan, decisions=table, cls=res['cls'],
                           message=res['message'], digest=res['digest']), f, indent=1, sort_keys=True)
        os.replace(tmp, fout)
    plan, table, last, tries = core.shrink(mod, d['plan'], d['seed'], d['taken'], d['cls'],
                                           float(budget), wall, save)
    if last is None:
        emit(dict(status='lost', tries=tries))
        return
    save(plan, table, last)
    emit(dict(status='shrunk', tries=tries, decisions=sum(len(v) for v in table.values()),
              ops=len(plan.get('ops', [])), faults=len(plan.get('faults', []))))


def cmd_replay(path, verbose=False):
    d = json.load(patch.real.open(path))
    mod = load(d['property'])
    r = core.run_one(mod, d['plan'], d['seed'], d['decisions'], verbose=verbose)
    if verbose:
        for l in r['log']:
            real_out.write(l + '\n')
    same = r['status'] == 'violation' and r['cls'] == d['cls'] and r['digest'] == d['digest']
    emit(dict(status=r['status'], cls=r['cls'], message=r['message'], digest=r['digest'], same=same))


def main():
    a = sys.argv[1:]
    faulthandler.enable(sys.stderr)
    if a[0] == 'run':
        cmd_run(*a[1:])
    elif a[0] == 'shrink':
        cmd_shrink(*a[1:])
    elif a[0] == 'replay':
        cmd_replay(a[1], '-v' in a)
    real_out.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
