"""One simulated run: (property, plan, seed or decision table) -> result."""
import gc
import random
import sys
import traceback

from . import kernel as K
from . import loader
from . import net as N
from . import simfs
from .decisions import Decisions
from .errors import Violation, HarnessError, SimKill, Livelock, blame


class Twin(Decisions):
    """The same decisions again, for a second run of the same schedule."""

    def __init__(self, first):
        Decisions.__init__(self, first.seed, first.table, first.rate)
        self.first = first

    def dump(self):
        d = Decisions.dump(self)
        for l, t in self.first.dump().items():
            d.setdefault(l, {}).update(t)
        return d


class Ctx(object):
    def __init__(self, prop, plan, seed, table=None, verbose=False):
        self.prop = prop
        self.plan = plan
        self.seed = seed
        self.dec = Decisions(seed, table, plan.get('rate', 1.0))
        self.k = K.Kernel(self.dec, verbose)
        self.k.entropy_seed = seed
        self.k.hooks = {}
        self.k.plan = self.plan
        self.nontrivial = False
        self.notes = {}
        self._ns = None
        self.extra_kernels = []

    @property
    def ns(self):
        if self._ns is None:
            self._ns = loader.fresh(getattr(self.prop, 'NODE', True))
        return self._ns

    def world(self, **cfg):
        from . import nodesim
        c = dict(self.plan.get('net', {}))
        c.update(cfg)
        w = nodesim.World(self.k, self.ns, N.NetConfig(**c), self.plan)
        return w

    def new_kernel(self, dec=None):   # None: repeat the first run's decisions
        """A second run inside this one (properties that compare two runs)."""
        self.k.shutdown()
        self.extra_kernels.append(self.k)
        if dec is None:
            dec = Twin(self.dec)
        random.seed('%s|global' % self.seed)
        simfs.reset_temp()
        self.dec = dec
        self.k = K.Kernel(dec, self.k.verbose)
        self.k.entropy_seed = self.seed
        self.k.hooks = {}
        self.k.plan = self.plan
        K.current_kernel = self.k
        self._ns = None


def run_one(prop, plan, seed, table=None, verbose=False):
    """-> dict(status=ok|violation|error, ...).  Pure function of its arguments
    and of the code in /repo."""
    random.seed('%s|global' % seed)
    simfs.reset_temp()
    ctx = Ctx(prop, plan, seed, table, verbose)
    K.current_kernel = ctx.k
    res = dict(status='ok', cls=None, message=None)
    gc.disable()
    try:
        try:
            prop.run(ctx)
        except Violation as e:
            res.update(status='violation', cls=e.cls, message=e.message)
        except Livelock as e:
            res.update(status='violation', cls='livelock', message=str(e))
        except SimKill:
            res.update(status='error', message='SimKill escaped: ' + traceback.format_exc())
        except Exception as e:
            b = blame(e)
            if isinstance(b, Violation):
                res.update(status='violation', cls=b.cls, message=b.message)
            else:
                res.update(status='error', message='%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()))
        ks = ctx.extra_kernels + [ctx.k]
        faults, probes = {}, {}
        for k in ks:
            for n, v in k.faults.items():
                faults[n] = faults.get(n, 0) + v
            for n, v in k.probes.items():
                probes[n] = probes.get(n, 0) + v
        res.update(digest='-'.join(k.result_digest() for k in ks),
                   sig='-'.join(k.signature() for k in ks),
                   faults=faults, probes=probes,
                   sim_us=sum(k.now for k in ks), steps=sum(k.nsteps for k in ks),
                   switches=sum(k.nswitch for k in ks),
                   decisions=sum(k.dec.ntaken() for k in ks),
                   nontrivial=bool(ctx.nontrivial or sum(faults.values())),
                   taken=ctx.dec.dump(), notes=ctx.notes)
        if verbose:
            res['log'] = [l for k in ks for l in k.log]
        try:
            ctx.k.shutdown()
        except BaseException as e:
            if res['status'] == 'ok':
                res.update(status='error', message='shutdown: %r' % (e,))
    finally:
        gc.enable()
        K.current_kernel = None
        loader.purge()
    return res


# -- minimisation ------------------------------------------------------------------
def shrink(prop, plan, seed, table, cls, budget, now, save=None):
    """ddmin over the plan's lists, then over the recorded decisions, keeping the
    violation class.  budget in seconds of now()."""
    end = now() + budget
    best = dict(plan)
    best_table = table
    tries = [0]

    def test(p, t):
        if now() > end:
            return None
        tries[0] += 1
        r = run_one(prop, p, seed, t)
        if r['status'] == 'violation' and r['cls'] == cls:
            return r
        return None
    r0 = test(best, best_table)
    if r0 is None:
        return best, best_table, None, tries[0]
    last = r0

    def lists(p):
        return [kk for kk in ('ops', 'faults') + tuple(getattr(prop, 'SHRINK', ())) if isinstance(p.get(kk), list)]
    changed = True
    rounds = 0
    while changed and now() < end and rounds < 4:
        changed = False
        rounds += 1
        for key in lists(best):
            n = 2
            while len(best[key]) >= 1 and now() < end:
                items = best[key]
                n = min(n, max(1, len(items)))
                size = max(1, (len(items) + n - 1) // n)
                hit = False
                for i in range(0, len(items), size):
                    cand = dict(best)
                    cand[key] = items[:i] + items[i + size:]
                    r = test(cand, best_table)
                    if r:
                        best, last = cand, r
                        hit = changed = True
                        break
                if hit:
                    n = max(2, n - 1)
                elif size == 1:
                    break
                else:
                    n = min(len(items), n * 2)
        for key in ('coin', 'raw', 'names'):
            if best.get(key) and now() < end:
                cand = {a: b for a, b in best.items() if a != key}
                r = test(cand, best_table)
                if r:
                    best, last = cand, r
                    changed = True
        if hasattr(prop, 'simplify'):
            again = True
            while again and now() < end:
                again = False
                for cand in prop.simplify(best):
                    r = test(cand, best_table)
                    if r:
                        best, last = cand, r
                        again = changed = True
                        break
        # drop whole decision streams, then single decisions
        t = {l: dict(v) for l, v in best_table.items()}
        r = test(best, {})
        if r:
            t, last = {}, r
        for l in sorted(t):
            cand = {a: b for a, b in t.items() if a != l}
            r = test(best, cand)
            if r:
                t, last = cand, r
                changed = True
        for l in sorted(t):
            idx = sorted(t[l], key=int)
            step = max(1, len(idx) // 2)
            while step >= 1 and now() < end:
                i = 0
                while i < len(idx):
                    part = idx[i:i + step]
                    cand = {a: dict(b) for a, b in t.items()}
                    for x in part:
                        cand[l].pop(x, None)
                    if not cand[l]:
                        del cand[l]
                    r = test(best, cand)
                    if r:
                        t, last = cand, r
                        idx = idx[:i] + idx[i + step:]
                        changed = True
                    else:
                        i += step
                step //= 2
            if l in t and not t[l]:
                del t[l]
        best_table = t
        if save:
            save(best, best_table, last)
    return best, best_table, last, tries[0]
