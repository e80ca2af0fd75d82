"""U02: the seed lookup hands out each found address exactly once."""
import random
import socket
import sys

from .common import *
from .. import loader
from ..errors import SimKill

NODE = False
OUTS = (None, None, None, 'pipe', 'closed', 'ascii', 'value', 'sometimes')   # what becomes of standard output
loader.PREEMPT = ('util/__init__.py', 'util/bootstrap.py')


def gen(r, tier, i):
    seeds = []
    for j in range(r.choice((0, 1, 2, 4, 8)) if r.random() < 0.96 else r.choice((20, 45, 80))):
        seeds.append(dict(what=r.choice(('ok', 'ok', 'ok', 'ok', 'fail', 'hang', 'empty', 'badseed', 'oserror', 'unicode')),
                          n=r.choice((1, 1, 2, 3, 5, 30)), delay=round(r.choice((0, 0, 0, 0, 0.01, 1, 30, 400)) * r.uniform(0.5, 1.5), 4),
                          s=r.getrandbits(32)))
    users = []
    for j in range(r.choice((1, 2, 4, 6))):
        users.append(dict(t=round(r.choice((0, 0.01, 1, 1, 1.001, 40)) * r.uniform(0.5, 1.5), 4), n=r.choice((1, 3, 10, 60)),
                          gap=r.choice((0, 0, 0, 0.005, 1)), length=r.random() < 0.6, s=r.getrandbits(32)))
    nostart = []                           # threads that can not be started
    if r.random() < 0.2:
        nostart = sorted(set(int(r.choice((4, 10, 40)) * r.random()) for _ in range(r.choice((1, 1, 2, 6)))))
    return dict(seeds=seeds, users=users, nostart=nostart, out=r.choice(OUTS), pre=r.choice((0.005, 0.03, 0.1, 0.4)), same=r.random() < 0.3, two=r.random() < 0.15,
                s=r.getrandbits(32))


SHRINK = ('seeds', 'users', 'nostart')


def run(ctx):
    real = sys.stdout
    if ctx.plan.get('out'):
        sys.stdout = Stream(ctx.plan['out'], ctx.k)
    try:
        run_out(ctx)
    finally:
        sys.stdout = real


def run_out(ctx):
    plan, k = ctx.plan, ctx.k
    host = k.host('box', '10.0.0.1')
    ctx.ns
    import importlib
    DNSSeeder = importlib.import_module('nbc.util.bootstrap').DNSSeeder
    k.preempt_p = plan['pre']
    k.preempt_budget = 3000
    insts = [Inst() for _ in range(2 if plan['two'] else 1)]
    for a, inst in enumerate(insts):
        for j, s in enumerate(plan['seeds']):
            r = random.Random(s['s'] + a)
            name = 'seed%d.%d.example' % (a, j)
            d = dict(s, name=name, inst=inst, port=r.choice((8333, 20303)))
            d['ips'] = ['%d.%d.%d.%d' % (1 + a, j if not plan['same'] else 0, x // 250, 1 + x % 250) for x in range(s['n'])]
            d['returned'] = d['finished'] = None
            inst.seeds.append(d)
    byname = {d['name']: d for inst in insts for d in inst.seeds}

    def getaddrinfo(h, port, family, typ, proto, flags):
        d = byname.get(h)
        if d is None:
            raise socket.gaierror(-2, 'Name or service not known')
        k.record('lookup', h)
        d['asked'] = True
        w = d['what']
        k.sleep(int(d['delay'] * SEC))
        if w == 'hang':
            k.fault('lookup-hangs')
            k.sleep(10 ** 6 * SEC)
        if w in ('fail', 'oserror', 'unicode'):
            k.fault('lookup-fails')
            raise {'fail': socket.gaierror(-3, 'Temporary failure in name resolution'), 'oserror': OSError(24, 'Too many open files'),
                   'unicode': UnicodeError('label too long')}[w]
        out = [(socket.AF_INET, socket.SOCK_STREAM, 6, '', (ip, port)) for ip in d['ips']]
        if w == 'empty':
            out = []
        d['addrs'] = [(ip, port) for ip in d['ips']] if w != 'empty' else []
        d['returned'] = k.now
        d['thread'] = k.current
        k.probe('found', len(d['addrs']))
        return out
    k.hooks['getaddrinfo'] = getaddrinfo

    starts = [0, 0, 0]

    def start_fails(th):
        n = starts[0]
        starts[0] += 1
        if n in plan.get('nostart', ()):
            starts[1] += 1
            k.fault('thread-start-fails')
            return True
    k.hooks['thread_start'] = start_fails

    def create(inst):
        arg = []
        for d in inst.seeds:
            if d['what'] == 'badseed':
                k.fault('bad-seed')
                arg.append(((d['name'],), None, 'x', 5)[d['s'] % 4])
            else:
                arg.append((d['name'], d['port']))
        t, nap = k.now, k.napped_done
        k.spawned0 = len(k.threads)
        try:
            inst.seeder = DNSSeeder(arg)
        except SimKill:
            raise
        except Exception as e:
            raise Violation('create-raises', 'creating the seeder raised %r%s' % (
                e, ' (%d threads could not be started)' % starts[1] if starts[1] else ''))
        if k.now - t > k.napped - nap + 10 * MS:
            raise Violation('create-waits', 'creating the seeder took %.3f s' % ((k.now - t) / 1e6))
        for j, u in enumerate(plan['users']):
            k.at(max(k.now, int(u['t'] * SEC)), lambda u=u, j=j: inst.users.append(
                k.spawn(lambda: user(inst, u, j), host, 'user%d' % j)))

    def low(inst):
        """Finds certainly in the seeder now (not counting pops)."""
        return sum(len(d['addrs']) for d in inst.seeds if d['returned'] is not None and (
            d['thread'].done or d['returned'] + 60 * SEC < k.now and k.napped < 50 * SEC))

    def high(inst):
        return sum(len(d['addrs']) for d in inst.seeds if d['returned'] is not None)

    def user(inst, u, j):
        for x in range(u['n']):
            if u['gap']:
                k.sleep(int(u['gap'] * SEC))
            low0, t0, nap, pops0 = low(inst), k.now, k.napped_done, len(inst.popped)
            if u['length'] and x % 2:
                n = len(inst.seeder)
                hi = high(inst) - pops0
                lo = low0 - len(inst.popped) - inst.inside
                if not lo <= n <= hi:
                    raise Violation('wrong-count', 'the count is %d; found and not handed out: between %d and %d' % (n, lo, hi))
                k.probe('counts')
            else:
                inst.inside += 1
                try:
                    a = inst.seeder.pop()
                except SimKill:
                    raise
                except Exception as e:
                    inst.inside -= 1
                    if low0 - len(inst.popped) - inst.inside > 0 or not isinstance(e, (LookupError, ValueError)):
                        raise Violation('pop-fails', 'asked for an address with at least %d left, got %r' % (low0 - len(inst.popped), e))
                    k.probe('pop-empty')
                else:
                    inst.inside -= 1
                    inst.popped.append(a)
                    k.record('pop', a)
                    k.probe('pops')
                    judge(inst, a)
            if k.now - t0 > k.napped - nap + 10 * MS:
                raise Violation('waits', 'asking the seeder took %.3f s' % ((k.now - t0) / 1e6))

    def judge(inst, a):
        n = sum(d['addrs'].count(a) for d in inst.seeds if d['returned'] is not None)
        if inst.popped.count(a) > n:
            raise Violation('handed-out-twice' if n else 'invented-address', '%r was handed out %d times and found %d times' % (
                a, inst.popped.count(a), n))
    for inst in insts:
        k.at(0, lambda inst=inst: k.spawn(lambda: create(inst), host, 'main'))
    k.run(1000 * SEC)
    k.run(3000 * SEC)

    def rest(inst):
        for th in inst.users:
            if not th.done:
                raise Violation('stuck', '%s is stuck' % th.name)
        n = len(inst.seeder)
        total = high(inst)
        if n != total - len(inst.popped):
            raise Violation('wrong-count', '%d found, %d handed out, the count is %d' % (total, len(inst.popped), n))
        for x in range(n):
            a = inst.seeder.pop()
            inst.popped.append(a)
            judge(inst, a)
        want = sorted(a for d in inst.seeds if d['returned'] is not None for a in d['addrs'])
        if sorted(inst.popped) != want:
            raise Violation('never-handed-out', '%s' % fmt([a for a in want if a not in inst.popped]))
        try:
            a = inst.seeder.pop()
        except SimKill:
            raise
        except Exception:
            a = None
        if a is not None or len(inst.seeder):
            raise Violation('invented-address', '%r' % (a,))
        for d in inst.seeds:
            if d['what'] in ('ok', 'empty') and d['returned'] is None:
                if not d.get('asked') and starts[1] > starts[2]:
                    starts[2] += 1
                    continue
                raise Violation('lookup-lost', 'the lookup of %s was never done' % d['name'])
        inst.checked = True
    k.preempt_p = 0
    ths = []
    if k.holding():
        raise Violation('holds-program', 'a lookup that hangs keeps the program from ending (%s)' % k.holding()[0].name)
    for inst in insts:
        if getattr(inst, 'seeder', None) is None:
            raise Violation('create-waits', 'creating the seeder has not returned')
        ths.append(k.spawn(lambda inst=inst: rest(inst), host, 'end'))
    k.run(k.now + 60 * SEC)
    for inst in insts:
        if not inst.checked:
            raise Violation('stuck', 'the seeder does not answer any more')


class Inst(object):
    def __init__(self):
        self.seeds, self.users, self.popped = [], [], []
        self.inside = 0
        self.checked = False
