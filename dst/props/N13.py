"""N13: only the node's own port mapping is made and removed."""
import random
import sys

from .common import *
from .. import loader
from .N14 import Stream

CALLS = ('UPnP', 'discover', 'selectigd', 'externalipaddress', 'statusinfo', 'connectiontype', 'getspecificportmapping',
         'addportmapping', 'deleteportmapping')


def gen(r, tier, i):
    nproc = r.choice((1, 1, 2, 2, 3))
    procs = []
    for j in range(nproc):
        port = r.choice((8333, 8333, 8334, 8335, 30303, 65533, 65535))
        eps = []
        t = r.uniform(0.1, 10)
        for _ in range(r.choice((1, 1, 2, 3))):
            end = t + r.uniform(20, 200)
            eps.append(dict(t=round(t, 3), end=round(end, 3), how=r.choice(('stop', 'stop', 'error', 'fatal', 'kill'))))
            t = end + r.uniform(70, 150)
        procs.append(dict(host=r.choice((0, 0, 1, 2)) if j else 0, port=port, listen=r.random() < 0.9, eps=eps))
    table = []
    for _ in range(r.choice((0, 1, 3, 6))):
        p = r.choice(procs)['port']
        table.append(dict(e=min(65535, p + r.choice((0, 0, 0, 1, 2, 3))), proto=r.choice(('TCP', 'TCP', 'TCP', 'UDP')),
                          ip=r.choice(('10.0.0.99', '10.0.0.98', NODE_IP)), i=r.choice((p, 1234, 9999))))
    crowd = r.random() < 0.12              # a run of external ports is taken
    if crowd:
        p = r.choice(procs)['port']
        n = r.choice((8, 17, 33, 64, 120))
        for e in range(p, min(65536, p + n)):
            table.append(dict(e=e, proto='TCP', ip='10.0.0.%d' % (60 + e % 30), i=r.choice((e, 1234))))
    faults = []
    for _ in range(r.choice((0, 0, 0, 1, 2, 4))):
        faults.append(dict(call=r.choice(CALLS), n=r.choice((0, 0, 0, 1, 2)), how=r.choice(('raise', 'raise', 'false', 'oserr', 'slow'))))
    ops = []
    for _ in range(r.choice((0, 0, 1, 3))):
        ops.append(dict(t=round(r.uniform(5, 300), 3), op=r.choice(('reboot', 'steal', 'other')), s=r.getrandbits(32)))
    return dict(procs=procs, table=table, faults=faults, ops=sort_t(ops), devices=r.choice((1, 1, 1, 1, 2, 0)),
                net={}, lat=r.choice((0.001, 0.2, 3)) if not crowd else 0.001, lossy=r.random() < 0.1, out=r.choice((None, None, None, None, None, 'enospc', 'closed', 'pipe', 'sometimes')))


SHRINK = ('procs', 'table')


class Entry(object):
    def __init__(self, ip, port, desc, t, owner):
        self.ip, self.port, self.desc, self.t, self.owner = ip, port, desc, t, owner


class Gateway(object):
    def __init__(self, k, plan):
        self.k = k
        self.plan = plan
        self.table = {}
        self.failed = set()         # processes that met a fault during their current life
        self.counts = {}
        self.replaced = set()
        self.changed = {}


class Client(object):
    """One process's handle on the gateway (what miniupnpc.UPnP gives)."""

    def __init__(self, gw, proc):
        self.gw, self.proc, self.k = gw, proc, gw.k
        self.lanaddr = ''
        self.found = 0
        proc.client = self
        self.enter('UPnP')

    def enter(self, call, value=True):
        gw, k = self.gw, self.k
        if gw.plan['lat']:
            k.sleep(int(gw.plan['lat'] * SEC))
        n = gw.counts.get(call, 0)
        gw.counts[call] = n + 1
        k.record('upnp', self.proc.name, call)
        k.probe('gateway-calls')
        for f in gw.plan['faults']:
            if f['call'] == call and f['n'] == n:
                if f['how'] == 'slow':
                    k.fault('gateway-slow')
                    k.sleep(30 * SEC)
                    continue
                k.fault('gateway-' + f['how'])
                gw.failed.add(self.proc)
                if f['how'] == 'raise':
                    raise Exception('UPnPError (injected)')
                if f['how'] == 'oserr':
                    raise OSError(113, 'No route to host')
                return False
        return None

    def discover(self):
        r = self.enter('discover')
        if r is False:
            return 0
        self.found = self.gw.plan['devices']
        return self.found

    def selectigd(self):
        r = self.enter('selectigd')
        if not self.found:
            raise Exception('No UPnP device discovered')
        if r is False:
            raise Exception('No UPnP device discovered')
        self.lanaddr = self.proc.host.ip
        return 'http://10.0.0.254/igd'

    def externalipaddress(self):
        return '' if self.enter('externalipaddress') is False else '77.7.7.7'

    def statusinfo(self):
        return ('Disconnected',) if self.enter('statusinfo') is False else ('Connected', 1000, 'ERROR_NONE')

    def connectiontype(self):
        return '' if self.enter('connectiontype') is False else 'IP_Routed'

    def getspecificportmapping(self, e, proto):
        r = self.enter('getspecificportmapping')
        if not isinstance(e, int) or not 0 < e < 65536:
            raise Exception('Invalid Args')
        x = self.gw.table.get((e, proto))
        if x is None or r is False:
            return None
        return (x.ip, x.port, x.desc, True, 0)

    def addportmapping(self, e, proto, ip, port, desc, remote):
        gw, k = self.gw, self.k
        if self.enter('addportmapping') is False:
            return False
        if not isinstance(e, int) or not 0 < e < 65536:
            raise Exception('Invalid Args')
        proc = self.proc
        if ip != proc.host.ip or proc.address is None or port != proc.address[1]:
            raise Violation('foreign-mapping-made', '%s (port %s on %s) maps external port %d to %s:%d' % (
                proc.name, proc.address, proc.host.ip, e, ip, port))
        old = gw.table.get((e, proto))
        if old is not None:
            if (old.ip, old.port) != (ip, port) and old.t < proc.user_start and proc not in gw.failed:
                raise Violation('mapping-replaced', '%s maps external port %d/%s although it belongs to %s:%d' % (
                    proc.name, e, proto, old.ip, old.port))
            if old.ip != ip:
                gw.failed.add(proc)      # someone else was faster
                raise Exception('ConflictInMappingEntry')
        if old is not None:
            gw.replaced.add((e, proto))  # judged above
        if old is not None and old.owner not in (None, proc):
            gw.failed.add(old.owner)     # lost to a simultaneous request from the same machine
        gw.table[(e, proto)] = Entry(ip, port, desc, k.now, proc)
        gw.changed[(e, proto)] = k.now
        proc.made.append((e, proto))
        k.probe('mappings-made')
        if gw.plan['lossy']:
            gw.failed.add(proc)
            k.fault('gateway-answer-lost')
            raise Exception('timeout (injected)')
        return True

    def deleteportmapping(self, e, proto, remote=''):
        gw, k = self.gw, self.k
        r = self.enter('deleteportmapping')
        x = gw.table.get((e, proto))
        if x is not None and x.owner is not self.proc and (x.t < self.proc.user_stop or self.proc.user_stop < 0):
            raise Violation('foreign-mapping-removed', '%s removes external port %d/%s, which belongs to %s:%d' % (
                self.proc.name, e, proto, x.ip, x.port))
        if r is False:
            return False
        if x is None:
            raise Exception('NoSuchEntryInArray')
        del gw.table[(e, proto)]
        gw.changed[(e, proto)] = k.now
        k.probe('mappings-removed')
        return True


for _n in ('addportmapping', 'deleteportmapping'):
    def _wrap(name):
        orig = getattr(Client, name)

        def f(self, *a, **kw):
            try:
                return orig(self, *a, **kw)
            except Violation as e:
                self.k.set_fatal(e)
                return False
        setattr(Client, name, f)
    _wrap(_n)


def run(ctx):
    real = sys.stdout
    if ctx.plan.get('out'):            # what is printed can not be written
        sys.stdout = Stream(ctx.plan['out'], ctx.k)
    try:
        run_out(ctx)
    finally:
        sys.stdout = real


def run_out(ctx):
    plan, k = ctx.plan, ctx.k
    w = ctx.world()
    gw = Gateway(k, plan)
    ips = (NODE_IP, '10.0.0.2', '10.0.0.3')
    table = {(x['e'], x['proto']): x for x in plan['table']}
    for x in table.values():
        gw.table[(x['e'], x['proto'])] = Entry(x['ip'], x['i'], 'other', -1, None)
    byhost = {}
    k.hooks['upnp'] = lambda: Client(gw, byhost[k.current.name])
    procs = []
    used = set()
    for j, pd in enumerate(plan['procs']):
        while (pd['host'], pd['port']) in used:
            pd = dict(pd, host=(pd['host'] + 1) % 3)
            if (pd['host'], pd['port']) in used and len([u for u in used if u[1] == pd['port']]) >= 3:
                break
        if (pd['host'], pd['port']) in used:
            continue
        used.add((pd['host'], pd['port']))
        hostname = 'h%d' % pd['host']
        if hostname not in k.hosts:
            w.net.add_host(hostname, ips[pd['host']])
        p = w.node(hostname, ips[pd['host']], pd['port'] if pd['listen'] else None, seek_peers=0, bootstrap=False,
                   ns=loader.fresh(True))
        p.name = 'n%d' % j
        byhost[p.name] = p
        p.pd = pd
        p.made = []
        p.client = None
        p.user_start = 0
        p.user_stop = -1
        p.how = None
        procs.append(p)
    fresh_peer = [0]

    def go(p, e):
        if p.thread is not None and not p.thread.done:
            return
        if e['how'] == 'kill' and p.dead:
            pass
        if p.dead:                       # a new process
            p.client = None
            p.ns = loader.fresh(True)
            p.cls = S.make_node_class(p.ns, w.raw)
        p.user_start = k.now
        p.user_stop = -1
        p.made = []
        gw.failed.discard(p)
        p.how = None
        p.before = set(gw.table)
        p.live0 = k.now
        p.start()
        k.at(int(e['end'] * SEC), stop, p, e, p.thread)
        k.after(int(min(e['end'] - e['t'] - 8, 15) * SEC) + 60 * SEC * (p.pd['listen'] and plan['lat'] >= 3), probe, p, p.thread)

    def stop(p, e, th):
        if p.thread is not th or th.done:
            return
        if not p.serving or not p.loops_now:
            k.after(5 * SEC, stop, p, e, th)       # still starting
            return
        p.how = e['how']
        if e['how'] == 'kill':
            # this process only: its host goes on
            k.kill(p.thread)
            p.dead = True
            k.fault('process-crash')
            for fd in list(p.host.fds):
                s = p.host.fds[fd]
                if getattr(s, 'proc', None) is p:
                    del p.host.fds[fd]
                    s._os_close()
        p.stop_at = k.now

    def probe(p, th):
        """Is it serving?"""
        if p.thread is not th or th.done or p.how or not p.pd['listen']:
            return
        if not p.loops_now:
            return
        fresh_peer[0] += 1
        f = w.peer('f%d' % fresh_peer[0], '10.0.5.%d' % fresh_peer[0])
        c = f.connect(p.address)

        def late():
            if p.thread is th and not p.how and not c.got_verack:
                k.set_fatal(Violation('not-serving', '%s does not serve: no handshake within 8 s' % p.name))
            k.probe('served')
            c.close()
        k.after(7 * SEC, late)

    def mine(p):
        return [e for e, x in gw.table.items() if x.owner is p and x.t >= p.user_start]

    def loop(p):
        def each(node):
            p.loops_now += 1
            if p.loops_now == 1:
                p.first_loop = k.now
            for s in p.host.fds.values():
                if not hasattr(s, 'proc'):
                    s.proc = p if s is node.socket or any(s is q.socket for q in node.peers) else None
                    if s.proc is None:
                        del s.proc
            if p.how and p.how != 'kill':
                p.user_stop = k.now
                raise Injected({'stop': p.ns.node.StopNode, 'error': RuntimeError, 'fatal': KeyError}[p.how]('x'))
            m = mine(p)
            if len(m) > 1:
                raise Violation('two-mappings', '%s has mapped %s' % (p.name, m))
            if not p.pd['listen']:
                if p.made:
                    raise Violation('mapping-without-listening', '%s does not listen and mapped %s' % (p.name, p.made))
            elif p not in gw.failed and p not in rebooted and not m and plan['devices'] and (
                    p.client is not None and p.client.found or p.client is None and k.now > p.first_loop + 10 * SEC):
                if p.client is None:
                    raise Violation('not-mapped', '%s serves for 10 s and never asked the gateway' % p.name)
                x = p.address[1]
                free = [e for e in range(x, min(x + 200, 65536)) if (e, 'TCP') not in p.before
                        and (e, 'TCP') not in gw.table and gw.changed.get((e, 'TCP'), -1) < p.user_start]
                if free and not stolen:
                    raise Violation('not-mapped', '%s serves and found the gateway, its port %d is not mapped' % (p.name, x))
        return each
    rebooted, stolen = set(), []
    for p in procs:
        p.loops_now = 0
        p.on('loop', loop(p))
        for e in p.pd['eps']:
            k.at(int(e['t'] * SEC), lambda p=p, e=e: (setattr(p, 'loops_now', 0), go(p, e)) if p.thread is None or p.thread.done else None)

    def do_op(o):
        r = random.Random(o['s'])
        if o['op'] == 'reboot':
            k.fault('gateway-reboot')
            gw.table.clear()
            rebooted.update(procs)
        elif o['op'] == 'steal':
            # after a gateway reboot another device or program gets the port first
            k.fault('gateway-reboot')
            old = dict(gw.table)
            gw.table.clear()
            rebooted.update(procs)
            for e in old:
                gw.table[e] = Entry('10.0.0.97', r.choice((8333, 5)), 'thief', k.now, None)
                if r.random() < 0.4:   # or another program of the same machine
                    gw.table[e] = Entry(old[e].ip, 5, 'thief', k.now, None)
        else:
            p = r.choice(procs)
            for x in range(r.choice((1, 3))):
                e = (min(65535, (p.address or (0, 8333))[1] + x), 'TCP')
                if e not in gw.table:
                    gw.table[e] = Entry('10.0.0.96', 7, 'other', k.now, None)
                    stolen.append(e)
    for o in plan['ops']:
        k.at(int(o['t'] * SEC), do_op, o)
    end = max([e['end'] for p in plan['procs'] for e in p['eps']] + [10])

    checked = set()

    def after_stop():
        for p in procs:
            if p.thread is None or p.thread in checked:
                continue
            if p.how and p.how != 'kill' and not p.thread.done and k.now > p.stop_at + 200 * SEC:
                raise Violation('does-not-stop', '%s was told to stop (%s) %d s ago and still serves' % (
                    p.name, p.how, (k.now - p.stop_at) // SEC))
            if not p.thread.done:
                continue
            checked.add(p.thread)
            if p.ctor_error is not None:
                raise Violation('node-not-created', '%s: %r' % (p.name, p.ctor_error))
            if p.how is None:
                raise Violation('event-loop-ended', '%s: the event loop ended (%s)' % (p.name, getattr(p, 'error_tb', '')))
            if p.how in ('error', 'fatal') and not isinstance(p.error, (RuntimeError, KeyError)):
                raise Violation('error-lost', '%s: serving ended by an error, the caller saw %r' % (p.name, p.error))
            if p.how == 'stop' and p.error is not None:
                raise Violation('stop-raises', '%s: %r' % (p.name, p.error))
            if p.how != 'kill' and p not in gw.failed and mine(p):
                raise Violation('mapping-left', '%s stopped (%s) and left its mapping %s' % (p.name, p.how, mine(p)))
            k.probe('lives')
    k.run_until(lambda: after_stop(), int((end + 400) * SEC), 2 * SEC)
    after_stop()
    for p in procs:
        if p.thread is not None and not p.thread.done and p.how is None and p.pd['listen'] and not p.loops_now:
            raise Violation('never-serves', '%s was started and never served' % p.name)
    # what belongs to others is as it was
    if not rebooted:
        for x in table.values():
            if (x['e'], x['proto']) in gw.replaced:
                continue
            e = gw.table.get((x['e'], x['proto']))
            if e is None or (e.ip, e.port) != (x['ip'], x['i']):
                if (x['ip'], x['i']) in [(p.host.ip, p.address[1]) for p in procs if p.address]:
                    continue
                raise Violation('foreign-mapping-changed', 'the mapping %s:%d is now %s' % (x['e'], x['i'], e and (e.ip, e.port)))
