"""N15: stopping releases the address, starting again works, a second node is refused."""
import random

from .common import *
from .. import loader


def gen(r, tier, i):
    nlife = r.choice((1, 2, 2, 3, 5))
    lives = []
    for _ in range(nlife):
        lives.append(dict(dur=round(r.choice((0.2, 2, 20, 100)) * r.uniform(0.6, 1.6), 3),
                          how=r.choice(('stop', 'stop', 'close', 'close', 'closeh', 'kill', 'power', 'error')),
                          gap=r.choice((0, 0, 0.001, 0.5, 5, 70)), fresh=r.random() < 0.5,
                          late=r.random() < 0.6))
    npeer = r.choice((1, 2, 4))
    peers = [dict(s=r.getrandbits(32), slow=r.random() < 0.2, keep=r.random() < 0.7, rate=r.choice((None, None, 40))) for _ in range(npeer)]
    ops = []
    total = sum(l['dur'] + l['gap'] for l in lives)
    for _ in range(r.choice((2, 6, 15))):
        ops.append(dict(t=round(r.uniform(0.1, total + 5), 3), op=r.choice(('connect', 'connect', 'ping', 'ping', 'second', 'other', 'msg',
                                                                          'fin', 'rst', 'nodesend', 'silent')),
                        p=r.randrange(npeer), fresh=r.random() < 0.5, s=r.getrandbits(32)))
    faults = []
    for _ in range(r.choice((0, 0, 1, 2))):
        kind = r.choice(('stall', 'cut', 'clock'))
        f = dict(t=round(r.uniform(0, total), 3), kind=kind)
        if kind == 'stall':
            f.update(host='n1', dur=r.choice((1, 8)))
        elif kind == 'clock':
            f.update(host='n1', delta=r.choice((-5000, 5, 5000)))
        else:
            f.update(a='n1', b='p%d' % r.randrange(npeer), dur=r.choice((1, 20)))
        faults.append(f)
    net = net_swarm(r, spurious=True, accept=False)
    net.pop('delay', None)                # delivery within a second unless a fault says otherwise
    client = None
    if r.random() < 0.2:                  # a node that accepts no inbound connections, on another machine
        client = dict(t=round(r.uniform(0.1, 5), 3), dur=round(r.choice((0.2, 5, 20)) * r.uniform(0.6, 1.6), 3),
                      how=r.choice(('stop', 'stop', 'error', 'close', 'kill')), gap=r.choice((0, 0.001, 0.5, 5)),
                      second=r.random() < 0.5, dial=r.random() < 0.6, fresh=r.random() < 0.5)
    return dict(client=client, lives=lives, peers=peers, ops=sort_t(ops), faults=faults, net=net,
                wild=r.random() < 0.2, s=r.getrandbits(32))


SHRINK = ('lives', 'peers')
HEALTHY = 12 * SEC


def client_life(ctx, w, d):
    """A node without a listening address of its own: the port it got is released when it ends."""
    k = ctx.k
    p = w.node('n9', '10.0.0.9', None, seek_peers=0, bootstrap=False)
    p.name = 'client'
    st = dict(told=None, ended=None)
    if d['dial']:
        far = w.peer('c9', '10.0.9.1', port=PORT)

    def on_loop(node):
        if st['told'] is None or st['ended'] is not None:
            return
        st['ended'] = k.now
        k.after(int(d['gap'] * SEC) + 1, again, tuple(node.address))
        if d['how'] == 'stop':
            raise Injected(p.ns.node.StopNode('x'))
        if d['how'] == 'error':
            raise Injected(RuntimeError('user'))
        node.close()
    p.on('loop', on_loop)

    def tell():
        st['told'] = k.now
        if d['how'] == 'kill':
            st['ended'] = k.now
            a = tuple(p.node.address)
            p.kill()
            k.after(int(d['gap'] * SEC) + 1, again, a)
        else:
            k.after(5500 * MS, over)

    def over():
        if st['ended'] is None or d['how'] != 'close' and not p.ended:
            raise Violation('does-not-stop', 'a node that does not listen was told to end (%s) and goes on' % d['how'])
        if d['how'] == 'stop' and p.error is not None:
            raise Violation('stop-raises', '%s: %r' % (p.name, p.error))

    def again(addr):
        q = w.node('n9', '10.0.0.9', None, seek_peers=0, bootstrap=False, ns=loader.fresh(True) if d['fresh'] else ctx.ns)
        q.name = 'client2'
        q.address = addr
        q.start()

        def late():
            if q.ctor_error is not None or q.node is None:
                raise Violation('restart-refused', 'a node that did not listen ended (%s); a node could not be created on its '
                                'address %s:%d: %r' % ((d['how'],) + addr + (q.ctor_error,)))
            k.probe('client-restarts')
        k.after(20 * MS, late)

    def second():
        if p.node is None or st['ended'] is not None:
            return
        q = w.node('n9', '10.0.0.9', None, seek_peers=0, bootstrap=False, ns=loader.fresh(True) if d['fresh'] else ctx.ns)
        q.name = 'client-second'
        q.address = tuple(p.node.address)
        k.fault('second-node')
        q.start()

        def late():
            if st['ended'] is None and not isinstance(q.ctor_error, q.ns.node.AddrInUseError):
                raise Violation('second-node-starts', 'a second node on the address of a node that does not listen: %r' % q.ctor_error)
        k.after(20 * MS, late)

    def begin():
        p.start()
        if d['dial']:
            p.do(lambda node: node.add_peer(('10.0.9.1', PORT)))
        if d['second']:
            k.after(100 * MS, second)
        k.after(int(d['dur'] * SEC), tell)
    k.at(int(d['t'] * SEC), begin)


def run(ctx):
    plan, k = ctx.plan, ctx.k
    w = ctx.world()
    net = w.net
    if not plan['lives']:
        return
    lives = []
    bythread = {}
    r0 = random.Random(plan['s'])
    addr = '0.0.0.0' if plan['wild'] else NODE_IP
    host = net.add_host('n1', NODE_IP)
    ns0 = [ctx.ns]
    stalls = [f for f in plan['faults'] if f['kind'] == 'stall']
    stall_sum = int(sum(f['dur'] for f in stalls) * SEC)

    def disturbed(a, b):
        """Did a fault touch the time a..b?"""
        for f in plan['faults']:
            t, e = int(f['t'] * SEC), int((f['t'] + f.get('dur', 0)) * SEC)
            if t <= b and e + 3 * SEC >= a:
                return True
        return False

    class Life(object):
        pass

    def make(fresh):
        if fresh:
            ns0[0] = loader.fresh(True)
        p = w.node('n1', addr, PORT, seek_peers=0, bootstrap=False, ns=ns0[0])
        p.name = 'life%d' % len(w.procs)
        return p

    def begin(j):
        if j >= len(plan['lives']):
            state['over'] = True
            return
        d = plan['lives'][j]
        L = Life()
        L.d, L.j = d, j
        L.proc = make(d['fresh'])
        L.t0 = k.now
        L.told = L.ended = None
        L.served = []
        L.final = False
        lives.append(L)
        L.proc.on('loop', lambda node: on_loop(L, node))
        L.proc.on('message', lambda node, peer, rec, name, kw: on_msg(L, node, name))
        L.proc.start()
        bythread[L.proc.thread] = L
        k.at(k.now + 20 * MS, check_started, L)
        if plan['peers']:
            k.after(50 * MS, probe, L, 'the new node')
        k.after(int(d['dur'] * SEC), tell, L)
    state = dict(over=False, cur=None)

    def check_started(L):
        p = L.proc
        if p.ctor_error is not None:
            raise Violation('restart-refused', 'life %d (%s): a node could not be created on the released address: %r' % (
                L.j, plan['lives'][L.j - 1]['how'] if L.j else 'first', p.ctor_error))
        if p.node is None and not stalls:
            raise Violation('restart-refused', 'life %d: the node is not there' % L.j)

    def tell(L):
        """The user tells this life to end."""
        d = L.d
        L.told = k.now
        k.record('tell', L.proc.name, d['how'])
        if L.proc.dead or L.proc.ended:
            return
        if d['how'] in ('kill', 'power'):
            L.ended = k.now
            for x in lives:
                if x.proc.thread is not None:
                    k.kill(x.proc.thread)
                x.proc.dead = True
                x.ended = x.ended if x.ended is not None else k.now
                x.final = True
            if d['how'] == 'kill':
                net.kill_process(host)
            else:
                net.crash_host(host)
                net.restart_host(host)
            k.after(int(d['gap'] * SEC) + 1, begin, L.j + 1)
        else:
            k.after((5500 if d['how'] != 'closeh' else 9000) * MS + stall_sum, must_have_ended, L)

    def must_have_ended(L):
        if L.ended is None and not L.proc.dead:
            raise Violation('does-not-stop', '%s was told to end (%s) %.1f s ago' % (
                L.proc.name, L.d['how'], (k.now - L.told) / 1e6))
        if L.d['how'] in ('stop', 'error') and not L.proc.ended and not L.proc.dead:
            raise Violation('does-not-stop', '%s: serving has not ended %.1f s after it was told to' % (L.proc.name, (k.now - L.told) / 1e6))
        if L.d['how'] in ('stop',) and L.proc.ended and L.proc.error is not None:
            raise Violation('stop-raises', '%s: %r' % (L.proc.name, L.proc.error))
        if L.d['how'] == 'error' and L.proc.ended and not isinstance(L.proc.error, RuntimeError):
            raise Violation('error-lost', '%s: %r' % (L.proc.name, L.proc.error))

    def ended(L):
        L.ended = k.now
        L.at_end = [c for p in peers for c in p.conns if served_by(L, c)]
        gap = int(L.d['gap'] * SEC)
        k.after(gap + 1, begin, L.j + 1)
        if gap >= 5 * SEC and not disturbed(k.now, k.now + 5 * SEC):
            k.after(100 * MS, refused, L)

    def on_loop(L, node):
        if L.told is None or L.ended is not None:
            return
        how = L.d['how']
        if how == 'stop':
            ended(L)
            raise Injected(L.proc.ns.node.StopNode('x'))
        if how == 'error':
            ended(L)
            raise Injected(RuntimeError('user'))
        if how == 'close' or how == 'closeh' and k.now - L.told > 3 * SEC:
            node.close()
            ended(L)

    def on_msg(L, node, name):
        if L.told is not None and L.ended is None and L.d['how'] == 'closeh' and name in ('ping', 'version_ack'):
            node.close()
            ended(L)

    def on_accept(ep):
        L = bythread.get(k.current)
        if L is None:
            return
        if L.ended is not None:
            raise Violation('accepts-after-stop', '%s accepted %s %.3f s after it ended (%s)' % (
                L.proc.name, ep.cid, (k.now - L.ended) / 1e6, L.d['how']))
        ep.life = L
        L.served.append(ep)
    net.on_accept = on_accept

    def served_by(L, c):
        x = c.ep.peer
        return x is not None and getattr(x, 'life', None) is L

    def refused(L):
        """Nobody listens now."""
        p = w.peer('q%d' % k.nsteps, '10.0.4.%d' % (1 + len(w.peers) % 250))
        c = p.connect((NODE_IP, PORT))

        def late():
            if c.ep.established and not c.ended or c.got_version or c.frames:
                raise Violation('listens-after-stop', '%s ended (%s) %.1f s before, its address still takes connections' % (
                    L.proc.name, L.d['how'], (k.now - L.ended) / 1e6))
            k.probe('refused-after-stop')
        k.after(3 * SEC, late)

    def probe(L, what):
        if L.ended is not None or L.proc.dead:
            return
        if disturbed(k.now, k.now + HEALTHY):
            return
        p = w.peer('f%d' % k.nsteps, '10.0.5.%d' % (1 + len(w.peers) % 250))
        c = p.connect((NODE_IP, PORT))
        t = k.now

        def late():
            if L.proc.dead or L.ended is not None and L.ended < t + HEALTHY - SEC:
                c.close()
                return
            if not (c.got_verack and c.got_version):
                raise Violation('not-serving', '%s (%s): no handshake within %d s' % (L.proc.name, what, HEALTHY // SEC))
            k.probe('served')
            c.close()
        k.after(HEALTHY, late)
    peers = []
    for j, pd in enumerate(plan['peers']):
        p = w.peer('p%d' % j, '10.0.1.%d' % (j + 1))
        p.pd = pd

        def opened(c, pd=pd):
            c.rate, c.rate_gap = pd['rate'], 200 * MS
        p.on('open', opened)
        if pd['slow']:
            p.auto_version = False

            def later(c, p=p):
                k.after(2 * SEC, lambda: c.live() and c.msg('version', **p.make_version(c)))
            p.on('open', later)
        peers.append(p)

    def current():
        return lives[-1] if lives else None
    other = [None]

    def do_op(o):
        r = random.Random(o['s'])
        kind = o['op']
        L = current()
        p = peers[o['p']] if o['p'] < len(peers) else None
        if kind == 'second':
            if L is None or L.proc.node is None or L.ended is not None or L.proc.dead or L.proc.ended or not L.proc.serving:
                return
            second(L, o)
            return
        if kind == 'other' or p is None:
            return
        if kind in ('connect', 'silent'):
            c = p.connect((NODE_IP, PORT))
            if kind == 'silent':
                c.greeted = True          # says nothing at all
                c.user['silent'] = True
            return
        live = p.live()
        if kind == 'nodesend':
            if L is not None:
                L.proc.do(lambda node: [q.send_message(L.proc.ns.protocol.Ping(S.rnd_bytes(r, 8))) for q in node.peers])
            return
        if not live:
            return
        c = r.choice(live)
        if kind == 'ping':
            c.msg('ping', nonce=S.rnd_bytes(r, 8))
        elif kind == 'msg':
            c.msg('inv', **S.rnd_fields(r, 'inv'))
        elif kind == 'fin':
            c.user['cut'] = True
            c.close()
        elif kind == 'rst':
            c.user['cut'] = True
            c.abort()

    def second(L, o):
        ns = loader.fresh(True) if o['fresh'] else L.proc.ns
        p2 = w.node('n1', o['s'] % 3 and addr or NODE_IP, PORT, seek_peers=0, bootstrap=False, ns=ns)
        p2.name = 'second%d' % len(w.procs)
        p2.start()
        k.fault('second-node')

        def late():
            if p2.ctor_error is None:
                if L.ended is not None or L.proc.dead or stalls:
                    state['spoiled'] = True
                    return
                raise Violation('second-node-starts', 'a second node was created on the address of %s' % L.proc.name)
            if not isinstance(p2.ctor_error, ns.node.AddrInUseError):
                raise Violation('wrong-error', 'a second node on an address in use raised %r' % p2.ctor_error)
            probe(L, 'after a second node was refused')
        k.after(0 if not stalls else 10 * SEC, late)
        if stalls:
            p2.on('loop', lambda node: (_ for _ in ()).throw(Injected(ns.node.StopNode())))
    for o in plan['ops']:
        if stalls and o['op'] == 'second':
            continue                      # its start could be delayed past the first node's end
        k.at(int(o['t'] * SEC), do_op, o)
    schedule_faults(ctx, w, plan['faults'], None, None)
    k.at(100 * MS, begin, 0)
    if plan.get('client'):
        client_life(ctx, w, plan['client'])

    # established connections of a closed node keep being served
    def check_served():
        for L in lives:
            if L.d['how'] not in ('close', 'closeh') or L.ended is None or L.proc.dead or L.final:
                continue
            if k.now - L.ended < 30 * SEC:
                continue
            L.final = True
            for c in L.at_end:
                serve_check(L, c)

    def serve_check(L, c):
        if not c.live() or was_cut(c):
            return
        nonce = S.rnd_bytes(r0, 8)
        c.rate = None
        c.reading = True
        c.on_net(c.ep)
        c.msg('ping', nonce=nonce)
        t = k.now

        def late():
            if not c.live() and c.user.get('cut') or L.proc.dead:
                return
            if disturbed(t, t + HEALTHY):
                return
            if c.ended and not (c.ep.why or c.ep.err):
                raise Violation('closed-node-drops', '%s was closed; its connection %s has ended (%s)' % (L.proc.name, c.cid, c.end_why))
            pong = [1 for x, fr in c.frames for cl in [P.classify(fr)] if cl[0] == 'ok' and cl[1] == 'pong' and cl[2]['nonce'] == nonce]
            if c.live() and (not pong or not c.got_verack and not c.user.get('silent') or not c.got_version):
                raise Violation('closed-node-deaf', '%s was closed; its connection %s is not served any more (pong %s, version %s, verack %s)' % (
                    L.proc.name, c.cid, bool(pong), bool(c.got_version), c.got_verack))
            k.probe('served-after-close')
        k.after(HEALTHY, late)
    total = sum(l['dur'] + l['gap'] + 10 for l in plan['lives']) + sum(f.get('dur', 0) for f in plan['faults'])
    end = int((total + 30) * SEC)
    t = 0
    while t < end:
        t += SEC
        w.run(t)
        check_served()
    w.run_for(60 * SEC)
    check_served()
    w.run_for(HEALTHY + 5 * SEC)
    for L in lives:
        p = L.proc
        if p.ctor_error is not None:
            raise Violation('restart-refused', '%s: %r' % (p.name, p.ctor_error))
        if p.ended and not p.dead and L.ended is None:
            raise Violation('event-loop-ended', '%s: %s' % (p.name, getattr(p, 'error_tb', None) or p.error))
        if p.ended and not p.dead and L.d['how'] in ('close', 'closeh'):
            left = [c for c in L.at_end if c.live() and not was_cut(c)]
            if p.error is not None or left:
                raise Violation('closed-node-ends', '%s was closed, its loop has ended with %d connections left (%s)' % (
                    p.name, len(left), getattr(p, 'error_tb', None)))
        k.probe('lives')
    for p in w.procs:
        for ep, healthy in net.close_log:
            if ep.host is host and healthy and getattr(ep, 'life', None) is not None and not ep.life.proc.dead:
                raise Violation('healthy-connection-dropped', '%s closed connection %s although nothing went wrong on it' % (
                    ep.life.proc.name, ep.cid))
