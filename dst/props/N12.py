"""N12: a node short of peers finds its way back."""
import errno
import random

from .common import *


def gen(r, tier, i):
    dur = r.choice((30, 100, 400))
    npeer = r.choice((1, 2, 4, 8))
    peers = [dict(boot=r.random() < 0.3, gossip=r.random() < 0.5, inn=r.random() < 0.25, t=round(r.uniform(0.5, dur), 3),
                  life=r.choice((None, None, None, round(r.uniform(1, dur), 3))),
                  down=r.choice((None, None, None, [round(r.uniform(0, dur), 3), round(r.uniform(1, dur), 3)])),
                  s=r.getrandbits(32)) for _ in range(npeer)]
    ndead = r.choice((0, 2, 5, 10)) if r.random() < 0.95 else r.choice((30, 80))
    dead = [dict(kind=r.choice(('refuse', 'black', 'black', 'reset', 'port', 'unreach', 'v6', 'self', 'dup')), boot=r.random() < 0.2)
            for _ in range(ndead)]
    ops = []
    for _ in range(r.choice((0, 2, 8))):
        ops.append(dict(t=round(r.uniform(0.5, dur), 3), op=r.choice(('fin', 'rst', 'gossip', 'gossip', 'remove', 'in', 'finall')),
                        p=r.randrange(npeer), s=r.getrandbits(32)))
    faults = []
    for _ in range(r.choice((0, 1, 2, 4))):
        kind = r.choice(('stall', 'cut', 'isolate', 'clock', 'emfile', 'dns'))
        f = dict(t=round(r.uniform(0, dur), 3), kind=kind, dur=r.choice((1, 30, 200)))
        if kind == 'stall':
            f.update(host='n1', dur=r.choice((1, 20)))
        elif kind == 'clock':
            f.update(host='n1', delta=r.choice((5, 60, 4000)))
        elif kind == 'cut':
            f.update(a='n1', b='p%d' % r.randrange(npeer))
        faults.append(f)
    return dict(peers=peers, dead=dead, ops=sort_t(ops), faults=faults, net=net_swarm(r, spurious=True, accept=True, late=True), dur=dur,
                seek=r.choice((1, 2, 4, 8, 16)), names=r.random() < 0.5, listen=r.random() < 0.8, s=r.getrandbits(32),
                known=r.random() < 0.7)


SHRINK = ('peers', 'dead')


def run(ctx):
    plan, k = ctx.plan, ctx.k
    w = ctx.world()
    net = w.net
    r0 = random.Random(plan['s'])
    npeer = len(plan['peers'])
    pip = lambda j: '10.0.1.%d' % (j + 1)
    seeds, unreach, deadaddr = [], set(), []
    for x, d in enumerate(plan['dead']):
        ip = '10.0.3.%d' % (x + 1)
        a = (ip, PORT)
        kind = d['kind']
        if kind == 'refuse':
            w.peer('d%d' % x, ip)
        elif kind == 'black':
            net.blackhole.add(a)
        elif kind == 'reset':
            p = w.peer('d%d' % x, ip, port=PORT)
            p.on('accepted', lambda c: k.after(1000, c.abort))
        elif kind == 'port':
            a = (pip(r0.randrange(max(1, npeer))), r0.choice((0, 1, PORT + 1)))
        elif kind == 'unreach':
            unreach.add(a)
        elif kind == 'v6':
            a = ('2001:db8::%d' % (x + 1), PORT)
        elif kind == 'self':
            a = (NODE_IP, PORT) if plan['listen'] else ('127.0.0.1', 40000)
        elif kind == 'dup':
            a = (pip(r0.randrange(max(1, npeer))), PORT)
        deadaddr.append(a)
        if d['boot'] and kind in ('refuse', 'black', 'reset', 'unreach', 'self', 'dup') and len(seeds) < 2:
            seeds.append(a)
    for j, pd in enumerate(plan['peers']):
        if pd['boot'] and len(seeds) < 4:
            if plan['names']:
                net.dns['seed%d.example' % j] = pip(j)
                seeds.append(('seed%d.example' % j, PORT))
            else:
                seeds.append((pip(j), PORT))
    r0.shuffle(seeds)
    net.immediate_connect_error = lambda h, addr: errno.ENETUNREACH if addr in unreach else 0
    n1 = w.node('n1', NODE_IP, PORT if plan['listen'] else None, seek_peers=plan['seek'], bootstrap=bool(seeds), seeds=seeds)
    host = n1.host
    peers, conns = [], {}
    quiet = [False]

    def addrs(r):
        out = []
        for _ in range(r.choice((1, 3, 10, 70))):
            if deadaddr and r.random() < 0.6:
                a = r.choice(deadaddr)
            else:
                a = (pip(r.randrange(max(1, npeer))), PORT)
            out.append(dict(timestamp=r.randrange(1600000000, 1800000000), services=1, address=a[0], port=a[1]))
        return out
    for j, pd in enumerate(plan['peers']):
        p = w.peer('p%d' % j, pip(j), port=PORT)
        peers.append(p)

        def opened(c, j=j, pd=pd):
            conns.setdefault(j, []).append(c)
            if pd['life'] and not quiet[0]:
                k.after(int(pd['life'] * SEC), lambda: (quiet[0] or k.fault('peer-close'), quiet[0] or c.close()))
        p.on('open', opened)

        def frame(c, cl, fr, j=j, pd=pd):
            if pd['gossip'] and cl[0] == 'ok' and cl[1] == 'getaddr':
                c.msg('addr', addr_list=addrs(random.Random('%s%d' % (pd['s'], len(c.frames)))))
        p.on('frame', frame)
        if pd['inn'] and plan['listen']:
            k.at(int(pd['t'] * SEC), lambda p=p: p.connect((NODE_IP, PORT)))
        if pd['down']:
            def down(p=p, j=j):
                k.fault('peer-down')
                p.unlisten()
                for c in conns.get(j, ()):
                    if c.live():
                        c.close()
            k.at(int(pd['down'][0] * SEC), down)
            k.at(int((pd['down'][0] + pd['down'][1]) * SEC), lambda p=p: p.listener is None and p.listen())
    if plan['known']:
        # somebody tells the node about everything, then leaves
        feeder = w.peer('feed', '10.0.7.1')
        feeder.on('open', lambda c: (c.msg('addr', addr_list=addrs(random.Random(plan['s'])) + addrs(random.Random(plan['s'] + 1))),
                                k.after(20 * SEC, c.close)))
        if plan['listen']:
            k.after(500 * MS, lambda: feeder.connect((NODE_IP, PORT)))

    book = {}

    def on_msg(node, peer, rec, name, kw):
        if name == 'address':
            for a in kw['addr_list']:
                book[(P.tob(a.address).decode('latin-1'), int(a.port))] = 1
        elif name == 'version_ack':
            book[tuple(peer.address)] = 1
    n1.on('message', on_msg)
    n1.on('disconnected', lambda node, peer, rec: book.pop(tuple(peer.address), None))

    def do_op(o):
        r = random.Random(o['s'])
        j, kind = o['p'], o['op']
        if j >= npeer or quiet[0]:
            return
        live = [c for c in conns.get(j, ()) if c.live()]
        if kind == 'gossip':
            live = [c for cs in conns.values() for c in cs if c.live()]
            if live:
                r.choice(live).msg('addr', addr_list=addrs(r))
        elif kind == 'finall':
            k.fault('peer-close')
            for cs in conns.values():
                for c in cs:
                    if c.live():
                        c.close()
        elif kind in ('fin', 'rst') and live:
            k.fault('peer-close')
            c = r.choice(live)
            (c.close if kind == 'fin' else c.abort)()
        elif kind == 'in' and plan['listen']:
            peers[j].connect((NODE_IP, PORT))
        elif kind == 'remove':
            def go(node):
                if node.peers:
                    node.remove_peer(r.choice(sorted(node.peers, key=lambda q: q.address)).address)
            n1.do(go)
    for o in plan['ops']:
        k.at(int(o['t'] * SEC), do_op, o)

    def special(f):
        if f['kind'] == 'isolate':
            net.isolate(host)
            k.after(int(f['dur'] * SEC), net.rejoin, host)
        elif f['kind'] == 'emfile':
            k.fault('fd-limit')
            host.fd_limit = host.reserved_fds + len(host.fds)
            k.after(int(f['dur'] * SEC), lambda: setattr(host, 'fd_limit', 1024))
        elif f['kind'] == 'dns':
            k.fault('dns-outage')
            net.dns_fail.update(net.dns)
            k.after(int(f['dur'] * SEC), net.dns_fail.clear)
    rest = []
    for f in plan['faults']:
        if f['kind'] in ('isolate', 'emfile', 'dns'):
            k.at(int(f['t'] * SEC), special, f)
        else:
            rest.append(f)
    schedule_faults(ctx, w, rest, None, lambda i: None)
    n1.start()
    w.run(int(plan['dur'] * SEC))
    n1.require_serving()
    # faults stop
    quiet[0] = True
    net.heal_all()
    net.dns_fail.clear()
    host.fd_limit = 1024
    host.stall_until = k.now
    calm(net)
    for p in peers:
        if p.listener is None:
            p.listen()
    k.run(k.now + 450 * SEC)       # pending heal timers, connection attempts under way
    net.heal_all()
    n1.require_serving()

    def node_eps():
        return [e for e in n1.endpoints() if e.owner is not None and not e.app_closed and not e.gone]

    def established():
        return set(e.remote for e in node_eps() if e.established and not e.err and not e.eof and e.peer is not None
                   and not e.peer.gone and not e.peer.app_closed)
    zombies = set(e.remote for e in node_eps() if e.established and (e.peer is None or e.peer.gone or e.peer.app_closed))
    good = set((p.ip, PORT) for p in peers)
    want = set(a for a in book if a in good and a not in zombies)
    bound = (len(plan['dead']) + 2) * 150 + npeer * 20 + 300

    def back():
        est = established()
        return want <= est or len(est) >= plan['seek']
    t0 = k.now
    if not k.run_until(back, k.now + bound * SEC, 5 * SEC):
        raise Violation('known-address-not-tried', '%d s after faults stopped the node (seeks %d) is connected to %s; it knows '
                        'the reachable %s' % ((k.now - t0) // SEC, plan['seek'], sorted(established()), sorted(want - established())))
    k.probe('wanted', len(want))
    k.probe('recovered', 1 if want else 0)
    n1.require_serving()
    # with nothing left in the book the seeds are the way back
    reach = set()
    for s in seeds:
        ip = net.dns.get(s[0], s[0])
        if (ip, s[1]) in good:
            reach.add((ip, s[1]))
    if reach and not plan['listen'] or (reach and r0.random() < 0.5):
        for p in peers:
            p.hooks['frame'] = []          # nobody gossips any more
        for _ in range(4):
            for cs in conns.values():
                for c in cs:
                    if c.live():
                        c.close()
            k.run(k.now + 2 * SEC)
        # every address still known is tried within this time
        lim = (80 + len(plan['dead'])) * 150 + npeer * 20
        if any(d['kind'] == 'self' for d in plan['dead']):
            # its own address, once told to it, stays in the book: only one heartbeat in 200 tries a seed then
            lim += 30 * 2000 * len(seeds) // len(reach)
        # with no address left at all every attempt of every heartbeat goes to a seed
        each = 150 if any(s in net.blackhole for s in seeds) else 16
        t0 = k.now
        empty = [k.now]

        def seeded():
            est = established()
            if any(':' not in a[0] for a in book):
                empty[0] = k.now
            elif k.now - empty[0] > 60 * each * SEC and not (reach & est):
                raise Violation('seed-not-tried', 'the node (seeks %d) knows no address for %d s and is not connected to a seed; '
                                'reachable seeds %s' % (plan['seek'], (k.now - empty[0]) // SEC, sorted(reach)))
            return bool(reach & est) or len(est) >= plan['seek'] or (bool(book) and bool(good & est))
        if not k.run_until(seeded, k.now + lim * SEC, 10 * SEC):
            raise Violation('seed-not-tried', 'the node (seeks %d) has no peer %d s after the last one left; reachable seeds %s, '
                            'connected %s' % (plan['seek'], (k.now - t0) // SEC, sorted(reach), sorted(established())))
        k.probe('seed-recoveries')
        n1.require_serving()
