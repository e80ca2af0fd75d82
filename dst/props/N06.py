"""N06: every ping is answered by exactly its pong."""
import random

from .common import *


def gen(r, tier, i):
    dur = r.choice((5, 60, 300))
    npeer = r.choice((1, 2, 3))
    peers = [dict(dial=r.random() < 0.4, t=round(r.uniform(0.5, dur / 4.0), 3), early=r.random() < 0.3,
                  rate=r.choice((None, None, None, 1, 7, 40, 300)), gap=r.choice((0.1, 1)),
                  pause=r.choice((None, None, round(r.uniform(0, dur), 3))), s=r.getrandbits(32),
                  auto=r.random() < 0.85) for _ in range(npeer)]
    bulk = r.random() < 0.15
    ops = []
    for _ in range(r.choice((3, 10, 30))):
        ops.append(dict(t=round(r.uniform(0.3, dur), 3), c=r.randrange(npeer + 1),
                        op=r.choice(('ping', 'ping', 'ping', 'ping', 'burst', 'pong', 'short', 'badsum', 'getaddr', 'inv', 'nodeping',
                                     'addr', 'same', 'cmdcase', 'many') ), s=r.getrandbits(32)))
    if bulk:
        for _ in range(r.choice((1, 1, 2))):
            ops.append(dict(t=round(r.uniform(0.3, dur), 3), c=r.randrange(npeer), op=r.choice(('bulk', 'bulk', 'bigmsg')), s=r.getrandbits(32)))
    faults = []
    for _ in range(r.choice((0, 0, 1, 3))):
        kind = r.choice(('stall', 'cut', 'rst', 'fin', 'pause', 'clock'))
        f = dict(t=round(r.uniform(0, dur), 3), kind=kind)
        if kind == 'stall':
            f.update(host='n1', dur=r.choice((1, 20)))
        elif kind == 'clock':
            f.update(host='n1', delta=r.choice((-100, 5, 2000)))
        elif kind == 'cut':
            f.update(a='n1', b='p%d' % r.randrange(npeer), dur=r.choice((1, 30, 300)))
        else:
            f.update(conn=r.randrange(npeer), dur=r.choice((5, 60)))
        faults.append(f)
    return dict(peers=peers, ops=sort_t(ops), faults=faults, net=net_swarm(r, spurious=True, late=True), dur=dur,
                two=r.random() < 0.4, s=r.getrandbits(32))


SHRINK = ('peers',)


def run(ctx):
    plan, k = ctx.plan, ctx.k
    w = ctx.world()
    n1 = w.node('n1', NODE_IP, PORT, seek_peers=0, bootstrap=False).start()
    procs = [n1]
    if plan['two']:
        n2 = w.node('n2', NODE2_IP, PORT, seek_peers=0, bootstrap=False).start()
        procs.append(n2)
        k.at(700 * MS, lambda: n1.do(lambda node: node.add_peer((NODE2_IP, PORT))))
    conns = {}
    for j, pd in enumerate(plan['peers']):
        p = w.peer('p%d' % j, '10.0.1.%d' % (j + 1), port=PORT if pd['dial'] else None)
        p.auto_version = pd['auto']

        def opened(c, j=j, pd=pd):
            if j in conns:
                return
            conns[j] = c
            c.rate, c.rate_gap = pd['rate'], int(pd['gap'] * SEC)
            if pd['early']:
                c.msg('ping', nonce=b'earlybrd')
        p.on('open', opened)
        if pd['early']:
            # the ping comes before the version message
            av = p.auto_version
            p.auto_version = False
            p.on('open', lambda c, p=p, av=av: av and c.msg('version', **p.make_version(c)))

        def go(p=p, pd=pd):
            if pd['dial']:
                n1.do(lambda node: node.add_peer((p.ip, p.port)))
            else:
                p.connect((NODE_IP, PORT))
        k.at(int(pd['t'] * SEC), go)
        if pd['pause'] is not None:
            def pause(j=j):
                c = conns.get(j)
                if c is not None:
                    k.fault('peer-stops-reading')
                    c.reading = False

                    def on(c=c):
                        c.reading = True
                        c.on_net(c.ep)
                    k.after(60 * SEC, on)
            k.at(int(pd['pause'] * SEC), pause)

    def do_op(o):
        r = random.Random(o['s'])
        kind = o['op']
        if kind == 'nodeping':
            def go(node):
                if node.peers:
                    r.choice(sorted(node.peers, key=lambda p: p.address)).send_message(ctx.ns.protocol.Ping(S.rnd_bytes(r, 8)))
            r.choice(procs).do(go)
            return
        if kind == 'bulk':               # the answers wait behind something large
            size = r.choice((40000, 150000, 250000) + ((1000000,) if w.net.cfg.sndcap > 5000 and w.net.cfg.rcvcap > 5000 else ()))

            def queue(node):
                for peer in sorted(node.peers, key=lambda p: p.address):
                    if r.random() < 0.7:
                        peer.send_message(ctx.ns.protocol.Alert(payload=b'x' * size, signature=b'y'))
            n1.do(queue)
            return
        c = conns.get(o['c'])
        if c is None or not c.live():
            return
        if kind == 'bigmsg':
            c.msg('alert', payload=b'z' * r.choice((9000, 70000, 200000)), signature=b'')
        elif kind == 'ping':
            c.msg('ping', nonce=S.rnd_bytes(r, 8))
        elif kind == 'same':
            n = r.choice((b'\0' * 8, b'\xff' * 8, S.rnd_bytes(r, 8)))
            c.msg('ping', nonce=n)
            c.msg('ping', nonce=n)
        elif kind in ('burst', 'many'):
            c.send(b''.join(P.frame('ping', dict(nonce=S.rnd_bytes(r, 8))) for _ in range(r.choice((2, 9)) if kind == 'burst' else 300)))
        elif kind == 'pong':
            c.msg('pong', nonce=S.rnd_bytes(r, 8))
        elif kind == 'short':
            c.send(P.frame_raw('ping', S.rnd_bytes(r, r.randrange(8))))
        elif kind == 'badsum':
            fr = bytearray(P.frame('ping', dict(nonce=S.rnd_bytes(r, 8))))
            fr[20 + r.randrange(4)] ^= 1 << r.randrange(8)
            k.fault('corrupt-frame')
            c.send(bytes(fr))
        elif kind == 'cmdcase':
            c.send(P.frame_raw(r.choice(('PING', 'pingg', 'pin')), S.rnd_bytes(r, 8)))
        elif kind in ('inv', 'addr'):
            c.msg(kind, **S.rnd_fields(r, kind))
        else:
            c.msg(kind)
    for o in plan['ops']:
        k.at(int(o['t'] * SEC), do_op, o)
    schedule_faults(ctx, w, plan['faults'], None, lambda i: conns.get(i))
    wire = Wire()

    def ok_ping(c):
        return c[0] == 'ok' and c[1] == 'ping'

    def check(ep):
        pings = [c[2]['nonce'] for c in wire.handed(ep) if ok_ping(c)]
        pongs = [c[2]['nonce'] for c in wire.taken(ep) if c[0] == 'ok' and c[1] == 'pong']
        if pongs != pings[:len(pongs)]:
            n = [a == b for a, b in zip(pongs, pings)] + [False]
            x = n.index(False)
            raise Violation('wrong-pong', 'connection %s: pong no %d carries %r, the pings received so far are %d, no %d %r' % (
                ep.cid, x, pongs[x] if x < len(pongs) else None, len(pings), x, pings[x] if x < len(pings) else None))
        return len(pings), len(pongs)
    node_hosts = [p.host for p in procs]

    def on_send(ep):
        if ep.host in node_hosts:
            check(ep)
    w.net.on_send = on_send
    w.run(int((plan['dur'] + 400) * SEC))
    calm(w.net)
    for c in conns.values():
        c.rate = None
        c.reading = True
        c.on_net(c.ep)
    w.run_for(30 * SEC)
    drain(k, list(conns.values()))
    for p in procs:
        p.require_serving()
        drops(w, p)
        for ep in p.endpoints():
            if not ep.established:
                continue
            a, b = check(ep)
            k.probe('pings', a)
            k.probe('pongs', b)
            if ep.app_closed or ep.gone or ep.err or ep.eof or ep.why or ep.owner is None:
                continue
            if a != b:
                raise Violation('ping-unanswered', 'connection %s: %d pings received, %d answered' % (ep.cid, a, b))
            src = ep.peer.owner
            if isinstance(src, S.RefConn) and not was_cut(src):
                if ep.handed_total != len(src.sent_raw):
                    raise Violation('ping-unanswered', 'connection %s: the node has read %d of %d bytes' % (ep.cid, ep.handed_total, len(src.sent_raw)))
                got = [cl[2]['nonce'] for t, fr in src.frames for cl in [P.classify(fr)] if cl[0] == 'ok' and cl[1] == 'pong']
                if len(got) != a:
                    raise Violation('pong-lost', 'connection %s: %d pongs for %d pings reached the peer' % (ep.cid, len(got), a))
