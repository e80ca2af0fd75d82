"""N05: idle connections are pinged, dead ones dropped, live ones kept."""
import random

from .common import *

H3 = 10800.0
M30 = 1800.0
M5 = 300.0


def gen(r, tier, i):
    npeer = r.choice((1, 2, 3))
    total = r.choice((5000, 12000, 26000))
    peers = []
    for j in range(npeer):
        peers.append(dict(
            dial=r.random() < 0.4, t=round(r.uniform(1, 60), 3), s=r.getrandbits(32),
            mode=r.choice(('mute', 'noverack', 'normal', 'normal', 'normal')),
            pong=r.random() < 0.4,
            every=r.choice((0, 0, 200, 1700, 1795, 1805, 3000, 10700, 10790, 10797, 10803, 10900)),
            what=r.choice(('ping', 'bytes', 'inv')), until=r.choice((0, 3000, total)),
            reads=r.random() < 0.85))
        if r.random() < 0.15:           # asks for more answers than fit, reads none of them for a while, and asks again
            peers[-1].update(reads=True, clog=dict(
                t=round(r.uniform(20, total - 4500), 3), n=r.choice((4600, 6000)), dur=r.choice((1900, 2300, 3000, 4000)),
                again=[round(r.uniform(0, 1790), 3) for _ in range(r.choice((0, 1, 1, 3)))]))
    ops = []
    for _ in range(r.choice((0, 0, 2, 5))):
        ops.append(dict(t=round(r.uniform(60, total), 3), op='send', p=r.randrange(npeer), n=r.choice((1, 2)),
                        cmd=r.choice(('inv', 'ping', 'mempool'))))
    faults = []
    for _ in range(r.choice((0, 0, 1, 2))):
        faults.append(dict(t=round(r.uniform(5, total), 3), kind='stall', host='n1', dur=r.choice((1, 30, 600, 2000))))
    for _ in range(r.choice((0, 0, 1, 2, 4))):
        faults.append(dict(t=round(r.uniform(5, total), 3), kind='clock', host='n1',
                           delta=r.choice((1, -1, 299, 1790, 1801, 3600, 10790, 10801, 100000, -30, -600, -4000, -90000))))
    if r.random() < 0.3:
        faults.append(dict(t=round(r.uniform(5, total), 3), kind='cut', a='n1', b='p%d' % r.randrange(npeer), dur=r.choice((60, 600))))
    if r.random() < 0.3:
        faults.append(dict(t=round(r.uniform(5, total), 3), kind=r.choice(('fin', 'rst')), conn=r.randrange(npeer)))
    return dict(peers=peers, ops=sort_t(ops), faults=faults, total=total, quietbook=r.random() < 0.8,
                net=net_swarm(r, eagain=False, late=True))


SHRINK = ('peers',)


def run(ctx):
    plan, k = ctx.plan, ctx.k
    w = ctx.world()
    n1 = w.node('n1', NODE_IP, PORT, seek_peers=0, bootstrap=False).start()
    host = n1.host
    conns = {}

    def feed_book():            # a book of 60 addresses: the node has no reason to ask for more
        f = w.peer('feed', '10.0.7.1')

        def done(c):
            c.msg('addr', addr_list=[dict(timestamp=1, services=1, address='20.0.0.%d' % x, port=1) for x in range(60)])
            k.after(20 * SEC, c.close)
        f.on('open', done)
        f.connect((NODE_IP, PORT))
    if plan['quietbook']:
        k.after(500 * MS, feed_book)
    for j, pd in enumerate(plan['peers']):
        p = w.peer('p%d' % j, '10.0.1.%d' % (j + 1), port=PORT if pd['dial'] else None)
        p.auto_pong = pd['pong']
        p.auto_version = pd['mode'] != 'mute'
        p.auto_verack = pd['mode'] == 'normal'

        def opened(c, j=j, pd=pd):
            conns.setdefault(j, c)
            if not pd['reads']:
                k.after(5 * SEC, lambda: setattr(c, 'reading', False))
            if pd['every'] and pd['mode'] != 'mute':
                def tick():
                    if not c.live() or k.now > pd['until'] * SEC:
                        return
                    if pd['what'] == 'ping':
                        c.msg('ping', nonce=b'\7' * 8)
                    elif pd['what'] == 'inv':
                        c.msg('inv', inventory=[])
                    else:           # a single byte of a frame is a sign of life too
                        fr = c.user.setdefault('fr', P.frame('inv', dict(inventory=[dict(object_type=1, hash=b'x' * 32)] * 200)))
                        c.user['i'] = c.user.get('i', -1) + 1
                        c.send(fr[c.user['i'] % len(fr):][:1])
                    k.after(pd['every'] * SEC, tick)
                k.after(pd['every'] * SEC, tick)
            if pd.get('clog'):
                cl = pd['clog']

                def clog():
                    if not c.live():
                        return
                    c.reading = False
                    c.send(P.frame('ping', dict(nonce=b'\7' * 8)) * cl['n'])
                    k.fault('peer-stops-reading')
                    for x in cl['again']:
                        k.after(int(x * SEC), lambda: c.live() and c.msg('ping', nonce=b'\7' * 8))
                    
                    def again():
                        c.reading = True
                        if not c.closed and c.peer.host.up:
                            c.read()
                    k.after(int(cl['dur'] * SEC), again)
                k.after(int(cl['t'] * SEC), clog)
        p.on('open', opened)

        def go(p=p, pd=pd):
            if pd['dial']:
                n1.do(lambda node: node.add_peer((p.ip, p.port)))
            else:
                p.connect((NODE_IP, PORT))
        k.at(int(pd['t'] * SEC), go)
    user_pings = {}

    def do_op(o):
        def go(node):
            c = conns.get(o['p'])
            t = [x for x in node.peers if c is not None and c.ep.peer is not None and getattr(x.socket, 'ep', None) is c.ep.peer]
            if not t:
                return
            for _ in range(o['n']):
                if o['cmd'] == 'ping':
                    nonce = b'user%04d' % len(user_pings)
                    user_pings[nonce] = 1
                    t[0].send_message(ctx.ns.protocol.Ping(nonce))
                else:
                    t[0].send_message(S.build_message(ctx.ns, o['cmd'], dict(inventory=[]) if o['cmd'] == 'inv' else {}))
        n1.do(go)
    for o in plan['ops']:
        k.at(int(o['t'] * SEC), do_op, o)
    schedule_faults(ctx, w, plan['faults'], None, lambda i: conns.get(i))
    hist = {}                  # ep -> walls of the loop begins since which (rx age > 3 h), (tx age > 30 min)
    seen = [0]
    wire = {}
    stalls = [f for f in plan['faults'] if f['kind'] == 'stall']
    last = [None]

    def rx_wall(ep):
        return ep.last_rx_wall if ep.last_rx_wall is not None else ep.made_wall

    def closed_check():
        for ep, healthy in w.net.close_log[seen[0]:]:
            seen[0] += 1
            if ep.host is not host or not healthy:
                continue
            age = ep.close_wall - rx_wall(ep)
            if age <= H3 - 0.001:
                raise Violation('closed-while-alive', 'connection %s was closed %.3f s after the peer was last heard from' % (ep.cid, age))
            k.probe('idle-closed')

    def each(node):
        closed_check()
        now = host.wall()
        gap = None if last[0] is None else k.now - last[0]
        last[0] = k.now
        if gap is not None:
            allowed = 6 * SEC + sum(f['dur'] * SEC for f in stalls
                                    if k.now - gap <= f['t'] * SEC + f['dur'] * SEC and f['t'] * SEC <= k.now)
            if gap > allowed:
                raise Violation('loop-period', 'the loop did not run for %.3f s' % (gap / 1e6))
        listed = set()
        for peer in node.peers:
            ep = getattr(peer.socket, 'ep', None)
            if ep is None:
                continue
            listed.add(ep)
            h = hist.setdefault(ep, [0, 0, now, 0, None, None, None])
            if not ep.established or ep.err or ep.eof or ep.why:
                h[:2] = [0, 0]
                h[3:6] = [0, None, None]
                continue
            # a connection that waited to be accepted counts from then on
            age = now - (rx_wall(ep) if ep.last_rx_wall is not None else max(rx_wall(ep), h[2]))
            if age > H3 + 0.001 and not ep.rbuf:
                h[0] += 1
                if h[0] >= 3:
                    raise Violation('dead-not-closed', 'connection %s: the peer has been silent for %.1f s and the '
                                    'connection is still there' % (ep.cid, age))
            else:
                h[0] = 0
            tx = now - (ep.last_tx_wall if ep.last_tx_wall is not None else now)
            lp = wire[ep][2] if ep in wire else None     # by its clock the last ping was less than 5 min ago (or later)
            idle = tx > M30 + 0.001 and (lp is None or now - lp > M5 + 0.001)
            room = len(ep.out) + 200 < w.net.cfg.sndcap
            pings = wire[ep][4] if ep in wire else 0
            if tx > M30 and not room:
                h[6] = now
            if idle and not room:       # the ping can not be sent yet
                h[3] += 1
                if h[3] == 1:
                    h[4] = pings
                if h[3] >= 3 and h[5] is None:
                    h[5] = [h[4], len(ep.wire_tx), k.now]
                    k.probe('idle-clogged')
                if h[5] is not None:
                    h[5][1:] = [len(ep.wire_tx), k.now]
            elif h[5] is not None:
                if not room or len(ep.wire_tx) != h[5][1]:
                    h[5][1:] = [len(ep.wire_tx), k.now]
                elif k.now - h[5][2] > 11 * SEC:       # all that was queued is out
                    if pings == h[5][0]:
                        raise Violation('idle-not-pinged', 'connection %s: for more than half an hour nothing could be sent, and no ping came afterwards' % ep.cid)
                    h[3:6] = [0, None, None]
            else:
                h[3] = 0
            if idle and room and (h[6] is None or now - h[6] > M5 + 0.001):      # one may have been made then
                h[1] += 1
                if h[1] >= 3:
                    raise Violation('idle-not-pinged', 'connection %s: nothing was sent for %.1f s and no ping came' % (ep.cid, tx))
            else:
                h[1] = 0
    n1.on('loop', each)

    # pings of the node, at the moment its transport takes them
    def on_send(ep):
        if ep.host is not host:
            return
        st = wire.setdefault(ep, [0, P.Splitter(), None, False, 0])
        if len(ep.out) >= w.net.cfg.sndcap:
            st[3] = True             # backed up: what follows was queued earlier
        for fr in st[1].feed(bytes(ep.wire_tx[st[0]:])):
            c = P.classify(fr)
            if c[0] == 'ok' and c[1] == 'ping' and c[2]['nonce'] not in user_pings:
                k.probe('idle-pings')
                st[4] += 1
                t = host.wall()
                if st[2] is not None and not st[3] and t - st[2] < M5 - 1.0:
                    raise Violation('ping-too-often', 'connection %s: two idle pings %.1f s apart' % (ep.cid, t - st[2]))
                st[2] = t
        st[0] = len(ep.wire_tx)

    w.net.on_send = on_send
    w.run(int(plan['total'] * SEC))
    n1.require_serving()
    closed_check()
