"""N11: traffic counters equal the bytes that crossed the wire."""
import random

from .common import *


def gen(r, tier, i):
    dur = r.choice((5, 60, 300))
    npeer = r.choice((1, 2, 4))
    peers = [dict(dial=r.random() < 0.5, t=round(r.uniform(0.3, dur / 4.0), 3), rate=r.choice((None, None, None, 3, 50)),
                  pause=r.choice((None, None, round(r.uniform(0, dur), 3))), incb=r.random() < 0.3) for _ in range(npeer)]
    ops = []
    for _ in range(r.choice((4, 12, 30))):
        ops.append(dict(t=round(r.uniform(0.3, dur), 3), c=r.randrange(npeer + 1), s=r.getrandbits(32), n=r.choice((1, 1, 3, 20)),
                        op=r.choice(('out', 'out', 'out', 'in', 'in', 'ping', 'getaddr', 'junk', 'remove', 'fin', 'rst', 'closewr', 'inhandler'))))
    faults = []
    for _ in range(r.choice((0, 0, 1, 3))):
        kind = r.choice(('stall', 'cut', 'rst', 'clock', 'pause'))
        f = dict(t=round(r.uniform(0, dur), 3), kind=kind)
        if kind == 'stall':
            f.update(host='n1', dur=r.choice((1, 20)))
        elif kind == 'clock':
            f.update(host='n1', delta=r.choice((-5000, 400, 2000)))
        elif kind == 'cut':
            f.update(a='n1', b='p%d' % r.randrange(npeer), dur=r.choice((1, 30, 300)))
        else:
            f.update(conn=r.randrange(npeer), dur=r.choice((5, 60)))
        faults.append(f)
    return dict(peers=peers, ops=sort_t(ops), faults=faults, net=net_swarm(r, spurious=True, accept=True, late=True), dur=dur,
                two=r.random() < 0.4)


SHRINK = ('peers',)


def run(ctx):
    plan, k = ctx.plan, ctx.k
    w = ctx.world()
    net = w.net
    n1 = w.node('n1', NODE_IP, PORT, seek_peers=0, bootstrap=False)
    procs = [n1]
    if plan['two']:
        procs.append(w.node('n2', NODE2_IP, PORT, seek_peers=0, bootstrap=False))
        k.at(700 * MS, lambda: n1.do(lambda node: node.add_peer((NODE2_IP, PORT))))
    queued = {}          # endpoint -> frames in the order they were queued (None = any addr answer)
    conns = {}
    later = []
    for j, pd in enumerate(plan['peers']):
        p = w.peer('p%d' % j, '10.0.1.%d' % (j + 1), port=PORT if pd['dial'] else None)

        def opened(c, j=j, pd=pd):
            conns.setdefault(j, c)
            c.rate = pd['rate']
        p.on('open', opened)

        def go(p=p, pd=pd):
            if pd['dial']:
                n1.do(lambda node: node.add_peer((p.ip, p.port)))
            else:
                p.connect((NODE_IP, PORT))
        k.at(int(pd['t'] * SEC), go)
        if pd['pause'] is not None:
            def pause(j=j):
                c = conns.get(j)
                if c is not None:
                    k.fault('peer-stops-reading')
                    c.reading = False

                    def on(c=c):
                        c.reading = True
                        c.on_net(c.ep)
                    k.after(60 * SEC, on)
            k.at(int(pd['pause'] * SEC), pause)
    wire = Wire()

    def q(ep):
        return queued.setdefault(ep, [])

    def count(proc, peer, ep, where):
        if ep is None:
            return
        if peer.rx_bytes != ep.handed_total:
            raise Violation('rx-count', '%s %s: rx_bytes is %r, the transport handed over %d bytes (%s)' % (
                proc.name, ep.cid, peer.rx_bytes, ep.handed_total, where))
        if peer.tx_bytes != ep.accepted_total:
            raise Violation('tx-count', '%s %s: tx_bytes is %r, the transport accepted %d bytes (%s)' % (
                proc.name, ep.cid, peer.tx_bytes, ep.accepted_total, where))
        k.probe('comparisons')

    def prefix(proc, ep):
        """What the transport took is a prefix of what the node queued."""
        fs = wire.taken(ep)
        st = pos.setdefault(ep, [0, 0])
        want = queued.get(ep, [])
        while st[0] < len(fs):
            c = fs[st[0]]
            i = st[0]
            st[0] += 1
            if c[0] != 'ok':
                raise Violation('wire-not-frames', '%s %s: frame %d on the wire is %s' % (proc.name, ep.cid, i, c[:2]))
            if i == 0:
                if c[1] != 'version':
                    raise Violation('wire-order', '%s %s: the first frame is %s' % (proc.name, ep.cid, c[1]))
                continue
            w_ = want[st[1]] if st[1] < len(want) else None
            if w_ is not None and c[1] == w_[0] and (w_[1] is None or same_fields(c[1], c[2], w_[1])):
                st[1] += 1
                continue
            if c[1] in ('getaddr', 'ping'):
                continue                  # the node's own maintenance
            raise Violation('wire-not-queued', '%s %s: frame %d on the wire is %s, the next queued one is %s' % (
                proc.name, ep.cid, i, fmt(c[1:3]), fmt(w_)))
    pos = {}

    def everything(proc, node, where):
        for peer in node.peers:
            ep = getattr(peer.socket, 'ep', None)
            if ep is not None:
                if ep not in known:
                    known[ep] = peer
                count(proc, peer, ep, where)
        for ep, peer in known.items():
            if ep.host is proc.host:
                count(proc, peer, ep, where)
                prefix(proc, ep)
    known = {}

    def attach(proc):
        def each(node):
            everything(proc, node, 'at the start of the loop')

        def msg(node, peer, rec, name, kw):
            count(proc, peer, rec.ep, 'in handler ' + name)
            if name == 'version':
                q(rec.ep).append(('verack', None))
            elif name == 'ping':
                q(rec.ep).append(('pong', dict(nonce=kw['nonce'])))
            elif name == 'get_address':
                q(rec.ep).append(('addr', None))

        def after(node, peer, rec, name, kw):
            count(proc, peer, rec.ep, 'after handler ' + name)
            if later and proc is n1:
                later.pop()(node, peer, rec.ep)
        proc.on('loop', each)
        proc.on('message', msg)
        proc.on('after_message', after)
        proc.on('disconnected', lambda node, peer, rec: count(proc, peer, rec.ep, 'when disconnected'))
        proc.on('connected', lambda node, peer, rec: count(proc, peer, rec.ep, 'when connected'))
        proc.on('invalid', lambda node, peer, rec, x: count(proc, peer, rec.ep, 'when invalid'))
    for p in procs:
        attach(p)
    NO = ('version', 'verack', 'ping', 'pong', 'getaddr', 'addr')
    cmds = [c for c in ALL_CMDS if c not in NO]

    def send(r, peer, ep, n):
        for _ in range(n):
            cmd = r.choice(cmds)
            f = S.rnd_fields(r, cmd, r.random() < 0.1)
            peer.send_message(S.build_message(ctx.ns, cmd, f))
            q(ep).append((cmd, f))

    def do_op(o):
        r = random.Random(o['s'])
        kind = o['op']
        if kind == 'inhandler':
            later.append(lambda node, peer, ep: send(r, peer, ep, o['n']))
            return
        if kind in ('out', 'remove'):
            def go(node):
                if not node.peers:
                    return
                p = r.choice(sorted(node.peers, key=lambda x: x.address))
                ep = getattr(p.socket, 'ep', None)
                if kind == 'out':
                    send(r, p, ep, o['n'])
                else:
                    node.remove_peer(p.address)
            r.choice(procs).do(go)
            return
        c = conns.get(o['c'])
        if c is None or not c.live():
            return
        if kind == 'in':
            for _ in range(o['n']):
                cmd = r.choice(cmds)
                c.msg(cmd, **S.rnd_fields(r, cmd, r.random() < 0.1))
        elif kind == 'ping':
            for _ in range(o['n'] * 3):
                c.msg('ping', nonce=S.rnd_bytes(r, 8))
        elif kind == 'getaddr':
            c.msg('getaddr')
        elif kind == 'junk':
            c.send(P.frame_raw('junk', S.rnd_bytes(r, r.randrange(50))) + P.frame_raw('ping', b'123'))
        elif kind == 'fin':
            k.fault('peer-close')
            c.close()
        elif kind == 'rst':
            c.abort()
        elif kind == 'closewr':
            k.fault('peer-close')
            c.ep.shutdown_wr()
    for o in plan['ops']:
        k.at(int(o['t'] * SEC), do_op, o)
    schedule_faults(ctx, w, plan['faults'], None, lambda i: conns.get(i))
    for p in procs:
        p.start()
    w.run(int((plan['dur'] + 100) * SEC))
    for p in procs:
        p.require_serving()
    calm(net)
    for c in conns.values():
        c.rate = None
        c.reading = True
        c.on_net(c.ep)
    w.run_for(320 * SEC)
    drain(k, list(conns.values()))

    def behind():
        for p in procs:
            for ep in list(known):
                if ep.host is p.host and not (ep.app_closed or ep.gone or ep.err or ep.eof or ep.why) and ep.established:
                    prefix(p, ep)
                    if pos.get(ep, [0, 0])[1] != len(queued.get(ep, [])):
                        return True
        return False
    k.run_until(lambda: not behind(), k.now + 3000 * SEC, 5 * SEC)
    for p in procs:
        p.require_serving()
        everything(p, p.node, 'at the end')
        for ep, peer in known.items():
            if ep.host is not p.host or ep.app_closed or ep.gone or ep.err or ep.eof or ep.why or not ep.established:
                continue
            src = ep.peer.owner
            if isinstance(src, S.RefConn) and was_cut(src):
                continue
            if pos.get(ep, [0, 0])[1] != len(queued.get(ep, [])):
                raise Violation('queued-not-sent', '%s %s: %d messages queued, %d on the wire' % (
                    p.name, ep.cid, len(queued.get(ep, [])), pos.get(ep, [0, 0])[1]))
        k.probe('bytes-in', sum(ep.handed_total for ep in known))
        k.probe('bytes-out', sum(ep.accepted_total for ep in known))
