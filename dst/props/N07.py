"""N07: the peer set has no duplicates, no self and respects its limits."""
import errno
import random

from .common import *


def gen(r, tier, i):
    dur = r.choice((60, 200, 600))
    npeer = r.choice((3, 6, 12, 30))
    peers = []
    for j in range(npeer):
        peers.append(dict(kind=r.choice(('good', 'good', 'good', 'good', 'refuse', 'black', 'acceptrst', 'acceptfin', 'shortlived', 'imm')),
                          life=round(r.uniform(0.01, 40), 3), knows=r.random() < 0.6, same=r.random() < 0.3, s=r.getrandbits(32)))
    ops = []
    for _ in range(r.choice((4, 12, 30))):
        ops.append(dict(t=round(r.uniform(0.2, dur), 3), s=r.getrandbits(32), p=r.randrange(npeer),
                        op=r.choice(('in', 'in', 'insame', 'add', 'add', 'addname', 'addself', 'adddup', 'addnf', 'addnf', 'remove', 'punish',
                                     'gossip', 'gossip', 'gossip', 'fin', 'rst', 'inhandler'))))
    faults = []
    for _ in range(r.choice((0, 0, 1, 3))):
        kind = r.choice(('stall', 'cut', 'clock', 'clock'))
        f = dict(t=round(r.uniform(0, dur), 3), kind=kind)
        if kind == 'stall':
            f.update(host='n1', dur=r.choice((1, 15, 40)))
        elif kind == 'clock':
            f.update(host='n1', delta=r.choice((-100, 5, 9, 11, 60, 4000)))
        else:
            f.update(a='n1', b='p%d' % r.randrange(npeer), dur=r.choice((1, 30, 300)))
        faults.append(f)
    return dict(peers=peers, ops=sort_t(ops), faults=faults, net=net_swarm(r, eagain=False, late=True), dur=dur,
                seek=r.choice((0, 1, 2, 4, 7, 16)), max=r.choice((2, 4, 6, 125)), boot=r.choice((0, 0, 1, 3)),
                listen=r.random() < 0.85, s=r.getrandbits(32))


SHRINK = ('peers',)


def run(ctx):
    plan, k = ctx.plan, ctx.k
    w = ctx.world()
    net = w.net
    r0 = random.Random(plan['s'])
    npeer = len(plan['peers'])
    pip = lambda j: '10.0.%d.%d' % (1 + j // 200, j % 200 + 1)
    seeds = []
    for j in range(plan['boot']):
        q = r0.randrange(max(1, npeer))
        seeds.append((r0.choice((pip(q), 'seed%d.example' % q)), PORT))
        if seeds[-1][0].startswith('seed') and r0.random() < 0.8:
            net.dns[seeds[-1][0]] = pip(q)
    n1 = w.node('n1', NODE_IP, PORT if plan['listen'] else None, seek_peers=plan['seek'], max_peers=plan['max'],
                bootstrap=bool(plan['boot']), seeds=seeds)
    host = n1.host
    user = [0]
    imm = set()
    state = dict(group=0, opens=[], peers0=0, groups=[])
    peers, conns = [], {}
    for j, pd in enumerate(plan['peers']):
        kind = pd['kind']
        p = w.peer('p%d' % j, pip(j), port=None if kind == 'refuse' else PORT)
        if kind == 'black':
            net.blackhole.add((pip(j), PORT))
        if kind == 'imm':
            imm.add((pip(j), PORT))

        def acc(c, j=j, kind=kind, pd=pd):
            conns.setdefault(j, []).append(c)
            if kind == 'acceptrst':
                k.after(int(pd['life'] * 1000), c.abort)
            elif kind == 'acceptfin':
                k.after(int(pd['life'] * 1000), c.close)
            elif kind == 'shortlived':
                k.after(int(pd['life'] * SEC), c.close)
        p.on('accepted', acc)

        def frame(c, cl, fr, j=j, pd=pd):
            if cl[0] == 'ok' and cl[1] == 'getaddr' and pd['knows']:
                c.msg('addr', addr_list=addrs(random.Random(pd['s'])))
        p.on('frame', frame)
        peers.append(p)
    net.immediate_connect_error = lambda h, addr: errno.ENETUNREACH if h is host and addr in imm else 0

    def own():
        return tuple(n1.node.address) if n1.node is not None else (NODE_IP, PORT)

    def addrs(r):
        out = []
        for _ in range(r.choice((1, 3, 8, 60))):
            q = r.random()
            if q < 0.15:
                a = own()
            elif q < 0.25:
                a = ('10.77.0.%d' % r.randrange(1, 5), PORT)
            elif npeer:
                a = (pip(r.randrange(npeer)), PORT)
            else:
                continue
            out.append(dict(timestamp=r.randrange(1600000000, 1800000000), services=1, address=a[0], port=a[1]))
        return out

    # every connection the node opens, as the network sees it
    orig = net.start_connect

    def start_connect(h, local, remote, owner):
        if h is host:
            node = n1.node
            for s in host.fds.values():
                if s is not owner and s.ep is not None and s.ep.remote == remote:
                    raise Violation('second-connection', 'the node opens a connection to %s:%d while it has one (%s)' % (
                        remote[0], remote[1], s.ep.cid))
            for l in host.fds.values():
                if l.listener is not None and l.listener.open and l.local == remote:
                    raise Violation('connects-to-itself', 'the node connects to its own listening address %s:%d' % remote)
            if not user[0]:
                n = sum(1 for p in node.peers if getattr(p, 'socket', None) is not owner) if node is not None else 0
                state['opens'].append(k.now)
                if len(state['opens']) > 5:
                    raise Violation('more-than-five', 'maintenance opened %d connections in one heartbeat' % len(state['opens']))
                if n >= plan['seek']:
                    raise Violation('opens-too-many', 'maintenance opens a connection although the node has %d peers and seeks %d' % (
                        n, plan['seek']))
                if len(state['opens']) == 1:
                    t = host.wall()
                    if state['groups'] and not t - state['groups'][-1] > 10 - 0.001:
                        raise Violation('heartbeat-too-soon', 'maintenance opened connections %.3f s after its last heartbeat' % (
                            t - state['groups'][-1]))
                    state['groups'].append(t)
            k.probe('user-opens' if user[0] else 'auto-opens')
        return orig(h, local, remote, owner)

    def start_connect_guarded(h, local, remote, owner):
        try:
            return start_connect(h, local, remote, owner)
        except Violation as e:
            k.set_fatal(e)
            return orig(h, local, remote, owner)
    net.start_connect = start_connect_guarded

    ended = {}

    def each(node):
        state['opens'] = []
        listed = node.peers
        ids = [id(p) for p in listed]
        if len(ids) != len(set(ids)):
            raise Violation('listed-twice', 'a peer is listed twice')
        seen = {}
        for p in listed:
            ep = getattr(p.socket, 'ep', None)
            a = tuple(p.address)
            if a in seen and ep is not None and ep.side == 'c' and seen[a] == 'c':
                raise Violation('duplicate-peer', 'two listed peers have the address %s:%d' % a)
            seen[a] = ep.side if ep is not None else None
            rec = n1.by_peer.get(id(p))
            if rec is not None and rec.disconnected:
                raise Violation('disconnected-but-listed', 'peer %s is listed after its disconnected callback' % (a,))
            if ep is not None and (ep.app_closed or ((ep.eof or ep.err or ep.gone) and not ep.rbuf)):
                ended[ep] = ended.get(ep, 0) + 1
                if ended[ep] >= 4:
                    raise Violation('ended-but-listed', 'the connection %s ended and its peer is still listed' % ep.cid)
        socks = set(getattr(p.socket, 'ep', None) for p in listed)
        for s in host.fds.values():
            if s.ep is not None and s.ep not in socks:
                late = ended.setdefault((s.ep, 'leak'), 0)
                ended[(s.ep, 'leak')] += 1
                if late >= 3:
                    raise Violation('open-but-unlisted', 'the node holds connection %s open, its peer is not listed' % s.ep.cid)
        for ep in n1.endpoints():
            if ep in known and ep not in socks and ep not in done:
                rec = rec_of(n1, ep)
                done[ep] = done.get(ep, 0)
                if rec is None or not rec.disconnected:
                    raise Violation('no-disconnected-callback', 'connection %s ended, the disconnected callback did not run' % ep.cid)
        for p in listed:
            ep = getattr(p.socket, 'ep', None)
            if ep is not None:
                known.add(ep)
    known, done = set(), {}
    n1.on('loop', each)

    def on_disc(node, peer, rec):
        if any(p is peer for p in node.peers):
            raise Violation('disconnected-while-listed', 'the disconnected callback ran for %s, which is still listed' % (peer.address,))
    n1.on('disconnected', on_disc)

    def as_user(fn):
        def go(node):
            user[0] += 1
            try:
                fn(node)
            finally:
                user[0] -= 1
        return go

    def add(node, addr, force):
        before = len(node.peers)
        n = net.conn_count.copy()
        listed = [id(q) for q in node.peers]
        res = node.add_peer(addr, force)
        if not res and [q for q in node.peers if id(q) not in listed]:
            raise Violation('failed-but-listed', 'add_peer failed and left a peer listed')
        opened = net.conn_count != n
        if not force and before >= plan['max'] and (opened or res):
            raise Violation('over-maximum', 'a non-forced add_peer opened a connection with %d peers (maximum %d)' % (before, plan['max']))
    later = []

    def do_op(o):
        r = random.Random(o['s'])
        kind, j = o['op'], o['p']
        if j >= npeer:
            return
        p = peers[j]
        a = (pip(j), PORT)
        if kind in ('in', 'insame'):
            if kind == 'insame':
                if net.port_busy(p.host, PORT):
                    return
                c = p.connect(own(), PORT) if plan['listen'] else None
            else:
                c = p.connect(own()) if plan['listen'] else None
            if c is not None:
                conns.setdefault(j, []).append(c)
        elif kind == 'gossip':
            live = [c for cs in conns.values() for c in cs if c.live()]
            if live:
                r.choice(live).msg('addr', addr_list=addrs(r))
        elif kind in ('fin', 'rst'):
            live = [c for c in conns.get(j, ()) if c.live()]
            if live:
                k.fault('peer-close')
                (live[0].close if kind == 'fin' else live[0].abort)()
        elif kind == 'add':
            n1.do(as_user(lambda node: add(node, a, True)))
        elif kind == 'addnf':
            n1.do(as_user(lambda node: add(node, a, False)))
        elif kind == 'adddup':
            n1.do(as_user(lambda node: (add(node, a, True), add(node, a, True), add(node, a, False))))
        elif kind == 'addname':
            nm = 'host%d.example' % j
            if r.random() < 0.8:
                net.dns[nm] = pip(j)
            n1.do(as_user(lambda node: (add(node, (nm, PORT), r.random() < 0.5))))
        elif kind == 'addself':
            n1.do(as_user(lambda node: add(node, own(), True)))
        elif kind == 'inhandler':
            later.append(lambda node: add(node, a, r.random() < 0.5))
        elif kind in ('remove', 'punish'):
            def go(node):
                if not node.peers:
                    return
                q = r.choice(sorted(node.peers, key=lambda x: x.address))
                if kind == 'remove':
                    node.remove_peer(q.address)
                else:
                    for _ in range(6):
                        node.punish_peer(q)
            n1.do(as_user(go))

    def in_handler(node, peer, rec, name, kw):
        while later:
            as_user(later.pop())(node)
    n1.on('message', in_handler)
    for o in plan['ops']:
        k.at(int(o['t'] * SEC), do_op, o)
    schedule_faults(ctx, w, plan['faults'], None, lambda i: None)
    n1.start()
    w.run(int((plan['dur'] + 60) * SEC))
    n1.require_serving()
    w.run_for(200 * SEC)
    n1.require_serving()
    k.probe('peers-at-end', len(n1.node.peers))
