"""N10: a lying minority cannot change the node's idea of its address."""
import random

from .common import *


def gen(r, tier, i):
    dur = r.choice((20, 100, 400))
    npeer = r.choice((1, 3, 5, 9))
    truth = '5.5.5.5'
    pool = [truth, '6.6.6.6', '6.6.6.7', '10.0.0.1', '127.0.0.1', '0.0.0.0', '2001:db8::77', '200.1.1.1', '100.1.1.1', '9.9.9.9']
    lies = r.sample(pool, r.choice((1, 2, 4)))
    peers = [dict(dial=r.random() < 0.4, t=round(r.uniform(0.3, dur * 0.7), 3), says=r.choice([truth] + lies),
                  n=r.choice((1, 1, 1, 2, 3))) for _ in range(npeer)]
    ops = []
    for _ in range(r.choice((4, 12, 30))):
        ops.append(dict(t=round(r.uniform(0.5, dur), 3), p=r.randrange(npeer), says=r.choice([truth] + lies),
                        op=r.choice(('in', 'in', 'dial', 'fin', 'rst', 'remove', 'again', 'set', 'unset', 'fresh', 'fresh')),
                        s=r.getrandbits(32)))
    if r.random() < 0.6:
        ops = [o for o in ops if o['op'] not in ('set', 'unset')]
    faults = []
    for _ in range(r.choice((0, 0, 1, 3))):
        kind = r.choice(('stall', 'cut', 'rst', 'clock'))
        f = dict(t=round(r.uniform(0, dur), 3), kind=kind)
        if kind == 'stall':
            f.update(host='n1', dur=r.choice((1, 20)))
        elif kind == 'clock':
            f.update(host='n1', delta=r.choice((-5000, 400)))
        elif kind == 'cut':
            f.update(a='n1', b='p%d' % r.randrange(npeer), dur=r.choice((1, 30, 300)))
        else:
            f.update(conn=r.randrange(npeer))
        faults.append(f)
    return dict(peers=peers, ops=sort_t(ops), faults=faults, net=net_swarm(r, spurious=True, late=True), dur=dur)


SHRINK = ('peers',)


def run(ctx):
    plan, k = ctx.plan, ctx.k
    w = ctx.world()
    net = w.net
    n1 = w.node('n1', NODE_IP, PORT, seek_peers=0, bootstrap=False)
    host = n1.host
    conns = {}
    peers = []
    norm = lambda a: None if a is None else P.norm_ip(P.tob(a).decode('latin-1'))

    def version(p, says):
        v = dict(p.version)
        v['addr_recv'] = dict(v['addr_recv'], address=says)
        return v
    for j, pd in enumerate(plan['peers']):
        p = w.peer('p%d' % j, '10.0.1.%d' % (j + 1), port=PORT if pd['dial'] else None)
        p.says = pd['says']
        p.make_version = lambda c, p=p: version(p, p.says)
        peers.append(p)
        p.on('open', lambda c, j=j: conns.setdefault(j, []).append(c))

        def go(p=p, pd=pd):
            if pd['dial']:
                n1.do(lambda node: node.add_peer((p.ip, p.port)))
            else:
                for _ in range(pd['n']):
                    p.connect((NODE_IP, PORT))
        k.at(int(pd['t'] * SEC), go)
    state = dict(explicit=None, valid=norm(NODE_IP), versions=0)
    says = {}               # node-side ep -> address last reported on it
    wire = Wire()
    expect = {}             # ep -> address the node must announce there

    def on_version(node, peer, rec):
        vs = [c for c in wire.handed(rec.ep) if c[0] == 'ok' and c[1] == 'version']
        n = len(rec.connected)
        if n <= len(vs):
            says[rec.ep] = norm(vs[n - 1][2]['addr_recv']['address'])
    n1.on('connected', on_version)

    def votes(node):
        c = {}
        for p in node.peers:
            ep = getattr(p.socket, 'ep', None)
            if ep is not None and not ep.app_closed and ep in says:
                c[says[ep]] = c.get(says[ep], 0) + 1
        return c

    def best(node):
        c = votes(node)
        m = max(c.values()) if c else 0
        return set(a for a in c if c[a] == m), c

    def after(node, peer, rec):
        ext = norm(node.external_ip)
        b, c = best(node)
        state['versions'] += 1
        k.probe('votes')
        if len(c) > 1:
            k.probe('contested-votes')
        if state['explicit'] is not None:
            if ext != state['explicit']:
                raise Violation('explicit-ip-lost', 'the external IP was set to %s and is %s' % (state['explicit'], ext))
            return
        if b and ext not in b:
            raise Violation('not-the-majority', 'the external IP is %s, connected peers report %s' % (ext, sorted(c.items())))
        state['valid'] = ext
    n1.on('after_connected', after)

    def each(node):
        ext = norm(node.external_ip)
        if state['explicit'] is not None:
            if ext != state['explicit']:
                raise Violation('explicit-ip-lost', 'the external IP was set to %s and is %s' % (state['explicit'], ext))
        elif state['valid'] is not None and ext != state['valid'] and ext not in best(node)[0]:
            raise Violation('not-the-majority', 'the external IP changed to %s by itself' % ext)
        for ep in n1.endpoints():
            check(ep)
    n1.on('loop', each)

    def check(ep):
        if ep in expect and expect[ep] is not None:
            got = wire.taken(ep)
            if got:
                if got[0][0] != 'ok' or got[0][1] != 'version':
                    return
                a = norm(got[0][2]['addr_from']['address'])
                if a != expect[ep]:
                    raise Violation('announces-other-ip', 'the node announced %s on %s, its external IP was %s' % (a, ep.cid, expect[ep]))
                k.probe('announcements')
                expect[ep] = None

    def on_accept(ep):
        if ep.host is host and n1.node is not None:
            expect[ep] = norm(n1.node.external_ip)
    net.on_accept = on_accept
    orig = net.start_connect

    def start_connect(h, local, remote, owner):
        ep = orig(h, local, remote, owner)
        if h is host and n1.node is not None:
            expect[ep] = norm(n1.node.external_ip)
        return ep
    net.start_connect = start_connect
    nfresh = [0]

    def do_op(o):
        r = random.Random(o['s'])
        j, kind = o['p'], o['op']
        if j >= len(peers):
            return
        p = peers[j]
        live = [c for c in conns.get(j, ()) if c.live()]
        if kind == 'in':
            p.says = o['says']
            p.connect((NODE_IP, PORT))
        elif kind == 'fresh':
            nfresh[0] += 1
            f = w.peer('f%d' % nfresh[0], '10.0.4.%d' % nfresh[0], port=PORT)
            f.make_version = lambda c: version(f, o['says'])
            f.on('open', lambda c: conns.setdefault(j, []).append(c))
            if r.random() < 0.5:
                f.connect((NODE_IP, PORT))
            else:
                n1.do(lambda node: node.add_peer((f.ip, PORT)))
        elif kind == 'dial':
            n1.do(lambda node: node.add_peer((p.ip, PORT)))
        elif kind == 'again':
            if live:
                r.choice(live).msg('version', **version(p, o['says']))
        elif kind in ('fin', 'rst'):
            if live:
                k.fault('peer-close')
                c = r.choice(live)
                (c.close if kind == 'fin' else c.abort)()
        elif kind == 'remove':
            def go(node):
                if node.peers:
                    node.remove_peer(r.choice(sorted(node.peers, key=lambda q: q.address)).address)
            n1.do(go)
        elif kind == 'set':
            def go(node):
                node.external_ip = o['says']
                state['explicit'] = norm(o['says'])
            n1.do(go)
        elif kind == 'unset':
            def go(node):
                node.external_ip = None
                state['explicit'] = None
                state['valid'] = None
            n1.do(go)
    for o in plan['ops']:
        k.at(int(o['t'] * SEC), do_op, o)

    def pick(i):
        live = [c for c in conns.get(i, ()) if c.live()]
        return live[-1] if live else None
    schedule_faults(ctx, w, plan['faults'], None, pick)
    n1.start()
    w.run(int((plan['dur'] + 310) * SEC))
    n1.require_serving()
    for ep in n1.endpoints():
        check(ep)
