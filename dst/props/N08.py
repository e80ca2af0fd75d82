"""N08: a banned peer stays out for an hour."""
import random

from .common import *

HOUR = 3600.0


def gen(r, tier, i):
    dur = r.choice((60, 400, 5000, 9000))
    nip = r.choice((1, 2, 3, 4))
    ops = []
    for _ in range(r.choice((3, 10, 25))):
        ops.append(dict(t=round(r.uniform(0.3, dur if r.random() < 0.5 else min(dur, 60)), 3), p=r.randrange(nip),
                        op=r.choice(('in', 'in', 'dial', 'bad', 'bad', 'bad', 'drip', 'punish', 'punish', 'remove', 'garbage')),
                        n=r.choice((1, 2, 3, 5, 5, 6, 6, 7, 12)), gap=r.choice((0.01, 4, 9, 11)), s=r.getrandbits(32)))
    crowd = r.random() < 0.03
    if crowd:                                   # bans of very many addresses at the same time
        nip, dur = r.choice((40, 130, 270)), r.choice((400, 2500, 5000))
        ops = [dict(t=round(0.3 + x * r.choice((0.01, 0.05, 0.3)) * r.random(), 3), p=x, op='bad', n=7, gap=1, s=r.getrandbits(32)) for x in range(nip)]
        ops += [dict(t=round(r.uniform(60, dur), 3), p=r.choice((0, 1, nip - 1, r.randrange(nip))), op='in', n=1, gap=1, s=r.getrandbits(32)) for _ in range(40)]
    faults = []
    for _ in range(r.choice((0, 0, 1, 3))):
        kind = r.choice(('stall', 'clock', 'clock', 'rst', 'fin'))
        f = dict(t=round(r.uniform(0, dur), 3), kind=kind)
        if kind == 'stall':
            f.update(host='n1', dur=r.choice((1, 15, 40)))
        elif kind == 'clock':
            f.update(host='n1', delta=r.choice((-4000, -100, -5, 5, 11, 60, 1800, 3590, 3601)))
        else:
            f.update(conn=r.randrange(nip))
        faults.append(f)
    probes = [round(r.choice((0.001, 0.5, 5, 60, 1800, 3500, 3590, 3597, 3599, 3599.9, 3600.1, 3601, 3606, 3700, 5400, 7000)) *
                    r.choice((1, 1, 1, r.random())), 3) for _ in range(r.choice((2, 4, 8)))]
    return dict(nip=nip, ops=sort_t(ops), faults=faults, probes=probes, dur=dur, net=net_swarm(r, spurious=True, late=True),
                s=r.getrandbits(32))


SHRINK = ('probes',)


def run(ctx):
    plan, k = ctx.plan, ctx.k
    w = ctx.world()
    net = w.net
    n1 = w.node('n1', NODE_IP, PORT, seek_peers=0, bootstrap=False)
    host = n1.host
    ips = ['10.0.%d.%d' % (1 + j // 200, j % 200 + 1) for j in range(plan['nip'])]
    peers = [w.peer('p%d' % j, ips[j], port=PORT) for j in range(plan['nip'])]
    conns = {j: [] for j in range(plan['nip'])}
    for j, p in enumerate(peers):
        p.on('accepted', lambda c, j=j: conns[j].append(c))
    bans = {}                # ip -> [clock at ban, highest clock seen since]
    model = {}               # id(peer) -> score
    ended_by_user = set()
    hb = dict(last=None, ref=None, stuck=0, prev=None)

    def clock():
        t = host.wall()
        for b in bans.values():
            b[1] = max(b[1], t)
        return t

    def tidy(node):
        # forget peers whose connection is gone, before reading scores
        clock()

    def punish(node, peer):
        if id(peer) not in model:
            model[id(peer)] = 0
        if peer.banscore != model[id(peer)]:
            settle(node)
        if peer.banscore != model[id(peer)]:
            raise Violation('score', 'peer %s has score %r, expected %d' % (peer.address, peer.banscore, model[id(peer)]))
        was = any(q is peer for q in node.peers)
        if model[id(peer)] + 1 > 5:
            bans[peer.ip] = [host.wall(), host.wall()]
            k.probe('bans')
            ended_by_user.add(getattr(peer.socket, 'ep', None))
            schedule_probes(peer.ip)
        node.punish_peer(peer)
        model[id(peer)] += 1
        if peer.banscore != model[id(peer)]:
            raise Violation('score', 'a punished peer has score %r, expected %d' % (peer.banscore, model[id(peer)]))
        now = any(q is peer for q in node.peers)
        ep = rec_ep.get(id(peer))
        if model[id(peer)] > 5:
            if now or (ep is not None and not ep.app_closed):
                raise Violation('banned-not-disconnected', 'peer %s has score %d and is still connected' % (peer.address, model[id(peer)]))
        elif was and not now:
            raise Violation('dropped-below-limit', 'peer %s was dropped at score %d' % (peer.address, model[id(peer)]))
    rec_ep = {}
    keep = []

    def settle(node):
        """Has a heartbeat lowered the scores since we last looked?"""
        listed = [p for p in node.peers]
        low, same = [], []
        for p in listed:
            m = model.get(id(p))
            if m is None:
                model[id(p)] = m = 0
                keep.append(p)
                rec_ep[id(p)] = getattr(p.socket, 'ep', None)
                if p.banscore != 0:
                    raise Violation('score', 'a new peer has score %r' % p.banscore)
                continue
            if m == 0:
                if p.banscore != 0:
                    raise Violation('score', 'the score of %s is %r, expected 0' % (p.address, p.banscore))
            elif p.banscore == m - 1:
                low.append(p)
            elif p.banscore == m:
                same.append(p)
            else:
                raise Violation('score', 'the score of %s is %r, expected %d or %d' % (p.address, p.banscore, m, m - 1))
        if low and same:
            raise Violation('uneven-decay', 'a heartbeat lowered the score of %s but not of %s' % (low[0].address, same[0].address))
        if low:
            t = hb['prev'] if hb['prev'] is not None else host.wall()
            if hb['last'] is not None and not t - hb['last'] > 10 - 0.001:
                raise Violation('decay-too-often', 'scores were lowered twice within %.3f s' % (t - hb['last']))
            hb['last'] = t
            hb['ref'] = max(hb['ref'] or 0, t)
            hb['stuck'] = 0
            k.probe('decays')
            for p in low:
                model[id(p)] -= 1
        return bool(same)

    def each(node):
        t = clock()
        some = settle(node)
        if not some:
            hb['ref'] = max(hb['ref'] or 0, t)
            hb['stuck'] = 0
        elif hb['ref'] is None or t - hb['ref'] > 10 + 0.001:
            hb['stuck'] += 1
            if hb['stuck'] > 3:
                raise Violation('no-decay', 'scores were not lowered for %.1f s' % (t - (hb['ref'] or 0)))
        hb['prev'] = t
        for ep, verdict, at in pending:
            if verdict == 'refuse':
                if not ep.app_closed or ep.wire_tx or any(getattr(p.socket, 'ep', None) is ep for p in node.peers):
                    raise Violation('banned-accepted', 'a connection from %s was accepted %.3f s (node clock) after its ban' % (
                        ep.remote[0], ep.accept_wall - at))
                k.probe('refusals')
            else:
                if ep.app_closed and ep in unhealthy_closed(False) and ep not in ended_by_user:
                    raise Violation('unbanned-refused', 'a connection from %s was refused, %s' % (
                        ep.remote[0], 'it was never banned' if at is None else 'its ban is %.3f s old' % (ep.accept_wall - at)))
                k.probe('admissions')
        del pending[:]
    pending = []

    def unhealthy_closed(h):
        return [ep for ep, healthy in net.close_log if healthy]

    def on_accept(ep):
        if ep.host is not host:
            return
        t = clock()
        b = bans.get(ep.remote[0])
        if b is None:
            pending.append((ep, 'admit', None))
        elif t >= b[0] + HOUR + 0.001:
            pending.append((ep, 'admit', b[0]))
            del bans[ep.remote[0]]
        elif t < b[0] + HOUR - 0.001 and b[1] < b[0] + HOUR - 0.001:
            pending.append((ep, 'refuse', b[0]))
    net.on_accept = on_accept
    n1.on('loop', each)
    depth = [0]

    def on_msg(node, peer, rec, name, kw):
        settle(node)
        if name == 'inventory':
            punish(node, peer)

    def on_invalid(node, peer, rec, payload):
        settle(node)
        punish(node, peer)
    n1.on('message', on_msg)
    n1.on('invalid', on_invalid)
    done_probes = [0]

    def schedule_probes(ip):
        if ip not in ips:
            raise Violation('wrong-address', 'a punished peer reports the address %r' % (ip,))
        j = ips.index(ip)
        for off in plan['probes'][:max(0, 40 - done_probes[0])]:
            done_probes[0] += 1
            k.after(int(off * SEC), lambda: connect(j))
        other = (j + 1) % plan['nip']
        if plan['nip'] < 10 or j % 20 == 0:
            k.after(1 * SEC, lambda: connect(other))

    def connect(j):
        conns[j].append(peers[j].connect((NODE_IP, PORT)))

    def do_op(o):
        r = random.Random(o['s'])
        j, kind = o['p'], o['op']
        live = [c for c in conns[j] if c.live()]
        if kind == 'in':
            connect(j)
        elif kind == 'dial':
            n1.do(lambda node: node.add_peer((peers[j].ip, PORT)))
        elif kind in ('bad', 'drip', 'garbage'):
            if not live:
                connect(j)
                k.after(1 * SEC, do_bad, o, r, None)
            else:
                do_bad(o, r, r.choice(live))
        elif kind in ('punish', 'remove'):
            def go(node):
                c = [p for p in node.peers if p.ip == peers[j].ip]
                if not c:
                    return
                p = r.choice(sorted(c, key=lambda x: x.address))
                settle(node)
                if kind == 'remove':
                    ended_by_user.add(getattr(p.socket, 'ep', None))
                    node.remove_peer(p.address)
                else:
                    for _ in range(o['n']):
                        punish(node, p)
            n1.do(go)

    def do_bad(o, r, c):
        if c is None:
            live = [x for x in conns[o['p']] if x.live()]
            if not live:
                return
            c = r.choice(live)
        one = P.frame('inv', dict(inventory=[]))
        if o['op'] == 'garbage':
            one = P.frame_raw('nonsense', b'x')
        if o['op'] == 'drip':
            for x in range(o['n']):
                k.after(int(x * o['gap'] * SEC), lambda: c.live() and c.send(one))
        else:
            c.send(one * o['n'])
    for o in plan['ops']:
        k.at(int(o['t'] * SEC), do_op, o)

    def pick(i):
        live = [c for c in conns[i % plan['nip']] if c.live()]
        return live[0] if live else None
    schedule_faults(ctx, w, plan['faults'], None, pick)
    n1.start()
    w.run(int((plan['dur'] + 30) * SEC))
    n1.require_serving()
    idle = set(ep for ep, h in net.close_log if ep.close_wall - (ep.last_rx_wall or ep.made_wall) > 10799)
    drops(w, n1, idle | ended_by_user | set(ep for ep in n1.endpoints() if not ep.wire_tx))
