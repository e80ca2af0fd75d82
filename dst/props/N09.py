"""N09: address gossip is truthful, bounded and freshest first."""
import random

from .common import *

CAP = 2500
ASK = 1000


def gen(r, tier, i):
    dur = r.choice((20, 100, 400))
    npeer = r.choice((1, 2, 4))
    big = r.random() < 0.15
    peers = [dict(dial=r.random() < 0.4, t=round(r.uniform(0.3, dur / 4.0), 3), knows=r.random() < 0.4,
                  same=r.random() < 0.3, late=r.choice((None,) * 6 + (0.3, 20, 9999)), s=r.getrandbits(32)) for _ in range(npeer)]
    ops = []
    for _ in range(r.choice((4, 12, 30))):
        o = dict(t=round(r.uniform(0.5, dur), 3), p=r.randrange(npeer), s=r.getrandbits(32),
                 op=r.choice(('addr', 'addr', 'addr', 'getaddr', 'getaddr', 'getaddr', 'reconnect', 'fin', 'rst', 'remove', 'verack',
                              'version', 'dialdead', 'twice')))
        if o['op'] == 'addr':
            o['n'] = r.choice((400, 1001, 1300, 2600)) if big else r.choice((0, 1, 3, 20, 60))
        ops.append(o)
    faults = []
    for _ in range(r.choice((0, 0, 1, 3))):
        kind = r.choice(('stall', 'cut', 'clock', 'pause'))
        f = dict(t=round(r.uniform(0, dur), 3), kind=kind)
        if kind == 'stall':
            f.update(host='n1', dur=r.choice((1, 20)))
        elif kind == 'clock':
            f.update(host='n1', delta=r.choice((-5000, -30, 5, 400)))
        elif kind == 'cut':
            f.update(a='n1', b='p%d' % r.randrange(npeer), dur=r.choice((1, 30, 300)))
        else:
            f.update(conn=r.randrange(npeer), dur=r.choice((5, 60)))
        faults.append(f)
    net = net_swarm(r, spurious=True, late=True)
    if big:
        net.pop('seg', None), net.pop('short_send', None), net.pop('short_recv', None), net.pop('rcvcap', None), net.pop('sndcap', None)
    return dict(peers=peers, ops=sort_t(ops), faults=faults, net=net, dur=dur, two=r.random() < 0.3,
                seek=r.choice((0, 0, 0, 2, 5)), space=r.choice((30, 300, 20000)) if not big else 20000, s=r.getrandbits(32))


SHRINK = ('peers',)


def rnd_addr(r, plan):
    j = r.randrange(plan['space'])
    q = random.Random(j * 7 + plan['s'])
    if q.random() < 0.05:
        return (str(P.ip_text(bytes([0x20, 1] + [q.randrange(256) for _ in range(14)]))), q.randrange(1, 65536))
    if not plan['seek'] and q.random() < 0.03:          # whatever the peers say is what they say
        return q.choice((('20.0.0.%d' % (j % 4), 0), ('20.0.0.%d' % (j % 4), 65535), ('127.0.0.1', 1 + j % 5), ('0.0.0.0', 5),
                         ('192.168.1.%d' % (j % 9), PORT), ('255.255.255.255', 255), ('224.0.0.1', j % 7), (NODE_IP, j % 4)))
    if plan['space'] == 30 and j < 8:
        return ('10.0.1.%d' % (j % 5 + 1), PORT)
    # few IP addresses, many ports: the port is part of the identity
    return ('20.%d.%d.%d' % (j % 3, j // 256 % 256, j % 4), 1000 + j % 60000)


def run(ctx):
    plan, k = ctx.plan, ctx.k
    w = ctx.world()
    net = w.net
    procs = [w.node('n1', NODE_IP, PORT, seek_peers=plan['seek'], bootstrap=False)]
    if plan['two']:
        procs.append(w.node('n2', NODE2_IP, PORT, seek_peers=0, bootstrap=False))
    n1 = procs[0]
    conns = {}
    peers = []
    for j, pd in enumerate(plan['peers']):
        p = w.peer('p%d' % j, '10.0.1.%d' % (j + 1), port=PORT if pd['dial'] else None)
        p.version = S.rnd_fields(random.Random(pd['s']), 'version')
        peers.append(p)

        def opened(c, j=j, p=p, pd=pd):
            conns.setdefault(j, []).append(c)
            if pd['late'] is not None:
                k.fault('version-late')
                k.after(int(pd['late'] * SEC), lambda: c.live() and c.msg('version', **p.make_version(c)))
        if pd['late'] is not None:
            p.auto_version = False      # it acknowledges, its own version comes later (or never)
        p.on('open', opened)
        if pd['knows']:
            def frame(c, cl, fr, pd=pd):
                if cl[0] == 'ok' and cl[1] == 'getaddr':
                    r = random.Random(pd['s'])
                    c.msg('addr', addr_list=entries(r, r.choice((0, 2, 10, 55))))
            p.on('frame', frame)

        def go(p=p, pd=pd):
            if pd['dial']:
                n1.do(lambda node: node.add_peer((p.ip, p.port)))
            else:
                p.connect((NODE_IP, PORT), PORT if pd['same'] else None)
        k.at(int(pd['t'] * SEC), go)
    if plan['two']:
        k.at(700 * MS, lambda: n1.do(lambda node: node.add_peer((NODE2_IP, PORT))))

    tie = [random.Random(plan['s']).choice((3, 1000, 1 << 31))]

    def entries(r, n):
        return [dict(timestamp=1600000000 + r.randrange(min(tie[0], 200000000)) if r.random() < 0.95 else r.choice((0, 0xffffffff)),
                     services=r.choice((0, 1, 1, 1 << 63, r.getrandbits(64))), address=a[0], port=a[1])
                for a in (rnd_addr(r, plan) for _ in range(n))]

    class Model(object):
        pass
    models = {}
    wire = Wire()
    for proc in procs:
        m = models[proc] = Model()
        m.book = {}            # (normal ip, port) -> (timestamp, services)
        m.over = False
        m.gone = 0
        m.vague = set()        # acknowledged, services not told yet: given or not
        m.expect = {}          # ep -> list of expected snapshots

        def key(ip, port):
            return (P.norm_ip(P.tob(ip).decode('latin-1')), int(port))

        def learn(m, kk, val):
            m.vague.discard(kk)
            if len(m.book) + len(m.vague) >= CAP and kk not in m.book:
                if not m.over:
                    k.probe('book-full')
                m.over = True
            m.book[kk] = val

        def on_msg(node, peer, rec, name, kw, m=m, proc=proc):
            ep = rec.ep
            if name == 'address':
                # what arrived, from the wire itself
                for a in kw['addr_list']:
                    learn(m, key(a.address, a.port), (int(a.timestamp), int(a.services)))
            elif name == 'version_ack':
                vs = [c for c in wire.handed(ep) if c[0] == 'ok' and c[1] == 'version']
                nv = sum(1 for x in rec.msgs if x[1] == 'version')
                if nv:
                    learn(m, key(*peer.address), (ep.last_rx_wall, int(vs[nv - 1][2]['services'])))
                else:
                    k.probe('acknowledged-before-version')
                    m.vague.add(key(*peer.address))
            elif name == 'get_address':
                m.expect.setdefault(ep, []).append((dict(m.book) if len(m.book) < 300 else m.book.copy(), m.over, m.gone, set(m.vague)))

        def on_disc(node, peer, rec, m=m):
            kk = key(*peer.address)
            m.vague.discard(kk)
            if kk in m.book:
                del m.book[kk]
                m.gone += 1
                k.probe('forgotten')
        proc.on('message', on_msg)
        proc.on('disconnected', on_disc)

        def each(node, m=m, proc=proc):
            kept = getattr(node, '_addresses', None)
            if kept is not None and len(kept) > CAP:
                raise Violation('too-many-kept', '%s keeps %d addresses' % (proc.name, len(kept)))
            for ep in proc.endpoints():
                check(proc, ep)
        proc.on('loop', each)
    seen = {}

    def check(proc, ep, final=False):
        m = models[proc]
        got = wire.taken(ep)
        st = seen.setdefault(ep, [0, 0])
        exp = m.expect.get(ep, [])
        while st[0] < len(got):
            c = got[st[0]]
            st[0] += 1
            if c[0] != 'ok' or c[1] != 'addr':
                continue
            if st[1] >= len(exp):
                raise Violation('unasked-addresses', '%s sent an address message on %s nobody asked for' % (proc.name, ep.cid))
            one(proc, ep, c[2]['addr_list'], *exp[st[1]])
            st[1] += 1
        return st[1], len(exp)

    def one(proc, ep, lst, book, over, gone, vague):
        k.probe('replies')
        k.probe('addresses-given', len(lst))
        if len(lst) > ASK:
            raise Violation('too-many-given', '%s gave %d addresses' % (proc.name, len(lst)))
        last = None
        keys = set()
        for a in lst:
            kk = (P.norm_ip(a['address']), a['port'])
            if kk in keys:
                raise Violation('given-twice', '%s gave %s twice in one answer' % (proc.name, kk))
            keys.add(kk)
            v = book.get(kk)
            if v is None:
                raise Violation('unknown-address-given', '%s gave %s, which it did not learn (or which ended since)' % (proc.name, kk))
            if a['services'] != v[1] or abs(a['timestamp'] - v[0]) >= 1:
                raise Violation('wrong-data-given', '%s gave %s with time %d services %d, last learned: %s' % (
                    proc.name, kk, a['timestamp'], a['services'], v))
            if last is not None and a['timestamp'] > last:
                raise Violation('not-freshest-first', '%s: an address of time %d after one of %d' % (proc.name, a['timestamp'], last))
            last = a['timestamp']
        if over:
            if gone < 1000 and len(lst) < ASK:
                raise Violation('too-few-given', '%s gave %d addresses of %d or more' % (proc.name, len(lst), CAP - gone))
            return
        # an address that cannot be dialled may be forgotten when the node tries to
        free = lambda kk: kk in vague or plan['seek'] and proc is n1 and ':' in kk[0]
        opt = sum(1 for kk in book if kk not in keys and free(kk))
        want = min(ASK, len(book) - opt)
        if len(lst) < want:
            miss = sorted(set(book) - keys)
            raise Violation('wrong-number-given', '%s gave %d addresses, it knows %d; missing e.g. %s' % (
                proc.name, len(lst), len(book), miss[:3]))
        if len(book) > len(lst) and lst:
            rest = max([int(v[0]) for kk, v in book.items() if kk not in keys and not free(kk)] or [0])
            if rest > last:
                raise Violation('not-freshest', '%s left out an address of time %d and gave one of %d' % (proc.name, rest, last))

    def do_op(o):
        r = random.Random(o['s'])
        j, kind = o['p'], o['op']
        if j >= len(peers):
            return
        live = [c for c in conns.get(j, ()) if c.live()]
        if kind in ('addr', 'getaddr', 'verack', 'version', 'twice', 'fin', 'rst') and not live:
            return
        if kind == 'addr':
            live[-1].msg('addr', addr_list=entries(r, o['n']))
        elif kind == 'getaddr':
            live[-1].msg('getaddr')
        elif kind == 'twice':
            live[-1].send(P.frame('getaddr') + P.frame('addr', dict(addr_list=entries(r, 3))) + P.frame('getaddr'))
        elif kind == 'verack':
            live[-1].msg('verack')
        elif kind == 'version':
            live[-1].msg('version', **S.rnd_fields(r, 'version'))
        elif kind == 'reconnect':
            for c in live:
                c.close()
            p = peers[j]
            k.after(int(r.choice((0.01, 2)) * SEC), lambda: p.connect((NODE_IP, PORT)))
        elif kind == 'fin':
            k.fault('peer-close')
            live[-1].close()
        elif kind == 'rst':
            live[-1].abort()
        elif kind == 'dialdead':
            a = rnd_addr(r, plan)
            if ':' in a[0]:
                return
            n1.do(lambda node: node.add_peer(a))
        elif kind == 'remove':
            def go(node):
                if node.peers:
                    node.remove_peer(r.choice(sorted(node.peers, key=lambda p: p.address)).address)
            n1.do(go)
    for o in plan['ops']:
        k.at(int(o['t'] * SEC), do_op, o)

    def pick(i):
        live = [c for c in conns.get(i, ()) if c.live()]
        return live[-1] if live else None
    schedule_faults(ctx, w, plan['faults'], None, pick)
    for p in procs:
        p.start()
    w.run(int((plan['dur'] + 310) * SEC))
    calm(net)
    allc = [c for cs in conns.values() for c in cs]
    for c in allc:
        if c.live():
            c.msg('getaddr')
    w.run_for(30 * SEC)
    drain(k, allc)
    for p in procs:
        p.require_serving()
        for ep in p.endpoints():
            a, b = check(p, ep, True)
            if ep.app_closed or ep.gone or ep.err or ep.eof or ep.why or not ep.established:
                continue
            if a != b:
                raise Violation('request-unanswered', '%s answered %d of %d address requests on %s' % (p.name, a, b, ep.cid))
