"""N04: handshake tells each side who the other is."""
import random

from .common import *


def gen(r, tier, i):
    dur = r.choice((5, 20, 60))
    npeer = r.choice((1, 2, 4))
    peers = []
    for j in range(npeer):
        peers.append(dict(dial=r.random() < 0.5, s=r.getrandbits(32), t=round(r.uniform(0.5, dur), 3),
                          mode=r.choice(('plain', 'plain', 'plain', 'noverack', 'noversion', 'ackfirst', 'late', 'twice', 'dupack')),
                          dt=round(r.choice((0, 0.01, 3, 20)), 3)))
    ops = []
    for _ in range(r.choice((0, 1, 4))):
        ops.append(dict(t=round(r.uniform(0.3, dur), 3), op=r.choice(('height', 'agent', 'extip', 'extra')), p=r.randrange(npeer),
                        s=r.getrandbits(32)))
    faults = []
    for _ in range(r.choice((0, 0, 1, 3))):
        kind = r.choice(('stall', 'cut', 'rst', 'fin', 'pause'))
        f = dict(t=round(r.uniform(0, dur), 3), kind=kind)
        if kind == 'stall':
            f.update(host='n1', dur=r.choice((1, 20)))
        elif kind == 'cut':
            f.update(a='n1', b=r.choice(['p%d' % j for j in range(npeer)] + ['n2']), dur=r.choice((1, 30, 300)))
        else:
            f.update(conn=r.randrange(npeer))
            if kind == 'pause':
                f['dur'] = r.choice((5, 60))
        faults.append(f)
    return dict(peers=peers, ops=sort_t(ops), faults=faults, net=net_swarm(r, spurious=True, accept=True, late=True), dur=dur,
                two=r.random() < 0.6, s=r.getrandbits(32))


SHRINK = ('peers',)


def simplify(plan):
    for i in range(len(plan['peers'])):
        p = dict(plan)
        p['peers'] = [dict(x) for x in plan['peers']]
        if p['peers'][i]['mode'] != 'plain':
            p['peers'][i]['mode'] = 'plain'
            yield p


class Tally(list):
    """Frames in order, with the well-formed ones of each command at hand."""

    def __init__(self):
        list.__init__(self)
        self.by = {}

    def put(self, c, ok_only=False):
        if c[0] == 'ok':
            self.by.setdefault(c[1], []).append(c)
        if c[0] == 'ok' or not ok_only:
            self.append(c)

    def of(self, cmd):
        return self.by.get(cmd, [])

    def count_of(self, cmd):
        return len(self.by.get(cmd, ()))


def run(ctx):
    plan, k = ctx.plan, ctx.k
    w = ctx.world()
    r0 = random.Random(plan['s'])

    def setup(rr):
        vals = dict(height=rr.choice((0, 1, 77, 0x7fffffff)), agent=rr.choice(('/x:1/', '', '/nbc:0.0.1(newbitcoin)/', 'y' * 252, 'z' * 300)))

        def f(node):
            node.blockchain_height = vals['height']
            if vals['agent'] or rr.random() < 0.5:
                node.user_agent = vals['agent']
        return f
    procs = [w.node('n1', NODE_IP, PORT, seek_peers=0, bootstrap=False, setup=setup(r0)).start()]
    if plan['two']:
        procs.append(w.node('n2', NODE2_IP, PORT, seek_peers=0, bootstrap=False, setup=setup(r0)).start())
    n1 = procs[0]
    announced = {}          # node-side ep -> what its node should have announced

    def expect(proc, ep):
        node = proc.node
        announced[ep] = dict(version=plan['coin']['version'] if plan.get('coin') else 70002, services=ctx.ns.connection.Connection.SERVICES,
                             user_agent=P.tob(node.user_agent), start_height=node.blockchain_height, relay=0)
    # what a node announces is what it was when it opened the connection
    orig_attach = {}
    for proc in procs:
        def watch(node, proc=proc):
            for peer in node.peers:
                ep = getattr(peer.socket, 'ep', None)
                if ep is not None and ep not in announced:
                    expect(proc, ep)
        orig_attach[proc] = watch
    peers, conns = [], {}
    for j, pd in enumerate(plan['peers']):
        rr = random.Random(pd['s'])
        p = w.peer('p%d' % j, '10.0.1.%d' % (j + 1), port=PORT if pd['dial'] else None)
        p.version = S.rnd_fields(rr, 'version')
        p.auto_version = False
        p.auto_verack = pd['mode'] not in ('noverack',)
        peers.append(p)

        def opened(c, p=p, pd=pd):
            conns.setdefault(p.name, c)
            m = pd['mode']
            if m == 'ackfirst':
                c.msg('verack')
            if m == 'dupack':
                c.msg('verack')
                c.msg('verack')
            if m == 'late':
                k.after(int(pd['dt'] * SEC), lambda: c.msg('version', **p.make_version(c)))
            elif m != 'noversion':
                c.msg('version', **p.make_version(c))
            if m == 'twice':
                v2 = S.rnd_fields(random.Random(pd['s'] + 1), 'version')
                k.after(int(pd['dt'] * SEC), lambda: c.msg('version', **v2))
        p.on('open', opened)

        def go(p=p, pd=pd):
            if pd['dial']:
                n1.do(lambda node: node.add_peer((p.ip, p.port)))
            else:
                p.connect((NODE_IP, PORT))
        k.at(int(pd['t'] * SEC), go)
    if plan['two']:
        k.at(int(r0.uniform(0.5, plan['dur']) * SEC), lambda: n1.do(lambda node: node.add_peer((NODE2_IP, PORT))))

    def do_op(o):
        rr = random.Random(o['s'])

        def go(node):
            if o['op'] == 'height':
                node.blockchain_height = rr.randrange(1 << 31)
            elif o['op'] == 'agent':
                node.user_agent = '/agent:%d/' % rr.randrange(1000)
            elif o['op'] == 'extip':
                node.external_ip = '5.5.5.%d' % rr.randrange(256)
            orig_attach[n1](node)
        if o['op'] == 'extra':
            c = conns.get('p%d' % o['p'])
            if c is not None:
                c.msg(*rr.choice((('verack',), ('getaddr',), ('mempool',))))
        else:
            n1.do(lambda node: orig_attach[n1](node))
            n1.do(go)
    for o in plan['ops']:
        k.at(int(o['t'] * SEC), do_op, o)
    schedule_faults(ctx, w, plan['faults'], dict(k.hosts), lambda i: conns.get('p%d' % i))

    def frames_to(ep, handed_only=True):
        """Complete frames sent by the other end that `ep`'s application was given."""
        if ep is None or ep.peer is None:
            return Tally()
        src = ep.peer
        st = cache.setdefault(ep, [0, P.Splitter(), Tally()])
        raw = src.owner.sent_raw if isinstance(src.owner, S.RefConn) else src.wire_tx
        n = ep.handed_total
        if n > st[0]:
            for fr in st[1].feed(bytes(raw[st[0]:n])):
                st[2].put(P.classify(fr), True)
            st[0] = n
        return st[2]

    def frames_from(ep):
        st = cache2.setdefault(ep, [0, P.Splitter(), Tally()])
        if len(ep.wire_tx) > st[0]:
            for fr in st[1].feed(bytes(ep.wire_tx[st[0]:])):
                st[2].put(P.classify(fr))
            st[0] = len(ep.wire_tx)
        return st[2]
    cache, cache2 = {}, {}

    def vals(d):
        return dict(version=int(d['version']), services=int(d['services']), start_height=int(d['start_height']),
                    user_agent=P.tob(d['user_agent']), relay=1 if d['relay'] is None else int(d['relay']))

    def reported(peer):
        try:
            return dict(version=int(peer.version), services=int(peer.services), start_height=int(peer.start_height),
                        user_agent=P.tob(peer.user_agent), relay=int(peer.relay))
        except (TypeError, AttributeError):
            return dict(version=peer.version, services=peer.services, start_height=peer.start_height,
                        user_agent=peer.user_agent, relay=peer.relay)

    def on_connected(proc, node, peer, rec):
        vs = frames_to(rec.ep).of('version')
        j = len(rec.connected) - 1
        if j >= len(vs):
            raise Violation('connected-without-version', '%s: the connected callback ran %d times for %s after %d version '
                            'messages' % (proc.name, j + 1, rec.cid, len(vs)))
        if reported(peer) != vals(vs[j][2]):
            raise Violation('connected-values', '%s: in the connected callback of %s the peer reports %s, it announced %s' % (
                proc.name, rec.cid, fmt(reported(peer)), fmt(vals(vs[j][2]))))

    def check(proc, final=False):
        for rec in proc.recs:
            ep, peer = rec.ep, rec.peer
            if ep is None:
                continue
            got = frames_to(ep)
            acks = got.count_of('verack')
            vs = got.of('version')
            if peer.verack and not acks:
                raise Violation('false-verack', '%s: connection %s says acknowledged, no acknowledgement arrived' % (proc.name, rec.cid))
            if not peer.verack and any(m[1] == 'version_ack' for m in rec.msgs):
                raise Violation('verack-not-reported', '%s: connection %s was acknowledged but does not say so' % (proc.name, rec.cid))
            sent = frames_from(ep)
            nack = sent.count_of('verack')
            if nack > len(vs):
                raise Violation('ack-count', '%s acknowledged %d version messages on %s, %d arrived' % (proc.name, nack, rec.cid, len(vs)))
            if len(rec.connected) > len(vs):
                raise Violation('connected-count', '%s: connected ran %d times for %d version messages' % (
                    proc.name, len(rec.connected), len(vs)))
            closed = ep.app_closed or ep.gone or ep.err or ep.eof
            nh = sum(1 for m in rec.msgs if m[1] == 'version')
            if len(rec.connected) < len(vs) and (not closed) and proc.k.current is proc.thread:
                raise Violation('connected-missing', '%s: %d version messages arrived on %s, connected ran %d times' % (
                    proc.name, len(vs), rec.cid, len(rec.connected)))
            if final and not closed and ep.established and nack < len(vs):
                raise Violation('version-not-acknowledged', '%s acknowledged %d of %d version messages on %s' % (
                    proc.name, nack, len(vs), rec.cid))
        for ep in proc.endpoints():
            fs = frames_from(ep)
            if fs:
                c = fs[0]
                if c[0] != 'ok' or c[1] != 'version':
                    raise Violation('first-not-version', '%s: the first message on %s is %s' % (proc.name, ep.cid, c[:2]))
                if fs.count_of('version') > 1:
                    raise Violation('two-versions', '%s sent two version messages on %s' % (proc.name, ep.cid))
                exp = announced.get(ep)
                if exp is not None and vals(fs[0][2]) != exp:
                    raise Violation('announced-values', '%s announced %s on %s, it is %s' % (
                        proc.name, fmt(vals(fs[0][2])), ep.cid, fmt(exp)))

    for proc in procs:
        proc.on('connected', lambda node, peer, rec, proc=proc: on_connected(proc, node, peer, rec))
        proc.on('loop', lambda node, proc=proc: (orig_attach[proc](node), check(proc)))
    w.run(int((plan['dur'] + 320) * SEC))
    calm(w.net)
    for p in procs:
        p.require_serving()
    bound = k.now + 120 * SEC

    def pending():
        out = []
        for proc in procs:
            for ep in proc.endpoints():
                if not ep.established or ep.app_closed or ep.gone or ep.err or ep.eof or ep.why:
                    continue
                src = ep.peer
                if src is None or src.gone or src.app_closed:
                    continue
                peer = [x for x in proc.node.peers if getattr(x.socket, 'ep', None) is ep]
                if not peer:
                    if ep.owner is None:
                        continue
                    out.append((proc.name, ep.cid, 'not among the peers'))
                    continue
                peer = peer[0]
                refc = src.owner if isinstance(src.owner, S.RefConn) else None
                fs = frames_from(ep)
                if not fs:
                    out.append((proc.name, ep.cid, 'nothing announced'))
                    continue
                if refc is not None and not refc.reading:
                    continue
                if refc is not None:
                    mode = plan['peers'][int(refc.peer.name[1:])]['mode']
                    sentv = [P.classify(f)[2] for t, f in refc.sent if P.classify(f)[1] == 'version']
                    nver = len(sentv)
                    if refc.got_version is None:
                        out.append((proc.name, ep.cid, 'the peer has no version message'))
                    if refc.got_verack != nver:
                        out.append((proc.name, ep.cid, 'the peer sent %d versions, got %d acknowledgements' % (nver, refc.got_verack)))
                    if mode not in ('noverack',) and not peer.verack:
                        out.append((proc.name, ep.cid, 'acknowledgement not reported'))
                    if nver and reported(peer) != vals(sentv[-1]):
                        out.append((proc.name, ep.cid, 'reports %s, announced %s' % (fmt(reported(peer)), fmt(vals(sentv[-1])))))
                else:
                    other = [f for f in frames_from(src) if f[0] == 'ok' and f[1] == 'version']
                    if not peer.verack:
                        out.append((proc.name, ep.cid, 'acknowledgement not reported'))
                    if not other or reported(peer) != vals(other[0][2]):
                        out.append((proc.name, ep.cid, 'reports %s' % fmt(reported(peer))))
        return out
    if not k.run_until(lambda: not pending(), bound, SEC):
        raise Violation('handshake-incomplete', 'no fault interferes any more, 120 s later: %s' % (pending()[:3],))
    w.run_for(30 * SEC)
    for p in procs:
        p.require_serving()
        check(p, True)
        drops(w, p)
        k.probe('handshakes', sum(1 for rec in p.recs if rec.peer.verack))
