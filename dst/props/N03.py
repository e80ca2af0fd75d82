"""N03: one bad connection never takes the node down."""
import errno
import random
import struct

from .common import *

BAD_IN = ('rst', 'fin', 'halfopen', 'garbage', 'slow', 'power', 'midframe', 'synrst', 'flood', 'normal', 'closewr', 'urgent')
BAD_OUT = ('refused', 'blackhole', 'unresolvable', 'acceptrst', 'silent', 'imm', 'badport', 'acceptfin')


def gen(r, tier, i):
    dur = r.choice((30, 120, 400))
    ngood = r.choice((1, 2, 3))
    nbad = r.choice((2, 4, 8))
    ops, faults = [], []
    for j in range(nbad):
        if r.random() < 0.6:
            ops.append(dict(t=round(r.uniform(1, dur), 3), op='in', kind=r.choice(BAD_IN), b=r.randrange(nbad) if r.random() < 0.25 else j,
                            dt=round(r.choice((0, 0.001, 0.002, 0.5, 5)), 3), s=r.getrandbits(32)))
        else:
            ops.append(dict(t=round(r.uniform(1, dur), 3), op='out', kind=r.choice(BAD_OUT), b=j, s=r.getrandbits(32)))
    for _ in range(r.choice((0, 2, 6))):
        ops.append(dict(t=round(r.uniform(1, dur), 3), op='user', what=r.choice(('remove', 'send', 'punish')),
                        s=r.getrandbits(32)))
    for _ in range(r.choice((6, 15))):
        ops.append(dict(t=round(r.uniform(1, dur), 3), op='ping', g=r.randrange(ngood), dir=r.randrange(2),
                        n=r.choice((1, 1, 5))))
    for _ in range(r.choice((0, 1, 2))):
        faults.append(dict(t=round(r.uniform(0, dur), 3), kind='stall', host='n1', dur=r.choice((0.1, 3, 20))))
    if r.random() < 0.4:
        faults.append(dict(t=round(r.uniform(0, dur), 3), kind='cut', a='n1', b='g%d' % r.randrange(ngood),
                           dur=r.choice((1, 30, 200))))
    for _ in range(r.choice((0, 0, 1, 2))):
        faults.append(dict(t=round(r.uniform(0, dur), 3), kind='emfile', dur=r.choice((1, 10, 40)), slack=r.choice((0, 0, 1))))
    raises = r.choice((None, None, 'version', 'ping', 'version_ack', 'any', 'connected', 'disconnected', 'invalid'))
    # afterwards the dead connections run into the idle limit
    return dict(idle=r.random() < 0.1, open=r.choice((990, 1015, 1020, 1023)) if r.random() < 0.1 else None, ngood=ngood, nbad=nbad, ops=sort_t(ops), faults=sort_t(faults), dur=dur, raises=raises,
                net=net_swarm(r, spurious=True, accept=True), dial=[r.random() < 0.4 for _ in range(ngood)],
                imm=r.choice((errno.ENETUNREACH, errno.EADDRNOTAVAIL, errno.EACCES, errno.ENOBUFS, errno.EHOSTUNREACH)))


def run(ctx):
    plan, k = ctx.plan, ctx.k
    w = ctx.world()
    net = w.net
    n1 = w.node('n1', NODE_IP, PORT, seek_peers=0, bootstrap=False)
    limit = 1024
    if plan.get('open'):               # a program with that many open files, and allowed more
        k.fault('high-descriptors')
        limit = n1.host.fd_limit = 65536
        n1.host.reserved_fds = plan['open']
    n1.start()
    good = []
    for j in range(plan['ngood']):
        good.append(w.peer('g%d' % j, '10.0.1.%d' % (j + 1), port=PORT if plan['dial'][j] else None))
    gconn = {}
    bad_eps = set()           # node-side endpoints on which something went wrong or the user ended
    hit = set()               # eps whose handler raised
    bad_ip = lambda ip: ip.startswith('10.0.2.') or ip.startswith('10.0.3.')
    gping = {j: [[], []] for j in range(plan['ngood'])}      # nonces sent: [to node, from node]

    def open_good():
        for j, p in enumerate(good):
            if plan['dial'][j]:
                p.on('accepted', lambda c, j=j: gconn.setdefault(j, c))
                n1.do(lambda node, p=p: node.add_peer((p.ip, p.port)))
            else:
                gconn[j] = p.connect((NODE_IP, PORT))
    k.after(200 * MS, open_good)
    imm_addr = set()
    net.immediate_connect_error = lambda host, addr: plan['imm'] if addr in imm_addr else 0
    errs = (ValueError('boom'), OSError(errno.EBADF, 'boom'), KeyError('x'), RuntimeError('boom'), struct.error('boom'),
            AttributeError('boom'), AssertionError(), OSError(errno.ECONNRESET, 'boom'))
    er = random.Random(str(ctx.seed) + 'errs')

    def maybe_raise(node, peer, rec, name, kw):
        if plan['raises'] and bad_ip(peer.ip) and (plan['raises'] == 'any' or plan['raises'] == name):
            k.fault('handler-raises')
            hit.add(rec.ep)
            raise Injected(er.choice(errs))
    n1.on('message' if er.random() < 0.5 else 'after_message', maybe_raise)

    def callback_raises(node, peer, rec, *a):
        if bad_ip(peer.ip):
            k.fault('callback-raises')
            hit.add(rec.ep)
            raise Injected(er.choice(errs))
    if plan['raises'] in ('connected', 'disconnected', 'invalid'):
        n1.on(plan['raises'], callback_raises)

    def live_bad(node):
        return [p for p in node.peers if bad_ip(p.ip)]

    bads = {}

    def do_in(o):
        r = random.Random(o['s'])
        p = bads.get(o['b'])            # perhaps one more from the same machine
        if p is None or not p.host.up:
            if p is not None:
                return
            p = bads[o['b']] = w.peer('b%d' % o['b'], '10.0.2.%d' % (o['b'] + 1))
        kind = o['kind']
        if kind in ('halfopen', 'garbage'):
            p.auto_version = False
        if kind == 'slow':
            p.auto_pong = False
        c = p.connect((NODE_IP, PORT))
        if kind == 'slow':
            c.reading = False
            k.fault('peer-stops-reading')
        dt = int(o['dt'] * SEC)

        def act():
            if kind in ('rst', 'synrst'):
                c.abort()
            elif kind == 'fin':
                k.fault('peer-close')
                c.close()
            elif kind == 'closewr':
                c.user['cut'] = True
                k.fault('peer-close')
                if c.ep.established and not c.ep.gone:
                    c.ep.shutdown_wr()
            elif kind == 'urgent':
                for _ in range(r.choice((1, 1, 3))):
                    c.ep.send_urgent()
                if r.random() < 0.3:
                    c.msg('ping', nonce=b'12345678')
            elif kind == 'halfopen':
                c.user['half'] = True
                net.isolate(p.host)
            elif kind == 'power':
                if p.host.up:
                    p.power_off()
            elif kind == 'garbage':
                k.fault('corrupt-garbage')
                c.send(S.rnd_bytes(r, r.choice((3, 30, 500))))
            elif kind == 'midframe':
                fr = P.frame('ping', dict(nonce=b'12345678'))
                c.send(fr[:r.randrange(1, len(fr))])
                k.after(r.choice((0, 1, 2000)), c.abort if r.random() < 0.5 else c.close)
            elif kind == 'flood':
                for _ in range(200):
                    c.msg('ping', nonce=S.rnd_bytes(r, 8))
                c.reading = False
                k.fault('peer-stops-reading')
                k.after(r.choice((1 * SEC, 60 * SEC)), c.abort)
        k.after(dt, act)

    def do_out(o):
        r = random.Random(o['s'])
        ip = '10.0.3.%d' % (o['b'] + 1)
        kind = o['kind']
        addr = (ip, PORT)
        if kind == 'unresolvable':
            addr = ('no-such-host-%d.example' % o['b'], PORT)
        elif kind == 'blackhole':
            addr = ('10.99.0.%d' % (o['b'] + 1), PORT)
            net.blackhole.add(addr)
        elif kind == 'imm':
            imm_addr.add(addr)
            w.peer('o%d' % o['b'], ip, port=PORT)
        elif kind == 'badport':
            addr = (ip, r.choice((0, 65536, 70000)))
        elif kind == 'refused':
            w.peer('o%d' % o['b'], ip)
        else:
            p = w.peer('o%d' % o['b'], ip, port=PORT)
            if kind == 'silent':
                p.auto_version = False
            if kind in ('acceptrst', 'acceptfin'):
                def acc(c):
                    k.after(r.choice((0, 1, 3000)), c.abort if kind == 'acceptrst' else c.close)
                p.on('accepted', acc)

        def go(node):
            try:
                node.add_peer(addr, r.random() < 0.5)
            except Exception as e:
                raise Violation('add-peer-raises', 'add_peer(%r) raised %r' % (addr, e))
        n1.do(go)

    banned = set()            # by the user, their next connection is refused

    def do_user(o):
        r = random.Random(o['s'])

        def go(node):
            c = live_bad(node)
            if not c:
                return
            p = r.choice(c)
            bad_eps.add(getattr(p.socket, 'ep', None))
            try:
                act(node, p)
            except Exception:               # of the program's own callback
                if plan['raises'] != 'disconnected':
                    raise

        def act(node, p):
            if o['what'] == 'remove':
                node.remove_peer(p.address)
            elif o['what'] == 'punish':
                banned.add(p.ip)
                for _ in range(6):
                    node.punish_peer(p)
            else:
                bad_eps.discard(getattr(p.socket, 'ep', None))
                m = S.build_message(ctx.ns, 'inv', S.rnd_fields(r, 'inv', True))
                for _ in range(r.choice((1, 20))):
                    p.send_message(m)
        n1.do(go)
    cnt = [0]

    def do_ping(o):
        j = o['g']
        c = gconn.get(j)
        if c is None:
            return
        for _ in range(o['n']):
            cnt[0] += 1
            nonce = struct.pack('>Q', cnt[0])
            if o['dir'] == 0:
                if c.msg('ping', nonce=nonce):
                    gping[j][0].append(nonce)
            else:
                def go(node, nonce=nonce, c=c, j=j):
                    t = [x for x in node.peers if c.ep.peer is not None and getattr(x.socket, 'ep', None) is c.ep.peer]
                    if t:
                        t[0].send_message(ctx.ns.protocol.Ping(nonce))
                        gping[j][1].append(nonce)
                n1.do(go)
    for o in plan['ops']:
        fn = dict(ping=do_ping, user=do_user, out=do_out)
        fn['in'] = do_in
        k.at(int(o['t'] * SEC), fn[o['op']], o)

    stall_log = []

    def do_emfile(f):
        h = n1.host
        k.fault('fd-limit')
        h.fd_limit = h.reserved_fds + len(h.fds) + f['slack']
        k.after(int(f['dur'] * SEC), lambda: setattr(h, 'fd_limit', limit))
    fl = []
    for f in plan['faults']:
        if f['kind'] == 'emfile':
            k.at(int(f['t'] * SEC), do_emfile, f)
        else:
            fl.append(f)
            if f['kind'] == 'stall':
                stall_log.append(f)
    schedule_faults(ctx, w, fl, dict(k.hosts))
    stall_total = sum(f['dur'] for f in stall_log)
    last = [None]
    seen = [0]

    def check(node):
        # nothing healthy is ever dropped
        for ep, healthy in net.close_log[seen[0]:]:
            if ep.host is n1.host and healthy and ep not in bad_eps and ep not in hit and ep.remote[0] not in banned:
                raise Violation('healthy-connection-dropped', 'the node closed connection %s although nothing went '
                                'wrong on it' % ep.cid)
        seen[0] = len(net.close_log)
        for j, c in gconn.items():
            if not c.ep.established and any(f.get('b') == 'g%d' % j for f in plan['faults']):
                continue                  # cut off before it was made
            if (c.ended or c.ep.err or c.ep.why is not None) and not (c.ep.peer is not None and c.ep.peer.aborted_in_backlog):
                raise Violation('healthy-connection-dropped', 'the connection of well-behaved peer g%d ended (%s)' % (
                    j, c.end_why or c.ep.why))
        now = k.now
        if last[0] is not None and now - last[0] > (5 + stall_total + 6) * SEC:
            raise Violation('loop-stuck', 'the event loop did not run for %.1f s' % ((now - last[0]) / 1e6))
        last[0] = now
    n1.on('loop', check)
    w.run(int((plan['dur'] + 50) * SEC))
    n1.require_serving()
    # faults stop
    calm(net)
    n1.host.fd_limit = limit
    n1.host.stall_until = k.now
    net.heal_all()
    for h in list(k.hosts.values()):
        if getattr(h, 'ip', None) in net.isolated:
            net.rejoin(h)
    w.run_for(30 * SEC)
    n1.require_serving()
    if plan['idle']:
        bad_eps.update(ep for ep in n1.endpoints() if bad_ip(ep.remote[0]))
        k.probe('idle-phase')
        for _ in range(10):                 # the good peers go on talking
            for j, c in gconn.items():
                do_ping(dict(g=j, n=1, dir=0))
            w.run_for(20 * 60 * SEC)
        n1.require_serving()
    fresh = [w.peer('f%d' % j, '10.0.5.%d' % (j + 1)) for j in range(3)]
    cs = [p.connect((NODE_IP, PORT)) for p in fresh]
    ok = lambda: all(c.got_version and c.got_verack for c in cs)
    if not k.run_until(ok, k.now + 120 * SEC, SEC):
        raise Violation('no-new-connections', 'after faults stopped a new inbound connection did not complete its '
                        'handshake in 120 s: %s' % [(c.ep.established, bool(c.got_version), c.got_verack, c.ep.why) for c in cs])
    n1.require_serving()
    n0 = n1.loops
    w.run_for(30 * SEC)
    if n1.loops - n0 < 2:
        raise Violation('loop-stuck', 'the event loop stopped running')
    if n1.loops - n0 > 150:
        raise Violation('loop-spins', 'with nothing to do the event loop went round %d times in 30 s' % (n1.loops - n0))
    drain(k, list(gconn.values()))
    check(n1.node)
    for j, c in gconn.items():
        if was_cut(c) or not c.ep.established:
            continue
        got = [cl[2]['nonce'] for t, fr in c.frames for cl in [P.classify(fr)] if cl[0] == 'ok' and cl[1] == 'pong']
        if got != gping[j][0]:
            raise Violation('lost-message', 'well-behaved peer g%d sent %d pings, %d pongs came back (in order: %s)' % (
                j, len(gping[j][0]), len(got), got == gping[j][0][:len(got)]))
        got = [cl[2]['nonce'] for t, fr in c.frames for cl in [P.classify(fr)] if cl[0] == 'ok' and cl[1] == 'ping']
        if got != gping[j][1]:
            raise Violation('lost-message', 'the node queued %d pings for g%d, %d arrived' % (len(gping[j][1]), j, len(got)))
    k.probe('good-connections', len([c for c in gconn.values() if c.live()]))
    k.probe('node-closes', len([e for e in n1.endpoints() if e.app_closed]))

