"""N01: messages arrive intact, in order, exactly once."""
import random

from .common import *


SMALL = ('ping', 'pong', 'verack', 'mempool', 'getaddr')


def gen(r, tier, i):
    nact = r.choice((1, 1, 2, 3))
    two = r.random() < 0.4
    ops = []
    dur = r.choice((5, 30, 90))
    big = r.random() < 0.12
    kinds = ALL_CMDS if r.random() < 0.6 else r.sample(ALL_CMDS, r.randrange(1, 6))
    for _ in range(r.choice((3, 10, 25, 40))):
        kind = r.choice(('a2n', 'a2n', 'n2a') + (('n2n', 'm2n') if two else ()))
        t = r.choice((r.uniform(1, dur), float(r.randrange(1, 5))))
        ops.append(dict(t=round(t, 3), op=kind, peer=r.randrange(nact), cmd=r.choice(kinds),
                        s=r.getrandbits(32), big=bool(big and r.random() < 0.3)))
    for o in list(ops):
        if r.random() < 0.08:                   # the very same message again
            ops.append(dict(o, t=round(o['t'] + r.choice((0, 0, 0.001, 1, 20)) * r.random(), 3)))
    if r.random() < 0.25:                       # many small messages at once, then silence
        for _ in range(r.choice((1, 1, 2))):
            ops.append(dict(t=round(r.uniform(1, dur), 3), op=r.choice(('a2n', 'a2n', 'n2a')), peer=r.randrange(nact),
                            cmd=r.choice(('pong', 'ping', 'verack', 'mempool', None)), s=r.getrandbits(32), big=False,
                            n=r.choice((20, 60, 120, 260, 337, 400, 676))))
    huge = r.random() < 0.015
    if huge:
        ops.append(dict(t=round(r.uniform(1, dur), 3), op=r.choice(('a2n', 'n2a') + (('n2n',) if two else ())), peer=r.randrange(nact),
                        cmd=r.choice(('inv', 'addr', 'getdata', 'filteradd', 'reject', 'alert', 'tx', 'block', 'headers')), s=r.getrandbits(32), big='huge'))
    faults = []
    for _ in range(r.choice((0, 0, 1, 2, 4))):
        kind = r.choice(('stall', 'cut', 'rst', 'fin', 'pause'))
        f = dict(t=round(r.uniform(0, dur), 3), kind=kind)
        if kind == 'stall':
            f.update(host='n1', dur=r.choice((1, 20)))
        elif kind == 'cut':
            f.update(a='n1', b=r.choice(['p%d' % j for j in range(nact)] + (['n2'] if two else [])),
                     dur=r.choice((1, 30, 300)))
        elif kind == 'pause':
            f.update(conn=r.randrange(nact), dur=r.choice((5, 60)))
        else:
            f.update(conn=r.randrange(nact))
        faults.append(f)
    net = net_swarm(r, late=True)
    if huge:
        net.update((x, min(net.get(x, 0), 0.1)) for x in ('seg', 'short_send', 'short_recv', 'eagain', 'spurious'))
    return dict(nact=nact, two=two, ops=sort_t(ops), faults=faults, net=net, dur=dur,
                dial=r.random() < 0.3, raises=r.choice((0, 0, 0, 0, 0, 0, 0, 0.1, 0.6)))


def run(ctx):
    plan, k = ctx.plan, ctx.k
    w = ctx.world()
    n1 = w.node('n1', NODE_IP, PORT, seek_peers=0, bootstrap=False).start()
    n2 = None
    if plan['two']:
        n2 = w.node('n2', NODE2_IP, PORT, seek_peers=0, bootstrap=False).start()
    peers = [w.peer('p%d' % i, '10.0.1.%d' % (i + 1), port=PORT if plan['dial'] else None)
             for i in range(plan['nact'])]
    conns = {}

    def open_conns():
        for i, p in enumerate(peers):
            if plan['dial']:
                def got(c, i=i):
                    conns[i] = c
                p.on('accepted', got)
                n1.do(lambda node, p=p: node.add_peer((p.ip, p.port)))
            else:
                conns[i] = p.connect((NODE_IP, PORT))
        if n2 is not None:
            n1.do(lambda node: node.add_peer((NODE2_IP, PORT)))
    k.after(200 * MS, open_conns)
    hosts = dict(k.hosts)
    schedule_faults(ctx, w, plan['faults'], hosts, lambda i: conns.get(i))

    expect_wire = {i: [] for i in range(len(peers))}     # frames the node's user queued to peer i
    n2n = {'n1': [], 'n2': []}                           # (cmd, fields) queued towards that node
    skipped = [0]

    def node_send(node, src, dst_i, cmd, fields):
        if dst_i == 'nn':
            target = [x for x in node.peers if x.ip in (NODE_IP, NODE2_IP)]
        else:
            c = conns.get(dst_i)
            target = [x for x in node.peers if c is not None and getattr(x.socket, 'ep', None) is c.ep.peer]
        if not target:
            skipped[0] += 1
            return
        m = S.build_message(ctx.ns, cmd, fields)
        target[0].send_message(m)
        if dst_i == 'nn':
            n2n['n2' if src == 'n1' else 'n1'].append((cmd, fields))
        else:
            f = dict(fields)
            if cmd == 'version' and f['relay'] is None:
                f['relay'] = 1
            expect_wire[dst_i].append(P.frame(cmd, f))

    def do_op(o):
        if o.get('n'):
            rr = random.Random(o['s'])
            for _ in range(o['n']):
                do_op(dict(o, n=0, cmd=o['cmd'] or rr.choice(SMALL), s=rr.getrandbits(32)))
            return
        fields = S.rnd_fields(random.Random(o['s']), o['cmd'], o['big'])
        if o['op'] == 'a2n':
            c = conns.get(o['peer'])
            if c is not None and c.ep.established:
                c.msg(o['cmd'], **fields)
        elif o['op'] == 'n2a':
            n1.do(node_send, 'n1', o['peer'], o['cmd'], fields)
        elif o['op'] == 'n2n':
            n1.do(node_send, 'n1', 'nn', o['cmd'], fields)
        else:
            n2.do(node_send, 'n2', 'nn', o['cmd'], fields)
    for o in plan['ops']:
        k.at(int(o['t'] * SEC), do_op, o)

    def rec_of(proc, ep):
        for r in proc.recs:
            if r.ep is ep:
                return r
        return None

    if plan['raises']:                   # a handler that raises must not cost a message
        er = random.Random(str(ctx.seed) + 'raise')
        errs = (ValueError, OSError, KeyError, RuntimeError, AttributeError, AssertionError, ConnectionResetError, UnicodeDecodeError)

        def maybe_raise(node, peer, rec, name, kw):
            if er.random() < plan['raises']:
                k.fault('handler-raises')
                e = er.choice(errs)
                raise Injected(e('utf-8', b'x', 0, 1, 'boom') if e is UnicodeDecodeError else e('boom'))
        for proc in (n1, n2):
            if proc is not None:
                proc.on('after_message', maybe_raise)
    sent_of, done = {}, {}

    def check_handlers(final):
        for i, c in conns.items():
            ep = c.ep.peer
            rec = rec_of(n1, ep) if ep is not None else None
            got = rec.msgs if rec else []
            sent = sent_of.setdefault(i, [])
            for t, fr in c.sent[len(sent):]:
                cl = P.classify(fr)
                sent.append((P.MESSAGES[cl[1]][0], cl[1], cl[2]))
            start = done.get(i, 0)
            compare('peer %d -> node' % i, sent, got, final and not cut(c), start)
            done[i] = len(got)
            if rec and rec.invalid:
                raise Violation('wellformed-rejected', 'peer %d -> node: a well-formed frame was reported as '
                                'invalid: %s' % (i, fmt(rec.invalid[0][1])))

    def cut(c):
        return bool(c.user.get('cut')) or c.closed or any(
            e is not None and (e.why is not None or e.err or e.gone) for e in (c.ep, c.ep.peer))

    def compare(what, sent, got, need_all, start=0):
        for j in range(start, len(got)):
            t, name, kw = got[j]
            if j >= len(sent):
                raise Violation('extra-message', '%s: handler command_%s ran for a message never sent (%s)' % (
                    what, name, fmt(kw)))
            en, cmd, fields = sent[j]
            if en != name:
                raise Violation('order', '%s: message %d was %s, handler %s ran' % (what, j, en, name))
            try:
                a = P.normal(cmd, kw)
            except Exception as e:
                raise Violation('field-values', '%s: %s arrived with fields %s (%r)' % (what, cmd, fmt(kw), e))
            b = P.normal(cmd, fields)
            if a != b:
                bad = [kk for kk in b if a.get(kk) != b[kk]]
                raise Violation('field-values', '%s: %s field %s: sent %s, handler got %s' % (
                    what, cmd, bad[0], fmt(b[bad[0]]), fmt(a.get(bad[0]))))
        if need_all and len(got) < len(sent):
            raise Violation('lost-message', '%s: %d messages sent, %d handled; first missing: %s' % (
                what, len(sent), len(got), sent[len(got)][0]))

    def in_order(a, b, auto):
        """a (seen) against b (queued): the place of the first that is out of order, or None, and what matched.  The
        node's own answers may happen to equal something queued."""
        got = []
        for j, x in enumerate(a):
            if len(got) < len(b) and x == b[len(got)]:
                got.append(x)
            elif not auto(x):
                return j, a
        return None, got

    def check_wire(final):
        for i, c in conns.items():
            exp = expect_wire[i]
            frs = [f for t, f in c.frames]
            for f in frs:
                cl = P.classify(f)
                if cl[0] != 'ok' or not cl[3]:
                    raise Violation('wire-format', 'node -> peer %d: frame an independent decoder refuses (%s): %s' % (
                        i, cl[:2], fmt(f)))
            bare = (P.frame('verack'), P.frame('getaddr'))
            eset = set(exp) - set(bare)
            a = [f for f in frs if f in eset]
            b = [f for f in exp if f not in bare]
            j, a = in_order(a, b, lambda f: P.classify(f)[1] in ('addr', 'pong'))
            if j is not None:
                raise Violation('wire-order', 'node -> peer %d: frame %d on the wire is not the message queued at '
                                'that place (%s)' % (i, j, fmt(P.classify(a[j])[1:3])))
            for f in frs:
                cmd = P.classify(f)[1]
                if f not in eset and cmd not in ('version', 'verack', 'getaddr', 'addr', 'ping', 'pong'):
                    raise Violation('extra-frame', 'node -> peer %d: a frame nobody queued: %s' % (i, fmt(P.classify(f)[1:3])))
            if final and not cut(c) and c.ep.established:
                if len(a) < len(b):
                    raise Violation('lost-frame', 'node -> peer %d: %d messages queued, %d arrived; first missing %s' % (
                        i, len(b), len(a), P.classify(b[len(a)])[1]))
                for x in bare:
                    if frs.count(x) < exp.count(x):
                        raise Violation('lost-frame', 'node -> peer %d: %s lost' % (i, P.classify(x)[1]))

    def check_nn(final):
        if n2 is None:
            return
        for proc in (n1, n2):
            recs = [r for r in proc.recs if r.peer.ip in (NODE_IP, NODE2_IP)]
            if not recs:
                continue
            rec = recs[0]
            sent = n2n[proc.name]
            bare = ('version_ack', 'get_address')
            auto = ('version', 'version_ack', 'get_address', 'address', 'ping', 'pong')
            tags = [(P.MESSAGES[c][0], P.normal(c, f)) for c, f in sent]
            got = []
            for t, name, kw in rec.msgs:
                cmd = P.BY_NAME[name]
                try:
                    got.append((name, P.normal(cmd, kw)))
                except Exception as e:
                    raise Violation('field-values', 'node -> node: %s arrived with %s (%r)' % (cmd, fmt(kw), e))
            a = [g for g in got if g in tags and g[0] not in bare]
            b = [x for x in tags if x[0] not in bare]
            j, a = in_order(a, b, lambda g: g[0] in ('address', 'pong'))
            if j is not None:
                raise Violation('order', 'node -> %s: handlers ran in another order or with other values than sent' % proc.name)
            for g in got:
                if g not in tags and g[0] not in auto:
                    raise Violation('field-values', 'node -> %s: handler %s ran with values nobody sent: %s' % (
                        proc.name, g[0], fmt(g[1])))
            if rec.invalid:
                raise Violation('wellformed-rejected', 'node -> node: %s' % fmt(rec.invalid[0][1]))
            e = rec.ep
            broke = e is None or any(x is None or x.why or x.err or x.gone for x in (e, e.peer))
            if final and not broke and len(a) < len(b):
                raise Violation('lost-message', 'node -> %s: %d sent, %d handled; first missing %s' % (
                    proc.name, len(b), len(a), b[len(a)][0]))

    def each(node):
        check_handlers(False)
        drops(w, n1)
        if n2 is not None:
            drops(w, n2)
    n1.on('loop', each)
    end = int((plan['dur'] + 400) * SEC)
    w.run(end)
    n1.require_serving()
    calm(w.net)                   # faults stop

    def quiet():
        for i, c in conns.items():
            if not cut(c) and c.ep.established:
                if c.ep.out or c.ep.rbuf or (c.ep.peer and (c.ep.peer.out or c.ep.peer.rbuf)):
                    return False
        for proc in (n1, n2) if n2 is not None else ():
            for rec in proc.recs:
                if rec.peer.ip in (NODE_IP, NODE2_IP) and rec.ep is not None and not rec.ep.gone and (rec.ep.out or rec.ep.rbuf):
                    return False
        return True
    k.run_until(quiet, k.now + 6000 * SEC, SEC)
    w.run_for(60 * SEC)
    check_handlers(True)
    check_wire(True)
    check_nn(True)
    n1.require_serving()
    k.probe('messages-handled', sum(len(r.msgs) for r in n1.recs))
    k.probe('frames-checked', sum(len(c.frames) for c in conns.values()))
