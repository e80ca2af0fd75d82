"""N02: damaged or foreign bytes never become messages."""
import random
import struct

from .common import *

KINDS = ('good', 'good', 'good', 'magic', 'checksum', 'command', 'partial', 'trail', 'flip', 'garbage',
         'zerolen', 'cmdpad', 'both', 'foreign', 'splice')


def gen(r, tier, i):
    dur = r.choice((5, 20, 60))
    nbad = r.choice((1, 1, 2))
    ops = []
    few = r.random() < 0.4
    big = r.choice((0, 0, 0, 0, 0, 0.1, 0.3))
    kinds = r.sample(KINDS, 3) + ['good'] if few else KINDS
    cmds = ALL_CMDS if r.random() < 0.6 else r.sample(ALL_CMDS, r.randrange(1, 5))
    for _ in range(r.choice((4, 12, 30, 60))):
        ops.append(dict(t=round(r.choice((r.uniform(1, dur), float(r.randrange(1, 4)))), 3), conn=r.randrange(nbad),
                        kind=r.choice(kinds), cmd=r.choice(cmds), s=r.getrandbits(32), big=r.random() < big))
    for _ in range(r.choice((0, 3, 8))):
        ops.append(dict(t=round(r.uniform(1, dur), 3), conn=nbad, kind='good', cmd=r.choice(ALL_CMDS), s=r.getrandbits(32)))
    faults = []
    for _ in range(r.choice((0, 0, 1, 2))):
        kind = r.choice(('stall', 'cut', 'rst', 'fin'))
        f = dict(t=round(r.uniform(0, dur), 3), kind=kind)
        if kind == 'stall':
            f.update(host='n1', dur=r.choice((1, 20)))
        elif kind == 'cut':
            f.update(a='n1', b='p%d' % r.randrange(nbad + 1), dur=r.choice((1, 30, 300)))
        else:
            f.update(conn=r.randrange(nbad))
        faults.append(f)
    return dict(nbad=nbad, ops=sort_t(ops), faults=faults, net=net_swarm(r), dur=dur, dial=r.random() < 0.3)


def make(o):
    r = random.Random(o['s'])
    kind, cmd = o['kind'], o['cmd']
    fields = S.rnd_fields(r, cmd, o.get('big', False))
    body = P.payload(cmd, fields)
    good = P.frame_raw(cmd, body)
    if kind == 'good':
        return good
    if kind == 'magic':
        m = r.choice((b'\xf9\xbe\xb4\xd9', bytes(reversed(P.MAGIC)), P.MAGIC[:3] + b'\0', b'\0\0\0\0', P.NBC_MAGIC,
                      bytes([P.MAGIC[0] ^ (1 << r.randrange(8))]) + P.MAGIC[1:],
                      P.MAGIC[:1] + bytes([P.MAGIC[1] ^ (1 << r.randrange(8))]) + P.MAGIC[2:]))
        if m == P.MAGIC:        # of Newbitcoin, and this node is
            m = b'\0\0\0\1'
        return P.frame_raw(cmd, body, magic=m)
    if kind == 'checksum':
        c = bytearray(P.dsha(body)[:4])
        v = r.random()
        if v < 0.6:
            c[r.randrange(4)] ^= 1 << r.randrange(8)
        elif v < 0.8:
            c = bytearray(4)
        else:
            c.reverse()
        return P.frame_raw(cmd, body, checksum=bytes(c))
    if kind == 'both':
        return P.frame_raw(cmd, body, magic=b'\xf9\xbe\xb4\xd9', checksum=b'abcd')
    if kind == 'command':
        n = r.choice((b'pingx', b'PING', b'verac', b'versions', b'sendheaders', b'feefilter', b'', b'x' * 12,
                      cmd.encode()[:-1], cmd.encode() + b'\0\0x', b'\xff\xfe\xfd', cmd.encode().upper(), b'ping pong'))
        return P.frame_raw(n[:12], body)
    if kind == 'partial':
        if not body:
            return good
        return P.frame_raw(cmd, body[:r.choice((0, 1, len(body) - 1, len(body) // 2, r.randrange(len(body))))])
    if kind == 'trail':
        return P.frame_raw(cmd, body + S.rnd_bytes(r, r.randrange(1, 40)))
    if kind == 'flip':
        b = bytearray(good)
        for _ in range(r.choice((1, 1, 2, 5))):
            # the two high length bytes stay: a frame of many megabytes only swallows the rest
            j = r.choice([x for x in range(len(b)) if x not in (17, 18, 19)])
            b[j] ^= 1 << r.randrange(8)
        return bytes(b)
    if kind == 'garbage':
        b = bytearray(S.rnd_bytes(r, r.choice((1, 5, 24, 25, 60, 200))))
        for j in range(17, min(20, len(b))):
            b[j] = 0
        return bytes(b)
    if kind == 'zerolen':
        return P.frame_raw(cmd, b'') if r.random() < 0.7 else P.frame_raw(cmd, b'', checksum=b'\0\0\0\0')
    if kind == 'cmdpad':
        return P.frame_raw(cmd.encode().ljust(12, b' '), body)
    if kind == 'foreign':
        return r.choice((b'GET / HTTP/1.1\r\nHos\0\0\0\n\r\n\r\n', b'\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03' + b'\0' * 40,
                         b'SSH-2.0-OpenSSH_\x09\0\0\0.0\r\n' + b'zz'))
    if kind == 'splice':              # a frame inside a frame's payload must stay data
        return P.frame_raw(r.choice(('ping', 'blah', 'reject')), good)
    raise HarnessError(kind)


def run(ctx):
    plan, k = ctx.plan, ctx.k
    w = ctx.world()
    n1 = w.node('n1', NODE_IP, PORT, seek_peers=0, bootstrap=False).start()
    nb = plan['nbad']
    peers = [w.peer('p%d' % i, '10.0.1.%d' % (i + 1), port=PORT if plan['dial'] else None) for i in range(nb + 1)]
    conns = {}

    def open_conns():
        for i, p in enumerate(peers):
            if plan['dial']:
                def got(c, i=i):
                    conns[i] = c
                p.on('accepted', got)
                n1.do(lambda node, p=p: node.add_peer((p.ip, p.port)))
            else:
                conns[i] = p.connect((NODE_IP, PORT))
    k.after(200 * MS, open_conns)
    schedule_faults(ctx, w, plan['faults'], dict(k.hosts), lambda i: conns.get(i))

    def do_op(o):
        c = conns.get(o['conn'])
        if c is not None and c.ep.established:
            fr = make(o)
            if c.send(fr) and o['kind'] != 'good':
                k.fault('corrupt-' + o['kind'])
    for o in plan['ops']:
        k.at(int(o['t'] * SEC), do_op, o)

    cache = {}

    def check(final):
        for i, c in conns.items():
            rec = rec_of(n1, c.ep.peer)
            cs = cache.setdefault(i, [-1, None, -1])
            size = len(rec.msgs) + len(rec.invalid) if rec else 0
            if not final and cs[2] == size:
                continue
            cs[2] = size
            if cs[0] != len(c.sent_raw):
                cs[:2] = [len(c.sent_raw), [(fr, P.classify(fr)) for fr in P.Splitter().feed(c.sent_raw)]]
            frames = cs[1]
            need_all = final and not was_cut(c)
            # handlers
            j = 0
            for t, name, kw in (rec.msgs if rec else ()):
                while True:
                    if j >= len(frames):
                        raise Violation('handler-without-message', 'connection %d: handler command_%s ran with %s although '
                                        'no such well-formed frame was sent (in that place)' % (i, name, fmt(kw)))
                    fr, cl = frames[j]
                    j += 1
                    if cl[0] != 'ok':
                        continue
                    if P.MESSAGES[cl[1]][0] == name and same_fields(cl[1], kw, cl[2]):
                        break
                    if cl[3]:
                        raise Violation('wellformed-not-handled', 'connection %d: the well-formed %s frame (number %d of the '
                                        'stream) was not handled; instead command_%s ran with %s' % (
                                            i, cl[1], j - 1, name, fmt(kw)))
            if need_all:
                for fr, cl in frames[j:]:
                    if cl[0] == 'ok' and cl[3]:
                        raise Violation('wellformed-not-handled', 'connection %d: a well-formed %s frame after other bytes '
                                        'was never handled' % (i, cl[1]))
            # reports
            j = 0
            for t, pl in (rec.invalid if rec else ()):
                while True:
                    if j >= len(frames):
                        raise Violation('wrong-report', 'connection %d: invalid-command callback for %s, which is no '
                                        'invalid frame of the stream (or was reported before)' % (i, fmt(pl)))
                    fr, cl = frames[j]
                    j += 1
                    if fr == pl and not (cl[0] == 'ok' and cl[3]):
                        break
                    if cl[0] == 'invalid':
                        raise Violation('not-reported', 'connection %d: a frame with a bad %s was not reported; '
                                        'the next report was %s' % (i, cl[1], fmt(pl)))
            if need_all:
                for fr, cl in frames[j:]:
                    if cl[0] == 'invalid':
                        raise Violation('not-reported', 'connection %d: a frame with a bad %s was not reported: %s' % (
                            i, cl[1], fmt(fr)))
        drops(w, n1)
    n1.on('loop', lambda node: check(False))
    w.run(int((plan['dur'] + 400) * SEC))
    n1.require_serving()
    drain(k, list(conns.values()))
    check(True)
    n1.require_serving()
    k.probe('handlers-run', sum(len(r.msgs) for r in n1.recs))
    k.probe('reports', sum(len(r.invalid) for r in n1.recs))
    k.probe('frames-partial', sum(1 for c in conns.values() for fr in P.Splitter().feed(c.sent_raw) if P.classify(fr)[0] == 'partial'))
