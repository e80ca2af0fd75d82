"""N14: log verbosity never changes what a node does.

The same inputs and the same schedule are run twice, once with the quietest and
once with another log level and some log stream (working, full, closed, narrow
encoding, failing now and then); what an outsider and the user's handlers see
must be identical."""
import io
import random
import sys

from .common import *

KINDS = ('msg', 'msg', 'msg', 'msg', 'raw', 'badsum', 'unknown', 'short', 'ping', 'version', 'verack', 'close', 'rst', 'odd')


def gen(r, tier, i):
    dur = r.choice((20, 60, 300))
    npeer = r.choice((1, 2, 4))
    peers = [dict(dial=r.random() < 0.4, t=round(r.uniform(0.3, dur / 4.0), 3), s=r.getrandbits(32)) for _ in range(npeer)]
    ops = []
    for _ in range(r.choice((5, 15, 40))):
        ops.append(dict(t=round(r.uniform(0.5, dur), 3), c=r.randrange(npeer), op=r.choice(KINDS), s=r.getrandbits(32)))
    for _ in range(r.choice((0, 3, 10))):
        ops.append(dict(t=round(r.uniform(0.5, dur), 3), c=r.randrange(npeer + 1), op='send', s=r.getrandbits(32)))
    for _ in range(r.choice((0, 0, 2))):
        ops.append(dict(t=round(r.uniform(0.5, dur), 3), c=r.randrange(npeer + 1),
                        op=r.choice(('punish', 'refused', 'remove', 'log', 'blackhole')), s=r.getrandbits(32)))
    faults = []
    for _ in range(r.choice((0, 0, 1, 2))):
        kind = r.choice(('stall', 'cut', 'clock'))
        f = dict(t=round(r.uniform(0, dur), 3), kind=kind)
        if kind == 'stall':
            f.update(host='n1', dur=r.choice((1, 20)))
        elif kind == 'clock':
            f.update(host='n1', delta=r.choice((-100, 5, 2000, 11000)))
        else:
            f.update(a='n1', b='p%d' % r.randrange(npeer), dur=r.choice((1, 30)))
        faults.append(f)
    logs = []
    for j in range(2):
        logs.append(dict(level=r.choice((0, 0, 0, 1, 1, 2, 3)) if j else r.choice((4, 5, 4, 3)),
                         stream=r.choice(('good', 'good', 'enospc', 'closed', 'ascii', 'sometimes', 'none', 'badattr', 'pipe', 'value'))
                         if j or r.random() < 0.2 else 'dev',
                         out=r.choice(('good', 'good', 'enospc', 'closed', 'ascii', 'sometimes', 'pipe', 'value')) if j and r.random() < 0.4 else None,
                         change=[dict(t=round(r.uniform(0, dur), 3), level=r.randrange(5)) for _ in range(r.choice((0, 0, 0, 2)))] if j else []))
    if r.random() < 0.3:
        logs[0] = dict(logs[0], level=logs[1]['level'], stream=r.choice(('good', 'none')))
    return dict(peers=peers, ops=sort_t(ops), faults=faults, net=net_swarm(r, spurious=True, late=True), dur=dur, logs=logs,
                raises=r.choice(([], [], ['ping'], ['inventory', 'address', 'version'], ['version_ack'])),
                listen=r.random() < 0.9, seeds=r.random() < 0.3, s=r.getrandbits(32))


SHRINK = ('peers',)


class Bad(object):
    pass


def canon(v):
    """A value as the handler saw it, comparable between two module sets."""
    if isinstance(v, (bytes, bytearray)):
        return bytes(v).hex()
    if isinstance(v, (int, float, str)) or v is None:
        return repr(v)
    if isinstance(v, (list, tuple)):
        return [canon(x) for x in v]
    if isinstance(v, dict):
        return sorted((str(a), canon(b)) for a, b in v.items())
    props = getattr(v, 'properties', None)
    if props is not None:
        return [type(v).__name__] + [(n, canon(getattr(v, n, '?'))) for n, t in props]
    return type(v).__name__


def one(ctx, log):
    real = sys.stdout
    if log.get('out'):                 # the program's standard output, where the node prints
        sys.stdout = Stream(log['out'], ctx.k)
    try:
        return one_out(ctx, log)
    finally:
        sys.stdout = real


def one_out(ctx, log):
    plan, k = ctx.plan, ctx.k
    w = ctx.world()
    seen = []
    kind = log['stream']
    stream = None if kind in ('none', 'dev') else Bad() if kind == 'badattr' else Stream(kind, k)
    seeds = [('10.0.1.1', PORT), ('10.0.9.9', 4444)] if plan['seeds'] else []
    n1 = w.node('n1', NODE_IP, PORT if plan['listen'] else None, seek_peers=4 if seeds else 0, bootstrap=bool(seeds), seeds=seeds,
                log_stream=stream, log_level=log['level'])
    if kind == 'none':
        n1.opts['setup'] = lambda node: setattr(node, '_log', None) if hasattr(node, '_log') else None
    flip = random.Random(plan['s'])
    for nm in plan['raises']:
        n1.raise_on[nm] = lambda: flip.random() < 0.5
    n1.on('message', lambda node, peer, rec, name, kw: seen.append((k.now, 'msg', rec.cid, name, canon(kw))))
    n1.on('invalid', lambda node, peer, rec, payload: seen.append((k.now, 'invalid', rec.cid, bytes(payload).hex())))
    n1.on('connected', lambda node, peer, rec: seen.append((k.now, 'connected', rec.cid)))
    n1.on('disconnected', lambda node, peer, rec: seen.append((k.now, 'disconnected', rec.cid)))
    n1.start()
    for c in log['change']:
        k.at(int(c['t'] * SEC), lambda c=c: n1.do(lambda node: setattr(node, 'log_level', c['level'])))
    conns = {}
    for j, pd in enumerate(plan['peers']):
        p = w.peer('p%d' % j, '10.0.1.%d' % (j + 1), port=PORT if pd['dial'] else None)
        r = random.Random(pd['s'])
        if r.random() < 0.4:
            p.version = dict(p.version, user_agent=S.rnd_bytes(r, r.choice((0, 3, 200))))
        p.on('open', lambda c, j=j: conns.setdefault(j, c))

        def go(p=p, pd=pd):
            if pd['dial']:
                n1.do(lambda node: node.add_peer((p.ip, p.port)))
            elif plan['listen']:
                p.connect((NODE_IP, PORT))
        k.at(int(pd['t'] * SEC), go)
    dead = [0]

    def do_op(o):
        r = random.Random(o['s'])
        kind = o['op']
        c = conns.get(o['c'])
        if kind in ('send', 'punish', 'refused', 'remove', 'log', 'blackhole'):
            def act(node):
                peers = sorted(node.peers, key=lambda p: p.address)
                if kind == 'log':
                    node.log('user \u65e5\u672c %s' % S.rnd_bytes(r, 3), level=r.randrange(5))
                elif kind in ('refused', 'blackhole'):
                    dead[0] += 1
                    ip = '10.0.7.%d' % dead[0]
                    h = w.net.add_host('d%d' % dead[0], ip)
                    if kind == 'blackhole':
                        w.net.blackhole.add((ip, 1))
                    node.add_peer((ip, 1))
                elif peers:
                    p = r.choice(peers)
                    if kind == 'send':
                        cmd = r.choice(ALL_CMDS)
                        p.send_message(S.build_message(ctx.ns, cmd, S.rnd_fields(r, cmd)))
                    elif kind == 'punish':
                        for _ in range(r.choice((1, 7))):
                            node.punish_peer(p)
                    else:
                        node.remove_peer(p.address)
            n1.do(act)
            return
        if c is None or not c.live():
            return
        if kind == 'msg':
            cmd = r.choice(ALL_CMDS)
            c.msg(cmd, **S.rnd_fields(r, cmd))
        elif kind == 'odd':
            # well-formed frames whose contents are hard to render
            v = r.randrange(4)
            if v == 0:
                c.msg('alert', payload=S.rnd_bytes(r, r.randrange(40)), signature=S.rnd_bytes(r, 5))
            elif v == 1:
                c.msg('reject', message=b'\xff\xfe\x00', ccode=r.randrange(256), reason=bytes(range(256)))
            elif v == 2:
                c.msg('filterload', filter=[r.randrange(256) for _ in range(300)], n_hashes_func=5, n_tweak=2, n_flags=255)
            else:
                c.msg('tx', version=1, tx_in=[], tx_out=[dict(value=-1, pk_script=b'\xe2\x28')], lock_time=0)
        elif kind == 'raw':
            k.fault('garbage')
            c.send(S.rnd_bytes(r, r.randrange(1, 90)))
        elif kind == 'badsum':
            fr = bytearray(P.frame('ping', dict(nonce=S.rnd_bytes(r, 8))))
            fr[20 + r.randrange(4)] ^= 1 << r.randrange(8)
            k.fault('corrupt-frame')
            c.send(bytes(fr))
        elif kind == 'unknown':
            c.send(P.frame_raw(r.choice(('hello', 'x', 'sendheaders', '\u00e9')), S.rnd_bytes(r, r.randrange(30))))
        elif kind == 'short':
            cmd = r.choice(('version', 'addr', 'inv', 'tx', 'ping', 'reject'))
            b = P.frame(cmd, S.rnd_fields(r, cmd))[24:]
            c.send(P.frame_raw(cmd, b[:r.randrange(len(b) + 1)]))
        elif kind == 'ping':
            c.msg('ping', nonce=S.rnd_bytes(r, 8))
        elif kind == 'version':
            c.msg('version', **S.rnd_fields(r, 'version'))
        elif kind == 'verack':
            c.msg('verack')
        elif kind == 'close':
            c.close()
        elif kind == 'rst':
            c.abort()
    for o in plan['ops']:
        k.at(int(o['t'] * SEC), do_op, o)
    schedule_faults(ctx, w, plan['faults'], None, lambda i: conns.get(i))
    w.run(int((plan['dur'] + 60) * SEC))
    n1.require_serving()
    eps = {}
    for ep in n1.endpoints():
        eps[ep.cid] = (bytes(ep.wire_tx), ep.handed_total, bool(ep.app_closed))
    node = n1.node
    state = dict(peers=sorted(p.address for p in node.peers), ip=node.external_ip)
    k.probe('handlers', len(seen))
    if stream is not None and kind != 'badattr':
        k.probe('log-lines', stream.lines)
    return seen, eps, state


def run(ctx):
    a = one(ctx, ctx.plan['logs'][0])
    ctx.new_kernel()
    b = one(ctx, ctx.plan['logs'][1])
    la, lb = ctx.plan['logs']
    what = 'log level %d (%s) against %d (%s, stdout %s)' % (la['level'], la['stream'], lb['level'], lb['stream'], lb.get('out'))
    for i in range(max(len(a[0]), len(b[0]))):
        x = a[0][i] if i < len(a[0]) else None
        y = b[0][i] if i < len(b[0]) else None
        if x != y:
            raise Violation('different-handling', '%s: event %d of the user is %s against %s' % (what, i, fmt(x), fmt(y)))
    for cid in sorted(set(a[1]) | set(b[1])):
        x, y = a[1].get(cid), b[1].get(cid)
        if x is None or y is None:
            raise Violation('different-connections', '%s: connection %s exists only in one run' % (what, cid))
        if x[0] != y[0]:
            raise Violation('different-bytes', '%s: connection %s sends %d bytes against %d' % (what, cid, len(x[0]), len(y[0])))
        if x[1:] != y[1:]:
            raise Violation('different-connections', '%s: connection %s: read, closed by the node: %s against %s' % (what, cid, x[1:], y[1:]))
    if a[2] != b[2]:
        raise Violation('different-state', '%s: %s against %s' % (what, a[2], b[2]))
