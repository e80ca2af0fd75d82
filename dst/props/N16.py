"""N16: the program's threads can use a node that serves in the background."""
import random

from .common import *
from .. import loader
from ..errors import SimKill

loader.PREEMPT = ('node/basenode.py', 'node/connection.py', 'protocol/messages.py', 'protocol/format.py')
START = 3.0


def gen(r, tier, i):
    dur = r.choice((8, 20, 40))
    npeer = r.choice((1, 2, 3, 6))
    peers = [dict(dial=r.random() < 0.3, t=round(r.choice((r.uniform(0, dur / 2.0), r.uniform(0, dur), 1.0)), 4),
                  leave=round(r.uniform(0, dur), 4) if r.random() < 0.3 else None, how=r.choice(('fin', 'rst')),
                  rate=r.choice((None, None, None, 40, 400)), gap=r.choice((0.01, 0.2)),
                  pings=[round(r.uniform(0, dur), 4) for _ in range(r.choice((0, 1, 5)))],
                  talk=r.choice((0, 0, 20, 80)), s=r.getrandbits(32)) for _ in range(npeer)]
    threads = []
    for _ in range(r.choice((1, 2, 2, 3))):
        ops = []
        for _ in range(r.choice((2, 6, 15, 40))):
            ops.append(dict(gap=r.choice((0, 0, 0.0002, 0.002, 0.05, 1.0)) * r.random(), op=r.choice(('send', 'send', 'send', 'all', 'look')),
                            kind=r.choice(('pong', 'pong', 'inv', 'alert', 'big')), n=r.choice((1, 1, 2, 5)), s=r.getrandbits(32)))
        threads.append(dict(t=round(r.choice((r.uniform(0, dur / 2.0), 1.0, 1.2)), 4), ops=ops))
    # what happens at the same instant meets most often
    if r.random() < 0.5:
        t = round(r.uniform(0.5, dur / 2.0), 4)
        for x in peers + threads:
            if r.random() < 0.7:
                x['t'] = round(t + r.choice((0, 0, 0.0005, 0.003)), 4)
    return dict(peers=peers, threads=threads, net=net_swarm(r), dur=dur, close=round(r.uniform(0, dur), 4) if r.random() < 0.3 else None,
                wake=r.random() < 0.5, pre=r.choice((0.003, 0.02, 0.1)), s=r.getrandbits(32))


SHRINK = ('peers', 'threads')


def simplify(plan):
    for i, t in enumerate(plan['threads']):
        for j in range(len(t['ops'])):
            if len(t['ops']) > 1:
                yield dict(plan, threads=plan['threads'][:i] + [dict(t, ops=t['ops'][:j] + t['ops'][j + 1:])] + plan['threads'][i + 1:])


def run(ctx):
    plan, k = ctx.plan, ctx.k
    w = ctx.world()
    n1 = w.node('n1', NODE_IP, PORT, seek_peers=0, bootstrap=False)
    pr = ctx.ns.protocol
    k.preempt_budget = 3000
    n1.start(background=True)
    w.run(int(START * SEC))
    n1.require_serving('starting in the background')
    if not n1.started:
        raise Violation('start-hangs', 'startServer has not returned after %s s' % START)
    if not n1.loops_at_start:
        raise Violation('not-serving', 'when startServer returned the node did not serve yet')
    t0 = k.now
    node = n1.node
    failed = []
    k.thread_error_hook = lambda th, e: failed.append((th, e))

    def loop_failed():
        for th, e in failed:
            if th.api is not None:
                raise Violation('event-loop-ended', 'the thread that serves the node ended: %r' % e)
    conns = {}
    for j, pd in enumerate(plan['peers']):
        p = w.peer('p%d' % j, '10.0.1.%d' % (j + 1), port=PORT if pd['dial'] else None)

        def talk(c, x):
            if not c.live():
                return
            if x < 0.5:
                c.msg('pong', nonce=b'talking.')
            else:
                c.msg('inv', inventory=[dict(object_type=1 + i % 2, hash=b'%032d' % (len(c.sent) + i)) for i in range(int(x * 10) % 6)])

        def opened(c, j=j, pd=pd):
            if j in conns:
                return
            conns[j] = c
            c.rate, c.rate_gap = pd['rate'], int(pd['gap'] * SEC)
            r = random.Random(pd['s'])
            for _ in range(pd['talk']):           # keeps the loop busy
                k.after(int(r.uniform(0, plan['dur'] / 2.0) * SEC), talk, c, r.random())
        p.on('open', opened)

        def go(p=p, pd=pd):
            if pd['dial']:
                n1.do(lambda node: node.add_peer((p.ip, p.port)))
            else:
                p.connect((NODE_IP, PORT))
        k.at(t0 + int(pd['t'] * SEC), go)

        def ping(x, j=j):
            c = conns.get(j)
            if c is not None and c.live():
                c.msg('ping', nonce=b'p%07d' % x)
        for x, t in enumerate(sorted(pd['pings'])):
            k.at(t0 + int(t * SEC), ping, x)

        def leave(j=j, pd=pd):
            c = conns.get(j)
            if c is not None and c.live():
                k.fault('peer-leaves')
                c.close() if pd['how'] == 'fin' else c.abort()
        if pd['leave'] is not None:
            k.at(t0 + int(pd['leave'] * SEC), leave)

    what = {}
    sent = []              # (thread, peer object, tag) in the order each thread sent them
    n = [0]

    def tagged(kind):
        n[0] += 1
        tag = b'u%07d' % n[0]
        if kind == 'pong':
            what[tag] = (kind, dict(nonce=tag))
            return tag, pr.Pong(tag)
        if kind == 'inv':
            what[tag] = (kind, dict(inventory=[dict(object_type=1, hash=tag * 4)] * 3))
            return tag, pr.Inventory([pr.InventoryVector(1, tag * 4)] * 3)
        text = tag + b'x' * (100 if kind == 'alert' else 6000)
        what[tag] = ('alert', dict(payload=text, signature=b''))
        return tag, pr.Alert(payload=text, signature=b'')

    def peers_of():
        try:
            return list(node.peers)
        except SimKill:
            raise
        except Exception as e:
            raise Violation('peers-unreadable', 'reading the list of peers while the node serves raised %r' % e)

    def send(me, peer, kind):
        tag, m = tagged(kind)
        sent.append((me, peer, tag))
        k.probe('sent')
        try:
            peer.send_message(m)
        except SimKill:
            raise
        except Exception as e:
            raise Violation('send-raises', 'sending from another thread raised %r' % e)

    def program(me, td):
        for o in td['ops']:
            if o['gap']:
                k.sleep(int(o['gap'] * SEC) + 1)
            ps = peers_of()
            r = random.Random(o['s'])
            if o['op'] == 'look':
                k.probe('looks')
                for p in ps:
                    if not isinstance(p, ctx.ns.connection.Connection):
                        raise Violation('not-a-peer', 'the list of peers holds %r' % (p,))
                    (p.address, p.incoming, p.verack, p.version, p.banscore)
            elif ps and o['op'] == 'all':
                for p in ps:
                    send(me, p, o['kind'])
            elif ps:
                p = ps[r.randrange(len(ps))]
                for _ in range(o['n']):
                    send(me, p, o['kind'])
    ths = []

    def begin(a, td):
        ths.append(k.spawn(lambda: program(a, td), n1.host, 'user%d' % a))
        if plan['wake']:                 # and the loop wakes up at that instant too
            for c in conns.values():
                if c.live():
                    c.msg('pong', nonce=b'talking.')
    for a, td in enumerate(plan['threads']):
        k.at(t0 + int(td['t'] * SEC), begin, a, td)
    closed = []

    def shut():
        try:
            node.close()
        except SimKill:
            raise
        except Exception as e:
            raise Violation('close-raises', 'closing the serving node from another thread raised %r' % e)
        closed.append(k.now)
        k.record('user-close')
    if plan['close'] is not None:
        k.at(t0 + int(plan['close'] * SEC), lambda: ths.append(k.spawn(shut, n1.host, 'closer')))
    k.preempt_p = plan['pre']
    w.run(t0 + int(plan['dur'] * SEC))
    late = []
    if plan['close'] is not None:        # somebody knocks after it was closed
        if closed:
            p = w.peer('late', '10.0.2.1')
            late.append(p.connect((NODE_IP, PORT)))
        w.run_for(20 * SEC)
    k.preempt_p = 0
    calm(w.net)
    for c in conns.values():
        c.rate = None
        c.on_net(c.ep)
    w.run_for(30 * SEC)
    drain(k, list(conns.values()))
    loop_failed()
    for t in ths:
        if t.error is not None:
            raise t.error
        if not t.done:
            raise Violation('caller-stuck', 'a thread of the program that used the node hangs')
    n1.require_serving()
    drops(w, n1)
    if k.holding():
        raise Violation('holds-program', 'the node in the background keeps the program from ending (%s)' % k.holding()[0].name)
    for c in late:
        if c.frames or c.raw:
            raise Violation('accepts-after-close', 'a connection opened %.3f s after close() was served' % ((c.opened_at - closed[0]) / 1e6))
    where = {}
    for c in [c for p in w.peers for c in p.conns]:
        if c.live() and not was_cut(c) and c.split.buf:
            raise Violation('torn-frame', 'connection %s: what arrived ends in the middle of a frame' % c.cid)
        first = True
        pongs = []
        for t, fr in c.frames:
            cl = P.classify(fr)
            if cl[0] != 'ok':
                raise Violation('torn-frame', 'connection %s: a frame arrived broken: %r' % (c.cid, cl))
            if first and cl[1] != 'version':
                raise Violation('version-not-first', 'connection %s: the first message is %s' % (c.cid, cl[1]))
            if not first and cl[1] == 'version':
                raise Violation('second-version', 'connection %s: a second version message' % c.cid)
            first = False
            tag = None
            if cl[1] == 'pong':
                tag = cl[2]['nonce']
                if tag[:1] == b'p':
                    pongs.append(tag)
                    continue
            elif cl[1] == 'inv':
                tag = cl[2]['inventory'][0]['hash'][:8]
            elif cl[1] == 'alert':
                tag = cl[2]['payload'][:8]
            if tag is None:
                continue
            if what.get(tag) != (cl[1], cl[2]) or not cl[3]:
                raise Violation('torn-message', 'message %r sent as %r arrived as %r' % (tag, what.get(tag), cl[1:3]))
            if tag in where:
                raise Violation('sent-twice', 'message %s arrived twice' % tag.decode())
            where[tag] = (c, len(where))
        pings = [P.classify(fr)[2]['nonce'] for t, fr in c.sent if P.classify(fr)[1] == 'ping']
        if pongs != pings[:len(pongs)]:
            raise Violation('wrong-pongs', 'connection %s: pings %s, pongs %s' % (c.cid, pings, pongs))
        if c.live() and not was_cut(c) and c.got_version and len(pongs) != len(pings):
            raise Violation('pong-lost', 'connection %s: %d pings, %d pongs' % (c.cid, len(pings), len(pongs)))
    for j, c in conns.items():         # what the peers said meanwhile
        rec = rec_of(n1, c.ep.peer) if c.ep.peer is not None else None
        if rec is None:
            continue
        if rec.invalid:
            raise Violation('wellformed-rejected', 'connection %s: a well-formed frame was reported as invalid' % c.cid)
        for (t, name, kw), (ts, fr) in zip(rec.msgs, c.sent):
            cl = P.classify(fr)
            if name != P.MESSAGES[cl[1]][0] or P.normal(cl[1], kw) != cl[2]:
                raise Violation('wrong-handler', 'connection %s: %s arrived as %s %r' % (c.cid, cl[1], name, kw))
        if len(rec.msgs) > len(c.sent) or len(rec.msgs) < len(c.sent) and c.live() and not was_cut(c):
            raise Violation('unhandled', 'connection %s: %d messages sent, %d handled' % (c.cid, len(c.sent), len(rec.msgs)))
    alive = {}
    for p in node.peers:
        ep = getattr(p.socket, 'ep', None)
        if ep is not None and ep.established and ep.peer is not None and isinstance(ep.peer.owner, S.RefConn) and ep.peer.owner.live():
            alive[id(p)] = ep.peer.owner
    listed = set(id(o) for o in alive.values())
    for c in [c for p in w.peers for c in p.conns]:
        if c.live() and c.got_version and not was_cut(c) and id(c) not in listed:
            raise Violation('peer-not-listed', 'connection %s is served but is not in the list of peers' % c.cid)
    byobj = {}
    for me, p, tag in sent:
        byobj.setdefault(id(p), []).append((me, tag))
    for pid, items in byobj.items():
        got = [(me, tag) for me, tag in items if tag in where]
        cs = set(id(where[tag][0]) for me, tag in got)
        if len(cs) > 1 or pid in alive and cs and id(alive[pid]) not in cs:
            raise Violation('wrong-connection', 'messages sent on one connection arrived on %d' % len(cs))
        for m in set(me for me, t in items):
            mine = [t for me, t in items if me == m]
            arrived = sorted((t for t in mine if t in where), key=lambda t: where[t][1])
            if arrived != mine[:len(arrived)]:
                raise Violation('lost-or-reordered', 'thread %d sent %s, arrived %s' % (m, mine, arrived))
            if pid in alive and len(arrived) != len(mine):
                raise Violation('message-lost', 'thread %d sent %d messages on a connection that is alive, %d arrived (missing %s)' % (
                    m, len(mine), len(arrived), mine[len(arrived)]))
    k.probe('arrived', len(where))
    ctx.nontrivial = bool(where) and k.nswitch > 5
