"""The simulated world of node checks: real nbc nodes (their own serve_forever on
the real asyncore loop) plus event-driven reference peers that speak the protocol
through an independent codec."""
import random as _random

from . import kernel as K
from . import net as N
from . import refproto as P
from .errors import Violation, HarnessError, SimKill, Livelock, Injected, blame

SEC = 1000000
MS = 1000


class HandlerFault(Exception):
    """Raised inside a user's message handler on purpose."""


def make_node_class(ns, raw=False):
    base = ns.raw.RawNode if raw else ns.basenode.BaseNode

    class SimNode(base):
        """A user's subclass: overrides the documented extension points, records,
        and calls the original behaviour."""
        proc = None

        def begin_loop(self):
            self.proc.on_loop(self)
            base.begin_loop(self)

        def invalid_command(self, peer, payload, exception):
            self.proc.on_invalid(self, peer, payload, exception)
            return base.invalid_command(self, peer, payload, exception)

        def connected(self, peer):
            self.proc.on_connected(self, peer)
            r = base.connected(self, peer)
            self.proc.after_connected(self, peer)
            return r

        def disconnected(self, peer):
            self.proc.on_disconnected(self, peer)
            return base.disconnected(self, peer)

    def add(name):
        orig = getattr(base, 'command_' + name, None)

        def handler(self, peer, **kw):
            self.proc.on_message(self, peer, name, kw)
            r = None
            if orig is not None:
                r = orig(self, peer, **kw)
            self.proc.after_message(self, peer, name, kw)
            return r
        handler.__name__ = 'command_' + name
        setattr(SimNode, 'command_' + name, handler)
    for name in P.BY_NAME:
        add(name)
    return SimNode


class ConnRec(object):
    """What a node's user saw of one Connection."""

    def __init__(self, peer, cid, ep):
        self.peer = peer
        self.cid = cid
        self.ep = ep
        self.msgs = []              # (t, name, kwargs)
        self.invalid = []           # (t, payload)
        self.connected = []         # times
        self.disconnected = []
        self.sent = []              # frames the user queued, in order


class NodeProc(object):
    """One process running one node on one host."""

    def __init__(self, world, name, ip, port, **opts):
        self.world = world
        self.k = world.k
        self.net = world.net
        self.name = name
        self.host = self.k.hosts.get(name)
        if self.host is None or not hasattr(self.host, 'fds'):
            self.host = world.net.add_host(name, ip)
        self.address = (ip, port) if port is not None else None
        self.opts = opts
        self.node = None
        self.thread = None
        self.recs = []              # ConnRec in order of first sight
        self.by_peer = {}
        self.order = []             # global history of user-visible events
        self.todo = []              # user calls to run inside the event loop
        self.loops = 0
        self.loop_times = []
        self.error = None           # exception that escaped from serve_forever
        self.ended = False
        self.hooks = {}             # name -> list of fn
        self.raise_on = {}          # handler name -> predicate
        self.ctor_error = None
        self.serving = False
        self.log_stream = opts.pop('log_stream', None)
        self.log_level = opts.pop('log_level', None)
        self.ns = opts.pop('ns', None) or world.ns
        self.cls = make_node_class(self.ns, opts.pop('raw', world.raw))
        self.dead = False
        self.background = False

    # -- life ---------------------------------------------------------------
    def start(self, before_serve=None, serve=True, background=False):
        self.started = False

        def main():
            try:
                kw = dict(self.opts)
                setup = kw.pop('setup', None)
                coin = world_coin(self.ns, kw.pop('seeds', []), self.world.coin)
                kw.setdefault('data_dir', '/simdata')
                kw.setdefault('bootstrap', True)     # RawNode's default is another
                node = self.cls.__new__(self.cls)
                node.proc = self
                node.__init__(address=self.address, log=self.log_stream or _devnull,
                              coin=coin, **kw)
                self.node = node
                if self.log_level is not None:
                    node.log_level = self.log_level
                if setup:
                    setup(node)
            except SimKill:
                raise
            except Exception as e:
                self.ctor_error = e
                self.ended = True
                self.k.record('ctor-error', self.name, type(e).__name__)
                return
            if not serve:
                return
            if background:               # in a thread of its own, the program goes on
                self.background = True
                self.serving = True
                self.ns.basenode.startServer(node)
                self.loops_at_start = self.loops
                self.started = True
                return
            self.serving = True
            try:
                node.serve_forever()
            except SimKill:
                raise
            except Exception as e:
                import traceback
                self.error = e
                self.error_tb = traceback.format_exc()
                self.k.record('serve-error', self.name, type(e).__name__, str(e))
            finally:
                if not (self.thread and self.thread.killed):
                    self.ended = True
                    self.serving = False
                    self.k.record('serve-end', self.name)
        self.ended = False
        self.error = None
        self.ctor_error = None
        self.dead = False
        self.thread = self.k.spawn(main, self.host, self.name)
        return self

    def alive(self):
        return self.node is not None and not self.ended and not self.dead

    def do(self, fn, *args):
        """Queue a user action for the node's own thread (runs in begin_loop)."""
        self.todo.append((fn, args))

    def kill(self):
        """kill -9: the process is gone, its OS closes the sockets."""
        if self.thread is not None:
            self.k.kill(self.thread)
        self.dead = True
        self.net.kill_process(self.host)

    def power_off(self):
        if self.thread is not None:
            self.k.kill(self.thread)
        self.dead = True
        self.net.crash_host(self.host)

    # -- callbacks ------------------------------------------------------------
    def me_killed(self):
        c = self.k.current
        return c is not None and c.killed

    def rec(self, peer):
        r = self.by_peer.get(id(peer))
        if r is None:
            s = getattr(peer, 'socket', None)
            ep = getattr(s, 'ep', None)
            r = ConnRec(peer, ep.cid if ep is not None else None, ep)
            self.by_peer[id(peer)] = r
            self.recs.append(r)
        return r

    def guard(self, fn, *args):
        try:
            fn(*args)
        except Injected as e:
            raise e.exc
        except (SimKill, Livelock):
            raise
        except Exception as e:       # must not be swallowed by the code under test
            self.k.set_fatal(blame(e))

    def fire(self, hook, *args):
        for fn in self.hooks.get(hook, ()):
            self.guard(fn, *args)

    def on(self, hook, fn):
        self.hooks.setdefault(hook, []).append(fn)

    def on_loop(self, node):
        if self.me_killed():
            return
        if self.background and self.k.current.api is not None:
            self.thread = self.k.current
        if self.k.current is not self.thread:
            return
        self.loops += 1
        if self.node is None:
            self.node = node
        if not isinstance(node.peers, (list, tuple, set, frozenset)):
            self.k.set_fatal(Violation('no-peer-list', '%s: its peers are %r' % (self.name, node.peers)))
            return
        todo, self.todo = self.todo, []
        for fn, args in todo:
            self.guard(fn, node, *args)
        self.fire('loop', node)

    def on_message(self, node, peer, name, kw):
        if self.me_killed():
            return
        r = self.rec(peer)
        r.msgs.append((self.k.now, name, kw))
        self.order.append((self.k.now, 'msg', r, name))
        self.k.record('handler', self.name, r.cid, name)
        self.k.mark('h', self.name, r.cid, name)
        self.fire('message', node, peer, r, name, kw)

    def after_message(self, node, peer, name, kw):
        if self.me_killed():
            return
        self.fire('after_message', node, peer, self.rec(peer), name, kw)
        p = self.raise_on.get(name)
        if p is not None and p():
            self.k.fault('handler-raises')
            raise HandlerFault(name)

    def on_invalid(self, node, peer, payload, exception):
        if self.me_killed():
            return
        r = self.rec(peer)
        r.invalid.append((self.k.now, bytes(payload)))
        self.order.append((self.k.now, 'invalid', r, bytes(payload)))
        self.k.record('invalid', self.name, r.cid, len(payload))
        self.fire('invalid', node, peer, r, payload)

    def on_connected(self, node, peer):
        if self.me_killed():
            return
        r = self.rec(peer)
        r.connected.append(self.k.now)
        self.order.append((self.k.now, 'connected', r, None))
        self.k.record('connected', self.name, r.cid)
        self.fire('connected', node, peer, r)

    def after_connected(self, node, peer):
        if self.me_killed():
            return
        self.fire('after_connected', node, peer, self.rec(peer))

    def on_disconnected(self, node, peer):
        if self.me_killed():
            return
        r = self.rec(peer)
        r.disconnected.append(self.k.now)
        self.order.append((self.k.now, 'disconnected', r, None))
        self.k.record('disconnected', self.name, r.cid)
        self.fire('disconnected', node, peer, r)

    # -- helpers for oracles ----------------------------------------------------
    def endpoints(self):
        """Every node-side endpoint that ever existed on this host."""
        return [e for e in self.world.all_eps if e.host is self.host]

    def require_serving(self, what='serving ended'):
        if self.ctor_error is not None:
            raise Violation('node-not-created', '%s: %r' % (self.name, self.ctor_error))
        if self.ended and not self.dead:
            raise Violation('event-loop-ended', '%s: the event loop of %s ended (%s)' % (
                what, self.name, getattr(self, 'error_tb', None) or self.error))


class _DevNull(object):
    def write(self, s):
        return len(s)

    def flush(self):
        pass


_devnull = _DevNull()


def world_coin(ns, seeds, own=None):
    class SimCoin(ns.coins.Newbitcoin):
        dns_seeds = list(seeds)
    if own:                     # a coin of the user's
        SimCoin.magic = bytes.fromhex(own['magic'])
        SimCoin.protocol_version = own['version']
        SimCoin.name = own['name']
        SimCoin.port = own['port']
    return SimCoin


class World(object):
    def __init__(self, k, ns, cfg=None, plan={}):
        self.k = k
        self.ns = ns
        self.coin = coin = plan.get('coin')
        self.raw = bool(plan.get('raw'))
        P.MAGIC = bytes.fromhex(coin['magic']) if coin else P.NBC_MAGIC
        self.net = N.Net(k, cfg)
        k.net = self.net
        self.procs = []
        self.peers = []
        self.all_eps = []
        net = self.net
        orig = net.attach

        def attach(ep):
            self.all_eps.append(ep)
            orig(ep)
        net.attach = attach

    def node(self, name, ip, port, **opts):
        p = NodeProc(self, name, ip, port, **opts)
        self.procs.append(p)
        return p

    def peer(self, name, ip, **opts):
        p = RefPeer(self, name, ip, **opts)
        self.peers.append(p)
        return p

    def run(self, until):
        self.k.run(until)

    def run_for(self, dt):
        self.k.run(self.k.now + int(dt))


class RefConn(object):
    """A reference peer's end of one connection."""

    def __init__(self, peer, ep, inbound):
        self.peer = peer
        self.k = peer.k
        self.ep = ep
        self.inbound = inbound       # they connected to us
        self.cid = ep.cid
        self.split = P.Splitter()
        self.frames = []             # (t, frame bytes)
        self.raw = bytearray()
        self.sent = []               # (t, frame) we sent
        self.sent_raw = bytearray()
        self.reading = True
        self.rate = None             # bytes per read event when slow
        self.rate_gap = 1 * SEC
        self._sched = False
        self._slow_due = False
        self.greeted = False
        self.got_version = None
        self.got_verack = 0
        self.closed = False          # by us
        self.ended = False           # the other side ended it / error
        self.end_why = None
        self.opened_at = None
        self.est_t = None
        ep.owner = self
        self.user = {}

    def on_net(self, ep):
        if not self._sched:
            self._sched = True
            self.k.after(0, self.process)

    def process(self):
        self._sched = False
        if self.closed or not self.peer.host.up:
            return
        ep = self.ep
        if ep.established and not self.greeted and not ep.err:
            self.greeted = True
            self.est_t = self.k.now
            self.peer.on_open(self)
        if self.reading:
            self.read()

    def read(self):
        ep = self.ep
        if self.closed:
            return
        if self.rate is not None:
            if self._slow_due:
                return
            if ep.rbuf:
                self._slow_due = True
                self.k.after(self.rate_gap, self._slow)
            self._read_once(self.rate)
            return
        while self._read_once(1 << 20):
            pass

    def _slow(self):
        self._slow_due = False
        if self.reading and not self.closed and self.peer.host.up:
            self.read()

    def _read_once(self, n):
        ep = self.ep
        if not (ep.rbuf or ep.eof or ep.err):
            return False
        if ep.rbuf:
            # reference peers read their own way: no injected recv faults
            m = min(n, len(ep.rbuf))
            data = bytes(ep.rbuf[:m])
            del ep.rbuf[:m]
            ep.handed_total += m
            if ep.peer is not None:
                ep.peer.pump()
            self.raw += data
            for fr in self.split.feed(data):
                self.frames.append((self.k.now, fr))
                self.peer.on_frame(self, fr)
                if self.closed:
                    return False
            return True
        if not self.ended:
            self.ended = True
            self.end_why = 'err%d' % ep.err if ep.err else 'fin'
            self.k.record('peer-end', self.cid, self.end_why)
            self.peer.on_end(self)
        return False

    def send(self, frame):
        """Put a frame on the wire (this kernel buffers without bound)."""
        ep = self.ep
        if self.closed or ep.err or ep.gone or ep.fin or not self.peer.host.up:
            return False
        self.sent.append((self.k.now, frame))
        self.sent_raw += frame
        ep.app_send(frame, partial=False)
        return True

    def msg(self, cmd, **fields):
        return self.send(P.frame(cmd, fields))

    def close(self):
        if not self.closed:
            self.closed = True
            # read what is there so that close() is a FIN, not a RST
            self.ep.rbuf = bytearray()
            self.ep.app_close()

    def abort(self):
        if not self.closed:
            self.closed = True
            self.k.fault('reset')
            self.ep.app_abort()

    def live(self):
        ep = self.ep
        return not self.closed and not self.ended and not ep.gone and not ep.err \
            and not ep.eof and ep.established and self.peer.host.up

    def kinds(self):
        out = []
        for t, fr in self.frames:
            c = P.classify(fr)
            out.append((t,) + c)
        return out


class RefPeer(object):
    """A host that speaks the protocol by the book (unless told otherwise)."""

    def __init__(self, world, name, ip, port=None, **opts):
        self.world = world
        self.k = world.k
        self.net = world.net
        self.name = name
        self.ip = ip
        self.port = port
        self.host = world.k.hosts.get(name)
        if self.host is None or not hasattr(self.host, 'fds'):
            self.host = world.net.add_host(name, ip)
        self.conns = []
        self.listener = None
        self.version = dict(version=70002, services=1, timestamp=1700000000,
                            addr_recv=dict(services=1, address='9.9.9.9', port=1),
                            addr_from=dict(services=1, address=ip, port=port or 0),
                            nonce=b'\x01' * 8, user_agent=b'/ref:1/', start_height=7, relay=0)
        self.auto_version = True
        self.auto_verack = True
        self.auto_pong = True
        self.hooks = {}
        for kk, v in opts.items():
            setattr(self, kk, v)
        if port is not None:
            self.listen()

    def on(self, hook, fn):
        self.hooks.setdefault(hook, []).append(fn)

    def fire(self, hook, *a):
        for fn in self.hooks.get(hook, ()):
            fn(*a)

    def listen(self):
        l = N.Listener(self.net, self.host, (self.ip, self.port), 128)
        l.owner = self
        self.host.listeners[(self.ip, self.port)] = l
        self.listener = l

    def unlisten(self):
        if self.listener is not None:
            self.listener.open = False
            self.host.listeners.pop((self.ip, self.port), None)
            self.listener = None

    def on_net(self, ep):             # listener: accept at once
        self.k.after(0, self._accept)

    def _accept(self):
        l = self.listener
        while l is not None and l.queue:
            ep = l.queue.pop(0)
            c = RefConn(self, ep, True)
            c.opened_at = self.k.now
            self.conns.append(c)
            self.fire('accepted', c)
            c.on_net(ep)

    def connect(self, addr, local_port=None):
        c = RefConn(self, self.net.start_connect(
            self.host, None if local_port is None else (self.ip, local_port), addr, None), False)
        c.ep.owner = c
        c.opened_at = self.k.now
        self.conns.append(c)
        return c

    def make_version(self, conn):
        v = dict(self.version)
        v['addr_recv'] = dict(v['addr_recv'])
        return v

    def on_open(self, conn):
        if self.auto_version:
            conn.msg('version', **self.make_version(conn))
        self.fire('open', conn)

    def on_frame(self, conn, fr):
        c = P.classify(fr)
        if c[0] == 'ok':
            if c[1] == 'version':
                conn.got_version = c[2]
                if self.auto_verack:
                    conn.msg('verack')
            elif c[1] == 'verack':
                conn.got_verack += 1
            elif c[1] == 'ping' and self.auto_pong:
                conn.msg('pong', nonce=c[2]['nonce'])
        self.fire('frame', conn, c, fr)

    def on_end(self, conn):
        conn.close()
        self.fire('end', conn)

    def power_off(self):
        self.net.crash_host(self.host)
        for c in self.conns:
            c.closed = True

    def power_on(self):
        self.net.restart_host(self.host)
        if self.port is not None:
            self.listen()

    def live(self):
        return [c for c in self.conns if c.live()]


# -- random message contents --------------------------------------------------------
def rnd_bytes(r, n):
    return r.randbytes(n)


def rnd_len(r, big=False):
    v = r.random()
    if v < 0.35:
        return r.randrange(0, 4)
    if v < 0.8:
        return r.randrange(0, 60)
    if v < 0.95 or not big:
        return r.choice((252, 253, 254, 255, 256, 300))
    if big == 'huge':
        return r.choice((65535, 65536, 1 << 20, (1 << 22) + 5))
    return r.choice((65534, 65535, 65536, 70000))


def rnd_count(r, few, big, most=2000):       # most: what the protocol allows in one message
    if not big:
        return r.choice(few)
    if big == 'huge' and most > 2000:
        return r.choice((2000, most - 1, most))
    return r.choice((few[0], 252, 253, 254, 257, 600, min(most, 2000)))


def rnd_ip(r):
    v = r.random()
    if v < 0.7:
        return '%d.%d.%d.%d' % tuple(r.randrange(256) for _ in range(4))
    if v < 0.8:
        return '::1'
    if v < 0.86:                     # almost an IPv4 address: one of the leading groups is not as it should be
        groups = [0] * 5 + [0xffff, r.randrange(65536), r.randrange(65536)]
        groups[r.choice((0, 1, 3, 4, 4, 5))] = r.choice((1, 0xff, 0x100, 0xff00, 0xfffe))
        return ':'.join('%x' % g for g in groups)
    groups = [0 if r.random() < 0.4 else r.randrange(65536) for _ in range(8)]
    groups[0] = 0x2001
    return ':'.join('%x' % g for g in groups)


def u32(r):
    return r.choice((0, 1, 0x7fffffff, 0x80000000, 0xffffffff, r.getrandbits(32)))


def u64(r):
    return r.choice((0, 1, 5, 1 << 63, (1 << 64) - 1, r.getrandbits(64)))


def rnd_netaddr(r, v6=True):
    return dict(timestamp=u32(r), services=u64(r), address=rnd_ip(r) if v6 else
                '%d.%d.%d.%d' % (r.randrange(1, 224), r.randrange(256), r.randrange(256), r.randrange(1, 255)),
                port=r.choice((0, 1, 8333, 20303, 65535, r.randrange(65536))))


def rnd_tx(r, big=False):
    many = bool(big) and r.random() < 0.5
    return dict(version=u32(r),
                tx_in=[dict(previous_output=dict(hash=rnd_bytes(r, 32), index=u32(r)),
                            signature_script=rnd_bytes(r, rnd_len(r)), sequence=u32(r))
                       for _ in range(r.choice((252, 253, 300)) if many else r.randrange(1, 4))],
                tx_out=[dict(value=r.choice((0, 1, -1, 2100000000000000, -(1 << 63), (1 << 63) - 1)),
                             pk_script=rnd_bytes(r, rnd_len(r, big))) for _ in range(r.choice((1, 253)) if many else r.randrange(1, 4))],
                lock_time=u32(r))


def i32(r):
    return r.choice((0, 1, -1, 0x7fffffff, -0x80000000, r.getrandbits(31)))


def rnd_fields(r, cmd, big=False):
    if cmd == 'version':
        return dict(version=i32(r), services=u64(r), timestamp=r.choice((0, 1700000000, -1, (1 << 63) - 1)),
                    addr_recv=rnd_netaddr(r), addr_from=rnd_netaddr(r), nonce=rnd_bytes(r, 8),
                    user_agent=rnd_bytes(r, rnd_len(r)), start_height=i32(r), relay=r.choice((0, 1, None)))
    if cmd in ('verack', 'getaddr', 'mempool', 'filterclear'):
        return {}
    if cmd == 'addr':
        n = rnd_count(r, (0, 1, 2, 5, 30), big, 1000)
        return dict(addr_list=[rnd_netaddr(r) for _ in range(n)])
    if cmd in ('inv', 'getdata', 'notfound'):
        n = rnd_count(r, (0, 1, 3, 30), big, 50000)
        return dict(inventory=[dict(object_type=u32(r), hash=rnd_bytes(r, 32)) for _ in range(n)])
    if cmd in ('getblocks', 'getheaders'):
        return dict(version=u32(r), block_locator_hashes=[rnd_bytes(r, 32) for _ in range(rnd_count(r, (1, 2, 3, 5, 11), big))],
                    hash_stop=rnd_bytes(r, 32))
    if cmd == 'tx':
        return rnd_tx(r, big)
    hdr = dict(version=u32(r), prev_block=rnd_bytes(r, 32), merkle_root=rnd_bytes(r, 32),
               timestamp=u32(r), bits=u32(r), nonce=u32(r))
    if cmd == 'block':
        hdr['txns'] = [rnd_tx(r) for _ in range(r.choice((252, 253, 260)) if big else r.randrange(0, 4))]
        return hdr
    if cmd == 'headers':
        return dict(headers=[dict(version=u32(r), prev_block=rnd_bytes(r, 32), merkle_root=rnd_bytes(r, 32),
                                  timestamp=u32(r), bits=u32(r), nonce=u32(r),
                                  txn_count=r.choice((0, 1, 252, 253, 65534, 65535, 65536, 70000,
                                                      0xfffffffe, 0xffffffff, 1 << 32, 1 << 40)))
                             for _ in range(rnd_count(r, (0, 1, 2, 3, 4), big))])
    if cmd in ('ping', 'pong'):
        return dict(nonce=rnd_bytes(r, 8))
    if cmd == 'reject':
        return dict(message=rnd_bytes(r, rnd_len(r, big)), ccode=r.randrange(256), reason=rnd_bytes(r, rnd_len(r, big)))
    if cmd == 'filterload':
        return dict(filter=list(rnd_bytes(r, min(36000, rnd_len(r, big)))), n_hashes_func=u32(r),
                    n_tweak=u32(r), n_flags=r.randrange(256))
    if cmd == 'filteradd':
        return dict(data=rnd_bytes(r, rnd_len(r, big)))
    if cmd == 'merkleblock':
        hdr.update(total_transactions=u32(r), hashes=[rnd_bytes(r, 32) for _ in range(rnd_count(r, (0, 1, 2, 3, 5), big))],
                   flags=[r.randrange(-128, 128) for _ in range(rnd_count(r, (0, 1, 2, 4, 8), big))])
        return hdr
    if cmd == 'alert':
        if r.random() < 0.5:
            return dict(payload=rnd_alert(r), signature=rnd_bytes(r, 71))
        return dict(payload=rnd_bytes(r, rnd_len(r, big)), signature=rnd_bytes(r, rnd_len(r)))
    raise HarnessError(cmd)


def rnd_alert(r):
    import struct
    s = lambda b: P.cs(len(b)) + b
    txt = lambda: rnd_bytes(r, r.randrange(0, 20))
    return (struct.pack('<iqqii', 1, 2, 3, 4, 5) + P.cs(2) + struct.pack('<ii', 1, 2) +
            struct.pack('<ii', 1, 99) + P.cs(1) + s(txt()) + struct.pack('<i', 7) +
            s(txt()) + s(txt()) + s(txt()))


def build_message(ns, cmd, fields):
    """The same message through the library's own public constructors."""
    pr = ns.protocol

    def na(d):
        return pr.NetworkAddress(d.get('timestamp', 0), d['services'], d['address'], d['port'])

    def tx(d):
        return pr.Txn(d['version'], [pr.TxnIn(pr.OutPoint(i['previous_output']['hash'], i['previous_output']['index']),
                                              i['signature_script'], i['sequence']) for i in d['tx_in']],
                      [pr.TxnOut(o['value'], o['pk_script']) for o in d['tx_out']], d['lock_time'])
    M = pr.Message.MessageTypes[cmd]
    f = dict(fields)
    if cmd == 'version':
        f['addr_recv'] = na(f['addr_recv'])
        f['addr_from'] = na(f['addr_from'])
        if f['relay'] is None:
            f['relay'] = 1
    elif cmd == 'addr':
        f['addr_list'] = [na(a) for a in f['addr_list']]
    elif cmd in ('inv', 'getdata', 'notfound'):
        f['inventory'] = [pr.InventoryVector(i['object_type'], i['hash']) for i in f['inventory']]
    elif cmd == 'tx':
        t = tx(f)
        f['tx_in'], f['tx_out'] = t.tx_in, t.tx_out
    elif cmd == 'block':
        f['txns'] = [tx(t) for t in f['txns']]
    elif cmd == 'headers':
        f['headers'] = [pr.BlockHeader(**h) for h in f['headers']]
    return M(**f)
