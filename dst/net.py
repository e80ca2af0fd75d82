"""Simulated TCP/IP: hosts with file-descriptor tables, listeners with a backlog,
connections that segment, delay, stall, reset and time out.  Two users: SimSocket
(what `socket.socket` becomes for the code under test) and raw Endpoints driven by
event handlers (reference peers)."""
import errno
import os

from . import kernel as K
from .errors import HarnessError, blame

MS = 1000
SEC = 1000000

SND_CAP = 65536
RCV_CAP = 65536
SYN_TIMEOUT = 127 * SEC
RTO_TIMEOUT = 900 * SEC
TIME_WAIT = 60 * SEC
BASE_LATENCY = 1 * MS

SOL_SOCKET = 1
SO_REUSEADDR = 2
SO_ERROR = 4
SO_REUSEPORT = 15


def err(no):
    return OSError(no, os.strerror(no))


class NetConfig(object):
    """Probabilities of the network's non-benign decisions in this run."""

    def __init__(self, **kw):
        self.seg = 0.0          # cut a segment short
        self.delay = 0.0        # delay a segment
        self.short_send = 0.0   # kernel takes only part of a send
        self.short_recv = 0.0   # recv returns less than is there
        self.eagain = 0.0       # a ready descriptor says EAGAIN after all
        self.spurious = 0.0     # select reports a descriptor that is not ready
        self.late_err = 0.0     # the connection breaks between select and the call
        self.accept_err = 0.0   # accept() fails with a transient error
        self.sndcap = SND_CAP
        self.rcvcap = RCV_CAP
        self.select_cost = 20
        self.__dict__.update(kw)


SEGS = (0, 1, 3, 7, 16, 20, 23, 24, 25, 100, -1, -2)      # negative: all but / half
DELAYS = (0, 5 * MS, 40 * MS, 300 * MS, 2 * SEC, 7 * SEC, 20 * SEC)


class Endpoint(object):
    """One end of one TCP connection, as its host's kernel sees it."""

    def __init__(self, net, host, local, remote, cid, side):
        self.net = net
        self.host = host
        self.local = local
        self.remote = remote
        self.cid = cid
        self.side = side
        self.peer = None
        self.rbuf = bytearray()
        self.eof = False
        self.err = 0
        self.out = bytearray()
        self.fin = False            # we will send FIN after out drains
        self.fin_done = False
        self.app_closed = False
        self.gone = False           # this end no longer exists
        self.pumping = False
        self.blocked_since = None
        self.owner = None           # SimSocket or actor connection
        self.established = False
        self.accepted_total = 0     # bytes taken from the application
        self.handed_total = 0       # bytes given to the application
        self.wire_tx = bytearray()  # everything ever taken from the application
        self.keep_wire = False
        self.fifo_at = 0
        self.urg = None             # an urgent byte waits after that many handed bytes
        self.recv_paused = False
        self.refused = False
        self.aborted_in_backlog = False
        self.last_tx_wall = None
        self.last_rx_wall = None
        self.made_wall = host.wall()
        self.accept_wall = None
        self.why = None

    def label(self, what):
        return '%s.%s.%s' % (what, self.cid, self.side)

    # -- application side ------------------------------------------------
    def app_send(self, data, partial=True):
        net = self.net
        if self.err:
            e, self.err = self.err, 0
            self.gone = True
            raise err(e)
        if self.gone or self.fin or self.app_closed:
            raise err(errno.EPIPE)
        n = len(data)
        if partial:
            free = net.cfg.sndcap - len(self.out)
            if free <= 0:
                raise err(errno.EAGAIN)
            n = min(n, free)
            if n > 1 and net.cfg.short_send:
                v = net.dec.pick(self.label('ss'), 5, net.cfg.short_send)
                if v:
                    n = max(1, min(n, (0, 1, n // 2, n - 1, 23)[v]))
                    net.k.fault('short-send')
            if net.cfg.eagain and net.dec.chance(self.label('sea'), net.cfg.eagain):
                net.k.fault('spurious-eagain')
                raise err(errno.EAGAIN)
        chunk = bytes(data[:n])
        self.out += chunk
        self.accepted_total += n
        if n:
            self.last_tx_wall = self.host.wall()
        if self.keep_wire:
            self.wire_tx += chunk
        if net.on_send is not None:
            try:
                net.on_send(self)
            except Exception as e:
                net.k.set_fatal(blame(e))
        self.pump()
        return n

    def send_urgent(self):
        """The application sends one byte of urgent data (arrives with the next delay)."""
        self.net.k.fault('urgent-data')

        def arrive():
            p = self.peer
            if p is not None and p.established and not (p.gone or p.app_closed or p.err or p.eof):
                p.urg = p.handed_total + len(p.rbuf)
                if p.owner is not None:
                    p.owner.on_net(p)
        self.net.k.after(self.net.dec.pick(self.label('urg'), 3, 0.5) * 300 * MS + MS, arrive)

    def app_recv(self, n):
        net = self.net
        if self.rbuf:
            if net.cfg.eagain and net.dec.chance(self.label('rea'), net.cfg.eagain):
                net.k.fault('spurious-eagain')
                raise err(errno.EAGAIN)
            m = min(n, len(self.rbuf))
            if m > 1 and net.cfg.short_recv:
                v = net.dec.pick(self.label('sr'), 5, net.cfg.short_recv)
                if v:
                    m = max(1, min(m, (0, 1, m // 2, m - 1, 24)[v]))
                    net.k.fault('short-recv')
            data = bytes(self.rbuf[:m])
            del self.rbuf[:m]
            self.handed_total += m
            if self.urg is not None and self.handed_total > self.urg:
                self.urg = None     # the mark was passed
            self.last_rx_wall = self.host.wall()
            if self.peer is not None and self.peer.out:
                self.peer.pump()
            return data
        if self.err:
            e, self.err = self.err, 0
            self.gone = True
            raise err(e)
        if self.eof or self.gone:
            return b''
        raise err(errno.EAGAIN)

    def app_close(self):
        """close(): FIN after what was sent, or RST when unread data is thrown away."""
        if self.app_closed:
            return
        healthy = self.established and not (self.eof or self.err or self.why or self.gone)
        self.close_wall = self.host.wall()
        self.net.close_log.append((self, healthy))
        self.app_closed = True
        self.net.k.record('close', self.cid, self.side)
        self.net.k.mark('close', self.cid, self.side)
        if self.gone:
            self.net.drop_endpoint(self)
            return
        if self.rbuf:
            self.send_rst()
            self.net.drop_endpoint(self)
            return
        self.fin = True
        self.pump()

    def app_abort(self):
        if self.gone:
            return
        self.app_closed = True
        self.send_rst()
        self.net.drop_endpoint(self)

    def shutdown_wr(self):
        if not self.fin:
            self.fin = True
            self.pump()

    # -- wire --------------------------------------------------------------
    def send_rst(self):
        net = self.net
        peer = self.peer
        self.out = bytearray()
        if peer is None:
            return
        if net.link_up(self.host, peer.host):
            net.k.at(max(net.k.now + net.latency(self), self.fifo_at), peer.on_rst)

    def on_rst(self, code=errno.ECONNRESET):
        if self.gone:
            return
        net = self.net
        net.k.record('rst', self.cid, self.side)
        net.k.mark('rst', self.cid, self.side)
        self.why = 'rst'
        self.out = bytearray()
        if self.app_closed:
            net.drop_endpoint(self)
            return
        if self.rbuf and net.dec.chance(self.label('rstdrop'), 0.5):
            self.rbuf = bytearray()
        self.err = code
        net.detach(self)
        self.notify()

    def pump(self):
        if self.pumping or self.gone:
            return
        if not self.established:
            return
        if not self.out and not (self.fin and not self.fin_done):
            return
        net = self.net
        self.pumping = True
        delay = net.latency(self)
        if net.cfg.delay:
            v = net.dec.pick(self.label('dl'), len(DELAYS), net.cfg.delay)
            if v:
                delay += DELAYS[v]
                net.k.fault('delay')
        t = max(net.k.now + delay, self.fifo_at)
        self.fifo_at = t
        net.k.at(t, self._deliver)

    def _deliver(self):
        self.pumping = False
        if self.gone:
            return
        net = self.net
        peer = self.peer
        if not net.link_up(self.host, peer.host):
            if self.blocked_since is None:
                self.blocked_since = net.k.now
                net.k.after(RTO_TIMEOUT, self._rto, self.blocked_since)
            return
        self.blocked_since = None
        if peer.gone or (peer.app_closed and self.out):
            # nobody there (any more): the other kernel answers RST
            net.k.after(net.latency(peer), self.on_rst)
            if not peer.gone:
                net.drop_endpoint(peer)
            return
        if self.out:
            space = net.cfg.rcvcap - len(peer.rbuf)
            if space <= 0:
                return                       # zero window: the reader will pump us
            n = min(space, len(self.out))
            if net.cfg.seg:
                v = net.dec.pick(self.label('sg'), len(SEGS), net.cfg.seg)
                if v:
                    s = SEGS[v]
                    n = max(1, min(n, s if s > 0 else (n - 1 if s == -1 else n // 2)))
                    net.k.fault('segment')
            peer.rbuf += self.out[:n]
            del self.out[:n]
            net.k.record('data', self.cid, self.side, n)
            net.k.mark('d', self.cid, self.side)
            peer.notify()
            self.notify()                    # room to send
            self.pump()
        elif self.fin and not self.fin_done:
            self.fin_done = True
            peer.eof = True
            net.k.record('fin', self.cid, self.side)
            net.k.mark('fin', self.cid, self.side)
            if peer.why is None:
                peer.why = 'fin'
            peer.notify()
            if self.app_closed and peer.fin_done:
                net.drop_endpoint(self)
                net.drop_endpoint(peer)
            elif self.app_closed and self.local not in ():
                # active closer: keeps the port in TIME_WAIT for a while
                net.time_wait(self)

    def _rto(self, since):
        if self.gone or self.blocked_since != since:
            return
        self.net.k.record('etimedout', self.cid, self.side)
        self.net.k.fault('retransmission-timeout')
        self.on_rst(errno.ETIMEDOUT)

    def notify(self):
        o = self.owner
        if o is not None:
            o.on_net(self)

    # -- select ------------------------------------------------------------
    def readable(self):
        return bool(self.rbuf) or self.eof or bool(self.err)

    def writable(self):
        return bool(self.err) or self.gone or \
            len(self.out) < self.net.cfg.sndcap


class Listener(object):
    def __init__(self, net, host, addr, backlog):
        self.net = net
        self.host = host
        self.addr = addr
        self.backlog = max(1, backlog)
        self.queue = []
        self.owner = None
        self.open = True

    def on_syn(self, cl):
        """A SYN from endpoint `cl` arrived; True when it was taken."""
        if len(self.queue) > self.backlog:
            return False
        ep = Endpoint(self.net, self.host, self.addr if self.addr[0] != '0.0.0.0'
                      else (self.host.ip, self.addr[1]), cl.local, cl.cid, 's')
        ep.peer = cl
        cl.peer = ep
        ep.established = True
        ep.keep_wire = True
        self.net.attach(ep)
        self.queue.append(ep)
        self.net.k.after(self.net.latency(ep), cl.net._established, cl)
        if self.owner is not None:
            self.owner.on_net(ep)
        return True


class Net(object):
    def __init__(self, kernel, cfg=None):
        self.k = kernel
        self.dec = kernel.dec
        self.cfg = cfg or NetConfig()
        self.by_ip = {}
        self.cut = set()            # frozenset({ip, ip}) links that are down
        self.isolated = set()       # ips cut off from everyone
        self.on_send = None
        self.on_accept = None
        self.close_log = []         # (endpoint, was it healthy when its application closed it)
        self.conn_count = {}
        self.blackhole = set()      # (ip, port) that swallow SYNs
        self.latency_us = BASE_LATENCY
        self.dns = {}
        self.dns_fail = set()
        self.dns_delay = {}

    # -- topology -----------------------------------------------------------
    def add_host(self, name, ip, fd_limit=1024):
        h = self.k.host(name, ip)
        h.ip = ip
        h.fds = {}
        h.fd_limit = fd_limit
        h.listeners = {}
        h.shared = []               # further listeners on an address (SO_REUSEPORT)
        h.eps = {}
        h.timewait = {}
        h.next_port = 40000
        h.selwait = []
        h.progress = 0
        h.sel_streak = 0
        h.sel_progress = -1
        h.reserved_fds = 3
        self.by_ip[ip] = h
        return h

    def link_up(self, a, b):
        if not a.up or not b.up:
            return False
        if a is b:
            return True
        if a.ip in self.isolated or b.ip in self.isolated:
            return False
        return frozenset((a.ip, b.ip)) not in self.cut

    def cut_link(self, a, b):
        self.cut.add(frozenset((a.ip, b.ip)))
        self.k.fault('partition')

    def heal_link(self, a, b):
        self.cut.discard(frozenset((a.ip, b.ip)))
        self.repump()

    def isolate(self, h):
        self.isolated.add(h.ip)
        self.k.fault('partition')

    def rejoin(self, h):
        self.isolated.discard(h.ip)
        self.repump()

    def heal_all(self):
        self.cut.clear()
        self.isolated.clear()
        self.repump()

    def repump(self):
        for h in self.by_ip.values():
            for ep in list(h.eps.values()):
                if ep.blocked_since is not None:
                    ep.blocked_since = None
                    ep.pump()

    def latency(self, ep):
        return self.latency_us

    # -- endpoints ------------------------------------------------------------
    def attach(self, ep):
        ep.host.eps[(ep.local, ep.remote)] = ep

    def detach(self, ep):
        if ep.host.eps.get((ep.local, ep.remote)) is ep:
            del ep.host.eps[(ep.local, ep.remote)]

    def drop_endpoint(self, ep):
        ep.gone = True
        ep.out = bytearray()
        self.detach(ep)

    def time_wait(self, ep):
        ep.host.timewait[(ep.local, ep.remote)] = self.k.now + TIME_WAIT

    def port_busy(self, host, port):
        """Is the local port used by a connection or TIME_WAIT remains?"""
        for (l, r) in host.eps:
            if l[1] == port:
                return True
        for (l, r), t in host.timewait.items():
            if l[1] == port and t > self.k.now:
                return True
        return False

    def ephemeral(self, host):
        while True:
            p = host.next_port
            host.next_port += 1
            if host.next_port > 60000:
                host.next_port = 40000
            if not self.port_busy(host, p) and not any(a[1] == p for a in host.listeners):
                return p

    def find_listener(self, ip, port):
        h = self.by_ip.get(ip)
        if h is None or not h.up:
            return None
        l = h.listeners.get((ip, port)) or h.listeners.get(('0.0.0.0', port))
        if l is not None and l.open:
            also = [x for x in h.shared if x.open and x.addr == l.addr]
            return ([l] + also)[self.dec.pick('reuseport', 1 + len(also))] if also else l
        return None

    # -- connecting -----------------------------------------------------------
    def start_connect(self, host, local, remote, owner):
        if local is None or local[1] == 0:
            src_ip = host.ip
            if remote[0] == host.ip or remote[0].startswith('127.'):
                src_ip = remote[0]
            local = (src_ip, self.ephemeral(host))
        key = (host.name, remote)
        c = self.conn_count.get(key, 0)
        self.conn_count[key] = c + 1
        cid = '%s>%s:%d#%d' % (host.name, remote[0], remote[1], c)
        ep = Endpoint(self, host, local, remote, cid, 'c')
        ep.keep_wire = True
        ep.owner = owner
        self.attach(ep)
        self.k.record('syn', cid)
        self.k.mark('syn', cid)
        ep.syn_deadline = self.k.now + SYN_TIMEOUT
        self.k.after(self.latency_us, self._syn, ep, 1 * SEC)
        return ep

    def _syn(self, ep, backoff):
        if ep.gone or ep.established or ep.app_closed:
            return
        dst = self.by_ip.get(ep.remote[0])
        if ep.remote[0].startswith('127.'):
            dst = ep.host
        if self.k.now >= ep.syn_deadline:
            self.k.fault('connect-timeout')
            self._connect_failed(ep, errno.ETIMEDOUT)
            return
        if dst is None or not self.link_up(ep.host, dst) or ep.remote in self.blackhole:
            self.k.at(min(self.k.now + backoff, ep.syn_deadline), self._syn, ep, backoff * 2)
            return
        l = self.find_listener(dst.ip if dst is not ep.host else ep.remote[0], ep.remote[1])
        if l is None and dst is ep.host:
            l = self.find_listener(dst.ip, ep.remote[1])
        if l is None:
            self.k.fault('connect-refused')
            self.k.after(self.latency_us, self._connect_failed, ep, errno.ECONNREFUSED)
            return
        if not l.on_syn(ep):
            self.k.fault('backlog-full')
            self.k.at(min(self.k.now + backoff, ep.syn_deadline), self._syn, ep, backoff * 2)

    def _connect_failed(self, ep, code):
        if ep.gone or ep.app_closed:
            return
        self.k.record('connfail', ep.cid, code)
        ep.err = code
        ep.refused = True
        self.detach(ep)
        ep.notify()

    def _established(self, ep):
        if ep.gone or ep.app_closed:
            if ep.peer is not None and not ep.peer.gone:
                ep.peer.on_rst()
            self.drop_endpoint(ep)
            return
        if ep.err:
            return
        ep.established = True
        self.k.record('est', ep.cid)
        ep.notify()
        ep.pump()
        if ep.peer is not None:
            ep.peer.pump()

    # -- crashes ---------------------------------------------------------------
    def kill_process(self, host):
        """The process died: its OS closes every descriptor."""
        self.k.fault('process-crash')
        for fd in list(host.fds):
            s = host.fds.pop(fd)
            s._os_close()
        host.selwait = []

    def crash_host(self, host):
        """Power loss: connections vanish without a word."""
        self.k.fault('machine-crash')
        for fd in list(host.fds):
            s = host.fds.pop(fd)
            s.fd = -1
            s.closed = True
        for l in list(host.listeners.values()):
            l.open = False
            for ep in l.queue:
                ep.gone = True
        for l in host.shared:
            l.open = False
        host.listeners = {}
        host.shared = []
        for ep in list(host.eps.values()):
            ep.gone = True
            ep.out = bytearray()
            ep.owner = None
        host.eps = {}
        host.timewait = {}
        host.selwait = []
        host.up = False

    def restart_host(self, host):
        host.up = True
        self.repump()

    # -- name service ------------------------------------------------------------
    def resolve(self, name):
        import socket as _s
        if name == '' or name is None:
            return '0.0.0.0'
        if name == 'localhost':
            return '127.0.0.1'
        parts = name.split('.')
        if len(parts) == 4 and all(p.isdigit() and int(p) < 256 for p in parts):
            return name
        if name in self.dns and name not in self.dns_fail:
            return self.dns[name]
        self.k.fault('name-resolution-failure')
        raise _s.gaierror(-2, 'Name or service not known')


class SimSocket(object):
    """socket.socket of the simulated hosts (AF_INET, SOCK_STREAM)."""

    def __init__(self, family=2, type=1, proto=0, fileno=None, _ep=None):
        k = K.current_kernel
        th = k.syscall()
        if th is None:
            raise HarnessError('socket() outside a simulated thread')
        self.k = k
        self.net = k.net
        self.host = th.host
        self.family, self.type, self.proto = family, type, proto
        self.fd = self._alloc()
        self.closed = False
        self.blocking = True
        self.timeout = None
        self.opts = {}
        self.local = None
        self.listener = None
        self.ep = _ep
        self.connecting = False
        if _ep is not None:
            _ep.owner = self
            self.local = _ep.local

    def _alloc(self):
        h = self.host
        fd = h.reserved_fds
        while fd in h.fds:
            fd += 1
        if fd >= h.fd_limit:
            self.k.fault('emfile')
            raise err(errno.EMFILE)
        h.fds[fd] = self
        return fd

    # -- helpers
    def _check(self):
        self.k.syscall()
        if self.closed:
            raise err(errno.EBADF)

    def on_net(self, ep):
        """Something changed on this descriptor: wake the selectors."""
        for th in self.host.selwait:
            self.k.wake(th, True)

    def _wait(self, cond):
        if self.timeout == 0.0 or not self.blocking:
            if cond():
                return
            raise err(errno.EAGAIN)
        deadline = None if self.timeout is None else self.k.now + max(int(self.timeout * 1e6), 1)
        me = self.k.current
        while not cond():
            left = None if deadline is None else deadline - self.k.now
            if left is not None and left <= 0:
                import socket as _s
                raise _s.timeout('timed out')
            self.host.selwait.append(me)
            try:
                self.k.block(left)
            finally:
                if me in self.host.selwait:
                    self.host.selwait.remove(me)
            if self.closed:
                raise err(errno.EBADF)

    # -- api
    def fileno(self):
        return self.fd if not self.closed else -1

    def setblocking(self, flag):
        self._check()
        self.blocking = bool(flag)
        self.timeout = None if flag else 0.0

    def getblocking(self):
        return self.blocking

    def settimeout(self, t):
        self._check()
        self.timeout = t
        self.blocking = t is None or t > 0

    def gettimeout(self):
        return self.timeout

    def setsockopt(self, level, opt, value, *a):
        self._check()
        self.opts[(level, opt)] = value

    def getsockopt(self, level, opt, *a):
        self._check()
        if level == SOL_SOCKET and opt == SO_ERROR:
            ep = self.ep
            if ep is not None and ep.err:
                e, ep.err = ep.err, 0
                ep.gone = True
                return e
            return 0
        return self.opts.get((level, opt), 0)

    def bind(self, addr):
        self._check()
        ip, port = addr
        ip = self.net.resolve(ip)
        h = self.host
        if ip not in (h.ip, '0.0.0.0') and not ip.startswith('127.'):
            raise err(errno.EADDRNOTAVAIL)
        if port == 0:
            port = self.net.ephemeral(h)
        else:
            for (lip, lport), l in h.listeners.items():
                if lport == port and (lip == ip or '0.0.0.0' in (lip, ip)) and not self._shares(l.owner):
                    raise err(errno.EADDRINUSE)
            for s in h.fds.values():
                if s is not self and s.local and s.ep is None and s.local[1] == port \
                        and (s.local[0] == ip or '0.0.0.0' in (s.local[0], ip)) \
                        and not self._shares(s) and not (s.opts.get((SOL_SOCKET, SO_REUSEADDR)) and
                                 self.opts.get((SOL_SOCKET, SO_REUSEADDR))):
                    raise err(errno.EADDRINUSE)
            if not self.opts.get((SOL_SOCKET, SO_REUSEADDR)) and self.net.port_busy(h, port):
                self.k.fault('time-wait-collision')
                raise err(errno.EADDRINUSE)
        self.local = (ip, port)

    def _shares(self, other):
        return bool(self.opts.get((SOL_SOCKET, SO_REUSEPORT)) and getattr(other, 'opts', {}).get((SOL_SOCKET, SO_REUSEPORT)))

    def listen(self, backlog=128):
        self._check()
        if self.local is None:
            self.local = (self.host.ip, self.net.ephemeral(self.host))
        for (lip, lport), l in self.host.listeners.items():
            if l is not self.listener and lport == self.local[1] and \
                    (lip == self.local[0] or '0.0.0.0' in (lip, self.local[0])) and not self._shares(l.owner):
                raise err(errno.EADDRINUSE)
        if self.listener is None:
            self.listener = Listener(self.net, self.host, self.local, backlog)
            self.listener.owner = self
            if self.local in self.host.listeners:
                self.host.shared.append(self.listener)
            else:
                self.host.listeners[self.local] = self.listener
        self.listener.backlog = max(1, backlog)
        self.k.record('listen', self.local)

    def getsockname(self):
        self._check()
        if self.ep is not None:
            return self.ep.local
        return self.local or ('0.0.0.0', 0)

    def getpeername(self):
        self._check()
        ep = self.ep
        if ep is None or not ep.established or ep.err or ep.gone:
            raise err(errno.ENOTCONN)
        return ep.remote

    def connect_ex(self, addr):
        try:
            self.connect(addr)
        except OSError as e:
            if e.errno is None or type(e).__name__ == 'gaierror':
                raise
            return e.errno
        return 0

    def connect(self, addr):
        self._check()
        ip, port = addr
        if not isinstance(port, int) or not 0 <= port <= 65535:
            raise OverflowError('connect(): port must be 0-65535.')
        ip = self.net.resolve(ip)
        if self.ep is not None:
            if self.ep.err:
                e, self.ep.err = self.ep.err, 0
                raise err(e)
            raise err(errno.EISCONN if self.ep.established else errno.EALREADY)
        if ip == '0.0.0.0':
            ip = self.host.ip
        imm = self.net.immediate_connect_error(self.host, (ip, port)) \
            if hasattr(self.net, 'immediate_connect_error') else 0
        if imm:
            self.k.fault('connect-error-%d' % imm)
            raise err(imm)
        self.ep = self.net.start_connect(self.host, self.local, (ip, port), self)
        if not self.blocking:
            raise err(errno.EINPROGRESS)
        ep = self.ep
        self._wait(lambda: ep.established or ep.err)
        if ep.err:
            e, ep.err = ep.err, 0
            raise err(e)

    def accept(self):
        self._check()
        l = self.listener
        if l is None:
            raise err(errno.EINVAL)
        if self.net.cfg.accept_err:
            v = self.net.dec.pick('acc.%s' % self.host.name, 7, self.net.cfg.accept_err)
            if v:
                e = (0, errno.ECONNABORTED, errno.ENFILE, errno.ENOMEM, errno.EPROTO,
                     errno.EAGAIN, errno.ENOBUFS)[v]
                self.k.fault('accept-error')
                if e == errno.ECONNABORTED and l.queue:
                    ep = l.queue.pop(0)
                    ep.aborted_in_backlog = True
                    if not ep.gone:
                        ep.app_abort()
                raise err(e)
        self._wait(lambda: bool(l.queue))
        h = self.host
        fd = h.reserved_fds
        while fd in h.fds:
            fd += 1
        if fd >= h.fd_limit:
            self.k.fault('emfile')
            raise err(errno.EMFILE)
        ep = l.queue.pop(0)
        s = SimSocket(self.family, self.type, self.proto, _ep=ep)
        h.progress += 1
        self.k.record('accept', ep.cid, s.fd)
        ep.accept_wall = h.wall()
        if self.net.on_accept is not None:
            try:
                self.net.on_accept(ep)
            except Exception as e:
                self.k.set_fatal(blame(e))
        self.k.mark('accept', ep.cid)
        return s, ep.remote

    def _late(self, ep):
        """The connection breaks after select and before this call."""
        p = self.net.cfg.late_err
        if p and ep.established and not (ep.err or ep.gone or ep.why or ep.app_closed):
            v = self.net.dec.pick(ep.label('late'), 4, p)
            if v:
                self.k.fault('late-error')
                ep.on_rst((0, errno.ECONNRESET, errno.ETIMEDOUT, errno.EHOSTUNREACH)[v])

    def send(self, data, flags=0):
        self._check()
        ep = self.ep
        if ep is None:
            raise err(errno.EPIPE)
        if not ep.established and not ep.err and not ep.gone:
            raise err(errno.EAGAIN)
        self._late(ep)
        n = ep.app_send(data)
        self.host.progress += 1
        return n

    def sendall(self, data, flags=0):
        data = bytes(data)
        while data:
            self._wait(lambda: self.ep.writable())
            n = self.send(data)
            data = data[n:]

    def recv(self, n, flags=0):
        self._check()
        ep = self.ep
        if ep is None:
            raise err(errno.ENOTCONN)
        if self.blocking:
            self._wait(ep.readable)
        had = bool(ep.rbuf)
        self._late(ep)
        if flags & 1:               # MSG_OOB
            if ep.urg is None:
                raise err(errno.EINVAL)
            ep.urg = None
            self.host.progress += 1
            return b'!'
        data = ep.app_recv(n)
        self.host.progress += 1
        return data

    def recv_into(self, buf, nbytes=0, flags=0):
        data = self.recv(nbytes or len(buf), flags)
        buf[:len(data)] = data
        return len(data)

    def shutdown(self, how):
        self._check()
        if self.ep is None or not self.ep.established:
            raise err(errno.ENOTCONN)
        if how in (1, 2):
            self.ep.shutdown_wr()

    def _os_close(self):
        self.closed = True
        if self.listener is not None:
            self.listener.open = False
            if self.host.listeners.get(self.local) is self.listener:
                del self.host.listeners[self.local]
                for l in self.host.shared:
                    if l.addr == self.local:
                        self.host.listeners[self.local] = l
                        self.host.shared.remove(l)
                        break
            elif self.listener in self.host.shared:
                self.host.shared.remove(self.listener)
            for ep in self.listener.queue:
                ep.owner = None
                ep.app_abort()
            self.listener.queue = []
        if self.ep is not None:
            if not self.ep.established and not self.ep.gone:
                self.ep.app_closed = True
                self.net.drop_endpoint(self.ep)
            else:
                self.ep.app_close()
            self.ep.owner = None

    def close(self):
        self.k.syscall()
        if self.closed:
            return
        h = self.host
        if h.fds.get(self.fd) is self:
            del h.fds[self.fd]
        h.progress += 1
        self._os_close()
        # a selector sleeping on this descriptor (another thread closed it)
        for th in h.selwait:
            self.k.wake(th, True)

    def detach(self):
        fd = self.fd
        self.closed = True
        return fd

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    # -- select predicates
    def sel_read(self):
        if self.listener is not None:
            return bool(self.listener.queue)
        return self.ep is not None and self.ep.readable()

    def sel_write(self):
        ep = self.ep
        if ep is None:
            return self.listener is None
        if ep.err:
            return True
        return ep.established and ep.writable()


def sim_select(rlist, wlist, xlist, timeout=None, setsize=1024):
    k = K.current_kernel
    th = k.syscall()
    host = th.host
    net = k.net

    def resolve(objs):
        out = []
        for o in objs:
            fd = o if isinstance(o, int) else o.fileno()
            if fd < 0:
                raise ValueError('file descriptor cannot be a negative integer (%d)' % fd)
            if fd >= setsize:
                raise ValueError('filedescriptor out of range in select()')
            s = host.fds.get(fd)
            if s is None:
                raise err(errno.EBADF)
            out.append((o, s))
        return out
    R = resolve(rlist)
    W = resolve(wlist)
    X = resolve(xlist)
    deadline = None if timeout is None else k.now + (max(int(timeout * 1e6), 1) if timeout > 0 else 0)
    # a loop that never gets anywhere still takes time
    if host.progress == host.sel_progress:
        host.sel_streak += 1
    else:
        host.sel_streak = 0
        host.sel_progress = host.progress
    cost = net.cfg.select_cost
    if host.sel_streak > 200:
        cost = 100 * MS
        k.probe('busy-loop')
    first = True
    while True:
        r = [o for (o, s) in R if not s.closed and s.sel_read()]
        w = [o for (o, s) in W if not s.closed and s.sel_write()]
        if net.cfg.spurious and first:
            if R and net.dec.chance('spr.%s' % host.name, net.cfg.spurious):
                o = R[net.dec.pick('spri.%s' % host.name, len(R))][0]
                if o not in r:
                    r.append(o)
                    k.fault('spurious-readiness')
            if W and net.dec.chance('spw.%s' % host.name, net.cfg.spurious):
                o = W[net.dec.pick('spwi.%s' % host.name, len(W))][0]
                if o not in w:
                    w.append(o)
                    k.fault('spurious-readiness')
        first = False
        x = [o for (o, s) in X if not s.closed and s.ep is not None and s.ep.urg is not None]
        if r or w or x:
            if host.stall_until > k.now:
                k.sleep(host.stall_until - k.now)
            k.sleep(cost)
            k.mark('sel', host.name, len(r), len(w))
            return r, w, x
        if deadline is not None and k.now >= deadline:
            host.sel_streak = 0
            if cost:
                k.sleep(cost)
            return [], [], []
        host.selwait.append(th)
        try:
            k.block(None if deadline is None else deadline - k.now)
        finally:
            if th in host.selwait:
                host.selwait.remove(th)
