"""Shared pieces of the node checks."""
from .. import refproto as P
from .. import nodesim as S
from ..errors import Violation, HarnessError, Injected
from ..nodesim import SEC, MS

NODE_IP = '10.0.0.1'
NODE2_IP = '10.0.0.2'
PORT = 8333
ALL_CMDS = sorted(P.MESSAGES)


def sort_t(xs):
    return sorted(xs, key=lambda o: o['t'])


def net_swarm(r, eagain=True, spurious=False, accept=False, late=False):
    """A random subset of the transport's misbehaviours for one run."""
    c = {}
    if r.random() < 0.75:
        c['seg'] = r.choice((0.1, 0.4, 0.9))
    if r.random() < 0.5:
        c['delay'] = r.choice((0.02, 0.1, 0.3))
    if r.random() < 0.5:
        c['short_send'] = r.choice((0.1, 0.5))
    if r.random() < 0.5:
        c['short_recv'] = r.choice((0.1, 0.5))
    if eagain and r.random() < 0.35:
        c['eagain'] = r.choice((0.03, 0.2))
    if spurious and r.random() < 0.35:
        c['spurious'] = r.choice((0.02, 0.1))
    if accept and r.random() < 0.4:
        c['accept_err'] = r.choice((0.1, 0.4))
    if r.random() < 0.25:
        c['sndcap'] = r.choice((200, 1000, 5000))
    if r.random() < 0.25:
        c['rcvcap'] = r.choice((100, 1000, 5000))
    if late and r.random() < 0.2:
        c['late_err'] = r.choice((0.003, 0.02))
    return c


def schedule_faults(ctx, w, faults, hosts, conns=None):
    """hosts: name -> host; conns(i) -> RefConn or None."""
    k = ctx.k
    net = w.net

    def fire(f):
        kind = f['kind']
        if kind == 'stall':
            h = k.hosts.get(f['host'])
            if h is None:
                return
            h.stall_until = max(h.stall_until, k.now + int(f['dur'] * SEC))
            k.fault('stall')
        elif kind == 'cut':
            a, b = k.hosts.get(f['a']), k.hosts.get(f['b'])
            if a is None or b is None:
                return
            if a.up and b.up:
                net.cut_link(a, b)
                k.after(int(f['dur'] * SEC), net.heal_link, a, b)
        elif kind == 'clock':
            h = k.hosts.get(f['host'])
            if h is None:
                return
            h.offset += int(f['delta'] * SEC)
            k.fault('clock-jump')
        elif kind == 'rst':
            c = conns(f['conn'])
            if c is not None and c.live():
                c.abort()
                c.user['cut'] = True
        elif kind == 'fin':
            c = conns(f['conn'])
            if c is not None and c.live():
                k.fault('peer-close')
                c.user['cut'] = True
                c.close()
        elif kind == 'pause':
            c = conns(f['conn'])
            if c is not None and c.live():
                c.reading = False
                k.fault('peer-stops-reading')

                def resume(c=c):
                    c.reading = True
                    c.on_net(c.ep)
                k.after(int(f['dur'] * SEC), resume)
        else:
            raise HarnessError('fault %r' % kind)
    for f in faults:
        k.at(int(f['t'] * SEC), fire, f)


def err_on_bad_thread(ctx):
    pass


def fmt(v, n=300):
    s = repr(v)
    return s if len(s) <= n else s[:n] + '...'


def rec_of(proc, ep):
    """What the node's user saw of the connection with this node-side endpoint."""
    if ep is None:
        return None
    for r in proc.recs:
        if r.ep is ep:
            return r
    return None


def was_cut(c):
    """Did anything end this reference connection early?"""
    return bool(c.user.get('cut')) or c.ep.why is not None or c.ep.err or c.closed or c.ep.gone


def calm(net):
    """From here on the transport only splits and delays as its buffers make it."""
    for x in ('delay', 'seg', 'short_send', 'short_recv', 'eagain', 'spurious', 'accept_err', 'late_err'):
        setattr(net.cfg, x, 0)


def drain(k, conns, proc_list=(), limit=6000 * SEC):
    """Let everything in flight arrive (faults are over)."""
    for c in conns[:1]:
        calm(c.ep.net)

    def quiet():
        for c in conns:
            if not was_cut(c) and c.ep.established:
                if c.ep.out or c.ep.rbuf or (c.ep.peer and (c.ep.peer.out or c.ep.peer.rbuf)):
                    return False
        return True
    k.run_until(quiet, k.now + limit, SEC)
    k.run(k.now + 60 * SEC)


def same_fields(cmd, kw, fields):
    try:
        return P.normal(cmd, kw) == P.normal(cmd, fields)
    except Exception:
        return False


def conn_to_node(w, peer, addr=None):
    c = peer.connect(addr or (NODE_IP, PORT))
    return c


def drops(w, proc, allowed=(), start=0):
    """Violation when the node closed a connection on which nothing was wrong."""
    for ep, healthy in w.net.close_log[start:]:
        if ep.host is proc.host and healthy and ep not in allowed:
            raise Violation('healthy-connection-dropped', '%s closed connection %s although nothing went wrong on it'
                            % (proc.name, ep.cid))
    return len(w.net.close_log)


class Wire(object):
    """Frames that crossed a node-side endpoint, parsed incrementally."""

    def __init__(self):
        self.i, self.o = {}, {}

    def handed(self, ep):
        """Frames of the other end that this endpoint's application was given in full."""
        if ep is None or ep.peer is None:
            return []
        src = ep.peer
        st = self.i.setdefault(ep, [0, P.Splitter(), []])
        n = ep.handed_total
        if n > st[0]:
            raw = src.owner.sent_raw if isinstance(src.owner, S.RefConn) else src.wire_tx
            for fr in st[1].feed(bytes(raw[st[0]:n])):
                st[2].append(P.classify(fr))
            st[0] = n
        return st[2]

    def taken(self, ep):
        """Frames this endpoint's transport accepted in full."""
        st = self.o.setdefault(ep, [0, P.Splitter(), []])
        n = len(ep.wire_tx)
        if n > st[0]:
            for fr in st[1].feed(bytes(ep.wire_tx[st[0]:n])):
                st[2].append(P.classify(fr))
            st[0] = n
        return st[2]


def node_peer(node, ep):
    """The node's Connection with this endpoint, if it is listed."""
    if ep is None:
        return None
    for p in node.peers:
        if getattr(p.socket, 'ep', None) is ep:
            return p
    return None


class Stream(object):
    """A log or standard output that may fail."""

    def __init__(self, kind, k):
        self.kind, self.k = kind, k
        self.n = 0
        self.lines = 0

    def write(self, s):
        self.n += 1
        kind = self.kind
        if kind == 'ascii':
            s.encode('ascii')
        bad = kind in ('enospc', 'closed', 'pipe', 'value') or kind == 'sometimes' and self.n % 3 == 0
        if bad:
            self.k.fault('log-write-fails')
            if kind == 'closed':
                raise ValueError('I/O operation on closed file')
            if kind == 'pipe':
                raise BrokenPipeError(32, 'Broken pipe')
            if kind == 'value':
                raise UnicodeEncodeError('charmap', s, 0, 1, 'injected')
            raise OSError(28, 'No space left on device')
        self.lines += 1
        return len(s)

    def flush(self):
        if self.kind == 'enospc':
            raise OSError(28, 'No space left on device')
