"""Helper laid beside the demonstrations of planted bugs: one real node on loopback sockets,
stepped by hand, with a clock that can be moved, and a hand-written peer."""
import hashlib, importlib.util, io, os, socket, struct, sys, time

sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
_here = os.path.dirname(os.path.abspath(__file__))
if 'asyncore' not in sys.modules:
    _spec = importlib.util.spec_from_file_location('asyncore', os.path.join(_here, 'asyncore.py'))
    _mod = importlib.util.module_from_spec(_spec)
    sys.modules['asyncore'] = _mod
    _spec.loader.exec_module(_mod)

_real = time.time
_shift = [0.0]
time.time = lambda: _real() + _shift[0]


def advance(seconds):
    _shift[0] += seconds


import asyncore
from nbc import coins, protocol
from nbc.node import basenode, connection

MAGIC = coins.Newbitcoin.magic
Node = basenode.BaseNode


def node(cls=Node, **kw):
    kw.setdefault('address', ('127.0.0.1', 0))
    n = cls(log=None, **kw)
    n._last_heartbeat = time.time()
    return n


def step(*nodes, **kw):
    for i in range(kw.get('rounds', 12)):
        for n in nodes:
            asyncore.loop(0.01, True, map=n, count=1)


def sha256d(b):
    return hashlib.sha256(hashlib.sha256(b).digest()).digest()


def frame(command, payload=b''):
    return MAGIC + command.encode().ljust(12, b'\0') + struct.pack('<I', len(payload)) + sha256d(payload)[:4] + payload


def netaddr(ip='127.0.0.1', port=1, services=1):
    return struct.pack('<Q', services) + b'\0' * 10 + b'\xff\xff' + socket.inet_aton(ip) + struct.pack('>H', port)


def version(saw='127.0.0.1', relay=b'\1', agent=b'/demo/', services=1):
    return frame('version', struct.pack('<iQq', 70002, services, int(time.time())) + netaddr(saw) + netaddr()
                 + b'12345678' + bytes([len(agent)]) + agent + struct.pack('<i', 7) + relay)


class Peer(object):
    def __init__(self, n=None, sock=None):
        self.s = sock or socket.create_connection(n.address)
        self.s.setblocking(False)
        self.buf = b''
        self.closed = False

    def send(self, data):
        while data:
            try:
                data = data[self.s.send(data):]
            except BlockingIOError:
                time.sleep(0.005)

    def recv(self):
        while not self.closed:
            try:
                got = self.s.recv(65536)
            except BlockingIOError:
                break
            except OSError:
                got = b''
            if not got:
                self.closed = True
            self.buf += got
        return self.buf

    def frames(self):
        self.recv()
        out = []
        while len(self.buf) >= 24:
            (n,) = struct.unpack('<I', self.buf[16:20])
            if len(self.buf) < 24 + n:
                break
            out.append((self.buf[4:16].strip(b'\0').decode(), self.buf[24:24 + n]))
            self.buf = self.buf[24 + n:]
        return out

    def close(self):
        self.s.close()
        self.closed = True


def listener():
    s = socket.socket()
    s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
    s.bind(('127.0.0.1', 0))
    s.listen(50)
    s.setblocking(False)
    return s


def accept(s):
    c, a = s.accept()
    return Peer(sock=c)


def check(ok, what):
    if not ok:
        sys.stderr.write('WRONG: %s\n' % what)
        sys.stderr.flush()
        os._exit(1)


def done():
    sys.stdout.flush()
    os._exit(0)
