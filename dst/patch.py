"""Installs the simulator's seams into the interpreter, before nbc is imported:
time, sockets, select, name lookup, threads and locks, OS entropy and the random
module, files (via simfs), url fetching and the passphrase prompt.  Outside a
simulated run every patched function is the real one."""
import builtins
import io
import os
import random
import select
import socket
import sys
import threading
import time
import _thread

# modules that subclass or capture the real things must come first
import ssl            # noqa: F401
import http.client    # noqa: F401
import urllib.request
import getpass
import queue
import tempfile       # noqa: F401
import concurrent.futures.thread  # noqa: F401
import shutil         # noqa: F401

from . import kernel as K
from . import net as N
from .errors import SimKill, HarnessError

real = type('real', (), {})()
real.time = time.time
real.monotonic = time.monotonic
real.perf_counter = time.perf_counter
real.sleep = time.sleep
real.socket = socket.socket
real.getaddrinfo = socket.getaddrinfo
real.gethostbyname = socket.gethostbyname
real.select = select.select
real.urandom = os.urandom
real.Thread = threading.Thread
real.Lock = threading.Lock
real.RLock = threading.RLock
real.urlopen = urllib.request.urlopen
real.getpass = getpass.getpass
real.Random = random.Random
real.open = builtins.open


def kern():
    """The kernel, when the caller is a simulated thread holding the baton."""
    k = K.current_kernel
    if k is None or k.current is None:
        return None
    if k.current is k.main:
        return k if k.sim_main else None
    return k


K.Kernel.sim_main = False     # True: harness code on main also sees simulated I/O


# -- time ---------------------------------------------------------------------
def _time():
    k = kern()
    if k is None:
        return real.time()
    return k.current.host.wall()


def _time_ns():
    k = kern()
    if k is None:
        return int(real.time() * 1e9)
    return k.current.host.wall_us() * 1000


def _monotonic():
    k = kern()
    if k is None:
        return real.monotonic()
    return (k.now + 50000 * 1000000) / 1e6


def _monotonic_ns():
    k = kern()
    if k is None:
        return int(real.monotonic() * 1e9)
    return (k.now + 50000 * 1000000) * 1000


def _sleep(s):
    k = kern()
    if k is None or k.current is k.main:
        return real.sleep(s)
    if s < 0:
        raise ValueError('sleep length must be non-negative')
    k.syscall()
    k.sleep(usec(s))


def usec(s):
    """Seconds to microseconds; the shortest wait still takes time, so that polls of a deadline end."""
    return max(int(s * 1e6), 1) if s > 0 else int(s * 1e6)


# -- locks and threads ----------------------------------------------------------
class SimLock(object):
    """A lock whose waiters are simulated threads; outside a run it is a plain
    uncontended flag."""

    def __init__(self):
        self._held = False
        self._owner = None
        self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        k = kern()
        if k is None or k.current is k.main:
            if self._held:
                if not blocking:
                    return False
                raise HarnessError('deadlock outside a simulated thread')
            self._held = True
            return True
        me = k.syscall()
        if not self._held:
            self._held = True
            self._owner = me
            return True
        if not blocking:
            return False
        deadline = None if timeout is None or timeout < 0 else k.now + usec(timeout)
        while self._held:
            left = None if deadline is None else deadline - k.now
            if left is not None and left <= 0:
                return False
            self._waiters.append(me)
            try:
                k.block(left)
            finally:
                if me in self._waiters:
                    self._waiters.remove(me)
        self._held = True
        self._owner = me
        return True

    def release(self):
        if not self._held:
            raise RuntimeError('release unlocked lock')
        self._held = False
        self._owner = None
        k = K.current_kernel
        if k is not None and self._waiters:
            i = k.dec.pick('lockwake', len(self._waiters), 0.5)
            k.wake(self._waiters.pop(i), True)
        k = kern()
        if k is not None and k.current is not k.main and not k.current.killed and k.preempt_p:
            k.preempt('unlock')

    def locked(self):
        return self._held

    def _at_fork_reinit(self):
        self._held = False

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class SimRLock(object):
    def __init__(self):
        self._block = SimLock()
        self._owner = None
        self._count = 0

    def _who(self):
        return _thread.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._who()
        if self._owner == me:
            self._count += 1
            return True
        if self._block.acquire(blocking, timeout):
            self._owner = me
            self._count = 1
            return True
        return False

    def release(self):
        if self._owner != self._who():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None
            self._block.release()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _release_save(self):
        c, o = self._count, self._owner
        self._count, self._owner = 0, None
        self._block.release()
        return (c, o)

    def _acquire_restore(self, st):
        self._block.acquire()
        self._count, self._owner = st

    def _is_owned(self):
        return self._owner == self._who()

    def _at_fork_reinit(self):
        self._block._at_fork_reinit()
        self._owner, self._count = None, 0


class SimThreadAPI(object):
    """threading.Thread for code under test."""
    _counter = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        SimThreadAPI._counter += 1
        self._name = name or 'Thread-%d' % SimThreadAPI._counter
        self.daemon = bool(daemon)
        self._th = None
        self._started = False

    name = property(lambda s: s._name, lambda s, v: setattr(s, '_name', v))

    def getName(self):
        return self._name

    def setName(self, n):
        self._name = n

    def setDaemon(self, d):
        self.daemon = d

    def isDaemon(self):
        return self.daemon

    @property
    def ident(self):
        return self._th.ident if self._th else None

    native_id = ident

    def run(self):
        if self._target is not None:
            self._target(*self._args, **self._kwargs)

    def start(self):
        if self._started:
            raise RuntimeError('threads can only be started once')
        k = kern()
        if k is None:
            raise HarnessError('thread started outside a simulated run')
        k.syscall()
        fail = k.hooks.get('thread_start')
        if fail and fail(self):
            raise RuntimeError("can't start new thread")
        self._started = True
        self._th = k.spawn(self.run, k.current.host, 't%d' % len(k.threads),
                           trace=k.trace_fn)
        self._th.api = self
        if k.preempt_p:
            k.preempt('start')

    def is_alive(self):
        return self._th is not None and not self._th.done

    def join(self, timeout=None):
        if not self._started:
            raise RuntimeError('cannot join thread before it is started')
        k = kern()
        k.syscall()
        if timeout is not None and timeout < 0:
            timeout = 0
        k.join(self._th, None if timeout is None else usec(timeout))


K.Kernel.hooks = {}
K.Kernel.trace_fn = None


def _get_ident():
    k = K.current_kernel
    if k is not None and k.current is not None and k.current is not k.main:
        return 5000 + k.current.num
    return _thread.get_ident()


# -- entropy -----------------------------------------------------------------------
def _urandom(n):
    k = kern()
    if k is None:
        return real.urandom(n)
    k.syscall()
    h = k.current.host
    f = k.hooks.get('urandom')
    if f is not None:
        return f(h, n)
    r = h.extra.get('entropy')
    if r is None:
        r = h.extra['entropy'] = real.Random('%s|entropy|%s' % (k.entropy_seed, h.name))
    return r.randbytes(n)


K.Kernel.entropy_seed = 0


class SimRandom(real.Random):
    def __init__(self, x=None):
        real.Random.__init__(self, x)

    def seed(self, a=None, version=2):
        if a is None and kern() is not None:
            a = int.from_bytes(_urandom(32), 'big')
        real.Random.seed(self, a, version)


# -- names -----------------------------------------------------------------------
def _getaddrinfo(host, port, family=0, type=0, proto=0, flags=0):
    k = kern()
    if k is None:
        return real.getaddrinfo(host, port, family, type, proto, flags)
    k.syscall()
    f = k.hooks.get('getaddrinfo')
    if f is not None:
        return f(host, port, family, type, proto, flags)
    ip = k.net.resolve(host)
    return [(socket.AF_INET, socket.SOCK_STREAM, 6, '', (ip, port or 0))]


def _gethostbyname(host):
    k = kern()
    if k is None:
        return real.gethostbyname(host)
    k.syscall()
    f = k.hooks.get('getaddrinfo')
    if f is not None:
        return f(host, 0, socket.AF_INET, socket.SOCK_STREAM, 0, 0)[0][4][0]
    d = k.net.dns_delay.get(host)
    if d:
        k.sleep(d)
    return k.net.resolve(host)


def _socket(*a, **kw):
    if kern() is None:
        return real.socket(*a, **kw)
    return N.SimSocket(*a, **kw)


def _select(r, w, x, timeout=None):
    if kern() is None:
        return real.select(r, w, x, timeout)
    return N.sim_select(r, w, x, timeout)


def _urlopen(req, *a, **kw):
    k = kern()
    if k is None:
        return real.urlopen(req, *a, **kw)
    k.syscall()
    f = k.hooks.get('urlopen')
    if f is None:
        raise HarnessError('urlopen not simulated here')
    return f(req, *a, **kw)


def _getpass(prompt='Password: ', stream=None):
    k = kern()
    if k is None:
        return real.getpass(prompt, stream)
    k.syscall()
    f = k.hooks.get('getpass')
    if f is None:
        raise HarnessError('getpass not simulated here')
    return f(prompt)


class Null(io.TextIOBase):
    """Where prints of the code under test go; can be told to record."""
    sink = None

    def writable(self):
        return True

    def write(self, s):
        if self.sink is not None:
            self.sink.append(s)
        return len(s)

    def flush(self):
        pass


null = Null()
_installed = False


def install(repo='/repo'):
    global _installed
    if _installed:
        return
    _installed = True
    time.time = _time
    time.time_ns = _time_ns
    time.monotonic = _monotonic
    time.monotonic_ns = _monotonic_ns
    time.perf_counter = _monotonic
    time.sleep = _sleep
    socket.socket = _SocketFactory
    socket.getaddrinfo = _getaddrinfo
    socket.gethostbyname = _gethostbyname
    select.select = _select
    if hasattr(select, 'poll'):
        select.poll = SimPoll
    os.urandom = _urandom
    if hasattr(os, 'getrandom'):
        os.getrandom = lambda n, flags=0: _urandom(n)
    random._urandom = _urandom
    random.Random = SimRandom
    inst = SimRandom(0)
    random._inst = inst
    for nm in ('seed', 'random', 'uniform', 'triangular', 'randint', 'choice', 'randrange',
               'sample', 'shuffle', 'choices', 'normalvariate', 'lognormvariate',
               'expovariate', 'vonmisesvariate', 'gammavariate', 'gauss', 'betavariate',
               'binomialvariate', 'paretovariate', 'weibullvariate', 'getstate', 'setstate',
               'getrandbits', 'randbytes'):
        if hasattr(inst, nm):
            setattr(random, nm, getattr(inst, nm))
    threading.Thread = SimThreadAPI
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
    threading._CRLock = None
    threading._RLock = threading._PyRLock = SimRLock
    threading._time = _monotonic
    threading.get_ident = _get_ident
    tempfile._Random = SimRandom
    _thread_start = None
    queue.SimpleQueue = queue._PySimpleQueue
    queue.time = _monotonic
    urllib.request.urlopen = _urlopen
    getpass.getpass = _getpass
    from . import vendor
    from .vendor import asyncore
    sys.modules['asyncore'] = asyncore
    from . import simfs
    simfs.install()
    sys.stdout = null
    if repo not in sys.path:
        sys.path.insert(0, repo)
    K.install_monitor(os.path.realpath(repo) + '/nbc/')


class _SocketMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (N.SimSocket, real.socket))

    def __call__(cls, *a, **kw):
        return _socket(*a, **kw)


class _SocketFactory(metaclass=_SocketMeta):
    pass


class SimPoll(object):
    """select.poll over the simulated descriptors (for loops that use poll)."""

    def __init__(self):
        self._m = {}

    def register(self, fd, flags=7):
        self._m[fd if isinstance(fd, int) else fd.fileno()] = flags

    modify = register

    def unregister(self, fd):
        del self._m[fd if isinstance(fd, int) else fd.fileno()]

    def poll(self, timeout=None):
        r = [f for f, fl in self._m.items() if fl & 1]
        w = [f for f, fl in self._m.items() if fl & 4]
        x = [f for f, fl in self._m.items() if fl & 2]
        bad = []
        k = K.current_kernel
        fds = k.current.host.fds
        for lst in (r, w, x):
            for f in list(lst):
                if f not in fds:
                    lst.remove(f)
                    bad.append(f)
        if bad:
            return [(f, 0x20) for f in sorted(set(bad))]
        rr, ww, xx = N.sim_select(r, w, x, None if timeout is None or timeout < 0 else timeout / 1000.0, 1 << 30)
        out = {}
        for f in rr:
            out[f] = out.get(f, 0) | 1
        for f in ww:
            out[f] = out.get(f, 0) | 4
        for f in xx:
            out[f] = out.get(f, 0) | 2               # POLLPRI
        for f in out:
            ep = fds[f].ep if f in fds else None
            if ep is not None and ep.err:
                out[f] |= 0x18                       # POLLERR, POLLHUP
            elif ep is not None and (ep.gone or ep.eof and ep.fin):
                out[f] |= 0x10
        return sorted(out.items())
