"""Discrete-event kernel: integer-microsecond virtual time, one event heap, and
simulated threads.  A simulated thread is a real thread, but exactly one runs at
any moment: a thread that blocks picks the next one itself (running due events on
the way) and hands it the baton.  Nothing about the order is left to the OS."""
import hashlib
import heapq
import sys
import _thread

from .errors import Violation, HarnessError, SimKill, Livelock

EPOCH = 1700000000 * 1000000      # wall clock at virtual time 0, in microseconds

real_allocate = _thread.allocate_lock

current_kernel = None             # the kernel of the run in progress (one per process)

MAX_JUMPS = 3000000               # backward jumps in code under test between sim calls
MAX_CALLS = 400000                # sim calls without virtual time moving
MAX_WORK = 1000000                # sim calls and events of one run (the busiest ordinary run: some 60000)


class Host(object):
    """A machine (or process image): its own clock, and later its own sockets,
    disk and entropy."""

    def __init__(self, kernel, name, ip=None):
        self.kernel = kernel
        self.name = name
        self.ip = ip
        self.offset = 0               # wall clock offset in us
        self.mono_offset = 0
        self.up = True
        self.stall_until = 0
        self.extra = {}

    def wall_us(self):
        return EPOCH + self.kernel.now + self.offset

    def wall(self):
        return (EPOCH + self.kernel.now + self.offset) / 1e6


class SimThread(object):
    def __init__(self, kernel, fn, host, name):
        self.kernel = kernel
        self.fn = fn
        self.host = host
        self.name = name
        self.proc = kernel.current.proc if kernel.current is not None else None
        self.lock = real_allocate()
        self.lock.acquire()
        self.killed = False
        self.done = False
        self.started = False
        self.error = None             # exception that escaped from fn
        self.result = None
        self.wake_value = None
        self.blocked = False
        self.timer = None
        self.joiners = []
        self.wait_seq = 0
        self.trace_files = None
        self.ident = None
        self.api = None               # the threading.Thread object of the code under test
        self.num = 0

    def _main(self):
        k = self.kernel
        self.lock.acquire()
        self.ident = _thread.get_ident()
        k.by_ident[self.ident] = self
        try:
            if not self.killed:
                if self.trace_files is not None:
                    sys.settrace(self.trace_files)
                try:
                    self.result = self.fn()
                finally:
                    sys.settrace(None)
        except SimKill:
            pass
        except Livelock as e:
            k.set_fatal(Violation('livelock', str(e)))
        except Violation as e:
            k.set_fatal(e)
        except HarnessError as e:
            k.set_fatal(e)
        except BaseException as e:     # escaped from the code under test 
            self.error = e
            if not self.killed:
                k.on_thread_error(self, e)
        self.done = True
        k.by_ident.pop(self.ident, None)
        for j in self.joiners:
            k.wake(j, True)
        self.joiners = []
        k.record('exit', self.name)
        try:
            nxt = k._next()
        except BaseException as e:     # an event failed
            k.set_fatal(e)
            nxt = k.main
        k._handoff(nxt)


class Kernel(object):
    nevent = 0

    def __init__(self, decisions, verbose=False):
        self.dec = decisions
        self.now = 0
        self.seq = 0
        self.heap = []
        self.ready = []
        self.threads = []
        self.by_ident = {}
        self.hosts = {}
        self.until = 0
        self.stop = False
        self.fatal = None
        self.current = None
        self.main = None
        self.digest = hashlib.sha256()
        self.sig = hashlib.sha256()
        self.nsteps = 0
        self.nswitch = 0
        self.verbose = verbose
        self.log = []
        self.faults = {}              # fault kind -> times it actually fired
        self.probes = {}
        self.calls = 0                # sim calls since time last moved
        self.jumps = 0
        self.work = 0                 # sim calls and events so far
        self.preempt_p = 0.0
        self.napped = 0               # time lost in preemptions, begun and finished
        self.napped_done = 0
        self.preempt_budget = 10 ** 9
        self.thread_error_hook = None
        self.default_host = self.host('host0')
        self.main = SimThread(self, None, self.default_host, 'main')
        self.main.started = True

    # -- bookkeeping ---------------------------------------------------------
    def host(self, name, ip=None):
        h = self.hosts.get(name)
        if h is None:
            h = self.hosts[name] = Host(self, name, ip)
        return h

    def record(self, kind, *args):
        self.nsteps += 1
        s = '%d %s %r' % (self.now, kind, args)
        self.digest.update(s.encode('utf-8', 'backslashreplace'))
        if self.verbose:
            self.log.append(s)

    def mark(self, *args):
        """Contribution to the interleaving signature (order only, no times)."""
        self.sig.update(repr(args).encode('utf-8', 'backslashreplace'))

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def set_fatal(self, e):
        if self.fatal is None:
            self.fatal = e
        self.stop = True

    def on_thread_error(self, th, e):
        self.record('thread-error', th.name, type(e).__name__, str(e))
        if self.thread_error_hook:
            try:
                self.thread_error_hook(th, e)
            except BaseException as e2:
                self.set_fatal(e2)

    # -- events --------------------------------------------------------------
    def at(self, t, fn, *args):
        self.seq += 1
        ev = [t if t > self.now else self.now, self.seq, fn, args]
        heapq.heappush(self.heap, ev)
        return ev

    def after(self, dt, fn, *args):
        return self.at(self.now + int(dt), fn, *args)

    @staticmethod
    def cancel(ev):
        if ev is not None:
            ev[2] = None

    # -- threads -------------------------------------------------------------
    def me(self):
        return self.by_ident.get(_thread.get_ident()) or (
            self.main if self.current is self.main else None)

    def this(self):
        """The simulated thread that holds the baton (events have none)."""
        return self.current

    def spawn(self, fn, host=None, name=None, trace=None):
        host = host or (self.current.host if self.current else self.default_host)
        th = SimThread(self, fn, host, name or 'T%d' % len(self.threads))
        th.trace_files = trace
        th.num = len(self.threads)
        self.threads.append(th)
        th.started = True
        self.record('spawn', th.name)
        _thread.start_new_thread(th._main, ())
        self.ready.append(th)
        return th

    def _next(self):
        """Run due events until some thread may run; returns it (or main)."""
        while True:
            if self.stop:
                return self.main
            if self.ready:
                n = len(self.ready)
                i = self.dec.pick('sched', n, 0.5) if n > 1 else 0
                th = self.ready.pop(i)
                if th.done:
                    continue
                if n > 1:
                    self.mark('s', th.name)
                return th
            while self.heap and self.heap[0][2] is None:
                heapq.heappop(self.heap)
            if not self.heap or self.heap[0][0] > self.until:
                if self.until > self.now and not self.stop:
                    self.now = self.until
                return self.main
            ev = heapq.heappop(self.heap)
            self.work += 1
            if self.work > MAX_WORK:
                raise Violation('livelock', 'busy without end: %d calls and events in %d simulated seconds' % (
                    self.work, self.now // 1000000))
            if ev[0] > self.now:
                self.now = ev[0]
                self.calls = 0
            else:
                self.calls += 1
                if self.calls > MAX_CALLS:
                    raise HarnessError('event livelock at %d: %r' % (self.now, ev[2]))
            fn = ev[2]
            prev, self.current = self.current, None
            self.jumps = 0
            fn(*ev[3])

    def _handoff(self, th):
        self.current = th
        self.nswitch += 1
        th.lock.release()

    def _switch(self):
        """Give up the baton until somebody makes this thread ready again."""
        me = self.current
        try:
            nxt = self._next()
        except (SimKill, Livelock):
            raise
        except BaseException as e:       # an event handler failed
            self.set_fatal(e)
            nxt = self.main
        if nxt is me:
            self.current = me
        else:
            self._handoff(nxt)
            me.lock.acquire()
        self.jumps = 0
        if me.killed:
            raise SimKill()

    def syscall(self):
        """Every simulated call of the code under test passes here."""
        me = self.current
        if me is None:
            return None
        self.jumps = 0
        if me.killed:
            raise SimKill()
        self.calls += 1
        self.work += 1
        if self.work > MAX_WORK:
            raise Livelock('%s is busy without end: %d calls and events in %d simulated seconds' % (
                me.name, self.work, self.now // 1000000))
        if self.calls > MAX_CALLS:
            raise Livelock('%s makes system calls for ever without waiting' % me.name)
        if self.preempt_p and me is not self.main:
            self.preempt('syscall')
        return me

    def preempt(self, label):
        """A point where another ready thread may be scheduled instead."""
        me = self.current
        if me is None or me is self.main or me.killed:
            return
        if self.preempt_budget <= 0:
            return
        if self.dec.chance('pre', self.preempt_p):
            self.preempt_budget -= 1
            # events that are due now may run; a short nap lets timers in
            nap = self.dec.pick('nap', 4, 0.3)
            if nap:
                t = (0, 1000, 50000, 700000)[nap]
                self.napped += t
                self.sleep(t)
                self.napped_done += t
            elif self.ready:
                self.ready.append(me)
                self._switch()

    def yield_(self):
        me = self.current
        self.ready.append(me)
        self._switch()

    def block(self, timeout_us=None):
        """Block the current thread; returns the value passed to wake(), or None
        when the timeout ran out."""
        me = self.current
        if me is None:
            raise HarnessError('an event handler tried to block')
        me.wait_seq += 1
        seq = me.wait_seq
        me.blocked = True
        me.wake_value = None
        timer = None
        if timeout_us is not None:
            timer = self.after(max(0, timeout_us), self._timeout, me, seq)
        try:
            self._switch()
        finally:
            me.blocked = False
            if timer is not None:
                self.cancel(timer)
        return me.wake_value

    def _timeout(self, th, seq):
        if th.blocked and th.wait_seq == seq:
            self.wake(th, None)

    def wake(self, th, value=True):
        if th.blocked:
            th.blocked = False
            th.wake_value = value
            until = th.host.stall_until
            if until > self.now and not th.killed:
                self.at(until, self._ready_later, th)
            else:
                self.ready.append(th)

    def _ready_later(self, th):
        if th.done:
            return
        if th.host.stall_until > self.now and not th.killed:
            self.at(th.host.stall_until, self._ready_later, th)
        elif th not in self.ready:
            self.ready.append(th)

    def sleep(self, us):
        self.block(max(0, int(us)))

    def join(self, th, timeout_us=None):
        if th.done:
            return True
        me = self.current
        th.joiners.append(me)
        r = self.block(timeout_us)
        if not r and me in th.joiners:
            th.joiners.remove(me)
        return bool(r)

    def holding(self):
        """Threads of the code under test that would keep the program from ending."""
        return [t for t in self.threads if t.api is not None and not t.done and not t.api.daemon]

    def kill(self, th):
        """The thread's process is gone: it unwinds at its next sim call without
        touching the simulated world."""
        if th.done or th.killed:
            return
        th.killed = True
        if th is self.current:
            raise SimKill()
        if th.blocked:
            th.blocked = False
            th.wait_seq += 1
            self.ready.append(th)
        elif th not in self.ready:
            self.ready.append(th)

    # -- main ----------------------------------------------------------------
    def run(self, until):
        """Run the world up to virtual time `until` (called by the harness)."""
        self.until = until
        if self.stop and self.fatal:
            raise self.fatal
        self.current = self.main
        self.main.blocked = True
        try:
            nxt = self._next()
        except BaseException as e:
            self.set_fatal(e)
            nxt = self.main
        if nxt is not self.main:
            self._handoff(nxt)
            self.main.lock.acquire()
        self.current = self.main
        self.main.blocked = False
        if self.fatal is not None:
            raise self.fatal

    def run_until(self, cond, limit, step=100000):
        """Run until cond() holds (checked every `step`) or `limit` passes."""
        while not cond():
            if self.now >= limit:
                return False
            self.run(min(limit, self.now + step))
        return True

    def shutdown(self):
        """End every simulated thread."""
        for th in list(self.threads):
            th.killed = True
        self.stop = False
        self.fatal, fatal = None, self.fatal
        self.heap = []
        for _ in range(len(self.threads) * 4 + 4):
            alive = [t for t in self.threads if not t.done]
            if not alive:
                break
            for t in alive:
                if t.blocked:
                    t.blocked = False
                    t.wait_seq += 1
            self.ready = alive
            self.until = self.now
            self.heap = []
            self.current = self.main
            try:
                nxt = self._next()
            except BaseException:
                break
            if nxt is not self.main:
                self._handoff(nxt)
                self.main.lock.acquire()
            self.current = self.main
        self.fatal = fatal

    def result_digest(self):
        return self.digest.hexdigest()[:24]

    def signature(self):
        return self.sig.hexdigest()[:16]


# -- livelock detection inside the code under test ---------------------------
_TOOL = 3
_prefix = None


def _on_jump(code, offset, dest):
    if not code.co_filename.startswith(_prefix):
        return sys.monitoring.DISABLE
    if dest > offset:
        return
    k = current_kernel
    if k is not None:
        k.jumps += 1
        if k.jumps > MAX_JUMPS:
            k.jumps = 0
            raise Livelock('endless loop in %s (%s)' % (code.co_name, code.co_filename))


def install_monitor(prefix):
    global _prefix
    _prefix = prefix
    mon = sys.monitoring
    mon.use_tool_id(_TOOL, 'dst')
    mon.register_callback(_TOOL, mon.events.JUMP, _on_jump)
    mon.set_events(_TOOL, mon.events.JUMP)
