"""A simulated POSIX file system.  Threads that belong to a simulated process
(`thread.proc`) see it instead of the real one, for every path; all other code keeps
the real file system.

Every inode has page-cache content (what running processes see) and durable content
(what is on disk).  What was written and not synced is an ordered list of pending
data operations per inode and of directory operations per file system; a power loss
keeps an arbitrary part of them.  Each operation is a point where the run can crash,
fail, be interrupted, or be preempted."""
import builtins
import errno
import fcntl
import io
import os
import shutil
import stat as S
import sys
import tempfile

from . import kernel as K
from .errors import SimKill, HarnessError

real = type('real', (), {})()
FD0 = 1000000


class Inode(object):
    __slots__ = ('ino', 'kind', 'mode', 'uid', 'gid', 'data', 'disk', 'pend', 'ent', 'dent', 'target', 'nlink', 'mtime',
                 'parent', 'flock', 'waiters', 'dmode', 'down', 'secret')

    def __init__(self, ino, kind, mode, uid=0, gid=None):
        self.ino, self.kind, self.mode, self.uid = ino, kind, mode, uid
        self.gid = uid if gid is None else gid
        self.data = bytearray()
        self.disk = bytearray()
        self.pend = []            # ['w', off, bytes, lost] / ['t', size, None, lost]
        self.ent = {} if kind == 'd' else None
        self.dent = {} if kind == 'd' else None
        self.target = None
        self.nlink = 1
        self.mtime = 0
        self.parent = None
        self.flock = []           # [(owner, exclusive)]
        self.waiters = []
        self.dmode = mode
        self.down = (uid, self.gid)
        self.secret = None


class OFD(object):
    """Open file description."""

    def __init__(self, inode, flags, path):
        self.inode, self.flags, self.path = inode, flags, path
        self.pos = 0
        self.refs = 1


class Proc(object):
    """A simulated process: descriptors, working directory, user."""

    def __init__(self, fs, name, cwd='/home/u', uid=1000, gid=None, groups=()):
        self.fs, self.name, self.cwd, self.uid = fs, name, cwd, uid
        self.gid = uid if gid is None else gid
        self.groups = set(groups) | {self.gid}
        self.fds = {}
        self.dead = False
        self.threads = []
        self.umask = 0o022
        self.maxfd = None
        self.pid = 1000 + len(fs.allprocs)
        fs.allprocs.append(self)

    def spawn(self, fn, name=None):
        k = self.fs.k
        th = k.spawn(fn, self.fs.host, name or '%s.%d' % (self.name, len(self.threads)))
        th.proc = self
        self.threads.append(th)
        return th


def err(e, path=None, path2=None):
    if path2 is not None:
        return OSError(e, os.strerror(e), path, None, path2)
    if path is not None:
        return OSError(e, os.strerror(e), path)
    return OSError(e, os.strerror(e))


class FS(object):
    def __init__(self, k, host, sector=512, meta='ordered', capacity=None):
        self.k, self.host = k, host
        self.sector, self.meta = sector, meta
        self.capacity = capacity          # bytes, or None
        self.readonly = False
        self.nino = 1
        self.procs = []
        self.allprocs = []
        self.journal = []                 # directory operations not yet durable
        self.ops = 0
        self.watch = None                 # called after every change with (op, inode, path)
        self.hook = None                  # hook(thread, op, path) -> action or None
        self.root = self.inode('d', 0o755)
        self.root.parent = self.root
        for p, m, u in (('/home', 0o755, 0), ('/home/u', 0o755, 1000), ('/tmp', 0o1777, 0), ('/var', 0o755, 0), ('/var/tmp', 0o1777, 0)):
            self.setup_dir(p, m, u)

    # -- harness side (no faults, durable at once) --------------------------------
    def inode(self, kind, mode, uid=0, gid=None):
        self.nino += 1
        return Inode(self.nino, kind, mode, uid, gid)

    def made(self, kind, mode, proc, d):
        """A file or directory that a process makes in a directory."""
        sg = d.mode & 0o2000
        return self.inode(kind, mode | (sg if kind == 'd' else 0), proc.uid, d.gid if sg else proc.gid)

    def _setup(self, path, n):
        d, name = os.path.split(path)
        d = self.peek(d, True)
        d.ent[name] = d.dent[name] = n
        n.parent = d
        return n

    def setup_dir(self, path, mode=0o755, uid=1000, gid=None):
        n = self.inode('d', mode, uid, gid)
        return self._setup(path, n)

    def setup_link(self, path, target):
        n = self.inode('l', 0o777, 1000)
        n.target = target
        return self._setup(path, n)

    def setup_file(self, path, data=b'', mode=0o644, uid=1000):
        n = self.inode('f', mode, uid)
        n.data[:] = data
        n.disk[:] = data
        return self._setup(path, n)

    def peek(self, path, follow=True):
        """The inode at an absolute path, or None (harness)."""
        try:
            return self.walk(None, path, follow)[2]
        except OSError:
            return None

    def content(self, path):
        n = self.peek(path)
        return None if n is None or n.kind != 'f' else bytes(n.data)

    def listing(self, path):
        n = self.peek(path)
        return sorted(n.ent) if n is not None and n.kind == 'd' else []

    def proc(self, name, **kw):
        p = Proc(self, name, **kw)
        self.procs.append(p)
        return p

    # -- names ---------------------------------------------------------------------
    def walk(self, proc, path, follow=True, depth=0):
        """-> (directory inode, name, inode or None)."""
        orig = path
        if path == '':
            raise err(errno.ENOENT, orig)
        if depth > 40:
            raise err(errno.ELOOP, orig)
        if not path.startswith('/'):
            path = (proc.cwd if proc is not None else '/') + '/' + path
        parts = [x for x in path.split('/') if x]
        must_dir = path.endswith('/') or (parts and parts[-1] == '.')
        cur = self.root
        i = 0
        prefix = ''
        last = (self.root, '.', self.root)
        while i < len(parts):
            x = parts[i]
            if cur.kind != 'd':
                raise err(errno.ENOTDIR, orig)
            if proc is not None and not self.may(proc, cur, 1):
                raise err(errno.EACCES, orig)
            if x == '.':
                nxt, name, d = cur, '.', cur
            elif x == '..':
                nxt, name, d = cur.parent, '..', cur
            else:
                if len(x) > 255:
                    raise err(errno.ENAMETOOLONG, orig)
                d, name = cur, x
                nxt = cur.ent.get(x)
            final = i == len(parts) - 1
            if nxt is None:
                if not final:
                    raise err(errno.ENOENT, orig)
                return (d, name, None)
            if nxt.kind == 'l' and (not final or follow or must_dir):
                t = nxt.target
                if not t.startswith('/'):
                    t = (prefix or '') + '/' + t
                rest = '/'.join(parts[i + 1:])
                return self.walk(proc, t + ('/' + rest if rest else ''), follow, depth + 1)
            last = (d, name, nxt)
            if x == '..':
                prefix = prefix.rsplit('/', 1)[0]
            elif x != '.':
                prefix += '/' + x
            cur = nxt
            i += 1
        if must_dir and last[2].kind != 'd':
            raise err(errno.ENOTDIR, orig)
        return last

    def may(self, proc, n, bits):
        if proc.uid == 0:
            return True
        m = (n.mode >> 6) if n.uid == proc.uid else (n.mode >> 3) if n.gid in proc.groups else n.mode
        return (m & 7 & bits) == bits

    # -- the step every operation takes ----------------------------------------------
    def do(self, op, path, effect, partial=None):
        k = self.k
        th = k.syscall()
        proc = th.proc
        if proc.dead:
            raise SimKill()
        self.ops += 1
        k.record('fs', th.name, op, path)
        k.mark('f', th.name, op)
        act = self.hook(th, op, path) if self.hook is not None else None
        if act is not None:
            what = act[0]
            if what == 'error':
                k.fault('fs-%s' % errno.errorcode.get(act[1], act[1]))
                if op == 'fsync':
                    self.lose_sync(path)
                if op == 'close':
                    effect()
                raise err(act[1], path if isinstance(path, str) else None)
            if what == 'interrupt-before':
                k.fault('interrupt')
                raise KeyboardInterrupt()
            if what in ('power-before', 'kill-before'):
                self.crash(what[:-7], proc)
            if what in ('power-during', 'kill-during'):
                if partial is not None:
                    partial()
                self.crash(what[:-7], proc)
            if what == 'short' and partial is not None:
                k.fault('short-io')
                return partial()
        res = effect()
        if self.watch is not None:
            self.watch(op, path, th)
        if act is not None:
            what = act[0]
            if what == 'interrupt-after':
                k.fault('interrupt')
                if len(act) > 1 and act[1]:
                    act[1]()
                raise KeyboardInterrupt()
            if what in ('power-after', 'kill-after'):
                self.crash(what[:-6], proc)
        return res

    def lose_sync(self, ofd_path):
        pass

    # -- crash ---------------------------------------------------------------------------
    def crash(self, kind, proc=None):
        """Power loss (whole machine) or kill -9 (one process).  Called by the thread
        that crashes (unwinds it) or from an event."""
        k = self.k
        k.fault('power-loss' if kind == 'power' else 'kill')
        k.record('crash', kind)
        victims = list(self.procs) if kind == 'power' else [proc]
        for p in victims:
            if p.dead:
                continue
            p.dead = True
            for fd in sorted(p.fds):
                self.release(p, p.fds[fd])
            p.fds = {}
        if kind == 'power':
            self.power_loss()
        self.procs = [p for p in self.procs if not p.dead]
        me = k.current
        mine = False
        for p in victims:
            for th in p.threads:
                if th is me:
                    mine = True
                elif not th.done:
                    k.kill(th)
        if mine:
            me.killed = True
            raise SimKill()

    def power_loss(self):
        """What the disk holds after the lights go out: all durable state and an
        arbitrary part of the rest."""
        dec = self.k.dec
        j = self.journal
        if self.meta == 'ordered':
            n = dec.pick('pl-journal', len(j) + 1, 0.8)
            n = len(j) if n == 0 else n - 1        # benign: everything made it
            for op in j[:n]:
                self.apply(op)
        else:
            for op in j:
                if not dec.chance('pl-dirop', 0.5):
                    self.apply(op)
        self.journal = []
        seen = set()

        def visit(n):
            if n.ino in seen:
                return
            seen.add(n.ino)
            n.mode = n.dmode
            n.uid, n.gid = n.down
            n.flock, n.waiters = [], []
            if n.kind == 'd':
                n.ent = dict(n.dent)
                for name in sorted(n.ent):
                    c = n.ent[name]
                    if c.kind == 'd':
                        c.parent = n
                    visit(c)
            elif n.kind == 'f':
                self.settle(n, dec)
        visit(self.root)

    def apply(self, op):
        for what, d, name, n in op[0]:
            if what == '+':
                d.dent[name] = n
            else:
                if d.dent.get(name) is n:
                    del d.dent[name]

    def settle(self, n, dec):
        if n.pend:
            how = dec.pick('pl-data', 5, 0.9)      # 0 all, 1 none, 2 prefix, 3 subset, 4 torn subset
            ops = n.pend
            if how == 1:
                ops = []
            elif how == 2:
                ops = ops[:dec.pick('pl-prefix', len(ops) + 1)]
            sec = self.sector
            for what, a, b, lost in ops:
                if how >= 3 and dec.chance('pl-drop', 0.4):
                    continue
                if what == 't':
                    self.resize(n.disk, a)
                    continue
                pos, end = a, a + len(b)
                if how == 4:
                    while pos < end:
                        nx = min(end, (pos // sec + 1) * sec)
                        if not dec.chance('pl-sector', 0.4):
                            self.put(n.disk, pos, b[pos - a:nx - a])
                        elif dec.chance('pl-zero', 0.5):   # size grew, data did not make it
                            if len(n.disk) < nx:
                                self.resize(n.disk, nx)
                        pos = nx
                else:
                    self.put(n.disk, a, b)
            n.pend = []
        n.data = bytearray(n.disk)

    @staticmethod
    def resize(buf, size):
        if len(buf) > size:
            del buf[size:]
        else:
            buf.extend(b'\0' * (size - len(buf)))

    @classmethod
    def put(cls, buf, off, b):
        if len(buf) < off:
            cls.resize(buf, off)
        buf[off:off + len(b)] = b

    # -- durability ------------------------------------------------------------------------
    def sync_inode(self, n, failed=False):
        if n.kind == 'f':
            if failed:
                for op in n.pend:
                    op[3] = True           # the kernel dropped the dirty pages: a later sync will not write them
                return
            keep = []
            for op in n.pend:
                if op[3]:
                    keep.append(op)
                elif op[0] == 't':
                    self.resize(n.disk, op[1])
                else:
                    self.put(n.disk, op[1], op[2])
            n.pend = keep
            n.dmode = n.mode
            n.down = (n.uid, n.gid)
            if self.meta == 'ordered':
                self.commit(None)
        elif n.kind == 'd':
            if failed:
                return
            self.commit(None if self.meta == 'ordered' else n)

    def commit(self, d):
        rest = []
        for op in self.journal:
            if d is None or any(x[1] is d for x in op[0]):
                self.apply(op)
            else:
                rest.append(op)
        self.journal = rest

    def dirop(self, *changes):
        for what, d, name, n in changes:
            if what == '+':
                d.ent[name] = n
                if n.kind == 'd':
                    n.parent = d
            else:
                d.ent.pop(name, None)
            d.mtime = self.k.now
        self.journal.append([list(changes)])

    def used(self):
        tot, seen = 0, set()
        stack = [self.root]
        while stack:
            n = stack.pop()
            if n.ino in seen:
                continue
            seen.add(n.ino)
            if n.kind == 'd':
                stack.extend(n.ent.values())
            else:
                tot += len(n.data)
        return tot

    def room(self, n, newsize):
        if self.capacity is None:
            return newsize
        extra = newsize - len(n.data)
        if extra <= 0:
            return newsize
        free = max(0, self.capacity - self.used())
        return newsize if extra <= free else len(n.data) + free

    # -- files ------------------------------------------------------------------------------
    def open(self, path, flags, mode=0o777):
        proc = self.k.current.proc

        def effect():
            if proc.maxfd is not None and len(proc.fds) >= proc.maxfd:
                raise err(errno.EMFILE, path)
            acc = flags & 3
            wr = acc in (1, 2)
            follow = not flags & os.O_NOFOLLOW and not (flags & os.O_CREAT and flags & os.O_EXCL)
            d, name, n = self.walk(proc, path, follow)
            tmpf = getattr(os, 'O_TMPFILE', 0)
            if tmpf and flags & tmpf == tmpf:
                raise err(errno.EOPNOTSUPP, path)
            if n is None:
                if not flags & os.O_CREAT:
                    raise err(errno.ENOENT, path)
                if self.readonly:
                    raise err(errno.EROFS, path)
                if not self.may(proc, d, 3):
                    raise err(errno.EACCES, path)
                if self.capacity is not None and self.used() >= self.capacity:
                    raise err(errno.ENOSPC, path)
                n = self.made('f', mode & ~proc.umask & 0o7777, proc, d)
                self.dirop(('+', d, name, n))
            else:
                if flags & os.O_CREAT and flags & os.O_EXCL:
                    raise err(errno.EEXIST, path)
                if n.kind == 'l':
                    raise err(errno.ELOOP, path)
                if flags & os.O_DIRECTORY and n.kind != 'd':
                    raise err(errno.ENOTDIR, path)
                if n.kind == 'd' and wr:
                    raise err(errno.EISDIR, path)
                if wr and self.readonly:
                    raise err(errno.EROFS, path)
                need = (4 if acc in (0, 2) else 0) | (2 if wr else 0)
                if not self.may(proc, n, need):
                    raise err(errno.EACCES, path)
                if flags & os.O_TRUNC and n.kind == 'f' and wr:
                    self.trunc(n, 0)
            o = OFD(n, flags, path)
            fd = FD0
            while fd in proc.fds:
                fd += 1
            proc.fds[fd] = o
            return fd
        return self.do('open', path, effect)

    def trunc(self, n, size):
        if len(n.data) != size:
            self.resize(n.data, size)
            n.pend.append(['t', size, None, False])
        n.mtime = self.k.now

    def fdo(self, fd):
        if self.k.current.proc.dead:
            raise SimKill()
        o = self.k.current.proc.fds.get(fd)
        if o is None:
            raise err(errno.EBADF)
        return o

    def write(self, fd, b, at=None):
        o = self.fdo(fd)
        b = bytes(b)
        if not o.flags & 3:
            raise err(errno.EBADF)
        n = o.inode
        half = self.k.dec.pick('short-w', len(b)) if len(b) > 1 else 0

        def effect(b=b):
            if self.readonly:
                raise err(errno.EROFS)
            off = len(n.data) if o.flags & os.O_APPEND else o.pos if at is None else at
            lim = self.room(n, off + len(b))
            if lim < off + len(b):
                self.k.fault('fs-full')
                b = b[:max(0, lim - off)]
                if not b:
                    raise err(errno.ENOSPC)
            self.put(n.data, off, b)
            n.pend.append(['w', off, b, False])
            n.mtime = self.k.now
            if at is None:
                o.pos = off + len(b)
            if o.flags & (os.O_SYNC | os.O_DSYNC):
                self.sync_inode(n)
            return len(b)
        return self.do('write', o.path, effect, (lambda: effect(b[:max(1, half)])) if len(b) > 1 else None)

    def read(self, fd, size, at=None):
        o = self.fdo(fd)
        if o.flags & 3 == 1:
            raise err(errno.EBADF)
        if o.inode.kind == 'd':
            raise err(errno.EISDIR)

        def effect(size=size):
            off = o.pos if at is None else at
            r = bytes(o.inode.data[off:off + size])
            if at is None:
                o.pos = off + len(r)
            return r
        part = None
        if size > 1:
            left = len(o.inode.data) - o.pos
            half = self.k.dec.pick('short-r', max(1, min(size, left))) if left > 1 else 0
            part = lambda: effect(max(1, half))      # noqa: E731
        return self.do('read', o.path, effect, part)

    def fsync(self, fd, all=False):
        o = self.fdo(fd)
        k = self.k

        def effect():
            self.sync_inode(o.inode)
        self.lose_sync = lambda p: self.sync_inode(o.inode, True)
        self.do('fsync', o.path, effect)

    def sync(self):
        def effect():
            for n in self.all_inodes():
                self.sync_inode(n)
            self.commit(None)
        self.do('sync', '/', effect)

    def all_inodes(self, durable=False):
        out, seen, stack = [], set(), [self.root]
        while stack:
            n = stack.pop()
            if n.ino in seen:
                continue
            seen.add(n.ino)
            out.append(n)
            if n.kind == 'd':
                stack.extend(n.ent[x] for x in sorted(n.ent))
                if durable:         # and what a crash may bring back
                    stack.extend(n.dent[x] for x in sorted(n.dent))
        return out

    def close(self, fd):
        o = self.fdo(fd)
        proc = self.k.current.proc

        def effect():
            if proc.fds.pop(fd, None) is not None:
                self.release(proc, o)
        self.do('close', o.path, effect)

    def release(self, proc, o):
        o.refs -= 1
        n = o.inode
        n.flock = [x for x in n.flock if not (x[0] is proc or (x[0] is o and o.refs <= 0))]
        self.unlock_wake(n)

    def dup(self, fd, cloexec=True):
        o = self.fdo(fd)
        proc = self.k.current.proc
        n = FD0
        while n in proc.fds:
            n += 1
        proc.fds[n] = o
        o.refs += 1
        return n

    def lseek(self, fd, off, how=0):
        o = self.fdo(fd)
        base = {0: 0, 1: o.pos, 2: len(o.inode.data)}[how]
        if base + off < 0:
            raise err(errno.EINVAL)
        o.pos = base + off
        return o.pos

    def ftruncate(self, fd, size):
        o = self.fdo(fd)
        self.do('truncate', o.path, lambda: self.trunc(o.inode, size))

    # -- names, again ------------------------------------------------------------------------
    def st(self, n):
        fmt = {'f': S.S_IFREG, 'd': S.S_IFDIR, 'l': S.S_IFLNK}[n.kind]
        size = len(n.data) if n.kind == 'f' else len(n.target) if n.kind == 'l' else 4096
        t = (K.EPOCH + n.mtime) / 1e6
        ns = (K.EPOCH + n.mtime) * 1000
        return os.stat_result((fmt | n.mode, n.ino, 1, n.nlink, n.uid, n.gid, size, int(t), int(t), int(t)),
                              dict(st_atime=t, st_mtime=t, st_ctime=t, st_atime_ns=ns, st_mtime_ns=ns, st_ctime_ns=ns,
                                   st_blksize=4096, st_blocks=(size + 511) // 512, st_rdev=0))

    def stat(self, path, follow=True):
        proc = self.k.current.proc

        def effect():
            n = self.walk(proc, path, follow)[2]
            if n is None:
                raise err(errno.ENOENT, path)
            return self.st(n)
        return self.do('stat', path, effect)

    def fstat(self, fd):
        o = self.fdo(fd)
        return self.do('fstat', o.path, lambda: self.st(o.inode))

    def parent(self, proc, path):
        d, name, n = self.walk(proc, path, False)
        if self.readonly:
            raise err(errno.EROFS, path)
        if not self.may(proc, d, 3):
            raise err(errno.EACCES, path)
        return d, name, n

    def sticky(self, proc, d, n):
        return d.mode & 0o1000 and proc.uid not in (0, d.uid, n.uid)

    def unlink(self, path):
        proc = self.k.current.proc

        def effect():
            d, name, n = self.parent(proc, path)
            if n is None:
                raise err(errno.ENOENT, path)
            if n.kind == 'd':
                raise err(errno.EISDIR, path)
            if self.sticky(proc, d, n):
                raise err(errno.EPERM, path)
            n.nlink -= 1
            self.dirop(('-', d, name, n))
        self.do('unlink', path, effect)

    def rename(self, a, b):
        proc = self.k.current.proc

        def effect():
            d1, n1, i1 = self.parent(proc, a)
            if i1 is None:
                raise err(errno.ENOENT, a, b)
            d2, n2, i2 = self.parent(proc, b)
            if n1 in ('.', '..') or n2 in ('.', '..'):
                raise err(errno.EBUSY, a, b)
            if i2 is not None:
                if i2 is i1:
                    return
                if i2.kind == 'd' and i1.kind != 'd':
                    raise err(errno.EISDIR, a, b)
                if i1.kind == 'd' and i2.kind != 'd':
                    raise err(errno.ENOTDIR, a, b)
                if i2.kind == 'd' and i2.ent:
                    raise err(errno.ENOTEMPTY, a, b)
                i2.nlink -= 1
            self.dirop(('-', d1, n1, i1), ('+', d2, n2, i1))
        self.do('rename', b, effect)

    def link(self, a, b, follow=True):
        proc = self.k.current.proc

        def effect():
            n = self.walk(proc, a, follow)[2]
            if n is None:
                raise err(errno.ENOENT, a, b)
            if n.kind == 'd':
                raise err(errno.EPERM, a, b)
            d, name, x = self.parent(proc, b)
            if x is not None:
                raise err(errno.EEXIST, a, b)
            n.nlink += 1
            self.dirop(('+', d, name, n))
        self.do('link', b, effect)

    def symlink(self, target, path):
        proc = self.k.current.proc

        def effect():
            d, name, x = self.parent(proc, path)
            if x is not None:
                raise err(errno.EEXIST, path)
            n = self.made('l', 0o777, proc, d)
            n.target = target
            self.dirop(('+', d, name, n))
        self.do('symlink', path, effect)

    def readlink(self, path):
        proc = self.k.current.proc

        def effect():
            n = self.walk(proc, path, False)[2]
            if n is None:
                raise err(errno.ENOENT, path)
            if n.kind != 'l':
                raise err(errno.EINVAL, path)
            return n.target
        return self.do('readlink', path, effect)

    def mkdir(self, path, mode=0o777):
        proc = self.k.current.proc

        def effect():
            d, name, x = self.parent(proc, path)
            if x is not None:
                raise err(errno.EEXIST, path)
            self.dirop(('+', d, name, self.made('d', mode & ~proc.umask, proc, d)))
        self.do('mkdir', path, effect)

    def rmdir(self, path):
        proc = self.k.current.proc

        def effect():
            d, name, n = self.parent(proc, path)
            if n is None:
                raise err(errno.ENOENT, path)
            if n.kind != 'd':
                raise err(errno.ENOTDIR, path)
            if n.ent:
                raise err(errno.ENOTEMPTY, path)
            self.dirop(('-', d, name, n))
        self.do('rmdir', path, effect)

    def chmod(self, what, mode, follow=True):
        proc = self.k.current.proc
        path = self.fdo(what).path if isinstance(what, int) else what

        def effect():
            n = self.fdo(what).inode if isinstance(what, int) else self.walk(proc, what, follow)[2]
            if n is None:
                raise err(errno.ENOENT, path)
            if self.readonly:
                raise err(errno.EROFS, path)
            if proc.uid not in (0, n.uid):
                raise err(errno.EPERM, path)
            n.mode = mode & 0o7777
        self.do('chmod', path, effect)

    def chown(self, what, uid, gid, follow=True):
        proc = self.k.current.proc
        path = self.fdo(what).path if isinstance(what, int) else what

        def effect():
            n = self.fdo(what).inode if isinstance(what, int) else self.walk(proc, what, follow)[2]
            if n is None:
                raise err(errno.ENOENT, path)
            if self.readonly:
                raise err(errno.EROFS, path)
            if proc.uid != 0 and (proc.uid != n.uid or uid not in (-1, n.uid) or gid not in (-1, n.gid) and gid not in proc.groups):
                raise err(errno.EPERM, path)
            n.uid, n.gid = n.uid if uid == -1 else uid, n.gid if gid == -1 else gid
            if n.kind == 'f':
                n.mode &= 0o1777
        self.do('chown', path, effect)

    def truncate(self, path, size):
        proc = self.k.current.proc

        def effect():
            n = self.walk(proc, path)[2]
            if n is None:
                raise err(errno.ENOENT, path)
            if not self.may(proc, n, 2):
                raise err(errno.EACCES, path)
            self.trunc(n, size)
        self.do('truncate', path, effect)

    def listdir(self, path):
        proc = self.k.current.proc

        def effect():
            n = self.fdo(path).inode if isinstance(path, int) else self.walk(proc, path)[2]
            if n is None:
                raise err(errno.ENOENT, path)
            if n.kind != 'd':
                raise err(errno.ENOTDIR, path)
            if not self.may(proc, n, 4):
                raise err(errno.EACCES, path)
            return sorted(n.ent)
        return self.do('listdir', path if not isinstance(path, int) else self.fdo(path).path, effect)

    def access(self, path, mode, follow=True):
        proc = self.k.current.proc

        def effect():
            try:
                n = self.walk(proc, path, follow)[2]
            except OSError:
                return False
            if n is None or (mode & 2 and self.readonly):
                return False
            return self.may(proc, n, mode & 7)
        return self.do('access', path, effect)

    def utime(self, path):
        proc = self.k.current.proc

        def effect():
            n = self.fdo(path).inode if isinstance(path, int) else self.walk(proc, path)[2]
            if n is None:
                raise err(errno.ENOENT, path)
        self.do('utime', path if not isinstance(path, int) else self.fdo(path).path, effect)

    # -- locks ---------------------------------------------------------------------------------
    def unlock_wake(self, n):
        for th in n.waiters:
            self.k.wake(th, True)
        n.waiters = []

    def flock(self, fd, op, posix=False):
        o = self.fdo(fd)
        n = o.inode
        proc = self.k.current.proc
        owner = proc if posix else o
        if op & fcntl.LOCK_UN:
            def effect():
                n.flock = [x for x in n.flock if x[0] is not owner]
                self.unlock_wake(n)
            return self.do('unlock', o.path, effect)
        ex = bool(op & fcntl.LOCK_EX)

        def attempt():
            if any(x[0] is not owner and (ex or x[1]) for x in n.flock):
                return False
            n.flock = [x for x in n.flock if x[0] is not owner] + [(owner, ex)]
            return True
        while not self.do('lock', o.path, attempt):
            if op & fcntl.LOCK_NB:
                raise err(errno.EWOULDBLOCK)
            me = self.k.current
            n.waiters.append(me)
            try:
                self.k.block()
            finally:
                if me in n.waiters:
                    n.waiters.remove(me)


# -- Python's file objects over it --------------------------------------------------------------
def cur():
    """The file system of the simulated process that is running, or None."""
    k = K.current_kernel
    if k is None or k.current is None:
        return None
    p = getattr(k.current, 'proc', None)
    return None if p is None else p.fs


class SimRaw(io.RawIOBase):
    def __init__(self, fs, fd, flags, name, mode, closefd=True):
        self._fs, self._fd, self._flags = fs, fd, flags
        self._proc = fs.k.current.proc
        self.name, self.mode, self.closefd = name, mode, closefd

    def _gone(self):
        """The process is dead: nothing it still buffers reaches the file."""
        if self._proc.dead:
            me = self._fs.k.current
            if me is not None and getattr(me, 'proc', None) is self._proc:
                raise SimKill()
            return True
        return False

    def _check(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')

    def readable(self):
        self._check()
        return self._flags & 3 in (0, 2)

    def writable(self):
        self._check()
        return self._flags & 3 in (1, 2)

    def seekable(self):
        self._check()
        return True

    def fileno(self):
        self._check()
        return self._fd

    def isatty(self):
        return False

    def readinto(self, b):
        self._check()
        if not self._flags & 3 in (0, 2):
            raise io.UnsupportedOperation('not readable')
        if self._gone():
            return 0
        r = self._fs.read(self._fd, len(b))
        b[:len(r)] = r
        return len(r)

    def readall(self):
        out = []
        while True:
            if self._gone():
                return b''
            r = self._fs.read(self._fd, 65536)
            if not r:
                return b''.join(out)
            out.append(r)

    def write(self, b):
        self._check()
        if not self._flags & 3 in (1, 2):
            raise io.UnsupportedOperation('not writable')
        b = bytes(b)
        if self._gone():
            return len(b)
        return self._fs.write(self._fd, b)

    def seek(self, off, how=0):
        self._check()
        if self._gone():
            return 0
        return self._fs.lseek(self._fd, off, how)

    def tell(self):
        return self.seek(0, 1)

    def truncate(self, size=None):
        self._check()
        if self._gone():
            return 0
        if size is None:
            size = self.tell()
        self._fs.ftruncate(self._fd, size)
        return size

    def close(self):
        if self.closed:
            return
        io.RawIOBase.close(self)
        if self.closefd and not self._proc.dead:
            me = self._fs.k.current
            if me is not None and getattr(me, 'proc', None) is self._proc:
                self._fs.close(self._fd)
            elif self._fd in self._proc.fds:      # finalised elsewhere
                o = self._proc.fds.pop(self._fd)
                self._fs.release(self._proc, o)


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    fs = cur()
    if fs is None or (isinstance(file, int) and file < FD0):
        return real.io_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if not isinstance(file, int):
        file = os.fspath(file)
        if isinstance(file, bytes):
            file = os.fsdecode(file)
        if '\0' in file:
            raise ValueError('embedded null byte')
    if not isinstance(mode, str):
        raise TypeError('invalid mode: %r' % mode)
    ms = set(mode)
    if ms - set('axrwb+t') or len(mode) > len(ms):
        raise ValueError('invalid mode: %r' % mode)
    text = 'b' not in ms
    if not text and 't' in ms:
        raise ValueError("can't have text and binary mode at once")
    if len(ms & set('axrw')) != 1:
        raise ValueError('must have exactly one of create/read/write/append mode')
    if not text and (encoding is not None or errors is not None or newline is not None):
        raise ValueError("binary mode doesn't take an encoding argument")
    up = '+' in ms
    flags = os.O_CLOEXEC
    if 'r' in ms:
        flags |= os.O_RDWR if up else os.O_RDONLY
    else:
        flags |= os.O_RDWR if up else os.O_WRONLY
        flags |= os.O_CREAT
        flags |= {'w': os.O_TRUNC, 'x': os.O_EXCL, 'a': os.O_APPEND}[(ms & set('wxa')).pop()]
    own = True
    if isinstance(file, int):
        fd = file
        o = fs.fdo(fd)
        own = closefd
        flags = o.flags
        if fs.st(o.inode).st_mode & S.S_IFDIR == S.S_IFDIR:
            raise err(errno.EISDIR)
    else:
        if not closefd:
            raise ValueError('Cannot use closefd=False with file name')
        if opener is not None:
            fd = opener(file, flags)
            if not isinstance(fd, int):
                raise TypeError('expected integer from opener')
            if fd < 0:
                raise ValueError('opener returned %d' % fd)
        else:
            fd = fs.open(file, flags, 0o666)
        if fs.fdo(fd).inode.kind == 'd':
            fs.close(fd)
            raise err(errno.EISDIR, file)
    raw = SimRaw(fs, fd, flags, file, mode, own)
    if 'a' in ms:
        fs.lseek(fd, 0, 2)
    result = raw
    try:
        line = buffering == 1 and text
        if buffering == 0:
            if not text:
                return raw
            raise ValueError("can't have unbuffered text I/O")
        size = buffering if buffering > 1 else 8192
        if up:
            buf = io.BufferedRandom(raw, size)
        elif 'r' in ms:
            buf = io.BufferedReader(raw, size)
        else:
            buf = io.BufferedWriter(raw, size)
        result = buf
        if not text:
            return buf
        tw = io.TextIOWrapper(buf, encoding, errors, newline, line)
        tw.mode = mode
        return tw
    except BaseException:
        result.close()
        raise


def _p(x):
    x = os.fspath(x)
    return os.fsdecode(x) if isinstance(x, bytes) else x


class _DirEntry(object):
    def __init__(self, fs, base, name):
        self._fs, self.name = fs, name
        self.path = os.path.join(base, name)

    def _n(self, follow=True):
        return self._fs.walk(self._fs.k.current.proc, self.path, follow)[2]

    def is_dir(self, follow_symlinks=True):
        n = self._n(follow_symlinks)
        return n is not None and n.kind == 'd'

    def is_file(self, follow_symlinks=True):
        n = self._n(follow_symlinks)
        return n is not None and n.kind == 'f'

    def is_symlink(self):
        n = self._n(False)
        return n is not None and n.kind == 'l'

    def inode(self):
        return self._n(False).ino

    def stat(self, follow_symlinks=True):
        return self._fs.stat(self.path, follow_symlinks)

    def __fspath__(self):
        return self.path


class _Scan(list):
    def __enter__(self):
        return iter(self)

    def __exit__(self, *a):
        pass

    def close(self):
        pass


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    real.io_open = io.open
    builtins.open = io.open = sim_open
    o = os

    def wrap(name, sim, fdarg=False):
        r = getattr(o, name, None)
        if r is None:
            return
        setattr(real, name, r)

        def f(*a, **kw):
            fs = cur()
            if fs is None:
                return r(*a, **kw)
            if fdarg and a and isinstance(a[0], int) and a[0] < FD0:
                return r(*a, **kw)
            for x in ('dir_fd', 'src_dir_fd', 'dst_dir_fd'):
                if kw.get(x) is not None:
                    raise HarnessError('%s with %s is not simulated' % (name, x))
                kw.pop(x, None)
            return sim(fs, *a, **kw)
        f.__name__ = name
        setattr(o, name, f)
        for s in (o.supports_follow_symlinks, o.supports_fd, o.supports_dir_fd, o.supports_effective_ids):
            if r in s:
                s.add(f)
    wrap('open', lambda fs, path, flags, mode=0o777: fs.open(_p(path), flags, mode))
    wrap('close', lambda fs, fd: fs.close(fd), True)
    wrap('read', lambda fs, fd, n: fs.read(fd, n), True)
    wrap('pread', lambda fs, fd, n, off: fs.read(fd, n, off), True)
    wrap('write', lambda fs, fd, b: fs.write(fd, b), True)
    wrap('pwrite', lambda fs, fd, b, off: fs.write(fd, b, off), True)
    wrap('writev', lambda fs, fd, bs: fs.write(fd, b''.join(bytes(b) for b in bs)), True)
    wrap('fsync', lambda fs, fd: fs.fsync(fd if isinstance(fd, int) else fd.fileno()), True)
    wrap('fdatasync', lambda fs, fd: fs.fsync(fd if isinstance(fd, int) else fd.fileno()), True)
    wrap('sync', lambda fs: fs.sync())
    wrap('dup', lambda fs, fd: fs.dup(fd), True)
    wrap('lseek', lambda fs, fd, off, how=0: fs.lseek(fd, off, how), True)
    wrap('ftruncate', lambda fs, fd, n: fs.ftruncate(fd, n), True)
    wrap('truncate', lambda fs, p, n: fs.ftruncate(p, n) if isinstance(p, int) else fs.truncate(_p(p), n), True)
    wrap('posix_fallocate', lambda fs, fd, off, n: None, True)
    wrap('posix_fadvise', lambda fs, fd, a, b, c: None, True)
    wrap('fstat', lambda fs, fd: fs.fstat(fd), True)
    wrap('isatty', lambda fs, fd: False, True)
    wrap('set_inheritable', lambda fs, fd, v: None, True)
    wrap('get_inheritable', lambda fs, fd: False, True)
    wrap('stat', lambda fs, p, follow_symlinks=True: fs.fstat(p) if isinstance(p, int) else fs.stat(_p(p), follow_symlinks), True)
    wrap('lstat', lambda fs, p: fs.stat(_p(p), False))
    wrap('readlink', lambda fs, p: os.fsencode(fs.readlink(_p(p))) if isinstance(p, bytes) else fs.readlink(_p(p)))
    wrap('symlink', lambda fs, a, b, target_is_directory=False: fs.symlink(_p(a), _p(b)))
    wrap('link', lambda fs, a, b, follow_symlinks=True: fs.link(_p(a), _p(b), follow_symlinks))
    wrap('rename', lambda fs, a, b: fs.rename(_p(a), _p(b)))
    wrap('replace', lambda fs, a, b: fs.rename(_p(a), _p(b)))
    wrap('unlink', lambda fs, p: fs.unlink(_p(p)))
    wrap('remove', lambda fs, p: fs.unlink(_p(p)))
    wrap('chmod', lambda fs, p, mode, follow_symlinks=True: fs.chmod(p if isinstance(p, int) else _p(p), mode, follow_symlinks), True)
    wrap('lchmod', lambda fs, p, mode: fs.chmod(_p(p), mode, False))
    wrap('fchmod', lambda fs, fd, mode: fs.chmod(fd, mode), True)
    wrap('chown', lambda fs, p, u, g, follow_symlinks=True: fs.chown(p if isinstance(p, int) else _p(p), u, g, follow_symlinks), True)
    wrap('lchown', lambda fs, p, u, g: fs.chown(_p(p), u, g, False))
    wrap('fchown', lambda fs, fd, u, g: fs.chown(fd, u, g), True)
    wrap('utime', lambda fs, p, times=None, ns=None, follow_symlinks=True: fs.utime(p if isinstance(p, int) else _p(p)), True)
    wrap('access', lambda fs, p, mode, effective_ids=False, follow_symlinks=True: fs.access(_p(p), mode, follow_symlinks))
    wrap('listdir', lambda fs, p='.': fs.listdir(p if isinstance(p, int) else _p(p)), True)

    def scandir(fs, p='.'):
        p = _p(p)
        return _Scan(_DirEntry(fs, p, x) for x in fs.listdir(p))
    wrap('scandir', scandir)
    wrap('mkdir', lambda fs, p, mode=0o777: fs.mkdir(_p(p), mode))
    wrap('rmdir', lambda fs, p: fs.rmdir(_p(p)))
    wrap('getcwd', lambda fs: fs.k.current.proc.cwd)
    wrap('getcwdb', lambda fs: os.fsencode(fs.k.current.proc.cwd))

    def chdir(fs, p):
        p = _p(p)
        proc = fs.k.current.proc
        n = fs.walk(proc, p)[2]
        if n is None:
            raise err(errno.ENOENT, p)
        proc.cwd = os.path.normpath(os.path.join(proc.cwd, p))
    wrap('chdir', chdir)

    def umask(fs, m):
        proc = fs.k.current.proc
        old, proc.umask = proc.umask, m & 0o777
        return old
    wrap('umask', umask)
    wrap('listxattr', lambda fs, p=None, follow_symlinks=True: [])
    wrap('getuid', lambda fs: fs.k.current.proc.uid)
    wrap('geteuid', lambda fs: fs.k.current.proc.uid)
    wrap('getgid', lambda fs: fs.k.current.proc.gid)
    wrap('getegid', lambda fs: fs.k.current.proc.gid)
    wrap('getgroups', lambda fs: sorted(fs.k.current.proc.groups))
    wrap('getpid', lambda fs: fs.k.current.proc.pid)
    for name in ('copy_file_range', 'sendfile', 'splice'):
        def no(*a, _r=getattr(o, name, None), **kw):
            if cur() is None:
                return _r(*a, **kw)
            raise err(errno.ENOSYS)
        if hasattr(o, name):
            setattr(o, name, no)
    shutil._USE_CP_SENDFILE = False
    rf, rl = fcntl.flock, fcntl.lockf

    def fdof(x):
        return x if isinstance(x, int) else x.fileno()

    def flock(fd, op):
        fs = cur()
        if fs is None or fdof(fd) < FD0:
            return rf(fd, op)
        return fs.flock(fdof(fd), op)

    def lockf(fd, op, *a):
        fs = cur()
        if fs is None or fdof(fd) < FD0:
            return rl(fd, op, *a)
        return fs.flock(fdof(fd), op, True)
    fcntl.flock, fcntl.lockf = flock, lockf
    sys.unraisablehook = lambda x: None


def reset_temp():
    """Names tempfile picks are part of the run, not of the worker process."""
    tempfile._name_sequence = None
    tempfile.tempdir = None
