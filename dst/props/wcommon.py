"""Shared pieces of the wallet checks."""
import errno
import os
import pathlib
import random

from .common import SEC, MS, sort_t, fmt
from .. import loader, simfs
from .. import refwallet as R
from ..errors import Violation, HarnessError, SimKill

WPATHS = ('/home/u/w.json', 'w.json', 'link.json', 'sub/w.json', '/home/u/../u/w.json', './w.json')

MOD = ('open', 'write', 'fsync', 'close', 'rename', 'unlink', 'chmod', 'chown', 'truncate', 'link', 'mkdir', 'utime', 'symlink')
ERRS = {
    'open': ('EIO', 'ENOSPC', 'EMFILE', 'ENFILE', 'EACCES', 'EROFS', 'EDQUOT', 'EINTR', 'ENOMEM'),
    'write': ('EIO', 'ENOSPC', 'EDQUOT', 'EFBIG'),
    'read': ('EIO',), 'fsync': ('EIO', 'ENOSPC', 'EDQUOT'), 'close': ('EIO', 'ENOSPC', 'EDQUOT'),
    'rename': ('EIO', 'ENOSPC', 'EACCES', 'EROFS', 'EPERM', 'EBUSY', 'EDQUOT'), 'unlink': ('EIO', 'EROFS', 'EPERM', 'EACCES'),
    'chown': ('EPERM', 'EROFS', 'EIO', 'EINVAL'), 'chmod': ('EPERM', 'EROFS', 'EIO', 'EACCES'), 'stat': ('EIO', 'EACCES'), 'fstat': ('EIO',), 'readlink': ('EIO',), 'truncate': ('EIO', 'EROFS', 'ENOSPC'),
    'lock': ('ENOLCK', 'EIO'), 'link': ('EIO', 'EPERM', 'ENOSPC', 'EROFS'), 'mkdir': ('ENOSPC', 'EROFS'), 'access': (), 'listdir': ('EIO',),
}


class Ctl(object):
    """Faults of one call: each is dict(at=n-th operation | op=name,nth=n, act=..., err=index, sticky=bool)."""

    def __init__(self, fs, faults, before=None):
        self.fs, self.faults = fs, [dict(f) for f in faults or ()]
        self.n = 0
        self.count = {}
        self.sticky = None
        self.fired = []            # [(op, act, errno name)]
        self.before = before       # called when a fault is about to be injected

    def step(self, op, path):
        self.n += 1
        c = self.count[op] = self.count.get(op, 0) + 1
        if self.sticky is not None and op in MOD and op != 'close':
            e = ERRS.get(op, ())
            name = self.sticky if self.sticky in e else e[0] if e else None
            if name:
                return ('error', getattr(errno, name))
        for f in self.faults:
            if f.get('done'):
                continue
            if f.get('at') == self.n or (f.get('op') == op and f.get('nth', 1) == c):
                f['done'] = True
                act = f['act']
                if act == 'error':
                    if f.get('nostat') and op in ('stat', 'readlink'):
                        continue       # a link that cannot be examined is replaced by a file: other names then differ
                    e = ERRS.get(op, ())
                    if not e:
                        continue
                    name = e[f.get('err', 0) % len(e)]
                    if self.before:
                        self.before()
                    self.fired.append((op, act, name))
                    if f.get('sticky'):
                        self.sticky = name
                    return ('error', getattr(errno, name))
                if self.before and not act.endswith('-after'):
                    self.before()
                self.fired.append((op, act, None))
                if act == 'interrupt-after':
                    return (act, self.before)
                return (act,)
        return None


def install_hook(fs):
    def hook(th, op, path):
        c = getattr(th, 'ctl', None)
        return c.step(op, path) if c is not None else None
    fs.hook = hook


# -- wallets ----------------------------------------------------------------------------
_pool = []


def keypool():
    if not _pool:
        r = random.Random('keys')
        for i in range(24):
            d = r.randrange(1, R.N)
            if i == 0:
                d = r.randrange(1, 1 << 200)       # short key
            _pool.append((d, R.mulG(d)))
    return _pool


def gen_wallet(r, light=True):
    """A description of a wallet; `light` avoids point multiplications on load."""
    if light:
        kind = r.choice(('HD',) * 8 + ('HDpub',) * 3 + ('Apub',) * 2)
        return dict(kind=kind, key=r.randrange(24), s=r.getrandbits(32), vcn=r.choice((0, 1, 255, 0xffff, r.randrange(65536))),
                    testnet=r.random() < 0.3, depth=r.choice((0, 0, 1, 3, 255)), comp=False)
    kind = r.choice(('HD', 'HD', 'HDpub', 'Apub', 'A', 'A'))
    return dict(kind=kind, key=r.randrange(24), s=r.getrandbits(32), vcn=r.choice((0, 1, 255, 0xffff, r.randrange(65536))),
                testnet=r.random() < 0.3, depth=r.choice((0, 0, 1, 3, 255)), comp=r.random() < 0.7)


class Wal(object):
    """A wallet object under test and what is known about it independently."""

    def __init__(self, ns, spec, path=None):
        self.spec = spec
        r = random.Random(spec['s'])
        d, pt = keypool()[spec['key']]
        self.kind = spec['kind']
        tn, vcn = spec['testnet'], spec['vcn']
        if self.kind in ('HD', 'HDpub'):
            chain = r.randbytes(32)
            depth = spec['depth']
            pfp = r.randbytes(4) if depth else b'\0' * 4
            num = r.choice((0, 1, 0x80000000, 0xffffffff, r.getrandbits(32))) if depth else 0
            H = ns.wallet.HDWallet
            if self.kind == 'HD':
                key = d = (d + r.getrandbits(255)) % R.N or 1
                self.prv = key.to_bytes(32, 'big')
                self.obj = H(key, chain, vcn=vcn, testnet=tn, depth=depth, parentfp=pfp, childnum=num)
                self.id = ('HD', self.prv, chain, vcn, tn, depth, pfp, num)
            else:
                ec = ns.util.ecdsa.ellipticcurve
                curve = ns.util.ecdsa.SECP256k1
                self.prv = None
                self.obj = H(ec.Point(curve.curve, pt[0], pt[1]), chain, vcn=vcn, testnet=tn, depth=depth, parentfp=pfp, childnum=num)
                self.id = ('HDpub', R.comp(pt), chain, vcn, tn, depth, pfp, num)
        else:
            A = ns.wallet.Address
            comp = spec['comp']
            if self.kind == 'A':
                self.prv = d.to_bytes(32, 'big')
                w = R.wif(self.prv, comp).encode()
                self.obj = A(privKey=w, vcn=vcn, testnet=tn)
            else:
                self.prv = None
                self.obj = A(pubKey=R.comp(pt) if comp else R.uncomp(pt), vcn=vcn, testnet=tn)
            self.id = (self.kind, self.prv, R.uncomp(pt), vcn, tn, comp, R.address(R.comp(pt) if comp else R.uncomp(pt), vcn, tn))
        self.name = '%s#%d' % (self.kind, spec['s'] % 10000)

    def secrets(self):
        """Every usual encoding of the private key."""
        if self.prv is None:
            return []
        return encodings(self.prv, self.id)


def encodings(prv, ident=None):
    import base64
    out = [prv, prv[::-1], prv.hex().encode(), prv.hex().upper().encode(), prv[::-1].hex().encode(), base64.b64encode(prv).rstrip(b'='),
           base64.urlsafe_b64encode(prv).rstrip(b'='), base64.b32encode(prv).rstrip(b'='), str(int.from_bytes(prv, 'big')).encode(),
           R.wif(prv, True).encode(), R.wif(prv, False).encode(), R.wif(prv, True).encode().hex().encode(), R.wif(prv, False).encode().hex().encode(),
           base64.b64encode(R.wif(prv, True).encode()).rstrip(b'='), base64.b64encode(R.wif(prv, False).encode()).rstrip(b'=')]
    out.append(R.b58(prv).encode())
    if ident and ident[0] == 'HD':
        for tn in (False, True):
            h = R.HD(int.from_bytes(prv, 'big'), None, ident[2], tn, ident[5], ident[6], ident[7], 0)
            out.append(h.xkey(True).encode())
    return out


def wif_key(t):
    try:
        raw = R.unb58(t if isinstance(t, str) else t.decode('ascii'))
        if R.dsha(raw[:-4])[:4] == raw[-4:] and raw[0] == 0x80 and len(raw) in (37, 38):
            return raw[1:33]
    except (ValueError, AttributeError):
        pass
    raise Violation('inconsistent-wallet', 'the private key of the wallet, %r, is none' % (t,))


def identity(o):
    """What a loaded wallet is, through its public face (no point multiplication for
    HD wallets with a key)."""
    n = type(o).__name__
    if n == 'HDWallet':
        prv = o.prvkey()
        xk = o.to_extended_key(prv is not None)
        if not isinstance(xk, str):
            xk = xk.decode('ascii')
        raw = R.unb58(xk)
        if R.dsha(raw[:78])[:4] != raw[78:]:
            raise Violation('bad-extended-key', 'extended key with a wrong checksum')
        ver = int.from_bytes(raw[:4], 'big')
        tn = ver in (0x043587CF, 0x04358394)
        if (ver in (0x0488ADE4, 0x04358394)) != (prv is not None):
            raise Violation('bad-extended-key', 'version %x of extended key' % ver)
        body = raw[45:78]
        if prv is not None and body != b'\0' + prv:
            raise Violation('inconsistent-wallet', 'extended key and private key of the loaded wallet differ')
        return ('HD' if prv is not None else 'HDpub', prv if prv is not None else body, raw[13:45], o.vcn, tn, raw[4], raw[5:9],
                int.from_bytes(raw[9:13], 'big'))
    if n == 'Address':
        prv = wif_key(o.privKey) if o.privKey is not None else None
        return ('A' if prv is not None else 'Apub', prv, o.pubKey, o.vcn, bool(o.testnet), bool(o.compressed),
                o.address if isinstance(o.address, str) else o.address.decode('ascii'))
    raise Violation('not-a-wallet', 'loading returned %r' % (o,))


class Call(object):
    """One save or load, with what came of it."""

    def __init__(self, kind, wal=None):
        self.kind, self.wal = kind, wal
        self.start = self.end = None
        self.result = None         # ('ok', id) | ('raised', exception) | None: never came back
        self.ctl = None
        self.obj = None

    ok = property(lambda s: s.result is not None and s.result[0] == 'ok')
    raised = property(lambda s: s.result[1] if s.result is not None and s.result[0] == 'raised' else None)


def do_call(k, th_ctl, call, fn):
    """Runs fn in the current thread as one call of the code under test."""
    th = k.current
    th.ctl = call.ctl = th_ctl
    k.nevent = getattr(k, 'nevent', 0) + 1
    call.start = k.nevent
    try:
        try:
            v = fn()
            th.ctl = None
            if th.killed or th.proc.dead:
                raise SimKill()
            call.result = ('ok', v)
        except SimKill:
            raise
        except BaseException as e:
            if isinstance(e, (Violation, HarnessError)):
                raise
            if th.killed or th.proc.dead:      # a bare except swallowed the unwinding
                raise SimKill()
            e.__traceback__ = None
            call.result = ('raised', e)
    finally:
        th.ctl = None
        k.nevent += 1
        if call.result is not None:
            call.end = k.nevent
            k.record('done', call.kind, call.result[0], str(type(call.result[1]).__name__) if call.result[0] == 'raised' else fmt(call.result[1]))


def spell(k, path):
    """A file name as the program may give it."""
    kind = k.plan.get('names')
    if isinstance(path, str) and kind == 'bytes':
        return os.fsencode(path)
    if isinstance(path, str) and kind == 'Path':
        return pathlib.PurePosixPath(path)
    return path


def save(k, ns, call, path, wal, pw, ctl):
    path = spell(k, path)

    def fn():
        if pw is None:
            ns.wallet.saveTo(path, wal.obj)
        else:
            ns.wallet.saveTo(path, wal.obj, pw)
        return wal.id
    do_call(k, ctl, call, fn)
    return call


def load(k, ns, call, path, pw, ctl):
    path = spell(k, path)

    def fn():
        call.obj = ns.wallet.loadFrom(path) if pw is None else ns.wallet.loadFrom(path, pw)
        th = k.current
        th.ctl = None
        return identity(call.obj)
    do_call(k, ctl, call, fn)
    return call


def in_proc(k, fs, fn, name='p', limit=3600, cwd='/home/u', **kw):
    """Runs fn(proc) in a process of its own, to the end."""
    p = fs.proc('%s%d' % (name, len(fs.allprocs)), cwd=cwd, **kw)
    th = p.spawn(lambda: fn(p))
    if not k.run_until(lambda: th.done, k.now + limit * SEC, SEC):
        raise Violation('stuck', 'a wallet operation did not come back within %d s' % limit)
    if th.error is not None:
        raise th.error
    return th.result


def boot(ctx, name='box', sector=512, meta='ordered', capacity=None):
    k = ctx.k
    host = k.host(name, None)
    fs = simfs.FS(k, host, sector, meta, capacity)
    install_hook(fs)
    fs.setup_dir('/home/u/sub')
    fs.setup_dir('/home/u/real')
    return fs


def gen_pw(r):
    return r.choice((None, None, 'hunter2-%d' % r.randrange(1000), 'p%08x' % r.getrandbits(32), 'a much longer passphrase than sixteen bytes %d' % r.randrange(99),
                     'p\u00e4ss-%d\u00ff' % r.randrange(1000)))


def b_pw(pw):
    return None if pw is None else pw.encode('latin-1')


def gen_faults(r, crash=True, n=None):
    """0-2 faults of one save."""
    out = []
    for _ in range(r.choice((1, 1, 1, 2)) if n is None else n):
        f = {}
        if r.random() < 0.45:
            f['at'] = r.randrange(1, 24)
        else:
            f['op'] = r.choice(('open', 'write', 'write', 'fsync', 'fsync', 'close', 'rename', 'rename', 'stat', 'chmod', 'unlink', 'truncate'))
            f['nth'] = r.choice((1, 1, 1, 2, 2, 3))
        if crash:
            f['act'] = r.choice(('power-before', 'power-during', 'power-after', 'power-before', 'power-after', 'kill-before', 'kill-during', 'kill-after'))
        else:
            f['act'] = r.choice(('error', 'error', 'error', 'error', 'short', 'interrupt-before', 'interrupt-after'))
            f['err'] = r.randrange(8)
            f['sticky'] = r.random() < 0.2
        out.append(f)
    return out


def fast_ec(ns):
    """Speeds the library's modular inverse up (same values)."""
    nt = ns.util.ecdsa.numbertheory
    slow = nt.inverse_mod

    def fast(a, m):
        try:
            return pow(a, -1, m)
        except (ValueError, TypeError):
            return slow(a, m)
    nt.inverse_mod = fast


def fast_mul(ns):
    """Replaces point multiplication on secp256k1 by the reference one."""
    m = ns.util.ecdsa.ellipticcurve
    Point = m.Point
    slow = Point.__mul__

    def mul(self, k):
        if self == m.INFINITY or not isinstance(k, int) or self.curve().p() != R.P:
            return slow(self, k)
        k %= R.N
        x, y = self.x(), self.y()
        if not k:
            return m.INFINITY
        p = R.mulG(k) if (x, y) == R.G else R.mul((x, y), k)
        return m.INFINITY if p is None else Point(self.curve(), p[0], p[1])
    Point.__mul__ = mul
    Point.__rmul__ = lambda self, k: mul(self, k)
