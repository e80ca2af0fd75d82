"""W05: a wallet keeps its identity through any history."""
import json

from .wcommon import *

NODE = False
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'golden.json')) as _f:
    GOLD = json.load(_f)       # tools/gen_golden.py
loader.PREEMPT = ()
FILES = ('/home/u/w.json', 'b.json', 'sub/c.json')
KINDS = ('master', 'child', 'child', 'child', 'hard', 'export', 'import', 'watch', 'save', 'save', 'save', 'save', 'save', 'save', 'load', 'load', 'load', 'load', 'copyfile', 'reboot',
         'sign', 'rederive', 'address', 'watchaddr', 'compress', 'decompress', 'asaddress', 'golden', 'kill', 'misuse',
         'foreign', 'foreign', 'foreignaddr', 'damaged')


def gen(r, tier, i):
    ops = [dict(k=r.choice(('master', 'master', 'foreign', 'foreignaddr', 'address')), host=0, s=r.getrandbits(32))]
    for _ in range(r.choice((2, 4, 6, 9, 14))):
        k = r.choice(KINDS)
        o = dict(k=k, host=r.randrange(2), s=r.getrandbits(32), a=r.randrange(99), b=r.randrange(99), file=r.randrange(len(FILES)), f=[])
        if k == 'save' and r.random() < 0.3:
            o['f'] = gen_faults(r, r.random() < 0.8)
        ops.append(o)
    return dict(ops=ops, fast=r.random() < 0.85, s=r.getrandbits(32), clock=[r.choice((0, 3600, -86400, 10 ** 9)) for _ in range(2)],
                meta=r.choice(('ordered', 'loose')))


class RA(object):
    """Reference single-key wallet."""

    def __init__(self, key, pub, vcn, tn, comp):
        self.key, self.pub, self.vcn, self.testnet, self.comp = key, pub, vcn, tn, comp

    def pubkey(self):
        return R.comp(self.pub) if self.comp else R.uncomp(self.pub)

    def address(self):
        return R.address(self.pubkey(), self.vcn, self.testnet)

    def watch(self):
        return RA(None, self.pub, self.vcn, self.testnet, self.comp)


def txt(x):
    return x if isinstance(x, str) else x.decode('ascii')


def eq(what, got, want, slot):
    if got != want:
        raise Violation('identity', '%s of %s is %s instead of %s' % (what, slot.how, fmt(got), fmt(want)))


class Slot(object):
    def __init__(self, obj, ref, how):
        self.obj, self.ref, self.how = obj, ref, how
        self.hd = isinstance(ref, R.HD)

    def check(self):
        o, f = self.obj, self.ref
        eq('kind', type(o).__name__, 'HDWallet' if self.hd else 'Address', self)
        if self.hd:
            eq('private key', o.prvkey(), None if f.key is None else f.key.to_bytes(32, 'big'), self)
            eq('chain code', o.chain(), f.chain, self)
            eq('vcn', o.vcn, f.vcn, self)
            eq('depth', o.depth(), f.depth, self)
            eq('parent fingerprint', o.parentfp(), f.parentfp, self)
            eq('child number', o.childnum(), f.childnum, self)
            eq('public key', o.pubkey(), R.uncomp(f.pub)[1:], self)
            eq('fingerprint', o.fingerprint(), R.h160(R.comp(f.pub))[:4], self)
            eq('address', txt(o.address()), f.address(), self)
            eq('extended public key', txt(o.to_extended_key()), f.xkey(False), self)
            if f.key is not None:
                eq('extended private key', txt(o.to_extended_key(True)), f.xkey(True), self)
            else:
                try:
                    x = o.to_extended_key(include_prv=True)
                except Exception:
                    x = None
                if x is not None:
                    raise Violation('watch-only-key', '%s exports %r as private key' % (self.how, x))
        else:
            eq('private key', o.privKey if o.privKey is None else txt(o.privKey), None if f.key is None else R.wif(f.key.to_bytes(32, 'big'), f.comp), self)
            eq('public key', o.pubKey, R.uncomp(f.pub), self)
            eq('public key form', o.publicKey(), f.pubkey(), self)
            eq('vcn', o.vcn, f.vcn, self)
            eq('network', bool(o.testnet), bool(f.testnet), self)
            eq('compression', bool(o.compressed), f.comp, self)
            eq('address', txt(o.address), f.address(), self)
        s = str(o)
        if f.key is not None:
            for e in encodings(f.key.to_bytes(32, 'big')):
                if len(e) > 20 and e.decode('latin-1') in s:
                    raise Violation('secret-printed', 'printing %s shows its private key' % self.how)


def run(ctx):
    plan, k = ctx.plan, ctx.k
    hosts = []
    rnd = [0]

    class H(object):
        pass

    def ns_of(h):
        if h.ns is None:
            h.ns = loader.fresh(False)
            if plan['fast']:
                fast_ec(h.ns)
        return h.ns
    for i in range(2):
        h = H()
        h.fs = boot(ctx, 'host%c' % 'AB'[i], meta=plan['meta'])
        h.fs.host.offset = plan['clock'][i] * SEC
        h.slots, h.files, h.ns = [], {}, None     # files: path -> list of (ref, pw) it may hold
        h.proc = None
        h.name = 'AB'[i]
        hosts.append(h)
    k.hooks['getpass'] = lambda p: (_ for _ in ()).throw(EOFError())
    papers = []         # extended keys written down: (text, ref, private)

    def act(h, fn):
        """fn() in the machine's current process; -> its result, or None when cut short."""
        if h.proc is None or h.proc.dead:
            h.proc = h.fs.proc('user%s%d' % (h.name, len(h.fs.allprocs)))
        rnd[0] += 1
        random.seed('%s|%s|%d' % (plan['s'], h.name, rnd[0]))     # the library's random state is never the same twice
        th = h.proc.spawn(fn)
        if not k.run_until(lambda: th.done, k.now + 3600 * SEC, SEC):
            raise Violation('stuck', 'a wallet operation did not come back')
        if th.error is not None:
            if 'NoneType' in str(th.error) and isinstance(th.error, (TypeError, AttributeError)):
                raise Violation('no-result', 'a wallet operation gave nothing: %s' % th.error)
            raise th.error
        return th.result

    def lost(h, power):
        """The process (or machine) went down: objects are gone, files remain."""
        h.slots = []
        h.ns = None
        h.proc = None

    def reload(h, path, how):
        c = Call('load')

        def go():
            errors = []
            if (None, None) in h.files[path] and h.fs.content(os.path.join('/home/u', path)) is None:
                if how not in ('kill', 'load', 'after a kill'):
                    del h.files[path]                  # a first save that failed, undone by the crash
                return
            for ref, pw in h.files[path]:
                if ref is None:
                    continue
                try:
                    o = ns_of(h).wallet.loadFrom(spell(k, path)) if pw is None else ns_of(h).wallet.loadFrom(spell(k, path), pw)
                except Exception as e:
                    errors.append('%s: %s' % (type(e).__name__, e))
                    continue
                s = Slot(o, ref, '%s, loaded on %s (%s)' % (kindof(ref), h.name, how))
                try:
                    s.check()
                except Violation as v:
                    errors.append(v.message)
                    continue
                if how not in ('kill', 'load', 'after a kill'):
                    h.files[path] = [(ref, pw)]        # a crash decides what a failed save left
                h.slots.append(s)
                ctx.nontrivial = True
                return
            raise Violation('identity', '%s on %s (%s) is none of the wallets saved there: %s' % (path, h.name, how, '; '.join(errors)))
        act(h, go)

    def kindof(ref):
        if isinstance(ref, R.HD):
            return 'HD wallet depth %d%s' % (ref.depth, '' if ref.key is not None else ' watch-only')
        return 'address%s' % ('' if ref.key is not None else ' watch-only')

    def pick(h, n, want=lambda s: True):
        c = [s for s in h.slots if want(s)]
        return c[n % len(c)] if c else None

    def new(h, obj, ref, how):
        s = Slot(obj, ref, how)
        s.check()
        k.record('wallet', h.name, how[:40], txt(obj.address() if s.hd else obj.address))
        h.slots.append(s)
        del h.slots[:-6]
        return s

    def vcn_of(o, given):
        v = getattr(o, 'vcn', None)
        if given is not None:
            if v != given & 0xffff:
                raise Violation('identity', 'vcn %r given, wallet has %r' % (given, v))
        elif not isinstance(v, int) or not 0 <= v <= 0xffff:
            raise Violation('identity', 'random vcn %r' % (v,))
        return v

    seeds = []

    for o in plan['ops']:
        h = hosts[o['host']]
        r = random.Random(o['s'])
        kind = o['k']
        k.record('op', h.name, kind)
        k.mark('op', h.name, kind)
        if kind in ('reboot', 'kill'):
            p = h.proc
            if kind == 'reboot' or p is None or p.dead:
                k.at(k.now, lambda: h.fs.crash('power'))
            else:
                k.at(k.now, lambda: h.fs.crash('kill', p))
            k.run(k.now + 1)
            lost(h, kind == 'reboot')
            for path in sorted(h.files):
                reload(h, path, 'after a %s' % kind)
            ctx.nontrivial = True
            continue

        def step():
            ns = ns_of(h)
            W = ns.wallet
            if kind == 'master':
                seed = r.choice((b'HDWallet seed', r.randbytes(16), r.randbytes(64), b'', b'x', b'\xff' * 32))
                vcn = r.choice((None, None, 0, 1, 0xffff, r.randrange(65536), 70000))
                tn = r.random() < 0.3
                arg = seed.decode('latin-1') if r.random() < 0.4 else seed
                ob = W.HDWallet.from_master_seed(arg, vcn=vcn, testnet=tn)
                ref = R.HD.master(seed, tn, vcn_of(ob, vcn))
                new(h, ob, ref, 'master wallet made on %s' % h.name)
                seeds.append((seed, tn, ref.vcn, []))
                ref.origin = (seed, tn, [])
            elif kind in ('child', 'hard'):
                s = pick(h, o['a'], lambda s: s.hd and s.ref.depth < 255)
                if s is None:
                    return
                n = r.choice((0, 1, 2, 23, 42, 0x7fffffff, r.getrandbits(31)))
                if kind == 'hard':
                    n |= 0x80000000
                if s.ref.key is None and n & 0x80000000:
                    try:
                        s.obj.child(n)
                    except Exception:
                        return
                    raise Violation('watch-only-key', 'a watch-only wallet derived a hardened child')
                ref = s.ref.child(n)
                if getattr(s.ref, 'origin', None):
                    ref.origin = s.ref.origin[:2] + (s.ref.origin[2] + [n],)
                new(h, s.obj.child(n), ref, 'child %d of %s' % (n, s.how[:60]))
                s.check()
            elif kind == 'rederive':
                s = pick(h, o['a'], lambda s: s.hd and getattr(s.ref, 'origin', None))
                if s is None:
                    return
                seed, tn, path = s.ref.origin
                h2 = hosts[o['b'] % 2]
                ob = ns_of(h2).wallet.HDWallet.from_master_seed(seed, vcn=s.ref.vcn, testnet=tn)
                for n in path:
                    ob = ob.child(n)
                sl = Slot(ob, s.ref if s.ref.key is not None else R_full(s.ref), 'path %s from the same seed' % path)
                sl.check()
            elif kind == 'export':
                s = pick(h, o['a'], lambda s: s.hd)
                if s is None:
                    return
                prv = s.ref.key is not None and r.random() < 0.5
                x = s.obj.to_extended_key(include_prv=prv)
                eq('extended key', txt(x), s.ref.xkey(prv), s)
                papers.append((x, s.ref, prv))
            elif kind == 'import':
                if not papers:
                    return
                x, ref, prv = papers[o['a'] % len(papers)]
                vcn = r.choice((ref.vcn, ref.vcn, None, r.randrange(65536)))
                arg = x if r.random() < 0.5 else txt(x) if r.random() < 0.5 else txt(x).encode()
                ob = W.HDWallet.from_extended_key(arg, vcn=vcn)
                f = R.HD(ref.key if prv else None, ref.pub, ref.chain, ref.testnet, ref.depth, ref.parentfp, ref.childnum, vcn_of(ob, vcn))
                if getattr(ref, 'origin', None):
                    f.origin = ref.origin
                new(h, ob, f, 'wallet imported from an extended %s key on %s' % ('private' if prv else 'public', h.name))
            elif kind == 'damaged':          # a key mistyped or damaged on its way
                d, pt = keypool()[r.randrange(24)]
                if r.random() < 0.5:
                    f = R.HD(d, pt, r.randbytes(32), r.random() < 0.4, 3, r.randbytes(4), 7, 0)
                    t = f.xkey(r.random() < 0.5)
                    use = lambda x: W.HDWallet.from_extended_key(x.encode(), vcn=1)
                else:
                    t = R.wif(d.to_bytes(32, 'big'), r.random() < 0.5)
                    use = lambda x: W.Address(privKey=x.encode(), vcn=1)
                for _ in range(25):
                    i = r.randrange(len(t))
                    j = r.randrange(len(t))
                    how = r.choice(('char', 'char', 'swap', 'cut', 'longer', 'lost'))
                    if how == 'char':
                        x = t[:i] + r.choice(R.ALPHA) + t[i + 1:]
                    elif how == 'swap':
                        l = list(t)
                        l[i], l[j] = l[j], l[i]
                        x = ''.join(l)
                    elif how == 'cut':
                        x = t[:i]
                    elif how == 'longer':
                        x = t + r.choice(R.ALPHA)
                    else:
                        x = t[:i] + t[i + 1:]
                    if x == t:
                        continue
                    k.fault('damaged-key')
                    try:
                        ob = use(x)
                    except Exception:
                        continue
                    raise Violation('damaged-key', 'a key damaged by %s (%s) was accepted as %s' % (how, x, ob))
            elif kind == 'foreign':          # an extended key another program wrote
                d, pt = keypool()[r.randrange(24)]
                depth = r.choice((0, 1, 2, 100, 127, 128, 200, 254, 255))
                z = lambda n: r.choice((r.randbytes(n), b'\0' + r.randbytes(n - 1), b'\0' * n, b'\xff' * n))
                f = R.HD(d, pt, z(32), r.random() < 0.4, depth, z(4) if depth else b'\0' * 4,
                         r.choice((0, 1, 0x7fffffff, 0x80000000, 0xffffffff, r.getrandbits(32))) if depth else 0, 0)
                prv = r.random() < 0.6
                vcn = r.choice((None, 0, 1, 0xffff, r.randrange(65536)))
                ob = W.HDWallet.from_extended_key(f.xkey(prv).encode(), vcn=vcn)
                f.vcn = vcn_of(ob, vcn)
                if not prv:
                    f.key = None
                new(h, ob, f, 'wallet from an extended key of another program')
            elif kind == 'foreignaddr':
                d, pt = keypool()[r.randrange(24)]
                comp, tn, prv = r.random() < 0.5, r.random() < 0.5, r.random() < 0.5
                vcn = r.choice((None, 0, 1, 0xffff, r.randrange(65536)))
                if prv:
                    ob = W.Address(privKey=R.wif(d.to_bytes(32, 'big'), comp).encode(), vcn=vcn, testnet=tn)
                else:
                    ob = W.Address(pubKey=R.comp(pt) if comp else R.uncomp(pt), vcn=vcn, testnet=tn)
                f = RA(d if prv else None, pt, vcn_of(ob, vcn), tn, comp)
                new(h, ob, f, 'address from a key of another program')
                if r.random() < 0.5:
                    x = 'decompress' if comp else 'compress'
                    new(h, getattr(ob, x)(), RA(f.key, pt, f.vcn, tn, not comp), x + 'ed ' + h.slots[-1].how)
            elif kind == 'watch':
                s = pick(h, o['a'], lambda s: s.hd)
                if s is None:
                    return
                f = s.ref.watch()
                ob = W.HDWallet.from_extended_key(s.obj.to_extended_key(), vcn=s.obj.vcn)
                if r.random() < 0.7 and f.depth < 255:
                    n = r.choice((0, 1, r.getrandbits(31)))
                    a, b = ob.child(n), s.obj.child(n)
                    fr = f.child(n)
                    new(h, a, fr, 'watch-only child %d' % n)
                    new(h, b, s.ref.child(n), 'child %d' % n)
                new(h, ob, f, 'watch-only copy')
            elif kind == 'address':
                vcn = r.choice((None, 0, 0xffff, r.randrange(65536)))
                comp = r.random() < 0.7
                tn = r.random() < 0.3
                ob = W.Address.generate(vcn=vcn, testnet=tn, compressed=comp)
                raw = R.unb58(txt(ob.privKey))
                key = int.from_bytes(raw[1:33], 'big')
                if not 0 < key < R.N:
                    raise Violation('identity', 'generated key out of range')
                new(h, ob, RA(key, R.mulG(key), vcn_of(ob, vcn), tn, comp), 'address made on %s' % h.name)
            elif kind == 'watchaddr':
                s = pick(h, o['a'], lambda s: not s.hd)
                if s is None:
                    return
                new(h, W.Address(pubKey=s.obj.publicKey(), vcn=s.obj.vcn, testnet=s.obj.testnet), s.ref.watch(), 'watch-only address')
            elif kind in ('compress', 'decompress'):
                s = pick(h, o['a'], lambda s: not s.hd)
                if s is None:
                    return
                ob = getattr(s.obj, kind)()
                new(h, ob, RA(s.ref.key, s.ref.pub, s.ref.vcn, s.ref.testnet, kind == 'compress'), '%sed %s' % (kind, s.how[:40]))
            elif kind == 'asaddress':
                s = pick(h, o['a'], lambda s: s.hd)
                if s is None:
                    return
                if s.ref.key is not None:
                    ob = W.Address(privKey=R.wif(s.ref.key.to_bytes(32, 'big'), True).encode(), vcn=s.obj.vcn, testnet=s.ref.testnet)
                else:
                    ob = W.Address(pubKey=R.comp(s.ref.pub), vcn=s.obj.vcn, testnet=s.ref.testnet)
                new(h, ob, RA(s.ref.key, s.ref.pub, s.ref.vcn, s.ref.testnet, True), 'address of an HD key')
                if txt(ob.address) != txt(s.obj.address()):
                    raise Violation('identity', 'the same key and vcn have two addresses')
            elif kind == 'save':
                s = pick(h, o['a'])
                if s is None:
                    return
                path = FILES[o['file']]
                pw = r.choice((None, b'secret %d' % r.randrange(99), b'sixteen bytes!!!!and more'))
                old = h.files.get(path)
                h.files[path] = (old or [(None, None)]) + [(s.ref, pw)]
                k.current.ctl = ctl = Ctl(h.fs, o['f'])
                try:
                    if pw is None:
                        W.saveTo(spell(k, path), s.obj)
                    else:
                        W.saveTo(spell(k, path), s.obj, pw)
                except SimKill:
                    raise
                except BaseException as e:
                    k.current.ctl = None
                    if not ctl.fired:
                        raise
                    return
                k.current.ctl = None
                h.files[path] = [(s.ref, pw)]
                s.check()
                if s.ref.key is None:
                    data = h.fs.content(os.path.join('/home/u', path))
                    full = getattr(s.ref, 'origin', None)
                    if full:
                        for e in encodings(R_full(s.ref).key.to_bytes(32, 'big')):
                            if e in data:
                                raise Violation('watch-only-key', 'the file of a watch-only wallet holds the private key')
            elif kind == 'copyfile':
                if not h.files:
                    return
                path = sorted(h.files)[o['a'] % len(h.files)]
                data = h.fs.content(os.path.join('/home/u', path))
                h2 = hosts[o['b'] % 2]
                if data is None or h2 is h:
                    return
                h2.fs.setup_file('/home/u/copied.json', data)
                h2.files['copied.json'] = [x for x in h.files[path] if x[0] is not None]
            elif kind == 'sign':
                s = pick(h, o['a'], lambda s: s.ref.key is not None)
                if s is None:
                    return
                data = r.randbytes(r.choice((0, 1, 32, 100)))
                sig = s.obj.sign(data)
                if not isinstance(sig, bytes):
                    raise Violation('bad-signature', '%s signed with %r' % (s.how, sig))
                if not R.verify(s.ref.pub, data, sig):
                    raise Violation('bad-signature', 'a signature by %s does not verify independently' % s.how)
                for x in [s] + [x for hh in hosts for x in hh.slots if x is not s][o['b'] % 3:][:2]:
                    same = x.ref.pub == s.ref.pub
                    if bool(x.obj.verify(data, sig)) != same:
                        raise Violation('bad-signature', 'a signature by %s %s in %s' % (s.how, 'does not verify' if same else 'verifies', x.how))
                for _ in range(2):               # and for nothing else
                    if r.random() < 0.5:
                        d2, s2 = (data + b'\0', data[:-1] or b'x', r.randbytes(len(data) or 1))[r.randrange(3)], sig
                    else:
                        a, b = R.der_rs(sig)
                        z = 1 << r.randrange(256)
                        a2, b2 = r.choice(((a ^ z, b), (a, b ^ z), (b, a), (a, (b + 1) % R.N), (a, R.N), (a, b + R.N), (0, b), (a, 0),
                                           (R.N - a, b), (a + R.N, b)))
                        if (a2, b2) == (a, b) or (a2, b2) == (a, R.N - b):
                            continue
                        d2, s2 = data, R.der(a2, b2)
                    if d2 == data and s2 == sig or R.verify(s.ref.pub, d2, s2):
                        continue
                    k.fault('wrong-signature')
                    try:
                        ok = s.obj.verify(d2, s2)
                    except Exception:
                        ok = False
                    if ok:
                        raise Violation('bad-signature', '%s accepts %s as a signature of %s; it signed %s with %s' % (
                            s.how, s2.hex(), d2.hex(), data.hex(), sig.hex()))
            elif kind == 'misuse':
                s = pick(h, o['a'], lambda s: s.ref.key is None)
                if s is None:
                    return
                try:
                    sig = s.obj.sign(b'x')
                except ValueError:
                    return
                raise Violation('watch-only-key', 'a watch-only wallet signed')
            elif kind == 'golden':
                golden(ns, h, r)

        def R_full(ref):
            seed, tn, path = ref.origin
            f = R.HD.master(seed, tn, ref.vcn)
            for n in path:
                f = f.child(n)
            return f

        def golden(ns, h, r):
            g = r.choice(GOLD)
            h.fs.setup_file('/home/u/golden.json', g['text'].encode())
            pw = g['pw'].encode('latin-1') if g['pw'] else None
            ob = ns.wallet.loadFrom('/home/u/golden.json', pw) if pw else ns.wallet.loadFrom('/home/u/golden.json')
            got = identity(ob)
            want = tuple(bytes.fromhex(x[1:]) if isinstance(x, str) and x.startswith('#') else x for x in g['id'])
            if got != want:
                raise Violation('identity', 'a file written by the released version loads as %s instead of %s' % (fmt(got), fmt(want)))

        if kind == 'load':
            if h.files:
                path = sorted(h.files)[o['a'] % len(h.files)]
                reload(h, path, 'load')
            continue
        n0 = (k.faults.get('power-loss', 0), k.faults.get('kill', 0))
        act(h, step)
        n1 = (k.faults.get('power-loss', 0), k.faults.get('kill', 0))
        if n0 != n1:
            ctx.nontrivial = True
            lost(h, n1[0] > n0[0])
        # a save that did not return: the file holds the old or the new wallet
        for path in sorted(h.files):
            if n0 != n1:
                reload(h, path, 'kill' if n1[1] > n0[1] else 'crash')
    for h in hosts:
        for s in h.slots:
            act(h, s.check)
        for path in sorted(h.files):
            reload(h, path, 'end')

