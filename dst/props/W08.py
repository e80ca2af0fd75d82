"""W08: threads of one program do not disturb each other's wallet work."""
from .wcommon import *
from .W05 import Slot, RA, txt

NODE = False
# one group of files per run, so that its few hundred steps get the thread switches
GROUPS = {
    'wallet': ('wallet/__init__.py', 'wallet/hdwallet.py', 'wallet/address.py'),
    'key': ('util/key.py', 'util/base58.py', 'util/hash.py', 'util/ecc.py'),
    'aes': ('util/pyaes/aes.py', 'util/pyaes/util.py', 'util/pyaes/blockfeeder.py'),
    'ec': ('util/ecdsa/keys.py', 'util/ecdsa/ecdsa.py', 'util/ecdsa/util.py', 'util/ecdsa/ellipticcurve.py', 'util/ecdsa/numbertheory.py', 'util/ecdsa/der.py'),
}
OPS = ('look', 'look', 'child', 'child', 'child', 'export', 'import', 'sign', 'sign', 'verify', 'dump', 'dump', 'save', 'save', 'form', 'master', 'generate', 'badload', 'badkey')


def gen(r, tier, i):
    th = []
    same = r.random() < 0.4               # everybody does alike things
    kinds = [r.choice(OPS) for _ in range(r.choice((1, 2, 3)))] if same else OPS
    for t in range(r.choice((2, 2, 3, 4))):
        ops = []
        for j in range(r.choice((1, 2, 4, 6))):
            ops.append(dict(k=r.choice(kinds), w=r.randrange(6), s=r.getrandbits(32), n=r.choice((0, 0, 1, 2, 0x80000000, r.getrandbits(31))),
                            gap=round(r.choice((0, 0, 0, 0.001)) * r.random(), 5)))
        th.append(dict(ops=ops, fault=r.choice(('ENOSPC', 'EIO')) if r.random() < 0.1 else None))
    return dict(threads=th, shared=[dict(hd=r.random() < 0.65, key=r.randrange(24), s=r.getrandbits(32), watch=r.random() < 0.25, comp=r.random() < 0.7,
                                         tn=r.random() < 0.3, vcn=r.choice((0, 1, 0xffff, r.randrange(65536)))) for _ in range(r.choice((1, 2, 3)))],
                group=r.choice(('wallet', 'wallet', 'wallet', 'key', 'key', 'aes', 'ec')), pre=r.choice((0.002, 0.02, 0.1, 0.4)), s=r.getrandbits(32))


SHRINK = ('threads',)


def simplify(plan):
    for i, t in enumerate(plan['threads']):
        for j in range(len(t['ops'])):
            if len(t['ops']) > 1:
                yield dict(plan, threads=plan['threads'][:i] + [dict(t, ops=t['ops'][:j] + t['ops'][j + 1:])] + plan['threads'][i + 1:])


def run(ctx):
    plan, k = ctx.plan, ctx.k
    fs = boot(ctx)
    k.hooks['getpass'] = lambda p: (_ for _ in ()).throw(EOFError())
    loader.PREEMPT = GROUPS[plan['group']]
    ns = loader.fresh(False)
    fast_ec(ns)
    fast_mul(ns)
    W = ns.wallet
    pool = keypool()

    def make(sp):
        r = random.Random(sp['s'])
        d, pt = pool[sp['key']]
        if sp['hd']:
            depth = r.choice((0, 1, 3))
            ref = R.HD(d, pt, r.randbytes(32), sp['tn'], depth, r.randbytes(4) if depth else b'\0' * 4, r.getrandbits(32) if depth else 0, sp['vcn'])
            ob = W.HDWallet.from_extended_key(ref.xkey(not sp['watch']).encode(), vcn=sp['vcn'])
            return Slot(ob, ref.watch() if sp['watch'] else ref, 'the shared HD wallet')
        ref = RA(None if sp['watch'] else d, pt, sp['vcn'], sp['tn'], sp['comp'])
        if sp['watch']:
            ob = W.Address(pubKey=ref.pubkey(), vcn=sp['vcn'], testnet=sp['tn'])
        else:
            ob = W.Address(privKey=R.wif(d.to_bytes(32, 'big'), sp['comp']).encode(), vcn=sp['vcn'], testnet=sp['tn'])
        return Slot(ob, ref, 'the shared address')

    def again(cfg, pw, hd):
        return (W.HDWallet if hd else W.Address).load_from_cfg(cfg, pw)
    box = []
    proc = fs.proc('prog')
    th = proc.spawn(lambda: box.extend(make(sp) for sp in plan['shared']))
    k.run_until(lambda: th.done, k.now + 60 * SEC, SEC)
    if th.error is not None:
        raise th.error
    shared = box

    def private(s):
        return s.ref.key is not None

    def one(me, o, mine, fault):
        r = random.Random(o['s'])
        own = shared + mine
        s = own[o['w'] % len(own)]
        kind = o['k']
        k.mark('op', me, kind)
        how = 'thread %d, %s' % (me, kind)
        if kind == 'look':
            s.check()
        elif kind == 'child' and s.hd:
            n = o['n'] if private(s) else o['n'] & 0x7fffffff
            c = Slot(s.obj.child(n), s.ref.child(n), how)
            c.check()
            mine.append(c)
        elif kind == 'export' and s.hd:
            prv = private(s) and r.random() < 0.6
            x = txt(s.obj.to_extended_key(include_prv=prv))
            if x != s.ref.xkey(prv):
                raise Violation('disturbed', '%s: extended key %s instead of %s' % (how, x, s.ref.xkey(prv)))
        elif kind == 'import' and s.hd:
            prv = private(s) and r.random() < 0.6
            f = s.ref if prv else s.ref.watch()
            Slot(W.HDWallet.from_extended_key(s.ref.xkey(prv).encode(), vcn=s.ref.vcn), f, how).check()
        elif kind == 'form' and not s.hd:
            x = r.choice(('compress', 'decompress'))
            c = Slot(getattr(s.obj, x)(), RA(s.ref.key, s.ref.pub, s.ref.vcn, s.ref.testnet, x == 'compress'), how)
            c.check()
            mine.append(c)
        elif kind in ('sign', 'verify'):
            data = r.randbytes(r.choice((0, 5, 40)))
            key, pt = (s.ref.key, s.ref.pub) if private(s) else pool[r.randrange(24)]
            kb = key.to_bytes(32, 'big')
            if kind == 'sign':
                sig = s.obj.sign(data) if private(s) else ns.util.ecc.sign(data, kb)
                if not R.verify(pt, data, sig):
                    raise Violation('disturbed', '%s: the signature does not verify' % how)
                k.probe('signatures')
            rs = R.der(7, 7) if kind == 'verify' and r.random() < 0.5 else None
            sg = rs or (sig if kind == 'sign' else None)
            if sg is None:
                n = r.randrange(1, R.N)
                e = int.from_bytes(R.dsha(data), 'big')
                rr = R.mulG(n)[0] % R.N
                sg = R.der(rr, pow(n, -1, R.N) * (e + rr * key) % R.N)
            ok = bool(ns.util.ecc.verify(data, R.uncomp(pt), sg))
            if ok != R.verify(pt, data, sg):
                raise Violation('disturbed', '%s: verifying a %s signature gave %s' % (how, 'wrong' if rs else 'good', ok))
        elif kind == 'dump':
            pw = r.choice((b'', b'secret %d' % r.randrange(9), b'%016d' % r.getrandbits(40)))
            cfg = s.obj.dump_to_cfg(pw)
            if bool(cfg.get('encrypted')) != bool(pw and private(s)):
                raise Violation('disturbed', '%s: encrypted is %r with passphrase %r' % (how, cfg.get('encrypted'), pw))
            Slot(again(cfg, pw, s.hd), s.ref, how).check()
        elif kind == 'save':
            pw = r.choice((None, b'secret %d' % r.randrange(9)))
            path = '/home/u/t%d.json' % me
            ctl = None
            if fault:
                k.current.ctl = ctl = Ctl(fs, [dict(op='write', nth=1, act='error', err=r.randrange(8), sticky=False)])
            try:
                W.saveTo(spell(k, path), s.obj, pw) if pw else W.saveTo(spell(k, path), s.obj)
            except SimKill:
                raise
            except OSError:
                if ctl is None or not ctl.fired:
                    raise
                return
            finally:
                k.current.ctl = None
            Slot(W.loadFrom(spell(k, path), pw) if pw else W.loadFrom(spell(k, path)), s.ref, how).check()
        elif kind == 'master':
            seed = r.randbytes(16)
            f = R.HD.master(seed, False, 5)
            c = Slot(W.HDWallet.from_master_seed(seed, vcn=5), f, how)
            c.check()
            mine.append(c)
        elif kind == 'generate':
            ob = W.Address.generate(vcn=9, compressed=True)
            key = int.from_bytes(R.unb58(txt(ob.privKey))[1:33], 'big')
            if not 0 < key < R.N:
                raise Violation('disturbed', '%s: the key is out of range' % how)
            c = Slot(ob, RA(key, R.mulG(key), 9, False, True), how)
            c.check()
            mine.append(c)
        elif kind in ('badload', 'badkey'):       # fails, and only here
            k.fault('operation-fails')
            try:
                if kind == 'badkey':
                    t = R.wif(pool[o['w']][0].to_bytes(32, 'big'), True)
                    W.Address(privKey=(t[:-1] + ('z' if t[-1] != 'z' else 'y')).encode(), vcn=1)
                else:
                    W.HDWallet.from_extended_key(b'xprv' + b'1' * 107, vcn=1)
            except SimKill:
                raise
            except Exception:
                return
            raise Violation('disturbed', '%s: a damaged key was accepted' % how)
        k.probe('operations')
    ths = []
    for i, t in enumerate(plan['threads']):
        def body(i=i, t=t):
            mine = []
            for o in t['ops']:
                if o['gap']:
                    k.sleep(int(o['gap'] * SEC) + 1)
                try:
                    one(i, o, mine, t['fault'])
                except (SimKill, Violation):
                    raise
                except Exception as e:
                    import traceback
                    raise Violation('disturbed', 'thread %d, %s raised %s' % (i, o['k'], traceback.format_exc()[-500:]))
            for s in mine:
                s.check()
        ths.append(proc.spawn(body))
    k.preempt_budget = 2000
    k.preempt_p = plan['pre']
    if not k.run_until(lambda: all(t.done for t in ths), k.now + 3600 * SEC, SEC):
        raise Violation('stuck', 'a wallet operation did not come back')
    k.preempt_p = 0
    for t in ths:
        if t.error is not None:
            raise t.error
    th = proc.spawn(lambda: [s.check() for s in shared])
    k.run_until(lambda: th.done, k.now + 60 * SEC, SEC)
    if th.error is not None:
        raise th.error
    ctx.nontrivial = k.nswitch > 5
