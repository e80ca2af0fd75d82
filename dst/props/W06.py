"""W06: keys and signature nonces come only from fresh entropy of the operating system.

A cloned machine is simulated by executing its past twice: every line of the plan runs the same prefix from the same state with
the same entropy, so that all program state (module state and the pseudo-random generator included) is equal at the
moment of cloning; from there on only the operating system's entropy and the operations differ."""
import errno
import hashlib

from .wcommon import *

NODE = False
loader.PREEMPT = ('util/ecdsa/util.py', 'util/ecdsa/keys.py', 'util/ecdsa/ecdsa.py', 'util/ecc.py', 'wallet/address.py', 'wallet/hdwallet.py')
OPS = ('gen', 'gen', 'gen', 'sign', 'sign', 'sign', 'sign', 'sign', 'hdsign', 'hdsign', 'libgen', 'libsign', 'reseed', 'new')
FAILS = ('EIO', 'ENOSYS', 'EMFILE', 'EINTR', 'EAGAIN', 'nosource', 'memory', 'interrupt')
EDGES = ('zero', 'ff', 'order-1', 'order', 'order-2', 'one', 'high', 'small')


def gen_ops(r, n, faulty):
    out = []
    for _ in range(n):
        grp = []
        for _ in range(r.choice((1, 1, 1, 1, 2, 3))):
            o = dict(op=r.choice(OPS), a=r.randrange(8), d=r.randrange(6), s=r.getrandbits(32), comp=r.random() < 0.6)
            if faulty and r.random() < 0.35:
                if r.random() < 0.6:
                    o['fail'] = dict(at=r.choice((1, 1, 1, 2, 3)), how=r.choice(FAILS), sticky=r.random() < 0.6)
                else:
                    o['edge'] = [r.choice(EDGES) for _ in range(r.choice((1, 1, 2, 5)))]
                    if r.random() < 0.08:
                        o['edge'] = ['ff']
                        o['stuck'] = True
            grp.append(o)
        out.append(dict(ops=grp))
    return out


def gen(r, tier, i):
    mode = r.choice(('clone', 'clone', 'clone', 'half', 'half', 'alone'))
    lines = 1 if mode == 'alone' else r.choice((2, 2, 3, 5))
    same = r.random() < 0.5
    faulty = mode == 'alone' or r.random() < 0.2
    ops = [dict(g, line=-1) for g in gen_ops(r, r.choice((0, 1, 2, 4)), faulty and r.random() < 0.5)]
    first = gen_ops(r, r.choice((1, 2, 3)), faulty)
    for j in range(lines):
        ops += [dict(g, line=j) for g in (first if same or not j else gen_ops(r, r.choice((1, 2, 3)), faulty))]
    return dict(pair=r.randrange(len(PAIRS)) if r.random() < 0.35 else None, mode=mode, lines=lines, ops=ops, samedata=r.random() < 0.3, pre=r.choice((0, 0, 0.01, 0.05, 0.2)),
                fast=r.random() < 0.995, s=r.getrandbits(32))


def pay(n):
    return b'pay %d to bob' % n


# different messages that are alike in one respect: leading or trailing bits of a hash, prefix, suffix, length, case, padding
PAIRS = [(pay(6159), pay(12215)), (pay(2288710), pay(3037867)), (pay(25293), pay(66223)), (pay(269), pay(33186)), (pay(48372), pay(100957)),
         (b'abcd' * 20 + b'1', b'abcd' * 20 + b'2'), (b'1' + b'z' * 200, b'2' + b'z' * 200), (b'to bob', b'to bob\0'), (b'to bob', b'to bob '), (b'to bob', b'To Bob'),
         (b'', b'\0'), (b'12', b'21'), (b'x' * 32, b'x' * 33), (b'x' * 999 + b'a' + b'x' * 999, b'x' * 999 + b'b' + b'x' * 999), (b'caf\xc3\xa9', b'caf\xe9')]


class Op(object):
    def __init__(self, o):
        self.o = o
        self.calls = 0            # entropy calls
        self.good = 0             # ... answered with full entropy since the last failure
        self.failed = None
        self.edged = False


def run(ctx):
    plan = ctx.plan
    keys, nonces = {}, {}         # value -> what
    biased = plan['mode'] == 'half'
    for j in range(plan['lines']):
        k = ctx.k if j == 0 else ctx.new_kernel() or ctx.k
        random.seed(plan['s'])
        line(ctx, k, j, keys, nonces)
    if plan['lines'] > 1:
        ctx.nontrivial = True
        ctx.k.fault('cloned-machine', plan['lines'] - 1)
    if not biased:
        near(keys, 'private keys')
        near(nonces, 'nonces')


def near(values, what):
    l = sorted(values)
    for v in l:
        if v < 1 << 192:
            raise Violation('weak', 'one of the %s has only %d bits: %s' % (what, v.bit_length(), values[v]))
    for a, b in zip(l, l[1:]):
        if b - a < 1 << 160:
            raise Violation('weak', 'two %s differ by only %d: %s; %s' % (what, b - a, values[a], values[b]))


def line(ctx, k, j, keys, nonces):
    plan = ctx.plan
    fs = boot(ctx, 'clone')
    past = random.Random('%s|past' % plan['s'])
    base = random.Random('%s|base' % plan['s'])
    own = random.Random('%s|own|%d' % (plan['s'], j))
    mine = [False]                # past the moment of cloning
    N = R.N

    def urandom(host, n):
        op = getattr(k.current, 'op', None)
        if op is None:
            return past.randbytes(n) if not mine[0] else own.randbytes(n)
        op.calls += 1
        f = op.o.get('fail')
        if f and (op.calls == f['at'] or f['sticky'] and op.calls > f['at']):
            how = f['how']
            op.failed = how
            op.good = 0
            if op.calls == f['at']:
                k.fault('entropy-' + how)
            if how == 'nosource':
                raise NotImplementedError('/dev/urandom (or equivalent) not found')
            if how == 'memory':
                raise MemoryError()
            if how == 'interrupt':
                raise KeyboardInterrupt()
            e = getattr(errno, how)
            raise OSError(e, os.strerror(e))
        op.good += n
        e = op.o.get('edge')
        if e and (op.o.get('stuck') or op.calls <= len(e)):
            if not op.edged:
                k.fault('entropy-edge')
            op.edged = True
            e = e[0] if op.o.get('stuck') else e[op.calls - 1]
            v = {'zero': 0, 'one': 1, 'ff': -1, 'order-1': N - 1, 'order': N, 'order-2': N - 2, 'high': N + past.getrandbits(60), 'small': past.getrandbits(60)}[e]
            if n >= 32:
                return (v % (1 << 256)).to_bytes(32, 'big') + past.randbytes(n - 32)
            return (v % (1 << 8 * n)).to_bytes(n, 'big')
        if not mine[0]:
            return past.randbytes(n)
        if plan['mode'] == 'half':
            b = bytearray(base.randbytes(n))
            for i in range(n):
                if j and own.random() < 0.5:
                    b[i] = own.randrange(256)
            return bytes(b)
        return own.randbytes(n)
    k.hooks['urandom'] = urandom
    wallets = []                  # (object, key)
    pool = keypool()
    boot_th = fs.proc('boot').spawn(lambda: loader.fresh(False))
    k.run_until(lambda: boot_th.done, k.now + SEC, SEC)
    if boot_th.error is not None:
        raise boot_th.error
    ns = boot_th.result
    k.preempt_p = plan['pre']
    k.preempt_budget = 3000
    if plan['fast']:
        fast_ec(ns)
        fast_mul(ns)
    for i in (1, 2):
        wallets.append((ns.wallet.HDWallet(pool[i][0], b'\1' * 32, vcn=i), pool[i][0]))

    def key_out(key, how, op):
        if not 0 < key < N:
            raise Violation('range', 'private key out of range: %d (%s)' % (key, how))
        if op.edged:
            return
        old = keys.get(key)
        if old is not None and (mine[0] or old[1] == j):
            raise Violation('repeated-key', 'a private key was generated twice: %s; %s' % (old[0], how))
        keys.setdefault(key, (how, j))

    def nonce_out(n, key, e, how, op):
        n = min(n, N - n)
        if not 0 < n < N:
            raise Violation('range', 'nonce out of range (%s)' % how)
        if op.edged:
            return
        old = nonces.get(n)
        if old is not None and (old[2], old[3]) != (key, e):
            raise Violation('repeated-nonce', '%s was signed with the nonce of: %s' % (how, old[0]))
        for x, what in ((key, 'the private key'), (e, 'the digest'), (int.from_bytes(hashlib.sha256(key.to_bytes(32, 'big')).digest(), 'big') % N, 'a hash of the key')):
            if n == min(x, N - x):
                raise Violation('weak', '%s was signed with %s as nonce' % (how, what))
        nonces.setdefault(n, (how, j, key, e))

    def data(o, th):
        if plan.get('pair') is not None:
            return PAIRS[plan['pair']][o['d'] % 2]
        d = b'message %d' % o['d'] if o['d'] < 3 else random.Random('%s|%d' % (plan['s'], o['d'])).randbytes((0, 33, 500)[o['d'] - 3])
        return d if plan['samedata'] or not mine[0] else d + b' on clone %d' % j

    def do(op, o):
        kind = o['op']
        E = ns.util.ecdsa
        where = 'clone %d, %s' % (j, 'before cloning' if not mine[0] else 'after cloning')
        if kind == 'reseed':
            random.seed(o['a'])               # a program that seeds its generator
            return None
        if kind == 'new':                     # a wallet object made again from the same key
            w = wallets[o['a'] % len(wallets)]
            return ('wallet', (ns.wallet.HDWallet(w[1], b'\2' * 32, vcn=1), w[1]))
        if kind == 'gen':
            a = ns.wallet.Address.generate(vcn=o['a'] if o['a'] % 2 else None, testnet=o['a'] > 4, compressed=o['comp'])
            raw = R.unb58(a.privKey.decode('ascii'))
            return ('key', int.from_bytes(raw[1:33], 'big'), 'address generated on ' + where, a)
        if kind == 'libgen':
            sk = E.SigningKey.generate(E.SECP256k1)
            return ('key', int.from_bytes(sk.to_string(), 'big'), 'signing key generated on ' + where, None)
        d = data(o, k.current)
        w, key = wallets[o['a'] % len(wallets)]
        if kind == 'libsign':
            sk = E.SigningKey.from_string(key.to_bytes(32, 'big'), E.SECP256k1)
            sig = sk.sign(d, hashfunc=hashlib.sha256)
            return ('rs', key, int.from_bytes(hashlib.sha256(d).digest(), 'big'), int.from_bytes(sig[:32], 'big'), int.from_bytes(sig[32:], 'big'),
                    'a message signed on ' + where)
        if kind == 'hdsign':
            w, key = wallets[o['a'] % 2]
        sig = w.sign(d) if o['s'] % 3 else ns.util.ecc.sign(d, key.to_bytes(32, 'big'))
        try:
            r, s = R.der_rs(sig)
        except (ValueError, IndexError):
            raise Violation('bad-signature', 'malformed signature %r' % (sig,))
        return ('rs', key, int.from_bytes(R.dsha(d), 'big'), r, s, 'message %r signed on %s' % (d[:20], where))

    def one(o):
        th = k.current
        op = th.op = Op(o)
        res = exc = None
        try:
            res = do(op, o)
        except (SimKill, Violation, HarnessError):
            raise
        except BaseException as e:
            exc = e
        th.op = None
        k.record('op', o['op'], None if exc is None else type(exc).__name__)
        k.mark(j, o['op'], exc is None, op.calls)
        if exc is not None:
            if op.failed or o.get('stuck') or op.edged and isinstance(exc, RuntimeError):
                return
            raise exc
        if op.failed and op.good < 16:
            raise Violation('entropy-failure-ignored', '%s succeeded although the entropy source failed (%s)' % (o['op'], op.failed))
        if o.get('stuck') and op.edged and not op.good:
            raise HarnessError('stuck')
        if res is None:
            return
        if res[0] == 'wallet':
            wallets.append(res[1])
        elif res[0] == 'key':
            key_out(res[1], res[2], op)
            if res[3] is not None:
                if not 0 < res[1] < N or txt(res[3].publicKey()) != txt(R.comp(R.mulG(res[1])) if o['comp'] else R.uncomp(R.mulG(res[1]))):
                    raise Violation('bad-key', 'generated address and its private key do not belong together')
                wallets.append((res[3], res[1]))
        else:
            _, key, e, r, s, how = res
            if not (0 < r < N and 0 < s < N):
                raise Violation('range', 'signature out of range (%s)' % how)
            n = R.nonce_rs(key, e, r, s)
            p = R.mulG(n)
            if p is None or p[0] % N != r:
                raise Violation('bad-signature', '%s: the signature is not one' % how)
            nonce_out(n, key, e, how, op)

    def group(g):
        p = fs.proc('p%d' % len(fs.allprocs))
        ths = [p.spawn(lambda o=o: one(o)) for o in g['ops']]
        if not k.run_until(lambda: all(t.done for t in ths), k.now + 3600 * SEC, SEC):
            raise Violation('stuck', 'generating or signing did not come back')
        for t in ths:
            if t.error is not None:
                raise t.error
        # with the source working again everything works again
        for o in g['ops']:
            if o.get('fail') or o.get('stuck'):
                o2 = dict(o)
                o2.pop('fail', None), o2.pop('edge', None), o2.pop('stuck', None)
                t = p.spawn(lambda: one(o2))
                if not k.run_until(lambda: t.done, k.now + 3600 * SEC, SEC):
                    raise Violation('stuck', 'generating or signing did not come back')
                if t.error is not None:
                    raise t.error

    for g in plan['ops']:
        if g['line'] < 0:
            group(g)
    mine[0] = True
    for g in plan['ops']:
        if g['line'] == j:
            group(g)
    k.preempt_p = 0


def txt(x):
    return x if isinstance(x, str) else x.decode('latin-1')
