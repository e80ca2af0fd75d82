"""Independent reference for keys: secp256k1, BIP32, base58, the nbc address form.
Shares no code with nbc."""
import hashlib
import hmac

P = 2 ** 256 - 2 ** 32 - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798,
     0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)
ALPHA = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'


def _jdbl(p):
    x, y, z = p
    if not y:
        return (0, 0, 0)
    s = 4 * x * y * y % P
    m = 3 * x * x % P
    nx = (m * m - 2 * s) % P
    return (nx, (m * (s - nx) - 8 * pow(y, 4, P)) % P, 2 * y * z % P)


def _jadd(p, q):
    if not p[2]:
        return q
    if not q[2]:
        return p
    x1, y1, z1 = p
    x2, y2, z2 = q
    a, b = z1 * z1 % P, z2 * z2 % P
    u1, u2 = x1 * b % P, x2 * a % P
    s1, s2 = y1 * b * z2 % P, y2 * a * z1 % P
    if u1 == u2:
        return _jdbl(p) if s1 == s2 else (0, 0, 0)
    h, r = (u2 - u1) % P, (s2 - s1) % P
    hh = h * h % P
    hhh = hh * h % P
    v = u1 * hh % P
    x = (r * r - hhh - 2 * v) % P
    return (x, (r * (v - x) - s1 * hhh) % P, h * z1 * z2 % P)


def _affine(p):
    if not p[2]:
        return None
    i = pow(p[2], -1, P)
    return (p[0] * i * i % P, p[1] * i * i * i % P)


_tab = []


def mulG(k):
    if not _tab:
        base = (G[0], G[1], 1)
        for _ in range(64):
            row = [(0, 0, 0)]
            for _ in range(15):
                row.append(_jadd(row[-1], base))
            _tab.append([(0, 0, 0)] + [a + (1,) for a in map(_affine, row[1:])])
            base = _jadd(row[15], base)
    acc = (0, 0, 0)
    i = 0
    while k:
        d = k & 15
        if d:
            acc = _jadd(acc, _tab[i][d])
        k >>= 4
        i += 1
    return _affine(acc)


def mul(p, k):
    acc, q = (0, 0, 0), (p[0], p[1], 1)
    while k:
        if k & 1:
            acc = _jadd(acc, q)
        q = _jdbl(q)
        k >>= 1
    return _affine(acc)


def add(p, q):
    return _affine(_jadd(p + (1,), q + (1,)))


def comp(p):
    return bytes([2 + (p[1] & 1)]) + p[0].to_bytes(32, 'big')


def uncomp(p):
    return b'\x04' + p[0].to_bytes(32, 'big') + p[1].to_bytes(32, 'big')


def decomp(b):
    x = int.from_bytes(b[1:], 'big')
    y = pow((x ** 3 + 7) % P, (P + 1) // 4, P)
    if y * y % P != (x ** 3 + 7) % P:
        raise ValueError('no such point')
    if (y & 1) != (b[0] & 1):
        y = P - y
    return (x, y)


def b58(b):
    n = int.from_bytes(b, 'big')
    s = ''
    while n:
        n, r = divmod(n, 58)
        s = ALPHA[r] + s
    return '1' * (len(b) - len(b.lstrip(b'\0'))) + s


def unb58(s):
    n = 0
    for c in s:
        n = n * 58 + ALPHA.index(c)
    b = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return b'\0' * (len(s) - len(s.lstrip('1'))) + b


def dsha(b):
    return hashlib.sha256(hashlib.sha256(b).digest()).digest()


def b58check(b):
    return b58(b + dsha(b)[:4])


def wif(key, compressed):
    return b58check(b'\x80' + key + (b'\x01' if compressed else b''))


def ripe(b):
    return hashlib.new('ripemd160', b).digest()


def h160(b):
    return ripe(hashlib.sha256(b).digest())


def address(pub, vcn, testnet):
    h = hashlib.sha512(pub).digest()
    return b58check((b'\x6f' if testnet else b'\x00') + b'%04x' % (vcn & 0xffff)
                    + hashlib.sha256(ripe(h[:32]) + ripe(h[32:])).digest())


class HD(object):
    """A BIP32 node; key is an int (full) or None (watch-only)."""

    def __init__(self, key, pub, chain, testnet, depth, parentfp, childnum, vcn):
        self.key, self._pub, self.chain, self.testnet = key, pub, chain, testnet
        self.depth, self.parentfp, self.childnum, self.vcn = depth, parentfp, childnum, vcn

    @classmethod
    def master(cls, seed, testnet, vcn):
        h = hmac.new(b'Bitcoin seed', seed, hashlib.sha512).digest()
        return cls(int.from_bytes(h[:32], 'big') % N, None, h[32:], testnet, 0, b'\0' * 4, 0, vcn)

    @property
    def pub(self):
        if self._pub is None:
            self._pub = mulG(self.key)
        return self._pub

    def child(self, i):
        if i & 0x80000000:
            data = b'\0' + self.key.to_bytes(32, 'big')
        else:
            data = comp(self.pub)
        h = hmac.new(self.chain, data + i.to_bytes(4, 'big'), hashlib.sha512).digest()
        t = int.from_bytes(h[:32], 'big')
        fp = h160(comp(self.pub))[:4]
        if self.key is not None:
            return HD((self.key + t) % N, None, h[32:], self.testnet, self.depth + 1, fp, i, self.vcn)
        return HD(None, add(self.pub, mulG(t)), h[32:], self.testnet, self.depth + 1, fp, i, self.vcn)

    def watch(self):
        return HD(None, self.pub, self.chain, self.testnet, self.depth, self.parentfp, self.childnum, self.vcn)

    def xkey(self, prv):
        v = {(0, 0): 0x0488B21E, (0, 1): 0x0488ADE4, (1, 0): 0x043587CF, (1, 1): 0x04358394}[(int(bool(self.testnet)), int(prv))]
        d = v.to_bytes(4, 'big') + bytes([self.depth]) + self.parentfp + self.childnum.to_bytes(4, 'big') + self.chain
        d += b'\0' + self.key.to_bytes(32, 'big') if prv else comp(self.pub)
        return b58check(d)

    def address(self):
        return address(comp(self.pub), self.vcn, self.testnet)


def der_rs(sig):
    """r, s of a DER signature; ValueError when malformed."""
    if len(sig) < 8 or sig[0] != 0x30 or sig[1] != len(sig) - 2:
        raise ValueError('not a DER sequence')
    out, i = [], 2
    for _ in range(2):
        if sig[i] != 2:
            raise ValueError('not an integer')
        n = sig[i + 1]
        b = sig[i + 2:i + 2 + n]
        if len(b) != n or not n or b[0] & 0x80:
            raise ValueError('bad integer')
        out.append(int.from_bytes(b, 'big'))
        i += 2 + n
    if i != len(sig):
        raise ValueError('trailing bytes')
    return tuple(out)


def der(r, s):
    out = b''
    for v in (r, s):
        b = v.to_bytes(v.bit_length() // 8 + 1, 'big')
        out += bytes([2, len(b)]) + b
    return bytes([0x30, len(out)]) + out


def verify(pub, data, sig):
    """ECDSA over double SHA-256."""
    try:
        r, s = der_rs(sig)
    except (ValueError, IndexError):
        return False
    if not (0 < r < N and 0 < s < N):
        return False
    w = pow(s, -1, N)
    e = int.from_bytes(dsha(data), 'big')
    a, b = mulG(e * w % N), mul(pub, r * w % N)
    if a is None or b is None:
        p = a or b
    else:
        p = add(a, b)
    return p is not None and p[0] % N == r


def nonce(key, data, sig):
    """The nonce of a signature made with this key."""
    r, s = der_rs(sig)
    return nonce_rs(key, int.from_bytes(dsha(data), 'big'), r, s)


def nonce_rs(key, e, r, s):
    return (e + key * r) * pow(s, -1, N) % N
