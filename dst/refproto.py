"""Independent implementation of the wire format (Bitcoin protocol, NBC magic),
written from the protocol documentation; shares no code with nbc."""
import hashlib
import ipaddress
import struct

NBC_MAGIC = b'\xf9\x6e\x62\x63'
MAGIC = NBC_MAGIC         # of the coin the current run is about (set by World)


class Short(Exception):
    pass


def dsha(b):
    return hashlib.sha256(hashlib.sha256(b).digest()).digest()


def cs(n):
    if n < 0xfd:
        return struct.pack('<B', n)
    if n <= 0xffff:
        return b'\xfd' + struct.pack('<H', n)
    if n <= 0xffffffff:
        return b'\xfe' + struct.pack('<I', n)
    return b'\xff' + struct.pack('<Q', n)


class R(object):
    def __init__(self, b):
        self.b = b
        self.o = 0

    def take(self, n):
        if self.o + n > len(self.b):
            raise Short()
        v = self.b[self.o:self.o + n]
        self.o += n
        return v

    def u(self, fmt):
        return struct.unpack(fmt, self.take(struct.calcsize(fmt)))[0]

    def cs(self):
        v = self.u('<B')
        if v == 0xfd:
            return self.u('<H')
        if v == 0xfe:
            return self.u('<I')
        if v == 0xff:
            return self.u('<Q')
        return v


def ip16(text):
    a = ipaddress.ip_address(text)
    if a.version == 4:
        return b'\0' * 10 + b'\xff\xff' + a.packed
    return a.packed


def norm_ip(text):
    a = ipaddress.ip_address(text)
    if a.version == 6 and a.ipv4_mapped is not None:
        return str(a.ipv4_mapped)
    return str(a)


def ip_text(b):
    a = ipaddress.IPv6Address(b)
    if a.ipv4_mapped is not None:
        return str(a.ipv4_mapped)
    return str(a)


def tob(s):
    if not isinstance(s, (bytes, str)):
        return repr(s).encode()
    return s if isinstance(s, bytes) else s.encode('latin-1', 'backslashreplace')


# A field type is (encode(value) -> bytes, decode(R) -> value, normalise(value)).
def num(fmt):
    return (lambda v: struct.pack(fmt, int(v)), lambda r: r.u(fmt), int)


def raw(n):
    def enc(v):
        assert len(v) == n
        return v
    return (enc, lambda r: r.take(n), bytes)


VARSTR = (lambda v: cs(len(tob(v))) + tob(v), lambda r: r.take(r.cs()), tob)
VARINT = (cs, lambda r: r.cs(), int)


def array(t):
    def dec(r):
        n = r.cs()
        out = []
        for _ in range(n):
            out.append(t[1](r))
            if r.o > len(r.b):
                raise Short()
        return out
    return (lambda v: cs(len(v)) + b''.join(t[0](x) for x in v), dec,
            lambda v: [t[2](x) for x in v])


def struct_of(fields):
    def get(v, k):
        return v[k] if isinstance(v, dict) else getattr(v, k)
    return (lambda v: b''.join(t[0](v[k]) for k, t in fields),
            lambda r: dict((k, t[1](r)) for k, t in fields),
            lambda v: dict((k, t[2](get(v, k))) for k, t in fields))


IP = (ip16, lambda r: ip_text(r.take(16)), norm_ip)
NETADDR = struct_of([('timestamp', num('<I')), ('services', num('<Q')),
                     ('address', IP), ('port', num('>H'))])
_NA0 = struct_of([('services', num('<Q')), ('address', IP), ('port', num('>H'))])


def _na0_dec(r):
    return _NA0[1](r)


NETADDR0 = (_NA0[0], _na0_dec, _NA0[2])
INV = struct_of([('object_type', num('<I')), ('hash', raw(32))])
OUTPOINT = struct_of([('hash', raw(32)), ('index', num('<I'))])
TXIN = struct_of([('previous_output', OUTPOINT), ('signature_script', VARSTR), ('sequence', num('<I'))])
TXOUT = struct_of([('value', num('<q')), ('pk_script', VARSTR)])
_TX = [('version', num('<I')), ('tx_in', array(TXIN)), ('tx_out', array(TXOUT)), ('lock_time', num('<I'))]
TX = struct_of(_TX)
_HDR = [('version', num('<I')), ('prev_block', raw(32)), ('merkle_root', raw(32)),
        ('timestamp', num('<I')), ('bits', num('<I')), ('nonce', num('<I'))]
HEADER = struct_of(_HDR + [('txn_count', VARINT)])


def _opt_dec(r):
    if r.o < len(r.b):
        return r.u('<B')
    return 1


RELAY = (lambda v: b'' if v is None else struct.pack('<B', int(v)), _opt_dec,
         lambda v: 1 if v is None else int(v))

# command -> (handler suffix, [(field, type)])
MESSAGES = {
    'version': ('version', [('version', num('<i')), ('services', num('<Q')), ('timestamp', num('<q')),
                            ('addr_recv', NETADDR0), ('addr_from', NETADDR0), ('nonce', raw(8)),
                            ('user_agent', VARSTR), ('start_height', num('<i')), ('relay', RELAY)]),
    'verack': ('version_ack', []),
    'addr': ('address', [('addr_list', array(NETADDR))]),
    'inv': ('inventory', [('inventory', array(INV))]),
    'getdata': ('get_data', [('inventory', array(INV))]),
    'notfound': ('not_found', [('inventory', array(INV))]),
    'getblocks': ('get_blocks', [('version', num('<I')), ('block_locator_hashes', array(raw(32))), ('hash_stop', raw(32))]),
    'getheaders': ('get_headers', [('version', num('<I')), ('block_locator_hashes', array(raw(32))), ('hash_stop', raw(32))]),
    'tx': ('transaction', _TX),
    'block': ('block', _HDR + [('txns', array(TX))]),
    'headers': ('headers', [('headers', array(HEADER))]),
    'getaddr': ('get_address', []),
    'mempool': ('memory_pool', []),
    'ping': ('ping', [('nonce', raw(8))]),
    'pong': ('pong', [('nonce', raw(8))]),
    'reject': ('reject', [('message', VARSTR), ('ccode', num('<B')), ('reason', VARSTR)]),
    'filterload': ('filter_load', [('filter', array(num('<B'))), ('n_hashes_func', num('<I')),
                                   ('n_tweak', num('<I')), ('n_flags', num('<B'))]),
    'filteradd': ('filter_add', [('data', VARSTR)]),
    'filterclear': ('filter_clear', []),
    'merkleblock': ('merkle_block', _HDR + [('total_transactions', num('<I')), ('hashes', array(raw(32))),
                                            ('flags', array(num('<b')))]),
    'alert': ('alert', [('payload', VARSTR), ('signature', VARSTR)]),
}
BY_NAME = {v[0]: k for k, v in MESSAGES.items()}


def payload(cmd, fields):
    return b''.join(t[0](fields[k]) for k, t in MESSAGES[cmd][1])


def frame_raw(cmd, body, magic=None, checksum=None, length=None):
    c = cmd if isinstance(cmd, bytes) else cmd.encode('latin-1')
    return ((MAGIC if magic is None else magic) + c.ljust(12, b'\0') + struct.pack('<I', len(body) if length is None else length) +
            (dsha(body)[:4] if checksum is None else checksum) + body)


def frame(cmd, fields=None):
    return frame_raw(cmd, payload(cmd, fields or {}))


def normal(cmd, fields):
    """Canonical form of a message's field values, for comparison."""
    return dict((k, t[2](fields[k])) for k, t in MESSAGES[cmd][1])


def decode_payload(cmd, body):
    """Fields, or None when some field is not there in full."""
    r = R(body)
    try:
        return dict((k, t[1](r)) for k, t in MESSAGES[cmd][1]), r.o
    except Short:
        return None, None


def classify(fr):
    """What a complete frame is: ('ok', cmd, fields) / ('invalid', why) / ('partial', cmd)"""
    if fr[0:4] != MAGIC:
        return ('invalid', 'magic')
    body = fr[24:]
    if dsha(body)[:4] != fr[20:24]:
        return ('invalid', 'checksum')
    name = fr[4:16].rstrip(b'\0').decode('latin-1')
    if name not in MESSAGES:
        return ('invalid', 'command')
    fields, used = decode_payload(name, body)
    if fields is None:
        return ('partial', name)
    return ('ok', name, fields, used == len(body))


class Splitter(object):
    """Cuts a byte stream into frames by the length field only."""

    def __init__(self):
        self.buf = b''

    def feed(self, data):
        self.buf += bytes(data)
        out = []
        while len(self.buf) >= 24:
            n = struct.unpack('<I', self.buf[16:20])[0] + 24
            if len(self.buf) < n:
                break
            out.append(self.buf[:n])
            self.buf = self.buf[n:]
        return out
