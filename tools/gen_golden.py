"""Wallet files as the current release writes them, with what they hold (W05)."""
import json, os, sys, tempfile, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
sys.path.insert(0, os.environ.get('DST_REPO', '/repo'))
from nbc import wallet, util
from nbc.util.ecdsa import ellipticcurve, SECP256k1
from dst.props.wcommon import identity, keypool
from dst import refwallet as R
out = []
r = random.Random('golden')


def add(o, pw):
    fn = os.path.join(tempfile.mkdtemp(), 'g')
    wallet.saveTo(fn, o, *([pw] if pw else []))
    idt = [('#' + x.hex()) if isinstance(x, bytes) else x for x in identity(o)]
    out.append(dict(text=open(fn).read(), pw=pw.decode('latin-1') if pw else None, id=idt))


A, H = wallet.Address, wallet.HDWallet
for pw in (None, b'secret 1', b'sixteen bytes!!!!and more', b'p\xe4ss\xff'):
    for tn in (False, True):
        m = H.from_master_seed(b'golden %d' % tn, vcn=r.randrange(65536), testnet=tn)
        add(m, pw)
        add(m.child(0x80000007).child(5), pw)
        d, pt = keypool()[r.randrange(1, 24)]
        add(A(privKey=R.wif(d.to_bytes(32, 'big'), True).encode(), vcn=0x1234, testnet=tn), pw)
        add(A(privKey=R.wif(d.to_bytes(32, 'big'), False).encode(), vcn=0, testnet=tn), pw)
        if pw is None:
            x = H.from_extended_key(m.child(9).to_extended_key(), vcn=77)
            add(x, None)
            add(A(pubKey=R.uncomp(pt), vcn=65535, testnet=tn), None)
            add(A(pubKey=R.comp(pt), vcn=65535, testnet=tn), None)
key = keypool()[0][0]       # a key with leading zero bytes
add(H(key, b'\0' * 32, vcn=1), None)
add(H(key, b'\0' * 32, vcn=1), b'pw')
json.dump(out, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'dst', 'props', 'golden.json'), 'w'), indent=0)
print(len(out))
