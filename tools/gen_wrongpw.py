"""Passphrases that are wrong but decrypt the first two bytes of a fixed wallet's key field to
a plausible length, so that only the remaining checks can refuse them."""
import ctypes, hashlib, json, os, sys
C = ctypes.CDLL('libcrypto.so.3')
key = ctypes.create_string_buffer(256)
out = ctypes.create_string_buffer(16)
prv = hashlib.sha256(b'wrongpw-hd').digest()
good = b'correct horse'
C.AES_set_encrypt_key(good.ljust(16, b'\0'), 128, key)
C.AES_encrypt(b'20' + prv[:14], out, key)
c0 = out.raw
hits = {'31': [], '32': []}
i = 0
while len(hits['32']) < 40:
    pw = b'w%08d' % i
    i += 1
    C.AES_set_decrypt_key(pw.ljust(16, b'\0'), 128, key)
    C.AES_decrypt(c0, out, key)
    b = out.raw[:2]
    if b == b'20':
        hits['32'].append(pw.decode())
    elif b.lower() == b'1f' and len(hits['31']) < 10:
        hits['31'].append(pw.decode())
json.dump(dict(prv=prv.hex(), good=good.decode(), wrong=hits['32'] + hits['31']), open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'dst', 'props', 'wrongpw.json'), 'w'))
print(i)
