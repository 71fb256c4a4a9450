M = 'pgp/message.py'
P = 'pgp/packets/packets.py'
T = 'pgp/transferrable_keys.py'
V = 'pgp/signature_verification.py'
ENC = '''
from pgp import message as M, utils
key = bytes(range(32))
def literal(n):
    body = b'b\\x01x\\0\\0\\0\\1' + b'a' * n
    return bytes(bytearray([0xcb, len(body)]) + body)
def seal(n):
    return M.SymmetricallyEncryptedMessageData(9, key, literal(n), integrity_protected=True, version=1)
def opened(data):
    m = M.SymmetricallyEncryptedMessageData(encrypted_data=data, integrity_protected=True, version=1)
    return bytes(m.decrypt(9, key).data)
def refused(data):
    try:
        opened(data)
    except ValueError:
        return True
    return False
'''
KEYS = '''
import warnings; warnings.simplefilter('ignore')
from Crypto.PublicKey import RSA
from pgp import utils as U, transferrable_keys as T, signature_verification as V
from pgp.packets import packets as P
def secbody(r, bits=None):
    b = bytearray([4]) + U.int_to_4byte(1000000000) + bytearray([1])
    b += U.int_to_mpi(r.n) + U.int_to_mpi(r.e)
    sec = bytearray()
    for x in (r.d, r.p, r.q, r.u):
        sec += U.int_to_mpi(x)
    b.append(0)
    return b + sec + U.int_to_2byte(sum(sec) & 0xffff)
def pk(tag, body):
    return P.packet_from_packet_data(bytearray([0xc0 + tag, 255]) + U.int_to_4byte(len(body)) + body)[1]
def primary(size=1024):
    return T.TransferableSecretKey.from_packet(pk(5, secbody(RSA.generate(size))))
def subkey(k):
    return T.SecretSubkey.from_packet(k, pk(7, secbody(RSA.generate(1024))))
'''
PLANTS = [
 dict(id='c01-code-last-octet', property='C01',
  needs='a protected message tampered with in the last octet of its ciphertext',
  breaks='the last octet of the modification detection code is not compared',
  edits=[(M, "            if mdc.data != hash_.digest():", "            if mdc.data[:19] != hash_.digest()[:19]:")],
  demo=ENC + '''
for n in (0, 5, 40):
    d = bytearray(seal(n).data)
    assert opened(d) == b'a' * n
    d[-1] ^= 1
    assert refused(d), n
'''),
 dict(id='c01-repeat-half', property='C01',
  needs='a ciphertext whose first repeated prefix octet alone is wrong',
  breaks='only the second of the two repeated prefix octets is compared',
  edits=[(M, "            if iv_check != decrypted_iv[-2:]:", "            if iv_check[-1:] != decrypted_iv[-1:]:")],
  demo=ENC + '''
from Crypto.Hash import SHA
iv = bytes(range(16))
def forge(rep):
    run = iv + iv[-2:] + literal(6) + b'\\xd3\\x14'
    clear = iv + rep + run[18:] + SHA.new(run).digest()
    n = len(clear)
    c = utils.get_symmetric_cipher(9, key, utils.CFB, b'\\0' * 16)
    return c.encrypt(clear + b'\\0' * (-n % 16))[:n]
assert opened(forge(iv[-2:])) == b'a' * 6
assert refused(forge(b'x' + iv[-1:]))
assert refused(forge(iv[-2:-1] + b'x'))
'''),
 dict(id='c01-full-blocks', property='C01',
  needs='a message whose protected form exactly fills the cipher blocks',
  breaks='when no padding is needed the whole ciphertext is cut off',
  edits=[(M, "            padding = block_len - (len(message) + 2 + 22) % block_len", "            padding = -(len(message) + 2 + 22) % block_len")],
  demo=ENC + '''
for n in range(40):
    assert opened(seal(n).data) == b'a' * n, n
'''),
 dict(id='c02-check-octet', property='C02',
  needs='a signature packet whose second check octet was altered',
  breaks='only the first of the two stored check octets is compared with the digest',
  edits=[(T, "        if hash_.digest()[:2] != signature.hash2:", "        if hash_.digest()[:1] != signature.hash2[:1]:")],
  demo=KEYS + '''
k = primary()
k.unlock('')
uid = T.UserID(k, 'me')
sig = k.sign(uid, 4, 0x13, 8)
assert k.verify(sig, uid)
sig.hash2 = bytearray([sig.hash2[0], sig.hash2[1] ^ 1])
try:
    k.verify(sig, uid)
except Exception:
    pass
else:
    raise SystemExit('altered check octet accepted')
'''),
 dict(id='c04-subkey-revoked', property='C04',
  needs='a subkey with a revocation signature by its primary key',
  breaks='signatures made by a revoked subkey are no longer marked or refused',
  edits=[(V, "            if sig.signature_type in (constants.SUBKEY_REVOCATION_SIGNATURE,\n                                      constants.KEY_REVOCATION_SIGNATURE):\n                revocation_time", "            if sig.signature_type == constants.KEY_REVOCATION_SIGNATURE:\n                revocation_time")],
  demo=KEYS + '''
import datetime
from pgp import exceptions as X
k = primary()
s = subkey(k)
k.subkeys.append(s)
k.unlock('')
uid = T.UserID(k, 'me')
sig = s.sign(uid, 4, 0x10, 8)
rev = k.sign(s, 4, 0x28, 8)
s.signatures.append(rev)
later = datetime.datetime.now() + datetime.timedelta(1)
out = V.check_signature_values(s, sig, later)
assert out[-1] if isinstance(out, tuple) else True, out
try:
    V.check_signature_values(s, sig, later, strict=True)
except Exception as e:
    pass
else:
    raise SystemExit('revoked subkey accepted')
'''),
 dict(id='c05-dsa-left', property='C05',
  needs='an ElGamal key that is unlocked and locked again',
  breaks='locking leaves the private exponent of ElGamal keys in place',
  edits=[(T, "        elif self.public_key_algorithm in (16, 17, 20):\n            # DSA & Elg\n            self.exponent_x = None", "        elif self.public_key_algorithm in (16, 17, 20):\n            # DSA & Elg\n            if self.public_key_algorithm == 17:\n                self.exponent_x = None")],
  demo=KEYS + '''
b = bytearray([4, 0, 0, 0, 1, 16])
for x in (467, 2, 132):
    b += U.int_to_mpi(x)
sec = U.int_to_mpi(127)
b += bytearray([0]) + sec + U.int_to_2byte(sum(sec))
k = primary()
s = T.SecretSubkey.from_packet(k, pk(7, b))
s.unlock('')
assert s.exponent_x == 127
s.lock()
assert s.exponent_x is None
'''),
 dict(id='c05-second-subkey', property='C05',
  needs='a secret key with two subkeys, unlocked and locked as a whole',
  breaks='locking a key locks only its first subkey',
  edits=[(T, "        super(TransferableSecretKey, self).lock()\n        for sk in self.subkeys:", "        super(TransferableSecretKey, self).lock()\n        for sk in self.subkeys[:1]:")],
  demo=KEYS + '''
k = primary()
for i in range(2):
    k.subkeys.append(subkey(k))
k.unlock('')
k.lock()
for x in [k] + k.subkeys:
    assert x.is_locked() and x.exponent_d is None
'''),
 dict(id='c06-checksum-mod', property='C06',
  needs='a key protected by the 16-bit checksum whose octets sum to 65535 or more',
  breaks='the checksum is taken modulo 65535, so the right passphrase is refused and wrong sums are accepted',
  edits=[(P, "            actual_checksum = sum(decrypted_data[:-2]) & 0xffff", "            actual_checksum = sum(decrypted_data[:-2]) % 0xffff")],
  demo='''
from pgp import utils as U
from pgp.packets import packets as P
for n in (100, 300):
    mpi = U.int_to_mpi((1 << (8 * n)) - 1)
    data = mpi + U.int_to_2byte(sum(mpi) & 0xffff)
    v = P.SecretKeyPacket.decrypt_encrypted_key_portion(4, b'', 0, None, data, True, False)
    assert v == [(1 << (8 * n)) - 1], n
'''),
 dict(id='c06-hash-prefix', property='C06',
  needs='a decryption whose hash agrees with the stored one in 16 octets but not in the rest',
  breaks='only the first 16 octets of the SHA-1 hash are compared',
  edits=[(P, "            if bytes(expected_hash) != actual_hash:", "            if bytes(expected_hash)[:16] != actual_hash[:16]:")],
  demo='''
from Crypto.Hash import SHA
from pgp import utils as U
from pgp.packets import packets as P
mpi = U.int_to_mpi(123456789)
h = bytearray(SHA.new(bytes(mpi)).digest())
assert P.SecretKeyPacket.decrypt_encrypted_key_portion(4, b'', 0, None, mpi + h, False, True) == [123456789]
h[-1] ^= 1
try:
    P.SecretKeyPacket.decrypt_encrypted_key_portion(4, b'', 0, None, mpi + h, False, True)
except ValueError:
    pass
else:
    raise SystemExit('accepted')
'''),
]
