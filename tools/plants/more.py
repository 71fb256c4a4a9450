P = 'pgp/packets/packets.py'
T = 'pgp/transferrable_keys.py'
M = 'pgp/message.py'
U = 'pgp/utils.py'
S = 'pgp/s2k.py'
A = 'pgp/armor.py'
SP = 'pgp/packets/signature_subpackets.py'
G = 'pgp/signature.py'
D = 'pgp/db/gpg.py'
GP = 'pgp/pinentry/getpass.py'
H = 'pgp/keyserver/hkp.py'
MG = 'pgp/merge.py'
KEYS = '''
import warnings; warnings.simplefilter('ignore')
from Crypto.PublicKey import RSA
from pgp import utils as U, transferrable_keys as T, message as M
from pgp.packets import packets as P, signature_subpackets as S
def secbody(r):
    b = bytearray([4]) + U.int_to_4byte(1000000000) + bytearray([1])
    b += U.int_to_mpi(r.n) + U.int_to_mpi(r.e)
    sec = bytearray()
    for x in (r.d, r.p, r.q, r.u):
        sec += U.int_to_mpi(x)
    b.append(0)
    return b + sec + U.int_to_2byte(sum(sec) & 0xffff)
def pk(tag, body):
    return P.packet_from_packet_data(bytearray([0xc0 + tag, 255]) + U.int_to_4byte(len(body)) + body)[1]
r = RSA.generate(1024)
k = T.TransferableSecretKey.from_packet(pk(5, secbody(r)))
k.unlock('')
'''
RING = '''
import os, shutil, tempfile
from pgp.db import gpg
from pgp import transferrable_keys as T, utils as U
from pgp.packets import packets as P
def body(n):
    return bytearray([4]) + U.int_to_4byte(1000000000) + bytearray([1]) + U.int_to_mpi(2 ** 1023 + n) + U.int_to_mpi(65537)
def packet(tag, b):
    return bytearray([0xc0 + tag, 255]) + U.int_to_4byte(len(b)) + b
def block(n, extra=b''):
    return bytes(packet(6, body(n)) + packet(13, bytearray(b'user %d' % n)) + extra)
def key(n):
    k = T.TransferablePublicKey.from_packet(P.packet_from_packet_data(packet(6, body(n)))[1])
    k.user_ids.append(T.UserID(k, 'user %d' % n))
    return k
d = tempfile.mkdtemp()
f = os.path.join(d, 'ring.gpg')
'''
PLANTS = [
 dict(id='c03-trailer-wrap', property='C03',
  needs='a signature whose hashed subpackets take 65530 octets or more',
  breaks='the four-octet length in the hashed trailer wraps at 65536',
  edits=[(P, "hashed_subpacket_length + 6))", "(hashed_subpacket_length + 6) & 0xffff))")],
  demo='''
from pgp.packets import packets as P, signature_subpackets as S
for n in (3, 100, 32760):
    subs = [S.SignatureSubpacket(100, False, bytearray(n)) for _ in range(2)]
    size = sum(len(bytes(s)) for s in subs)
    sig = P.SignaturePacket(1, 4, 0, 1, 8, bytearray(2), [5], hashed_subpackets=subs, unhashed_subpackets=[])
    t = bytes(sig.get_signature_hash_trailer())
    assert t[-4:] == (size + 6).to_bytes(4, 'big'), (n, t[-4:])
'''),
 dict(id='c10-checksum-low', property='C10',
  needs='a wrapped session key whose checksum is wrong in its first octet only',
  breaks='only the low octet of the session key checksum is compared',
  edits=[(P, "        if expected_checksum != actual_checksum:\n            raise ValueError\n\n        return symmetric_algorithm, m[1:-2]", "        if (expected_checksum ^ actual_checksum) & 0xff:\n            raise ValueError\n\n        return symmetric_algorithm, m[1:-2]")],
  demo=KEYS + '''
key = bytes(range(100, 132))
def unwrap(check):
    m = b'\\x09' + key + check.to_bytes(2, 'big')
    em = b'\\x00\\x02' + b'p' * (128 - len(m) - 3) + b'\\x00' + m
    c = pow(int.from_bytes(em, 'big'), r.e, r.n)
    s = M.PublicKeySessionKey(3, public_key_algorithm=1, key_id=k.key_id, encrypted_key=U.int_to_mpi(c))
    return s.get_algorithm_and_session_key(k)
a, got = unwrap(sum(key) % 65536)
assert a == 9 and bytes(got) == key
for bad in (1, 256, 512, 0x8000):
    try:
        unwrap(sum(key) % 65536 ^ bad)
    except ValueError:
        continue
    raise SystemExit('checksum off by %x accepted' % bad)
'''),
 dict(id='c18-reserved-digest', property='C18',
  needs='a signature or specifier that names a reserved hash number (4 to 7)',
  breaks='reserved hash numbers are served by RIPEMD-160 instead of being refused',
  edits=[(U, "    elif type_ == 3:\n        return RIPEMD.new()\n", "    elif 3 <= type_ < 8:\n        return RIPEMD.new()\n")],
  demo='''
from pgp import utils as U
for n in range(256):
    try:
        U.get_hash_instance(n)
    except Exception:
        assert n not in (1, 2, 3, 8, 9, 10, 11), n
    else:
        assert n in (1, 2, 3, 8, 9, 10, 11), n
'''),
 dict(id='c20-empty-checksum', property='C20',
  needs='an armored block with no data and a wrong checksum',
  breaks='the checksum of an empty block is not compared',
  edits=[(A, "        if actual_checksum != expected_checksum:", "        if data and actual_checksum != expected_checksum:")],
  demo='''
from pgp import armor
good = '-----BEGIN PGP MESSAGE-----\\n\\n=twTO\\n-----END PGP MESSAGE-----\\n'
armor.ASCIIArmor.from_ascii(good)
for c in ('AAAA', 'twTP'):
    try:
        armor.ASCIIArmor.from_ascii(good.replace('twTO', c))
    except ValueError:
        continue
    raise SystemExit('wrong checksum accepted')
'''),
 dict(id='c23-trailing-trust', property='C23',
  needs='a keyring written by GnuPG, with a trust packet after the last packet of the key that is replaced',
  breaks='a trailing trust packet of the replaced key is left behind, where it belongs to the key after it',
  edits=[(D, "                    packets.append(packet)\n                    last_offset = fh.tell()\n                fh.seek(last_offset)\n                data += fh.read()\n            with", "                    packets.append(packet)\n                    if packet.type != constants.TRUST_PACKET_TYPE:\n                        last_offset = fh.tell()\n                fh.seek(last_offset)\n                data += fh.read()\n            with")],
  demo=RING + '''
try:
    trust = bytes(packet(12, bytearray([6, 0])))
    a, b, c = block(1), block(3, trust), block(5)
    with open(f, 'wb') as fh:
        fh.write(a + b + c)
    ring = gpg.Keyring(f, False, False, False, False)
    ring.delete_transferrable_key(key(3))
    with open(f, 'rb') as fh:
        left = fh.read()
    assert left == a + c, left[len(a):len(a) + 20]
finally:
    shutil.rmtree(d)
'''),
 dict(id='c27-search-refused', property='C27',
  needs='a keyserver that answers a search with a client error status',
  breaks='a search that was refused (4xx) is read as if it had succeeded',
  edits=[(H, "            'exact': 'yes' if exact else 'no'\n            })\n        response.raise_for_status()", "            'exact': 'yes' if exact else 'no'\n            })\n        if response.status_code >= 500:\n            response.raise_for_status()")],
  demo='''
import requests
from pgp.keyserver import hkp
class R(object):
    text = 'info:1:1\\npub:0123456789ABCDEF:1:1024:1000000000::\\nuid:x:1000000000::\\n'
    content = text.encode()
    def __init__(self, code):
        self.status_code = code
    ok = property(lambda self: self.status_code < 400)
    def raise_for_status(self):
        if self.status_code >= 400:
            raise requests.HTTPError(str(self.status_code))
code = [200]
requests.get = lambda *a, **k: R(code[0])
c = hkp.HKPKeyserverClient('hkp://keys.example')
for n in (404, 403, 500):
    code[0] = n
    try:
        c.search('x')
    except requests.HTTPError:
        continue
    raise SystemExit('status %d not reported' % n)
'''),
 dict(id='c28-confirm-prefix', property='C28',
  needs='a confirmation that continues past the passphrase, or an empty passphrase',
  breaks='a confirmation is accepted when it only starts with the passphrase',
  edits=[(GP, "                if getpass('Confirm: ', stream=stream) != passphrase:", "                if not getpass('Confirm: ', stream=stream).startswith(\n                        passphrase):")],
  demo='''
import io
from pgp.pinentry import getpass as G
def ask(answers, repeat=1):
    left = list(answers)
    G.getpass = lambda *a, **k: left.pop(0)
    r = G.GetPassPinentry().get_passphrase(repeat=repeat, stream=io.StringIO())
    assert not left, left
    return r
assert ask(['a', 'a']) == 'a'
assert ask(['a', 'b', 'c', 'c']) == 'c'
assert ask(['a', 'ab', 'c', 'c']) == 'c'
assert ask(['', 'ab', 'c', 'c']) == 'c'
'''),
 dict(id='c30-sorted-subpackets', property='C30',
  needs='a signature whose unhashed subpackets are not in order of their types, written once',
  breaks='writing a signature sorts its list of unhashed subpackets in place',
  edits=[(P, "            for sp in self.hashed_subpackets:\n                hashed_subpacket_data.extend(bytes(sp))\n            for sp in unhashed", "            self.unhashed_subpackets.sort(key=lambda sp: sp.type)\n            for sp in self.hashed_subpackets:\n                hashed_subpacket_data.extend(bytes(sp))\n            for sp in unhashed")],
  demo='''
from pgp.packets import packets as P, signature_subpackets as S
subs = [S.IssuerSubpacket(False, '0123456789ABCDEF'), S.CreationTimeSubpacket(False, 7)]
sig = P.SignaturePacket(1, 4, 0, 1, 8, bytearray(2), [5], hashed_subpackets=[], unhashed_subpackets=subs)
before = list(map(bytes, subs))
bytes(sig)
assert list(map(bytes, subs)) == before
assert list(map(bytes, sig.unhashed_subpackets)) == before
'''),
 dict(id='c15-target-short', property='C15',
  needs='a signature target subpacket for a hash longer than 20 octets',
  breaks='at most 20 octets of the target digest are kept',
  edits=[(SP, "        assert len(sub_data) > 2\n        public_key_algorithm = int(sub_data[0])", "        assert len(sub_data) > 2\n        sub_data = sub_data[:2] + sub_data[2:22].ljust(len(sub_data) - 2, b'\\0')\n        public_key_algorithm = int(sub_data[0])")],
  demo='''
from pgp.packets import signature_subpackets as S
for alg, n in ((2, 20), (8, 32), (10, 64)):
    raw = bytearray([n + 3, 31, 1, alg]) + bytearray(range(1, n + 1))
    s, _ = S.signature_subpacket_from_data(raw, 0)
    assert bytes(s) == bytes(raw), alg
'''),
 dict(id='c15-unknown-uid', property='C15',
  needs='a subpacket of a type above 63',
  breaks='the two highest bits of the type number are cut off, so private subpackets are read as standard ones',
  edits=[(SP, "    subpacket_type = tag & 0x7f\n", "    subpacket_type = tag & 0x3f\n")],
  demo='''
from pgp.packets import signature_subpackets as S
for t in (2, 33, 63, 66, 100, 127):
    raw = bytearray([5, t, 1, 2, 3, 4])
    s, _ = S.signature_subpacket_from_data(raw, 0)
    assert s.type == t and bytes(s) == bytes(raw), t
'''),
 dict(id='c07-warn-passphrase', property='C07',
  needs='a passphrase-locked session key for a Camellia cipher, and the error text being seen',
  breaks='the passphrase is put into the text of an exception',
  edits=[(P, "        key = s2k_specification.to_key(passphrase)\n        symmetric_algorithm = symmetric_algorithm\n", "        key = s2k_specification.to_key(passphrase)\n        if symmetric_algorithm > 13:\n            raise ValueError('cannot use cipher %d with %r' % (\n                symmetric_algorithm, passphrase))\n")],
  demo='''
from pgp import s2k
from pgp.packets import packets as P
pw = b'the secret words'
for alg in (9, 13, 14, 110):
    p = P.SymmetricKeyEncryptedSessionKeyPacket(1, 4, alg, s2k.SaltedS2K(8, 9, bytearray(8)), bytearray(17))
    try:
        p.get_key_and_cipher_algo(pw)
    except Exception as e:
        assert 'secret' not in repr(e) + str(e), e
'''),
 dict(id='c32-flush-lost', property='C32',
  needs='compressing packets with an algorithm that keeps data until it is flushed',
  breaks='what the compressor gives out at the end is dropped',
  edits=[(P, "        packet_data += algo.flush()\n", "        packet_data += algo.flush()[:65536]\n")],
  demo='''
import os, hashlib
from pgp.packets import packets as P
raw = b''.join(hashlib.sha512(b'%d' % i).digest() for i in range(3000))
lit = P.LiteralDataPacket(1, b'b', 'x', 0, bytearray(raw))
for alg in (1, 2, 3):
    c = P.CompressedDataPacket.compress_packets(alg, 6, [lit])
    out = P.CompressedDataPacket.decompress_data(alg, c)
    assert b''.join(map(bytes, out)) == bytes(lit), alg
'''),
 dict(id='c34-first-copy', property='C34',
  needs='a database with two copies of the key',
  breaks='only the first copy found is merged',
  edits=[(MG, "            key = merge(key, candidate_key)\n", "            key = merge(key, candidate_key)\n            break\n")],
  demo=RING + '''
shutil.rmtree(d)
from pgp import merge
a, b, c = key(1), key(1), key(1)
b.user_ids.append(T.UserID(b, 'second'))
c.user_ids.append(T.UserID(c, 'third'))
class DB(object):
    def search(self, *a, **k):
        return [b, c]
m = merge.merge_key(a, DB())
names = sorted(bytes(u.to_packets()[0].content) if hasattr(u, 'to_packets') else bytes(u.to_packet().content) for u in m.user_ids)
assert names == [b'second', b'third', b'user 1'], names
'''),
]
