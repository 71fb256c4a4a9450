U = 'pgp/utils.py'
P = 'pgp/packets/packets.py'
S = 'pgp/packets/signature_subpackets.py'
PLANTS = [
 dict(id='c12-partial-mask', property='C12',
  needs='a partial body length whose exponent needs the fifth bit (chunk of 64 KiB or more)',
  breaks='the stream reader of new-format lengths masks the partial exponent with 0x0f, so large chunks are read as small ones',
  edits=[(U, "        partial = True\n        length = 1 << (length & 0x1f)\n    return length, partial", "        partial = True\n        length = 1 << (length & 0x0f)\n    return length, partial")],
  demo='''
import io
from pgp import utils
for e in range(0, 31):
    got = utils.new_packet_length_from_stream(io.BytesIO(bytes([0xe0 + e])))
    assert got == (1 << e, True), (e, got)
'''),
 dict(id='c12-two-octet-boundary', property='C12',
  needs='a packet body of exactly 8383 octets',
  breaks='the longest body a two-octet length can carry is no longer written in two octets; 8383 is written as a five-octet length (not the RFC form the library promised) ',
  edits=[(U, "    elif data_length < 8384:\n        # two-octet body length", "    elif data_length < 8383:\n        # two-octet body length")],
  demo='''
from pgp import utils
assert bytes(utils.new_packet_length_to_bytes(8383, False)[0]) == b'\\xdf\\xff'
'''),
 dict(id='c14-sig-time-top-bit', property='C14',
  needs='a version 3 signature made after January 2038',
  breaks='the version 3 signature creation time loses its top bit (times after 2038)',
  edits=[(P, "            creation_time = utils.long_to_int(data, offset)\n            offset += 4\n\n", "            creation_time = utils.long_to_int(data, offset) & 0x7fffffff\n            offset += 4\n\n")],
  demo='''
from pgp.packets import packets as P
body = bytes([3, 5, 0]) + b'\\x9a\\xbc\\xde\\xf0' + b'ABCDEFGH' + bytes([1, 8]) + b'hh' + b'\\0\\1\\1'
end, p = P.packet_from_packet_data(bytearray(bytes([0xc2, len(body)]) + body), 0)
assert bytes(p.content) == body, bytes(p.content)
'''),
 dict(id='c14-mpi-none', property='C14',
  needs='a DSA or ElGamal style signature one of whose integers is zero',
  breaks='zero-valued signature integers are skipped when a signature packet is written',
  edits=[(P, "            if value is None:\n                continue\n            data.extend(utils.int_to_mpi(value))\n\n        return data\n\n    def get_signature_hash_trailer", "            if not value:\n                continue\n            data.extend(utils.int_to_mpi(value))\n\n        return data\n\n    def get_signature_hash_trailer")],
  demo='''
from pgp.packets import packets as P
body = bytes([4, 0, 17, 8, 0, 0, 0, 0]) + b'hh' + b'\\0\\1\\1' + b'\\0\\0'
end, p = P.packet_from_packet_data(bytearray(bytes([0xc2, len(body)]) + body), 0)
assert bytes(p.content) == body, bytes(p.content)
'''),
 dict(id='c15-split-flag', property='C15',
  needs='a key-flags subpacket with exactly one of the split-key and authentication bits set',
  breaks='the authentication and split-key bits are read from swapped positions',
  edits=[(S, "        may_be_used_for_auth = bool(known_flags & 0x20)\n        may_have_been_split = bool(known_flags & 0x10)", "        may_be_used_for_auth = bool(known_flags & 0x10)\n        may_have_been_split = bool(known_flags & 0x20)")],
  demo='''
from pgp.packets import signature_subpackets as S
p, end = S.signature_subpacket_from_data(bytearray([2, 27, 0x20]), 0)
assert p.may_be_used_for_auth and not p.may_have_been_split
assert bytes(p) == bytes([2, 27, 0x20]), bytes(p)
'''),
 dict(id='c15-notation-split', property='C15',
  needs='a notation name containing a second at sign',
  breaks='a notation name with two at signs loses everything after the second',
  edits=[(S, "name_and_namespace.split('@', 1) + [None])[:2]", "name_and_namespace.split('@') + [None])[:2]")],
  demo='''
from pgp.packets import signature_subpackets as S
raw = bytes([1 + 8 + 5 + 1, 20, 0x80, 0, 0, 0, 0, 5, 0, 1]) + b'a@b@c' + b'v'
p, end = S.signature_subpacket_from_data(bytearray(raw), 0)
assert bytes(p) == raw, bytes(p)
'''),
 dict(id='c16-sig-hash-algo', property='C16',
  needs='two signature packets that differ only in the hash algorithm octet',
  breaks='signature packets that differ only in their hash algorithm compare equal',
  edits=[(P, "            and self.hash_algorithm == other.hash_algorithm\n            and self.hash2 == other.hash2", "            and self.hash2 == other.hash2")],
  demo='''
from pgp.packets import packets as P
def sig(h):
    body = bytes([4, 0, 1, h, 0, 0, 0, 0]) + b'hh' + b'\\0\\1\\1'
    return P.packet_from_packet_data(bytearray(bytes([0xc2, len(body)]) + body), 0)[1]
assert sig(8) == sig(8)
assert not sig(8) == sig(10)
'''),
 dict(id='c17-s2k-count-high', property='C17',
  needs='an iterated passphrase count code of 0x80 or more (over four million octets)',
  breaks='the exponent of the count code loses its top bit, so strong counts are read as weak ones',
  edits=[(U, "    return (16 + (byte & 15)) << ((byte >> 4) + EXPBIAS)", "    return (16 + (byte & 15)) << (((byte >> 4) & 7) + EXPBIAS)")],
  demo='''
from pgp import utils
for c in range(256):
    assert utils.s2k_count_to_int(c) == (16 + (c & 15)) << ((c >> 4) + 6), c
'''),
]
