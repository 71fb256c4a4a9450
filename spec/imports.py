"""Import of public key data: drivers.  Interpreted, never executed."""
from pgp import parse as R
from pgp import signature as G
from pgp import transferrable_keys as T
from pgp.packets import packets as P
from pgp.packets import signature_subpackets as S


class Sub(object):
    def __init__(self, subtype, critical, hashed, data):
        self.subtype = subtype
        self.critical = critical
        self.hashed = hashed
        self.data = data
        self.name = 'subpacket'


class SigPacket(object):
    raw = 2

    def __init__(self, version, kind, subpackets):
        self.raw_hash_algorithm = 2
        self.raw_pub_algorithm = 1
        self.raw_sig_type = kind
        self.sig_type = kind
        self.sig_version = version
        self.hash2 = bytearray(b'\x12\x34')
        self.key_id = '0102030405060708'
        self.raw_creation_time = 1000000
        self.subpackets = subpackets
        self.original_data = b'sig'
        self.data = b'sig'


class KeyPacket(object):
    raw = 6
    key_id = '0102030405060708'
    fingerprint = '0000000000000000000000000102030405060708'
    raw_creation_time = 1000000
    raw_days_valid = None
    raw_pub_algorithm = 1
    pubkey_version = 4
    modulus = 12345678901
    exponent = 65537
    prime = None
    group_order = None
    group_gen = None
    key_value = None
    original_data = b'key'
    data = b'key'


class SubkeyPacket(KeyPacket):
    raw = 14
    key_id = '1112131415161718'


class UserPacket(object):
    raw = 13
    user = 'somebody'
    original_data = b'uid'
    data = b'uid'


def sig(version, kind, subs):
    return SigPacket(version, kind, [Sub(*x) for x in subs])


def kept(x):
    return [s['sig_type'] for s in x.get('signatures', [])]


def key_hash(packets):
    return bytearray(b'hash')


def imported(where, version, kind, subs):
    """The types of the signatures kept: one plain signature, the one in
    question, and another plain one."""
    plain = [(2, False, True, bytearray(b'\0\0\0\1'))]
    sigs = [sig(4, 0x10, plain), sig(version, kind, subs),
            sig(4, 0x12, plain)]
    if where == 'key':
        k = R.parse_key([KeyPacket()] + sigs, hash_key_data=key_hash)
        return kept(k)
    if where == 'uid':
        k = R.parse_key([KeyPacket(), UserPacket()] + sigs,
                        hash_key_data=key_hash)
        return kept(k['user_ids'][0])
    k = R.parse_key([KeyPacket(), UserPacket(), SubkeyPacket()] + sigs,
                    hash_key_data=key_hash)
    return kept(k['subkeys'][0])


def alone(kind, subs):
    """One signature packet by itself."""
    s = R.parse_signature_packet(sig(4, kind, subs), 13,
                                 ['0102030405060708'])
    return s['sig_type']


def exportable(kind, subs):
    s = R.parse_signature_packet(sig(4, kind, subs), 13,
                                 ['0102030405060708'])
    return s.get('exportable', True)


def single(subtype, critical, hashed, data, kind, selfsig):
    signature = {'selfsig': selfsig, 'sig_type': kind}
    R.parse_signature_subpacket(Sub(subtype, critical, hashed, data),
                                signature, 13)
    return 'kept'


def packet(data):
    end, p = P.packet_from_packet_data(data, 0)
    return p


def notations(data):
    s = G.BaseSignature.from_packet(packet(data))
    return len(list(s.notations))


def notation(critical, name, value):
    return G.Notation.from_subpacket(S.NotationSubpacket(
        critical, name, value, None, True)).value


def may_export(key, data):
    k = T.TransferablePublicKey.from_packet(packet(key))
    s = T.KeySignature.from_packet(packet(data), k)
    return bool(s.exportable)
