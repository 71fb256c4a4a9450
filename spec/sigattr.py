"""Signature and key attributes: drivers.  Interpreted, never executed."""
import re

from pgp import signature as G
from pgp import transferrable_keys as T
from pgp.packets import packets as P

LISTS = ('preferred_compression_algorithms', 'preferred_hash_algorithms',
         'preferred_symmetric_algorithms')
TEXTS = ('issuer_user_id', 'preferred_key_server', 'policy_uri',
         'revocation_reason')
NUMBERS = ('trust_amount', 'trust_depth')
TIMES = ('creation_time', 'signature_expiration_time', 'key_expiration_time',
         'expiration_time')


def packet(data):
    end, p = P.packet_from_packet_data(data, 0)
    return p


def norm(name, v):
    if name in LISTS:
        return tuple([int(x) for x in v or []])
    if name == 'issuer_key_ids':
        return tuple([x for x in v or []])
    if name in TEXTS:
        return None if v is None else v.encode('utf8', 'surrogateescape')
    if name in NUMBERS:
        return v or 0
    if name in TIMES:
        return v
    if name == 'revocation_code':
        return v
    if name == 'regular_expressions':
        return tuple([r.pattern.encode('ascii', 'surrogateescape')
                      for r in v or []])
    if name == 'notations':
        return tuple([(n.name, n.namespace, bool(n.is_human_readable()),
                       n.value.encode('utf8', 'surrogateescape')
                       if n.is_human_readable() else bytes(n.value))
                      for n in v or []])
    if name == 'revocation_keys':
        return tuple([(r.public_key_algorithm, r.fingerprint,
                       bool(r.sensitive)) for r in v or []])
    if name == 'embedded_signatures':
        return tuple([bytes(s.to_packet().content) for s in v or []])
    return bool(v)


def read_all(s, names):
    return tuple([norm(n, getattr(s, n)) for n in names])


def read(data, key, uid, names):
    k = T.TransferablePublicKey.from_packet(packet(key))
    u = T.UserID.from_packet(k, packet(uid))
    s = T.KeySignature.from_packet(packet(data), u)
    return read_all(s, names)


def read_on_key(data, key, names):
    k = T.TransferablePublicKey.from_packet(packet(key))
    s = T.KeySignature.from_packet(packet(data), k)
    return read_all(s, names)


def make(name, v):
    """The Python value an attribute is set to."""
    if name == 'notations':
        return [G.Notation(x[0], x[1], x[2], x[3]) for x in v]
    if name == 'revocation_keys':
        return [G.RevocationKeyInfo(x[0], x[1], x[2]) for x in v]
    if name == 'regular_expressions':
        return [re.compile(x) for x in v]
    if name in LISTS or name == 'issuer_key_ids':
        return list(v)
    if name == 'embedded_signatures':
        return [T.KeySignature.from_packet(packet(x), None) for x in v]
    return v


def change(data, key, uid, name, value, names):
    """Set one attribute, write the signature, read it back."""
    k = T.TransferablePublicKey.from_packet(packet(key))
    u = T.UserID.from_packet(k, packet(uid))
    s = T.KeySignature.from_packet(packet(data), u)
    setattr(s, name, make(name, value))
    p = packet(bytes(s.to_packet()))
    return read_all(T.KeySignature.from_packet(p, u), names)


def where_written(data, key, uid, name, value):
    """Subpacket types in the hashed and the unhashed area afterwards."""
    k = T.TransferablePublicKey.from_packet(packet(key))
    u = T.UserID.from_packet(k, packet(uid))
    s = T.KeySignature.from_packet(packet(data), u)
    setattr(s, name, make(name, value))
    p = packet(bytes(s.to_packet()))
    return (tuple(sorted([x.type for x in p.hashed_subpackets])),
            tuple(sorted([x.type for x in p.unhashed_subpackets])))


def key_read(datas, what, names):
    """Attributes of a component of a whole key."""
    k = T.TransferablePublicKey.from_packets([packet(d) for d in datas])
    if what == 'uid':
        x = k.user_ids[0]
    elif what == 'attribute':
        x = k.user_attributes[0]
    elif what == 'subkey':
        x = k.subkeys[0]
    else:
        x = k
    return tuple([norm('key_expiration_time' if n == 'expiration_time' else n,
                       getattr(x, n)) for n in names])
