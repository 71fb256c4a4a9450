"""Key objects: drivers.  Interpreted abstractly, never executed."""
from Crypto.Hash import MD5, SHA

from pgp import transferrable_keys as T
from pgp import utils
from pgp.packets import packets as P


def packet(data):
    end, p = P.packet_from_packet_data(data, 0)
    return p


def key_of(data, primary):
    p = packet(data)
    if p.type == 6:
        return T.TransferablePublicKey.from_packet(p)
    if p.type == 5:
        return T.TransferableSecretKey.from_packet(p)
    pp = T.TransferablePublicKey.from_packet(packet(primary))
    if p.type == 14:
        return T.PublicSubkey.from_packet(pp, p)
    return T.SecretSubkey.from_packet(pp, p)


def roundtrip(data, primary):
    return bytes(key_of(data, primary).to_packet())


def roundtrip_as(data, primary, fmt):
    return bytes(key_of(data, primary).to_packet(fmt))


def public_octets(data, primary):
    return bytes(key_of(data, primary).to_public_key().to_packet())


def fields(data, primary, names):
    k = key_of(data, primary)
    return tuple([getattr(k, n) for n in names])


def octets(data, primary, name):
    return bytes(getattr(key_of(data, primary), name))


def public_fields(data, primary, names):
    k = key_of(data, primary).to_public_key()
    return tuple([getattr(k, n) for n in names])


def unlocked_fields(data, primary, names):
    k = key_of(data, primary)
    k.unlock(u'pass')
    return tuple([getattr(k, n) for n in names])


def unlocked_roundtrip(data, primary):
    k = key_of(data, primary)
    k.unlock(u'pass')
    return bytes(k.to_packet())


def key_obj(data, primary):
    return key_of(data, primary)._get_key_obj()


def unlocked_key_obj(data, primary):
    k = key_of(data, primary)
    k.unlock(u'pass')
    return k._get_key_obj()


def packet_id(data):
    p = packet(data)
    return p.fingerprint, p.key_id


def object_id(data, primary):
    k = key_of(data, primary)
    return k.fingerprint, k.key_id


def public_id(data, primary):
    k = key_of(data, primary).to_public_key()
    return k.fingerprint, k.key_id


def unlocked_id(data, primary):
    k = key_of(data, primary)
    k.unlock(u'pass')
    return k.fingerprint, k.key_id


def unlocked_public(data, primary, names):
    k = key_of(data, primary)
    k.unlock(u'pass')
    p = k.to_public_key()
    return tuple([getattr(p, n, None) for n in names])


def unlocked_packet(data, primary, names):
    k = key_of(data, primary)
    k.unlock(u'pass')
    p = k.to_packet()
    return tuple([getattr(p, n, None) for n in names])


def ref_v4(body):
    """RFC 4880 12.2: SHA-1 over 0x99, two-octet length, packet body."""
    h = SHA.new()
    h.update(bytearray([0x99, len(body) >> 8, len(body) & 255]) + body)
    f = h.hexdigest().upper()
    return f, f[-16:]


def ref_v3(n, e):
    """RFC 4880 12.2: MD5 over the octets of modulus and exponent."""
    h = MD5.new()
    h.update(bytearray(n) + bytearray(e))
    return h.hexdigest().upper(), utils.bytearray_to_hex(
        bytearray(n)[len(n) - 8:])
