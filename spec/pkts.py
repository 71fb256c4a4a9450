"""Whole packets: drivers.  Interpreted abstractly, never executed."""
from pgp.packets import packets as P


def roundtrip(data):
    end, p = P.packet_from_packet_data(data, 0)
    return end, bytes(p)


def fields(data, names):
    end, p = P.packet_from_packet_data(data, 0)
    return tuple([getattr(p, n) for n in names])


def octets(data, name):
    end, p = P.packet_from_packet_data(data, 0)
    return bytes(getattr(p, name))


def text(data, name):
    end, p = P.packet_from_packet_data(data, 0)
    return getattr(p, name).encode('utf8', 'surrogateescape')


def latin(data, name):
    end, p = P.packet_from_packet_data(data, 0)
    return getattr(p, name).encode('latin-1')


def signature_subpackets(data):
    end, p = P.packet_from_packet_data(data, 0)
    return (tuple([bytes(x) for x in p.hashed_subpackets]),
            tuple([bytes(x) for x in p.unhashed_subpackets]))


def attribute_subpackets(data):
    end, p = P.packet_from_packet_data(data, 0)
    return tuple([bytes(x) for x in p.subpackets])


def s2k(data):
    end, p = P.packet_from_packet_data(data, 0)
    s = p.s2k_specification
    return (s.hash_algorithm, s.symmetric_algorithm, bytes(s.salt), s.count)


def gnupg(data):
    end, p = P.packet_from_packet_data(data, 0)
    s = p.s2k_specification
    return (s.mode, s.hash_algorithm, s.serial_number)


def w_pkesk(fmt, version, key_id, algo, esk):
    return bytes(P.PublicKeyEncryptedSessionKeyPacket(
        fmt, version, key_id, algo, esk))


def w_ops(fmt, version, sigtype, halgo, palgo, key_id, nested):
    return bytes(P.OnePassSignaturePacket(
        fmt, version, sigtype, halgo, palgo, key_id, nested))


def w_public(sub, fmt, version, created, algo, days, n, e, p, q, g, y):
    cls = P.PublicSubkeyPacket if sub else P.PublicKeyPacket
    return bytes(cls(fmt, version, created, algo, days, modulus=n,
                     exponent=e, prime=p, group_order=q, group_generator=g,
                     key_value=y))


def w_sig3(fmt, version, sigtype, palgo, halgo, hash2, values, created, kid):
    return bytes(P.SignaturePacket(fmt, version, sigtype, palgo, halgo,
                                   hash2, list(values), created, kid))


def w_literal(fmt, kind, name, when, data):
    return bytes(P.LiteralDataPacket(fmt, kind, name, when, data))


def w_userid(fmt, uid):
    return bytes(P.UserIDPacket(fmt, uid))


def w_compressed(fmt, algo, data):
    return bytes(P.CompressedDataPacket(fmt, algo, data))


def w_mdc(fmt, data):
    return bytes(P.ModificationDetectionCodePacket(fmt, data))


def w_seip(fmt, version, data):
    return bytes(P.SymmetricallyEncryptedAndIntegrityProtectedDataPacket(
        fmt, version, data))


def w_sed(fmt, data):
    return bytes(P.SymmetricallyEncryptedDataPacket(fmt, data))


def w_trust(fmt, value, cache):
    return bytes(P.TrustPacket(fmt, value, cache))
