"""Subpackets: drivers and RFC 4880 5.2.3, 5.12 reference layouts.

Interpreted abstractly by the analyser, never executed.
"""
from pgp.packets import signature_subpackets as S
from pgp.packets import user_attribute_subpackets as A


def sig_roundtrip(data):
    sp, end = S.signature_subpacket_from_data(data, 0)
    return end, bytes(sp)


def sig_roundtrip_at(data, offset):
    sp, end = S.signature_subpacket_from_data(data, offset)
    return end, bytes(sp)


def attr_roundtrip(data):
    sp, end = A.user_attribute_subpacket_from_data(data, 0)
    return end, bytes(sp)


def fields(data, names):
    sp, end = S.signature_subpacket_from_data(data, 0)
    return tuple([getattr(sp, n) for n in names])


def flags(data, names):
    sp, end = S.signature_subpacket_from_data(data, 0)
    return tuple([bool(getattr(sp, n)) for n in names])


def listed(data):
    sp, end = S.signature_subpacket_from_data(data, 0)
    return bytes(bytearray(sp.preferred_algorithms))


def attr_fields(data, names):
    sp, end = A.user_attribute_subpacket_from_data(data, 0)
    return tuple([getattr(sp, n) for n in names])


def attr_data(data):
    sp, end = A.user_attribute_subpacket_from_data(data, 0)
    return bytes(sp.data)


def embedded(data):
    sp, end = S.signature_subpacket_from_data(data, 0)
    return bytes(sp.signature.content)


def write(name, critical, args):
    return bytes(getattr(S, name)(critical, *args))


def write_image(version, length, fmt, data):
    return bytes(A.ImageAttributeSubpacket(version, length, fmt, data))


def w_creation(c, t):
    return bytes(S.CreationTimeSubpacket(c, t))


def w_expiration(c, t):
    return bytes(S.ExpirationSecondsSubpacket(c, t))


def w_keyexpiration(c, t):
    return bytes(S.KeyExpirationTimeSubpacket(c, t))


def w_exportable(c, v):
    return bytes(S.ExportableSubpacket(c, v))


def w_revocable(c, v):
    return bytes(S.RevocableSubpacket(c, v))


def w_primary(c, v):
    return bytes(S.PrimaryUserIDSubpacket(c, v))


def w_trust(c, d, a):
    return bytes(S.TrustSubpacket(c, d, a))


def w_issuer(c, k):
    return bytes(S.IssuerSubpacket(c, k))


def w_reason(c, code, text):
    return bytes(S.RevocationReasonSubpacket(c, code, text))


def w_keyflags(c, a, b, d, e, f, g, h):
    return bytes(S.KeyFlagsSubpacket(c, a, b, d, e, f, g, h))


def s_keyflags(a, b, d, e, f, g, h):
    return ((1 if a else 0) + (2 if b else 0) + (4 if d else 0) +
            (8 if e else 0) + (32 if f else 0) + (16 if g else 0) +
            (128 if h else 0))


def w_features(c, v):
    return bytes(S.FeaturesSubpacket(c, v))


def w_keyserver(c, v):
    return bytes(S.KeyServerPreferencesSubpacket(c, v))


def w_revkey(c, fpr, alg, sensitive):
    return bytes(S.RevocationKeySubpacket(c, fpr, alg, sensitive=sensitive))


def w_target(c, alg, h, digest):
    return bytes(S.TargetSubpacket(c, alg, h, digest))


def w_notation(c, name, ns, human, value):
    return bytes(S.NotationSubpacket(c, name, ns, human, value))


def w_regex(c, p):
    return bytes(S.RegularExpressionSubpacket(c, p))


def w_uri(c, p):
    return bytes(S.PolicyURISubpacket(c, p))


def w_keyserveruri(c, p):
    return bytes(S.PreferredKeyServerSubpacket(c, p))


def text(data, name):
    sp, end = S.signature_subpacket_from_data(data, 0)
    return getattr(sp, name).encode('utf8', 'surrogateescape')


def notation(data):
    sp, end = S.signature_subpacket_from_data(data, 0)
    v = sp.value
    if sp.human_readable:
        v = v.encode('utf8', 'surrogateescape')
    return sp.name, sp.namespace, bool(sp.human_readable), bytes(v)


def kinds(data):
    sp, end = S.signature_subpacket_from_data(data, 0)
    return sp.type, bool(sp.critical)


def s_be(ty, c, n, v):
    head = bytes([n + 1, ty + (128 if c else 0)])
    if n == 1:
        return head + bytes([v])
    return head + bytes([(v >> 24) & 255, (v >> 16) & 255, (v >> 8) & 255,
                         v & 255])


def s_bool(ty, c, v):
    return bytes([2, ty + (128 if c else 0), 1 if v else 0])


def s_two(ty, c, a, b):
    return bytes([3, ty + (128 if c else 0), a, b])


def ascii(data, name):
    sp, end = S.signature_subpacket_from_data(data, 0)
    return getattr(sp, name).encode('ascii', 'surrogateescape')
