"""Equality drivers.  Interpreted abstractly, never executed."""
from pgp.packets import packets as P
from pgp.packets import signature_subpackets as S
from pgp.packets import user_attribute_subpackets as A


def packets(x, y):
    end, p = P.packet_from_packet_data(x, 0)
    end, q = P.packet_from_packet_data(y, 0)
    return bool(p == q)


def subpackets(x, y):
    p, end = S.signature_subpacket_from_data(x, 0)
    q, end = S.signature_subpacket_from_data(y, 0)
    return bool(p == q)


def attributes(x, y):
    p, end = A.user_attribute_subpacket_from_data(x, 0)
    q, end = A.user_attribute_subpacket_from_data(y, 0)
    return bool(p == q)


def hashes(x, y):
    p, end = S.signature_subpacket_from_data(x, 0)
    q, end = S.signature_subpacket_from_data(y, 0)
    return hash(p) == hash(q)
