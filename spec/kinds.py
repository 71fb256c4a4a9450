"""Number-to-class drivers.  Interpreted abstractly, never executed."""
import io

from pgp import s2k
from pgp.packets import packets as P
from pgp.packets import parsers
from pgp.packets import signature_subpackets as S
from pgp.packets import user_attribute_subpackets as A


def packet(data, name):
    end, p = P.packet_from_packet_data(data, 0)
    return p.type, p.__class__ is getattr(P, name)


def stream(data, name):
    p = P.packet_from_packet_stream(io.BytesIO(data))
    return p.type, p.__class__ is getattr(P, name)


def octets(data):
    end, p = P.packet_from_packet_data(data, 0)
    return end, bytes(p)


def stream_octets(data):
    p = P.packet_from_packet_stream(io.BytesIO(data))
    return bytes(p)


def subpacket(data, name):
    p, end = S.signature_subpacket_from_data(data, 0)
    return p.type, p.critical, p.__class__ is getattr(S, name)


def sub_octets(data):
    p, end = S.signature_subpacket_from_data(data, 0)
    return end, bytes(p)


def attribute(data, name):
    p, end = A.user_attribute_subpacket_from_data(data, 0)
    return p.sub_type, p.__class__ is getattr(A, name)


def attr_octets(data):
    p, end = A.user_attribute_subpacket_from_data(data, 0)
    return end, bytes(p)


def transform(data, name):
    p, end = s2k.parse_s2k_bytes(9, data, 0)
    return p.__class__ is getattr(s2k, name)


def transform_octets(data):
    p, end = s2k.parse_s2k_bytes(9, data, 0)
    return end, bytes(p)


def several(data):
    return tuple([(p.type, bytes(p))
                  for p in parsers.parse_binary_packet_data(data)])
