"""Packet framing: reference definitions (RFC 4880 section 4.2) and drivers.

Interpreted abstractly by the analyser, never executed.
"""
import io

from pgp.packets import constants
from pgp.packets.packets import Packet
from pgp.packets.packets import packet_from_packet_data
from pgp.packets.packets import packet_from_packet_stream
from pgp.packets import parsers
from pgp.packets import signature_subpackets
from pgp.packets import user_attribute_subpackets
from pgp import utils


NEW = constants.NEW_PACKET_HEADER_TYPE
OLD = constants.OLD_PACKET_HEADER_TYPE


def write_packet(new, type_, content):
    return bytes(Packet(NEW if new else OLD, type_, content))


def old_length_octets(n):
    t, o = utils.old_packet_length_to_bytes(n)
    return t, bytes(bytearray(o))


def spec_old_length_octets(n):
    if n < 256:
        return 0, bytes([n])
    elif n < 65536:
        return 1, bytes([n >> 8, n & 255])
    return 2, bytes([n >> 24, (n >> 16) & 255, (n >> 8) & 255, n & 255])


def new_header(type_, n):
    if n < 192:
        return bytes([0xc0 + type_, n])
    elif n < 8384:
        return bytes([0xc0 + type_, ((n - 192) >> 8) + 192, (n - 192) & 255])
    return bytes([0xc0 + type_, 255, (n >> 24) & 255, (n >> 16) & 255,
                  (n >> 8) & 255, n & 255])


def old_header(type_, n):
    if n < 256:
        return bytes([0x80 + 4 * type_, n])
    elif n < 65536:
        return bytes([0x81 + 4 * type_, n >> 8, n & 255])
    return bytes([0x82 + 4 * type_, n >> 24, (n >> 16) & 255, (n >> 8) & 255,
                  n & 255])


def spec_write_new(type_, content):
    return new_header(type_, len(content)) + bytes(content)


def spec_write_old(type_, content):
    return old_header(type_, len(content)) + bytes(content)


def read_data(data, offset):
    end, p = packet_from_packet_data(data, offset)
    return end, p.header_format == NEW, p.type, bytes(p.content)


def read_stream(data):
    fh = io.BytesIO(data)
    p = packet_from_packet_stream(fh)
    return fh.tell(), p.header_format == NEW, p.type, bytes(p.content)



def read_many(data):
    """Every packet of an octet string, through the public iterator."""
    return tuple([(p.header_format == NEW, p.type, bytes(p.content))
                  for p in parsers.parse_binary_packet_data(data)])


def write_sig_subpacket(type_, critical, content):
    return bytes(signature_subpackets.SignatureSubpacket(
        type_, critical, content))


def write_attr_subpacket(type_, content):
    return bytes(user_attribute_subpackets.UserAttributeSubpacket(
        type_, content))


def spec_length(n):
    if n < 192:
        return bytes([n])
    elif n < 8384:
        return bytes([((n - 192) >> 8) + 192, (n - 192) & 255])
    return bytes([255, (n >> 24) & 255, (n >> 16) & 255, (n >> 8) & 255,
                  n & 255])


def spec_sig_subpacket(type_, critical, content):
    return (spec_length(len(content) + 1) +
            bytes([type_ + 128 if critical else type_]) + bytes(content))


def spec_attr_subpacket(type_, content):
    return spec_length(len(content) + 1) + bytes([type_]) + bytes(content)


def read_sig_subpacket(data, offset):
    sp, end = signature_subpackets.signature_subpacket_from_data(data, offset)
    return end, sp.type, sp.critical, bytes(sp.content)


def read_attr_subpacket(data, offset):
    sp, end = user_attribute_subpackets.user_attribute_subpacket_from_data(
        data, offset)
    return end, sp.sub_type, bytes(sp.content)


def stream_length(data):
    fh = io.BytesIO(data)
    length, partial = utils.new_packet_length_from_stream(fh)
    return fh.tell(), length, partial
