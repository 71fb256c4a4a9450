"""Drivers: what is signed for a document."""
from pgp import message as M
from pgp.packets import packets as P


def text(data, signature_type, version):
    m = M.TextMessage(data, 'name', None)
    return m.to_signable_data(signature_type, version)


def text_default(data, signature_type):
    m = M.TextMessage(data, 'name', None)
    return m.to_signable_data(signature_type)


def binary(data, signature_type, version):
    m = M.BinaryMessage(data, 'name', None)
    return m.to_signable_data(signature_type, version)


def packet(kind, data, signature_type, version):
    p = P.LiteralDataPacket(1, kind, 'name', 0, data)
    m = M.LiteralMessage.from_packet(p)
    return m.to_signable_data(signature_type, version)


def canonical(data):
    octets = data.encode('utf8')
    octets = octets.replace(b'\r\n', b'\n').replace(b'\r', b'\n')
    return octets.replace(b'\n', b'\r\n')


def plain(data):
    return data.encode('utf8')
