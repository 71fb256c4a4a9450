"""Compression drivers.  Interpreted abstractly, never executed."""
from pgp import message as M
from pgp import utils
from pgp.packets import packets as P


def pack(algorithm, level, chunks):
    c = utils.get_compression_instance(algorithm, level)
    out = b''
    for chunk in chunks:
        out += c.compress(chunk)
    out += c.flush()
    return bytes(out)


def unpack(algorithm, level, chunks):
    c = utils.get_compression_instance(algorithm, level)
    out = b''
    for chunk in chunks:
        out += c.decompress(chunk)
    out += c.flush()
    return bytes(out)


def pack_unpack(algorithm, level, chunks, chunked):
    c = utils.get_compression_instance(algorithm, level)
    pieces = []
    for chunk in chunks:
        pieces.append(c.compress(chunk))
    pieces.append(c.flush())
    d = utils.get_compression_instance(algorithm)
    out = b''
    if chunked:
        for piece in pieces:
            out += d.decompress(piece)
    else:
        out += d.decompress(b''.join(pieces))
    out += d.flush()
    return bytes(out)


def direction(algorithm, first_pack, data):
    """One object used both ways."""
    c = utils.get_compression_instance(algorithm)
    if first_pack:
        c.compress(data)
        c.decompress(data)
    else:
        c.decompress(data)
        c.compress(data)
    return 'accepted'


def after_flush(algorithm, packing, what, data):
    c = utils.get_compression_instance(algorithm)
    if packing:
        c.compress(data)
    else:
        c.decompress(data)
    c.flush()
    if what == 'compress':
        c.compress(data)
    elif what == 'decompress':
        c.decompress(data)
    else:
        c.flush()
    return 'accepted'


def packets(algorithm, level, data, name, time):
    one = P.LiteralDataPacket(1, b'b', name, time, data)
    two = P.MarkerPacket(1, b'PGP')
    body = P.CompressedDataPacket.compress_packets(algorithm, level,
                                                   [two, one])
    return bytes(body)


def packet_octets(data, name, time):
    one = P.LiteralDataPacket(1, b'b', name, time, data)
    two = P.MarkerPacket(1, b'PGP')
    return bytes(two) + bytes(one)


def opened(algorithm, level, data, name, time):
    one = P.LiteralDataPacket(1, b'b', name, time, data)
    two = P.MarkerPacket(1, b'PGP')
    body = P.CompressedDataPacket.compress_packets(algorithm, level,
                                                   [two, one])
    got = list(P.CompressedDataPacket.decompress_data(algorithm, body))
    return len(got), got[0].type, got[1].type, bytes(got[0]) + bytes(got[1])


def opened_ref(data, name, time):
    return 2, 10, 11, packet_octets(data, name, time)
