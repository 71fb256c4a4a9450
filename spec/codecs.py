"""RFC 4880 integer, MPI, hex and count codecs (reference definitions).

Never executed: the analyser turns them into value graphs and compares those
with the value graphs of the library's own functions.
"""


def be2(i):
    return i.to_bytes(2, 'big')


def int_to_2byte(i):
    return bytearray([(i >> 8) & 255, i & 255])


def int_to_4byte(i):
    return bytearray([(i >> 24) & 255, (i >> 16) & 255, (i >> 8) & 255,
                      i & 255])


def int_to_8byte(i):
    return bytearray([(i >> 56) & 255, (i >> 48) & 255, (i >> 40) & 255,
                      (i >> 32) & 255, (i >> 24) & 255, (i >> 16) & 255,
                      (i >> 8) & 255, i & 255])


def byte_to_int(b, o):
    return b[o]


def short_to_int(b, o):
    return (b[o] << 8) + b[o + 1]


def long_to_int(b, o):
    return (b[o] << 24) + (b[o + 1] << 16) + (b[o + 2] << 8) + b[o + 3]


def mpi_length(b, o):
    return (((b[o] << 8) + b[o + 1]) + 7) // 8


# RFC 4880 3.7.1.3
def s2k_count_to_int(c, offset=0):
    return (16 + (c & 15)) << ((c >> 4) + 6)


def new_length_octets(n):
    """RFC 4880 4.2.2, definite lengths."""
    if n < 192:
        return bytes([n])
    elif n < 8384:
        return bytes([((n - 192) >> 8) + 192, (n - 192) & 255])
    return bytes([255, (n >> 24) & 255, (n >> 16) & 255, (n >> 8) & 255,
                  n & 255])


def old_length_octets(n):
    if n < 256:
        return 0, bytes([n])
    elif n < 65536:
        return 1, bytes([n >> 8, n & 255])
    return 2, bytes([n >> 24, (n >> 16) & 255, (n >> 8) & 255, n & 255])


def new_length(data, offset):
    """-> offset after, length, partial"""
    o = data[offset]
    if o < 192:
        return offset + 1, o, False
    if o < 224:
        return offset + 2, ((o - 192) << 8) + data[offset + 1] + 192, False
    if o == 255:
        return (offset + 5, (data[offset + 1] << 24) +
                (data[offset + 2] << 16) + (data[offset + 3] << 8) +
                data[offset + 4], False)
    return offset + 1, 1 << (o & 31), True


def new_length_stream(data):
    o = data[0]
    if o < 192:
        return o, False
    if o < 224:
        return ((o - 192) << 8) + data[1] + 192, False
    if o == 255:
        return ((data[1] << 24) + (data[2] << 16) + (data[3] << 8) +
                data[4], False)
    return 1 << (o & 31), True


def old_length(data, offset):
    t = data[offset] & 3
    if t == 0:
        return offset + 2, data[offset + 1]
    if t == 1:
        return offset + 3, (data[offset + 1] << 8) + data[offset + 2]
    if t == 2:
        return (offset + 5, (data[offset + 1] << 24) +
                (data[offset + 2] << 16) + (data[offset + 3] << 8) +
                data[offset + 4])
    return offset + 1, len(data) - (offset + 1)


def new_writer(n):
    return bytearray(new_length_octets(n)), 0


def old_writer(n):
    t, o = old_length_octets(n)
    return t, list(o)


def subpacket_len(data, offset):
    """RFC 4880 5.2.3.1"""
    o = data[offset]
    if o < 192:
        return offset + 1, o
    if o < 255:
        return offset + 2, ((o - 192) << 8) + data[offset + 1] + 192
    return (offset + 5, (data[offset + 1] << 24) +
            (data[offset + 2] << 16) + (data[offset + 3] << 8) +
            data[offset + 4])
