"""ASCII armor: drivers.  Interpreted abstractly, never executed."""
from pgp import armor as A
from pgp import shortcuts as S
from pgp.packets import parse_ascii_packet_data


def fields(a):
    return (a.data_type, bytes(a.data), a.part, a.total_parts, a.version,
            a.comment, a.message_id, a.hash_algorithms, a.charset)


def read(text):
    a = A.ASCIIArmor.from_ascii(text)
    return fields(a)


def octets(text):
    return bytes(A.ASCIIArmor.from_ascii(text))


def extra(text, name):
    a = A.ASCIIArmor.from_ascii(text)
    return a.extra_headers[name]


def write(data_type, data, part, total_parts, version, comment, message_id,
          hash_algorithms, charset, extra_headers):
    return str(A.ASCIIArmor(data_type, data, part, total_parts, version,
                            comment, message_id, hash_algorithms, charset,
                            extra_headers))


def again(data_type, data, part, total_parts, version, comment, message_id,
          hash_algorithms, charset):
    t = str(A.ASCIIArmor(data_type, data, part, total_parts, version,
                         comment, message_id, hash_algorithms, charset))
    a = A.ASCIIArmor.from_ascii(t)
    return fields(a)


def again_extra(data_type, data, extra_headers, name):
    t = str(A.ASCIIArmor(data_type, data,
                         extra_headers=dict(extra_headers)))
    return A.ASCIIArmor.from_ascii(t).extra_headers[name]
