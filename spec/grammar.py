"""Message structure: drivers.  Interpreted abstractly, never executed."""
from pgp import message as M
from pgp.packets import packets as P


def parse(data):
    end, p = P.packet_from_packet_data(data, 0)
    return p


def session_key(s):
    if isinstance(s, M.DefaultSessionKey):
        return ('default',)
    return ('session key', bytes(s.to_packet()))


def describe(m, depth):
    if isinstance(m, M.SignedMessageWrapper):
        return ('signed', bool(m.one_pass),
                tuple([(bytes(s.hash2), s.signature_type,
                        s.parent is m.message) for s in m.signatures]),
                describe(m.get_message(), depth))
    if isinstance(m, M.EncryptedMessageWrapper):
        d = m.message_data_obj
        return ('encrypted', tuple([session_key(s) for s in m.session_keys]),
                bool(d.integrity_protected), bytes(d.data))
    if isinstance(m, M.CompressedMessageWrapper):
        inner = 'not opened'
        if depth:
            try:
                inner = describe(m.get_message(), depth - 1)
            except Exception:
                inner = 'rejected'
        return ('compressed', m.compression_algorithm, bytes(m.data), inner)
    if isinstance(m, M.TextMessage):
        return ('text', m.data, m.filename)
    if isinstance(m, M.BinaryMessage):
        return ('binary', bytes(m.data), m.filename)
    return ('unknown',)


def written(m):
    return tuple([undated(p) for p in m.to_packets()])


def undated(p):
    """The octets of a packet without the date of literal data."""
    if p.type == 11:
        c = bytes(p.content)
        n = c[1]
        return ('literal', c[:2 + n], c[6 + n:])
    return bytes(p)


def load(pool, seqs):
    packets = [parse(d) for d in pool]
    out = []
    for seq in seqs:
        try:
            m = M.open_pgp_message_from_packets([packets[i] for i in seq])
            r = (describe(m, 2), written(m))
        except Exception:
            r = 'rejected'
        out.append(r)
    return tuple(out)


def one_pass(pool, seqs):
    """Signed messages made in memory: what is written."""
    packets = [parse(d) for d in pool]
    out = []
    for inner, sigs, flag in seqs:
        m = M.open_pgp_message_from_packets([packets[i] for i in inner])
        ss = [M.MessageSignature.from_packet(packets[i], m) for i in sigs]
        w = M.SignedMessageWrapper(ss, m, flag)
        out.append(tuple([undated(p) for p in w.to_packets()]))
    return tuple(out)


def compress(pool, inner):
    packets = [parse(d) for d in pool]
    m = M.open_pgp_message_from_packets([packets[i] for i in inner])
    z = m.compress(0, None)
    return (written(z), describe(z, 2))


def one(pool):
    packets = [parse(d) for d in pool]
    m = M.open_pgp_message_from_packets(packets)
    return (describe(m, 2), written(m))
