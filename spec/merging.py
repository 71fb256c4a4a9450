"""Merging two copies of a key.  Interpreted abstractly, never executed."""
from pgp import merge as M
from pgp import transferrable_keys as T
from pgp.packets import packets as P


def packet(data):
    end, p = P.packet_from_packet_data(data, 0)
    return p


def load(datas):
    parts = [packet(d) for d in datas]
    if parts[0].type == 5:
        return T.TransferableSecretKey.from_packets(parts)
    return T.TransferablePublicKey.from_packets(parts)


def written(key):
    out = []
    for p in key.to_packets():
        out.append(bytes(p))
    return tuple(out)


def merged(a, b, times):
    key = load(a)
    for i in range(times):
        key = M.merge(key, load(b))
    return written(key)


def both(a, b, times):
    """What is left of the second key."""
    key = load(a)
    other = load(b)
    M.merge(key, other)
    return written(other)


def linked(a, b, times):
    """Whether all parts of the result belong to it."""
    key = load(a)
    other = load(b)
    key = M.merge(key, other)
    return whole(key) and whole(other)


def whole(key):
    ok = True
    for s in key.signatures:
        ok = ok and s.parent is key
    for part in key.user_ids + key.user_attributes + key.subkeys:
        ok = ok and part.primary_public_key is key
        for s in part.signatures:
            ok = ok and s.parent is part
    return ok


class DB(object):

    def __init__(self, keys):
        self.keys = keys

    def search(self, fingerprint=None, key_id=None, user_id=None):
        return [k for k in self.keys if k.key_id[-8:] == key_id[-8:]]


def stored(a, b, other):
    """A key merged with what a database has."""
    key = load(a)
    found = [load(b)]
    if other:
        found = [load(other)] + found
    key = M.merge_key(key, DB(found))
    return written(key)
