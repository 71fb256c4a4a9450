"""Transferable keys: drivers.  Interpreted abstractly, never executed."""
from pgp import transferrable_keys as T
from pgp.packets import packets as P


def parse(data):
    end, p = P.packet_from_packet_data(data, 0)
    return p


def sigs(item):
    return tuple([(bytes(s.hash2), s.signature_type, s.parent is item)
                  for s in item.signatures])


def describe(k, ids):
    """What is attached where, and the octets written."""
    return ('key', ids(k), sigs(k),
            tuple([(bytes(u.to_packet().content), sigs(u))
                   for u in k.user_ids]),
            tuple([(bytes(u.to_packet().content), sigs(u))
                   for u in k.user_attributes]),
            tuple([(ids(s), sigs(s), s.primary_public_key is k)
                   for s in k.subkeys]),
            tuple([bytes(p) for p in k.to_packets()]))


def ids(k):
    return bytes(k.to_packet())


def load(secret, pool, seqs):
    cls = T.TransferableSecretKey if secret else T.TransferablePublicKey
    packets = [parse(d) for d in pool]
    out = []
    for seq in seqs:
        try:
            k = cls.from_packets([packets[i] for i in seq])
            r = describe(k, ids)
        except Exception:
            r = 'rejected'
        out.append(r)
    return tuple(out)
