"""Public and secret handling: drivers.  Interpreted abstractly, never
executed."""
from pgp import shortcuts as SH
from pgp import transferrable_keys as T
from pgp.db import gpg as G
from pgp.keyserver.hkp import HKPKeyserverClient
from pgp.packets import packets as P


def packet(data):
    end, p = P.packet_from_packet_data(data, 0)
    return p


def load(datas):
    """A key, from the packets of key, subkeys and user IDs."""
    parts = [packet(d) for d in datas]
    if parts[0].type == 5:
        return T.TransferableSecretKey.from_packets(parts)
    return T.TransferablePublicKey.from_packets(parts)


def public(datas, word):
    k = load(datas)
    if word is not None:
        k.unlock(word)
    return k.to_public_key()


def public_subkey(datas, word):
    k = load(datas)
    if word is not None:
        k.unlock(word)
    return k.subkeys[0].to_public_key()


def written(datas, word):
    p = public(datas, word)
    return tuple([bytes(x) for x in p.to_packets()])


def kept(datas):
    """The public values, before and after."""
    k = load(datas)
    return (values(k), tuple([values(s) for s in k.subkeys]),
            tuple([u.user_id for u in k.user_ids])), (
        values(k.to_public_key()),
        tuple([values(s) for s in k.to_public_key().subkeys]),
        tuple([u.user_id for u in k.to_public_key().user_ids]))


def values(k):
    a = k.public_key_algorithm
    out = (k.version, a, k.creation_time, k.expiration_time)
    if a == 17:
        out = out + (k.prime_p,)
    return out + (k.modulus_n, k.exponent_e, k.group_generator_g,
                  k.group_order_q, k.key_value_y)


def armored(datas):
    return SH.serialize_key(load(datas), True)


def plain(datas):
    return SH.serialize_key(load(datas), False)


def to_file(datas, armored):
    SH.write_key_file(load(datas), 'out', armored)


def upload(datas):
    HKPKeyserverClient('https://keys.example.org').submit(load(datas))


class Ring(object):
    """Stands for a keyring file."""

    def __init__(self, name, secret):
        self.filename = name
        self.secret = secret
        self.read_only = False
        self.default = True
        self.log = []

    def keys(self):
        return []

    def values(self):
        return []

    def items(self):
        return []

    def get_transferrable_key(self, fingerprint):
        raise KeyError(fingerprint)

    def add_transferrable_key(self, key):
        self.log.append('add')

    def update_transferrable_key(self, key):
        self.log.append('update')

    def delete_transferrable_key(self, key):
        self.log.append('delete')


def store(datas, secrets, op):
    db = G.GPGDatabase()
    rings = []
    for i, s in enumerate(secrets):
        r = Ring('/ring%d' % i, s)
        rings.append(r)
        db.register_resource(r.filename, r, False)
    k = load(datas)
    if op == 'add':
        db.add_key(k)
    elif op == 'update':
        db.update_key(k)
    else:
        db.delete_key(k)
    return tuple([tuple(r.log) for r in rings])


def kind(datas, armored):
    data = b''.join(datas)
    k = SH.read_key(data, False)
    return (isinstance(k, T.TransferableSecretKey),
            tuple([isinstance(s, T.SecretSubkey) for s in k.subkeys]))
