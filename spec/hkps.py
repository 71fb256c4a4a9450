"""Keyserver client: drivers.  Interpreted abstractly, never executed."""
from pgp import keyserver as K


class Fake(object):
    """Stands for a public key."""

    def to_packets(self, header_format=None):
        return [b'octets of the key']


def get(url, key_id, exact):
    return K.get_keyserver(url).get(key_id, exact)


def search(url, terms, exact):
    return K.get_keyserver(url).search(terms, exact)


def submit(url, no_modify):
    return K.get_keyserver(url).submit(Fake(), no_modify)
