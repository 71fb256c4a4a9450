"""Algorithm tables and passphrase transforms: drivers.  Interpreted
abstractly, never executed."""
from pgp import s2k
from pgp import utils
from pgp.commands.gpg import algorithm_helper as H
from pgp.packets import constants
from pgp.packets import packets as P


def digest(n, data):
    h = utils.get_hash_instance(n)
    h.update(data)
    return h.digest()


def cipher(n, key, mode, iv, data):
    return utils.get_symmetric_cipher(n, key, mode, iv).encrypt(data)


def syncable(n, key, mode, iv, data):
    return utils.get_symmetric_cipher(n, key, mode, iv,
                                      syncable=True).decrypt(data)


def lengths(n):
    return (utils.symmetric_cipher_key_lengths.get(n),
            utils.symmetric_cipher_block_lengths.get(n))


def hash_length(n):
    return utils.hash_lengths.get(n)


def public(n):
    return utils.get_public_key_constructor(n)


def key_obj(n, data):
    return utils.get_public_key_constructor(n)(data)


def cipher_name(n):
    return H.AlgorithmHelper.get_cipher_algorithm_code(None, n)


def digest_name(n):
    return H.AlgorithmHelper.get_digest_algorithm_code(None, n)


def compression_name(n):
    return H.AlgorithmHelper.get_compression_algorithm_code(None, n)


def default_ciphers():
    return tuple([cipher_name(x) for x in H.DEFAULT_CIPHERS])


def default_digests():
    return tuple([digest_name(x) for x in H.DEFAULT_DIGESTS])


def default_compression():
    return tuple([compression_name(x) for x in H.DEFAULT_COMPRESSION])


def constant(name):
    return getattr(constants, name)


def human_type(data):
    end, p = P.packet_from_packet_data(data, 0)
    return p.human_signature_type


def to_key(algo, spec, passphrase):
    s, end = s2k.parse_s2k_bytes(algo, spec, 0)
    return bytes(s.to_key(passphrase))


def s2k_bytes(algo, spec):
    s, end = s2k.parse_s2k_bytes(algo, spec, 0)
    return end, bytes(s)


def simple(h, algo):
    return bytes(s2k.SimpleS2K(h, algo))


def salted(h, algo, salt):
    return bytes(s2k.SaltedS2K(h, algo, salt))


def iterated(h, algo, salt, count):
    return bytes(s2k.IteratedAndSaltedS2K(h, algo, salt, count))


def iterated_key(h, algo, salt, count, passphrase):
    return bytes(s2k.IteratedAndSaltedS2K(h, algo, salt, count).to_key(
        passphrase))


def sign_with(n, key):
    return utils.sign_hash(n, key, utils.get_hash_instance(8))


def verify_with(n, key, values):
    return utils.verify_hash(n, key, utils.get_hash_instance(8), values)
