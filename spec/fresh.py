"""Random values: drivers.  Interpreted abstractly, never executed."""
from pgp import message as M
from pgp import transferrable_keys as T
from pgp import utils as U
from pgp.packets import packets as P


def packet(data):
    end, p = P.packet_from_packet_data(data, 0)
    return p


def load(data):
    p = packet(data)
    if p.type == 5:
        return T.TransferableSecretKey.from_packet(p)
    return T.TransferablePublicKey.from_packet(p)


def body(e):
    return bytes(e.message_data_obj.data)


def text():
    return M.BinaryMessage(b'text', 'name', 0)


def public(keys, algorithm, protected):
    """Two messages encrypted for the same keys."""
    m = text()
    ks = [load(k) for k in keys]
    a = m.public_key_encrypt(algorithm, public_keys=ks,
                             integrity_protect=protected)
    b = m.public_key_encrypt(algorithm, public_keys=ks,
                             integrity_protect=protected)
    return (body(a), body(b))


def public_one(key, algorithm):
    m = text()
    return (body(m.public_key_encrypt(algorithm, public_key=load(key))),)


def public_given(key, algorithm, session_key):
    m = text()
    return (body(m.public_key_encrypt(algorithm, public_key=load(key),
                                      session_key=session_key)),)


def locked(e):
    p = e.session_keys[0].to_packet()
    return (bytes(p.content), body(e))


def symmetric(algorithm, s2k, protected):
    m = text()
    a = m.symmetric_encrypt(algorithm, u'pass', s2k_type=s2k,
                            integrity_protect=protected)
    b = m.symmetric_encrypt(algorithm, u'pass', s2k_type=s2k,
                            integrity_protect=protected)
    return (locked(a), locked(b))


def symmetric_default(algorithm):
    m = text()
    return (locked(m.symmetric_encrypt(algorithm, u'pass')),)


def symmetric_given(algorithm, s2k, salt, session_key):
    m = text()
    return (locked(m.symmetric_encrypt(
        algorithm, u'pass', s2k_type=s2k, s2k_salt=salt,
        session_key=session_key)),)


def data(algorithm, key, text, protected):
    a = M.SymmetricallyEncryptedMessageData(
        algorithm, key, text, integrity_protected=protected, version=1)
    b = M.SymmetricallyEncryptedMessageData(
        algorithm, key, text, integrity_protected=protected, version=1)
    return (bytes(a.data), bytes(b.data))


def sign(key, hash_algorithm):
    k = load(key)
    k.unlock(u'pass')
    m = text()
    k.sign(m, 4, 0, hash_algorithm)
    k.sign(m, 3, 0, hash_algorithm)
    return ()


def sign_given(key, algorithm, hash_algorithm, nonce):
    k = load(key)
    k.unlock(u'pass')
    h = U.get_hash_instance(hash_algorithm)
    h.update(b'text')
    U.sign_hash(algorithm, k._get_key_obj(), h, nonce)
    return ()


def unwrap(key, data):
    k = load(key)
    k.unlock(u'pass')
    s = M.PublicKeySessionKey.from_packet(packet(data))
    s.get_algorithm_and_session_key(k)
    return ()


def unwrap_twice(key, data):
    k = load(key)
    k.unlock(u'pass')
    s = M.PublicKeySessionKey.from_packet(packet(data))
    s.get_algorithm_and_session_key(k)
    s.get_algorithm_and_session_key(k)
    return ()
