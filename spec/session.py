"""Session keys: drivers.  Interpreted abstractly, never executed."""
from pgp import message as M
from pgp import s2k as S
from pgp import transferrable_keys as T
from pgp.packets import packets as P


def packet(data):
    end, p = P.packet_from_packet_data(data, 0)
    return p


def load(data):
    p = packet(data)
    if p.type == 5:
        return T.TransferableSecretKey.from_packet(p)
    return T.TransferablePublicKey.from_packet(p)


def wrap(key, algorithm, session_key, hidden):
    k = load(key)
    s = M.PublicKeySessionKey(
        3, public_key=k, symmetric_algorithm=algorithm,
        session_key=session_key, hide_key_id=hidden)
    return bytes(s.to_packet().content)


def unwrap(key, data):
    k = load(key)
    k.unlock(u'pass')
    s = M.PublicKeySessionKey.from_packet(packet(data))
    a, key = s.get_algorithm_and_session_key(k)
    return a, bytes(key)


def wrap_for(keys, hidden, algorithm, session_key):
    """The session key packets of a message for some keys."""
    m = M.BinaryMessage(b'text', 'name', None)
    e = m.public_key_encrypt(
        algorithm, public_keys=[load(k) for k in keys],
        hidden_public_keys=[load(k) for k in hidden],
        session_key=session_key)
    out = []
    for s in e.session_keys:
        out.append(bytes(s.to_packet().content)[:10])
    return tuple(out)


def wrap_one(key, algorithm, session_key):
    m = M.BinaryMessage(b'text', 'name', None)
    e = m.public_key_encrypt(algorithm, public_key=load(key),
                             session_key=session_key)
    return tuple([bytes(s.to_packet().content)[:10] for s in e.session_keys])


def recipient(data):
    """Key ID and the octets of a session key packet read."""
    p = packet(data)
    s = M.PublicKeySessionKey.from_packet(p)
    return tuple([s.key_id, bytes(s.to_packet().content)])


def spec_of(octets, algorithm):
    s, end = S.parse_s2k_bytes(algorithm, octets, 0)
    return s


def key_of(octets, algorithm, word):
    return spec_of(octets, algorithm).to_key(word)


def lock(octets, cipher, word, algorithm, session_key):
    """A session key wrapped with a passphrase."""
    s = M.SymmetricSessionKey(
        algorithm, spec_of(octets, cipher), passphrase=word,
        session_key=session_key)
    p = s.to_packet()
    return tuple([p.type, bytes(p.content)])


def unlock(data, word):
    s = M.SymmetricSessionKey.from_packet(packet(data))
    a, k = s.get_algorithm_and_session_key(word)
    return tuple([a, bytes(k)])


def unlock_packet(data, word):
    a, k = packet(data).get_key_and_cipher_algo(word)
    return tuple([a, bytes(k)])


def lock_and_unlock(octets, cipher, word, algorithm, session_key):
    s = M.SymmetricSessionKey(
        algorithm, spec_of(octets, cipher), passphrase=word,
        session_key=session_key)
    t = M.SymmetricSessionKey.from_packet(s.to_packet())
    a, k = t.get_algorithm_and_session_key(word)
    return tuple([a, bytes(k)])
