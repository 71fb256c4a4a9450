"""Secret keys: drivers.  Interpreted abstractly, never executed."""
from pgp import exceptions as X
from pgp import message as M
from pgp import s2k as S
from pgp import transferrable_keys as T
from pgp.context_managers import unlocked
from pgp.packets import packets as P


def packet(data):
    end, p = P.packet_from_packet_data(data, 0)
    return p


def load(datas):
    """A secret key and its subkeys, from their packets."""
    k = T.TransferableSecretKey.from_packet(packet(datas[0]))
    for d in datas[1:]:
        k.subkeys.append(T.SecretSubkey.from_packet(k, packet(d)))
    return k


def part(k, n):
    return k if n == 0 else k.subkeys[n - 1]


def fresh(datas):
    return load(datas)


def unlock(datas, word):
    k = load(datas)
    k.unlock(word)
    return k


def relock(datas, word):
    k = load(datas)
    k.unlock(word)
    k.lock()
    return k


def relock_part(datas, n, word):
    k = load(datas)
    part(k, n).unlock(word)
    part(k, n).lock()
    return k


def relock_twice(datas, word):
    k = load(datas)
    k.unlock(word)
    k.lock()
    k.unlock(word)
    k.lock()
    return k


def use(k, word):
    with unlocked(k, word):
        return 1


def within(datas, word):
    k = load(datas)
    with unlocked(k, word):
        pass
    return k


def within_return(datas, word):
    k = load(datas)
    use(k, word)
    return k


def within_break(datas, word):
    k = load(datas)
    for i in (1, 2):
        with unlocked(k, word):
            break
    return k


def within_error(datas, word):
    k = load(datas)
    try:
        with unlocked(k, word):
            raise X.InvalidKey()
    except X.InvalidKey:
        pass
    return k


def passes_on(datas, word):
    """True if the block's own exception comes out of it."""
    k = load(datas)
    try:
        with unlocked(k, word):
            raise X.InvalidKey()
    except X.InvalidKey:
        return True
    return False


def inside(datas, n, word):
    """What is locked within the block."""
    k = load(datas)
    with unlocked(k, word) as x:
        return part(x, n).is_locked(), part(k, n).is_locked()


def flags(datas, n, how, word):
    k = load(datas)
    x = part(k, n)
    before = x.is_locked()
    k.unlock(word)
    mid = x.is_locked()
    k.lock()
    return before, mid, x.is_locked()


def attempt(datas, word):
    """The key after an attempt to unlock it, and whether it failed."""
    k = load(datas)
    try:
        k.unlock(word)
    except ValueError:
        return k
    return k


def locked(datas, n):
    return part(load(datas), n).is_locked()


def sign(datas, n, what, version, kind, halg):
    k = load(datas)
    if what == 'key':
        what = k
    return part(k, n).sign(what, version, kind, halg)


def decrypt(datas, n, what):
    return part(load(datas), n).decrypt(what)


def unwrap(datas, n, session):
    k = load(datas)
    s = M.PublicKeySessionKey.from_packet(packet(session))
    return s.get_algorithm_and_session_key(part(k, n))


def sign_relocked(datas, n, what, version, kind, halg, word):
    k = load(datas)
    k.unlock(word)
    k.lock()
    if what == 'key':
        what = k
    return part(k, n).sign(what, version, kind, halg)


def unwrap_relocked(datas, n, session, word):
    k = load(datas)
    k.unlock(word)
    k.lock()
    s = M.PublicKeySessionKey.from_packet(packet(session))
    return s.get_algorithm_and_session_key(part(k, n))


def relocked_fields(datas, n, names, word):
    k = load(datas)
    k.unlock(word)
    k.lock()
    return tuple([getattr(part(k, n), x) for x in names])


def unlocked_again(datas, n, names, word):
    k = load(datas)
    k.unlock(word)
    k.lock()
    k.unlock(word)
    return tuple([getattr(part(k, n), x) for x in names])


# --- C06
def key_of(spec, offset, algorithm, word):
    """The key of a passphrase, as specified by the octets given."""
    if spec is None:
        s = S.SimpleS2K(1, algorithm)
    else:
        s, end = S.parse_s2k_bytes(algorithm, spec, offset)
    return s.to_key(word.encode('utf8'))


def values(datas, n, names, word):
    k = load(datas)
    part(k, n).unlock(word)
    return tuple([getattr(part(k, n), x) for x in names])


def packet_values(data, names, word):
    p = packet(data)
    p.decrypt(word.encode('utf8'))
    return tuple([getattr(p, x) for x in names])


def encrypted(version, numbers, key, algorithm, iv, checksum, hashed):
    return bytes(P.SecretKeyPacket.encrypt_key_values(
        version, numbers, key, algorithm, iv, checksum, hashed))


def decrypted(version, key, algorithm, iv, data, checksum, hashed):
    return tuple(P.SecretKeyPacket.decrypt_encrypted_key_portion(
        version, key, algorithm, iv, data, checksum, hashed))


def both_ways(version, numbers, key, algorithm, iv, checksum, hashed):
    data = P.SecretKeyPacket.encrypt_key_values(
        version, numbers, key, algorithm, iv, checksum, hashed)
    return tuple(P.SecretKeyPacket.decrypt_encrypted_key_portion(
        version, key, algorithm, iv, data, checksum, hashed))
