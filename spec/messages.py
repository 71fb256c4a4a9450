"""Encrypted data: drivers.  Interpreted abstractly, never executed."""
from pgp import message as M
from pgp.packets import packets as P


def encrypted(alg, key, text, protected):
    """The octets of the packet holding text, encrypted."""
    m = M.SymmetricallyEncryptedMessageData(
        alg, key, text, integrity_protected=protected, version=1)
    p = m.to_packet()
    return tuple([p.type, bytes(p)])


def protected(alg, key, data):
    """What comes out of an integrity protected packet's contents."""
    p = P.SymmetricallyEncryptedAndIntegrityProtectedDataPacket(1, 1, data)
    m = M.SymmetricallyEncryptedMessageData.from_packet(p).decrypt(alg, key)
    return tuple([m.data, m.filename])


def unprotected(alg, key, data):
    p = P.SymmetricallyEncryptedDataPacket(1, data)
    m = M.SymmetricallyEncryptedMessageData.from_packet(p).decrypt(alg, key)
    return tuple([m.data, m.filename])


def wrapped(alg, key, text, protected):
    """text encrypted and decrypted again."""
    a = M.SymmetricallyEncryptedMessageData(
        alg, key, text, integrity_protected=protected, version=1)
    b = M.SymmetricallyEncryptedMessageData.from_packet(a.to_packet())
    m = b.decrypt(alg, key)
    return tuple([m.data, m.filename])
