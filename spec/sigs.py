"""Making and checking signatures: drivers.  Interpreted, never executed."""
from pgp import message as M
from pgp import signature as G
from pgp import signature_verification as V
from pgp import transferrable_keys as T
from pgp import utils as U
from pgp.packets import packets as P


def packet(data):
    end, p = P.packet_from_packet_data(data, 0)
    return p


def load(datas):
    """A key (public or secret) from its packets."""
    ps = [packet(d) for d in datas]
    if ps[0].type == 5:
        k = T.TransferableSecretKey.from_packet(ps[0])
    else:
        k = T.TransferablePublicKey.from_packet(ps[0])
    last = k
    for p in ps[1:]:
        if p.type == 13:
            last = T.UserID.from_packet(k, p)
            k.user_ids.append(last)
        elif p.type == 17:
            last = T.UserAttribute.from_packet(k, p)
            k.user_attributes.append(last)
        elif p.type == 14:
            last = T.PublicSubkey.from_packet(k, p)
            k.subkeys.append(last)
        elif p.type == 7:
            last = T.SecretSubkey.from_packet(k, p)
            k.subkeys.append(last)
        else:
            last.signatures.append(T.KeySignature.from_packet(p, last))
    return k


def component(k, what):
    if what == 'key':
        return k
    if what == 'uid':
        return k.user_ids[0]
    if what == 'attribute':
        return k.user_attributes[0]
    return k.subkeys[0]


def document(what, data):
    if what == 'text':
        return M.TextMessage(data, 'name', None)
    return M.BinaryMessage(data, 'name', None)


def verify(datas, what, data):
    k = load(datas)
    x = component(k, what)
    s = T.KeySignature.from_packet(packet(data), x)
    return k.verify(s, x)


def verify_document(datas, what, text, data):
    k = load(datas)
    x = document(what, text)
    s = G.BaseSignature.from_packet(packet(data), x)
    return k.verify(s, x)


def validate(datas, what, data, signer, now, strict):
    k = load(datas)
    x = component(k, what)
    s = T.KeySignature.from_packet(packet(data), x)
    return V.validate_signature(x, s, load(signer) if signer else k,
                                None, strict, now)


def validate_by_subkey(datas, what, data, signers, now, strict):
    """The same for a signature made by a subkey."""
    k = load(datas)
    x = component(k, what)
    s = T.KeySignature.from_packet(packet(data), x)
    o = load(signers)
    return V.validate_signature(x, s, o.subkeys[0], None, strict, now)


def written(s):
    p = s.to_packet()
    return bytes(p.content), bytes(p.hash2), tuple(p.signature_values)


def sign(datas, what, version, kind, hash_algorithm, template):
    k = load(datas)
    x = component(k, what)
    k.unlock(u'pass')
    return written(k.sign(x, version, kind, hash_algorithm,
                          packet(template).hashed_subpackets))


def sign_document(datas, what, text, version, kind, hash_algorithm):
    k = load(datas)
    k.unlock(u'pass')
    return written(k.sign(document(what, text), version, kind,
                          hash_algorithm))


def sign_octets(datas, data, version, hash_algorithm):
    k = load(datas)
    k.unlock(u'pass')
    return written(k.sign(data, version, 0, hash_algorithm))


def sign_signature(datas, data, version, hash_algorithm):
    k = load(datas)
    k.unlock(u'pass')
    s = T.KeySignature.from_packet(packet(data), k)
    return written(k.sign(s, version, 0x50, hash_algorithm))


def verify_signature(datas, data, over):
    k = load(datas)
    t = T.KeySignature.from_packet(packet(over), k)
    s = G.BaseSignature.from_packet(packet(data), t)
    return k.verify(s, t)


def packet_octets(data, version):
    return bytes(packet(data).get_content_for_signature_hash(version))


def packet_trailer(data):
    return bytes(packet(data).get_signature_hash_trailer())


def packet_digest(key, item, signature, hashed):
    s = packet(signature)
    return U.hash_packet_for_signature(
        packet(item), s.signature_type, s.version, s.hash_algorithm,
        getattr(s, 'creation_time', None), s.public_key_algorithm,
        packet(key),
        hashed).digest()


class Database(object):
    """Keys as a database would return them."""

    def __init__(self, keys):
        self.keys = keys

    def search(self, key_id):
        return [k for k in self.keys if k.key_id == key_id]


def validate_all(datas, what, signatures, others, strict):
    k = load(datas)
    x = component(k, what)
    for s in signatures:
        x.signatures.append(T.KeySignature.from_packet(packet(s), x))
    V.validate_signatures(x, Database([load(d) for d in others]), strict)
    return tuple([outcome(s) for s in x.signatures])


def outcome(s):
    if s.validated:
        return s.validated, s.issuer_key_expired, s.issuer_key_revoked
    return s.validated


def validate_again(datas, what, data, state):
    k = load(datas)
    x = component(k, what)
    s = T.KeySignature.from_packet(packet(data), x)
    s.validated = state
    x.signatures.append(s)
    V.validate_signatures(x, Database([]), False)
    return s.validated


def marked_valid(datas, what, data, unreadable):
    """Whether a signature is marked valid."""
    k = load(datas)
    x = component(k, what)
    if unreadable:
        try:
            x.signatures.append(T.KeySignature.from_packet(packet(data), x))
        except Exception:
            return False
    else:
        x.signatures.append(T.KeySignature.from_packet(packet(data), x))
    V.validate_signatures(x, Database([]), False)
    return x.signatures[0].validated is True


def validate_key(datas):
    k = load(datas)
    V.validate_signatures(k, Database([]), False)
    return tuple([outcome(s) for x in
                  [k] + k.user_ids + k.user_attributes + k.subkeys
                  for s in x.signatures])


# ------------------------------------------------------------- reference
from Crypto.Hash import MD5, RIPEMD, SHA, SHA224, SHA256, SHA384, SHA512
from Crypto.PublicKey import DSA, ElGamal, RSA
from Crypto.Signature import PKCS1_v1_5
from Crypto.Util.number import bytes_to_long, long_to_bytes

HASHES = {1: MD5, 2: SHA, 3: RIPEMD, 8: SHA256, 9: SHA384, 10: SHA512,
          11: SHA224}


def ref_accept(algorithm, params, digest_algorithm, octets, check, values,
               size):
    """Whether a signature over octets verifies: RFC 4880 5.2.2."""
    h = HASHES[digest_algorithm].new()
    h.update(octets)
    d = h.digest()
    if d[:2] != check:
        return False
    if algorithm in (1, 3):
        key = RSA.construct(params)
        return bool(PKCS1_v1_5.new(key).verify(
            h, long_to_bytes(values[0], size)))
    if algorithm == 17:
        # the leftmost bits, as many as q has
        key = DSA.construct(params)
        return bool(key.verify(bytes_to_long(d[:size]), values))
    key = ElGamal.construct(params)
    return bool(key.verify(
        PKCS1_v1_5.EMSA_PKCS1_V1_5_ENCODE(h, key.size()), values))


def sign_given(datas, data, version, kind, hash_algorithm):
    """Octets or a string, signed as they are given."""
    k = load(datas)
    k.unlock(u'pass')
    return written(k.sign(data, version, kind, hash_algorithm))


def verify_given(datas, text, data):
    k = load(datas)
    s = G.BaseSignature.from_packet(packet(data), text)
    return k.verify(s, text)
