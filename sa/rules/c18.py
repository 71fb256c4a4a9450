"""C18: algorithm numbers."""
from .. import terms as tm
from ..interp import block_of
from ..terms import const, mk
from .common import Run, SPEC
from .c19 import HASH, KEYLEN

BLOCK = {1: 8, 2: 8, 3: 8, 4: 8, 7: 16, 8: 16, 9: 16, 10: 16, 11: 16,
         12: 16, 13: 16}
CIPHER = {1: 'pgp.cipher.aidea', 2: 'Crypto.Cipher.DES3',
          3: 'Crypto.Cipher.CAST', 4: 'Crypto.Cipher.Blowfish',
          7: 'Crypto.Cipher.AES', 8: 'Crypto.Cipher.AES',
          9: 'Crypto.Cipher.AES', 10: 'pgp.cipher.twofish',
          11: 'pgp.cipher.camellia', 12: 'pgp.cipher.camellia',
          13: 'pgp.cipher.camellia'}
PUBLIC = {1: 'RSA', 2: 'RSA', 3: 'RSA', 16: 'ElGamal', 20: 'ElGamal',
          17: 'DSA'}
CIPHER_NAMES = {'idea': 1, '3des': 2, 'cast5': 3, 'blowfish': 4, 'aes': 7,
                'aes192': 8, 'aes256': 9, 'twofish': 10, 'camellia128': 11,
                'camellia192': 12, 'camellia256': 13}
DIGEST_NAMES = {'md5': 1, 'sha1': 2, 'ripemd160': 3, 'sha256': 8,
                'sha384': 9, 'sha512': 10, 'sha224': 11}
COMPRESSION_NAMES = {'zip': 1, 'zlib': 2, 'bz2': 3}
SIGTYPES = {
    0x00: ('SIGNATURE_OF_A_BINARY_DOCUMENT', ('binary',)),
    0x01: ('SIGNATURE_OF_A_CANONICAL_TEXT_DOCUMENT', ('text',)),
    0x02: ('STANDALONE_SIGNATURE', ('standalone',)),
    0x10: ('GENERIC_CERTIFICATION', ('generic',)),
    0x11: ('PERSONA_CERTIFICATION', ('persona',)),
    0x12: ('CASUAL_CERTIFICATION', ('casual',)),
    0x13: ('POSITIVE_CERTIFICATION', ('positive',)),
    0x18: ('SUBKEY_BINDING_SIGNATURE', ('subkey', 'binding')),
    0x19: ('PRIMARY_KEY_BINDING_SIGNATURE', ('primary', 'binding')),
    0x1f: ('SIGNATURE_DIRECTLY_ON_A_KEY', ('directly',)),
    0x20: ('KEY_REVOCATION_SIGNATURE', ('key', 'revocation')),
    0x28: ('SUBKEY_REVOCATION_SIGNATURE', ('subkey', 'revocation')),
    0x30: ('CERTIFICATION_REVOCATION_SIGNATURE', ('certif', 'revocation')),
    0x40: ('TIMESTAMP_SIGNATURE', ('timestamp',)),
    0x50: ('THIRD_PARTY_CONFIRMATION_SIGNATURE', ('third', 'confirmation')),
}
CONSTANTS = dict((v[0], k) for k, v in SIGTYPES.items())
CONSTANTS.update({
    'PUBLIC_KEY_ENCRYPTED_SESSION_KEY_PACKET_TYPE': 1,
    'SIGNATURE_PACKET_TYPE': 2,
    'SYMMETRIC_KEY_ENCRYPTED_SESSION_KEY_PACKET_TYPE': 3,
    'ONE_PASS_SIGNATURE_PACKET_TYPE': 4, 'SECRET_KEY_PACKET_TYPE': 5,
    'PUBLIC_KEY_PACKET_TYPE': 6, 'SECRET_SUBKEY_PACKET_TYPE': 7,
    'COMPRESSED_DATA_PACKET_TYPE': 8,
    'SYMMETRICALLY_ENCRYPTED_DATA_PACKET_TYPE': 9, 'MARKER_PACKET_TYPE': 10,
    'LITERAL_DATA_PACKET_TYPE': 11, 'TRUST_PACKET_TYPE': 12,
    'USER_ID_PACKET_TYPE': 13, 'PUBLIC_SUBKEY_PACKET_TYPE': 14,
    'USER_ATTRIBUTE_PACKET_TYPE': 17,
    'SYMMETRICALLY_ENCRYPTED_AND_INTEGRITY_PROTECTED_DATA_PACKET_TYPE': 18,
    'MODIFICATION_DETECTION_CODE_PACKET_TYPE': 19,
    'CREATION_TIME_SUBPACKET_TYPE': 2, 'EXPIRATION_SECONDS_SUBPACKET_TYPE': 3,
    'EXPORTABLE_SUBPACKET_TYPE': 4, 'TRUST_SUBPACKET_TYPE': 5,
    'REGULAR_EXPRESSION_SUBPACKET_TYPE': 6, 'REVOCABLE_SUBPACKET_TYPE': 7,
    'KEY_EXPIRATION_TIME_SUBPACKET_TYPE': 9,
    'PREFERRED_SYMMETRIC_ALGORITHMS_SUBPACKET_TYPE': 11,
    'REVOCATION_KEY_SUBPACKET_TYPE': 12, 'ISSUER_KEY_ID_SUBPACKET_TYPE': 16,
    'NOTATION_SUBPACKET_TYPE': 20,
    'PREFERRED_HASH_ALGORITHMS_SUBPACKET_TYPE': 21,
    'PREFERRED_COMPRESSION_ALGORITHMS_SUBPACKET_TYPE': 22,
    'KEY_SERVER_PREFERENCES_SUBPACKET_TYPE': 23,
    'PREFERRED_KEY_SERVER_SUBPACKET_TYPE': 24,
    'PRIMARY_USER_ID_SUBPACKET_TYPE': 25, 'POLICY_URI_SUBPACKET_TYPE': 26,
    'KEY_FLAGS_SUBPACKET_TYPE': 27, 'ISSUERS_USER_ID_SUBPACKET_TYPE': 28,
    'REVOCATION_REASON_SUBPACKET_TYPE': 29, 'FEATURES_SUBPACKET_TYPE': 30,
    'TARGET_SUBPACKET_TYPE': 31, 'EMBEDDED_SIGNATURE_SUBPACKET_TYPE': 32,
    'IMAGE_ATTRIBUTE_SUBPACKET_TYPE': 1,
    'PUBKEY_ALGO_RSA': 1, 'PUBKEY_ALGO_RSA_E': 2, 'PUBKEY_ALGO_RSA_S': 3,
    'PUBKEY_ALGO_ELGAMAL_E': 16, 'PUBKEY_ALGO_DSA': 17,
    'PUBKEY_ALGO_ECDH': 18, 'PUBKEY_ALGO_ECDSA': 19,
    'PUBKEY_ALGO_ELGAMAL': 20,
})


def through(ctor, meth, mode, data):
    if mode not in (3, 7):
        return mk('xcall', ctor, (), meth, (data,), ())
    r = tm.strm(meth, ctor, data)
    if mode == 7 and meth == 'encrypt':
        r = tm.bseq([('c', mk('eiv', ctor, block_of(ctor) + 2)), ('c', r)])
    return r


def check(c):
    sp = SPEC(c, 'algos')
    c.rule('hash', 'each hash number selects the RFC 4880 9.4 function and '
           'digest length; any other number is an error', 256)
    c.rule('cipher', 'each cipher number selects the RFC 4880 9.2 or '
           'RFC 5581 cipher, with the caller\'s key, mode and initial '
           'vector; any other number is an error', 256)
    c.rule('sizes', 'recorded key and block lengths are the cipher\'s', 256)
    c.rule('public', 'each public-key number selects the RFC 4880 9.1 '
           'algorithm; any other number is an error', 256)
    c.rule('signing', 'numbers of algorithms that do not sign, and unknown '
           'ones, neither sign nor verify', 500)
    c.rule('names', 'names and preference tables agree with the numbers', 20)
    c.rule('constants', 'named numbers are the RFC 4880 numbers', 30)

    data = tm.fixed('data', 'bytes', 64)
    key = tm.fixed('key', 'bytes', 32)
    none = const(None)

    def drive(rule, k, fn, args, want, err=False):
        def go():
            a = Run(c, sp, fn, args)
            if err:
                if a.value.op == 'noreturn':
                    c.ob(rule, k, True, 'always raises', a.where)
                elif a.value.op in (
                        'ext', 'xcall', 'digest', 'const', 'strm', 'bseq',
                        'tuple', 'mcall', 'call'):
                    c.ob(rule, k, False, 'accepted: %s' % tm.show(
                        a.value, 6), a.where)
                else:
                    c.ob(rule, k, None, tm.show(a.value, 6), a.where)
                return
            c.same(rule, k, a.value, want, a.where)
        c.guard(rule, k, go)

    for n in range(256):
        name = HASH.get(n, (None,))[0]
        drive('hash', 'number %d' % n, 'digest', [const(n), data],
              mk('digest', mk('alg', name), data), name is None)
        if n in HASH:
            drive('hash', 'length %d' % n, 'hash_length', [const(n)],
                  const(HASH[n][1]))
        drive('public', 'number %d' % n, 'public', [const(n)],
              mk('ext', 'Crypto.PublicKey.%s.construct' % PUBLIC.get(n)),
              n not in PUBLIC)
        if n in KEYLEN:
            drive('sizes', 'cipher %d' % n, 'lengths', [const(n)],
                  mk('tuple', const(KEYLEN[n]), const(BLOCK[n])))
        elif n:
            drive('sizes', 'cipher %d' % n, 'lengths', [const(n)],
                  mk('tuple', none, none))
        else:
            drive('sizes', 'cipher 0', 'lengths', [const(0)],
                  mk('tuple', const(0), const(0)))
        if n == 0:
            drive('cipher', 'number 0', 'cipher', [
                const(0), key, const(3), none, data], data)
            continue
        iv = tm.fixed('iv', 'bytes', BLOCK.get(n, 8))
        kk = tm.fixed('key', 'bytes', KEYLEN.get(n, 16))
        for mode in (1, 2, 3, 5, 7) if n in BLOCK else (3,):
            kw = (('IV', iv),)
            if mode == 3:
                kw += (('segment_size', const(BLOCK.get(n, 1) * 8)),)
            ctor = mk('call', '%s.new' % CIPHER.get(n), (kk, const(mode)), kw)
            for fn, meth in (('cipher', 'encrypt'), ('syncable', 'decrypt')):
                drive('cipher', 'number %d,mode %d,%s' % (n, mode, fn), fn,
                      [const(n), kk, const(mode), iv, data],
                      through(ctor, meth, mode, data), n not in CIPHER)

    for n in range(256):
        if n in (1, 3, 17, 20):
            continue
        for fn in ('sign_with', 'verify_with'):
            args = [const(n), tm.sym('key')]
            if fn == 'verify_with':
                args.append(mk('tuple', tm.sym('r'), tm.sym('s')))
            drive('signing', '%s %d' % (fn[:-5], n), fn, args, none, True)

    for nm, n in sorted(CIPHER_NAMES.items()):
        drive('names', 'cipher ' + nm, 'cipher_name', [const(nm)], const(n))
    for nm, n in sorted(DIGEST_NAMES.items()):
        drive('names', 'digest ' + nm, 'digest_name', [const(nm)], const(n))
    for nm, n in sorted(COMPRESSION_NAMES.items()):
        drive('names', 'compression ' + nm, 'compression_name', [const(nm)],
              const(n))

    def table(fn, numbers, label):
        def go():
            a = Run(c, sp, fn, [])
            if a.value.op == 'const' and isinstance(tm.cval(a.value), tuple):
                vals = list(tm.cval(a.value))
            elif a.value.op == 'tuple' and all(
                    x.op == 'const' for x in a.value.args):
                vals = [tm.cval(x) for x in a.value.args]
            else:
                return c.ob('names', label, None, tm.show(a.value, 6))
            bad = [i for i, v in enumerate(vals) if v not in numbers]
            c.ob('names', label, not bad, 'entries %s name no algorithm' %
                 bad if bad else '%d entries' % len(vals), a.where)
        c.guard('names', label, go)
    table('default_ciphers', set(CIPHER_NAMES.values()), 'default ciphers')
    table('default_digests', set(DIGEST_NAMES.values()), 'default digests')
    table('default_compression', set(COMPRESSION_NAMES.values()),
          'default compression')

    for n, (nm, words) in sorted(SIGTYPES.items()):
        def go(n=n, words=words):
            body = bytes([4, n, 1, 8, 0, 0, 0, 0, 1, 2])
            a = Run(c, sp, 'human_type', [tm.bseq([
                ('k', bytes([0xc2, len(body)]) + body)])])
            if a.value.op != 'const':
                return c.ob('names', 'signature type %02x' % n, None,
                            tm.show(a.value, 6), a.where)
            s = str(tm.cval(a.value)).lower()
            ok = all(w in s for w in words) and not (
                n == 0x20 and 'subkey' in s)
            c.ob('names', 'signature type %02x' % n, ok, repr(s), a.where)
        c.guard('names', 'signature type %02x' % n, go)
    consts = c.prog.module('pgp.packets.constants')
    import ast
    have = {t.id for s in consts.tree.body if isinstance(s, ast.Assign)
            for t in s.targets if isinstance(t, ast.Name)}
    for nm, n in sorted(CONSTANTS.items()):
        if nm in have:
            drive('constants', nm, 'constant', [const(nm)], const(n))
