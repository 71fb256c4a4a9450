M = 'pgp/message.py'
P = 'pgp/packets/packets.py'
U = 'pgp/utils.py'
KEYDRAW = '''            key_len = utils.symmetric_cipher_key_lengths[symmetric_algorithm]
            session_key = Random.new().read(key_len)
        session_key_objs = []
'''
SYMDRAW = '''            key_len = utils.symmetric_cipher_key_lengths[symmetric_algorithm]
            session_key = Random.new().read(key_len)
        session_key_obj = Sym'''
CASES = [
    ('key-16', ['C09'], 'bug', [(M, KEYDRAW, KEYDRAW.replace(
        'read(key_len)', 'read(16)'))]),
    ('key-half', ['C09'], 'bug', [(M, SYMDRAW, SYMDRAW.replace(
        'read(key_len)', 'read(key_len // 2) * 2'))]),
    ('key-padded', ['C09'], 'bug', [(M, KEYDRAW, KEYDRAW.replace(
        'read(key_len)', "read(min(key_len, 24)).ljust(key_len, b'\\x00')"))]),
    ('key-blocklen', ['C09'], 'bug', [(M, SYMDRAW, SYMDRAW.replace(
        'cipher_key_lengths', 'cipher_block_lengths'))]),
    ('key-weak', ['C09'], 'bug', [
        (M, KEYDRAW, KEYDRAW.replace(
            'Random.new().read(key_len)',
            'bytes(random.randrange(256) for _ in range(key_len))')),
        (M, 'from Crypto import Random\n',
         'import random\nfrom Crypto import Random\n')]),
    ('key-weak-bytes', ['C09'], 'bug', [
        (M, KEYDRAW, KEYDRAW.replace(
            'Random.new().read(key_len)',
            "random.getrandbits(8 * key_len).to_bytes(key_len, 'big')")),
        (M, 'from Crypto import Random\n',
         'import random\nfrom Crypto import Random\n')]),
    ('key-cached', ['C09'], 'bug', [
        (M, KEYDRAW, KEYDRAW.replace(
            'session_key = Random.new().read(key_len)',
            'session_key = self._pool.setdefault(\n                key_len, '
            'Random.new().read(key_len))')),
        (M, '''    def public_key_encrypt(self, symmetric_algorithm, public_key=None,''',
         '''    _pool = {}

    def public_key_encrypt(self, symmetric_algorithm, public_key=None,''')]),
    ('key-default-arg', ['C09'], 'bug', [
        (M, '''                          s2k_salt=None, s2k_count=None):
        if s2k_type''', '''                          s2k_salt=Random.new().read(8),
                          s2k_count=None):
        if s2k_type''')]),
    ('salt-4', ['C09'], 'bug', [
        (M, 's2k_salt = Random.new().read(8)',
         's2k_salt = Random.new().read(4) * 2')]),
    ('salt-of-key', ['C09'], 'bug', [
        (M, '''        session_key_obj = SymmetricSessionKey(''',
         '''        s2k_specification.salt = session_key[:8]
        session_key_obj = SymmetricSessionKey(''')]),
    ('salt-ignored', ['C09'], 'bug', [
        (M, '''        if s2k_salt is None:
            s2k_salt =''', '''        if s2k_salt is None or s2k_type == 3:
            s2k_salt =''')]),
    ('salt-const', ['C09'], 'bug', [
        (M, 's2k_salt = Random.new().read(8)',
         's2k_salt = bytes(8)')]),
    ('prefix-zero', ['C09'], 'bug', [
        (M, 'iv = Random.new().read(block_len)',
         "iv = bytes(block_len)")]),
    ('prefix-8', ['C09'], 'bug', [
        (M, 'iv = Random.new().read(block_len)',
         "iv = Random.new().read(8).rjust(block_len, b'\\x00')")]),
    ('prefix-key', ['C09'], 'bug', [
        (M, 'iv = Random.new().read(block_len)',
         "iv = bytes(key[:block_len])")]),
    ('prefix-module', ['C09'], 'bug', [
        (M, 'iv = Random.new().read(block_len)',
         "iv = _PREFIX[:block_len]"),
        (M, 'class BaseMessage(', '_PREFIX = Random.new().read(16)\n\n\n'
         'class BaseMessage(')]),
    ('exponent-low', ['C09'], 'bug', [
        (P, 'randint(1, self._key.p - 2)\n        m =',
         'randint(1, 2 ** 160)\n        m =')]),
    ('exponent-shared', ['C09'], 'bug', [
        (P, '''        x = Random.random.StrongRandom().randint(1, self._key.p - 2)
        m =''', '''        x = self._shared.get('x')
        if x is None or x > self._key.p - 2:
            x = Random.random.StrongRandom().randint(1, self._key.p - 2)
            self._shared['x'] = x
        m ='''),
        (P, '''class PKCS115_ElGamal_Cipher(PKCS115_Cipher):
''', '''class PKCS115_ElGamal_Cipher(PKCS115_Cipher):
    _shared = {}
''')]),
    ('pad-one', ['C09'], 'bug', [
        (P, 'randfunc(k - mlen - 3)))\n        # Step 2b',
         'randfunc(8))).ljust(k - mlen - 3, '
         "b'\\xff')\n        # Step 2b")]),
    ('pad-const', ['C09'], 'bug', [
        (P, '''ps = bytes(map(non_zero_rand_byte(randfunc), '''
            '''randfunc(k - mlen - 3)))''',
         '''ps = b'\\xff' * (k - mlen - 3)''')]),
    ('nonce-160', ['C09'], 'bug', [
        (U, 'randint(1, q - 1)', 'randint(1, (1 << 150) - 1)')]),
    ('nonce-zero', ['C09'], 'bug', [
        (U, 'randint(1, q - 1)', 'randint(0, q - 1)')]),
    ('nonce-half', ['C09'], 'bug', [
        (U, 'randint(1, q - 1)', 'randint(1, q // 2)')]),
    ('nonce-digest', ['C09'], 'bug', [
        (U, '            k = random.StrongRandom().randint(1, q - 1)\n',
         '            k = bytes_to_long(hash_.digest()) % (q - 1) + 1\n')]),
    ('nonce-always', ['C09'], 'bug', [
        (U, '''        if k is None:
            k = random.StrongRandom().randint(1, q - 1)
''', '''        k = random.StrongRandom().randint(1, q - 1)
''')]),
    ('nonce-default', ['C09'], 'bug', [
        (U, 'def sign_hash(pub_algorithm_type, secret_key, hash_, k=None):',
         'def sign_hash(pub_algorithm_type, secret_key, hash_, k=None, '
         'seen={}):'),
        (U, '            k = random.StrongRandom().randint(1, q - 1)\n',
         '            k = seen.setdefault(\n                q, '
         'random.StrongRandom().randint(1, q - 1))\n')]),
    ('sentinel-const', ['C09'], 'bug', [
        (P, 'sentinel = Random.new().read((secret_key_obj.size() + 1) // 8)',
         "sentinel = b'\\x00' * ((secret_key_obj.size() + 1) // 8)")]),
    ('sentinel-default', ['C09'], 'bug', [
        (P, 'sentinel = Random.new().read((secret_key_obj.size() + 1) // 8)',
         "sentinel = Random.new().read(8)")]),
    # same behaviour
    ('s-helper', ['C09'], 'same', [
        (M, KEYDRAW, KEYDRAW.replace(
            'Random.new().read(key_len)', '_draw(key_len)')),
        (M, SYMDRAW, SYMDRAW.replace(
            'Random.new().read(key_len)', '_draw(key_len)')),
        (M, 'class BaseMessage(',
         'def _draw(n):\n    source = Random.new()\n'
         '    return source.read(n)\n\n\nclass BaseMessage(')]),
    ('s-urandom', ['C09'], 'same', [
        (M, 'iv = Random.new().read(block_len)',
         'iv = os.urandom(block_len)'),
        (M, 'from Crypto import Random\n',
         'import os\nfrom Crypto import Random\n')]),
    ('s-two-reads', ['C09'], 'same', [
        (M, 's2k_salt = Random.new().read(8)',
         'r = Random.new()\n            s2k_salt = r.read(4) + r.read(4)')]),
    ('s-randrange', ['C09'], 'same', [
        (U, 'randint(1, q - 1)', 'randrange(1, q)')]),
    ('s-order', ['C09'], 'same', [
        (M, '''        if s2k_salt is None:
            s2k_salt = Random.new().read(8)
''', '''        s2k_salt = (Random.new().read(8) if s2k_salt is None
                    else s2k_salt)
''')]),
]
