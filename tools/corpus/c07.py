U, M, T, P, S = ('pgp/utils.py', 'pgp/message.py', 'pgp/transferrable_keys.py',
                 'pgp/packets/packets.py', 'pgp/s2k.py')
G, A = 'pgp/pinentry/getpass.py', 'pgp/pinentry/gpg_agent.py'
CASES = [
    ('c07-nonce', ['C07'], 'bug', [(U, "        digest = hash_.digest()[:qbytes]\n        return secret", "        digest = hash_.digest()[:qbytes]\n        if k < 3:\n            print('weak nonce', k)\n        return secret")]),
    ('c07-warn', ['C07'], 'bug', [(T, "        self._locked = False\n        return\n", "        import warnings\n        if len(values) > 4:\n            warnings.warn('unexpected values {0}'.format(values))\n        self._locked = False\n        return\n")]),
    ('c07-exc', ['C07'], 'bug', [(T, "            self.exponent_x = values[0]\n        else:\n            raise ValueError\n\n        self._locked", "            self.exponent_x = values[0]\n        else:\n            raise ValueError('cannot use %r' % (values,))\n\n        self._locked")]),
    ('c07-iv', ['C07'], 'bug', [(M, "            if iv_check != decrypted_iv[-2:]:\n                raise ValueError()", "            if iv_check != decrypted_iv[-2:]:\n                raise ValueError(\n                    'Bad session key {0}'.format(bytes(key)))")]),
    ('c07-mdc', ['C07'], 'bug', [(M, "            if not mdc_data:\n                raise ValueError(\n                    'Integrity protected message is missing modification '\n                    'detection code.')", "            if not mdc_data:\n                tail = bytes(decrypted_data[-22:])\n                raise ValueError(\n                    'Integrity protected message ends with %r' % tail)")]),
    ('c07-pkesk', ['C07'], 'bug', [(P, "            m = decrypted_values[0]\n", "            m = decrypted_values[0]\n            if not m:\n                raise ValueError(decrypted_values)\n")]),
    ('c07-s2k', ['C07'], 'bug', [(S, "        # \"any excess octets on the right [are] discarded.\"\n", "        import logging\n        logging.getLogger('pgp').debug('derived %s', result)\n        # \"any excess octets on the right [are] discarded.\"\n")]),
    ('c07-pass', ['C07'], 'bug', [(G, "                    match = False\n", "                    match = False\n                    print('Not %s' % passphrase, file=stream)\n")]),
    ('c07-repr', ['C07'], 'bug', [(T, "    def unlock(self, passphrase):\n        # TODO: Check encoding\n", "    def __repr__(self):\n        return '<{0} 0x{1} {2}>'.format(\n            self.__class__.__name__, self.fingerprint,\n            [self.exponent_d, self.exponent_x])\n\n    def unlock(self, passphrase):\n        # TODO: Check encoding\n")]),
    ('c07-vars', ['C07'], 'bug', [(T, "        return '<{0} 0x{1}>'.format(self.__class__.__name__,", "        return '<{0} 0x{1}>'.format(vars(self),")]),
    ('c07-helper', ['C07'], 'bug', [(U, "def sign_hash(pub", "def _report(what, value):\n    warnings.warn('{0}: {1}'.format(what, value))\n\n\ndef sign_hash(pub"), (U, "        digest = hash_.digest()[:qbytes]\n        return secret", "        digest = hash_.digest()[:qbytes]\n        x = secret_key.x\n        if not 0 < x < q:\n            _report('key out of range', x)\n        return secret"), (U, "import bz2\n", "import bz2\nimport warnings\n")]),
    ('c07-wrong-pass', ['C07'], 'bug', [(P, "        key = s2k_specification.to_key(passphrase)\n        symmetric_algorithm = symmetric_algorithm\n", "        key = s2k_specification.to_key(passphrase)\n        if symmetric_algorithm > 10:\n            raise ValueError(symmetric_algorithm, passphrase)\n")]),
    ('c07-same-len', ['C07'], 'same', [(T, "        self._locked = False\n        return\n", "        if len(values) > 4:\n            raise ValueError('unexpected {0} values'.format(len(values)))\n        self._locked = False\n        return\n")]),
    ('c07-same-exc', ['C07'], 'same', [(P, "        key = s2k_specification.to_key(passphrase)\n        symmetric_algorithm = symmetric_algorithm\n", "        key = s2k_specification.to_key(passphrase)\n        if symmetric_algorithm > 10:\n            raise ValueError('algorithm %d' % symmetric_algorithm)\n        if not passphrase:\n            raise TypeError('passphrase missing')\n")]),
    ('c07-same-repr', ['C07'], 'same', [(T, "    def unlock(self, passphrase):\n        # TODO: Check encoding\n", "    def __repr__(self):\n        return '<{0} 0x{1} {2}>'.format(\n            self.__class__.__name__, self.fingerprint,\n            'locked' if self._locked else self.modulus_n)\n\n    def unlock(self, passphrase):\n        # TODO: Check encoding\n")]),
    ('c07-same-helper', ['C07'], 'same', [(U, "        digest = hash_.digest()[:qbytes]\n        return secret", "        digest = hash_.digest()[:qbytes]\n        nonce = k\n        del k\n        k = nonce\n        return secret")]),
]
