K = 'pgp/transferrable_keys.py'
M = 'pgp/message.py'
X = 'pgp/context_managers.py'
LOCK = '''    def lock(self):
        if self.public_key_algorithm in (1, 2, 3):
            # RSA
            self.exponent_d = None
            self.prime_p = None
            self.prime_q = None
            self.multiplicative_inverse_u = None
        elif self.public_key_algorithm in (16, 17, 20):
            # DSA & Elg
            self.exponent_x = None
        else:
            raise ValueError

        self._locked = True
        return
'''
CASES = [
 ('c05-keep-u', ['C05'], 'bug', [(K, '''            self.prime_q = None
            self.multiplicative_inverse_u = None
        elif''', '''            self.prime_q = None
        elif''')]),
 ('c05-keep-elg', ['C05'], 'bug', [(K, '''            self.multiplicative_inverse_u = None
        elif self.public_key_algorithm in (16, 17, 20):
            # DSA & Elg
            self.exponent_x = None
        else:
            raise ValueError
''', '''            self.multiplicative_inverse_u = None
        elif self.public_key_algorithm == 17:
            # DSA & Elg
            self.exponent_x = None
''')]),
 ('c05-subkeys-open', ['C05'], 'bug', [(K, '''        super(TransferableSecretKey, self).lock()
        for sk in self.subkeys:
            sk.lock()
''', '''        super(TransferableSecretKey, self).lock()
''')]),
 ('c05-first-subkey', ['C05'], 'bug', [(K, '''        super(TransferableSecretKey, self).lock()
        for sk in self.subkeys:
            sk.lock()
''', '''        super(TransferableSecretKey, self).lock()
        for sk in self.subkeys[:1]:
            sk.lock()
''')]),
 ('c05-cache-key-obj', ['C05'], 'bug', [(K, '''        self._locked = False
        return
''', '''        self._locked = False
        self._cached = self._get_key_obj()
        return
''')]),
 ('c05-cache-passphrase', ['C05'], 'bug', [(K, '''    def unlock(self, passphrase):
        # TODO: Check encoding
''', '''    def unlock(self, passphrase):
        self._passphrase = passphrase
''')]),
 ('c05-cache-s2k', ['C05'], 'bug', [(K, '''        values = packets.SecretKeyPacket.decrypt_encrypted_key_portion(
                    self.version''', '''        self.s2k_specification._key = key
        values = packets.SecretKeyPacket.decrypt_encrypted_key_portion(
                    self.version''')]),
 ('c05-cm-only-ok', ['C05'], 'bug', [(X, '''        self.lockable.lock()
        return False''', '''        if exc_type is None:
            self.lockable.lock()
        return False''')]),
 ('c05-cm-swallow', ['C05'], 'bug', [(X, '''        self.lockable.lock()
        return False''', '''        self.lockable.lock()
        return True''')]),
 ('c05-auto-unlock', ['C05'], 'bug', [(K, '''        if self.is_locked():
            raise RuntimeError('Secret key must be unlocked before signing.')
''', '''        if self.is_locked():
            if self.s2k_specification is not None:
                raise RuntimeError(
                    'Secret key must be unlocked before signing.')
            self.unlock('')
''')]),
 ('c05-flag-only-primary', ['C05'], 'bug', [(K, '''    def is_locked(self):
        return self._locked
''', '''    def is_locked(self):
        return self._locked and self.exponent_d is None
'''), (K, '''            self.exponent_d = None
            self.prime_p = None
            self.prime_q = None
            self.multiplicative_inverse_u = None
        elif''', '''            self.prime_p = None
            self.prime_q = None
            self.multiplicative_inverse_u = None
        elif''')]),
 ('c05-failed-half', ['C05'], 'bug', [(K, '''        except Exception:
            # Don't leave some of the secrets exposed.
            self.lock()
            raise
''', '''        except Exception:
            raise
''')]),
 ('c05-failed-subkeys', ['C05'], 'bug', [(K, '''            # Don't leave some of the secrets exposed.
            self.lock()
            raise
''', '''            # Don't leave some of the secrets exposed.
            super(TransferableSecretKey, self).lock()
            raise
''')]),
 ('c05-lock-wipes-public', ['C05'], 'bug', [(K, '''            # DSA & Elg
            self.exponent_x = None
        else:
            raise ValueError

        self._locked = True''', '''            # DSA & Elg
            self.exponent_x = None
            self.prime_p = None
        else:
            raise ValueError

        self._locked = True''')]),
 ('c05-unwrap-no-check', ['C05'], 'same', [(M, '''        if secret_key.is_locked():
            raise RuntimeError('Key must be unlocked.')
''', '')]),
 ('c05-same-loop', ['C05'], 'same', [(K, LOCK, '''    def lock(self):
        names = {1: ('exponent_d', 'prime_p', 'prime_q',
                     'multiplicative_inverse_u'),
                 17: ('exponent_x',)}
        if self.public_key_algorithm in (1, 2, 3):
            wipe = names[1]
        elif self.public_key_algorithm in (16, 17, 20):
            wipe = names[17]
        else:
            raise ValueError
        for name in wipe:
            setattr(self, name, None)

        self._locked = True
''')]),
 ('c05-same-cm', ['C05'], 'same', [(X, '''        self.lockable.lock()
        return False''', '''        lockable = self.lockable
        lockable.lock()''')]),
 ('c05-same-finally', ['C05'], 'same', [(K, '''        super(TransferableSecretKey, self).unlock(passphrase)
        try:
            for sk in self.subkeys:
                sk.unlock(passphrase)
        except Exception:
            # Don't leave some of the secrets exposed.
            self.lock()
            raise
''', '''        super(TransferableSecretKey, self).unlock(passphrase)
        done = False
        try:
            for sk in list(self.subkeys):
                sk.unlock(passphrase)
            done = True
        finally:
            if not done:
                # Don't leave some of the secrets exposed.
                self.lock()
''')]),
 ('c05-same-helper', ['C05'], 'same', [(K, '''        self._locked = False
        return

    def lock(self):''', '''        self._mark(False)

    def _mark(self, locked):
        self._locked = locked

    def lock(self):'''), (K, '''        self._locked = True
        return
''', '''        self._mark(True)
''')]),
]
