T = 'pgp/transferrable_keys.py'
U = 'pgp/utils.py'
CHK = '''        if hash_.digest()[:2] != signature.hash2:
            raise exceptions.SignatureVerificationFailed()

        if not utils.verify_hash(signature.public_key_algorithm, key_obj,
                                 hash_, signature_values):
            raise exceptions.SignatureVerificationFailed()

        return True
'''
ISS = '''        if self.key_id not in signature.issuer_key_ids:
            raise exceptions.SignatureVerificationFailed(
                'Signature not made by this key.')
'''
CASES = [
    ('c02-hash2-only', ['C02'], 'bug', [(T, CHK, '''        if hash_.digest()[:2] != signature.hash2:
            raise exceptions.SignatureVerificationFailed()

        return True
''')]),
    ('c02-no-hash2', ['C02'], 'bug', [(T, CHK, '''        if not utils.verify_hash(signature.public_key_algorithm, key_obj,
                                 hash_, signature_values):
            raise exceptions.SignatureVerificationFailed()

        return True
''')]),
    ('c02-either', ['C02'], 'bug', [(T, CHK, '''        if hash_.digest()[:2] != signature.hash2 and \\
                not utils.verify_hash(signature.public_key_algorithm, key_obj,
                                      hash_, signature_values):
            raise exceptions.SignatureVerificationFailed()

        return True
''')]),
    ('c02-one-octet', ['C02'], 'bug', [
        (T, 'hash_.digest()[:2] != signature.hash2:',
         'hash_.digest()[:1] != signature.hash2[:1]:')]),
    ('c02-no-raise', ['C02'], 'bug', [
        (T, '''                                 hash_, signature_values):
            raise exceptions.SignatureVerificationFailed()

        return True''', '''                                 hash_, signature_values):
            return False

        return True''')]),
    ('c02-issuer-dropped', ['C02'], 'bug', [(T, ISS, '')]),
    ('c02-issuer-first', ['C02'], 'bug', [
        (T, 'if self.key_id not in signature.issuer_key_ids:',
         'if self.key_id not in signature.issuer_key_ids[:1]:')]),
    ('c02-issuer-short', ['C02'], 'bug', [
        (T, 'if self.key_id not in signature.issuer_key_ids:',
         'if self.key_id[-8:] not in [i[-8:] for i in '
         'signature.issuer_key_ids]:')]),
    ('c02-issuer-empty', ['C02'], 'bug', [
        (T, 'if self.key_id not in signature.issuer_key_ids:',
         'if signature.issuer_key_ids and self.key_id not in '
         'signature.issuer_key_ids:')]),
    ('c02-issuer-wild', ['C02'], 'bug', [
        (T, 'if self.key_id not in signature.issuer_key_ids:',
         "if self.key_id not in signature.issuer_key_ids and "
         "'0' * 16 not in signature.issuer_key_ids:")]),
    ('c02-algo-dropped', ['C02'], 'bug', [
        (T, '''        if self.public_key_algorithm != signature.public_key_algorithm:
            raise exceptions.SignatureVerificationFailed(
                'Signature not made by this key.')

        signature_values = ''', '''        signature_values = ''')]),
    ('c02-rsa-family', ['C02'], 'bug', [
        (T, '''        if self.public_key_algorithm != signature.public_key_algorithm:
            raise''', '''        if (self.public_key_algorithm != signature.public_key_algorithm and
                not {self.public_key_algorithm,
                     signature.public_key_algorithm} <= {1, 3}):
            raise''')]),
    ('c02-trailer-dropped', ['C02'], 'bug', [
        (T, '''        hash_.update(signature.to_signable_data(signature.signature_type,
                                                signature.version))
        if hash_''', '''        if hash_''')]),
    ('c02-version-four', ['C02'], 'bug', [
        (T, '''        hash_.update(get_signable_data(item, signature.signature_type,
                                       signature.version))
        hash_.update(signature''', '''        hash_.update(get_signable_data(item, signature.signature_type,
                                       4))
        hash_.update(signature''')]),
    ('c02-sha1-default', ['C02'], 'bug', [
        (U, '''        return SHA224.new()
    else:
        raise UnsupportedDigestAlgorithm(type_)''', '''        return SHA224.new()
    else:
        return SHA.new()''')]),
    ('c02-rsa-any', ['C02'], 'bug', [
        (U, '''        return PKCS1_v1_5.new(public_key).verify(hash_, s)''',
         '''        PKCS1_v1_5.new(public_key).verify(hash_, s)
        return True''')]),
    ('c02-dsa-short', ['C02'], 'bug', [
        (U, 'digest = digest[start:start + qbytes]',
         'digest = digest[start:start + qbytes - 1]')]),
    ('c02-dsa-swap', ['C02'], 'bug', [
        (U, 'return public_key.verify(bytes_to_long(digest), values)',
         'return public_key.verify(bytes_to_long(digest), values[::-1])')]),
    ('c02-rsa-short', ['C02'], 'bug', [
        (U, '(public_key.size() + 8) // 8)', '(public_key.size() + 7) // 8)')]),
    ('c02-unknown-ok', ['C02'], 'bug', [
        (U, '''        # TODO: complete this
        raise PublicKeyAlgorithmCannotSign(pub_algorithm_type)


def get_hash_instance''', '''        # TODO: complete this
        return True


def get_hash_instance''')]),
    # refactorings
    ('c02-same-helper', ['C02'], 'same', [(T, CHK, '''        self._check_digest(signature, hash_, key_obj)
        return True

    def _check_digest(self, signature, hash_, key_obj):
        digest = bytes(hash_.digest())
        matches = digest.startswith(bytes(signature.hash2))
        if matches:
            matches = utils.verify_hash(
                public_key=key_obj, hash_=hash_,
                values=signature.signature_values,
                pub_algorithm_type=signature.public_key_algorithm)
        if not matches:
            raise exceptions.SignatureVerificationFailed()
''')]),
    ('c02-same-issuer', ['C02'], 'same', [(T, ISS, '''        if not any(k == self.key_id for k in signature.issuer_key_ids):
            raise exceptions.SignatureVerificationFailed(
                'Signature not made by this key.')
''')]),
    ('c02-same-issuer-loop', ['C02'], 'same', [(T, ISS, '''        ours = False
        for issuer in signature.issuer_key_ids:
            if issuer == self.key_id:
                ours = True
                break
        if not ours:
            raise exceptions.SignatureVerificationFailed(
                'Signature not made by this key.')
''')]),
    ('c02-same-table', ['C02'], 'same', [(U, '''    if type_ == 1:
        return MD5.new()
    elif type_ == 2:
        return SHA.new()
    elif type_ == 3:
        return RIPEMD.new()
    elif type_ == 8:
        return SHA256.new()
    elif type_ == 9:
        return SHA384.new()
    elif type_ == 10:
        return SHA512.new()
    elif type_ == 11:
        return SHA224.new()
    else:
        raise UnsupportedDigestAlgorithm(type_)


def get_pub''', '''    modules = {1: MD5, 2: SHA, 3: RIPEMD, 8: SHA256, 9: SHA384,
               10: SHA512, 11: SHA224}
    try:
        module = modules[type_]
    except KeyError:
        raise UnsupportedDigestAlgorithm(type_)
    return module.new()


def get_pub''')]),
    ('c02-same-onehash', ['C02'], 'same', [(T, '''        hash_.update(get_signable_data(item, signature.signature_type,
                                       signature.version))
        hash_.update(signature.to_signable_data(signature.signature_type,
                                                signature.version))
        if hash_''', '''        kind, version = signature.signature_type, signature.version
        data = bytearray()
        for get, part in ((get_signable_data, item),
                          (type(signature).to_signable_data, signature)):
            data += get(part, kind, version)
        hash_.update(bytes(data))
        if hash_''')]),
    ('c02-same-dsa', ['C02'], 'same', [(U, '''        digest = hash_.digest()
        # Discard empty leading bytes
        start = 0
        while digest[start] == b'\\x00':
            start += 1
        digest = digest[start:start + qbytes]
        return public_key.verify(bytes_to_long(digest), values)''',
        '''        return public_key.verify(
            bytes_to_long(hash_.digest()[:qbytes]), values)''')]),
]
