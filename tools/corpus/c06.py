P = 'pgp/packets/packets.py'
K = 'pgp/transferrable_keys.py'
CASES = [
 ('c06-no-checksum', ['C06'], 'bug', [(P, '''            if actual_checksum != expected_checksum:
                raise ValueError
''', '''            if version >= 4 and actual_checksum != expected_checksum:
                raise ValueError
''')]),
 ('c06-hash-prefix', ['C06'], 'bug', [(P, '''            if bytes(expected_hash) != actual_hash:
                raise ValueError
''', '''            if bytes(expected_hash)[:4] != actual_hash[:4]:
                raise ValueError
''')]),
 ('c06-hash-range', ['C06'], 'bug', [(P, '''            actual_hash = SHA.new(decrypted_data[:-20]).digest()
''', '''            actual_hash = SHA.new(decrypted_data[2:-20]).digest()
''')]),
 ('c06-checksum-mod', ['C06'], 'bug', [(P, '''            actual_checksum = sum(decrypted_data[:-2]) & 0xffff
''', '''            actual_checksum = sum(decrypted_data[:-2]) % 0xffff
''')]),
 ('c06-checksum-range', ['C06'], 'bug', [(P, '''            actual_checksum = sum(decrypted_data[:-2]) & 0xffff
''', '''            actual_checksum = sum(decrypted_data) & 0xffff
''')]),
 ('c06-empty-ok', ['C06'], 'bug', [(P, '''            if actual_checksum != expected_checksum:
                raise ValueError
''', '''            if expected_checksum and actual_checksum != expected_checksum:
                raise ValueError
''')]),
 ('c06-255-no-check', ['C06'], 'bug', [(P, '''        if s2k_usage == 254:
            hash_ = True
            checksum = False
        else:
            checksum = True
            hash_ = False
''', '''        hash_ = s2k_usage == 254
        checksum = s2k_usage == 255
''')]),
 ('c06-early-flag', ['C06'], 'bug', [(K, '''        values = packets.SecretKeyPacket.decrypt_encrypted_key_portion(
                    self.version, key''', '''        self._locked = False
        values = packets.SecretKeyPacket.decrypt_encrypted_key_portion(
                    self.version, key''')]),
 ('c06-write-wrong-order', ['C06'], 'bug', [(P, '''        verification = bytearray()
        if checksum:
            verification = utils.int_to_2byte(sum(unencrypted_data) & 0xffff)
''', '''        verification = bytearray()
        if checksum:
            verification = utils.int_to_2byte(
                sum(unencrypted_data[2:]) & 0xffff)
''')]),
 ('c06-write-plain-check', ['C06'], 'bug', [(P, '''            encrypted_data.extend(cls._transform_key_data(
                'encrypt', key, symmetric_algorithm, iv,
                unencrypted_data + verification))
''', '''            encrypted_data.extend(cls._transform_key_data(
                'encrypt', key, symmetric_algorithm, iv,
                unencrypted_data))
            encrypted_data.extend(verification)
''')]),
 ('c06-strip-pass', ['C06'], 'bug', [(K, '''            passphrase.encode('utf8'))

        values''', '''            passphrase.strip().encode('utf8'))

        values''')]),
 ('c06-v3-iv', ['C06'], 'bug', [(P, '''                decrypted_data.extend(cls._transform_key_data(
                    'decrypt', key, symmetric_algorithm, iv, mpi_content))
                iv = (bytes(iv or b'') + mpi_content)[-len(iv or b''):]
''', '''                decrypted_data.extend(cls._transform_key_data(
                    'decrypt', key, symmetric_algorithm, iv, mpi_content))
''')]),
 ('c06-values-order', ['C06'], 'bug', [(K, '''            self.exponent_d = values[0]
            self.prime_p = values[1]
            self.prime_q = values[2]
''', '''            self.exponent_d = values[0]
            self.prime_p = values[2]
            self.prime_q = values[1]
''')]),
 ('c06-subkey-unchecked', ['C06'], 'bug', [(P, '''        if hash_:
            data_length -= 20
''', '''        if hash_ and len(decrypted_data) > 80:
            data_length -= 20
''')]),
 ('c06-same-split', ['C06'], 'same', [(P, '''        if hash_:
            data_length -= 20
            expected_hash = decrypted_data[-20:]
            actual_hash = SHA.new(decrypted_data[:-20]).digest()
            if bytes(expected_hash) != actual_hash:
                raise ValueError
''', '''        if hash_:
            data_length = data_length - SHA.digest_size
            sha = SHA.new()
            sha.update(bytes(decrypted_data[:data_length]))
            if not bytes(decrypted_data[data_length:]) == sha.digest():
                raise ValueError('Wrong passphrase')
''')]),
 ('c06-same-loop', ['C06'], 'same', [(P, '''            actual_checksum = sum(decrypted_data[:-2]) & 0xffff
''', '''            actual_checksum = 0
            for octet in decrypted_data[:-2]:
                actual_checksum = (actual_checksum + octet) % 65536
''')]),
 ('c06-same-write', ['C06'], 'same', [(P, '''        if version in (2, 3):
            # With V3 keys, the checksum is stored in the clear.
            encrypted_data.extend(verification)
        else:
            encrypted_data.extend(cls._transform_key_data(
                'encrypt', key, symmetric_algorithm, iv,
                unencrypted_data + verification))
        return encrypted_data
''', '''        if version in (2, 3):
            # With V3 keys, the checksum is stored in the clear.
            return encrypted_data + verification
        unencrypted_data.extend(verification)
        return bytearray(cls._transform_key_data(
            'encrypt', key, symmetric_algorithm, iv, unencrypted_data))
''')]),
 ('c06-same-unlock', ['C06'], 'same', [(K, '''            self.exponent_d = values[0]
            self.prime_p = values[1]
            self.prime_q = values[2]
            self.multiplicative_inverse_u = values[3]
        elif''', '''            (self.exponent_d, self.prime_p, self.prime_q,
             self.multiplicative_inverse_u) = values
        elif''')]),
]
