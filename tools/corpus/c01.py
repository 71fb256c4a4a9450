M = 'pgp/message.py'
U = 'pgp/utils.py'
CHK = '''            if iv_check != decrypted_iv[-2:]:
                raise ValueError()
'''
MDC = '''            if mdc.data != hash_.digest():
'''
CASES = [
 ('c01-no-repeat', ['C01'], 'bug', [(M, CHK, '')]),
 ('c01-repeat-one', ['C01'], 'bug', [(M, 'if iv_check != decrypted_iv[-2:]:', 'if iv_check[:1] != decrypted_iv[-2:-1]:')]),
 ('c01-mdc-prefix', ['C01'], 'bug', [(M, MDC, '''            if mdc.data[:16] != hash_.digest()[:16]:
''')]),
 ('c01-mdc-warn', ['C01'], 'bug', [(M, '''                raise ValueError(
                    'Integrity protected message does not match modification '
                    'detection code.')
''', '''                warnings.warn('bad code')
'''), (M, 'import re\n', 'import re\nimport warnings\n')]),
 ('c01-no-code-ok', ['C01'], 'bug', [(M, '''            if not mdc_data:
                raise ValueError(
                    'Integrity protected message is missing modification '
                    'detection code.')
            mdc = decrypted_packets.pop()
''', '''            if not mdc_data:
                return open_pgp_message_from_packets(decrypted_packets)
            mdc = decrypted_packets.pop()
''')]),
 ('c01-hash-no-prefix', ['C01'], 'bug', [(M, '''            hash_ = SHA.new(decrypted_iv)
            hash_.update(decrypted_iv[-2:])
            hash_.update(decrypted_data[:-20])
''', '''            hash_ = SHA.new(decrypted_iv)
            hash_.update(decrypted_data[:-20])
''')]),
 ('c01-hash-no-header', ['C01'], 'bug', [(M, '''            hash_.update(decrypted_data[:-20])
''', '''            hash_.update(decrypted_data[:-22])
'''), (M, '''            message = message + b'\\xd3\\x14'
            hash_.update(message)
''', '''            hash_.update(message)
            message = message + b'\\xd3\\x14'
''')]),
 ('c01-enc-repeat', ['C01'], 'bug', [(M, "cipher.encrypt(iv[-2:] + message)", "cipher.encrypt(iv[:2] + message)")]),
 ('c01-enc-pad', ['C01'], 'bug', [(M, 'padding = block_len - (len(message) + 2 + 22) % block_len', 'padding = -(len(message) + 2 + 22) % block_len')]),
 ('c01-dec-pad', ['C01'], 'bug', [(M, '''        if padding:
            decrypted_data = decrypted_data[:-padding]
''', '''        if padding < block_len:
            decrypted_data = decrypted_data[:-padding]
''')]),
 ('c01-type-by-version', ['C01'], 'bug', [(M, '''                decrypted_data[-22:-20] == b'\\xd3\\x14':
''', '''                decrypted_data[-21:-20] == b'\\x14':
''')]),
 ('c01-plain-offset', ['C01'], 'bug', [(M, '            offset += block_len + 2\n', '            offset += block_len\n')]),
 ('c01-same-digest', ['C01'], 'same', [(M, '''            hash_ = SHA.new(decrypted_iv)
            hash_.update(decrypted_iv[-2:])
            hash_.update(decrypted_data[:-20])
            if mdc.data != hash_.digest():
''', '''            covered = bytearray(decrypted_iv)
            covered += decrypted_iv[-2:]
            covered += decrypted_data[:len(decrypted_data) - 20]
            if SHA.new(bytes(covered)).digest() != bytes(mdc.data):
''')]),
 ('c01-same-encrypt', ['C01'], 'same', [(M, '''            data.extend(cipher.encrypt(iv))
            hash_ = SHA.new(iv)
            hash_.update(iv[-2:])
            message = message + b'\\xd3\\x14'
            hash_.update(message)
            mdc = hash_.digest()
            message = message + mdc + (b'\\x00' * padding)
            data.extend(cipher.encrypt(iv[-2:] + message)[:-padding])
''', '''            clear = iv + iv[-2:] + message + b'\\xd3\\x14'
            clear += SHA.new(clear).digest()
            length = len(clear)
            data = bytearray(cipher.encrypt(clear + b'\\x00' * padding)[:length])
''')]),
 ('c01-same-helper', ['C01'], 'same', [(M, '''            if iv_check != decrypted_iv[-2:]:
                raise ValueError()
''', '''            self._check_prefix(decrypted_iv, iv_check)
'''), (M, '''    def decrypt(self, symmetric_algo, key):
        encrypted_data =''', '''    @staticmethod
    def _check_prefix(prefix, repeated):
        for i in range(2):
            if prefix[len(prefix) - 2 + i] != repeated[i]:
                raise ValueError('Wrong session key')

    def decrypt(self, symmetric_algo, key):
        encrypted_data =''')]),
 ('c01-same-early', ['C01'], 'same', [(M, '''        while offset < data_len:
            offset, packet = packets.packet_from_packet_data(main_data, offset)
            decrypted_packets.append(packet)

        if mdc_data:''', '''        if self.integrity_protected and not mdc_data:
            raise ValueError('No modification detection code.')
        while offset < data_len:
            offset, packet = packets.packet_from_packet_data(main_data, offset)
            decrypted_packets.append(packet)

        if mdc_data:''')]),
 ('c01-same-cipher', ['C01', 'C06', 'C05'], 'same', [(U, '''    # Named "IV" in most modes, but "iv" in the OpenPGP mode.
    return cipher.new(bytes(key), mode, bytes(iv),
                      segment_size=segment_size)
''', '''    kwargs = {}
    if mode == blockalgo.MODE_CFB:
        kwargs['segment_size'] = segment_size
    return cipher.new(bytes(key), mode, bytes(iv), **kwargs)
''')]),
]
