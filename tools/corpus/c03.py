T = 'pgp/transferrable_keys.py'
S = 'pgp/signature.py'
P = 'pgp/packets/packets.py'
U = 'pgp/utils.py'
V = 'pgp/signature_verification.py'
TR = '''            hashed_subpacket_length = len(hashed_subpacket_data)
            result.extend(utils.int_to_2byte(hashed_subpacket_length))
            result.extend(hashed_subpacket_data)
            result.append(self.version)
            result.append(255)
            result.extend(utils.int_to_4byte(hashed_subpacket_length + 6))
'''
CASES = [
    ('c03-uid-attr-tag', ['C03'], 'bug', [(T, 'result.append(0xd1)',
                                           'result.append(0xb4)')]),
    ('c03-uid-len2', ['C03'], 'bug', [(T, '''            result.append(0xb4)
            result.extend(utils.int_to_4byte(len(target_packet_data)))''',
        '''            result.append(0xb4)
            result.extend(b'\\0\\0')
            result.extend(utils.int_to_2byte(len(target_packet_data) & 0xffff))''')]),
    ('c03-v3-frame', ['C03'], 'bug', [(T, '''        if signature_version >= 4:
            result.append(0xb4)''', '''        if signature_version >= 3:
            result.append(0xb4)''')]),
    ('c03-subkey-alone', ['C03'], 'bug', [(T, '''        result = self.primary_public_key.to_signable_data(signature_type,
                                                          signature_version)
        result.extend(
            super(PublicSubkey, self).to_signable_data(signature_type,
                                                       signature_version))
        return result''', '''        result = bytearray()
        if signature_type != C.SUBKEY_REVOCATION_SIGNATURE:
            result.extend(self.primary_public_key.to_signable_data(
                signature_type, signature_version))
        result.extend(
            super(PublicSubkey, self).to_signable_data(signature_type,
                                                       signature_version))
        return result''')]),
    ('c03-unhashed', ['C03'], 'bug', [(S, '''                map(bytes, self.hashed_subpackets))
            hashed_subpacket_length''', '''                map(bytes, self.hashed_subpackets
                    + self.unhashed_subpackets))
            hashed_subpacket_length''')]),
    ('c03-trailer-len', ['C03'], 'bug', [(S, TR, TR.replace('+ 6', '+ 4'))]),
    ('c03-sign-version', ['C03'], 'bug', [
        (T, 'hash_.update(sig.to_signable_data(signature_type, version))',
         'hash_.update(sig.to_signable_data(signature_type))'),
        (S, '''        if self.version < 4:
            result.extend(utils.int_to_4byte(
                int(''', '''        if signature_version < 4:
            result.extend(utils.int_to_4byte(
                int(''')]),
    ('c03-late-subpacket', ['C03'], 'bug', [
        (T, '        sig.signature_values = signature_values\n',
         '''        sig.signature_values = signature_values
        if signature_type == 0x13 and version >= 4:
            sig.hashed_subpackets.reverse()
''')]),
    ('c03-sign-hash', ['C03'], 'bug', [
        (T, '        hash2 = bytearray(hash_.digest()[:2])\n',
         '        hash2 = bytearray(hash_.digest()[-2:])\n')]),
    ('c03-sign-item-v4', ['C03'], 'bug', [
        (T, 'hash_.update(get_signable_data(item, signature_type, version))',
         'hash_.update(get_signable_data(item, signature_type, 4))')]),
    ('c03-validate-type', ['C03'], 'bug', [
        (V, '''    hash_.update(target.to_signable_data(signature.signature_type,
                                         signature.version))''',
         '''    hash_.update(target.to_signable_data(signature.signature_type))''')]),
    ('c03-util-uid', ['C03'], 'bug', [(U, '''            data_to_hash.append(0xb4)
            data_to_hash.extend(int_to_4byte(len(target_packet_data)))''',
        '''            data_to_hash.append(0xb4)
            data_to_hash.extend(int_to_2byte(len(target_packet_data)))''')]),
    ('c03-util-subrev', ['C03'], 'bug', [(U, '''                            constants.PRIMARY_KEY_BINDING_SIGNATURE,
                            constants.SUBKEY_REVOCATION_SIGNATURE):''',
        '''                            constants.PRIMARY_KEY_BINDING_SIGNATURE):''')]),
    ('c03-packet-trailer', ['C03'], 'bug', [(P, '''            hashed_subpacket_length = len(hashed_subpacket_data)
            result.extend(utils.int_to_2byte(hashed_subpacket_length))
            result.extend(hashed_subpacket_data)
            result.append(self.version)
            result.append(255)''', '''            hashed_subpacket_length = len(hashed_subpacket_data)
            result.extend(utils.int_to_2byte(hashed_subpacket_length))
            result.extend(hashed_subpacket_data)
            result.append(4)
            result.append(254)''')]),
    ('c03-confirm', ['C03'], 'bug', [(P, 'packet_data = self._get_content([])',
                                      'packet_data = self.content')]),
    ('c03-uid-utf8', ['C03'], 'bug', [(T, '''        target_packet_data = self.to_packet().content
        if signature_version >= 4:
            result.append(0xb4)''', '''        target_packet_data = self.user_id.encode('utf8', 'replace')
        if signature_version >= 4:
            result.append(0xb4)''')]),
    # refactorings
    ('c03-same-struct', ['C03'], 'same', [(S, TR, '''            area = bytes(hashed_subpacket_data)
            size = len(area)
            result += bytearray([(size >> 8) & 0xff, size & 0xff]) + area
            result += bytearray([self.version, 0xff])
            total = 6 + size
            result += bytearray((total >> n) & 0xff for n in (24, 16, 8, 0))
''')]),
    ('c03-same-frame', ['C03'], 'same', [
        (T, '''        result = self.primary_public_key.to_signable_data(signature_type,
                                                          signature_version)
        target_packet_data = self.to_packet().content
        if signature_version >= 4:
            result.append(0xb4)
            result.extend(utils.int_to_4byte(len(target_packet_data)))
        result.extend(target_packet_data)
        return result
''', '''        return self._framed(0xb4, signature_type, signature_version)

    def _framed(self, tag, signature_type, signature_version):
        body = bytes(self.to_packet().content)
        frame = b''
        if signature_version > 3:
            frame = bytes(bytearray([tag])) + bytes(
                utils.int_to_4byte(len(body)))
        prefix = self.primary_public_key.to_signable_data(
            signature_type, signature_version)
        return bytearray(bytes(prefix) + frame + body)
''')]),
    ('c03-same-sign', ['C03'], 'same', [(T, '''        hash2 = bytearray(hash_.digest()[:2])
        sig.hash2 = hash2

        signature_values = utils.sign_hash(self.public_key_algorithm, key_obj,
                                           hash_)
        sig.signature_values = signature_values
''', '''        sig.signature_values = utils.sign_hash(
            self.public_key_algorithm, key_obj, hash_)
        sig.hash2 = bytearray(hash_.digest())[:2]
''')]),
    ('c03-same-util', ['C03'], 'same', [(U, '''    key_length = len(key_packet_data)
    data_to_hash.append(0x99)
    data_to_hash.extend(int_to_2byte(key_length))
    data_to_hash.extend(key_packet_data)
''', '''    for piece in (b'\\x99', int_to_2byte(len(key_packet_data)),
                  key_packet_data):
        data_to_hash += piece
''')]),
    ('c03-same-confirm', ['C03'], 'same', [(P, '''        packet_data = self._get_content([])
        result = bytearray([0x88])
''', '''        packet_data = SignaturePacket._get_content(
            self, unhashed_subpackets=())
        result = bytearray(b'\\x88')
''')]),
]
