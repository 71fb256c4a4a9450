T = 'pgp/transferrable_keys.py'
src = open('/repo/' + T).read()
i = src.index("    def to_packets(self, header_format=None):\n        packets = []")
j = src.index("    def __init__(self, *args, **kwargs):\n        BasePublicKey")
OLD = src[i:j]
NEW = '''    def to_packets(self, header_format=None):
        return [item.to_packet(header_format) for item in self._walk()]

    def _walk(self):
        for component in ([self] + self.user_ids + self.user_attributes +
                          self.subkeys):
            yield component
            for sig in component.signatures:
                yield sig

'''
NEW2 = '''    def to_packets(self, header_format=None):
        result = []

        def emit(component):
            result.append(component.to_packet(header_format))
            result.extend(s.to_packet(header_format)
                          for s in component.signatures)

        emit(self)
        for group in (self.user_ids, self.user_attributes, self.subkeys):
            for component in group:
                emit(component)
        return result

'''
i = src.index("        i = 0\n        primary_public_key = cls.from_packet")
j = src.index("        return primary_public_key\n\n    def to_packets")
OLDF = src[i:j]
NEWF = '''        primary_public_key = cls.from_packet(packets[0])
        component = primary_public_key
        for packet in packets[1:]:
            if packet.type == C.SIGNATURE_PACKET_TYPE:
                component.signatures.append(
                    KeySignature.from_packet(packet, component))
            elif packet.type == C.USER_ID_PACKET_TYPE:
                component = UserID.from_packet(primary_public_key, packet)
                primary_public_key.user_ids.append(component)
            elif packet.type == C.USER_ATTRIBUTE_PACKET_TYPE:
                component = UserAttribute.from_packet(primary_public_key,
                                                      packet)
                primary_public_key.user_attributes.append(component)
            else:
                component = cls._SubkeyClass.from_packet(primary_public_key,
                                                         packet)
                primary_public_key.subkeys.append(component)
'''
P = ['C24']
CASES = [
    ('c24-generator', P, 'same', [(T, OLD, NEW)]),
    ('c24-closure', P, 'same', [(T, OLD, NEW2)]),
    ('c24-oneloop', P, 'same', [(T, OLDF, NEWF)]),
    ('c24-oneloop-target', P, 'bug', [(T, OLDF, NEWF.replace(
        'from_packet(packet, component)',
        'from_packet(packet, primary_public_key)'))]),
    ('c24-attr-first', P, 'bug', [
        (T, 'for user_id in self.user_ids:\n            packets',
         'for user_id in self.user_attributes:\n            packets'),
        (T, 'for user_attribute in self.user_attributes:\n            packets',
         'for user_attribute in self.user_ids:\n            packets')]),
    ('c24-one-sub-sig', P, 'bug', [
        (T, 'for sig in subkey.signatures:', 'for sig in subkey.signatures[:1]:')]),
    ('c24-v3-subkeys', P, 'bug', [(T, 'if pubkey_version < 4:',
                                   'if pubkey_version < 3:')]),
    ('c24-direct-late', P, 'bug', [
        (T, '''                                 C.SIGNATURE_PACKET_TYPE,
                                 C.TRUST_PACKET_TYPE):
                        raise exceptions.InvalidKeyPacketOrder(
                                    "Signature Directly''',
         '''                                 C.SIGNATURE_PACKET_TYPE,
                                 C.USER_ID_PACKET_TYPE,
                                 C.TRUST_PACKET_TYPE):
                        raise exceptions.InvalidKeyPacketOrder(
                                    "Signature Directly''')]),
    ('c24-cert-on-subkey', P, 'bug', [
        (T, '''                                            C.USER_ATTRIBUTE_PACKET_TYPE,
                                            C.TRUST_PACKET_TYPE):''',
         '''                                            C.USER_ATTRIBUTE_PACKET_TYPE,
                                            subkey_packet_type):''')]),
    ('c24-bare-subkey', P, 'bug', [
        (T, 'if (i + 1 >= len(type_order)\n                    or type_order',
         'if (i + 1 < len(type_order)\n                    and type_order')]),
    ('c24-second-trust', P, 'bug', [
        (T, "while type_order[j] == C.TRUST_PACKET_TYPE:\n                j -= 1",
         "if type_order[j] == C.TRUST_PACKET_TYPE:\n                j -= 1")]),
    ('c24-dedupe', P, 'bug', [
        (T, '                user_id.signatures.append(\n                        KeySignature.from_packet(packets[i],\n                                                 user_id)\n                    )\n',
         '                if packets[i] not in packets[:i]:\n                    user_id.signatures.append(\n                        KeySignature.from_packet(packets[i],\n                                                 user_id)\n                    )\n')]),
]
