T = 'pgp/transferrable_keys.py'
D = 'pgp/db/gpg.py'
S = 'pgp/shortcuts.py'
H = 'pgp/keyserver/hkp.py'
TOP = """            self._public_prime_p, self.group_generator_g, self.group_order_q,
            self.key_value_y, list(self.signatures))
        key.packet_header_type"""
SUB = "        key.subkeys = list(map(lambda k: k.to_public_key(), self.subkeys))\n"
LABEL = """        if isinstance(key, TransferableSecretKey):
            data_type = armor.PGP_PRIVATE_KEY_BLOCK
        elif isinstance(key, TransferablePublicKey):
            data_type = armor.PGP_PUBLIC_KEY_BLOCK
"""
CASES = [
    ('prime-p', ['C08'], 'bug', [(T, TOP, TOP.replace("_public_prime_p",
                                                      "prime_p"))]),
    ('subkeys-as-is', ['C08'], 'bug', [(T, SUB, "        key.subkeys = list("
                                        "self.subkeys)\n")]),
    ('subkeys-some', ['C08'], 'bug', [(T, SUB, """        key.subkeys = [
            k.to_public_key() if not k.is_locked() else k
            for k in self.subkeys]
""")]),
    ('subkeys-loop', ['C08'], 'same', [(T, SUB, """        key.subkeys = []
        for k in self.subkeys:
            key.subkeys.append(k.to_public_key())
""")]),
    ('dict-copy', ['C08'], 'bug', [(T, "        return key\n\n    def _to_packet_args",
                                    "        key._source = self.__dict__.copy()\n"
                                    "        return key\n\n    def _to_packet_args")]),
    ('public-class', ['C08'], 'bug', [(T, "    _PublicClass = TransferablePublicKey\n", ""),
                                      (T, "        key = self._PublicClass(\n            self.version",
                                       "        key = getattr(self, '_PublicClass', type(self))(\n            self.version")]),
    ('label-order', ['C08'], 'bug', [(S, LABEL, """        if isinstance(key, TransferablePublicKey):
            data_type = armor.PGP_PUBLIC_KEY_BLOCK
        elif isinstance(key, TransferableSecretKey):
            data_type = armor.PGP_PRIVATE_KEY_BLOCK
""")]),
    ('label-locked', ['C08'], 'bug', [(S, LABEL, LABEL.replace(
        "if isinstance(key, TransferableSecretKey):",
        "if getattr(key, 'subkeys', None) and isinstance(key, TransferableSecretKey):"))]),
    ('label-flag', ['C08'], 'same', [(S, LABEL, """        secret = isinstance(key, TransferableSecretKey)
        data_type = (armor.PGP_PRIVATE_KEY_BLOCK if secret
                     else armor.PGP_PUBLIC_KEY_BLOCK)
""")]),
    ('label-attr', ['C08'], 'same', [(S, LABEL, """        data_type = armor.PGP_PUBLIC_KEY_BLOCK
        if key._secret:
            data_type = armor.PGP_PRIVATE_KEY_BLOCK
""")]),
    ('upload-as-is', ['C08'], 'bug', [(H, "key = key.to_public_key()", "pass")]),
    ('upload-locked', ['C08'], 'bug', [(H, "isinstance(key, TransferableSecretKey):",
                                        "isinstance(key, TransferableSecretKey) and not key.is_locked():")]),
    ('upload-refuse', ['C08'], 'same', [(H, "key = key.to_public_key()",
                                         "raise TypeError(key)")]),
    ('delete-order', ['C08'], 'bug', [(D, """                if resource.secret:
                    resource.delete_transferrable_key(key)
                    break
""", """                if resource.secret or True:
                    resource.delete_transferrable_key(key)
                    break
""")]),
    ('add-fallback', ['C08'], 'bug', [(D, """                if resource.secret:
                    resource.add_transferrable_key(key)
                    break
""", """                if resource.secret:
                    resource.add_transferrable_key(key)
                    break
            else:
                resource.add_transferrable_key(key)
""")]),
    ('update-public', ['C08'], 'bug', [(D, """                if not resource.secret:
                    resource.update_transferrable_key(key)
""", """                if not resource.secret or len(self._resources) > 2:
                    resource.update_transferrable_key(key)
""")]),
    ('ring-helper', ['C08'], 'same', [(D, """        if isinstance(key, TransferableSecretKey):
            for resource in self._resources.values():
                if resource.secret:
                    resource.update_transferrable_key(key)
                    break
        elif isinstance(key, TransferablePublicKey):
            for resource in self._resources.values():
                if not resource.secret:
                    resource.update_transferrable_key(key)
                    break
        else:
            raise TypeError
""", """        if not isinstance(key, TransferablePublicKey):
            raise TypeError
        secret = isinstance(key, TransferableSecretKey)
        for resource in self._resources.values():
            if bool(resource.secret) == secret:
                resource.update_transferrable_key(key)
                break
""")]),
    ('kind', ['C08'], 'bug', [(S, "return TransferableSecretKey.from_packets(packets)",
                               "return TransferablePublicKey.from_packets(packets)")]),
    ('subkey-class', ['C08'], 'bug', [(T, "    _SubkeyClass = SecretSubkey\n    _PublicClass",
                                       "    _PublicClass")]),
]
