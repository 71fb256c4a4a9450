U, M, T, P, S, A = ('pgp/utils.py', 'pgp/message.py',
                    'pgp/transferrable_keys.py', 'pgp/packets/packets.py',
                    'pgp/signature.py', 'pgp/armor.py')
CASES = [
    ('c30-sign', ['C30'], 'bug', [(T, "        hashed_subpackets = list(hashed_subpackets or [])\n", "        hashed_subpackets = hashed_subpackets or []\n")]),
    ('c30-packet', ['C30'], 'bug', [(S, "packet.hashed_subpackets[:]\n            unhashed_subpackets = packet.unhashed_subpackets[:]", "packet.hashed_subpackets\n            unhashed_subpackets = packet.unhashed_subpackets")]),
    ('c30-decrypt', ['C30'], 'bug', [(M, "        encrypted_data = bytes(self.data)\n        decrypted_data = bytearray()", "        encrypted_data = self.data\n        decrypted_data = bytearray()")]),
    ('c30-to-packets', ['C30'], 'bug', [(M, "        packets = []\n        for k in self.session_keys:\n            p = k", "        packets = self.packets\n        for k in self.session_keys:\n            p = k"), (M, "        self.session_keys = session_keys\n        self.message_data_obj", "        self.session_keys = session_keys\n        self.packets = []\n        self.message_data_obj")]),
    ('c30-default', ['C30'], 'bug', [(M, "    def __init__(self, signatures, message, one_pass=True):", "    def __init__(self, signatures=[], message=None, one_pass=True):")]),
    ('c30-recipients', ['C30'], 'bug', [(M, "        for public_key in hidden_public_keys:\n", "        while hidden_public_keys:\n            public_key = hidden_public_keys.pop(0)\n")]),
    ('c30-headers', ['C30'], 'bug', [(A, "            for k, v in dict(self.extra_headers).items():", "            self.extra_headers.pop('Version', None)\n            for k, v in dict(self.extra_headers).items():")]),
    ('c30-public', ['C30'], 'bug', [(T, "        key.user_ids = list(self.user_ids)\n", "        key.user_ids = self.user_ids\n")]),
    ('c30-signable', ['C30'], 'bug', [(S, "    hash_", "    hash_")] if False else [(U, "    data_to_hash.append", "    data_to_hash.append")] if False else [(T, "        for sig in self.signatures:\n            packets.append(sig.to_packet(header_format))\n        for user_id in self.user_ids:", "        self.signatures.sort(key=lambda s: s.creation_time)\n        for sig in self.signatures:\n            packets.append(sig.to_packet(header_format))\n        for user_id in self.user_ids:")]),
    ('c30-subpackets', ['C30'], 'bug', [(S, "            hashed_subpackets = self.hashed_subpackets\n            unhashed", "            hashed_subpackets = self.hashed_subpackets\n            hashed_subpackets.sort(key=lambda s: s.type)\n            unhashed")]),
    ('c30-helper', ['C30'], 'bug', [(T, "        hashed_subpackets = list(hashed_subpackets or [])\n", "        hashed_subpackets = self._first(hashed_subpackets)\n"), (T, "    def unlock(self, passphrase):\n        # TODO: Check encoding\n", "    def _first(self, subpackets):\n        if subpackets is None:\n            return []\n        return subpackets\n\n    def unlock(self, passphrase):\n        # TODO: Check encoding\n")]),
    ('c30-class', ['C30'], 'bug', [(S, "    def _add_subpacket(self, sp, hashed=True):\n", "    added = []\n\n    def _add_subpacket(self, sp, hashed=True):\n        self.added.append(sp)\n")]),
    ('c30-same-copy', ['C30'], 'same', [(T, "        hashed_subpackets = list(hashed_subpackets or [])\n", "        given = hashed_subpackets\n        hashed_subpackets = []\n        if given:\n            hashed_subpackets.extend(given)\n")]),
    ('c30-same-cache', ['C30'], 'same', [(A, "            for k, v in dict(self.extra_headers).items():", "            extra = dict(self.extra_headers)\n            extra.setdefault('a', '')\n            extra.pop('a')\n            for k, v in dict(self.extra_headers).items():")]),
    ('c30-same-out', ['C30'], 'same', [(M, "        packets = []\n        for k in self.session_keys:\n            p = k.to_packet(header_format)\n            if p is not None:\n                packets.append(p)\n        packets.extend(self.message_data_obj.to_packets(header_format))\n        return packets\n", "        packets = []\n        self.collect(packets, header_format)\n        packets.extend(self.message_data_obj.to_packets(header_format))\n        return packets\n\n    def collect(self, out, header_format):\n        for k in self.session_keys:\n            p = k.to_packet(header_format)\n            if p is not None:\n                out.append(p)\n")]),
    ('c30-same-split', ['C30'], 'same', [(M, "        if session_key is None:\n            key_len = utils.symmetric_cipher_key_lengths[symmetric_algorithm]\n            session_key = Random.new().read(key_len)\n        session_key_objs = []\n", "        if session_key is None:\n            key_len = utils.symmetric_cipher_key_lengths[symmetric_algorithm]\n            session_key = Random.new().read(key_len)\n        public_keys = list(public_keys)\n        public_keys += []\n        session_key_objs = []\n")]),
]
