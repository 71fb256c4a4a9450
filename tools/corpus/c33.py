M = 'pgp/message.py'
U = 'pgp/utils.py'
P = 'pgp/packets/packets.py'
T = 'pgp/transferrable_keys.py'
CASES = [
 ('c33-esk-last', ['C33'], 'bug', [(M, "            session_keys.append(parse_session_key_packet(packet))\n", "            session_keys = [parse_session_key_packet(packet)]\n")]),
 ('c33-esk-end', ['C33'], 'bug', [(M, "            if not packets:\n                raise TypeError('Encrypted data missing')\n            packet = packets.popleft()\n\n        if not", "            if not packets:\n                return cls(session_keys, None)\n            packet = packets.popleft()\n\n        if not")]),
 ('c33-esk-unique', ['C33'], 'bug', [(M, "            session_keys.append(parse_session_key_packet(packet))\n", "            k = parse_session_key_packet(packet)\n            if not session_keys or type(k) is not type(session_keys[-1]):\n                session_keys.append(k)\n")]),
 ('c33-nested-all', ['C33'], 'bug', [(M, "            if one_pass and packet.nested:\n", "            if one_pass and not packet.nested:\n")]),
 ('c33-match-one', ['C33'], 'bug', [(M, "            for _ in leading:\n                if not packets", "            for _ in leading[:2]:\n                if not packets")]),
 ('c33-match-any', ['C33'], 'bug', [(M, "                if not packets or \\\n                        packets[0].type != C.SIGNATURE_PACKET_TYPE:\n", "                if not packets:\n")]),
 ('c33-match-missing', ['C33'], 'bug', [(M, "                    raise TypeError('Signature missing')\n", "                    break\n")]),
 ('c33-trailing', ['C33'], 'bug', [(M, "    if pkts:\n        raise TypeError('Packets after", "    if len(pkts) > 1:\n        raise TypeError('Packets after")]),
 ('c33-write-order', ['C33'], 'bug', [(M, "            for sig in reversed(self.signatures):\n", "            for sig in self.signatures:\n")]),
 ('c33-write-nested', ['C33'], 'bug', [(M, "nested=(sig is self.signatures[0])", "nested=(sig is self.signatures[-1])")]),
 ('c33-write-alg', ['C33'], 'bug', [(M, "                        sig.hash_algorithm,\n                        sig.public_key_algorithm,\n                        sig.issuer_key_ids[0]", "                        sig.public_key_algorithm,\n                        sig.hash_algorithm,\n                        sig.issuer_key_ids[0]")]),
 ('c33-write-issuer', ['C33'], 'bug', [(M, "                        sig.issuer_key_ids[0],\n", "                        self.signatures[0].issuer_key_ids[0],\n")]),
 ('c33-write-type', ['C33'], 'bug', [(M, "                        sig.signature_type,\n                        sig.hash", "                        self.signatures[0].signature_type,\n                        sig.hash")]),
 ('c33-write-detached', ['C33'], 'bug', [(M, "            pkts.extend(signature_packets)\n            pkts.extend(message_packets)\n", "            pkts.extend(message_packets)\n            pkts.extend(signature_packets)\n")]),
 ('c33-write-esk', ['C33'], 'bug', [(M, "            p = k.to_packet(header_format)\n            if p is not None:\n                packets.append(p)\n", "            p = k.to_packet(header_format)\n            if p is not None:\n                packets.insert(0, p)\n")]),
 ('c33-compressed', ['C33'], 'bug', [(M, "        pkts = packets.CompressedDataPacket.decompress_data(\n            self.compression_algorithm, self.data)\n        return open", "        pkts = packets.CompressedDataPacket.decompress_data(\n            self.compression_algorithm, self.data)[-1:]\n        return open")]),
 ('c33-literal-name', ['C33'], 'bug', [(M, "        filename = packet.filename\n        timestamp = datetime", "        filename = packet.filename.strip()\n        timestamp = datetime")]),
 ('c33-binary-text', ['C33'], 'bug', [(M, "                    header_format, b'b', self.filename", "                    header_format, b'u', self.filename")]),
 ('c33-same-loop', ['C33'], 'same', [(M, "            for _ in leading:\n                if not packets or \\\n                        packets[0].type != C.SIGNATURE_PACKET_TYPE:\n                    raise TypeError('Signature missing')\n                signature_packets.append(packets.popleft())\n", "            while len(signature_packets) != len(leading):\n                if packets and packets[0].type == C.SIGNATURE_PACKET_TYPE:\n                    signature_packets.append(packets.popleft())\n                else:\n                    raise TypeError('A signature is missing')\n")]),
 ('c33-same-index', ['C33'], 'same', [(M, "            for sig in reversed(self.signatures):\n", "            for n in range(len(self.signatures) - 1, -1, -1):\n                sig = self.signatures[n]\n"), (M, "nested=(sig is self.signatures[0])", "nested=(n == 0)")]),
 ('c33-same-table', ['C33'], 'same', [(M, "    if packet_type in encrypted_message_packet_types:\n        return EncryptedMessageWrapper.from_packets(pkts)\n    elif packet_type in (C.ONE_PASS_SIGNATURE_PACKET_TYPE,\n                         C.SIGNATURE_PACKET_TYPE):\n        return SignedMessageWrapper.from_packets(pkts)\n", "    sequences = dict.fromkeys(encrypted_message_packet_types,\n                              EncryptedMessageWrapper)\n    sequences[C.ONE_PASS_SIGNATURE_PACKET_TYPE] = SignedMessageWrapper\n    sequences[C.SIGNATURE_PACKET_TYPE] = SignedMessageWrapper\n    if packet_type in sequences:\n        return sequences[packet_type].from_packets(pkts)\n")]),
 ('c33-same-esk', ['C33'], 'same', [(M, "        packets = []\n        for k in self.session_keys:\n            p = k.to_packet(header_format)\n            if p is not None:\n                packets.append(p)\n        packets.extend(self.message_data_obj.to_packets(header_format))\n        return packets", "        written = [k.to_packet(header_format) for k in self.session_keys]\n        return ([p for p in written if p is not None] +\n                self.message_data_obj.to_packets(header_format))")]),
 ('c33-same-split', ['C33'], 'same', [(M, "        leading = []\n        while packets and packets[0].type == leading_type:\n            packet = packets.popleft()\n            leading.append(packet)\n            if one_pass and packet.nested:\n                # The next packet begins the signed message.\n                break\n        message", "        leading = [packets.popleft()]\n        while packets and packets[0].type == leading_type and \\\n                not (one_pass and leading[-1].nested):\n            leading.append(packets.popleft())\n        message")]),
 # C35
 ('c35-len16', ['C35'], 'bug', [(U, "                (pubkey_length >> 8) & 0xff,\n                pubkey_length & 0xff\n            )\n        sha1", "                (pubkey_length >> 8) & 0x0f,\n                pubkey_length & 0xff\n            )\n        sha1")]),
 ('c35-v3-leading', ['C35'], 'bug', [(U, "            md5.update(int_to_bytes(packet.exponent))\n", "            md5.update(int_to_bytes(packet.exponent, 3))\n")]),
 ('c35-v3-types', ['C35'], 'bug', [(U, "        if packet.public_key_algorithm in (1, 2, 3):\n            md5", "        if packet.public_key_algorithm in (1, 2):\n            md5")]),
 ('c35-hex-lower', ['C35'], 'bug', [(U, "        fingerprint = sha1.hexdigest().upper()", "        fingerprint = sha1.hexdigest()")]),
 ('c35-content', ['C35'], 'bug', [(U, "        pubkey_data = packet.public_content\n", "        pubkey_data = packet.content\n")]),
 ('c35-keyid', ['C35'], 'bug', [(P, "        return self.fingerprint[-16:]\n\n    @property\n    def fingerprint", "        return self.fingerprint[:16]\n\n    @property\n    def fingerprint")]),
 ('c35-keyid-v3', ['C35'], 'bug', [(T, "            if self.public_key_algorithm in (1, 2, 3):\n                n = self.modulus_n\n", "            if self.public_key_algorithm in (1, 2, 3):\n                n = self.exponent_e\n")]),
 ('c35-keyid-v3b', ['C35'], 'bug', [(P, "            return utils.int_to_hex(self.modulus, 16)\n", "            return utils.int_to_hex(self.modulus >> 1, 16)\n")]),
 ('c35-same-pack', ['C35'], 'same', [(U, "        seed_bytes = (\n                0x99,\n                (pubkey_length >> 8) & 0xff,\n                pubkey_length & 0xff\n            )\n        sha1.update(bytearray(seed_bytes))\n        sha1.update(pubkey_data)\n", "        sha1.update(bytearray([0x99]) + int_to_2byte(pubkey_length) +\n                    bytearray(pubkey_data))\n")]),
 ('c35-same-early', ['C35'], 'same', [(U, "        fingerprint = sha1.hexdigest().upper()\n    return fingerprint", "        return sha1.hexdigest().upper()\n    return fingerprint")]),
 ('c35-same-hex', ['C35'], 'same', [(P, "        return self.fingerprint[-16:]\n\n    @property\n    def fingerprint", "        fpr = self.fingerprint\n        return fpr[len(fpr) - 16:]\n\n    @property\n    def fingerprint")]),
]
