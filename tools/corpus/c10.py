P = 'pgp/packets/packets.py'
M = 'pgp/message.py'
U = 'pgp/utils.py'
S = 'pgp/s2k.py'
C = 'pgp/packets/constants.py'
CASES = [
 ('c10-checksum-low', ['C10'], 'bug', [(P, "        if expected_checksum != actual_checksum:\n            raise ValueError\n\n        return symmetric_algorithm, m[1:-2]", "        if (expected_checksum ^ actual_checksum) & 0xff:\n            raise ValueError\n\n        return symmetric_algorithm, m[1:-2]")]),
 ('c10-checksum-after', ['C10'], 'bug', [(P, "        checksum = sum(session_key) % 65536\n        session_key.insert(0, symmetric_algorithm)\n", "        session_key.insert(0, symmetric_algorithm)\n        checksum = sum(session_key) % 65536\n"), (P, "        actual_checksum = sum(m[1:-2]) % 65536\n        if expected", "        actual_checksum = sum(m[:-2]) % 65536\n        if expected")]),
 ('c10-checksum-255', ['C10'], 'bug', [(P, "            checksum >> 8,\n            checksum & 0xff\n            ]))\n        if public", "            checksum // 255,\n            checksum & 0xff\n            ]))\n        if public")]),
 ('c10-strip-key', ['C10'], 'bug', [(P, "        return symmetric_algorithm, m[1:-2]", "        return symmetric_algorithm, m[1:-2].lstrip(b'\\x00')")]),
 ('c10-no-sentinel', ['C10'], 'bug', [(P, "        if m == sentinel:\n            raise ValueError()\n", "        if m is None:\n            raise ValueError()\n")]),
 ('c10-elg-pad', ['C10'], 'bug', [(P, "        if not em.startswith(b'\\x00\\x02') or sep < 10:", "        if not em.startswith(b'\\x00\\x02') or sep < 2:")]),
 ('c10-elg-pad-type', ['C10'], 'bug', [(P, "        if not em.startswith(b'\\x00\\x02') or sep < 10:", "        if not em.startswith(b'\\x00') or sep < 10:")]),
 ('c10-elg-first-sep', ['C10'], 'bug', [(P, "        sep = em.find(b'\\x00', 2)", "        sep = em.rfind(b'\\x00', 2)")]),
 ('c10-rjust', ['C10'], 'bug', [(P, "            em = ems[0].rjust((secret_key_obj.size() + 8) // 8, b'\\x00')", "            em = ems[0].ljust((secret_key_obj.size() + 8) // 8, b'\\x00')")]),
 ('c10-sym-iv', ['C10'], 'bug', [(P, "            iv = bytearray([0] * block_size)\n            cipher = utils.get_symmetric_cipher(\n                        symmetric_algorithm, key, utils.CFB, iv)\n            encrypted_data", "            iv = bytearray([1] * block_size)\n            cipher = utils.get_symmetric_cipher(\n                        symmetric_algorithm, key, utils.CFB, iv)\n            encrypted_data")]),
 ('c10-sym-alg', ['C10'], 'bug', [(P, "            symmetric_algorithm = decrypted_data[0]\n            key = bytes", "            decrypted_data[0] = symmetric_algorithm\n            key = bytes")]),
 ('c10-sym-len', ['C10'], 'bug', [(P, "            key = bytes(decrypted_data[1:])", "            key = bytes(decrypted_data[1:25])")]),
 ('c10-same-sum', ['C10', 'C11'], 'same', [(P, "        actual_checksum = sum(m[1:-2]) % 65536\n        if expected", "        actual_checksum = 0\n        for octet in m[1:-2]:\n            actual_checksum = (actual_checksum + octet) & 0xffff\n        if expected")]),
 ('c10-same-build', ['C10', 'C11'], 'same', [(P, "        session_key.insert(0, symmetric_algorithm)\n        session_key.extend(bytearray([\n            checksum >> 8,\n            checksum & 0xff\n            ]))\n", "        session_key = (bytearray([symmetric_algorithm]) + session_key\n                       + utils.int_to_2byte(checksum))\n")]),
 ('c10-same-slice', ['C10', 'C11'], 'same', [(P, "        expected_checksum = (\n                (m[-2] << 8) +\n                m[-1]\n                )\n        actual_checksum = sum(m[1:-2]) % 65536\n        if expected_checksum != actual_checksum:\n            raise ValueError\n\n        return symmetric_algorithm, m[1:-2]", "        key = m[1:-2]\n        if utils.bytes_to_int(bytearray(m), len(m) - 2, 2) != sum(key) % 65536:\n            raise ValueError('Bad checksum')\n\n        return symmetric_algorithm, key")]),
 ('c11-nonzero', ['C11'], 'bug', [(P, "            key_id = '0' * 16\n        data = bytearray([self.version])", "            key_id = '0' * 15 + '1'\n        data = bytearray([self.version])")]),
 ('c11-read', ['C11'], 'bug', [(P, "        if key_id == '0' * 16:\n            key_id = None\n        offset += 8", "        if key_id == '0' * 8:\n            key_id = None\n        offset += 8")]),
 ('c11-hide', ['C11'], 'bug', [(M, "            if not hide_key_id:\n", "            if not (hide_key_id and self.key_id):\n")]),
 ('c11-recip', ['C11'], 'bug', [(M, "                PublicKeySessionKey(3, public_key=public_key,", "                PublicKeySessionKey(3, key_id=public_key.key_id, public_key=public_key,")]) if False else
 ('c11-short', ['C11'], 'bug', [(P, "        data.extend(utils.hex_to_bytes(key_id, 8))\n        data.append(self.public_key_algorithm)\n        data.extend(self.encrypted_session_key)", "        data.extend(utils.hex_to_bytes(key_id[:8].rjust(16, '0'), 8))\n        data.append(self.public_key_algorithm)\n        data.extend(self.encrypted_session_key)")]),
 # C13
 ('c13-s2k', ['C13', 'C19'], 'bug', [(S, "    1: SaltedS2K,\n    3: IteratedAndSaltedS2K,", "    1: SaltedS2K,\n    2: SaltedS2K,\n    3: IteratedAndSaltedS2K,")]),
 ('c13-const', ['C13'], 'bug', [(C, "REVOCABLE_SUBPACKET_TYPE = 7\n", "REVOCABLE_SUBPACKET_TYPE = 8\n")]),
 ('c13-const2', ['C13'], 'bug', [(C, "POLICY_URI_SUBPACKET_TYPE = 26\n", "POLICY_URI_SUBPACKET_TYPE = 24\n"), (C, "PREFERRED_KEY_SERVER_SUBPACKET_TYPE = 24\n", "PREFERRED_KEY_SERVER_SUBPACKET_TYPE = 26\n")]),
 # C18
 ('c18-cast-key', ['C18'], 'bug', [(U, "    3: 16,  # CAST5\n    4: 16,  # Blowfish\n    7: 16,", "    3: 16,  # CAST5\n    4: 32,  # Blowfish\n    7: 16,")]),
 ('c18-bf-block', ['C18'], 'bug', [(U, "    4: 8,  # Blowfish\n", "    4: 16,  # Blowfish\n")]),
 ('c18-fallback', ['C18'], 'bug', [(U, "        }.get(type_, None)\n    if cipher is None:", "        }.get(type_, AES)\n    if cipher is None:")]),
 ('c18-sha224', ['C18'], 'bug', [(U, "    elif type_ == 11:\n        return SHA224.new()\n    else:\n        raise UnsupportedDigestAlgorithm(type_)", "    elif type_ == 11:\n        return SHA224.new()\n    elif type_ < 8:\n        return RIPEMD.new()\n    else:\n        raise UnsupportedDigestAlgorithm(type_)")]),
 ('c18-ec', ['C18'], 'bug', [(U, "        # ec\n        raise UnsupportedPublicKeyAlgorithm(18)", "        # ec\n        return ElGamal.construct")]),
 ('c18-elg-verify', ['C18'], 'bug', [(U, "    if pub_algorithm_type in (1, 3):\n        # RSA\n        # The signature", "    if pub_algorithm_type in (1, 2, 3):\n        # RSA\n        # The signature")]),
 ('c18-sign-any', ['C18'], 'bug', [(U, "        # TODO: complete\n        raise ValueError\n\n\ndef verify_hash", "        # TODO: complete\n        return secret_key.sign(hash_.digest(), k)\n\n\ndef verify_hash")]),
 ('c18-same-table', ['C18', 'C03', 'C17', 'C07'], 'same', [(U, "    if type_ == 1:\n        return MD5.new()\n    elif type_ == 2:\n        return SHA.new()\n    elif type_ == 3:\n        return RIPEMD.new()\n    elif type_ == 8:\n        return SHA256.new()\n    elif type_ == 9:\n        return SHA384.new()\n    elif type_ == 10:\n        return SHA512.new()\n    elif type_ == 11:\n        return SHA224.new()\n    else:\n        raise UnsupportedDigestAlgorithm(type_)", "    table = {1: MD5, 2: SHA, 3: RIPEMD, 8: SHA256, 9: SHA384, 10: SHA512,\n             11: SHA224}\n    try:\n        module = table[type_]\n    except KeyError:\n        raise UnsupportedDigestAlgorithm(type_)\n    return module.new()")]),
 ('c18-same-ctor', ['C18'], 'same', [(U, "    if type_ == 1:\n        # rsa encrypt or sign\n        return RSA.construct\n    elif type_ == 2:\n        # rsa encrypt only\n        # invalid for signing\n        return RSA.construct\n    elif type_ == 3:\n        # rsa sign only\n        return RSA.construct\n", "    if type_ in (1, 2, 3):\n        return RSA.construct\n")]),
 # C19
 ('c19-len2', ['C19'], 'bug', [(S, "        len2 = len(passphrase) + 8\n", "        len2 = len(passphrase) + len(self.salt)\n")]) if False else
 ('c19-less', ['C19'], 'bug', [(S, "        if count is None or count < len2:", "        if count is None:")]),
 ('c19-order', ['C19'], 'bug', [(S, "hash_.update((bytes(self.salt) + bytes(passphrase))[:to_write])", "hash_.update((bytes(passphrase) + bytes(self.salt))[:to_write])")]),
 ('c19-floor', ['C19'], 'bug', [(S, "math.ceil(count / float(len2))", "count // len2")]),
 ('c19-preload', ['C19'], 'bug', [(S, "bytearray([0x00] * pass_)", "bytearray([pass_] * pass_)")]),
 ('c19-right', ['C19'], 'bug', [(S, "        return result[:required_length]", "        return result[-required_length:]")]),
 ('c19-hash', ['C19'], 'bug', [(S, "        while (pass_ * hash_length) < required_length:", "        while (pass_ * hash_length) <= required_length:"), (S, "        return result[:required_length]", "        return result[:required_length] if pass_ < 2 else result[:required_length]")][:1]) if False else
 ('c19-salt-len', ['C19'], 'bug', [(S, "        salt = data[offset:offset + 8]\n        offset += 8\n        count", "        salt = data[offset:offset + 8]\n        offset += 9\n        count")]),
 ('c19-same-loop', ['C19', 'C06', 'C10'], 'same', [(S, "            for i in range(math.ceil(count / float(len2))):\n                to_write = min(len2, count - (len2 * i))\n                hash_.update((bytes(self.salt) + bytes(passphrase))[:to_write])\n", "            block = bytes(self.salt) + bytes(passphrase)\n            left = count\n            while left > 0:\n                hash_.update(block[:left])\n                left -= len2\n")]),
 ('c19-same-while', ['C19', 'C06', 'C10'], 'same', [(S, "        while (pass_ * hash_length) < required_length:", "        while len(result) < required_length:")]),
]
