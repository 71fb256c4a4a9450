P = 'pgp/packets/packets.py'
S = 'pgp/packets/signature_subpackets.py'
A = ['C13', 'C14', 'C15', 'C16', 'C36']
def b(n, f, o, w, props=A):
    return (n, props, 'bug', [(f, o, w)])
def s(n, f, o, w, props=A + ['C25', 'C03']):
    return (n, props, 'same', [(f, o, w)])
CASES = [
 b('c15-tag-mask', S, "    subpacket_type = tag & 0x7f\n", "    subpacket_type = tag & 0x3f\n"),
 b('c15-critical', S, "    critical = bool(tag & 0x80)\n", "    critical = bool(tag & 0x80) and subpacket_type < 64\n"),
 b('c15-unknown', S, "SIGNATURE_SUBPACKET_TYPES.get(subpacket_type, SignatureSubpacket)", "SIGNATURE_SUBPACKET_TYPES.get(subpacket_type, UserIDSubpacket)"),
 b('c15-kf-ext', S, "        data[0] = (\n            (data[0] & 0x40) +", "        data = data[:1]\n        data[0] = (\n            (data[0] & 0x40) +"),
 b('c15-kf-40', S, "            (data[0] & 0x40) +", "            (data[0] & 0x00) +"),
 b('c15-kf-split-auth', S, "        may_be_used_for_auth = bool(known_flags & 0x20)\n", "        may_be_used_for_auth = bool(known_flags & 0x30)\n"),
 b('c15-features', S, "        data[0] = (data[0] & 0xfe) | (", "        data[0] = ("),
 b('c15-ksp', S, "        data[0] = (data[0] & 0x7f) | (0x80", "        data[0] = (data[0] | 0x80 if False else data[0]) | (0x80"),
 b('c15-rk-flags', S, "sensitive=sensitive, other_flags=tag & 0x3f)", "sensitive=sensitive, other_flags=tag & 0x1f)"),
 b('c15-rk-other', S, "tag = 0x80 + (0x40 if self.sensitive else 0x00) + self.other_flags", "tag = 0x80 + (0x40 if self.sensitive else self.other_flags)"),
 b('c15-regex', S, "        pattern = sub_data[:-1].decode('ascii', 'surrogateescape')", "        pattern = sub_data.rstrip(b'\\x00').decode('ascii', 'surrogateescape')"),
 b('c15-reason', S, "revocation_reason = sub_data[1:].decode('utf8', 'surrogateescape')", "revocation_reason = sub_data[1:].decode('utf8', 'ignore')"),
 b('c15-uri', S, "        uri = sub_data.decode('utf8', 'surrogateescape')", "        uri = sub_data.decode('utf8', 'surrogateescape').strip()"),
 b('c15-trust', S, "        depth = int(sub_data[0])\n        amount = int(sub_data[1])\n", "        amount = int(sub_data[0])\n        depth = int(sub_data[1])\n", ['C25', 'C13', 'C15', 'C16']),
 b('c15-notation-len', S, "        data.extend(utils.int_to_2byte(len(raw_name)))\n        data.extend(utils.int_to_2byte(len(raw_value)))\n", "        data.extend(utils.int_to_2byte(len(self.name)))\n        data.extend(utils.int_to_2byte(len(raw_value)))\n"),
 b('c15-target', S, "        hash_ = utils.bytearray_to_hex(sub_data, 2, 2 * hash_length)", "        hash_ = utils.bytearray_to_hex(sub_data, 2, min(2 * hash_length, 40))"),
 b('c15-parsed-length', S, "    result._parsed_length = parsed_length\n", ""),
 b('c15-v3-key', P, "            data.append(0x05)\n            data.append(self.signature_type)\n", "            data.append(0x05)\n            data.append(self.signature_type & 0x7f)\n"),
 b('c15-unhashed-lost', P, "            data.extend(utils.int_to_2byte(len(unhashed_subpacket_data)))\n            data.extend(unhashed_subpacket_data)\n", "            unhashed_subpacket_data = unhashed_subpacket_data[:255]\n            data.extend(utils.int_to_2byte(len(unhashed_subpacket_data)))\n            data.extend(unhashed_subpacket_data)\n"),
 b('c15-sigvals', P, "            if value is None:\n                continue\n            data.extend", "            if not value:\n                continue\n            data.extend"),
 b('c15-eq-hash2', P, "            and self.hash2 == other.hash2\n            and self.signature_values == other.signature_values\n", "            and self.signature_values == other.signature_values\n"),
 b('c15-eq-keyid', P, "                or (self.creation_time == other.creation_time\n                    and self.key_id == other.key_id))", "                or (self.creation_time == other.creation_time))"),
 b('c15-trailer6', P, "hashed_subpacket_length + 6))", "(hashed_subpacket_length + 6) & 0xffff))", ['C03']),
 b('c15-trailer-unh', P, "            for sp in self.hashed_subpackets:\n                hashed_subpacket_data.extend(bytes(sp))\n\n            hashed_subpacket_length", "            for sp in self.hashed_subpackets:\n                if sp.content:\n                    hashed_subpacket_data.extend(bytes(sp))\n\n            hashed_subpacket_length", ['C03']),
 b('c15-embedded', P, "        packet_data = self._get_content([])\n        result = bytearray([0x88])", "        packet_data = self._get_content(self.unhashed_subpackets)\n        result = bytearray([0x88])", ['C03']),
 b('c15-skesk-key', P, "        if self.encrypted_session_key is not None:\n            data.extend(self.encrypted_session_key)\n\n        return data", "        if self.encrypted_session_key is not None:\n            data.extend(self.encrypted_session_key[:33])\n\n        return data"),
 s('c15-same-flags', S, "        data[0] = (\n            (data[0] & 0x40) +\n            (0x01 if self.may_certify_others else 0x00) +\n            (0x02 if self.may_sign_data else 0x00) +\n            (0x04 if self.may_encrypt_comms else 0x00) +\n            (0x08 if self.may_encrypt_storage else 0x00) +\n            (0x10 if self.may_have_been_split else 0x00) +\n            (0x20 if self.may_be_used_for_auth else 0x00) +\n            (0x80 if self.may_have_multiple_owners else 0x00)\n            )\n",
   "        octet = data[0] & 0x40\n        for bit, on in ((0x01, self.may_certify_others),\n                        (0x02, self.may_sign_data),\n                        (0x04, self.may_encrypt_comms),\n                        (0x08, self.may_encrypt_storage),\n                        (0x10, self.may_have_been_split),\n                        (0x20, self.may_be_used_for_auth),\n                        (0x80, self.may_have_multiple_owners)):\n            if on:\n                octet |= bit\n        data[0] = octet\n"),
 s('c15-same-parse', S, "    start = offset\n    offset, length = utils.subpacket_length(data, offset)\n    parsed_length = data[start:offset]\n    tag = data[offset]\n    subpacket_type = tag & 0x7f\n    critical = bool(tag & 0x80)\n    length -= 1  # Since we've parsed the tag from the data\n    offset += 1\n    sub_data = data[offset:offset + length]\n    offset += length\n", "    body, length = utils.subpacket_length(data, offset)\n    parsed_length = data[offset:body]\n    end = body + length\n    tag = data[body]\n    critical, subpacket_type = tag >= 0x80, tag % 0x80\n    sub_data = data[body + 1:end]\n    offset = end\n"),
 s('c15-same-helper', P, "            hashed_subpacket_data = bytearray()\n            unhashed_subpacket_data = bytearray()\n            for sp in self.hashed_subpackets:\n                hashed_subpacket_data.extend(bytes(sp))\n            for sp in unhashed_subpackets:\n                unhashed_subpacket_data.extend(bytes(sp))\n\n            data.extend(utils.int_to_2byte(len(hashed_subpacket_data)))\n            data.extend(hashed_subpacket_data)\n            data.extend(utils.int_to_2byte(len(unhashed_subpacket_data)))\n            data.extend(unhashed_subpacket_data)\n", "            for area in (self.hashed_subpackets, unhashed_subpackets):\n                raw = bytearray(b''.join(bytes(sp) for sp in area))\n                data += utils.int_to_2byte(len(raw)) + raw\n"),
 s('c15-same-areas', P, "            length = utils.short_to_int(data, offset)\n            offset += 2\n            subpacket_end = offset + length\n            hashed_subpackets = []\n            while offset < subpacket_end:\n                hashed_subpacket, offset = \\\n                    signature_subpacket_from_data(data, offset)\n                hashed_subpackets.append(hashed_subpacket)\n\n            length = utils.short_to_int(data, offset)\n            offset += 2\n            subpacket_end = offset + length\n            unhashed_subpackets = []\n            while offset < subpacket_end:\n                unhashed_subpacket, offset = \\\n                    signature_subpacket_from_data(data, offset)\n                unhashed_subpackets.append(unhashed_subpacket)\n", "            areas = []\n            for _ in range(2):\n                end = offset + 2 + utils.short_to_int(data, offset)\n                offset += 2\n                area = []\n                while offset < end:\n                    subpacket, offset = signature_subpacket_from_data(\n                        data, offset)\n                    area.append(subpacket)\n                areas.append(area)\n            hashed_subpackets, unhashed_subpackets = areas\n"),
]
