U = 'pgp/utils.py'
P = 'pgp/packets/packets.py'
S = 'pgp/packets/signature_subpackets.py'
A = 'pgp/packets/user_attribute_subpackets.py'
CASES = [
 ('w-8383', ['C12'], 'bug', [(U, "    elif data_length < 8384:", "    elif data_length < 8383:")]),
 ('w-8385', ['C12'], 'bug', [(U, "    elif data_length < 8384:", "    elif data_length <= 8384:")]),
 ('w-shift', ['C12'], 'bug', [(U, "        result.append((data_length >> 24) & 0xff)\n", "        result.append((data_length >> 24) & 0x7f)\n")]),
 ('r-224', ['C12'], 'bug', [(U, "    elif length < 224:\n        length = ((length - 192) << 8) + data[offset] + 192", "    elif length < 223:\n        length = ((length - 192) << 8) + data[offset] + 192")]),
 ('r-stream-192', ['C12'], 'bug', [(U, "+ ord(fh.read(1)) + 192", "+ ord(fh.read(1)) + 191")]),
 ('r-partial-mask', ['C12'], 'bug', [(U, "        partial = True\n        length = 1 << (length & 0x1f)\n    return length", "        partial = True\n        length = 1 << (length & 0x0f)\n    return length")]),
 ('r-sub-254', ['C12'], 'bug', [(U, "    elif length < 255:", "    elif length < 254:")]),
 ('old-65535', ['C12'], 'bug', [(U, "    elif data_length < 65536:", "    elif data_length < 65535 * 2:")]),
 ('read-tag5', ['C12'], 'bug', [(P, "            tag = data[offset] & 0x3f", "            tag = data[offset] & 0x1f")]),
 ('crit-lost', ['C12'], 'bug', [(S, "critical = bool(tag & 0x80)", "critical = bool(tag & 0x40)")]),

 ('partial-remaining', ['C12'], 'bug', [(U, "        remaining = data_length - (2 ** 0x1e)", "        remaining = data_length - (2 ** 0x1e) - 1")]),
 ('partial-nondata', ['C12'], 'bug', [(P, "allow_partial = self.type in constants.DATA_TYPES", "allow_partial = True")]),
 ('w-struct', ['C12'], 'same', [(U, "import zlib\n", "import struct\nimport zlib\n"), (U, "        result.append((data_length >> 24) & 0xff)\n        result.append((data_length >> 16) & 0xff)\n        result.append((data_length >> 8) & 0xff)\n        result.append(data_length & 0xff)\n", "        result.extend(struct.pack('>I', data_length))\n")]),
 ('w-divmod', ['C12'], 'same', [(U, "        result.append((stored_length >> 8) + 192)\n        result.append(stored_length & 0xff)\n", "        high, low = divmod(stored_length, 256)\n        result.extend([high + 192, low])\n")]),
 ('w-helper', ['C12'], 'same', [(U, "def new_packet_length_to_bytes(", "def _two_octets(n):\n    n -= 192\n    return [192 + (n >> 8), n & 0xff]\n\n\ndef new_packet_length_to_bytes("), (U, "        stored_length = data_length - 192\n        result.append((stored_length >> 8) + 192)\n        result.append(stored_length & 0xff)\n", "        result.extend(_two_octets(data_length))\n")]),
 ('r-order', ['C12'], 'same', [(U, "    elif length < 224:\n        length = ((length - 192) << 8) + data[offset] + 192\n        offset += 1\n    elif length == 255:\n        length = long_to_int(data, offset)\n        offset += 4\n    else:\n        partial = True\n        length = 1 << (length & 0x1f)\n    return offset, length, partial", "    elif length == 255:\n        length = int.from_bytes(data[offset:offset + 4], 'big')\n        offset += 4\n    elif length >= 224:\n        return offset, 2 ** (length - 224), True\n    else:\n        length = (length - 192) * 256 + data[offset] + 192\n        offset += 1\n    return offset, length, partial")]),
 ('r-loop', ['C12'], 'same', [(P, "    packet_data = bytearray()\n    incomplete = True\n    tag = None\n    while incomplete:\n        if not tag:\n            tag = data[offset] & 0x3f", "    packet_data = bytearray()\n    incomplete = True\n    tag = None\n    while incomplete:\n        if tag is None:\n            tag = data[offset] % 64")]),
 ('w-bitor', ['C12'], 'same', [(P, "            tag += 0x40 + packet_type\n", "            tag |= 0x40 | packet_type\n")]),
 ('sub-helper', ['C12'], 'same', [(S, "        raw = self.type + (0x80 if self.critical else 0x00)\n        result.append(raw)", "        raw = self.type\n        if self.critical:\n            raw |= 0x80\n        result.append(raw)")]),
]
