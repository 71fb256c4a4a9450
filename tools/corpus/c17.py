U = 'pgp/utils.py'
CASES = [
 ('mpi-float', ['C17'], 'bug', [(U, "    bits_required = i.bit_length()\n    bytes_required = (bits_required + 7) // 8\n    result = bytearray() +", "    bits_required = int(math.floor(float(math.log(i, 2)))) + 1\n    bytes_required = (bits_required + 7) // 8\n    result = bytearray() +")]),
 ('mpi-bytes-as-bits', ['C17'], 'bug', [(U, "int_to_2byte(bits_required)", "int_to_2byte(bytes_required * 8)")]),
 ('mpi-len-floor', ['C17'], 'bug', [(U, "    return int(math.ceil(mpi_bit_length / 8.0))", "    return (mpi_bit_length + 6) // 8")]),
 ('mpi-offset', ['C17'], 'bug', [(U, "    offset += mpi_byte_length\n    return result, offset", "    offset += max(mpi_byte_length, 1)\n    return result, offset")]),
 ('s2k-mask', ['C17'], 'bug', [(U, "bits = (i >> shift) & 15", "bits = (i >> shift) & 7")]),
 ('s2k-max', ['C17'], 'bug', [(U, "if i > 65011712", "if i > 64011712")]),
 ('s2k-noreject', ['C17'], 'bug', [(U, "    if i & ((1 << shift) - 1):\n        raise ValueError(i)\n", "")]),
 ('hex-noalign', ['C17'], 'bug', [(U, "        result = result[-expected_length:]\n    return result\n\n\ndef bytearray", "        result = result[:expected_length]\n    return result\n\n\ndef bytearray")]),
 ('hex-nopad', ['C17'], 'bug', [(U, "result += '{:02X}'.format(arr[i]).upper()", "result += '{:X}'.format(arr[i]).upper()")]),
 ('int4-shift', ['C17'], 'bug', [(U, "            (i >> 24) & 0xff,\n            (i >> 16) & 0xff,\n            (i >> 8) & 0xff,\n            i & 0xff\n        ])\n\n\ndef int_to_8byte", "            (i >> 24) & 0x7f,\n            (i >> 16) & 0xff,\n            (i >> 8) & 0xff,\n            i & 0xff\n        ])\n\n\ndef int_to_8byte")]),
 ('int8-dup', ['C17'], 'bug', [(U, "(i >> 40) & 0xff", "(i >> 32) & 0xff")]),
 ('inttobytes-strip', ['C17'], 'bug', [(U, "         for j in range(bytes_required - 1, -1, -1)", "         for j in range(bytes_required - 1, 0, -1)")]),
 # behaviour-preserving
 ('mpi-tobytes', ['C17'], 'same', [(U, "    for b in range(bytes_required - 1, -1, -1):\n        result.append((i >> (b * 8)) & 0xff)\n    return result", "    result.extend(i.to_bytes(bytes_required, 'big'))\n    return result")]),
 ('mpi-while', ['C17'], 'same', [(U, "    for b in range(bytes_required - 1, -1, -1):\n        result.append((i >> (b * 8)) & 0xff)\n    return result", "    b = bytes_required - 1\n    while b >= 0:\n        result.append((i >> (8 * b)) & 0xff)\n        b -= 1\n    return result")]),
 ('mpi-lenbin', ['C17'], 'same', [(U, "    bits_required = i.bit_length()\n    bytes_required = (bits_required + 7) // 8\n    result = bytearray() +", "    bits_required = len(bin(i)) - 2\n    bytes_required = -(-bits_required // 8)\n    result = bytearray() +")]),
 ('b2i-frombytes', ['C17'], 'same', [(U, "    result = 0\n    for i in range(length):\n        shift = 8 * (length - i - 1)\n        result += bytes_[offset + i] << shift\n    return result", "    return int.from_bytes(bytes_[offset:offset + length], 'big')")]),
 ('b2i-horner', ['C17'], 'same', [(U, "    for i in range(length):\n        shift = 8 * (length - i - 1)\n        result += bytes_[offset + i] << shift\n    return result", "    for octet in bytes_[offset:offset + length]:\n        result = (result << 8) | octet\n    return result")]),
 ('int4-struct', ['C17'], 'same', [(U, "import zlib\n", "import struct\nimport zlib\n"), (U, "    return bytearray([\n            (i >> 24) & 0xff,\n            (i >> 16) & 0xff,\n            (i >> 8) & 0xff,\n            i & 0xff\n        ])\n\n\ndef int_to_8byte", "    return bytearray(struct.pack('>I', i & 0xffffffff))\n\n\ndef int_to_8byte")]),
 ('hex-unhexlify', ['C17'], 'same', [(U, "import zlib\n", "import binascii\nimport zlib\n"), (U, "    for i in range(int(len(hex_val) / 2)):\n        idx = i * 2\n        result.append(int(hex_val[idx:idx + 2], 16))\n", "    result.extend(binascii.unhexlify(hex_val))\n")]),
 ('hex-join', ['C17'], 'same', [(U, "    while i < end:\n        result += '{:02X}'.format(arr[i]).upper()\n        i += 1\n", "    result = ''.join('%02X' % octet for octet in arr[i:end])\n")]),
 ('hex-inline-helper', ['C17'], 'same', [(U, "def bytearray_to_hex(", "def _hex_octet(o):\n    return '{0:02X}'.format(o)\n\n\ndef bytearray_to_hex("), (U, "        result += '{:02X}'.format(arr[i]).upper()\n        i += 1\n", "        result = result + _hex_octet(arr[i])\n        i = i + 1\n")]),
 ('s2k-lookup', ['C17'], 'same', [(U, "    return (16 + (byte & 15)) << ((byte >> 4) + EXPBIAS)", "    mantissa = 16 + (byte & 0x0f)\n    exponent = byte // 16 + EXPBIAS\n    return mantissa * (2 ** exponent)")]),
]
