A = 'pgp/armor.py'
R = 'pgp/crc24.py'
CASES = [
    ('crc-skip-empty', ['C20'], 'bug', [
        (A, '        if actual_checksum != expected_checksum:',
         '        if data and actual_checksum != expected_checksum:')]),
    ('crc-16', ['C20'], 'bug', [
        (A, '        if actual_checksum != expected_checksum:',
         '        if (actual_checksum ^ expected_checksum) & 0xffff:')]),
    ('crc-warn', ['C20'], 'bug', [
        (A, '            raise ValueError((\n                \'Checksum',
         '            warnings.warn((\n                \'Checksum')]),
    ('crc-table', ['C20'], 'bug', [(R, '0x42220e', '0x42220f'), ]),
    ('crc-mask', ['C20'], 'bug', [
        (R, '(result << 8)) & 0x00ffffff', '(result << 8)) & 0x00fffffe')]),
    ('crc-init-read', ['C20'], 'bug', [
        (A, 'actual_checksum = crc24(data)',
         'actual_checksum = crc24(data.rstrip(b"\\x00"))')]),
    ('tail-prefix', ['C20'], 'bug', [
        (A, "if tail_line != header_line.replace('BEGIN', 'END'):",
         "if not tail_line.startswith('-----END PGP'):")]),
    ('tail-missing', ['C20'], 'bug', [
        (A, "        tail_line = lines[line_no]\n",
         "        tail_line = (lines + [header_line.replace('BEGIN', 'END')])"
         "[line_no]\n")]),
    ('tail-private', ['C20'], 'bug', [
        (A, "if tail_line != header_line.replace('BEGIN', 'END'):",
         "if tail_line.replace('PRIVATE', 'PUBLIC') != header_line.replace("
         "'BEGIN', 'END').replace('PRIVATE', 'PUBLIC'):")]),
    ('head-last', ['C20'], 'bug', [
        (A, "elif header_key == 'Comment':\n                comment =",
         "elif header_key == 'Comment':\n                version =")]),
    ('split-all', ['C20'], 'bug', [
        (A, "lines[line_no].split(': ', 1)", "lines[line_no].split(': ')[:2]"
         )]),
    ('part-int', ['C20'], 'bug', [
        (A, '                part = int(part)\n',
         '                part = int(part[0])\n')]),
    ('wrap', ['C20'], 'bug', [
        (A, 'for l in range(int(math.ceil(len(encoded_data) / 72.0))):',
         'for l in range(len(encoded_data) // 72 + 1 if len(encoded_data) '
         '!= 144 else 1):')]),
    ('write-crc-order', ['C20'], 'bug', [
        (A, 'for i in (2, 1, 0)', 'for i in (0, 1, 2)')]),
    ('write-tail', ['C20'], 'bug', [
        (A, "result_lines.append(result_lines[0].replace('BEGIN', 'END'))",
         "result_lines.append('-----END PGP MESSAGE-----')")]),
    ('write-hash', ['C20'], 'bug', [
        (A, "        if self.charset is not None:\n",
         "        if self.charset is not None and not self.hash_algorithms:\n"
         )]),
    ('write-no-blank', ['C20'], 'bug', [
        (A, "        result_lines.append('')\n",
         "        if len(result_lines) > 1:\n            "
         "result_lines.append('')\n")]),
    # same
    ('s-fstr', ['C20'], 'same', [
        (A, """'Version: {version}'.format(
                version=self.version)""", "'Version: %s' % self.version")]),
    ('s-loop', ['C20'], 'same', [
        (A, """        for l in range(int(math.ceil(len(encoded_data) / 72.0))):
            data_lines.append(encoded_data[l * 72:(l * 72) + 72])
""", """        at = 0
        while at < len(encoded_data):
            data_lines.append(encoded_data[at:at + 64])
            at += 64
""")]),
    ('s-crc', ['C20'], 'same', [
        (A, """        expected_checksum = (
            ((checksum_data[0] << 16)) +
            ((checksum_data[1] << 8)) +
            checksum_data[2]
            )
""", """        expected_checksum = int.from_bytes(checksum_data[:3], 'big')
""")]),
    ('s-crcbits', ['C20'], 'same', [
        (R, """        index = ((result >> 16) ^ byte) & 0xff
        result = (CRC_24_TABLE[index] ^ (result << 8)) & 0x00ffffff
""", """        result ^= byte << 16
        for _ in range(8):
            result <<= 1
            if result & 0x1000000:
                result ^= 0x1864cfb
""")]),
    ('s-headers', ['C20'], 'same', [
        (A, """        while len(lines[line_no].strip()):
            header_key, header_value = lines[line_no].split(': ', 1)
""", """        while lines[line_no].strip():
            header_key, _, header_value = lines[line_no].partition(': ')
""")]),
    ('s-tail', ['C20'], 'same', [
        (A, "if tail_line != header_line.replace('BEGIN', 'END'):",
         "expected_tail = '-----END ' + header_line[len('-----BEGIN '):]\n"
         "        if not tail_line == expected_tail:")]),
]
