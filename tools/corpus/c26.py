P = 'pgp/parse.py'
S = 'pgp/signature.py'
CASES = [
    ('crit-private', ['C26'], 'bug', [
        (P, """        # private / experimental
        if sub.critical:
            raise CannotParseCritical(sub.subtype)
""", """        # private / experimental
        return
""")]),
    ('crit-reserved-18', ['C26'], 'bug', [
        (P, """        # raise ReservedSignatureSubpacket(sub.subtype)
        if sub.critical:""", """        # raise ReservedSignatureSubpacket(sub.subtype)
        if sub.critical and sub.subtype != 18:""")]),
    ('crit-hashed-only', ['C26'], 'bug', [
        (P, """        # raise InvalidSignatureSubpacket(sub.subtype)
        if sub.critical:""", """        # raise InvalidSignatureSubpacket(sub.subtype)
        if sub.critical and sub.hashed:""")]),
    ('crit-caught-inner', ['C26'], 'bug', [
        (P, "            parse_signature_subpacket(sub, signature, parent_type)\n"
            "            if sub.subtype not in (6, 16, 20, 32):",
         "            try:\n                parse_signature_subpacket(sub, "
         "signature, parent_type)\n            except CannotParseCritical:\n"
         "                continue\n"
         "            if sub.subtype not in (6, 16, 20, 32):")]),
    ('crit-stale', ['C26'], 'bug', [
        (P, """            try:
                key_ids = [public_key['key_id'], signable.get('key_id')]
""", """            try:
                if p.raw_sig_type == 0x18:
                    signature = {'sig_type': p.raw_sig_type}
                key_ids = [public_key['key_id'], signable.get('key_id')]
"""), (P, """                # The signature is in error, but not the key
                signature = None
""", """                # The signature is in error, but not the key
                if p.raw_sig_type != 0x18:
                    signature = None
""")]),
    ('note-known', ['C26'], 'bug', [
        (P, """        if sub.critical:
            # "If there is a critical notation, the criticality""",
         """        if sub.critical and notation and notation['namespace']:
            # "If there is a critical notation, the criticality""")]),
    ('note-human', ['C26'], 'bug', [
        (P, """        if sub.critical:
            # "If there is a critical notation, the criticality""",
         """        if sub.critical and not (notation and notation[
                'human_readable']):
            # "If there is a critical notation, the criticality""")]),
    ('note-object', ['C26'], 'bug', [
        (S, """        if subpacket.critical:
            # We""", """        if subpacket.critical and not subpacket.human_readable:
            # We""")]),
    ('local-crit', ['C26'], 'bug', [
        (P, "        if not exportable:\n", "        if not exportable and sub.critical:\n")]),
    ('local-bit', ['C26'], 'bug', [
        (P, "exportable = bool(sub.data[0])\n", "exportable = sub.data[0] != 1\n")]),
    ('local-direct', ['C26'], 'bug', [
        (P, "        if not exportable:\n", "        if not exportable and "
         "signature['sig_type'] != 0x1f:\n")]),
    ('local-kept', ['C26'], 'bug', [
        (P, """            except LocalCertificationSignature:
                signature = None
""", """            except LocalCertificationSignature:
                signature = {'sig_type': p.raw_sig_type,
                             'exportable': True}
""")]),
    ('kept-stop', ['C26'], 'bug', [
        (P, """                # The signature is in error, but not the key
                signature = None
""", """                # The signature is in error, but not the key
                break
""")]),
    ('s-merge', ['C26'], 'same', [
        (P, """            except CannotParseCritical:
                # The signature is in error, but not the key
                signature = None
            except LocalCertificationSignature:
                signature = None
""", """            except (CannotParseCritical, LocalCertificationSignature):
                # The signature is in error, but not the key
                continue
""")]),
    ('s-branches', ['C26'], 'same', [
        (P, """    elif sub.subtype > 99 and sub.subtype < 111:
        # private / experimental
        if sub.critical:
            raise CannotParseCritical(sub.subtype)
    elif sub.subtype in (0, 1, 8, 13, 14, 15, 17, 18, 19):
        # "An implementation SHOULD ignore any subpacket of a type that it
        #  does not recognize."
        # raise ReservedSignatureSubpacket(sub.subtype)
        if sub.critical:
            raise CannotParseCritical(sub.subtype)
    else:
""", "    else:\n")]),
]
