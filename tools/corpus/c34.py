M = 'pgp/merge.py'
CASES = [
    ('c34-sig-time', ['C34'], 'bug', [(M, "    return packet_key(sig)\n", "    return (sig.version, sig.signature_type, sig.public_key_algorithm,\n            sig.hash_algorithm, sig.creation_time,\n            tuple(sig.issuer_key_ids))\n")]),
    ('c34-new-part-empty', ['C34'], 'bug', [(M, """            parts.append(part)
        adopt""", """            parts.append(part)
            continue
        adopt""")]),
    ('c34-casefold', ['C34'], 'bug', [(M, "    return packet_key(part)\n", "    t, content = packet_key(part)\n    return (t, content.lower())\n")]),
    ('c34-first-match', ['C34'], 'bug', [(M, """            key = merge(key, candidate_key)
""", """            key = merge(key, candidate_key)
            break
""")]),
    ('c34-key-id', ['C34'], 'bug', [(M, """        key1.fingerprint == key2.fingerprint
""", """        key1.key_id[-8:] == key2.key_id[-8:]
"""), (M, """        and key1.creation_time == key2.creation_time
""", "")]),
    ('c34-no-direct', ['C34'], 'bug', [(M, """    adopt_signatures(key, candidate_key.signatures)
""", "")]),
    ('c34-sig-everywhere', ['C34'], 'bug', [(M, """        known.add(sig_key)
        sig = copy.copy(sig)
""", """        known.add(sig_key)
""")]),
    ('c34-shared-part', ['C34'], 'bug', [(M, """            part = copy.copy(candidate)
            part._primary_public_key_ref = weakref.ref(key)
            part.signatures = []
            known""", """            part = candidate
            known""")]),
    ('c34-framing', ['C34'], 'same', [(M, """    packet = part.to_packet()
    return (packet.type, bytes(packet.content))""", """    return bytes(part.to_packet())""")]),
    ('c34-same-loop', ['C34'], 'same', [(M, """    known = set(signature_key(sig) for sig in part.signatures)
    for sig in signatures:
        sig_key = signature_key(sig)
        if sig_key in known:
            continue
        known.add(sig_key)
        sig = copy.copy(sig)
        sig._target_ref = weakref.ref(part)
        part.signatures.append(sig)
""", """    known = []
    for sig in part.signatures:
        known.append(signature_key(sig))
    new = []
    for sig in signatures:
        sig_key = signature_key(sig)
        if sig_key not in known:
            known.append(sig_key)
            mine = copy.copy(sig)
            mine._target_ref = weakref.ref(part)
            new.append(mine)
    part.signatures.extend(new)
""")]),
    ('c34-same-order', ['C34'], 'same', [(M, """    merge_parts(key, key.user_ids, candidate_key.user_ids)
    merge_parts(key, key.user_attributes, candidate_key.user_attributes)
    merge_parts(key, key.subkeys, candidate_key.subkeys)
""", """    for name in ('subkeys', 'user_attributes', 'user_ids'):
        merge_parts(key, getattr(key, name), getattr(candidate_key, name))
""")]),
]
