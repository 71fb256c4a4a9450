V = 'pgp/signature_verification.py'
CASES = [
 ('c04-no-crypto', ['C04'], 'bug', [(V, '''    key_verify(hash_, signature, key)

''', '')]),
 ('c04-no-h2', ['C04'], 'bug', [(V, '''    if bytearray(digest[:2]) != signature.hash2:
        raise SignatureDigestMismatch()

''', '')]),
 ('c04-verify-not-raise', ['C04'], 'bug', [(V, '''                             signature.signature_values):
        raise SignatureVerificationFailed()
''', '''                             signature.signature_values):
        return False
''')]),
 ('c04-algorithm', ['C04'], 'bug', [(V, '''    if not utils.verify_hash(signature.public_key_algorithm,
                             key._get_key_obj(), expected_hash,''', '''    if not utils.verify_hash(key.public_key_algorithm,
                             key._get_key_obj(), expected_hash,'''),
   (V, '''    if key.public_key_algorithm != signature.public_key_algorithm:
        raise SignatureVerificationFailed(
            'Signature not made by this key.')

''', '')]),
 ('c04-created', ['C04'], 'bug', [(V, '''    if key.creation_time > signature.creation_time:
        raise SignatureCreatedBeforeContent()
''', '')]),
 ('c04-created-eq', ['C04'], 'bug', [(V, 'if key.creation_time > signature.creation_time:', 'if key.creation_time >= signature.creation_time:')]),
 ('c04-future-key', ['C04'], 'same', [(V, '''    if key_creation_time > current_time:
        raise SigningKeyCreatedInTheFuture(key.key_id)
''', '')]),
 ('c04-future-sig', ['C04'], 'bug', [(V, '''    if sig_creation_time > current_time:
        raise SignatureCreatedInTheFuture()
''', '''    if sig_creation_time > current_time and strict:
        raise SignatureCreatedInTheFuture()
''')]),
 ('c04-expired-strict', ['C04'], 'bug', [(V, '''        if strict:
            raise SigningKeyHasExpired(key_expiration_time)
        key_expired = True
''', '''        key_expired = True
''')]),
 ('c04-expired-flag', ['C04'], 'bug', [(V, '''            raise SigningKeyHasExpired(key_expiration_time)
        key_expired = True
''', '''            raise SigningKeyHasExpired(key_expiration_time)
''')]),
 ('c04-expired-real-now', ['C04'], 'bug', [(V, 'key_expiration_time < current_time:', 'key_expiration_time < sig_creation_time:')]),
 ('c04-swap-flags', ['C04'], 'bug', [(V, '''    return key_expired, key_revoked


def get_signature_hash''', '''    return key_revoked, key_expired


def get_signature_hash''')]),
 ('c04-revoked-flag', ['C04'], 'bug', [(V, '''                        raise SigningKeyHasBeenRevoked(key.key_id)
                    key_revoked = True
''', '''                        raise SigningKeyHasBeenRevoked(key.key_id)
                    key_revoked = signature is sig
''')]),
 ('c04-revoked-any', ['C04'], 'bug', [(V, '''                if set(revokers) & set(sig.issuer_key_ids):
''', '''                if set(revokers) | set(sig.issuer_key_ids):
''')]),
 ('c04-revoked-strict', ['C04'], 'bug', [(V, '''                        raise SigningKeyHasBeenRevoked(key.key_id)
''', '')]),
 ('c04-no-back', ['C04'], 'bug', [(V, '''        raise MissingBackSignature()
''', '''        return
''')]),
 ('c04-back-unchecked', ['C04'], 'bug', [(V, '''                check_signature(subkey, sig, hash_, strict, current_time)
            except''', '''                check_signature_values(subkey, sig, current_time, strict)
            except''')]),
 ('c04-back-wrong-key', ['C04'], 'bug', [(V, '''                check_signature(subkey, sig, hash_, strict, current_time)
            except''', '''                check_signature(key, sig, hash_, strict, current_time)
            except''')]),
 ('c04-back-any-type', ['C04'], 'bug', [(V, '''        if sig.signature_type == constants.PRIMARY_KEY_BINDING_SIGNATURE:
            # The''', '''        if True:
            # The''')]),
 ('c04-binding-issuer', ['C04'], 'bug', [(V, '''        if public_key.key_id not in signature.issuer_key_ids:
            raise InvalidSubkeyBindingSignature()
''', '')]),
 ('c04-binding-no-back', ['C04'], 'bug', [(V, '''        result = validate_key_signature(signature, hash_, public_key,
                                        strict, current_time)
''', '''        result = check_signature(public_key, signature, hash_,
                                 strict, current_time)
''')]),
 ('c04-revoker-any', ['C04'], 'bug', [(V, '''        if rk[-len(signing_key.key_id):] == signing_key.key_id:
''', '''        if rk:
''')]),
 ('c04-revoker-suffix', ['C04'], 'bug', [(V, '''        if rk[-len(signing_key.key_id):] == signing_key.key_id:
''', '''        if rk[-8:] == signing_key.key_id[-8:]:
''')]),
 ('c04-revoker-none', ['C04'], 'bug', [(V, '''    raise SignatureVerificationFailed('Key cannot be revoked by this key')
''', '''    return check_signature(signing_key, signature, hash_, strict,
                           current_time)
''')]),
 ('c04-cert-with-pk', ['C04'], 'bug', [(V, '''                      constants.PERSONA_CERTIFICATION):
        result = check_signature(signing_key, signature, hash_,''', '''                      constants.PERSONA_CERTIFICATION):
        result = check_signature(public_key, signature, hash_,''')]),
 ('c04-unknown-type', ['C04'], 'bug', [(V, '''        raise UnexpectedSignatureType(sig_type)

    return result''', '''        pass

    return result''')]),
 ('c04-mark-first', ['C04'], 'bug', [(V, '''                except CannotValidateSignature:
                    sig.validated = None
''', '''                except CannotValidateSignature:
                    sig.validated = True
''')]),
 ('c04-mark-invalid', ['C04'], 'bug', [(V, '''                except InvalidSignature:
                    sig.validated = False
                    break
''', '''                except InvalidSignature:
                    sig.validated = None
                    break
''')]),
 ('c04-mark-unknown', ['C04'], 'bug', [(V, '''            if signing_keys:
                signing_key = signing_keys[0]
''', '''            if not signing_keys:
                sig.validated = False
            else:
                signing_key = signing_keys[0]
''')]),
 ('c04-selfsig-db', ['C04'], 'bug', [(V, '''            if pk.key_id == signing_key_id:
''', '''            if pk.key_id[-8:] == signing_key_id[-8:]:
''')]),
 ('c04-skip-attributes', ['C04'], 'bug', [(V, '''        for uattr in target.user_attributes:
            validate_signatures(uattr, db, strict=strict)

''', '')]),
 ('c04-revalidate', ['C04'], 'bug', [(V, '''        if sig.validated is not None:
            continue
''', '''        if sig.validated:
            continue
''')]),
 ('c04-flags-lost', ['C04'], 'bug', [(V, '''                    sig.issuer_key_expired = key_expired
                    sig.issuer_key_revoked = key_revoked
''', '''                    sig.issuer_key_expired = key_revoked
                    sig.issuer_key_revoked = key_expired
''')]),
 ('c04-hash-other', ['C04'], 'bug', [(V, '''    hash_ = get_signature_hash(target, signature)
    result = False, False
''', '''    hash_ = get_signature_hash(public_key, signature)
    result = False, False
''')]),
 # refactorings
 ('c04-same-order', ['C04'], 'same', [(V, '''    if key_creation_time > current_time:
        raise SigningKeyCreatedInTheFuture(key.key_id)

    if sig_creation_time > current_time:
        raise SignatureCreatedInTheFuture()
''', '''    if sig_creation_time > current_time:
        raise SignatureCreatedInTheFuture()

    if current_time < key_creation_time:
        raise SigningKeyCreatedInTheFuture(key.key_id)
''')]),
 ('c04-same-helper', ['C04'], 'same', [(V, '''    digest = hash_.digest()
    if bytearray(digest[:2]) != signature.hash2:
        raise SignatureDigestMismatch()

    key_verify(hash_, signature, key)
''', '''    _check_digest(hash_, signature)
    key_verify(hash_, signature, key)
'''), (V, '''def check_signature(key, signature, hash_''', '''def _check_digest(hash_, signature):
    first_two = bytearray(hash_.digest())[0:2]
    if not first_two == signature.hash2:
        raise SignatureDigestMismatch()


def check_signature(key, signature, hash_''')]),
 ('c04-same-any', ['C04'], 'same', [(V, '''    for rk in get_revocation_keys(key):
        if rk[-len(signing_key.key_id):] == signing_key.key_id:
            return validate_key_signature(signature, hash_, signing_key,
                                          strict, current_time)

    raise SignatureVerificationFailed('Key cannot be revoked by this key')
''', '''    size = len(signing_key.key_id)
    if not any(rk[-size:] == signing_key.key_id
               for rk in get_revocation_keys(key)):
        raise SignatureVerificationFailed('Key cannot be revoked by this key')
    return validate_key_signature(signature, hash_, signing_key,
                                  strict, current_time)
''')]),
 ('c04-same-dispatch', ['C04'], 'same', [(V, '''    elif sig_type == constants.SIGNATURE_DIRECTLY_ON_A_KEY:
        # direct key signature
        result = check_signature(signing_key, signature, hash_,
                                 strict, current_time)
    elif sig_type in (constants.GENERIC_CERTIFICATION,''', '''    elif sig_type in (constants.SIGNATURE_DIRECTLY_ON_A_KEY,
                      constants.GENERIC_CERTIFICATION,''')]),
 ('c04-same-loop', ['C04'], 'same', [(V, '''            if signing_keys:
                signing_key = signing_keys[0]
                try:
                    key_expired, key_revoked = \\
                        validate_signature(target, sig, signing_key, pk,
                                           strict)
                except InvalidSignature:
                    sig.validated = False
                    break
                except CannotValidateSignature:
                    sig.validated = None
                else:
                    sig.validated = True
                    sig.issuer_key_expired = key_expired
                    sig.issuer_key_revoked = key_revoked
                    break
''', '''            if not signing_keys:
                continue
            try:
                flags = validate_signature(target, sig, signing_keys[0], pk,
                                           strict)
            except CannotValidateSignature:
                sig.validated = None
                continue
            except InvalidSignature:
                sig.validated = False
                break
            sig.validated = True
            sig.issuer_key_expired = flags[0]
            sig.issuer_key_revoked = flags[1]
            break
''')]),
 ('c04-same-flags', ['C04'], 'same', [(V, '''    key_expired, key_revoked = \\
            check_signature_values(key, signature, current_time, strict)
''', '''    flags = check_signature_values(key, signature, current_time, strict)
'''), (V, '''    key_verify(hash_, signature, key)

    return key_expired, key_revoked
''', '''    key_verify(hash_, signature, key)
    return flags
''')]),
]
