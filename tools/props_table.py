p('C01', 'Integrity-protected messages yield plaintext only after the MDC verifies',
  "Decrypting an integrity-protected message returns content only when the two repeated prefix octets match and the message ends in a modification detection code equal to the SHA-1 of the whole decrypted random prefix (block plus its two repeated octets) followed by every decrypted octet up to and including the code's own two header octets; in every other case decryption raises an error and returns nothing. Encrypting with integrity protection emits exactly that layout, with the code computed over the same octets. Without integrity protection the data is the RFC 4880 section 13.9 form (a random prefix with its repeated octets, then the message in the resynchronised feedback mode) and decrypts to the message that was encrypted, for every cipher and length.",
  ['inputs'], 'every ciphertext (including tampered, truncated and code-less ones), key, block size and plaintext',
  'Tests decrypt a handful of untampered messages; no test tampers with a ciphertext, and no finite set of tamperings shows that every path to a returned plaintext passes the comparison.',
  ['pgp/message.py'], [('modification-detection check', 'pgp/message.py SymmetricallyEncryptedMessageData.decrypt'), ('emission of the code', 'pgp/message.py SymmetricallyEncryptedMessageData.encrypt')])

p('C02', 'A signature verifies only after issuer, digest and public-key checks all pass',
  "Verifying a signature with a key reports success only if the signature names that key as an issuer, carries that key's public-key algorithm, its two stored check octets equal the first two octets of the digest of the signed data, and the public-key algorithm accepts the signature values for that same digest; anything else raises an error. The digest uses the signature's own hash algorithm over the signed item's octets followed by the signature's hashed fields, and the public-key primitive for each algorithm is given the caller's key, digest and values, with unknown algorithms rejected.",
  ['inputs'], 'every signature, key and signed item, including forged, mismatching and unknown-algorithm ones',
  'Tests verify a few genuine signatures and one or two corrupt ones; dropping one of the conjuncts (issuer, algorithm, check octets, primitive result) leaves them passing.',
  ['pgp/transferrable_keys.py', 'pgp/utils.py'], [('verification', 'pgp/transferrable_keys.py BasePublicKey.verify'), ('public-key primitive dispatch', 'pgp/utils.py verify_hash'), ('digest dispatch', 'pgp/utils.py get_hash_instance')])

p('C03', 'Signers and verifiers hash the same, RFC 4880 octets for every signature',
  "For every signature version and type, the octets hashed when a signature is made, when it is verified directly and when it is validated on a key are the same and are the ones RFC 4880 section 5.2.4 prescribes: the signed item (keys framed by 0x99 and a two-octet length, a subkey preceded by its primary key, user IDs and attributes preceded by the primary key and, for version 4, by 0xB4 or 0xD1 and a four-octet length; a signature that is itself signed is framed by 0x88 and a four-octet length and has an empty unhashed area) followed by the trailer. The trailer is version, type, public-key algorithm, hash algorithm, two-octet hashed-area length, hashed area, version, 0xFF and the four-octet trailer length for version 4, and type and four-octet creation time for version 3; unhashed data never enters it.",
  ['inputs'], 'every signature version 2-4, signature type, signed item and set of subpackets',
  'Round-trip tests agree even when signer and verifier are wrong together, and only versions and types in the fixtures are exercised.',
  ['pgp/transferrable_keys.py', 'pgp/signature.py', 'pgp/utils.py', 'pgp/packets/packets.py'], [('item framing', 'pgp/transferrable_keys.py *.to_signable_data'), ('trailer', 'pgp/signature.py BaseSignature.to_signable_data'), ('validation digest', 'pgp/utils.py hash_packet_for_signature'), ('packet-level digest content', 'pgp/packets/packets.py SignaturePacket.get_signature_hash_trailer')])

p('C04', 'Key validation marks a signature valid only if it was actually checked',
  "Validating the signatures found on a key marks a signature as valid only when the cryptographic check of that signature against the digest of its own target completed without error with the key that claims to have issued it; a failed check marks it invalid and a signature that cannot be checked is left undecided. A signing key that had expired, was revoked, or did not yet exist is reported through the returned flags or, in strict mode, raised as an error. The binding of a subkey that may sign is valid only with a valid signature made by that subkey.",
  ['inputs', 'histories'], 'every key, signature type, set of issuers and key database content',
  'Existing tests never reach the key-validation module at all, and a validator that accepts everything passes any test on genuine keys.',
  ['pgp/signature_verification.py'], [('validation driver', 'pgp/signature_verification.py validate_signatures'), ('per-type dispatch', 'pgp/signature_verification.py validate_signature'), ('crypto check', 'pgp/signature_verification.py check_signature')])

p('C05', 'Locked secret keys refuse private operations and locking erases every secret',
  "A secret key performs no private-key operation (signing, decrypting, unwrapping a session key) while locked. Locking a key discards every secret value that unlocking installed, for every algorithm and for all subkeys, and the unlocking context manager locks the key again on every way out of its block, including exceptions. A failed unlocking leaves nothing unlocked, and a key that was locked keeps its public parameters and can be unlocked again.",
  ['histories', 'inputs'], 'every sequence of lock, unlock and use on every key algorithm, including blocks left by an exception',
  'Tests unlock a key and use it; the leftover value on one algorithm, the un-relocked subkey or the exception exit is never observed.',
  ['pgp/transferrable_keys.py', 'pgp/message.py', 'pgp/context_managers.py'], [('lock state', 'pgp/transferrable_keys.py BaseSecretKey.lock/unlock/sign/decrypt'), ('session-key unwrap', 'pgp/message.py PublicKeySessionKey.get_algorithm_and_session_key'), ('context manager', 'pgp/context_managers.py')])

p('C06', 'A wrong passphrase never unlocks a secret key',
  "Secret key material is accepted only after the stored SHA-1 hash or 16-bit checksum over the decrypted values has been compared and found equal, for every key version and protection mode, and a mismatch raises an error. The key is marked unlocked only after that check has passed, and encrypting key values appends the same hash or checksum over the same octets. The values that come out are the stored ones, each in its own role.",
  ['inputs'], 'every passphrase, key version and protection mode',
  'Tests unlock the fixture keys with the right passphrase; deleting or narrowing the comparison changes nothing they observe.',
  ['pgp/packets/packets.py', 'pgp/transferrable_keys.py'], [('protected-value check', 'pgp/packets/packets.py SecretKeyPacket.decrypt_encrypted_key_portion'), ('protection on write', 'pgp/packets/packets.py SecretKeyPacket.encrypt_key_values'), ('unlock', 'pgp/transferrable_keys.py BaseSecretKey.unlock')])

p('C07', 'Secret values never reach standard output, logs, warnings or messages',
  "No passphrase, derived key, session key, private key value, signature nonce or decrypted plaintext is printed, logged, warned about, written into an exception message or included in an object's textual representation by the library.",
  ['inputs', 'programs'], 'every execution of every library function on every input',
  'Unit tests do not capture output, and the leaking branch (for example a nonce printed for one algorithm) need not be among those they run.',
  ['pgp/utils.py', 'pgp/message.py', 'pgp/transferrable_keys.py', 'pgp/packets/packets.py', 'pgp/s2k.py', 'pgp/pinentry'], [('nonce generation', 'pgp/utils.py sign_hash'), ('output sinks', 'print, logging, warnings.warn, raise, __repr__/__str__ anywhere in pgp')])

p('C08', 'Secret keys are never stored, labelled, copied or uploaded as public keys',
  "Wherever the library decides between public and secret handling of a key (keyring file, armor label, keyserver upload, conversion to a public key), a secret key always takes the secret branch, and data described as public contains no private value. The public form of a secret key carries only public parameters.",
  ['inputs', 'histories'], 'every key object, in every operation that stores, exports or publishes it',
  'A secret key is also an instance of the public-key class, so tests with public keys pass whichever order the branches are in.',
  ['pgp/db/gpg.py', 'pgp/shortcuts.py', 'pgp/keyserver/hkp.py', 'pgp/transferrable_keys.py'], [('keyring choice', 'pgp/db/gpg.py GnuPGDatabase add/update/delete'), ('armor label', 'pgp/shortcuts.py serialize_key'), ('upload', 'pgp/keyserver/hkp.py submit'), ('public form', 'pgp/transferrable_keys.py to_public_key')])

p('C09', 'Every secret random value is drawn fresh, full-size, from a CSPRNG',
  "Each session key, message prefix, passphrase salt, padding string, signature nonce and unwrapping sentinel the library generates comes from the cryptographic random generator, is drawn anew for each use, and has the full size its algorithm needs (the cipher's key length, the cipher's block length, eight octets of salt, a nonce over the whole range 1..q-1). A caller's own value is used only where the caller passed one.",
  ['inputs', 'histories'], 'every generation of every random value, over all algorithms',
  'Output of a weak, truncated or reused generator is indistinguishable to a round-trip test.',
  ['pgp/message.py', 'pgp/utils.py', 'pgp/packets/packets.py'], [('session keys and salts', 'pgp/message.py BaseMessage.public_key_encrypt/symmetric_encrypt'), ('message prefix', 'pgp/message.py SymmetricallyEncryptedMessageData.encrypt'), ('nonces', 'pgp/utils.py sign_hash'), ('padding', 'pgp/packets/packets.py PKCS115_ElGamal_Cipher.encrypt')])

p('C10', 'Session keys are wrapped and unwrapped with one layout and checked checksum',
  "A session key wrapped for a recipient is the algorithm octet, the key and the two-octet big-endian sum of the key octets modulo 65536, and unwrapping returns the algorithm and key only if the padding is well formed and the checksum recomputed over the key octets equals the stored one, raising an error otherwise. A passphrase-wrapped session key is the algorithm octet and key encrypted under the passphrase-derived key with an all-zero initial block, and unwrapping is its exact inverse.",
  ['inputs'], 'every session key, algorithm and ciphertext',
  'Round trips succeed with the checksum check removed or both sides changed together, and no test unwraps damaged session keys.',
  ['pgp/packets/packets.py', 'pgp/message.py'], [('public-key wrap', 'pgp/packets/packets.py PublicKeyEncryptedSessionKeyPacket._get_encrypted_key/_get_key_and_cipher_algo'), ('passphrase wrap', 'pgp/packets/packets.py SymmetricKeyEncryptedSessionKeyPacket')])

p('C11', 'Hidden recipients leave no identifying trace; visible ones are named',
  "A session-key packet made for a hidden recipient carries the all-zero key ID and nothing else derived from the recipient's identity, while one made for an ordinary recipient carries that recipient's key ID. Reading a session-key packet with an all-zero key ID yields a recipient with no key ID.",
  ['inputs'], 'every set of ordinary and hidden recipients',
  'No test encrypts to hidden recipients, and decryption works just as well when the key ID leaks.',
  ['pgp/message.py', 'pgp/packets/packets.py'], [('recipient objects', 'pgp/message.py PublicKeySessionKey'), ('packet field', 'pgp/packets/packets.py PublicKeyEncryptedSessionKeyPacket')])

p('C12', 'Packet framing is read back exactly as written for every length',
  "For every body length each header format can express, the length octets the library writes are read back as the same length with nothing left over, whether as one length or, where the format allows it, as partial lengths, by both the in-memory and the stream reader, and they are the RFC 4880 encoding; subpacket lengths obey the same rule. The header octet of every packet written carries the packet's own type and format so that it is read back as the same type.",
  ['inputs'], 'every packet type, header format and body length from zero up to the maximum, including the 191/192, 8383/8384 and 65535/65536 boundaries',
  'Tests use small packets; boundary lengths (for example 8383/8384 or above 16 MiB) are never written or read.',
  ['pgp/utils.py', 'pgp/packets/packets.py', 'pgp/packets/signature_subpackets.py', 'pgp/packets/user_attribute_subpackets.py'], [('length codecs', 'pgp/utils.py *_packet_length*'), ('packet framing', 'pgp/packets/packets.py Packet.__bytes__, packet_from_packet_data, packet_from_packet_stream')])

p('C13', 'Every type number maps to one class, and that class emits the same number',
  "Each OpenPGP packet, signature-subpacket, user-attribute-subpacket and passphrase-transform number recognised on input is handled by the class for that number in RFC 4880, and objects of that class serialise with that same number. Numbers that are not recognised are preserved as opaque items with their own number and content.",
  ['inputs'], 'every type number 0-255 in each registry',
  'Tests touch only the types in their fixtures; a swapped or missing registry entry for the rest is invisible.',
  ['pgp/packets/packets.py', 'pgp/packets/constants.py', 'pgp/packets/parsers.py', 'pgp/packets/signature_subpackets.py', 'pgp/packets/user_attribute_subpackets.py', 'pgp/s2k.py'], [('packet registry', 'pgp/packets/packets.py PACKET_TYPES'), ('subpacket registry', 'pgp/packets/signature_subpackets.py SUBPACKET_TYPES'), ('S2K registry', 'pgp/s2k.py S2K_TYPES')])

p('C14', 'Parsing a packet body and writing it again reproduces it, field for field',
  "For every kind and version of packet, each field is read from the position and with the encoding that writing uses, so that writing a parsed packet's fields reproduces the body octet for octet, with no field dropped, duplicated, truncated or reordered. The fields have the RFC 4880 meaning: a packet built from given field values parses back to those values.",
  ['inputs'], 'every well-formed body of every packet kind and version',
  'Only a few packet kinds and versions occur in the fixtures, and the version 3 and rarely used layouts are never exercised.',
  ['pgp/packets/packets.py'], [('parsers', 'pgp/packets/packets.py *.from_packet_content'), ('serialisers', 'pgp/packets/packets.py *.content')])

p('C15', 'Parsing a subpacket and writing it again reproduces it, field for field',
  "For every signature and user-attribute subpacket, each field is read from the position and with the encoding that writing uses, so that writing a parsed subpacket reproduces it octet for octet, including its critical flag and the form its length was written in; unknown subpackets keep their content. Each attribute is the octet, integer, flag or text RFC 4880 5.2.3 assigns to it, and a subpacket built from attribute values is written with that layout. Hashed subpackets therefore re-serialise to the octets that were signed.",
  ['inputs'], 'every well-formed subpacket of every type',
  'Tests cover the two or three subpackets present in the fixtures; a lost octet in another one silently invalidates signatures.',
  ['pgp/packets/signature_subpackets.py', 'pgp/packets/user_attribute_subpackets.py'], [('subpacket classes', 'pgp/packets/signature_subpackets.py'), ('user attributes', 'pgp/packets/user_attribute_subpackets.py')])

p('C16', 'Packets compare equal only if all of their fields are equal',
  "Two packets or subpackets compare equal only if they are of the same kind and every field that is written to the wire is equal (the subpackets of a signature are compared area by area, whatever their order within the area); objects that compare equal have equal hashes where they are hashable.",
  ['inputs'], 'every pair of packets or subpackets of every kind',
  'Tests compare identical objects, so a comparison that ignores a field passes.',
  ['pgp/packets/packets.py', 'pgp/packets/signature_subpackets.py', 'pgp/packets/user_attribute_subpackets.py', 'pgp/s2k.py'], [('equality', '__eq__/__hash__ of packet, subpacket and S2K classes')])

p('C17', 'Integer, MPI, hex and count codecs are mutually inverse',
  "Fixed-width integers, multi-precision integers, hexadecimal identifiers and the iterated-passphrase count are written big-endian in the RFC 4880 form and read back as the same value, for every value in range; reading advances by exactly the octets occupied. Multi-precision integers carry their exact bit length.",
  ['inputs'], 'every integer in range, at every offset, including zero, powers of two and multiples of eight bits',
  'Tests sample a few values; off-by-one errors at bit-length or octet boundaries and floating-point logarithm errors survive.',
  ['pgp/utils.py'], [('codecs', 'pgp/utils.py int_to_*, *_to_int, mpi_*, hex_to_bytes, bytearray_to_hex, s2k_count_to_int, int_to_s2k_count')])

p('C18', 'Algorithm numbers select the algorithm, key, block and digest size the RFCs give',
  "Each symmetric, hash, compression and public-key algorithm number selects the implementation RFC 4880 and RFC 5581 assign to it, the key, block and digest lengths recorded for it are that algorithm's, and the human-facing names and preference tables agree with those numbers. A number with no implementation is rejected with an error rather than served by another algorithm.",
  ['inputs', 'configurations'], 'every algorithm number 0-255 in every table and dispatcher',
  'Tests use one or two algorithms; a swapped pair or wrong length elsewhere still round-trips with itself.',
  ['pgp/utils.py', 'pgp/packets/constants.py'], [('length tables', 'pgp/utils.py hash_lengths, symmetric_cipher_*_lengths'), ('dispatchers', 'pgp/utils.py get_hash_instance, get_symmetric_cipher, get_compression_instance, get_public_key_constructor')])

p('C19', 'Passphrase-to-key transforms hash exactly the RFC 4880 octet sequence',
  "Simple, salted and iterated-salted transforms hash, for each successive key block, that many preloaded zero octets followed by the passphrase, the salt and passphrase, or the salt and passphrase repeated up to exactly the requested count (but never less than once), and return the leftmost octets of the concatenated digests to the cipher's key length. The specifier is written and read back with the same type, hash, salt and count.",
  ['inputs'], 'every passphrase, salt, count, digest and key length',
  'Test vectors cover a key size that needs a single digest block and one count; the multi-block and short-count cases are not reached.',
  ['pgp/s2k.py'], [('transforms', 'pgp/s2k.py SimpleS2K/SaltedS2K/IteratedAndSaltedS2K.to_key'), ('specifier codec', 'pgp/s2k.py parse_s2k_bytes and __bytes__')])

p('C20', 'ASCII armor is rejected unless its framing and checksum are right',
  "Reading armored data returns data only if the header and tail lines name the same block type and the CRC-24 computed over the decoded octets equals the one given, raising an error otherwise; the CRC uses the RFC 4880 initial value and polynomial. Writing armor emits the header line, the armor headers, a blank line, the base64 body, the matching checksum and the matching tail line, which reads back to the same type, headers and data.",
  ['inputs'], 'every armored text and every data to be armored',
  'Fixtures are well formed; a missing checksum comparison or unmatched tail is never seen.',
  ['pgp/armor.py', 'pgp/crc24.py'], [('armor codec', 'pgp/armor.py ASCIIArmor'), ('checksum', 'pgp/crc24.py')])

p('C21', 'Keyring locks are always released, in order, whatever happens',
  "Every keyring operation that takes the database lock holds it for the whole of its file access and releases it on every way out, including errors, exactly as often as it was taken; an operation inside a region that already holds the lock does not give it up. A lock held by another live process, on this host or another, is never taken over or removed.",
  ['fault_sequences', 'schedules', 'histories'], 'every operation, every error raised part-way through and every interleaving with another process',
  'No test exercises the keyring database; exception exits cannot be enumerated by examples.',
  ['pgp/db/gpg.py'], [('lock pairing', 'pgp/db/gpg.py lock_db/unlock_db callers'), ('lock acquisition', 'pgp/db/gpg.py Lock.acquire')])

p('C22', 'A read-only keyring is never modified',
  "An operation that would add, change, delete or create keyring content on a resource opened read-only raises an error before any keyring file is opened for writing, truncated, created, replaced or removed; reading such a resource does none of these either. The flag given when a collection of keyrings is set up reaches every keyring in it.",
  ['histories', 'inputs'], 'every operation on every keyring resource kind',
  'No test opens a keyring read-only.',
  ['pgp/db/gpg.py'], [('mutators', 'pgp/db/gpg.py add_key/update_key/delete_key and file opening')])

p('C23', 'Updating or deleting one key leaves every other key in the keyring untouched',
  "Updating a key in a keyring replaces the packets of that key only, and deleting it removes the packets of that key only; every packet belonging to any other key is written back, unchanged and in order, also when the file was changed through another object in between. Adding a key never replaces or removes an existing one. Afterwards every other key is still found under its fingerprint.",
  ['inputs', 'histories'], 'every keyring content and position of the key within it',
  'No test stores a keyring with more than one key and edits one that is not the last.',
  ['pgp/db/gpg.py'], [('rewrite', 'pgp/db/gpg.py KeyringResource.update_transferrable_key/delete_transferrable_key')])

p('C24', 'Transferable keys accept only the RFC packet order and lose no packet',
  "A packet sequence is accepted as a transferable key only if it follows the order of RFC 4880 section 11.1 (a primary key, its own signatures, user IDs and user attributes in any mixture, then subkeys, each followed by its signatures), and every key, user ID, user attribute, subkey and signature packet of an accepted sequence ends up in the resulting key, attached to the component it follows. Writing the key emits each component followed by its own signatures, so that reading it again yields the same key.",
  ['inputs'], 'every sequence of packets',
  'Tests load well-formed fixture keys only; dropped or misattached packets and accepted malformed orders go unnoticed.',
  ['pgp/transferrable_keys.py'], [('order check', 'pgp/transferrable_keys.py validate_transferrable_key'), ('assembly', 'pgp/transferrable_keys.py TransferablePublicKey.from_packets/to_packets')])

p('C25', "Each signature and key attribute reflects the subpacket that defines it",
  "Every attribute a signature exposes (creation and expiration times, issuers, preferences, flags, trust, exportability, revocation reason and keys, notations and so on) is read from, and written to, the subpacket type and field that RFC 4880 defines for it: setting one and writing the signature gives back the value set and leaves all other attributes as they were; what is set is written to the hashed area, and where the same subpacket is in both areas the hashed one is used. Each key-, user-ID-, user-attribute- and subkey-level attribute reflects the same-named attribute of the most recently created self-signature of the kind that applies to it, whatever the order of the signatures.",
  ['inputs'], 'every signature, every attribute and every combination of subpackets',
  'Only a few attributes are touched by tests; a copy-paste mix-up between two attributes returns a plausible value.',
  ['pgp/signature.py', 'pgp/transferrable_keys.py'], [('signature attributes', 'pgp/signature.py BaseSignature'), ('key attributes', 'pgp/transferrable_keys.py SignedMixin')])

p('C26', 'Importing public key data applies the critical-bit and local-signature policy',
  "When public key data is imported, a signature carrying an unknown critical subpacket or an unknown critical notation is never silently accepted, and a certification marked local (non-exportable) is never kept as an exportable one; the other signatures and the rest of the key are kept.",
  ['inputs'], 'every public key and every combination of subpackets',
  'No test imports keys with critical or non-exportable subpackets.',
  ['pgp/parse.py'], [('import policy', 'pgp/parse.py')])

p('C27', 'Keyserver traffic keeps the requested security and reports failures',
  "A keyserver address that asks for TLS is always contacted over TLS with certificate checking left on, the port and host contacted are those of the address, failures reported by the server raise an error instead of returning data, and query values are encoded so that they cannot alter the request.",
  ['inputs', 'configurations'], 'every keyserver address, query and server answer',
  'There is no keyserver in the test environment; no test makes a request.',
  ['pgp/keyserver/hkp.py', 'pgp/keyserver/__init__.py'], [('HKP client', 'pgp/keyserver/hkp.py'), ('dispatch', 'pgp/keyserver/__init__.py')])

p('C28', 'Passphrase prompting honours confirmation, caching limits and escaping',
  "A passphrase that must be confirmed is returned only if both entries are equal, text passed to the pinentry agent is escaped so that it cannot add commands or arguments, an agent error raises instead of returning a passphrase, and the agent connection is closed on every way out.",
  ['inputs', 'fault_sequences'], 'every prompt, description, agent answer and I/O failure',
  'Prompts need a terminal or an agent; no test runs them.',
  ['pgp/pinentry/getpass.py', 'pgp/pinentry/gpg_agent.py'], [('terminal prompt', 'pgp/pinentry/getpass.py'), ('agent', 'pgp/pinentry/gpg_agent.py')])

p('C29', 'Every internal name, attribute, argument list and import resolves',
  "Every name the library uses is bound on every path before its use, every call to one of its own functions or classes passes arguments that match the callee's parameters, and every attribute it reads from its own modules and objects exists there. Declared interfaces are implemented, with the declared arguments, by the classes that claim them.",
  ['programs', 'inputs'], 'every function and call site of the library, on every path',
  'Python reports such faults only when the line runs; much of the library is never executed by a test.',
  ['pgp'], [('all modules', 'pgp/**/*.py')])

p('C30', "Library calls never modify the caller's arguments or share mutable defaults",
  "Signing, encrypting, serialising, verifying and parsing leave the objects and buffers passed to them by the caller unchanged unless modifying them is their documented purpose (appending to an output buffer, linking a component to the key it is added to, keeping a decrypted private key in the key that is unlocked), and no two calls or objects share a mutable default value. An object does not keep as its own a list of the caller that it later changes in place. Serialising the same object twice therefore yields the same octets.",
  ['histories', 'inputs'], 'every sequence of calls on shared objects',
  'Tests use each object once, so the second use of a modified argument is never seen.',
  ['pgp/transferrable_keys.py', 'pgp/packets', 'pgp/message.py', 'pgp/signature.py', 'pgp/utils.py'], [('all public functions', 'pgp/**/*.py')])

p('C31', 'Canonical text signatures change line endings only',
  "For a canonical-text signature the signed octets are the UTF-8 text with every line ending (CR, LF or CRLF) replaced by CRLF and every other octet kept, so that two texts have the same signed octets only if they differ in line endings alone; for a binary signature the octets are signed unchanged.",
  ['inputs'], 'every text message',
  'No test signs text with lone CR or LF in awkward positions (start of text, doubled, adjacent to data).',
  ['pgp/message.py'], [('canonicalisation', 'pgp/message.py TextMessage.to_signable_data')])

p('C32', 'Compression returns all data that was fed in, in order, for each algorithm',
  "For each compression algorithm the library offers, everything passed to the compressor over one or more calls comes out of the matching decompressor in the same order once flushed, the raw and zlib framings are not mixed up, and a compressor is never reused as a decompressor or after flushing.",
  ['inputs', 'histories'], 'every data, split into any number of calls, for every algorithm number',
  'Tests compress with one call and one algorithm.',
  ['pgp/utils.py', 'pgp/packets/packets.py'], [('compression wrappers', 'pgp/utils.py ZlibCompression/DeflateCompression/NoopCompression'), ('compressed packets', 'pgp/packets/packets.py CompressedDataPacket')])

p('C33', 'Message structure is parsed and written by one grammar, losing nothing',
  "A parsed message reflects every packet of its input: session keys stay attached to the encrypted data, one-pass signatures are matched by as many signatures, nested messages are parsed recursively, and an input that is not an OpenPGP message raises an error instead of yielding a partial one (how marker packets and packets of unknown kinds are treated is left open). Writing a message emits the packets its parser accepts, in that order, with each one-pass packet carrying its signature's type, algorithms and issuer and only the last of them marked as innermost.",
  ['inputs'], 'every packet sequence and every message object',
  'Tests parse messages of two shapes; trailing, missing or reordered packets are not tried.',
  ['pgp/message.py'], [('parsers', 'pgp/message.py *.from_packets, open_pgp_message_from_packets'), ('writers', 'pgp/message.py *.to_packets')])

p('C34', 'Merging two copies of a key keeps every component of both',
  "Merging a newer copy of a key into an existing one keeps every signature, user ID, user attribute and subkey present in either copy, adds none that is in neither, and is idempotent; every part of the result belongs to that key, and the other copy is left as it was. Keys with different fingerprints are never merged.",
  ['inputs', 'histories'], 'every pair of copies of a key',
  'No test merges keys.',
  ['pgp/merge.py'], [('merge', 'pgp/merge.py')])

p('C35', 'Key IDs and fingerprints are derived from the right public values only',
  "A version 4 fingerprint is the SHA-1 of 0x99, the two-octet length and the public key body, a version 3 fingerprint the MD5 of the octets of modulus then exponent; the key ID is the low 64 bits of the fingerprint for version 4 and of the modulus for version 3. The same key has the same fingerprint and key ID in its public, secret, packet and object forms.",
  ['inputs'], 'every key of every version and algorithm',
  'Only version 4 fingerprints are compared by tests, on a few keys.',
  ['pgp/utils.py', 'pgp/packets/packets.py', 'pgp/transferrable_keys.py'], [('fingerprint', 'pgp/utils.py key_packet_fingerprint'), ('key id', 'pgp/transferrable_keys.py BasePublicKey.key_id, pgp/packets/packets.py PublicKeyPacket.key_id')])

p('C36', 'Key objects and key packets carry the same values in the same roles',
  "Turning a key packet into a key object and back keeps every parameter in its role (modulus, exponent, prime, order, generator, key value, protection fields, times), for public and secret primary keys and subkeys, and each cryptographic key object is built from those parameters in the order its algorithm expects.",
  ['inputs'], 'every key of every algorithm and version',
  'A swap of two same-typed parameters that is undone on the way back, or that affects an algorithm not in the fixtures, is invisible to tests.',
  ['pgp/transferrable_keys.py', 'pgp/packets/packets.py'], [('packet to object', 'pgp/transferrable_keys.py _init_args_from_packet'), ('object to packet', 'pgp/transferrable_keys.py _to_packet_args'), ('algorithm key objects', 'pgp/transferrable_keys.py _get_key_obj')])

p('C37', 'Decrypting what was encrypted returns the original message numerically',
  "For every message, algorithm and key, decrypting the encryption of the message with the matching key yields the identical message.",
  ['inputs'], 'all messages, keys and algorithms',
  'Unit tests sample a few messages and algorithms.',
  ['pgp/message.py', 'pgp/utils.py'], [('cipher composition', 'pgp/message.py SymmetricallyEncryptedMessageData')])

p('C38', 'The bundled IDEA, Twofish and Camellia ciphers compute those ciphers',
  "The bundled block ciphers and their feedback modes compute, for every key and block, exactly the published cipher function, and decryption inverts encryption.",
  ['inputs'], 'every key, block and mode',
  'Known-answer vectors cover a vanishing fraction of inputs.',
  ['pgp/cipher/aidea.py', 'pgp/cipher/twofish.py', 'pgp/cipher/camellia.py', 'pgp/cipher/base.py'], [('ciphers', 'pgp/cipher')])

p('C39', 'Secret-dependent comparisons and failures leak nothing through timing',
  "The time taken to reject a wrong session key, checksum, code or padding does not depend on secret data.",
  ['inputs', 'schedules'], 'every pair of inputs of equal public shape',
  'Timing is not observable to a unit test.',
  ['pgp/packets/packets.py', 'pgp/message.py'], [('comparisons', 'pgp/packets/packets.py, pgp/message.py')])

p('C40', 'Hostile input cannot exhaust memory, time or the stack',
  "Parsing, decompressing and decrypting untrusted input uses memory, time and recursion depth bounded by a fixed multiple of the input size.",
  ['inputs'], 'every input, including nested and highly compressed ones',
  'Tests use small well-formed inputs.',
  ['pgp/message.py', 'pgp/packets/packets.py', 'pgp/utils.py'], [('recursive parsing', 'pgp/message.py open_pgp_message_from_packets')])

p('C41', 'A crash while writing a keyring never loses the previous keyring',
  "If the process or machine stops at any point during an update of a keyring file, the file afterwards holds either the complete old or the complete new content.",
  ['crash_points'], 'every crash point in every keyring update',
  'No test interrupts a write.',
  ['pgp/db/gpg.py'], [('rewrite', 'pgp/db/gpg.py')])
