"""Claimed checks (property -> technique, level note) and reasons for the
properties that are not claimed.  tools/mkmanifest.py writes MANIFEST.json."""

BASE = ('Sound up to the interpreter\'s model of Python and of the listed '
        'library calls; obligations it cannot decide are reported as '
        'undecided in the evidence and never raise an alarm. ')

CHECKS = {
 'C12': ('abstract interpretation to value graphs; equality with RFC 4880 '
         'framing reference graphs',
         'Every writer and reader of packet and subpacket lengths is compared '
         'as a value graph with an RFC reference for all inputs (symbolic '
         'lengths and octets); readers of whole packets are interpreted on '
         'symbolic bodies at every boundary length.'),
 'C14': ('abstract interpretation to value graphs; equality with RFC 4880 '
         'section 5 body layouts',
         'Every packet kind, version, key algorithm and S2K layout is '
         'interpreted on a packet whose field contents are symbolic; what is '
         'written back, and every attribute, must be the same value graph. '
         'Sizes of variable fields are enumerated, contents are not.'),
 'C15': ('abstract interpretation to value graphs; equality with RFC 4880 '
         '5.2.3 and 5.12 subpacket layouts',
         'Every signature and attribute subpacket type, known or not, is '
         'interpreted on symbolic contents at enumerated sizes; round trip, '
         'attributes and writers are compared with reference layouts.'),
 'C16': ('abstract interpretation to value graphs; per-field sensitivity of '
         'comparison and hash graphs',
         'For every packet and subpacket kind, comparison of two symbolic '
         'objects is interpreted: equal fields must compare equal (and hash '
         'equal), and each single differing field or kind must make the '
         'result false.'),
 'C13': ('abstract interpretation of the type dispatch to value graphs; '
         'table agreement with RFC 4880 for every number',
         'Every packet, subpacket and passphrase-transform number 0-255 is '
         'dispatched on symbolic contents; the class reached, its number and '
         'the number written back are compared with the RFC table.'),
 'C18': ('abstract interpretation of the algorithm tables and constructors; '
         'agreement with RFC 4880/5581 tables for every number',
         'Every algorithm number is interpreted through every selecting '
         'function; the constructor term reached and the recorded sizes are '
         'compared with the RFC tables. What the constructors compute is '
         'outside (C38).'),
 'C19': ('abstract interpretation to value graphs; equality with the RFC '
         '4880 3.7 digest-input reference graph',
         'Passphrase and salt are symbolic; passphrase length, count, hash '
         'and key length are enumerated.'),
 'C20': ('constant propagation over armor texts and octets; comparison with '
         'the RFC 4880 format and CRC-24, and acceptance conditions over a '
         'symbolic checksum and a symbolic tail line',
         'All 256 single octets (the whole CRC table), sizes around the line '
         'length, every header and type; any checksum and any tail line for '
         'one text per type; every single-bit change of the checksum.'),
 'C21': ('abstract interpretation of every keyring operation over a model of '
         'the file system and of locks, with a failure injected at every step '
         'of file access; lock counts at every event and at every way out',
         'Operations, failing steps, malformed contents and lock owners are '
         'enumerated for both resource kinds; schedules of two threads are '
         'not interleaved.'),
 'C22': ('effect analysis of every keyring operation with the read-only flag '
         'over a model of the file system',
         'All mutating operations for public, secret, present and absent '
         'keys, both resource kinds, creation, and the collection of '
         'keyrings.'),
 'C23': ('abstract interpretation of the changing operations over a model of '
         'the file system; the octets left in the file are compared with '
         'those of the other keys',
         'Keyrings of up to three (thorough: five) keys with every header '
         'style, skipped and foreign packets, equal short key IDs, every '
         'position; sequences of changes through two objects.'),
 'C24': ('abstract interpretation of key assembly over enumerated packet '
         'sequences; agreement with the RFC 4880 11.1 grammar',
         'About 4,600 packet sequences (all of length <= 2 over 26 packet '
         'kinds, <= 3 over ten, selected longer and mutated ones) with '
         'symbolic parameters are assembled abstractly; acceptance is '
         'compared with the grammar, and attachment and written octets with '
         'the sequence. Longer sequences are sampled, not enumerated.'),
 'C25': ('abstract interpretation to value graphs; attribute getters and '
         'setters against the RFC 4880 5.2.3 subpacket table',
         'Signatures with every subpacket type (symbolic contents) in either '
         'area are parsed abstractly and every attribute compared with its '
         'definition; every attribute is set, written and read back on a bare '
         'and on a full signature; component attributes are compared over '
         'orders of two self-signatures. Multiplicity beyond one per area and '
         'beyond two self-signatures is not enumerated; the local UTC offset '
         'is assumed constant.'),
 'C35': ('abstract interpretation to value graphs; equality with RFC 4880 '
         '12.2 fingerprint and key ID graphs',
         'For every version, public-key algorithm, packet kind and protection '
         'form, fingerprint and key ID of the packet, the key object, its '
         'public form and its unlocked form are compared as value graphs with '
         'the RFC definition over symbolic parameters.'),
 'C09': ('abstract interpretation to value graphs in which every draw is a '
         'distinct symbol with its source and range; information-flow and '
         'freshness conditions on the values reaching ciphers, packets and '
         'primitives',
         'All ciphers, both framings, two recipients and two messages per '
         'run; RSA, ElGamal encryption and DSA signatures; default and '
         'given values. The quality of PyCrypto\'s generator is assumed.'),
 'C10': ('abstract interpretation to value graphs; plaintext and packet '
         'layout of wrapped session keys against RFC 4880 5.1 and 5.3',
         'For each public-key algorithm, key version, session-key length and '
         'passphrase transform the term given to the public-key primitive, '
         'the packet written and what is returned on unwrapping are compared '
         'with reference graphs; the primitive itself is outside (C37).'),
 'C11': ('abstract interpretation to value graphs of the selection of '
         'session keys over enumerated recipient lists',
         'Recipient lists up to three packets of every kind and outcome '
         '(matching, hidden, foreign, malformed) are interpreted with '
         'symbolic keys; longer lists are not enumerated.'),
 'C26': ('abstract interpretation to value graphs of the importer over packet '
         'sequences; the list of signatures kept is compared with the policy',
         'Every subpacket type with either critical bit and area, notations '
         'with defined and undefined flags, a symbolic local flag, on keys, '
         'user IDs and subkeys; packets themselves are parsed by pgpdump.'),
 'C08': ('abstract interpretation to value graphs; reachability of private '
         'values in the heap graph of the public form, and of the branch '
         'taken for secret keys at each place that decides',
         'Six algorithms, locked, unlocked and unprotected keys with symbolic '
         'values; labels, uploads and keyrings with keys of small numbers and '
         'nine arrangements of keyrings. Weak references to the secret key '
         'are not followed.'),
 'C27': ('abstract interpretation to value graphs of each request, with the '
         'HTTP library modelled; where values flow in it is compared with the '
         'specification',
         'Addresses are an enumerated family (schemes in either case, ports, '
         'user names, IPv6); key IDs and search texts are symbolic. What the '
         'requests library does with its arguments is trusted.'),
 'C28': ('abstract interpretation of both pinentry classes against models of '
         'the agent connection and of getpass, over enumerated scripts, '
         'failures at each step and histories; taint of the text sent',
         'Scripts of replies and failing operations and sequences of entries '
         'are enumerated; texts sent are symbolic as well as a list of '
         'awkward ones.'),
 'C31': ('extraction of the text transformation as a value graph; equality '
         'of finite-window text transducers on representative texts',
         'The transformation is read from the source as a composition of '
         'encodings, replacements and constant patterns and compared with '
         'the reference on every text over representative characters up to '
         'a length beyond the look-around of such compositions.'),
 'C33': ('abstract interpretation of parsing and writing over enumerated '
         'packet sequences; agreement with the RFC 4880 11.3 grammar',
         'About 1,900 packet sequences (all of length <= 2 over 21 packet '
         'kinds, <= 3 over eight, <= 4 over five, longer ones from the '
         'grammar and mutated) with symbolic contents; longer sequences are '
         'sampled, not enumerated.'),
 'C36': ('abstract interpretation to value graphs; packet/object/key-object '
         'round trip and role mapping',
         'Key packets of every kind, version, algorithm and protection form '
         'with symbolic parameters are turned into objects and back; the '
         'octets, each attribute and the constructor arguments must be the '
         'same value graphs.'),
 'C32': ('abstract interpretation to value graphs; equality of the data fed '
         'in and the data read back',
         'Symbolic pieces over 1-3 calls through every compressor and the '
         'matching decompressor; library codecs are modelled as inverse '
         'stream functions of everything fed so far.'),
 'C02': ('abstract interpretation to value graphs; equality of the accept '
         'condition with an RFC 4880 reference',
         'Symbolic key values, signature values and times; enumerated '
         'versions, types, algorithms and sizes. The library primitives are '
         'uninterpreted functions of their arguments.'),
 'C03': ('abstract interpretation to value graphs; equality of every digest '
         'input with the octets RFC 4880 5.2.4 prescribes',
         'Symbolic key values, times and contents; enumerated versions, '
         'types, items, digests and a set of sizes around the length '
         'encodings. Text documents are left to C31.'),
 'C01': ('abstract interpretation of encryption and decryption over symbolic '
         'octets, the cipher in feedback mode and SHA-1 uninterpreted; '
         'equality of the accepting condition and of what is written with '
         'RFC 4880',
         'Keys, prefixes, contents and codes are symbolic; every cipher, '
         'message lengths 0 to 35 and around the length forms (0 to 183 in '
         'the thorough tier), and endings that are not a code. The cipher '
         'implementations themselves are opaque, and a message is one '
         'literal packet.'),
 'C05': ('abstract interpretation of unlock/lock/use histories and '
         'reachability of secret values in the final heap',
         'Symbolic key material for every algorithm and protection mode, '
         'subkey sets of up to two, fixed histories including returns, '
         'breaks and exceptions out of the context manager. Copies held by '
         'the interpreter or libraries are out of sight.'),
 'C06': ('abstract interpretation of unlocking and protecting secret keys; '
         'equality of the accepting condition and values with the stored '
         'hash or checksum',
         'Symbolic key values, salts, vectors and check octets; enumerated '
         'versions, algorithms, ciphers and protection modes; cipher, hash '
         'and string-to-key digests uninterpreted.'),
 'C04': ('abstract interpretation of signature validation to value graphs; '
         'equality of the accepting condition and of every mark with the '
         'time, digest and primitive conditions',
         'Symbolic key values, times, identifiers and clock; enumerated '
         'signature types, algorithms and database contents of at most one '
         'key; primitives are uninterpreted. Only revocations by the key '
         'itself are required to be reported.'),
 'C17': ('abstract interpretation to value graphs; equality with big-endian '
         'and RFC 4880 codec reference graphs',
         'Symbolic for the fixed-width codecs; per bit length (symbolic '
         'value) for MPIs; all 256 codes for counts.'),
 'C29': ('name, attribute and argument-list resolution over the whole package; '
         'path-sensitive definite assignment of locals',
         'Every name, module attribute, call of a known callable, attribute '
         'read on self or a new instance, interface declaration and function '
         'of the package. Attributes of other objects are only matched '
         'against all attributes there are; calls through unknown values are '
         'left out. Loops are taken to run at least once.'),
 'C34': ('abstract interpretation of merging over enumerated pairs of copies; '
         'agreement with the union of their components',
         'Twenty-five pairs of copies (public, secret, framed differently, '
         'swapped) that differ in each kind of component, also through a '
         'database; the packets of the result are compared with the union of '
         'the two.'),
 'C07': ('interprocedural taint analysis from secrets to printed text, logs, '
         'warnings, exceptions and textual representations',
         'Every function of the package. Sources are recognised by what is '
         'called and by the names of fields and parameters; parsing ends a '
         'flow; lengths, types and other structural fields of a secret are '
         'not followed; calls through unknown values are left out.'),
 'C30': ('interprocedural effect and alias analysis',
         'The functions of the reviewed list sa/api.txt (arguments that are '
         'not to change), every writing, comparing, signing and verifying '
         'method (self), every constructor (sharing of lists), every mutable '
         'default and class attribute. Flow-insensitive per variable; calls '
         'through unknown values are left out.'),
}

NA = {
 'C37': 'Numeric identity of decryption after encryption depends on the '
        'arithmetic of PyCrypto\'s compiled ciphers and big integers; no '
        'static argument over this source reaches it (the layout half is '
        'covered by C01, C10 and C06).',
 'C38': 'Equality of the cipher implementations with the published functions '
        'is a property of 64/128-bit word arithmetic and of compiled '
        'extensions (camcrypt, PyCrypto) for all keys and blocks: not '
        'statically bounded without symbolic execution, which is another '
        'family.',
 'C39': 'Timing depends on the interpreter and compiled extensions; Python '
        'source gives no static cost model for secret-dependent time.',
 'C40': 'Memory and time bounds quantify over decompression ratios and '
        'nesting chosen at run time; the source imposes no bound to anchor a '
        'static argument on, and the library does not promise one.',
 'C41': 'The keyring is rewritten in place; what survives a crash depends on '
        'file-system write ordering outside the source. Known weakness, see '
        'DESIGN.md.',
}
