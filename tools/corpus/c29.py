U, M, G, H, T, A = ('pgp/utils.py', 'pgp/message.py', 'pgp/db/gpg.py',
                    'pgp/keyserver/hkp.py', 'pgp/transferrable_keys.py',
                    'pgp/armor.py')
S = 'pgp/shortcuts.py'
CASES = [
    ('c29-name', ['C29'], 'bug', [(M, "        raise TypeError()\n\n    def to_packet", "        raise TypeErorr()\n\n    def to_packet")]),
    ('c29-branch', ['C29'], 'bug', [(U, """    instance = None
    if level is None:
        # zlib's""", """    if level is None:
        # zlib's"""), (U, """    else:
        raise ValueError(type_)

    return instance


def hash_key""", """    elif type_ > 3:
        pass

    return instance


def hash_key""")]),
    ('c29-header-branch', ['C29'], 'bug', [(A, """        part = None
        total_parts = None
        if header_matches.group('message'):
            data_type = PGP_MESSAGE
            part = header_matches""", """        if header_matches.group('message'):
            data_type = PGP_MESSAGE
            total_parts = None
            part = header_matches""")]),
    ('c29-import', ['C29'], 'bug', [(H, "import datetime\n", "")]),
    ('c29-from-import', ['C29'], 'bug', [(H, "from pgp.shortcuts import read_key\n", "from pgp.shortcuts import read_keys as read_key\n")]),
    ('c29-arity', ['C29'], 'bug', [(M, "        packets.extend(self.message_data_obj.to_packets(header_format))\n", "        packets.extend(self.message_data_obj.to_packets(header_format, True))\n")]),
    ('c29-keyword', ['C29'], 'bug', [(G, "resource = get_resource(filename, force, secret, read_only, default)", "resource = get_resource(filename, force=force, secret=secret,\n                                readonly=read_only, default=default)")]),
    ('c29-renamed-param', ['C29'], 'bug', [(M, "    def get_algorithm_and_session_key(self, secret_key):\n        if secret_key.is_locked():", "    def get_algorithm_and_session_key(self, key):\n        if secret_key.is_locked():")]),
    ('c29-attr', ['C29'], 'bug', [(M, "        return self.message_data_obj.to", "        return self.message_data.to"), (M, "            return self.message_data_obj.decrypt(sym_algo, sess_key)", "            return self.message_data_object.decrypt(sym_algo, sess_key)")][1:]),
    ('c29-module-attr', ['C29'], 'bug', [(M, "    key_hash_algorithm = 1  # MD5\n\n    def get_algorithm_and_session_key(self, passphrase):\n        hash_ = utils.get_hash_instance(", "    key_hash_algorithm = 1  # MD5\n\n    def get_algorithm_and_session_key(self, passphrase):\n        hash_ = utils.hash_instance(")]),
    ('c29-method-name', ['C29'], 'bug', [(G, """                if not resource.secret:
                    resource.delete_transferrable_key(key)""", """                if not resource.secret:
                    resource.remove_transferrable_key(key)""")]),
    ('c29-iface', ['C29'], 'bug', [(T, "    def verify(self, signature, item):\n", "    def verify(self, signature, item, hash_):\n")]),
    ('c29-try', ['C29'], 'bug', [(M, """                try:
                    sym_algo, sess_key = \\
                        sess_key_obj.get_algorithm_and_session_key(
                            secret_key_or_passphrase)
                except ValueError:
                    continue
""", """                try:
                    pair = \\
                        sess_key_obj.get_algorithm_and_session_key(
                            secret_key_or_passphrase)
                except ValueError:
                    pass
                sym_algo, sess_key = pair
""")]),
    ('c29-static', ['C29'], 'bug', [(H, "        l = _add_colons(l, 4)\n", "        l = _add_colons(l)\n")]),
    ('c29-same-else', ['C29'], 'same', [(U, """    instance = None
    if level is None:
        # zlib's""", """    if level is None:
        # zlib's""")]),
    ('c29-same-helper', ['C29'], 'same', [(G, """                if not resource.secret:
                    resource.delete_transferrable_key(key)
                    break
        else:
            raise TypeError
""", """                if not resource.secret:
                    self._delete_from(resource, key)
                    break
        else:
            raise TypeError

    def _delete_from(self, resource, key, *args, **kwargs):
        def inner(k=key):
            return resource.delete_transferrable_key(k)
        return inner()
""")]),
    ('c29-same-flag', ['C29'], 'same', [(M, """        for sess_key_obj in self.session_keys:
            if isinstance(sess_key_obj, PublicKeySessionKey):
                try:
                    sym_algo, sess_key = \\""", """        found = False
        for sess_key_obj in self.session_keys:
            found = True
            kind = type(sess_key_obj)
        if found:
            name = kind.__name__
            assert name.isidentifier() or name.casefold()
        for sess_key_obj in self.session_keys:
            if isinstance(sess_key_obj, PublicKeySessionKey):
                try:
                    sym_algo, sess_key = \\""")]),
    ('c29-same-getattr', ['C29'], 'same', [(M, "        ko = public_key._get_key_obj()\n", "        f = getattr(public_key, '_get_key_obj')\n        ko = f(*[])\n")]),
]
