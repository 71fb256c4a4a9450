G = 'pgp/db/gpg.py'
CASES = [
    ('c21-add-early-raise', ['C21'], 'bug', [(G, """                raise KeyError(key.fingerprint)
            data = b''
            with open(self.filename, 'rb') as fh:
                data = fh.read()

            data +=""", """                self.lock_db()
                raise KeyError(key.fingerprint)
            data = b''
            with open(self.filename, 'rb') as fh:
                data = fh.read()

            data +=""")]),
    ('c21-offsets-no-finally', ['C21'], 'bug', [(G, """                        offset_table.setdefault(fingerprint, last_offset)
                    last_offset = fh.tell()
        finally:
            self.unlock_db()
""", """                        offset_table.setdefault(fingerprint, last_offset)
                    last_offset = fh.tell()
        except Exception:
            raise
        else:
            self.unlock_db()
""")]),
    ('c21-get-unlocked-read', ['C21'], 'bug', [(G, """    def _get_key(self, offset):
        self.lock_db()
        try:
            with open(self.filename, 'rb') as fh:
                fh.seek(offset)""", """    def _get_key(self, offset):
        fh = open(self.filename, 'rb')
        self.lock_db()
        try:
            with fh:
                fh.seek(offset)""")]),
    ('c21-write-after-release', ['C21'], 'bug', [(G, """                data += fh.read()
            with open(self.filename, 'wb') as fh:
                fh.write(data)
            self._update_offset_table()
        finally:
            self.unlock_db()
""", """                data += fh.read()
        finally:
            self.unlock_db()
        with open(self.filename, 'wb') as fh:
            fh.write(data)
        self._update_offset_table()
""")]),
    ('c21-stale-any', ['C21'], 'bug', [(G, """            return e.errno == errno.ESRCH
        return False""", """            return e.errno == errno.ESRCH
        return True""")]),
    ('c21-stale-node', ['C21'], 'bug', [(G, """        if not same_node or pid == os.getpid():""",
      """        if pid == os.getpid():""")]),
    ('c21-timeout-held', ['C21'], 'bug', [(G, """                if timeout is not None and (time.time() - start) > timeout:
                    self._lock.release()
                    return False""", """                if timeout is not None and (time.time() - start) > timeout:
                    return False""")]),
    ('c21-release-first', ['C21'], 'bug', [(G, """            if self._depth == 0:
                self.locked = False""", """            if self._depth <= 1:
                self.locked = False""")]),
    ('c21-gdbm-return-in-lock', ['C21'], 'bug', [(G, """            with gdbm.open(self.filename, 'w') as db:
                if key.fingerprint in db:
                    raise KeyError(key.fingerprint)
                db[key.fingerprint] = \\
                    b''.join(map(bytes, key.to_packets(
                        self._preferred_header_format)))
        finally:
            self.unlock_db()""", """            with gdbm.open(self.filename, 'w') as db:
                if key.fingerprint in db:
                    raise KeyError(key.fingerprint)
                db[key.fingerprint] = \\
                    b''.join(map(bytes, key.to_packets(
                        self._preferred_header_format)))
            self.unlock_db()
        except OSError:
            self.unlock_db()
            raise""")]),
    ('c21-cleanup-foreign', ['C21'], 'bug', [(G, """            while l.locked:
                l.release()""", """            while l.locked:
                l.release()
            os.unlink(l.name)""")]),
    ('c21-same-context', ['C21', 'C22', 'C23'], 'same', [(G, """    def lock_db(self):
        self._lock.acquire()
""", """    @contextlib.contextmanager
    def _locked(self):
        self.lock_db()
        try:
            yield
        finally:
            self.unlock_db()

    def lock_db(self):
        self._lock.acquire()
"""), (G, "import errno\n", "import contextlib\nimport errno\n"), (G, """        self.lock_db()
        try:
            with open(self.filename, 'rb') as fh:
                fh.seek(offset)
                packets = []
                packet_iter = parse_binary_packet_stream(fh)
                for packet in packet_iter:
                    if packet.type == constants.COMPRESSED_DATA_PACKET_TYPE:
                        continue
                    elif packets and packet.type in (
                            constants.PUBLIC_KEY_PACKET_TYPE,
                            constants.SECRET_KEY_PACKET_TYPE,
                            ):
                        break
                    else:
                        packets.append(packet)
        finally:
            self.unlock_db()
""", """        with self._locked():
            with open(self.filename, 'rb') as fh:
                fh.seek(offset)
                packets = []
                packet_iter = parse_binary_packet_stream(fh)
                for packet in packet_iter:
                    if packet.type == constants.COMPRESSED_DATA_PACKET_TYPE:
                        continue
                    elif packets and packet.type in (
                            constants.PUBLIC_KEY_PACKET_TYPE,
                            constants.SECRET_KEY_PACKET_TYPE,
                            ):
                        break
                    else:
                        packets.append(packet)
""")]),
    ('c21-same-helper', ['C21', 'C22', 'C23'], 'same', [(G, """            with open(self.filename, 'rb') as fh:
                data = fh.read()

            data += b''.join(map(bytes, key.to_packets(
                self._preferred_header_format)))
            with open(self.filename, 'wb') as fh:
                fh.write(data)
""", """            fh = open(self.filename, 'rb')
            try:
                data = fh.read()
            finally:
                fh.close()
            new = [bytes(p) for p in key.to_packets(
                self._preferred_header_format)]
            self._write(data + b''.join(new))
"""), (G, """    def create_db(self):
        self.lock_db()
        try:
            with open(""", """    def _write(self, data):
        with open(self.filename, 'wb') as fh:
            fh.write(data)

    def create_db(self):
        self.lock_db()
        try:
            with open(""")]),
    ('c21-same-append', ['C21', 'C22', 'C23'], 'same', [(G, """            with open(self.filename, 'rb') as fh:
                data = fh.read()

            data += b''.join(map(bytes, key.to_packets(
                self._preferred_header_format)))
            with open(self.filename, 'wb') as fh:
                fh.write(data)
""", """            data = b''.join(map(bytes, key.to_packets(
                self._preferred_header_format)))
            with open(self.filename, 'ab') as fh:
                fh.write(data)
""")]),
    ('c21-same-lock-with', ['C21'], 'same', [(G, """        try:
            while not self.locked:
                try:
                    os.link(self.template_name, self.name)
                except OSError as e:
                    if e.errno != errno.EEXIST:
                        raise
                else:
                    self.locked = True
                    break
""", """        try:
            while not self.locked:
                try:
                    os.link(self.template_name, self.name)
                    self.locked = True
                    break
                except OSError as e:
                    if e.errno != errno.EEXIST:
                        raise
""")]),
    ('c22-create', ['C22'], 'bug', [(G, "            if force and not self.read_only:", "            if force:")]),
    ('c22-late', ['C22'], 'bug', [(G, """        if self.read_only:
            raise TypeError

        self.lock_db()
        try:
            with gdbm.open(self.filename, 'w') as db:
                if key.fingerprint in db:""", """        self.lock_db()
        try:
            with gdbm.open(self.filename, 'w') as db:
                if self.read_only:
                    raise TypeError
                if key.fingerprint in db:""")]),
    ('c22-silent', ['C22'], 'bug', [(G, """    def delete_transferrable_key(self, key):
        if self.read_only:
            raise TypeError

        self.lock_db()
        try:
            # The""", """    def delete_transferrable_key(self, key):
        if self.read_only:
            return

        self.lock_db()
        try:
            # The""")]),
    ('c22-not-passed', ['C22'], 'bug', [(G, """        return Keyring(filename, force, secret, read_only, default)""",
      """        return Keyring(filename, force, secret, default, read_only)""")]),
    ('c22-defaults', ['C22'], 'bug', [(G, """                              default=True, read_only=read_only,
                              secret=secret)""", """                              default=True, secret=secret)""")]),
    ('c22-update-none', ['C22'], 'bug', [(G, """        # Delete and add in one operation

        if self.read_only:
            raise TypeError
""", """        # Delete and add in one operation
""")]),
    ('c22-same-helper', ['C22', 'C21', 'C23'], 'same', [(G, """        # Delete and add in one operation

        if self.read_only:
            raise TypeError
""", """        # Delete and add in one operation
        self._check_writable()
"""), (G, """    def lock_db(self):""", """    def _check_writable(self):
        if self.read_only:
            raise TypeError('read-only')

    def lock_db(self):""")]),
    ('c22-same-rplus', ['C22', 'C23', 'C21'], 'same', [(G, """                fh.seek(last_offset)
                data += fh.read()
            with open(self.filename, 'wb') as fh:
                fh.write(data)
""", """                fh.seek(last_offset)
                rest = fh.read()
            with open(self.filename, 'r+b') as fh:
                fh.seek(offset)
                fh.write(rest)
                fh.truncate()
""")]),
    ('c23-old', ['C23'], 'bug', [(G, """                    packets.append(packet)
                    last_offset = fh.tell()
                fh.seek(last_offset)
                data += fh.read()
            data +=""", """                    packets.append(packet)
                data += fh.read()
            data +=""")]),
    ('c23-secret-boundary', ['C23'], 'bug', [(G, """                    if packets and packet.type in (
                            constants.PUBLIC_KEY_PACKET_TYPE,
                            constants.SECRET_KEY_PACKET_TYPE,
                            ):
                        break
                    packets.append(packet)
                    last_offset = fh.tell()
                fh.seek(last_offset)
                data += fh.read()
            with""", """                    if packets and packet.type == \\
                            constants.PUBLIC_KEY_PACKET_TYPE:
                        break
                    packets.append(packet)
                    last_offset = fh.tell()
                fh.seek(last_offset)
                data += fh.read()
            with""")]),
    ('c23-short-id', ['C23'], 'bug', [(G, """                        offset_table.setdefault(fingerprint, last_offset)""",
      """                        offset_table.setdefault(fingerprint[-8:], last_offset)"""),
      (G, """            if key.fingerprint not in self._offset_table:
                raise KeyError(key.fingerprint)
            offset = self._offset_table[key.fingerprint]
            data = b''
            with open(self.filename, 'rb') as fh:
                data = fh.read(offset)
                packets = []
                packet_iter = parse_binary_packet_stream(fh)
                header_format = None
                for packet in packet_iter:
                    if header_format is None:
                        header_format = packet.header_format
                    if packets and packet.type in (
                            constants.PUBLIC_KEY_PACKET_TYPE,
                            constants.SECRET_KEY_PACKET_TYPE,
                            ):
                        break
                    packets.append(packet)
                    last_offset = fh.tell()
                fh.seek(last_offset)
                data += fh.read()
            with""", """            if key.fingerprint[-8:] not in self._offset_table:
                raise KeyError(key.fingerprint)
            offset = self._offset_table[key.fingerprint[-8:]]
            data = b''
            with open(self.filename, 'rb') as fh:
                data = fh.read(offset)
                packets = []
                packet_iter = parse_binary_packet_stream(fh)
                header_format = None
                for packet in packet_iter:
                    if header_format is None:
                        header_format = packet.header_format
                    if packets and packet.type in (
                            constants.PUBLIC_KEY_PACKET_TYPE,
                            constants.SECRET_KEY_PACKET_TYPE,
                            ):
                        break
                    packets.append(packet)
                    last_offset = fh.tell()
                fh.seek(last_offset)
                data += fh.read()
            with""")]),
    ('c23-stale', ['C23'], 'bug', [(G, """            # The file may have changed since it was last read
            self._update_offset_table()
            if key.fingerprint not in self._offset_table:
                raise KeyError(key.fingerprint)
            offset""", """            if key.fingerprint not in self._offset_table:
                raise KeyError(key.fingerprint)
            offset""")]),
    ('c23-no-refresh', ['C23'], 'bug', [(G, """            data += b''.join(map(bytes, key.to_packets(header_format)))
            with open(self.filename, 'wb') as fh:
                fh.write(data)
            self._update_offset_table()
""", """            data += b''.join(map(bytes, key.to_packets(header_format)))
            with open(self.filename, 'wb') as fh:
                fh.write(data)
""")]),
    ('c23-add-replaces', ['C23'], 'bug', [(G, """                if key.fingerprint in db:
                    raise KeyError(key.fingerprint)
""", "")]),
    ('c23-rewrite-parsed', ['C23'], 'bug', [(G, """            with open(self.filename, 'rb') as fh:
                data = fh.read()

            data +=""", """            for k in self.keys():
                data += b''.join(map(bytes, self.get_transferrable_key(
                    k).to_packets(self._preferred_header_format)))

            data +=""")]),
    ('c23-plus-one', ['C23'], 'bug', [(G, """                    packets.append(packet)
                    last_offset = fh.tell()
                fh.seek(last_offset)
                data += fh.read()
            with""", """                    packets.append(packet)
                    if packet.type != constants.TRUST_PACKET_TYPE:
                        last_offset = fh.tell()
                fh.seek(last_offset)
                data += fh.read()
            with""")]),
    ('c23-same-inplace', ['C23', 'C21', 'C22'], 'same', [(G, """                fh.seek(last_offset)
                data += fh.read()
            data += b''.join(map(bytes, key.to_packets(header_format)))
""", """                data += b''.join(map(bytes, key.to_packets(header_format)))
                fh.seek(last_offset)
                data += fh.read()
""")]),
]
