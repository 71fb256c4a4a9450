"""Keyring files: drivers and models.  Interpreted abstractly, never
executed."""
from pgp import transferrable_keys as T
from pgp.db import gpg as G
from pgp.packets import packets as P

RING = '/home/ring.gpg'


class Exists(OSError):
    errno = 17


class Missing(OSError):
    errno = 2


class NoProcess(OSError):
    errno = 3


class Broken(OSError):
    errno = 5


class Stop(Exception):
    pass


class FS(object):
    """The files, and what is done to them."""

    def __init__(self, names, contents, alive, fault):
        self.files = {}
        for i, n in enumerate(names):
            c = contents[i]
            if isinstance(c, tuple):
                table = {}
                for k, v in c:
                    table[k] = v
                c = table
            self.files[n] = c
        self.alive = alive
        self.fault = fault
        self.count = 0
        self.links = []
        self.log = []
        self.sleeps = 0
        self.clock = 0
        self.opened = 0
        self.foreign = 0

    def note(self, what, name):
        if name.endswith('gpg'):
            self.log.append((what, len(self.links)))
            self.count = self.count + 1
            if self.fault == self.count:
                raise Broken()

    def open(self, name, mode='r'):
        if 'w' in mode or 'x' in mode:
            self.note('truncate', name)
            self.files[name] = b'' if 'b' in mode else ''
        elif '+' in mode:
            self.note('modify', name)
        elif 'a' in mode:
            self.note('modify', name)
            if name not in self.files:
                self.files[name] = b'' if 'b' in mode else ''
        else:
            self.note('open', name)
            if name not in self.files:
                raise Missing()
        f = File(self, name)
        if 'a' in mode:
            f.pos = len(self.files[name])
        return f

    def exists(self, name):
        return name in self.files

    def link(self, old, new):
        if new in self.files:
            raise Exists()
        self.files[new] = self.files[old]
        self.links.append(new)

    def unlink(self, name):
        if name not in self.files:
            raise Missing()
        self.note('remove', name)
        if name in self.links:
            self.links.remove(name)
        elif name == RING + '.lock':
            self.foreign = self.foreign + 1
        del self.files[name]

    def rename(self, old, new):
        self.note('replace', new)
        self.files[new] = self.files[old]
        del self.files[old]

    def chmod(self, name, mode):
        if name.endswith('gpg'):
            self.log.append(('chmod', len(self.links)))

    def kill(self, pid, sig):
        if pid not in self.alive:
            raise NoProcess()

    def sleep(self, seconds):
        self.sleeps = self.sleeps + 1
        self.clock = self.clock + 1
        if self.sleeps > 6:
            raise Stop()

    def time(self):
        self.clock = self.clock + 0.25
        if self.clock > 20:
            raise Stop()
        return self.clock

    def dbm(self, name, mode='r', perm=0):
        if mode[0] == 'n':
            self.note('truncate', name)
        elif mode[0] in ('w', 'c'):
            self.note('modify', name)
        else:
            self.note('open', name)
        return Table(self, name)


def octets(key):
    if isinstance(key, str):
        return key.encode('us-ascii')
    return key


class Table(object):
    """An open GDBM file.  Its content is a list of keys and one of values."""

    def __init__(self, fs, name):
        self.fs = fs
        self.name = name

    def __enter__(self):
        return self

    def __exit__(self, a, b, c):
        self.close()

    def close(self):
        pass

    def sync(self):
        pass

    def reorganize(self):
        self.fs.note('write', self.name)

    def table(self):
        return self.fs.files[self.name]

    def keys(self):
        self.fs.note('read', self.name)
        return list(self.table())

    def firstkey(self):
        self.fs.note('read', self.name)
        for k in self.table():
            return k
        return None

    def nextkey(self, key):
        self.fs.note('read', self.name)
        seen = False
        for k in self.table():
            if seen:
                return k
            if k == octets(key):
                seen = True
        return None

    def __contains__(self, key):
        return octets(key) in self.table()

    def __getitem__(self, key):
        self.fs.note('read', self.name)
        return self.table()[octets(key)]

    def __setitem__(self, key, value):
        self.fs.note('write', self.name)
        self.table()[octets(key)] = value

    def __delitem__(self, key):
        self.fs.note('write', self.name)
        del self.table()[octets(key)]


class File(object):

    def __init__(self, fs, name):
        self.fs = fs
        self.name = name
        self.pos = 0
        self.closed = False
        fs.opened = fs.opened + 1

    def __enter__(self):
        return self

    def __exit__(self, a, b, c):
        self.close()

    def close(self):
        if not self.closed:
            self.closed = True
            self.fs.opened = self.fs.opened - 1

    def tell(self):
        return self.pos

    def seek(self, pos, whence=0):
        if whence == 2:
            pos = pos + len(self.fs.files[self.name])
        elif whence == 1:
            pos = pos + self.pos
        self.pos = pos
        return pos

    def read(self, size=-1):
        data = self.fs.files[self.name]
        if size is None or size < 0:
            self.fs.note('read', self.name)
            size = len(data)
        else:
            self.quiet()
        out = data[self.pos:self.pos + size]
        self.pos = self.pos + len(out)
        return out

    def quiet(self):
        """A read of a few octets: noted, but no step at which to fail."""
        if self.name.endswith('gpg') and not self.fs.links:
            self.fs.log.append(('read', 0))

    def write(self, data):
        self.fs.note('write', self.name)
        old = self.fs.files[self.name]
        self.fs.files[self.name] = old[:self.pos] + data + \
            old[self.pos + len(data):]
        self.pos = self.pos + len(data)
        return len(data)

    def flush(self):
        pass

    def fileno(self):
        return 3

    def truncate(self, size=None):
        if size is None:
            size = self.pos
        self.fs.note('truncate', self.name)
        self.fs.files[self.name] = self.fs.files[self.name][:size]
        return size


class RL(object):
    """A lock between threads."""

    def __init__(self):
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        self.count = self.count + 1
        return True

    def release(self):
        if self.count == 0:
            raise RuntimeError('not held')
        self.count = self.count - 1

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, a, b, c):
        self.release()


class Packets(object):
    """The packets in a file, one by one."""

    def __init__(self, fh):
        self.fh = fh

    def __iter__(self):
        return self

    def __next__(self):
        pos = self.fh.tell()
        if len(self.fh.read(1)) != 1:
            raise StopIteration()
        self.fh.seek(pos)
        return P.packet_from_packet_stream(self.fh)


class Octets(object):
    """The packets in an octet string, one by one."""

    def __init__(self, data):
        self.data = data
        self.pos = 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.pos >= len(self.data):
            raise StopIteration()
        end, p = P.packet_from_packet_data(self.data, self.pos)
        self.pos = end
        return p


def packet(data):
    end, p = P.packet_from_packet_data(data, 0)
    return p


def load(datas):
    parts = [packet(d) for d in datas]
    if parts[0].type == 5:
        return T.TransferableSecretKey.from_packets(parts)
    return T.TransferablePublicKey.from_packets(parts)


def ring(fs, cls, read_only, force):
    if cls == 'gdbm':
        return G.GDBM(RING, force, False, read_only, False)
    return G.Keyring(RING, force, False, read_only, False)


def operate(fsargs, cls, read_only, force, op, datas, reset):
    fs = FS(*fsargs)
    r = ring(fs, cls, read_only, force)
    if reset:
        fs.count = 0
    fs.log.append(('begin', 0))
    key = None
    if datas:
        key = load(datas)
    result = None
    if op == 'add':
        r.add_transferrable_key(key)
    elif op == 'update':
        r.update_transferrable_key(key)
    elif op == 'delete':
        r.delete_transferrable_key(key)
    elif op == 'get':
        result = r.get_transferrable_key(key.fingerprint)
    elif op == 'keys':
        result = list(r.keys())
    return result


def after(fsargs, cls, op, datas, others):
    """The user IDs found under the fingerprints of the other keys."""
    fs = FS(*fsargs)
    r = ring(fs, cls, False, False)
    apply(r, op, datas)
    out = []
    for d in others:
        k = r.get_transferrable_key(load(d).fingerprint)
        out.append(k.user_ids[0].user_id)
    return tuple(out)


def apply(r, op, datas):
    key = load(datas)
    if op == 'add':
        r.add_transferrable_key(key)
    elif op == 'update':
        r.update_transferrable_key(key)
    elif op == 'delete':
        r.delete_transferrable_key(key)


def history(fsargs, cls, steps):
    """Changes through two objects for the same file, one after another.
    What one of them refuses leaves the file alone."""
    fs = FS(*fsargs)
    a = ring(fs, cls, False, False)
    b = ring(fs, cls, False, False)
    for which, op, datas in steps:
        try:
            apply(b if which else a, op, datas)
        except (KeyError, TypeError):
            pass


def database(fsargs, read_only, defaults, op, datas):
    """The same through the collection of keyrings."""
    fs = FS(*fsargs)
    fs.log.append(('begin', 0))
    db = G.GPGDatabase()
    if defaults:
        db.load_default_resources(True, read_only)
    else:
        db.add_resource(RING, True, False, False, read_only, False)
    key = load(datas)
    if op == 'add':
        db.add_key(key)
    elif op == 'update':
        db.update_key(key)
    elif op == 'delete':
        db.delete_key(key)


def nested(fsargs, cls, datas, op):
    """The lock, held around an operation."""
    fs = FS(*fsargs)
    r = ring(fs, cls, False, False)
    key = load(datas)
    r.lock_db()
    a = len(fs.links)
    if op == 'get':
        r.get_transferrable_key(key.fingerprint)
    elif op == 'keys':
        list(r.keys())
    elif op == 'update':
        r.update_transferrable_key(key)
    elif op == 'delete':
        r.delete_transferrable_key(key)
    elif op == 'lock':
        r.lock_db()
        r.lock_db()
        r.unlock_db()
        r.unlock_db()
    b = len(fs.links)
    r.unlock_db()
    return a, b, len(fs.links)


def acquire(fsargs, timeout):
    fs = FS(*fsargs)
    k = G.Lock(RING)
    if timeout is None:
        got = k.acquire()
    else:
        got = k.acquire(timeout)
    return got


def clean(fsargs):
    fs = FS(*fsargs)
    k = G.Lock(RING)
    G._clean_up_locks()


def held(fsargs, cls):
    """A lock taken and not given back."""
    fs = FS(*fsargs)
    r = ring(fs, cls, False, False)
    r.lock_db()


def other(fsargs):
    """Two locks for one file: while the first is held the second can be
    neither taken nor released."""
    fs = FS(*fsargs)
    a = G.Lock(RING)
    b = G.Lock(RING)
    a.acquire()
    got = b.acquire(1)
    b.release()
    return bool(got), len(fs.links)
