U = 'pgp/utils.py'
P = 'pgp/packets/packets.py'
src = open('/repo/pgp/utils.py').read()
i = src.index('class ZlibCompression(object)')
j = src.index('def get_compression_instance')
OLD = src[i:j]
NEW = '''class _Compression(object):

    def __init__(self, level):
        self._obj = None
        self._compress = None
        self._result = []
        self.level = level

    def _start(self, compress):
        if self._result is None or self._compress is (not compress):
            raise ValueError
        if self._obj is None:
            self._compress = compress
            if compress:
                self._obj = self._new_compressor()
            else:
                self._obj = self._new_decompressor()

    def compress(self, data):
        self._start(True)
        self._result.append(self._obj.compress(data))
        return b''

    def decompress(self, data):
        self._start(False)
        self._result.append(self._obj.decompress(data))
        return b''

    def flush(self):
        if self._result is None:
            raise ValueError
        result = b''.join(self._result)
        if hasattr(self._obj, 'flush'):
            result += self._obj.flush()
        self._result = None
        return result


class ZlibCompression(_Compression):

    def _new_compressor(self):
        return zlib.compressobj(self.level)

    def _new_decompressor(self):
        return zlib.decompressobj()


class DeflateCompression(_Compression):

    def _new_compressor(self):
        return zlib.compressobj(self.level, zlib.DEFLATED, -15)

    def _new_decompressor(self):
        return zlib.decompressobj(-15)


class Bzip2Compression(_Compression):

    def _new_compressor(self):
        return bz2.BZ2Compressor(self.level)

    def _new_decompressor(self):
        return bz2.BZ2Decompressor()

    def flush(self):
        if self._result is None:
            raise ValueError
        result = b''.join(self._result)
        if self._compress:
            result += self._obj.flush()
        self._result = None
        return result


'''
k = OLD.index('class DeflateCompression')
D = OLD[k:OLD.index('class Bzip2')]
B = OLD[OLD.index('class Bzip2'):]


def dz(old, new, part=D):
    assert old in part, old
    return [(U, part, part.replace(old, new, 1))]


CASES = [
 ('base-class', ['C32'], 'same', [(U, OLD, NEW)]),
 ('return-now', ['C32'], 'same', dz("        self._result += self._obj.compress(data)\n        return b''", "        return self._obj.compress(data)", B)),
 ('loses-chunks', ['C32'], 'bug', dz("self._result += self._obj.compress(data)", "self._result = self._obj.compress(data)")),
 ('loses-chunks-d', ['C32'], 'bug', dz("self._result += self._obj.decompress(data)", "self._result = self._obj.decompress(data)")),
 ('trailer', ['C32'], 'bug', dz("result[2:-4]", "result[2:-2]")),
 ('trailer-kept', ['C32'], 'bug', dz("result[2:-4]", "result[2:]")),
 ('order', ['C32'], 'bug', dz("self._result += self._obj.decompress(data)", "self._result = self._obj.decompress(data) + self._result", B)),
 ('noflush', ['C32'], 'bug', dz("        if self._compress:\n            result += self._obj.flush()\n", "        if self._compress is None:\n            result += self._obj.flush()\n", B)),
 ('fake-each', ['C32'], 'bug', [(U, D, D.replace("            # Fake header\n            self._obj.decompress(b'\\x78\\x9c')\n        self._result += self._obj.decompress(data)", "        self._result += self._obj.decompress(b'\\x78\\x9c' + data)"))]),
 ('no-fake', ['C32'], 'bug', dz("            self._obj.decompress(b'\\x78\\x9c')\n", "")),
 ('swap', ['C32'], 'bug', [(U, "        instance = DeflateCompression(level)", "        instance = ZlibCompression(level)")]),
 ('flush-twice', ['C32'], 'bug', dz("        self._result = None\n        return result", "        self._result = b''\n        return result", B)),
 ('block', ['C32'], 'bug', dz("self._result += self._obj.decompress(data)", "self._result += self._obj.decompress(data[:900000])", B)),
 ('packet-noflush', ['C32'], 'bug', [(P, "        packet_data += algo.flush()\n", "        algo.flush()\n")]),
 ('packet-rev', ['C32'], 'bug', [(P, "packet_data = b''.join(map(bytes, packets))\n        data = algo", "packet_data = b''.join(map(bytes, packets[:1]))\n        data = algo")]),
 ('maxlen', ['C32'], 'bug', dz("self._result += self._obj.decompress(data)", "self._result += self._obj.decompress(data, 1 << 20)")),
]
