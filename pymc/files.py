"""Files with known contents. Records are packed here from their published layout, independently of the library."""
import os, struct, copclib as copc
from copclib import FileWriter, FileReader, LazWriter, LazReader, VoxelKey, VectorChar, CopcConfigWriter

BASE = {6: 30, 7: 36, 8: 38}
TMP = os.environ.get('MC_TMP') or '/tmp'


def rec(fmt, eb, x, y, z, cls, seed=0):
    """One record: position, classification, and every other field made from the seed."""
    s = seed * 2654435761 & 0xffffffff
    r = struct.pack('<iiiHBBBBhHd', x, y, z, s & 0xffff, (s >> 3 & 15) | (s >> 7 & 15) << 4, s >> 5 & 255, cls, s >> 11 & 255,
                    (s >> 9 & 0x7fff) - 12000, s >> 13 & 0xffff, seed + 0.5)
    if fmt >= 7:
        r += struct.pack('<HHH', s >> 2 & 0xffff, s >> 4 & 0xffff, s >> 6 & 0xffff)
    if fmt >= 8:
        r += struct.pack('<H', s >> 8 & 0xffff)
    assert len(r) == BASE[fmt]
    return r + bytes((seed * 7 + i * 13 + 1) & 255 for i in range(eb))


def xyz_ints(recs, size):
    return [struct.unpack_from('<iii', recs, i) for i in range(0, len(recs), size)]


def classes(recs, size):
    return [recs[i + 16] for i in range(0, len(recs), size)]


def data(v):
    """bytes of a VectorChar"""
    return bytes(v)


def eb_vlr(n):
    """Extra bytes: n undocumented bytes in one field."""
    v = copc.EbVlr(n)
    return v


class Spec:
    """What a file holds: nodes maps (d, x, y, z) to (page, records)."""
    def __init__(self, fmt=7, eb=0, scale=0.01, offset=(0, 0, 0), bounds=((0, 0, 0), (64, 64, 64)), spacing=8.0):
        self.fmt, self.eb, self.scale, self.offset, self.bounds, self.spacing = fmt, eb, scale, offset, bounds, spacing
        self.nodes = {}

    @property
    def size(self):
        return BASE[self.fmt] + self.eb

    def add(self, key, n, page=(0, 0, 0, 0), seed=0, cls=None):
        d, kx, ky, kz = key
        cell = 64 / 2 ** d
        r = b''
        for i in range(n):
            u = ((i * 7 + seed * 3) % 97 + 1) / 100.0
            p = [int(round((k * cell + cell * f) / self.scale)) for k, f in ((kx, u), (ky, (u * 3) % 1), (kz, (u * 7) % 1))]
            p = [a - int(round(o / self.scale)) for a, o in zip(p, self.offset)]
            r += rec(self.fmt, self.eb, *p, (cls(i) if cls else (i + seed) % 5), seed * 50 + i)
        self.nodes[key] = (page, r)
        return self

    def config(self):
        cfg = CopcConfigWriter(self.fmt, [self.scale] * 3, list(self.offset), 'WKT', eb_vlr(self.eb) if self.eb else copc.EbVlr(0), True)
        cfg.las_header.min = list(self.bounds[0])
        cfg.las_header.max = list(self.bounds[1])
        cfg.copc_info.spacing = self.spacing
        cfg.copc_info.halfsize = 32
        return cfg

    def write(self, path):
        w = FileWriter(path, self.config())
        for k, (page, r) in self.nodes.items():
            w.AddNode(VoxelKey(*k), VectorChar(r), VoxelKey(*page))
        w.Close()
        return path

    def coords(self, r):
        """Coordinates as the library defines them: integer times scale plus offset."""
        return [tuple(a * self.scale + o for a, o in zip(p, self.offset)) for p in xyz_ints(r, self.size)]

    def count(self, key):
        return len(self.nodes[key][1]) // self.size


def kt(k):
    return (k.d, k.x, k.y, k.z)


_cache = {}


def path_for(name, make):
    """Write a file once per process."""
    if name not in _cache:
        s = make()
        p = os.path.join(TMP, 'f-%s-%d.copc.laz' % (name, os.getpid()))
        s.write(p)
        _cache[name] = (p, s)
    return _cache[name]


KEYS = [(0, 0, 0, 0), (1, 1, 0, 0), (2, 2, 1, 0), (1, 0, 1, 1), (3, 7, 7, 7), (2, 0, 2, 2)]
PAGES = [(0, 0, 0, 0), (0, 0, 0, 0), (1, 1, 0, 0), (1, 0, 1, 1), (3, 7, 7, 7), (1, 0, 1, 1)]


def octree(n):
    """The first n keys of a full octree, level by level."""
    v = [(0, 0, 0, 0)]
    i = 0
    while len(v) < n:
        d, x, y, z = v[i]
        v += [(d + 1, x * 2 + (j & 1), y * 2 + (j >> 1 & 1), z * 2 + (j >> 2)) for j in range(8)]
        i += 1
    return v[:n]


def many(n, fmt=7, points=1):
    """A file with many nodes, in pages of one level each."""
    def make():
        s = Spec(fmt)
        for i, k in enumerate(octree(n)):
            page = (0, 0, 0, 0) if k[0] < 2 else (2, k[1] >> (k[0] - 2), k[2] >> (k[0] - 2), k[3] >> (k[0] - 2))
            s.add(k, points + i % 3, page, seed=i)
        return s
    return path_for('many%d-%d-%d' % (n, fmt, points), make)


def std(n, fmt=7, eb=0, scale=0.01, offset=(0, 0, 0)):
    """The standard file with n nodes of different sizes."""
    def make():
        s = Spec(fmt, eb, scale, offset)
        for i in range(n):
            s.add(KEYS[i], 2 + i, PAGES[i], seed=i + 1)
        return s
    return path_for('std%d-%d-%d-%g-%g' % (n, fmt, eb, scale, offset[0]), make)
