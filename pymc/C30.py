"""C30: pickling and copying lose nothing."""
import copy, itertools, math, os, pickle, struct
import copclib as copc
import files
from mcpy import scenario, THOROUGH
from files import data

WAYS = [('protocol %d' % p, lambda x, p=p: pickle.loads(pickle.dumps(x, p))) for p in range(2, pickle.HIGHEST_PROTOCOL + 1)]
WAYS += [('copy', copy.copy), ('deepcopy', copy.deepcopy), ('twice', lambda x: pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(x))))),
         ('in a tuple', lambda x: pickle.loads(pickle.dumps((1, [x], x)))[2]), ('python pickler', lambda x: pickle._loads(pickle._dumps(x)))]
I32 = [0, 1, -1, 2, 255, 256, 65536, 2**31 - 1, -2**31, 12345678]
DBL = [0.0, -0.0, 1.0, -1.5, 0.1, 1e300, -1e-300, 5e-324, math.inf, -math.inf, math.nan, 2.0**53 + 2]


def bits(v):
    return struct.pack('<d', v)


@scenario('byte vectors', shards=4)
def vectors(c):
    way, f = c.pick(WAYS, 'way')
    kind = c.choose(3, 'kind')
    if kind == 0:
        b = bytes([c.choose(256, 'byte')])
    elif kind == 1:
        b = bytes(c.pick([0, 10, 13, 127, 128, 200, 255], 'byte') for _ in range(c.choose(4, 'length')))
    else:
        b = bytes(i * 31 % 256 for i in range(c.pick([255, 256, 257, 65535, 65536, 100000], 'length')))
    v = copc.VectorChar(b)
    c.step()
    w = f(v)
    c.check(w is not v, 'same object', 'not a copy')
    c.check(data(w) == b and w == v and len(w) == len(b), 'bytes', 'bytes came back changed')
    w.append('x')
    c.check(data(v) == b, 'shared', 'the copy shares its bytes with the original')
    c.state('%s %d %r' % (way, kind, b[:20]))


@scenario('keys', shards=4)
def keys(c):
    way, f = c.pick(WAYS, 'way')
    t = (c.pick(I32, 'd'), c.pick(I32, 'x'), c.pick(I32[:6] if not THOROUGH else I32, 'y'), c.pick(I32[3:], 'z'))
    k = copc.VoxelKey(*t)
    c.step()
    w = f(k)
    c.eq((w.d, w.x, w.y, w.z), t, 'key')
    c.check(w == k and hash(w) == hash(k) and str(w) == str(k), 'equality', 'the copy is not equal to the key %s' % (t,))
    w.d = 7
    c.eq(k.d, t[0], 'the copy shares its values')
    c.state(way + repr(t))


@scenario('vectors', shards=4)
def vector3(c):
    way, f = c.pick(WAYS, 'way')
    t = (c.pick(DBL, 'x'), c.pick(DBL, 'y'), c.pick(DBL, 'z'))
    v = copc.Vector3(*t)
    c.step()
    w = f(v)
    c.eq([bits(x) for x in (w.x, w.y, w.z)], [bits(x) for x in t], 'vector')
    c.state(way + repr(t))


U64 = [0, 1, 2**31, 2**32 - 1, 2**32, 2**63 - 1, 2**63, 2**64 - 1, 123456789012345]
KEYS = [(0, 0, 0, 0), (-1, -1, -1, -1), (5, 1, 2, 3), (31, 2**31 - 1, 7, 9)]


@scenario('nodes', shards=4)
def nodes(c):
    way, f = c.pick(WAYS, 'way')
    n = copc.Node()
    vals = dict(key=c.pick(KEYS, 'key'), page_key=c.pick(KEYS, 'page'), offset=c.pick(U64, 'offset'), byte_size=c.pick(I32, 'size'), point_count=c.pick(I32 if THOROUGH else I32[::2], 'count'))
    for a, v in vals.items():
        setattr(n, a, copc.VoxelKey(*v) if 'key' in a else v)
    c.step()
    w = f(n)
    for a, v in vals.items():
        g = getattr(w, a)
        c.eq(files.kt(g) if 'key' in a else g, v, a)
    c.eq((w.IsValid(), w.IsPage(), str(w)), (n.IsValid(), n.IsPage(), str(n)), 'node')
    w.key = copc.VoxelKey(9, 9, 9, 9)
    w.page_key.d = 9
    c.eq((files.kt(n.key), files.kt(n.page_key)), (vals['key'], vals['page_key']), 'the copy shares its keys')
    c.state(way + repr(vals))


TEXT = ['', 'a', 'text', 'x' * 31, 'y' * 32, 'caf\u00e9', 'tab\tnew\nline', 'a\0b']
U16 = [0, 1, 16, 255, 256, 65535]
V3 = [(0, 0, 0), (1, 2, 3), (-1.5, 1e300, 0.1), (5e-324, -0.0, math.inf)]
RET = [tuple([0] * 15), tuple(range(1, 16)), tuple(2**64 - 1 - i for i in range(15))]
TEXT16 = [t for t in TEXT if len(t) < 16] + ['g' * 16]
HEADER = dict(file_source_id=U16, global_encoding=U16, guid=TEXT16, system_identifier=TEXT, generating_software=TEXT, creation_day=U16, creation_year=U16,
              max=V3, min=V3, points_by_return=RET)
READONLY = ['point_offset', 'vlr_count', 'point_format_id', 'point_record_length', 'scale', 'offset', 'evlr_offset', 'evlr_count', 'point_count']


def header_view(h):
    """Everything Python can see of a header."""
    o = {}
    for a in sorted(x for x in dir(type(h)) if not x.startswith('_')):
        try:
            v = getattr(h, a)
        except UnicodeDecodeError:
            v = 'not text'
        if callable(v):
            if a in ('EbByteSize', 'Span'):
                o[a] = v()
            continue
        if isinstance(v, copc.Vector3):
            v = tuple(bits(x) for x in (v.x, v.y, v.z))
        elif isinstance(v, (list, tuple)):
            v = tuple(v)
        o[a] = v
    try:
        b = h.Bounds()
        o['bounds'] = (b.x_min, b.x_max, b.y_min, b.y_max, b.z_min, b.z_max)
    except RuntimeError as e:
        o['bounds'] = str(e)
    for s in ('__str__',):
        try:
            o[s] = str(h)
        except UnicodeDecodeError:
            o[s] = 'not text'
    if isinstance(o.get('Span'), float) and o['Span'] != o['Span']:
        o['Span'] = 'nan'
    return o


def sources():
    """Headers from a default constructor, configurations, files and writers."""
    def default():
        return copc.LasHeader()

    def config(fmt, eb):
        return lambda: files.Spec(fmt, eb, 0.25, (7, 8, 9)).config().las_header

    def read(laz):
        def f():
            p, s = files.std(3, 8, 5)
            if not laz:
                return copc.FileReader(p).copc_config.las_header
            out = p + '.laz'
            if not os.path.exists(out):
                w = copc.LazWriter(out, copc.FileReader(p).copc_config)
                w.WritePoints(copc.FileReader(p).GetAllPoints())
                w.Close()
            return copc.LazReader(out).laz_config.las_header
        return f
    return [('default', default)] + [('config %d %d' % (f, e), config(f, e)) for f in (6, 7, 8) for e in (0, 5)] + [('COPC file', read(False)), ('LAZ file', read(True))]


SOURCES = sources()


@scenario('headers', shards=8)
def headers(c):
    """Up to two attributes set to any of their values."""
    name, make = c.pick(SOURCES, 'header')
    way, f = c.pick(WAYS if THOROUGH else WAYS[::3] + WAYS[-1:], 'way')
    h = make()
    attrs = sorted(HEADER)
    i = c.choose(len(attrs) + 1, 'first attribute')
    done = {}
    if i:
        a = attrs[i - 1]
        done[a] = c.pick(HEADER[a], a)
        j = c.choose(len(attrs) - i + 1, 'second attribute')
        if j:
            b = attrs[i - 1 + j]
            done[b] = c.pick(HEADER[b][1::2], b)
    for a, v in done.items():
        setattr(h, a, list(v) if isinstance(v, tuple) else v)
    c.op('%s header with %s by %s' % (name, done, way))
    want = header_view(h)
    for a, v in done.items():
        if isinstance(v, tuple) and len(v) == 3:
            c.eq(want[a], tuple(bits(x) for x in v), 'attribute set')
        elif not isinstance(v, str):
            c.eq(want[a], v, 'attribute set')
        elif len(v) < 16 and '\0' not in v:
            c.eq(want[a], v, 'attribute set')
    w = f(h)
    got = header_view(w)
    for a in want:
        c.eq(got[a], want[a], 'attribute ' + a)
    w.file_source_id = 77
    w.max = [9, 9, 9]
    w.min.x = 4
    c.eq(header_view(h), want, 'the copy shares its values')
    # as a packing header it is as good as the original
    pts = copc.Points(h)
    p = pts.CreatePoint()
    if name != 'default':
        p.x, p.y, p.z = 8, 9, 10
        pts.AddPoint(p)
        c.eq(data(pts.Pack(f(h))), data(pts.Pack(h)), 'packing')
        c.eq(data(copc.CompressBytes(pts.Pack(h), f(h))), data(copc.CompressBytes(pts.Pack(h), h)), 'compression')
    c.state(name + way + repr(done))


BINARY = [bytes(16), bytes(range(0x80, 0x90)), b'\xff' * 16, b'\0\x01' * 8, b'text', b'\xc3\x28', bytes(range(16))]


@scenario('headers read from files with binary identifiers')
def binary(c):
    """Identifiers need not be text; a header with such ones still goes to the workers."""
    way, f = c.pick(WAYS, 'way')
    field, at, n = c.pick([('guid', 8, 16), ('system_identifier', 26, 32), ('generating_software', 58, 32)], 'field')
    v = c.pick(BINARY, 'value')
    p, s = files.std(1)
    img = bytearray(open(p, 'rb').read())
    img[at:at + n] = v.ljust(n, b'\0')
    out = p + '.bin'
    open(out, 'wb').write(img)
    h = copc.FileReader(out).copc_config.las_header
    os.unlink(out)
    c.op('%s %r by %s' % (field, v, way))
    want = header_view(h)
    w = f(h)
    c.eq(header_view(w), want, 'header')
    c.check(w.__getstate__() == h.__getstate__(), 'identifier bytes', 'the bytes of the identifiers changed')
    c.eq(header_view(f(w)), want, 'header copied twice')
    c.state(way + field + repr(v))


@scenario('bad states')
def bad_states(c):
    """A state of the wrong shape is refused."""
    t, good = c.pick([(copc.VoxelKey, (1, 2, 3, 4)), (copc.Node, (copc.VoxelKey(0, 0, 0, 0), 1, 2, 3, copc.VoxelKey(0, 0, 0, 0)))], 'type')
    kind = c.choose(3, 'kind')
    c.op('bad state %d of %s' % (kind, t.__name__))
    o = t.__new__(t)
    if kind == 0:
        o.__setstate__(good)
        c.check(type(o) is t, 'good state', 'refused')
    else:
        c.raises(lambda: o.__setstate__(good[:-1] if kind == 1 else good + (1,)), 'state of the wrong length', RuntimeError)
    c.state(repr((t, kind)))
