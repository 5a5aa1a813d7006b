"""C35: the Python module exposes the library's meaning: attributes, methods, conversions, sequences."""
import itertools, math, os, struct
import copclib as copc
import files
from mcpy import scenario, THOROUGH
from files import data, kt, std, Spec, BASE, path_for, VoxelKey, VectorChar

# ---------------------------------------------------------------- records
# name: (formats, offset in the record, reader of the record bytes, values)


def u8(at):
    return lambda r: r[at]


def field(fmt, at):
    return lambda r: struct.unpack_from(fmt, r, at)[0]


def bit(at, sh, n=1):
    return lambda r: r[at] >> sh & ((1 << n) - 1)


B = [False, True]
U8 = [0, 1, 127, 128, 255]
U16 = [0, 1, 255, 256, 32768, 65535]
FIELDS = {
    'intensity': (6, field('<H', 12), U16), 'returns_bit_field': (6, u8(14), U8),
    'return_number': (6, bit(14, 0, 4), [0, 1, 7, 15]), 'number_of_returns': (6, bit(14, 4, 4), [0, 1, 7, 15]),
    'flags_bit_field': (6, u8(15), U8), 'synthetic': (6, bit(15, 0), B), 'key_point': (6, bit(15, 1), B), 'withheld': (6, bit(15, 2), B),
    'overlap': (6, bit(15, 3), B), 'scanner_channel': (6, bit(15, 4, 2), [0, 1, 2, 3]), 'scan_direction_flag': (6, bit(15, 6), B),
    'edge_of_flight_line': (6, bit(15, 7), B), 'classification': (6, u8(16), U8), 'user_data': (6, u8(17), U8),
    'scan_angle': (6, field('<h', 18), [0, 1, -1, 30000, -30000]), 'point_source_id': (6, field('<H', 20), U16),
    'gps_time': (6, field('<d', 22), [0.0, 1.5, -1e300, 5e-324]),
    'red': (7, field('<H', 30), U16), 'green': (7, field('<H', 32), U16), 'blue': (7, field('<H', 34), U16), 'nir': (8, field('<H', 36), U16),
}
BITS = {'returns_bit_field': ['return_number', 'number_of_returns'],
        'flags_bit_field': ['synthetic', 'key_point', 'withheld', 'overlap', 'scanner_channel', 'scan_direction_flag', 'edge_of_flight_line']}
SCALE, OFFSET = [0.01, 0.02, 0.04], [1.0, 2.0, 3.0]


def header(fmt, eb=0):
    return copc.CopcConfigWriter(fmt, SCALE, OFFSET, '', copc.EbVlr(eb)).las_header


def pack1(p, h):
    return data(copc.Points([p]).Pack(h))


@scenario('point attributes', shards=4)
def point_attributes(c):
    """Every attribute goes to its own place in the record and to no other, whatever was there."""
    fmt = 6 + c.choose(3, 'format')
    h = header(fmt, 2)
    back = c.pick([0, 0x55, 0xaa, 0x10], 'background')
    raw = bytes([back]) * (BASE[fmt] + 2)
    raw = raw[:18] + struct.pack('<h', 100) + raw[20:22] + struct.pack('<d', 7.25) + raw[30:]
    p = copc.Points.Unpack(VectorChar(raw), h)[0]
    for name, (f, get, _) in FIELDS.items():
        if f <= fmt:
            c.eq(getattr(p, name), get(raw), 'reading ' + name)
        else:
            c.raises(lambda: getattr(p, name), 'reading ' + name)
    names = [n for n in FIELDS if FIELDS[n][0] <= fmt]
    todo = [c.pick(names, 'attribute')]
    if THOROUGH or c.flip('second attribute'):
        todo.append(c.pick(names, 'second'))
    for name in todo:
        v = c.pick(FIELDS[name][2], name)
        c.op('%s = %s' % (name, v))
        setattr(p, name, v)
        c.eq(getattr(p, name), v, name)
        new = pack1(p, h)
        c.eq(FIELDS[name][1](new), v, name + ' in the record')
        for o, (f, get, _) in FIELDS.items():
            if f > fmt or o == name or o in BITS.get(name, []) or name in BITS.get(o, []):
                continue
            c.eq(get(new), get(raw), '%s after setting %s' % (o, name))
            c.eq(getattr(p, o), get(raw), '%s after setting %s' % (o, name))
        c.eq(new[:12], raw[:12], 'position')
        c.eq(new[-2:], raw[-2:], 'extra bytes')
        raw = new
    c.state(repr((fmt, back, todo, raw)))


@scenario('point positions and extra bytes')
def positions(c):
    fmt = 6 + c.choose(3, 'format')
    eb = c.pick([0, 1, 4], 'extra bytes')
    h = header(fmt, eb)
    ints = [c.pick([0, 1, -1, 2**31 - 1, -2**31], 'xyz'[i]) for i in range(3)]
    raw = struct.pack('<iii', *ints) + bytes(18) + bytes(range(1, BASE[fmt] - 29)) + bytes(range(200, 200 + eb))
    p = copc.Points.Unpack(VectorChar(raw), h)[0]
    want = [i * s + o for i, s, o in zip(ints, SCALE, OFFSET)]
    c.eq([p.x, p.y, p.z], want, 'position')
    c.eq(list(p.extra_bytes), list(range(200, 200 + eb)), 'extra bytes')
    c.eq((p.point_format_id, p.point_record_length, p.EbByteSize(), p.HasRgb(), p.HasNir()), (fmt, BASE[fmt] + eb, eb, fmt > 6, fmt == 8), 'layout')
    # set in another order
    q = copc.Points(h).CreatePoint()
    for a in c.pick(list(itertools.permutations('xyz')), 'order'):
        setattr(q, a, want['xyz'.index(a)])
    if eb:
        q.extra_bytes = list(range(200, 200 + eb))
    if fmt > 6:
        rgb = list(struct.unpack_from('<HHH', raw, 30))
        q.rgb = rgb
        c.eq([q.red, q.green, q.blue], rgb, 'rgb')
        for bad in ([], rgb[:2], rgb + [1]):
            c.raises(lambda: setattr(q, 'rgb', bad), 'rgb of %d values' % len(bad))
    else:
        c.raises(lambda: setattr(q, 'rgb', [1, 2, 3]), 'rgb')
    if fmt == 8:
        q.nir = struct.unpack_from('<H', raw, 36)[0]
    c.raises(lambda: setattr(q, 'extra_bytes', [0] * (eb + 1)), 'too many extra bytes')
    c.eq(pack1(q, h), raw, 'record')
    c.check(p == q and not (p != q), 'equality', 'points made from the same values differ')
    q.user_data = 9
    c.check(p != q and not (p == q), 'equality', 'different points are equal')
    c.eq(pack1(p, h), raw, 'record of the other point')
    c.state(repr((fmt, eb, ints)))


@scenario('degrees')
def degrees(c):
    p = copc.Points(6).CreatePoint()
    n = [-30000, -1000, -1, 0, 1, 15000, 30000][c.choose(7, 'angle')]
    p.scan_angle = n
    c.check(abs(p.scan_angle_degrees - n * 0.006) < 1e-4, 'degrees', '%d is %r degrees' % (n, p.scan_angle_degrees))
    p.scan_angle = 0
    p.scan_angle_degrees = n * 0.006
    c.check(abs(p.scan_angle - n) <= 1, 'angle', '%r degrees are %d' % (n * 0.006, p.scan_angle))
    c.state(str(n))


BAD = {'intensity': [-1, 65536, 'x', None], 'classification': [-1, 256, 'x'], 'user_data': [256], 'scan_angle': [40000, 'x'], 'point_source_id': [-1, 65536],
       'return_number': [16, -1, 256], 'number_of_returns': [16], 'scanner_channel': [4], 'scan_angle_degrees': [200, -200, 'x', float('nan'), float('inf')], 'gps_time': ['x', None], 'x': ['x', None, [1]]}


@scenario('refused values')
def refused(c):
    h = header(8)
    p = copc.Points.Unpack(VectorChar(bytes(range(38))), h)[0]
    before = pack1(p, h)
    name = c.pick(sorted(BAD), 'attribute')
    v = c.pick(BAD[name], 'value')
    c.op('%s = %r' % (name, v))
    c.raises(lambda: setattr(p, name, v), '%s = %r' % (name, v))
    c.eq(pack1(p, h), before, 'record after a refused value')
    c.raises(lambda: setattr(p, 'point_format_id', 7), 'read-only attribute')
    c.state(repr((name, v)))


# ---------------------------------------------------------------- Points as a whole
BULK = {'classification': ('<B', 16, 6), 'point_source_id': ('<H', 20, 6), 'red': ('<H', 30, 7), 'green': ('<H', 32, 7), 'blue': ('<H', 34, 7)}


def make_points(fmt, eb, n, seed=1):
    h = header(fmt, eb)
    recs = [files.rec(fmt, eb, 10 * i + 1, -20 * i + 2, 30 * i + 3, (i * 5 + seed) % 256, seed * 10 + i) for i in range(n)]
    return h, recs, copc.Points.Unpack(VectorChar(b''.join(recs)), h)


@scenario('bulk attributes', shards=2)
def bulk(c):
    fmt, eb, n = 6 + c.choose(3, 'format'), c.pick([0, 3], 'extra bytes'), c.choose(4, 'points')
    h, recs, p = make_points(fmt, eb, n)
    c.eq((len(p), p.point_format_id, p.point_record_length, p.eb_byte_size), (n, fmt, BASE[fmt] + eb, eb), 'layout')
    for i, a in enumerate('xyz'):
        c.eq(list(getattr(p, a)), [struct.unpack_from('<i', r, 4 * i)[0] * SCALE[i] + OFFSET[i] for r in recs], a)
    for a, (f, at, need) in BULK.items():
        if fmt >= need:
            c.eq(list(getattr(p, a)), [struct.unpack_from(f, r, at)[0] for r in recs], a)
        elif n:
            c.raises(lambda: getattr(p, a), 'reading ' + a)
    c.eq(data(p.Pack(h)), b''.join(recs), 'records')
    c.eq(data(p.Pack(copc.Vector3(*SCALE), copc.Vector3(*OFFSET))), b''.join(recs), 'records with scale and offset')
    c.eq(data(copc.Points.Unpack(VectorChar(b''.join(recs)), fmt, eb, copc.Vector3(*SCALE), copc.Vector3(*OFFSET)).Pack(h)), b''.join(recs), 'records unpacked with scale and offset')
    a = c.pick(['x', 'y', 'z'] + [k for k, v in BULK.items() if fmt >= v[2]], 'attribute')
    m = c.pick([n, n + 1] + ([n - 1] if n else []), 'length')
    vals = [(7 * i + 5) % 251 for i in range(m)]
    c.op('%s = %s' % (a, vals))
    if m != n:
        c.raises(lambda: setattr(p, a, vals), 'list of another length')
        c.eq(data(p.Pack(h)), b''.join(recs), 'records after a refused list')
    else:
        setattr(p, a, c.pick([list, tuple], 'kind')(vals))
        c.eq([getattr(q, a) for q in p], vals, a)
        new = []
        for r, v in zip(recs, vals):
            if a in BULK:
                f, at, _ = BULK[a]
            else:
                f, at = '<i', 4 * 'xyz'.index(a)
                v = int(round((v - OFFSET['xyz'.index(a)]) / SCALE['xyz'.index(a)]))
            new.append(r[:at] + struct.pack(f, v) + r[at + struct.calcsize(f):])
        c.eq(data(p.Pack(h)), b''.join(new), 'records')
    c.state(repr((fmt, eb, n, a, m)))


@scenario('sequence', shards=8)
def sequence(c):
    """Points as a Python sequence against a list of records."""
    n = c.choose(5, 'points')
    fmt = c.pick([6, 8], 'format')
    long = THOROUGH and n % 2 == 0 and c.flip('three steps')    # of fewer kinds of slices
    h, recs, p = make_points(fmt, 1, n)
    spare_h, spare, q = make_points(fmt, 1, 5, 90)
    model = list(recs)

    def same(pts, want, key):
        c.eq(data(pts.Pack(h)), b''.join(want), key)
        c.eq(len(pts), len(want), key + ' length')

    for step in range(3 if long else 2):
        what = c.pick(['index', 'slice', 'set', 'set slice', 'iterate', 'add', 'add all', 'contains'] if step == 0 or THOROUGH else ['set', 'set slice', 'slice', 'add'], 'operation')
        m = len(model)
        if what in ('index', 'set'):
            i = c.choose(2 * m + 4, 'index') - m - 2
            c.op('%s %d of %d' % (what, i, m))
            ok = -m <= i < m
            if what == 'index':
                if ok:
                    c.eq(pack1(p[i], h), model[i], 'element')
                else:
                    c.raises(lambda: p[i], 'index out of range', IndexError)
            elif ok:
                p[i] = q[2]
                model[i] = spare[2]
            else:
                c.raises(lambda: p.__setitem__(i, q[2]), 'index out of range', IndexError)
        elif what in ('slice', 'set slice'):
            b = [None] + ([-1, 1] if long else list(range(-m - 1, m + 2)) if not step else [-1, 1, m + 1])
            sl = slice(c.pick(b, 'start'), c.pick(b, 'stop'), c.pick([None, -1] if long else [None, 2, -1] if step or not THOROUGH else [None, 1, 2, 3, -1, -2], 'step'))
            c.op('%s %s of %d' % (what, sl, m))
            k = len(model[sl])
            if what == 'slice':
                r = p[sl]
                c.eq((type(r), r.point_format_id, r.point_record_length), (copc.Points, fmt, BASE[fmt] + 1), 'slice')
                same(r, model[sl], 'slice')
            else:
                if m <= 3:
                    c.raises(lambda: p.__setitem__(sl, make_points(fmt, 1, k + 1)[2]), 'slice of another length')
                if k and k == m and c.flip('from itself'):
                    p[sl] = p
                    old = list(model)
                    for i, j in enumerate(list(range(m))[sl]):
                        model[j] = old[i]
                elif k <= 5:
                    src = copc.Points(fmt, 1)
                    for i in range(k):
                        src.AddPoint(q[i])
                    p[sl] = src
                    idx = list(range(m))[sl]
                    for i, j in enumerate(idx):
                        model[j] = spare[i]
        elif what == 'iterate':
            c.op('iterate')
            c.eq([pack1(x, h) for x in p], model, 'iteration')
            c.eq([pack1(x, h) for x in reversed([y for y in p])], model[::-1], 'iteration')
            it = iter(make_points(fmt, 1, 3)[2])   # outlives its name
            c.eq([pack1(x, h) for x in it], make_points(fmt, 1, 3)[1], 'iteration of a temporary')
        elif what == 'add':
            c.op('add')
            p.AddPoint(q[1])
            model.append(spare[1])
        elif what == 'add all':
            c.op('add all')
            src = c.choose(3, 'from')
            if src == 1:
                p.AddPoints([q[0], q[3]])
                model += [spare[0], spare[3]]
            elif src == 2:
                p.AddPoints(p)
                model += model
            else:
                p.AddPoints(q)
                model += spare
        else:
            c.op('contains')
            for x in p:
                c.check(x in p, 'contains', 'an element is not in its list')
            c.check(p.CreatePoint() not in p, 'contains', 'a new point is in the list')
        same(p, model, 'after ' + what)
    # an element is the point itself
    if model:
        e = p[0]
        e.user_data = 99
        c.eq(p[0].user_data, 99, 'element')
        del p
        c.eq(e.user_data, 99, 'element after its list')
    c.state(repr((n, fmt, c.trace[:c.pos])))
    c.outcome(repr(model))


@scenario('making points')
def making(c):
    fmt, eb = 6 + c.choose(3, 'format'), c.pick([0, 2], 'extra bytes')
    kind = c.choose(5, 'how')
    h = header(fmt, eb)
    c.op('make %d' % kind)
    if kind == 0:
        p = copc.Points(fmt, eb)
    elif kind == 1:
        p = copc.Points(point_format_id=fmt, eb_byte_size=eb)
    elif kind == 2:
        p = copc.Points(h)
    elif kind == 3:
        p = copc.Points([make_points(fmt, eb, 2)[2][1]])
    else:
        p = copc.Points(fmt)
        eb = 0
    c.eq((len(p), p.point_format_id, p.eb_byte_size, p.point_record_length), (1 if kind == 3 else 0, fmt, eb, BASE[fmt] + eb), 'layout')
    n = len(p)
    for to in (6, 7, 8):
        p.ToPointFormat(to)
        c.eq((len(p), p.point_format_id, p.eb_byte_size), (n, to, eb), 'converted')
    c.raises(lambda: p.ToPointFormat(5), 'format 5')
    c.raises(lambda: copc.Points(5), 'format 5')
    other = copc.Points(8, 7).CreatePoint()
    for bad in (other, None):
        c.raises(lambda: p.AddPoint(bad), 'point of another layout')
        for v in ([bad], [p.CreatePoint(), bad]):
            c.raises(lambda: p.AddPoints(v), 'points of another layout')
        c.eq(len(p), n, 'points after refusals')
        if n:
            before = p[0]
            for i in (0, -1):
                c.raises(lambda: p.__setitem__(i, bad), 'assigning a point of another layout')
            if bad:
                c.raises(lambda: p.__setitem__(slice(None), copc.Points([bad])), 'assigning points of another layout')
            c.eq((len(p), p[0] == before, p[0].point_format_id, p[0].point_record_length), (n, True, 8, BASE[8] + eb), 'points after refusals')
        c.check(bad not in p, 'contains', 'a foreign point is in the list')
    c.raises(lambda: copc.Points([None]), 'list of no points')
    c.raises(lambda: copc.Points([copc.Points(6).CreatePoint(), None]), 'list of no points')
    c.state(repr((fmt, eb, kind)))


# ---------------------------------------------------------------- files
HDR = {'file_source_id': ('<H', 4, U16), 'creation_day': ('<H', 90, U16), 'creation_year': ('<H', 92, U16)}
TEXT = {'guid': (8, 16), 'system_identifier': (26, 32), 'generating_software': (58, 32)}
INFO = ['center_x', 'center_y', 'center_z', 'halfsize', 'spacing']
EXT = ['x', 'y', 'z', 'intensity', 'return_number', 'number_of_returns', 'scanner_channel', 'scan_direction_flag', 'edge_of_flight_line',
       'classification', 'user_data', 'scan_angle', 'point_source_id', 'gps_time', 'red', 'green', 'blue', 'nir']
DIMS = {6: 14, 7: 17, 8: 18}


def tmp(ext):
    return os.path.join(files.TMP, 'e-%d%s' % (os.getpid(), ext))


def vlrs(img):
    n, at, out = struct.unpack_from('<I', img, 100)[0], 375, {}
    for _ in range(n):
        user = img[at + 2:at + 18].split(b'\0')[0].decode()
        rid, ln = struct.unpack_from('<HH', img, at + 18)
        out[(user, rid)] = img[at + 54:at + 54 + ln]
        at += 54 + ln
    return out


@scenario('headers and information of a file', shards=4)
def metadata(c):
    """Each attribute set through Python is in its place in the file, and read from there."""
    fmt = 6 + c.choose(3, 'format')
    stats = c.flip('statistics')
    neb = c.pick([0, 2], 'extra bytes')
    cfg = copc.CopcConfigWriter(fmt, SCALE, OFFSET, 'W', copc.EbVlr(neb), stats)
    which = c.choose(7, 'what')
    out = tmp('.m.copc.laz')
    late = c.flip('set on the writer')
    w = copc.FileWriter(out, cfg) if late else None
    t = w.copc_config if late else cfg
    h, info, ext = t.las_header, t.copc_info, t.copc_extents
    checks = []
    if which == 0:
        a = c.pick(sorted(HDR), 'attribute')
        f, at, vals = HDR[a]
        v = c.pick(vals, a)
        setattr(h, a, v)
        checks = [(lambda img: struct.unpack_from(f, img, at)[0], v, lambda r: getattr(r.copc_config.las_header, a))]
    elif which == 1:
        a = c.pick(sorted(TEXT), 'attribute')
        at, n = TEXT[a]
        v = c.pick(['', 'q', 'r' * (n - 1), 's' * n], a)
        setattr(h, a, v)
        checks = [(lambda img: img[at:at + n].rstrip(b'\0').decode(), v, lambda r: getattr(r.copc_config.las_header, a))]
    elif which == 2:
        hi, lo = [11.0, 22.0, 33.5], [-1.0, -2.0, -3.5]
        kind = c.choose(3, 'how')
        if kind == 0:
            h.max, h.min = hi, lo
        elif kind == 1:
            h.max, h.min = tuple(hi), copc.Vector3(lo)
        else:
            for i, a in enumerate('xyz'):
                setattr(h.max, a, hi[i])
                setattr(h.min, a, lo[i])
        checks = [(lambda img: struct.unpack_from('<6d', img, 179), (hi[0], lo[0], hi[1], lo[1], hi[2], lo[2]),
                   lambda r: tuple(getattr(v, a) for a in 'xyz' for v in (r.copc_config.las_header.max, r.copc_config.las_header.min)))]
    elif which == 3:
        ret = [2**40 + i for i in range(15)]
        h.points_by_return = ret
        checks = [(lambda img: list(struct.unpack_from('<15Q', img, 255)), ret, lambda r: list(r.copc_config.las_header.points_by_return))]
    elif which == 4:
        a = c.pick(INFO, 'attribute')
        v = c.pick([0.0, 1.5, 1e300], a)
        setattr(info, a, v)
        checks = [(lambda img: struct.unpack_from('<d', vlrs(img)[('copc', 1)], 8 * INFO.index(a))[0], v, lambda r: getattr(r.copc_config.copc_info, a))]
    elif which == 5:
        names = EXT[:14] + (EXT[14:17] if fmt > 6 else []) + (EXT[17:] if fmt > 7 else [])
        a = c.pick(names, 'attribute')
        how = c.choose(3, 'how')
        if how == 0:
            e = getattr(ext, a)
            e.minimum, e.maximum, e.mean, e.var = -4.5, 6.5, 1.25, 2.25
        elif how == 1:
            setattr(ext, a, copc.CopcExtent(-4.5, 6.5, 1.25, 2.25))
        else:
            setattr(ext, a, (-4.5, 6.5, 1.25, 2.25))
        i = EXT.index(a)
        all_of = ext.extents
        c.eq((len(all_of), len(ext.extra_bytes)), (DIMS[fmt] + len(ext.extra_bytes), neb), 'number of extents')
        c.eq([n for n, e in enumerate(all_of) if e == copc.CopcExtent(-4.5, 6.5, 1.25, 2.25)], [i], 'extents in order')
        for o in names:
            c.check(all_of[EXT.index(o)] == getattr(ext, o), 'extents in order', 'extent %s' % o)
        checks = [(lambda img: struct.unpack_from('<dd', vlrs(img)[('copc', 10000)], 16 * i), (-4.5, 6.5),
                   lambda r: (getattr(r.copc_config.copc_extents, a).minimum, getattr(r.copc_config.copc_extents, a).maximum))]
        if stats:
            checks.append((lambda img: struct.unpack_from('<dd', vlrs(img)[('rock_robotic', 10001)], 16 * i), (1.25, 2.25),
                           lambda r: (getattr(r.copc_config.copc_extents, a).mean, getattr(r.copc_config.copc_extents, a).var)))
        if a == 'gps_time':
            checks.append((lambda img: struct.unpack_from('<dd', vlrs(img)[('copc', 1)], 56), (-4.5, 6.5), None))
        for o in names:
            if o != a:
                checks.append((lambda img, o=o: struct.unpack_from('<dd', vlrs(img)[('copc', 10000)], 16 * EXT.index(o)), (getattr(ext, o).minimum, getattr(ext, o).maximum), None))
    else:
        if neb:
            ext.extra_bytes = [copc.CopcExtent(-1, 1), copc.CopcExtent([2, 3])] if len(ext.extra_bytes) == 2 else [copc.CopcExtent(-1, 1)]
            k = len(ext.extra_bytes)
            checks = [(lambda img: struct.unpack_from('<dd', vlrs(img)[('copc', 10000)], 16 * (DIMS[fmt])), (-1.0, 1.0),
                       lambda r: (r.copc_config.copc_extents.extra_bytes[0].minimum, r.copc_config.copc_extents.extra_bytes[0].maximum))]
            c.raises(lambda: setattr(ext, 'extra_bytes', [copc.CopcExtent()] * (k + 1)), 'extents of other extra bytes')
            c.raises(lambda: setattr(ext, 'extra_bytes', [copc.CopcExtent()] * (k - 1) + [None]), 'no extent')
        for o in EXT:
            c.raises(lambda: setattr(ext, o, None), 'no extent')
        c.eq((ext.point_format_id, ext.has_extended_stats), (fmt, stats), 'extents')
        c.raises(lambda: ext.nir, 'NIR extent') if fmt < 8 else ext.nir
        c.raises(lambda: ext.red, 'red extent') if fmt < 7 else ext.red
    c.op('set %d through the %s' % (which, 'writer' if late else 'configuration'))
    if not late:
        w = copc.FileWriter(out, cfg)
    c.eq((w.path, w.copc_config.wkt), (out, 'W'), 'writer')
    w.AddNode(VoxelKey(0, 0, 0, 0), VectorChar(files.rec(fmt, neb, 1, 2, 3, 4)))
    w.Close()
    img = open(out, 'rb').read()
    r = copc.FileReader(out)
    for get, want, attr in checks:
        c.eq(get(img), want, 'bytes of the file')
        if attr:
            c.eq(attr(r), want, 'attribute read')
    cc = r.copc_config
    hh = cc.las_header
    c.eq((hh.point_format_id, hh.point_record_length, hh.point_count, hh.EbByteSize()), (fmt, BASE[fmt] + neb, 1, neb), 'header')
    c.eq((hh.point_offset, hh.vlr_count, hh.evlr_offset, hh.evlr_count), struct.unpack_from('<II', img, 96) + struct.unpack_from('<QI', img, 235), 'header places')
    c.eq([hh.scale.x, hh.scale.y, hh.scale.z, hh.offset.x, hh.offset.y, hh.offset.z], SCALE + OFFSET, 'scale and offset')
    c.eq((cc.wkt, r.path, hh.global_encoding & 16), ('W', out, 16), 'configuration')
    c.eq((cc.copc_info.root_hier_offset, cc.copc_info.root_hier_size), struct.unpack_from('<QQ', vlrs(img)[('copc', 1)], 40), 'hierarchy')
    r.Close()
    os.unlink(out)
    c.state(repr((fmt, stats, neb, which, late, c.trace[:c.pos])))


@scenario('overrides and conversions', shards=2)
def overrides(c):
    """Writer arguments, and the configurations accepted in place of others."""
    src_fmt = c.pick([6, 8], 'format')
    path, spec = std(2, src_fmt, 0)
    r = copc.FileReader(path)
    kind = c.choose(7, 'configuration')
    out = tmp('.o.laz')
    kw = {}
    if kind < 3:
        cfg = [r.copc_config, copc.CopcConfigWriter(r.copc_config), spec.config()][kind]
        if c.flip('format'):
            kw['point_format_id'] = 7
        if c.flip('scale'):
            kw['scale'] = c.pick([[0.5, 0.25, 0.125], (0.5, 0.25, 0.125), copc.Vector3(0.5, 0.25, 0.125)], 'kind')
        if c.flip('offset'):
            kw['offset'] = [4, 5, 6]
        if c.flip('WKT'):
            kw['wkt'] = 'other'
        if c.flip('extra bytes'):
            kw['extra_bytes_vlr'] = copc.EbVlr(3)
        if c.flip('statistics'):
            kw['has_extended_stats'] = False
        c.op('COPC writer with %s' % sorted(kw))
        w = copc.FileWriter(out, cfg, **kw)
        h = w.copc_config.las_header
        c.eq(h.point_format_id, kw.get('point_format_id', src_fmt), 'format')
        c.eq([h.scale.x, h.scale.y, h.scale.z], [0.5, 0.25, 0.125] if 'scale' in kw else [0.01] * 3, 'scale')
        c.eq([h.offset.x, h.offset.y, h.offset.z], [4, 5, 6] if 'offset' in kw else [0] * 3, 'offset')
        c.eq(w.copc_config.wkt, kw.get('wkt', 'WKT'), 'WKT')
        c.eq(h.EbByteSize(), 3 if 'extra_bytes_vlr' in kw else 0, 'extra bytes')
        c.eq(w.copc_config.copc_extents.has_extended_stats, 'has_extended_stats' not in kw, 'statistics')
        w.Close()
        rr = copc.FileReader(out)
        c.eq((rr.copc_config.las_header.point_format_id, rr.copc_config.wkt), (h.point_format_id, kw.get('wkt', 'WKT')), 'file')
    else:
        if kind == 3:
            cfg = r.copc_config
        elif kind == 4:
            cfg = copc.LazConfigWriter(r.copc_config)
        elif kind == 5:
            cfg = copc.LazConfigWriter(src_fmt, [0.01] * 3, [0, 0, 0], 'WKT', copc.EbVlr(0))
        else:
            w0 = copc.LazWriter(out, r.copc_config)
            w0.WritePoints(r.GetAllPoints())
            w0.Close()
            cfg = copc.LazReader(out).laz_config
            out = tmp('.o2.laz')
        c.op('LAZ writer, configuration %d' % kind)
        w = copc.LazWriter(out, cfg)
        pts = r.GetPoints(VoxelKey(0, 0, 0, 0))
        c.eq((w.point_count, w.chunk_count, w.path), (0, 0, out), 'writer')
        w.WritePoints(pts)
        comp = r.GetPointDataCompressed(VoxelKey(*files.KEYS[1]))
        w.WritePointsCompressed(comp, spec.count(files.KEYS[1]))
        c.eq((w.point_count, w.chunk_count), (spec.count(files.KEYS[0]) + spec.count(files.KEYS[1]), 2), 'writer')
        w.Close()
        lr = copc.LazReader(out)
        c.eq((lr.path, lr.laz_config.wkt, lr.laz_config.las_header.point_format_id), (out, 'WKT', src_fmt), 'file')
        c.eq(data(lr.GetPoints().Pack(lr.laz_config.las_header)), spec.nodes[files.KEYS[0]][1] + spec.nodes[files.KEYS[1]][1], 'points')
    os.unlink(out)
    c.state(repr((src_fmt, kind, c.trace[:c.pos])))


@scenario('configurations', shards=2)
def configurations(c):
    """Every kind of configuration, however it is made, shows what it was made of; those of writers can be changed, others can't,
    and none changes with another."""
    fmt, neb = 6 + c.choose(3, 'format'), c.pick([0, 2], 'extra bytes')
    wkt, stats = c.pick(['', 'W', 'a longer text'], 'WKT'), c.flip('statistics')
    kind = c.choose(10, 'kind')
    out, out2 = tmp('.c.copc.laz'), tmp('.c.laz')
    c.op('configuration of kind %d' % kind)
    eb = copc.EbVlr(neb)
    c.eq(len(eb.items), neb, 'extra bytes')
    if c.flip('named arguments'):
        src = copc.CopcConfigWriter(point_format_id=fmt, scale=SCALE, offset=OFFSET, wkt=wkt, extra_bytes_vlr=eb, has_extended_stats=stats)
        laz = copc.LazConfigWriter(point_format_id=fmt, scale=SCALE, offset=OFFSET, wkt=wkt, extra_bytes_vlr=eb)
    else:
        src = copc.CopcConfigWriter(fmt, SCALE, OFFSET, wkt, eb, stats)
        laz = copc.LazConfigWriter(fmt, SCALE, OFFSET, wkt, eb)
    for d in (copc.CopcConfigWriter(fmt), copc.LazConfigWriter(fmt), copc.CopcConfigWriter(point_format_id=fmt, wkt=wkt), copc.LazConfigWriter(fmt, wkt=wkt)):
        h = d.las_header
        c.eq(([h.scale.x, h.scale.y, h.scale.z], [h.offset.x, h.offset.y, h.offset.z], h.point_format_id, h.EbByteSize(), len(d.extra_bytes_vlr.items)),
             ([copc.Vector3.DefaultScale().x] * 3, [0, 0, 0], fmt, 0, 0), 'defaults')
    c.eq((copc.CopcConfigWriter(fmt).wkt, copc.LazConfigWriter(fmt).wkt, copc.CopcConfigWriter(fmt, wkt=wkt).wkt, copc.LazConfigWriter(fmt, wkt=wkt).wkt,
          copc.CopcConfigWriter(fmt).copc_extents.has_extended_stats), ('', '', wkt, wkt, False), 'defaults')
    src.copc_info.spacing = 2.5
    src.las_header.file_source_id = laz.las_header.file_source_id = 9
    w = copc.FileWriter(out, src)
    written = w.copc_config
    if kind > 2:
        w.AddNode(VoxelKey(0, 0, 0, 0), VectorChar(files.rec(fmt, neb, 1, 2, 3, 4)))
        w.Close()
        r = copc.FileReader(out)
    writable, copcs = True, True
    if kind == 0:
        cfg = src
    elif kind == 1:
        cfg, copcs = laz, False
    elif kind == 2:
        cfg = written
    elif kind == 3:
        cfg, writable = r.copc_config, False
    elif kind == 4:
        cfg = copc.CopcConfigWriter(r.copc_config)
    elif kind == 5:
        cfg, copcs = copc.LazConfigWriter(r.copc_config), False
    elif kind == 9:
        cfg = copc.FileWriter(out2, r.copc_config).copc_config
    else:
        lw = copc.LazWriter(out2, r.copc_config if kind == 6 else laz)
        cfg, copcs = lw.laz_config, False
        if kind > 6:
            lw.WritePoints(r.GetAllPoints())
            lw.Close()
            lr = copc.LazReader(out2)
            cfg, writable = lr.laz_config, False
            if kind == 8:
                cfg, writable = copc.LazConfigWriter(cfg), True
    h = cfg.las_header
    c.eq((h.point_format_id, h.point_record_length, h.EbByteSize(), h.file_source_id), (fmt, BASE[fmt] + neb, neb, 9), 'header')
    c.eq([h.scale.x, h.scale.y, h.scale.z, h.offset.x, h.offset.y, h.offset.z], SCALE + OFFSET, 'scale and offset')
    c.eq((cfg.wkt, len(cfg.extra_bytes_vlr.items)), (wkt, neb), 'configuration')
    if copcs:
        e = cfg.copc_extents
        c.eq((cfg.copc_info.spacing, e.has_extended_stats, e.point_format_id, len(e.extra_bytes)), (2.5, stats, fmt, neb), 'information')
    others = [x for x in (src, laz, written) if x is not cfg]
    before = [(x.las_header.file_source_id, x.wkt) for x in others]
    h.file_source_id = 21
    c.eq(cfg.las_header.file_source_id, 21 if writable else 9, 'header after a change')
    if copcs:
        cfg.copc_info.spacing = 7
        cfg.copc_extents.x = copc.CopcExtent(-1, 3)
        c.eq(cfg.copc_info.spacing, 7 if writable else 2.5, 'information after a change')
        c.eq(cfg.copc_extents.x.maximum == 3, writable, 'extents after a change')
        c.eq([x.copc_info.spacing for x in others if x is not laz], [2.5] * len([x for x in others if x is not laz]), 'information of others')
    if kind == 2:
        c.eq(w.copc_config.las_header.file_source_id, 21, 'header of the writer')
    if kind == 3:
        c.eq(r.copc_config.las_header.file_source_id, 9, 'header of the reader')
    c.eq([(x.las_header.file_source_id, x.wkt) for x in others], before, 'other configurations')
    for f in (out, out2):
        if os.path.exists(f):
            os.unlink(f)
    c.state(repr((fmt, neb, wkt, stats, kind)))


@scenario('adding nodes', shards=4)
def adding(c):
    """Every way to add a node, with and without a page, and moving it."""
    fmt, eb = c.pick([6, 8], 'format'), c.pick([0, 2], 'extra bytes')
    spec = Spec(fmt, eb)
    spec.add((1, 1, 0, 0), 3, seed=2)
    recs = spec.nodes[(1, 1, 0, 0)][1]
    out = tmp('.a.copc.laz')
    w = copc.FileWriter(out, spec.config())
    h = w.copc_config.las_header
    key = c.pick([VoxelKey(1, 1, 0, 0), (1, 1, 0, 0), VoxelKey([1, 1, 0, 0])], 'key')
    page = c.pick([None, (0, 0, 0, 0), (1, 1, 0, 0), VoxelKey(1, 1, 0, 0)], 'page')
    how = c.choose(4, 'how')
    kw = {} if page is None else dict(page_key=page)
    c.op('add %d page %s' % (how, page))
    pts = copc.Points.Unpack(VectorChar(recs), h)
    if how == 0:
        n = w.AddNode(key, pts, **kw)
    elif how == 1:
        n = w.AddNode(key, VectorChar(recs), **kw)
    elif how == 2:
        n = w.AddNodeCompressed(key, copc.CompressBytes(VectorChar(recs), h), 3, **kw)
    else:
        n = w.AddNodeCompressed(key=key, compressed_data=copc.CompressBytes(VectorChar(recs), fmt, eb), point_count=3, **kw)
    want_page = (0, 0, 0, 0) if page is None else (page if isinstance(page, tuple) else kt(page))
    c.eq((kt(n.key), n.point_count, kt(n.page_key)), ((1, 1, 0, 0), 3, want_page), 'node')
    move = c.pick([None, (0, 0, 0, 0), (1, 1, 0, 0)], 'move')
    if move:
        w.ChangeNodePage(key, move)
        want_page = move
    c.eq(kt(w.FindNode(key).page_key), want_page, 'page')
    c.check(not w.FindNode((4, 4, 4, 4)).IsValid(), 'FindNode', 'found a node that was not added')
    w.Close()
    r = copc.FileReader(out)
    n = r.FindNode(key)
    c.eq((kt(n.page_key), data(r.GetPointData(n)), data(r.GetPoints(key=key).Pack(h))), (want_page, recs, recs), 'file')
    c.eq(data(copc.DecompressBytes(r.GetPointDataCompressed(node=n), h, 3)), recs, 'compressed data')
    c.eq(data(copc.DecompressBytes(compressed_data=r.GetPointDataCompressed(key=key), point_format_id=fmt, eb_byte_size=eb, point_count=3)), recs, 'compressed data')
    os.unlink(out)
    c.state(repr((fmt, eb, c.trace[:c.pos])))


# ---------------------------------------------------------------- queries
def intersects(a, b):
    return all(a[i] <= b[i + 3] and b[i] <= a[i + 3] for i in range(3))


def inside(a, b):
    return all(b[i] <= a[i] and a[i + 3] <= b[i + 3] for i in range(3))


def cell(k):
    s = 64 / 2 ** k[0]
    return tuple(v * s for v in k[1:]) + tuple((v + 1) * s for v in k[1:])


BOXES = [(0, 0, 0, 64, 64, 64), (0, 0, 0, 32, 32, 32), (33, 1, 1, 47, 31, 15), (10, 10, 10, 10, 10, 10), (-5, -5, -5, -1, -1, -1), (32, 0, 0, 64, 32, 32), (1, 30, 40, 60, 63, 63)]


@scenario('queries', shards=4)
def queries(c):
    n = c.choose(7, 'nodes of the file')
    path, spec = std(n, 7, 0)
    r = copc.FileReader(path)
    res = c.pick([None, 0, 0.9, 1.0, 2.0, 3.0, 4.0, 8.0, 9.0], 'resolution')
    bx = c.pick(BOXES, 'box')
    h = r.copc_config.las_header
    deepest = max([k[0] for k in spec.nodes], default=0)
    d = 0
    while d < deepest and spec.spacing / 2 ** d > (res or 0):
        d += 1
    if not res:
        d = deepest
    at_level = [k for k in spec.nodes if k[0] <= d]
    keys = lambda ns: sorted(kt(x.key) for x in ns)   # noqa: E731
    kw = {} if res is None else dict(resolution=res)
    box = c.pick([copc.Box(*bx), bx, copc.Box(list(bx))], 'kind of box')
    c.op('%d nodes, resolution %s, box %s' % (n, res, bx))
    rows = lambda ks: sorted(x for k in ks for x in spec.coords(spec.nodes[k][1]))   # noqa: E731
    got_rows = lambda p: sorted((q.x, q.y, q.z) for q in p)   # noqa: E731
    c.eq(keys(r.GetAllNodes()), sorted(spec.nodes), 'GetAllNodes')
    c.eq(sorted(kt(p) for p in r.GetPageList()), sorted({(0, 0, 0, 0)} | {p for p, _ in spec.nodes.values()}), 'GetPageList')
    for pk in {p for p, _ in spec.nodes.values()}:
        c.eq(keys(r.GetAllChildrenOfPage(key=pk)), sorted(k for k in spec.nodes if below(spec.nodes[k][0], pk)), 'GetAllChildrenOfPage')
    c.eq(r.GetMaxDepth(), deepest if n else -1, 'GetMaxDepth')
    c.eq(r.GetMaxDepth(), max([k[0] for k in spec.nodes], default=-1), 'GetMaxDepth')
    if n:
        c.eq(r.GetDepthAtResolution(resolution=res or 0), d, 'GetDepthAtResolution')
    c.eq(keys(r.GetNodesAtResolution(resolution=res or 0)), sorted(k for k in spec.nodes if k[0] == d), 'GetNodesAtResolution')
    c.eq(keys(r.GetNodesWithinResolution(res or 0)), sorted(at_level), 'GetNodesWithinResolution')
    c.eq(got_rows(r.GetAllPoints(**kw)), rows(at_level), 'GetAllPoints')
    c.eq(keys(r.GetNodesIntersectBox(box=box, **kw)), sorted(k for k in at_level if intersects(cell(k), bx)), 'GetNodesIntersectBox')
    c.eq(keys(r.GetNodesWithinBox(box, **kw)), sorted(k for k in at_level if inside(cell(k), bx)), 'GetNodesWithinBox')
    c.eq(got_rows(r.GetPointsWithinBox(box, **kw)), [x for x in rows(at_level) if inside(x + x, bx)], 'GetPointsWithinBox')
    for k in spec.nodes:
        pts = r.GetPoints(k)
        c.eq([(q.x, q.y, q.z) for q in pts], spec.coords(spec.nodes[k][1]), 'GetPoints')
        c.eq(pts.Within(box), all(inside(x + x, bx) for x in spec.coords(spec.nodes[k][1])), 'Within')
        c.eq([(q.x, q.y, q.z) for q in pts.GetWithin(box)], [x for x in spec.coords(spec.nodes[k][1]) if inside(x + x, bx)], 'GetWithin')
        c.eq([q.Within(box) for q in pts], [inside(x + x, bx) for x in spec.coords(spec.nodes[k][1])], 'point Within')
        key = VoxelKey(*k)
        b = copc.Box(*bx)
        c.eq((key.Intersects(h, b), key.Within(h, b)), (intersects(cell(k), bx), inside(cell(k), bx)), 'key and box')
        c.eq(key.Contains(h, b), inside(bx, cell(k)), 'key contains box')
        c.eq(key.Contains(h, copc.Vector3(bx[:3])), inside(bx[:3] + bx[:3], cell(k)), 'key contains vector')
        c.eq(key.Crosses(h, b), intersects(cell(k), bx) and not inside(cell(k), bx), 'key crosses box')
        kb = copc.Box(key, h)
        c.eq((kb.x_min, kb.y_min, kb.z_min, kb.x_max, kb.y_max, kb.z_max), cell(k), 'box of a key')
        c.eq(key.Resolution(h, r.copc_config.copc_info), spec.spacing / 2 ** k[0], 'Resolution')
    c.check(not r.FindNode((9, 0, 0, 0)).IsValid(), 'FindNode', 'found a node that is not there')
    c.eq(r.ValidateSpatialBounds(), r.ValidateSpatialBounds(verbose=False), 'ValidateSpatialBounds')
    c.check(r.ValidateSpatialBounds(), 'ValidateSpatialBounds', 'a file inside its bounds is refused')
    c.state(repr((n, res, bx)))


def below(k, p):
    return k[0] >= p[0] and all(a >> (k[0] - p[0]) == b for a, b in zip(k[1:], p[1:]))


# ---------------------------------------------------------------- geometry
VALS = [-2.0, 0.0, 0.5, 3.0]


@scenario('vectors', shards=4)
def vectors(c):
    a = [c.pick(VALS, 'a') for _ in range(3)]
    b = [c.pick(VALS, 'b') for _ in range(3)]
    s = c.pick([2.0, -0.5], 'scalar')
    v = c.pick([copc.Vector3(*a), copc.Vector3(a), copc.Vector3(tuple(a)), copc.Vector3(x=a[0], y=a[1], z=a[2])], 'made from')
    w = copc.Vector3(b)
    t = lambda q: [q.x, q.y, q.z]   # noqa: E731

    def div(x, y):
        return x / y if y else (math.nan if x == 0 else math.copysign(math.inf, x) * math.copysign(1, y))
    same = lambda g, k: all(x == y or x != x and y != y for x, y in zip(g, k))   # noqa: E731
    c.step()
    c.eq(t(v + w), [x + y for x, y in zip(a, b)], 'sum')
    c.eq(t(v - w), [x - y for x, y in zip(a, b)], 'difference')
    c.eq(t(v * w), [x * y for x, y in zip(a, b)], 'product')
    c.check(same(t(v / w), [div(x, y) for x, y in zip(a, b)]), 'quotient', 'quotient %s' % t(v / w))
    if all(b):
        c.eq(t(v // w), [x // y for x, y in zip(a, b)], 'floor division')
    c.eq(t(v + s), [x + s for x in a], 'sum with a number')
    c.eq(t(v - s), [x - s for x in a], 'difference with a number')
    c.eq(t(v * s), [x * s for x in a], 'product with a number')
    c.eq(t(v / s), [x / s for x in a], 'quotient with a number')
    c.eq(t(v // s), [x // s for x in a], 'floor division by a number')
    c.eq(v == w, a == b, 'equality')
    c.eq((t(v), t(w)), (a, b), 'operands changed')
    bx = copc.Box(copc.Vector3([-1, -1, -1]), copc.Vector3([1, 1, 1]))
    c.eq(bx.Contains(v), all(-1 <= x <= 1 for x in a), 'Contains')
    c.raises(lambda: copc.Vector3(a[:2]), 'two values')
    c.raises(lambda: copc.Vector3(a + [1]), 'four values')
    c.state(repr((a, b, s)))


@scenario('boxes', shards=4)
def boxes(c):
    a = [c.pick([0.0, 1.0, 2.0], 'a') for _ in range(3)]
    a += [x + c.pick([0.0, 1.0], 'size') for x in a]
    b = [c.pick([0.0, 1.5], 'b') for _ in range(3)]
    b += [x + 1 for x in b]
    p = c.pick([copc.Box(*a), copc.Box(a), copc.Box(copc.Vector3(a[:3]), copc.Vector3(a[3:])), copc.Box(x_min=a[0], y_min=a[1], z_min=a[2], x_max=a[3], y_max=a[4], z_max=a[5])], 'made from')
    q = copc.Box(*b)
    c.step()
    c.eq((p.x_min, p.y_min, p.z_min, p.x_max, p.y_max, p.z_max), tuple(a), 'box')
    c.eq(p.Intersects(q), intersects(a, b), 'Intersects')
    c.eq((p.Contains(q), p.Within(q), q.Contains(p)), (inside(b, a), inside(a, b), inside(a, b)), 'Contains')
    flat = copc.Box(a[0], a[1], a[3], a[4])
    c.eq((flat.x_min, flat.y_min, flat.x_max, flat.y_max), (a[0], a[1], a[3], a[4]), 'flat box')
    c.check(flat.z_min < -1e300 and flat.z_max > 1e300, 'flat box', 'a box without heights is bounded in z')
    c.check(copc.Box.MaxBox().Contains(p), 'MaxBox', 'not everything is in the largest box')
    c.eq([getattr(copc.Box.EmptyBox(), x) for x in ('x_min', 'x_max')], [0, 0], 'EmptyBox')
    for bad in (a[:5], a + [1], [3] + a[1:] if a[3] < 3 else [9] + a[1:]):
        c.raises(lambda: copc.Box(bad), 'bad box %s' % bad)
    c.state(repr((a, b)))


@scenario('keys', shards=4)
def keys(c):
    d = c.choose(4 if not THOROUGH else 5, 'depth')
    k = (d,) + tuple(c.choose(2 ** d, 'xyz'[i]) for i in range(3))
    how = c.choose(3, 'made from')
    key = [VoxelKey(*k), VoxelKey(list(k)), VoxelKey(d=k[0], x=k[1], y=k[2], z=k[3])][how]
    c.step()
    up = lambda t: (t[0] - 1,) + tuple(v // 2 for v in t[1:])   # noqa: E731
    c.eq((kt(key), key.IsValid()), (k, True), 'key')
    kids = {(d + 1,) + tuple(2 * v + b for v, b in zip(k[1:], bb)) for bb in itertools.product((0, 1), repeat=3)}
    c.eq({kt(x) for x in key.GetChildren()}, kids, 'GetChildren')
    c.eq({kt(key.Bisect(i)) for i in range(8)}, kids, 'Bisect')
    c.check(kt(key.GetParent()) == up(k) if d else not key.GetParent().IsValid(), 'GetParent', 'parent of %s is %s' % (k, key.GetParent()))
    chain, t = [], k
    while t[0] >= 0:
        chain.append(t)
        if t[0] == 0:
            break
        t = up(t)
    c.eq([kt(x) for x in key.GetParents(True)], chain, 'GetParents')
    c.eq([kt(x) for x in key.GetParents(include_current=False)], chain[1:], 'GetParents')
    for t in chain:
        c.eq(kt(key.GetParentAtDepth(depth=t[0])), t, 'GetParentAtDepth')
        c.check(key.ChildOf(parent_key=t), 'ChildOf', 'not a child of its ancestor')
    c.check(not key.ChildOf((d + 1,) + k[1:]), 'ChildOf', 'child of a deeper key')
    other = VoxelKey(*k)
    c.check(key == other and hash(key) == hash(other) and key in {other: 1} and str(key) == str(other), 'equality', 'equal keys differ')
    other.z += 1
    c.check(not key == other, 'equality', 'different keys are equal')
    c.eq((kt(VoxelKey.RootKey()), kt(VoxelKey.InvalidKey()), kt(VoxelKey())), ((0, 0, 0, 0), (-1, -1, -1, -1), (-1, -1, -1, -1)), 'constants')
    c.raises(lambda: VoxelKey(list(k[:3])), 'three values')
    c.raises(lambda: VoxelKey(list(k) + [1]), 'five values')
    c.state(repr((k, how)))


@scenario('extents', shards=2)
def extents(c):
    """Extents made in every way, compared with each other."""
    a, b = [[c.pick([-1.0, 0.0], 'minimum'), c.pick([0.0, 2.0], 'maximum'), c.pick([0.0, 1.0], 'mean'), c.pick([1.0, 3.0], 'variance')] for _ in range(2)]
    how = c.choose(5 if a[2:] == [0, 1] else 3, 'made from')
    e = [lambda: copc.CopcExtent(*a), lambda: copc.CopcExtent(a), lambda: copc.CopcExtent(minimum=a[0], maximum=a[1], mean=a[2], var=a[3]),
         lambda: copc.CopcExtent(a[:2]), lambda: copc.CopcExtent(a[0], a[1])][how]()
    f = copc.CopcExtent(b)
    c.step()
    c.eq([e.minimum, e.maximum, e.mean, e.var], a, 'extent')
    c.eq((e == f, e != f, f == e), (a == b, a != b, a == b), 'equality')
    c.check(not e == None and e != None, 'equality', 'an extent equals None')   # noqa: E711
    for n, x in enumerate(('minimum', 'maximum', 'mean', 'var')):
        setattr(f, x, a[n])
        c.eq([f.minimum, f.maximum, f.mean, f.var], a[:n + 1] + b[n + 1:], 'extent after setting ' + x)
    c.check(e == f, 'equality', 'extents with equal contents differ')
    for bad in ([2, 1], [0, 1, 0, -1], [0, 1, 2], [0], [0, 1, 2, 3, 4]):
        c.raises(lambda: copc.CopcExtent(bad), 'bad extent %s' % bad)
    c.state(repr((a, b, how)))


@scenario('header arithmetic')
def arithmetic(c):
    h = header(6)
    i = c.pick([0, 1, -7, 2**31 - 1, -2**31], 'value')
    c.step()
    for n, a in enumerate('XYZ'):
        v = i * SCALE[n] + OFFSET[n]
        c.eq(getattr(h, 'ApplyScale' + a)(i), v, 'ApplyScale' + a)
        c.eq(getattr(h, 'RemoveScale' + a)(v), i, 'RemoveScale' + a)
        j = 5 if i < 0 else i - 1
        c.eq(getattr(h, 'RemoveScale' + a)((j + 0.25) * SCALE[n] + OFFSET[n]), j, 'RemoveScale' + a + ' in between')
    k = [i, 3, -4]
    t = lambda q: [q.x, q.y, q.z]   # noqa: E731
    for how in (list, tuple, copc.Vector3):
        up = h.ApplyScale(how(k))
        c.eq(t(up), [k[n] * SCALE[n] + OFFSET[n] for n in range(3)], 'ApplyScale')
        c.eq(t(h.ApplyInverseScale(up)), [(x - OFFSET[n]) / SCALE[n] for n, x in enumerate(t(up))], 'ApplyInverseScale')
    c.eq((t(copc.Vector3.DefaultScale()), t(copc.Vector3.DefaultOffset())), ([0.01, 0.01, 0.01], [0, 0, 0]), 'defaults')
    e = h.global_encoding
    h.SetGpsTimeBit()
    c.eq(h.global_encoding, e | 1, 'SetGpsTimeBit')
    pts = copc.Points(h)
    lo, hi = [math.inf] * 3, [-math.inf] * 3
    h.min, h.max = lo, hi
    for q in ([2, 5, -1], [2, 7, -3], [1, 6, -2], [9, 6, 4]):
        p = pts.CreatePoint()
        p.x, p.y, p.z = q
        h.CheckAndUpdateBounds(p)
        lo, hi = [min(x, y) for x, y in zip(lo, q)], [max(x, y) for x, y in zip(hi, q)]
        c.eq((t(h.min), t(h.max)), (lo, hi), 'CheckAndUpdateBounds')
    h.max, h.min = [5, 6, 7], [1, 2, 3]
    c.eq(h.Span(), 4, 'Span')
    b = h.Bounds()
    c.eq((b.x_min, b.y_min, b.z_min, b.x_max, b.y_max, b.z_max), (1, 2, 3, 5, 6, 7), 'Bounds')
    info = copc.CopcInfo()
    info.spacing = 16
    c.eq([VoxelKey.GetResolutionAtDepth(d, h, info) for d in range(4)], [16, 8, 4, 2], 'GetResolutionAtDepth')
    c.state(str(i))


@scenario('lifetimes')
def lifetimes(c):
    """Parts outlive the objects they come from."""
    import gc
    path, spec = std(3, 7, 2)
    kind = c.choose(8, 'what')
    c.op('lifetime %d' % kind)
    out = tmp('.l.copc.laz')
    if kind == 0:
        h = copc.FileReader(path).copc_config.las_header
        gc.collect()
        c.eq(h.point_count, sum(spec.count(k) for k in spec.nodes), 'header')
    elif kind == 1:
        h = copc.FileWriter(out, spec.config()).copc_config.las_header
        gc.collect()
        c.eq(h.point_format_id, 7, 'header')
    elif kind == 2:
        e = copc.FileReader(path).copc_config.copc_extents.x
        gc.collect()
        c.check(e.minimum <= e.maximum, 'extent', 'extent')
    elif kind == 3:
        m = copc.FileReader(path).copc_config.las_header.max
        gc.collect()
        c.eq((m.x, m.y, m.z), (64, 64, 64), 'maximum')
    elif kind == 4:
        n = copc.FileReader(path).GetAllNodes()[0].key
        gc.collect()
        c.check(n.IsValid(), 'key', 'key')
    elif kind == 5:
        p = copc.FileReader(path).GetAllPoints()[1]
        gc.collect()
        c.eq(p.point_format_id, 7, 'point')
    elif kind == 6:
        cfg = spec.config()
        w = copc.FileWriter(out, cfg)
        del cfg
        gc.collect()
        w.AddNode((0, 0, 0, 0), VectorChar(spec.nodes[(0, 0, 0, 0)][1]))
        w.Close()
        c.eq(copc.FileReader(out).copc_config.las_header.point_count, 2, 'file')
    else:
        it = iter(copc.FileReader(path).GetAllPoints())
        gc.collect()
        c.eq(len([p.x for p in it]), sum(spec.count(k) for k in spec.nodes), 'iterator')
    if os.path.exists(out):
        os.unlink(out)
    c.state(str(kind))
