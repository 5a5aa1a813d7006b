"""C29: the parallel transform writes the sequential result under every completion order."""
import itertools, os, shutil, struct
import copclib as copc
import pool, files
from mcpy import scenario, THOROUGH
from files import kt, data, std, Spec, path_for, BASE
pool.start(None)
pool.real()
import copclib.mp.transform as T   # noqa: E402


# ---- transforms run by the tasks, and what they mean for a list of records
def same(points, **kw):
    return points


def shift(points, by, **kw):
    points.x = [v + by[0] for v in points.x]
    points.y = [v + by[1] for v in points.y]
    points.z = [v + by[2] for v in points.z]
    return points


def keep(points, classes, **kw):
    out = [p for p in points if p.classification in classes]
    return copc.Points(out) if out else copc.Points(kw['writer_header'])


def twice(points, times, **kw):
    out = [p for _ in range(times) for p in points]
    return copc.Points(out) if out else points


def values(points, node, reader, writer_header, tag, **kw):
    for p in points:
        p.point_source_id = 1000 + node.key.d
    return points, dict(own=(kt(node.key), len(points), tag, reader.path, writer_header.point_format_id))


def convert(points, writer_header, **kw):
    points.ToPointFormat(writer_header.point_format_id)
    return points


STATE = {}


def init(a, b):
    STATE['init'] = (a, b, STATE.get('init', (0, 0, 0))[2] + 1)


def use_init(points, **kw):
    return points, dict(init=STATE['init'])


def failing(points, node, how, at, **kw):
    if kt(node.key) == at:
        if how == 'raise':
            raise KeyError('x')
        if how == 'none':
            return None
        if how == 'three':
            return points, {}, 1
        if how == 'one':
            return (points,)
        if how == 'not a dict':
            return points, [1]
        if how == 'other format':
            points.ToPointFormat(8)
        if how == 'worker dies':
            raise pool.WorkerDied()
        if how == 'unpicklable value':
            return points, dict(v=lambda: 1)
        if how == 'clashing value':
            return points, dict(point_count=1)
        if how == 'really dies':
            os._exit(1)
    return points, dict(v=kt(node.key))


class Ref:
    """What a sequential pass leaves of a node: records of the output and the values for the callback."""
    def __init__(self, spec, fmt, scale, offset):
        self.spec, self.fmt, self.scale, self.offset = spec, fmt, scale, offset

    def recs(self, key, f=None, drop=None):
        s, out = self.spec, []
        r = s.nodes[key][1]
        for i in range(0, len(r), s.size):
            one = r[i:i + s.size]
            if drop and one[16] not in drop:
                continue
            p = [a * s.scale + o for a, o in zip(struct.unpack_from('<iii', one), s.offset)]
            if f:
                p = f(p)
            q = [int(round((a - o) / self.scale)) for a, o in zip(p, self.offset)]
            rest = one[12:]
            if self.fmt != s.fmt:
                body = one[12:30]
                rgb = one[30:36] if s.fmt >= 7 else bytes(6)
                nir = one[36:38] if s.fmt >= 8 else bytes(2)
                rest = body + (rgb if self.fmt >= 7 else b'') + (nir if self.fmt >= 8 else b'') + one[BASE[s.fmt]:]
            out.append(struct.pack('<iii', *q) + rest)
        return out

    def coords(self, recs):
        return [tuple(a * self.scale + o for a, o in zip(struct.unpack_from('<iii', r), self.offset)) for r in recs]


def near(a, b):
    return all(abs(x - y) < 1e-7 for x, y in zip(a, b))


def v3(v):
    return (v.x, v.y, v.z)


def read_copc(path):
    r = copc.FileReader(path)
    nodes = {}
    for n in r.GetAllNodes():
        nodes[kt(n.key)] = (kt(n.page_key), data(r.GetPointData(n)), n.point_count)
    return r, nodes


class Progress:
    def __init__(self):
        self.n, self.totals = 0, []

    def update(self, n=1):
        self.n += n

    def reset(self, total=None):
        self.totals.append(total)
        self.n = 0


SHIFTS = [(1, 2, 3), (-0.02, 0.01, 5), (0.003, -0.004, 0.0049), (0.006, 0.0061, -0.0076)]


def transforms():
    out = [('none', None, {}, None, None), ('same', same, {}, None, None)]
    for b in SHIFTS:
        out.append(('shift %s' % (b,), shift, dict(by=b), (lambda p, b=b: [x + y for x, y in zip(p, b)]), None))
    for k in ([], [0], [1, 2], [4]):
        out.append(('keep %s' % k, keep, dict(classes=k), None, k))
    out.append(('values', values, dict(tag='t'), None, None))
    out += [('times %d' % k, twice, dict(times=k), None, None) for k in (2, 60)]
    return out


TRANSFORMS = transforms()
COUNTER = [0]


def out_path(ext):
    COUNTER[0] += 1
    return os.path.join(files.TMP, 'o-%d-%d%s' % (os.getpid(), COUNTER[0], ext))


def expected(spec, ref, keys, tr):
    name, fn, args, f, drop = tr
    res = {}
    for k in keys:
        rs = ref.recs(k, f, drop if fn is keep else None)
        if fn is keep and not drop:
            rs = []
        if fn is twice:
            rs = rs * args['times']
        if fn is values:
            rs = [r[:20] + struct.pack('<H', 1000 + k[0]) + r[22:] for r in rs]
        res[k] = rs
    return res


def transform(c, path, spec, laz, tr, mode, arg, chunk, workers, minmax, progress, late=False, interrupts=False, cfg=None, ref=None, start=True, real=False, policy=None, **more):
    """One call, the file it writes, and the comparison with the sequential pass."""
    name, fn, args, f, drop = tr
    s = None
    if start:
        s = pool.start(c, interrupts=interrupts)
        s.late_pickle = late
        s.policy = policy
    reader = copc.FileReader(path)
    ref = ref or Ref(spec, spec.fmt, spec.scale, spec.offset)
    out = out_path('.laz' if laz else '.copc.laz')
    w = copc.LazWriter(out, reader.copc_config) if laz else (copc.FileWriter(out, reader.copc_config, **(cfg or {})))
    h = (w.laz_config if laz else w.copc_config).las_header
    before = (v3(h.min), v3(h.max))
    kw = dict(more)
    keys = list(spec.nodes)
    if mode == 'resolution':
        kw['resolution'] = arg
        d, deepest = 0, max([k[0] for k in keys], default=0)
        while d < deepest and spec.spacing / 2 ** d > arg:
            d += 1
        keys = [k for k in keys if k[0] <= d]
    elif mode == 'nodes':
        byk = {kt(n.key): n for n in reader.GetAllNodes()}
        kw['nodes'] = [byk[k] for k in arg]
        keys = list(arg)
    calls = []

    def callback(node, point_count, compressed_points, **vals):
        calls.append((kt(node.key), point_count, data(compressed_points), vals))
    if fn is not None:
        kw['transform_function'] = fn
        kw['transform_function_args'] = args
    p = Progress() if progress else None
    c.op('transform %s %s to %s chunk %s workers %s' % (name, (mode, arg), 'laz' if laz else 'copc', chunk, workers))
    argsc = dict(args)
    T.transform_multithreaded(reader, w, progress=p, completed_callback=callback, chunk_size=chunk, max_workers=workers,
                              update_minmax=minmax, **kw)
    c.eq(args, argsc, 'arguments of the caller changed')
    want = expected(spec, ref, keys, tr)
    hm = (v3(h.min), v3(h.max))
    w.Close()
    # the calls
    c.eq(sorted(k for k, *_ in calls), sorted(keys), 'nodes handed to the callback')
    for k, n, comp, vals in calls:
        c.eq(n, len(want[k]), 'point count handed to the callback')
        back = data(copc.DecompressBytes(copc.VectorChar(comp), h, n))
        c.eq(back, b''.join(want[k]), 'data handed to the callback')
        if fn is values:
            c.eq(vals, dict(own=(k, n, 't', path, ref.fmt)), 'values of another node')
        elif fn is not use_init:
            c.eq(vals, {}, 'values')
    if p is not None:
        c.eq(p.n, len(keys), 'progress')
        c.eq(p.totals, [] if mode == 'nodes' else [len(keys)], 'progress total')
    # the file
    written = [r for k in keys for r in want[k]]
    if laz:
        r = copc.LazReader(out)
        hh = r.laz_config.las_header
        c.eq(w.chunk_count, len([k for k in keys if want[k]]), 'batches')
        c.eq(w.point_count, len(written), 'points of the writer')
        got = data(r.GetPoints().Pack(hh)) if written else b''
        c.eq(got, b''.join(b''.join(want[k]) for k, *_ in calls), 'points of the file')
    else:
        r, nodes = read_copc(out)
        hh = r.copc_config.las_header
        c.eq(sorted(nodes), sorted(k for k in keys if want[k]), 'nodes of the file')
        for k in nodes:
            c.eq(nodes[k][0], spec.nodes[k][0], 'page of a node')
            c.eq(nodes[k][1], b''.join(want[k]), 'points of a node')
            c.eq(nodes[k][2], len(want[k]), 'point count of a node')
    c.eq(hh.point_count, len(written), 'point count of the header')
    if not minmax:
        b = before
    elif written:
        xs = ref.coords(written)
        b = (tuple(map(min, zip(*xs))), tuple(map(max, zip(*xs))))
    else:
        b = ((0, 0, 0), (0, 0, 0))
    for got, what in ((hm, 'header of the writer'), ((v3(hh.min), v3(hh.max)), 'header of the file')):
        c.check(near(got[0], b[0]) and near(got[1], b[1]), 'bounds', lambda: 'bounds of the %s are %r, want %r' % (what, got, b))
    os.unlink(out)
    c.outcome(repr((sorted(calls), b)))
    return calls, s


def body(n, trs, chunks, workers, interrupts=True, minmax=(True,)):
    def f(c):
        path, spec = std(n)
        laz = c.flip('LAZ')
        tr = c.pick(trs, 'transform')
        chunk, w = c.pick(chunks, 'chunk size'), c.pick(workers, 'workers')
        late = c.flip('arguments pickled late')
        mm = c.pick(minmax, 'update bounds')
        calls, s = transform(c, path, spec, laz, tr, 'nodes', files.KEYS[:n], chunk, w, mm, True, late, interrupts)
        c.state(repr((laz, tr[0], chunk, w, late, s.log)))
    return f


BY = {t[0]: t for t in TRANSFORMS}
SOME = [BY['values'], BY['keep [1, 2]'], BY['shift (0.006, 0.0061, -0.0076)']]
scenario('orders of 3', shards=8)(body(3, SOME[:2], [1, 2, 1024], [1, 2, 3]))
scenario('orders of 4, no early ends', shards=8)(body(4, SOME[:2], [3, 1024], [2, 4], False))
scenario('orders of 4', tier=1, shards=8)(body(4, SOME, [3, 1024], [2, 4]))
scenario('orders of 5, no early ends', tier=1, shards=8)(body(5, SOME[:2], [4, 1024], [3, 5], False))


@scenario('transforms', shards=8)
def all_transforms(c):
    """Every transform, node selection and file."""
    n = c.choose(4, 'nodes of the file')
    kind = c.pick([(7, 0, 0.01, (0, 0, 0)), (6, 3, 0.001, (10, -20, 30)), (8, 5, 0.25, (0, 0, 0))], 'file')
    path, spec = std(n, *kind)
    laz = c.flip('LAZ')
    tr = c.pick(TRANSFORMS, 'transform')
    minmax, progress = c.flip('update bounds'), c.flip('progress')
    ks = list(spec.nodes)
    modes = [('all', None), ('nodes', [])] + [('resolution', r) for r in (0.0, 4.0, 9.0)] + [('nodes', ks[::-1]), ('nodes', ks[1:])]
    mode, arg = c.pick(modes, 'selection')
    calls, s = transform(c, path, spec, laz, tr, mode, arg, 2, 1 if not THOROUGH else 2, minmax, progress)
    c.state(repr((n, kind, laz, tr[0], minmax, mode, arg, s.log)))


@scenario('many nodes', shards=8)
def many_nodes(c):
    n, chunk, w = c.pick([(70, 16, 3), (300, 7, 4), (300, 255, 61), (300, 1024, 8), (1030, 1024, 4)], 'nodes, chunk size and workers')
    path, spec = files.many(n, 6 + n % 3)
    policy = c.pick(['first', 'last', 'middle'], 'order of the tasks')
    laz = c.flip('LAZ')
    tr = BY['values'] if laz else BY['keep [1, 2]']
    if n > 1000 and not THOROUGH and (policy == 'middle' or laz):
        return
    calls, s = transform(c, path, spec, laz, tr, 'all', None, chunk, w, True, True, policy=policy)
    c.state(repr((n, chunk, w, laz, policy)))


@scenario('other layout of the output', shards=4)
def other_layout(c):
    """The output has another format, scale or offset than the input."""
    n = 2
    kind = c.pick([(6, 0), (7, 2), (8, 0)], 'file')
    path, spec = std(n, *kind)
    fmt = c.pick([6, 7, 8], 'format')
    scale = c.pick([None, 0.1, 0.0001], 'scale')
    offset = c.pick([None, (7, 8, 9), (0.005, 0.5, -3)], 'offset')
    cfg = dict(point_format_id=fmt)
    if scale:
        cfg['scale'] = [scale] * 3
    if offset:
        cfg['offset'] = list(offset)
    ref = Ref(spec, fmt, scale or spec.scale, offset or spec.offset)
    tr = ('convert', convert, {}, None, None)
    calls, s = transform(c, path, spec, False, tr, 'all', None, 1024, 2, c.flip('update bounds'), False, cfg=cfg, ref=ref)
    c.state(repr((kind, fmt, scale, offset, s.log)))


@scenario('worker state', shards=4)
def worker_state(c):
    """The function that prepares a worker runs once in each, before its first task."""
    path, spec = std(3)
    w = c.pick([1, 2, 3], 'workers')
    s = pool.start(c)
    s.free_workers = True
    reader = copc.FileReader(path)
    out = out_path('.copc.laz')
    wr = copc.FileWriter(out, reader.copc_config)
    calls = []
    STATE.clear()
    INITS.clear()
    T.transform_multithreaded(reader, wr, use_init, mp_init_function=init_counting, mp_init_function_args=dict(a=4, b='x'),
                              completed_callback=lambda node, init, **k: calls.append((kt(node.key), init)), max_workers=w, chunk_size=c.pick([1, 1024], 'chunk size'))
    wr.Close()
    used = {x[2] for x in s.log if x[0] == 'end'}
    c.eq(sorted(k for k, _ in calls), sorted(spec.nodes), 'nodes')
    for k, i in calls:
        c.eq(i, (4, 'x', 1), 'preparation of the worker')
    c.eq(sorted(x for x in INITS), sorted(used), 'preparations')
    INITS.clear()
    os.unlink(out)
    c.state(repr((w, s.log)))


INITS = []


def init_counting(a, b):
    n = pool.S.current_worker
    INITS.append(n)
    STATE['init'] = (a, b, INITS.count(n))


HOW = {'raise': KeyError, 'none': TypeError, 'three': AssertionError, 'one': AssertionError, 'not a dict': AssertionError,
       'other format': RuntimeError, 'worker dies': pool.BrokenProcessPool, 'unpicklable value': Exception, 'clashing value': TypeError,
       'callback raises': ZeroDivisionError, 'file gone': pool.BrokenProcessPool, 'init raises': pool.BrokenProcessPool, 'reserved points': AssertionError,
       'reserved node': AssertionError, 'reserved writer_header': AssertionError, 'reserved reader': AssertionError, 'unpicklable argument': Exception,
       'writer closed': RuntimeError}


def bad_init(**kw):
    raise KeyError('init')


def init_ok(**kw):
    pass


@scenario('failures', shards=8)
def failures(c):
    path, spec = std(3)
    how = c.pick(sorted(HOW), 'failure')
    at = files.KEYS[c.choose(3, 'which node')]
    laz = c.flip('LAZ')
    chunk, w = c.pick([1, 2, 1024], 'chunk size'), c.pick([1, 3], 'workers')
    s = pool.start(c, interrupts=THOROUGH)
    reader = copc.FileReader(path)
    byk = {kt(x.key): x for x in reader.GetAllNodes()}
    calls = []

    def callback(node, point_count, compressed_points, v):
        if how == 'callback raises' and kt(node.key) == at:
            raise ZeroDivisionError()
        calls.append((kt(node.key), v))
    args = dict(how=how, at=at)
    kw = {}
    if how == 'unpicklable argument':
        args['x'] = lambda: 1
    if how.startswith('reserved'):
        args[how.split()[1]] = 1
    if how == 'init raises':
        kw = dict(mp_init_function=bad_init)
    if how == 'file gone':
        shutil.copy(path, path + '.gone')
        reader = copc.FileReader(path + '.gone')
        os.unlink(path + '.gone')
    out = out_path('.laz' if laz else '.copc.laz')
    wr = copc.LazWriter(out, reader.copc_config) if laz else copc.FileWriter(out, reader.copc_config)
    if how == 'writer closed':
        wr.Close()
    h = (wr.laz_config if laz else wr.copc_config).las_header
    before = (v3(h.min), v3(h.max))
    failed = None
    c.op('transform with failure "%s" at %s' % (how, at))
    try:
        T.transform_multithreaded(reader, wr, failing, args, nodes=[byk[k] for k in files.KEYS[:3]], completed_callback=callback,
                                  chunk_size=chunk, max_workers=w, update_minmax=c.flip('update bounds'), **kw)
    except Exception as e:
        failed = e
    c.check(failed is not None, 'failure swallowed', 'failure "%s" went unnoticed' % how)
    c.check(isinstance(failed, HOW[how]) and 'deadlock' not in str(failed), 'another error', 'failure "%s" surfaced as %r' % (how, failed))
    for k, v in calls:
        c.check(k != at or how in ('unpicklable argument', 'writer closed'), 'failed node', 'the failed node was handed to the callback')
        c.eq(v, k, 'values of another node')
    c.check(len(set(k for k, _ in calls)) == len(calls), 'called twice', 'a node was handed to the callback twice')
    for p in s.pools:
        c.check(p.closed and not p.running and not p.queue, 'pool left', 'tasks were left behind')
    # what was written before the failure is whole
    if how != 'writer closed':
        wr.Close()
        if laz:
            c.eq(copc.LazReader(out).laz_config.las_header.point_count, sum(spec.count(k) for k, _ in calls), 'points written')
        else:
            r, nodes = read_copc(out)
            c.eq(sorted(nodes), sorted(k for k, _ in calls), 'nodes written')
            for k in nodes:
                c.eq(nodes[k][:2], spec.nodes[k], 'node written')
    os.unlink(out)
    c.eq((v3(h.min), v3(h.max)), before, 'bounds after a failure')
    c.state(repr((how, at, laz, chunk, w, s.log)))
    c.outcome(repr((how, type(failed), calls)))


@scenario('failures among many nodes', shards=4)
def failures_many(c):
    """One task of many fails, at any place of the list and of the order in which they end."""
    n, chunk, w = c.pick([(5, 1024, 2), (8, 5, 3), (70, 16, 3), (70, 1024, 8)], 'nodes, chunk size and workers')
    path, spec = files.many(n)
    how = c.pick(['raise', 'none', 'worker dies', 'callback raises', 'unpicklable value'], 'failure')
    keys = list(spec.nodes)
    at = keys[c.choose(n, 'which node')]
    policy = c.pick(['first', 'last', 'middle'], 'order of the tasks')
    s = pool.start(c, interrupts=False)
    s.policy = policy
    reader = copc.FileReader(path)
    out = out_path('.copc.laz')
    wr = copc.FileWriter(out, reader.copc_config)
    calls = []

    def callback(node, point_count, compressed_points, v):
        if how == 'callback raises' and kt(node.key) == at:
            raise ZeroDivisionError()
        calls.append((kt(node.key), v))
    c.op('transform %d nodes with failure "%s" at %s, %s' % (n, how, at, policy))
    failed = None
    try:
        T.transform_multithreaded(reader, wr, failing, dict(how=how, at=at), completed_callback=callback, chunk_size=chunk, max_workers=w)
    except Exception as e:
        failed = e
    c.check(failed is not None, 'failure swallowed', 'failure "%s" went unnoticed' % how)
    c.check(len(set(k for k, _ in calls)) == len(calls), 'called twice', 'a node was handed to the callback twice')
    for k, v in calls:
        c.check(k != at, 'failed node', 'the failed node was handed to the callback')
        c.eq(v, k, 'values of another node')
    for p in s.pools:
        c.check(p.closed and not p.running and not p.queue, 'pool left', 'tasks were left behind')
    wr.Close()
    r, nodes = read_copc(out)
    c.eq(sorted(nodes), sorted(k for k, _ in calls if spec.count(k)), 'nodes written')
    for k in nodes:
        c.eq(nodes[k][:2], spec.nodes[k], 'node written')
    os.unlink(out)
    c.state(repr((n, how, at, policy)))


@scenario('arguments')
def arguments(c):
    path, spec = std(2)
    pool.start(c, interrupts=False)
    reader = copc.FileReader(path)
    nodes = reader.GetAllNodes()
    laz = c.flip('LAZ')
    out = out_path('.x')
    wr = copc.LazWriter(out, reader.copc_config) if laz else copc.FileWriter(out, reader.copc_config)
    which = c.choose(4, 'what')
    c.op('argument error %d' % which)
    if which == 0:
        ns = c.pick([nodes, nodes[:1], []], 'nodes')
        res = c.pick([0, 0.5, 1e9], 'resolution')
        c.raises(lambda: T.transform_multithreaded(reader, wr, nodes=ns, resolution=res), 'nodes and resolution', RuntimeError)
    elif which == 1:
        bad = c.pick([None, out, reader, 1], 'writer')
        c.raises(lambda: T.transform_multithreaded(reader, bad), 'writer', RuntimeError)
    elif which == 2:
        hb = (wr.laz_config if laz else wr.copc_config).las_header
        before = (v3(hb.min), v3(hb.max))
        T.transform_multithreaded(reader, wr)   # every default
        c.eq((v3(hb.min), v3(hb.max)), before, 'bounds nobody asked to update')
        wr.Close()
        if not laz:
            _, got = read_copc(out)
            c.eq({k: v[:2] for k, v in got.items()}, {k: v for k, v in spec.nodes.items()}, 'copy')
        else:
            c.eq(sorted(data(copc.LazReader(out).GetPoints().Pack(reader.copc_config.las_header))), sorted(b''.join(v[1] for v in spec.nodes.values())), 'copy')
    else:
        c.raises(lambda: T.transform_multithreaded(reader, wr, transform_function=same, chunk_size=0), 'chunk size 0', ValueError)
    if which != 2:
        c.eq(pool.S.log, [], 'work done in spite of the error')
        if not laz:
            c.check(not wr.FindNode(copc.VoxelKey(0, 0, 0, 0)).IsValid(), 'written', 'a node was written in spite of the error')
    c.state(repr(c.trace))


@scenario('one call after another', shards=4)
def sequence(c):
    """Calls in a row, to the same or other writers, and parallel reads between them."""
    fs = [std(2), std(3, fmt=8, eb=2), std(2, scale=0.001, offset=(5, 6, 7))]
    n = 3 if THOROUGH else 2
    for i in range(n):
        path, spec = fs[c.choose(3, 'file')]
        laz = c.flip('LAZ')
        tr = c.pick(SOME, 'transform')
        transform(c, path, spec, laz, tr, 'all', None, 2, 2, True, True)
        c.check(not any(hasattr(f, 'copc_reader') for f in vars(T).values()), 'state left', 'a call left its reader behind')
    c.state(repr(c.trace[:c.pos]))


@scenario('two files into one', shards=2)
def merge(c):
    """Two calls with one writer: everything of both, bounds of the last call."""
    ka, kb = files.KEYS[:2], files.KEYS[2:4]
    path, spec = std(4)
    s = pool.start(c, interrupts=False)
    reader = copc.FileReader(path)
    byk = {kt(x.key): x for x in reader.GetAllNodes()}
    laz = c.flip('LAZ')
    out = out_path('.x')
    wr = copc.LazWriter(out, reader.copc_config) if laz else copc.FileWriter(out, reader.copc_config)
    first, second = (ka, kb) if c.flip('order') else (kb, ka)
    mm = c.flip('update bounds')
    c.op('%s, then %s' % (first, second))
    T.transform_multithreaded(reader, wr, nodes=[byk[k] for k in first], max_workers=2, update_minmax=mm)
    T.transform_multithreaded(reader, wr, nodes=[byk[k] for k in second], max_workers=2, update_minmax=mm)
    wr.Close()
    if laz:
        got = data(copc.LazReader(out).GetPoints().Pack(reader.copc_config.las_header))
        c.eq(sorted(got[i:i + spec.size] for i in range(0, len(got), spec.size)),
             sorted(r[i:i + spec.size] for _, r in spec.nodes.values() for i in range(0, len(r), spec.size)), 'points')
    else:
        _, got = read_copc(out)
        c.eq({k: v[:2] for k, v in got.items()}, dict(spec.nodes), 'nodes')
    c.state(repr(c.trace[:c.pos]))


# ---- real processes
def gated(points, node, gate, **kw):
    import time
    name = os.path.join(gate, '-'.join(map(str, kt(node.key))))
    open(name + '.started', 'w').close()
    t = time.time()
    while not os.path.exists(name):
        if time.time() - t > 60:
            raise RuntimeError('gate')
        time.sleep(0.002)
    return keep(points, [1, 2], **kw)


@scenario('real processes', shards=3)
def real_processes(c):
    """The genuine ProcessPoolExecutor, its tasks released in each order."""
    import tempfile, threading, time
    path, spec = std(3)
    order = c.pick(list(itertools.permutations(range(3))), 'order')
    laz = c.flip('LAZ')
    pool.real()
    gate = tempfile.mkdtemp(dir=files.TMP)
    seen = []

    def release():
        for n, i in enumerate(order):
            k = '-'.join(map(str, files.KEYS[i]))
            t = time.time()
            while not os.path.exists(os.path.join(gate, k + '.started')) and time.time() - t < 60:
                time.sleep(0.002)
            open(os.path.join(gate, k), 'w').close()
            while len(seen) <= n and time.time() - t < 60:
                time.sleep(0.002)
    th = threading.Thread(target=release)
    reader = copc.FileReader(path)
    byk = {kt(x.key): x for x in reader.GetAllNodes()}
    out = out_path('.laz' if laz else '.copc.laz')
    wr = copc.LazWriter(out, reader.copc_config) if laz else copc.FileWriter(out, reader.copc_config)
    c.op('release in order %s' % (order,))
    th.start()
    try:
        T.transform_multithreaded(reader, wr, gated, dict(gate=gate), nodes=[byk[k] for k in files.KEYS[:3]], max_workers=3,
                                  update_minmax=True, completed_callback=lambda node, point_count, compressed_points: seen.append((kt(node.key), point_count)))
    finally:
        th.join()
        shutil.rmtree(gate)
    ref = Ref(spec, spec.fmt, spec.scale, spec.offset)
    want = {k: ref.recs(k, None, [1, 2]) for k in spec.nodes}
    c.eq(seen, [(files.KEYS[i], len(want[files.KEYS[i]])) for i in order], 'calls')
    wr.Close()
    if laz:
        r = copc.LazReader(out)
        c.eq(data(r.GetPoints().Pack(r.laz_config.las_header)), b''.join(b''.join(want[files.KEYS[i]]) for i in order), 'points')
        h = r.laz_config.las_header
    else:
        r, nodes = read_copc(out)
        c.eq({k: v[:2] for k, v in nodes.items()}, {k: (spec.nodes[k][0], b''.join(v)) for k, v in want.items() if v}, 'nodes')
        h = r.copc_config.las_header
    xs = ref.coords([r for v in want.values() for r in v])
    c.check(near(v3(h.min), tuple(map(min, zip(*xs)))) and near(v3(h.max), tuple(map(max, zip(*xs)))), 'bounds', 'bounds')
    os.unlink(out)
    c.state(repr((order, laz)))


@scenario('real failures')
def real_failures(c):
    path, spec = std(2)
    how = c.pick(['raise', 'none', 'really dies', 'unpicklable value', 'other format', 'init raises'], 'failure')
    pool.real()
    reader = copc.FileReader(path)
    out = out_path('.copc.laz')
    wr = copc.FileWriter(out, reader.copc_config)
    kw = dict(mp_init_function=bad_init) if how == 'init raises' else {}
    c.op('failure ' + how)
    failed = None
    try:
        T.transform_multithreaded(reader, wr, failing, dict(how=how, at=files.KEYS[1]), max_workers=2, **kw)
    except Exception as e:
        failed = e
    kind = dict(HOW, **{'really dies': pool.BrokenProcessPool})[how]
    c.check(failed is not None and isinstance(failed, kind), 'failure', 'failure "%s" surfaced as %r' % (how, failed))
    os.unlink(out)
    c.state(how)
