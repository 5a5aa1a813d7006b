"""C28: the parallel read gives the sequential result under every completion order."""
import itertools, os, pickle
import numpy as np
import copclib as copc
import pool, files
from mcpy import scenario, THOROUGH
from files import kt, data, std, Spec, path_for
pool.start(None)
pool.real()
import copclib.mp.read as R   # noqa: E402


# ---- functions called by the tasks
def summary(points, node, reader, **kw):
    """What the task got: its own node, points and reader, and the caller's arguments."""
    assert reader.path == kw['expect_path'], 'reader of another file'
    own = data(reader.GetPointData(node))
    packed = data(points.Pack(reader.copc_config.las_header))
    return dict(summary=(kt(node.key), packed, own == packed, sorted(kw.items()), len(points), node.point_count))


def failing(points, node, reader, how, at, **kw):
    if kt(node.key) == at:
        if how == 'raise':
            raise KeyError('task failed')
        if how == 'not a dict':
            return [1]
        if how == 'none':
            return None
        if how == 'unpicklable result':
            return dict(r=lambda: 1)
        if how == 'unpicklable error':
            class E(Exception):
                pass
            raise E('x')
        if how == 'worker dies':
            raise pool.WorkerDied()
        if how == 'clashing result':
            return dict(node=1)
    return dict(r=kt(node.key))


class Progress:
    def __init__(self):
        self.n, self.totals = 0, []

    def update(self, n=1):
        self.n += n

    def reset(self, total=None):
        self.totals.append(total)
        self.n = 0


def node_lists(reader, spec, c):
    """Which nodes are asked for, and how."""
    byk = {kt(n.key): n for n in reader.GetAllNodes()}
    assert set(byk) == set(spec.nodes)
    return byk


def resolution_depth(spec, res):
    """The first level at least as fine as the resolution, at most the deepest one."""
    deepest = max([k[0] for k in spec.nodes], default=0)
    d = 0
    while d < deepest and spec.spacing / 2 ** d > res:
        d += 1
    return d


def expected_nodes(spec, mode, arg):
    if mode == 'all':
        return list(spec.nodes)
    if mode == 'resolution':
        d = resolution_depth(spec, arg)
        return [k for k in spec.nodes if k[0] <= d]
    return arg


def run_read(c, path, spec, keys, mode, arg, chunk, workers, late, progress, interrupts=True, function=summary, **more):
    """One call of read_multithreaded; the callback's calls in order."""
    s = pool.start(c, interrupts=interrupts)
    s.late_pickle = late
    reader = copc.FileReader(path)
    kw = {}
    if mode == 'resolution':
        kw['resolution'] = arg
    elif mode == 'nodes':
        byk = {kt(n.key): n for n in reader.GetAllNodes()}
        kw['nodes'] = [byk[k] for k in arg]
    given = list(kw.get('nodes', []))
    calls = []

    def callback(node, **r):
        calls.append((kt(node.key), node, r))
    args = dict(expect_path=path, extra=3)
    p = Progress() if progress else None
    R.read_multithreaded(reader, function, args, progress=p, completed_callback=callback, chunk_size=chunk,
                         max_workers=workers, **kw)
    c.eq(args, dict(expect_path=path, extra=3), 'arguments of the caller changed')
    if mode == 'nodes':
        c.check(len(given) == len(kw['nodes']) and all(a is b for a, b in zip(given, kw['nodes'])), 'node list changed', 'the list of nodes of the caller was changed')
    return reader, calls, p, s


def check_calls(c, path, spec, keys, calls, p, mode):
    c.eq(sorted(k for k, _, _ in calls), sorted(keys), 'nodes handed to the callback')
    for k, node, r in calls:
        key, packed, same, kw, n, count = r['summary']
        c.eq(key, k, 'result of another node')
        c.eq(packed, spec.nodes[k][1], 'points of the node')
        c.check(same, 'data', 'points differ from the data of the node')
        c.eq(kw, [('expect_path', path), ('extra', 3)], 'arguments of the read function')
        c.eq((n, count, node.point_count), (spec.count(k),) * 3, 'point count')
        c.eq(kt(node.page_key), spec.nodes[k][0], 'page of the node')
    if p is not None:
        c.eq(p.n, len(keys), 'progress')
        c.eq(p.totals, [] if mode == 'nodes' else [len(keys)], 'progress total')


def body(n, modes, chunks, workers, interrupts=True):
    def f(c):
        path, spec = std(n)
        mode, arg = c.pick(modes, 'nodes')
        chunk = c.pick(chunks, 'chunk size')
        w = c.pick(workers, 'workers')
        late, progress = c.flip('arguments pickled late'), c.flip('progress')
        keys = expected_nodes(spec, mode, arg)
        c.op('read %s %s chunk %s workers %s' % (mode, arg, chunk, w))
        reader, calls, p, s = run_read(c, path, spec, keys, mode, arg, chunk, w, late, progress, interrupts)
        check_calls(c, path, spec, keys, calls, p, mode)
        c.state(repr((mode, arg, chunk, w, [k for k, _, _ in calls], s.log)))
        c.outcome(repr([k for k, _, _ in calls]))
        # the reader of the caller still works
        c.eq(data(reader.GetPointData(calls[0][1])) if calls else b'', spec.nodes[calls[0][0]][1] if calls else b'', 'reader after the call')
    return f


def subsets(n):
    ks = files.KEYS[:n]
    out = [('all', None)]
    out += [('resolution', r) for r in (0, 0.5, 1.0, 2.0, 3.0, 4.0, 8.0, 100.0)]
    for m in range(n + 1):
        for s in itertools.permutations(ks, m):
            if m <= 2 or s == tuple(ks):
                out.append(('nodes', list(s)))
    out.append(('nodes', [ks[0], ks[1], ks[0]]))   # one node asked for twice
    return out


scenario('orders of 3', shards=4)(body(3, [('all', None)], [1, 2, 3, 1024], [1, 2, 3, None]))
scenario('orders of 4', shards=8)(body(4, [('nodes', files.KEYS[:4])], [2, 3, 1024], [2, 4]))
scenario('orders of 5, no early ends', shards=8)(body(5, [('all', None)], [3, 1024], [2, 5], False))
scenario('orders of 5', tier=1, shards=8)(body(5, [('nodes', files.KEYS[:5])], [4, 1024], [3, 5]))
scenario('orders of 6, no early ends', tier=1, shards=8)(body(6, [('all', None)], [4, 1024], [3, 6], False))
scenario('node lists', shards=4)(body(3, subsets(3), [1, 2, 1024], [2], False))
scenario('node lists of 4', tier=1, shards=8)(body(4, subsets(4), [1, 2, 3, 1024], [1, 3], False))


MANY = [(70, 16, 3), (300, 7, 4), (300, 256, 1), (300, 255, 61), (300, 299, 2), (300, 1024, 8)]


@scenario('many nodes', shards=8)
def many_nodes(c):
    n, chunk, w = c.pick(MANY + [(1030, 1024, 4), (1030, 1025, 100)], 'nodes, chunk size and workers')
    path, spec = files.many(n)
    policy = c.pick(['first', 'last', 'middle'], 'order of the tasks')
    mode, arg = c.pick([('all', None), ('resolution', 2.0)], 'nodes')
    keys = expected_nodes(spec, mode, arg)
    c.op('read %d nodes, chunk %d, workers %d, %s' % (len(keys), chunk, w, policy))
    s = pool.start(c, interrupts=False)
    s.policy = policy
    reader = copc.FileReader(path)
    calls = []
    p = Progress()
    R.read_multithreaded(reader, summary, dict(expect_path=path, extra=3), progress=p, completed_callback=lambda node, **r: calls.append((kt(node.key), node, r)),
                         max_workers=w, **(dict(resolution=arg) if mode == 'resolution' else {}), **(dict(chunk_size=chunk) if chunk != 1024 else {}))
    check_calls(c, path, spec, keys, calls, p, mode)
    s = pool.start(c, interrupts=False)
    s.policy = policy
    kw = dict(max_workers=w, chunk_size=chunk)
    if mode == 'resolution':
        kw['resolution'] = arg
    got = R.read_map_xyz_class_limit(reader, [], **kw)
    c.eq(sorted(got), sorted(str(copc.VoxelKey(*k)) for k in keys), 'keys')
    for k in keys:
        c.eq([tuple(r) for r in got[str(copc.VoxelKey(*k))].tolist()], want_rows(spec, k, []), 'coordinates of a node')
    s = pool.start(c, interrupts=False)
    s.policy = policy
    got = R.read_concat_xyz_class_limit(reader, [1], **kw)
    c.eq(sorted(map(tuple, got.tolist())), sorted(x for k in keys for x in want_rows(spec, k, [1])), 'coordinates')
    c.state(repr((n, chunk, w, policy, mode)))


def empty_file():
    return path_for('empty', lambda: Spec())


def sized(counts):
    def make():
        s = Spec()
        for i, n in enumerate(counts):
            s.add(files.KEYS[i], n, files.PAGES[i], seed=i, cls=lambda j: [0, 2, 5, 255][j % 4])
        return s
    return path_for('sized' + '-'.join(map(str, counts)), make)


LIMITS = [[], None, [0], [2], [5, 255], [7], [0, 2, 5, 255], [255, 255], [9, 8, 7, 6, 3, 2, 0], list(range(1, 256)), list(range(255))]


def want_rows(spec, key, limits):
    r = spec.nodes[key][1]
    rows = spec.coords(r)
    return [x for x, k in zip(rows, files.classes(r, spec.size)) if not limits or k in limits]


@scenario('helpers', shards=8)
def helpers(c):
    counts = c.pick([(), (1,), (2, 4), (5, 1, 3)] + ([(4, 4, 4, 4)] if THOROUGH else []), 'file')
    path, spec = sized(counts)
    limits = c.pick(LIMITS, 'classes')
    modes = [('all', None)] + [('resolution', r) for r in (0.0, 2.0, 4.0, 50.0)]
    ks = list(spec.nodes)
    modes += [('nodes', [])] + [('nodes', [k]) for k in ks] + ([('nodes', ks[::-1])] if len(ks) > 1 else [])
    mode, arg = c.pick(modes, 'nodes')
    which = c.pick(['concat', 'map'], 'helper')
    chunk, w = c.pick([(1024, 3), (2, 1)], 'chunk size and workers')
    progress = c.flip('progress')
    keys = expected_nodes(spec, mode, arg)
    s = pool.start(c, interrupts=False)
    reader = copc.FileReader(path)
    kw = dict(chunk_size=chunk, max_workers=w)
    if mode == 'resolution':
        kw['resolution'] = arg
    elif mode == 'nodes':
        byk = {kt(n.key): n for n in reader.GetAllNodes()}
        kw['nodes'] = [byk[k] for k in arg]
    p = Progress()
    if progress:
        kw['progress'] = p
    c.op('%s %s of %s with classes %s' % (which, (mode, arg), counts, limits))
    before = None if limits is None else list(limits)
    if which == 'concat':
        got = R.read_concat_xyz_class_limit(reader, limits, **kw)
        want = [x for k in keys for x in want_rows(spec, k, limits)]
        c.eq(got.shape, (len(want), 3), 'shape')
        c.eq(sorted(map(tuple, got.tolist())), sorted(want), 'coordinates')
    else:
        got = R.read_map_xyz_class_limit(reader, limits, **kw)
        want = {str(copc.VoxelKey(*k)): want_rows(spec, k, limits) for k in keys if want_rows(spec, k, limits)}
        c.eq(sorted(got), sorted(want), 'keys')
        for k in want:
            c.eq(got[k].shape, (len(want[k]), 3), 'shape')
            c.eq([tuple(r) for r in got[k].tolist()], want[k], 'coordinates of a node')
    c.eq(limits, before, 'class list of the caller changed')
    if progress:
        c.eq((p.n, p.totals), (len(keys), [] if mode == 'nodes' else [len(keys)]), 'progress')
    c.state(repr((counts, limits, mode, arg, which, chunk, s.log)))
    c.outcome(repr(got if which == 'map' else got.tolist()))


HOW = ['raise', 'not a dict', 'none', 'unpicklable result', 'worker dies', 'clashing result', 'unpicklable error',
       'callback raises', 'file gone', 'unpicklable argument', 'reserved points', 'reserved node', 'reserved reader', 'missing argument']


@scenario('failures', shards=8)
def failures(c):
    """A task that fails is reported, whenever it ends and wherever in the list it is."""
    n = 3
    path, spec = std(n)
    how = c.pick(HOW, 'failure')
    at = files.KEYS[c.choose(n, 'which node')]
    chunk = c.pick([1, 2, 1024], 'chunk size')
    w = c.pick([1, 3], 'workers')
    s = pool.start(c)
    s.late_pickle = c.flip('arguments pickled late')
    reader = copc.FileReader(path)
    byk = {kt(x.key): x for x in reader.GetAllNodes()}
    calls, seen = [], []

    def callback(node, r):
        if how == 'callback raises' and kt(node.key) == at:
            raise ZeroDivisionError()
        calls.append((kt(node.key), r))
    args = dict(how=how, at=at)
    if how == 'unpicklable argument':
        args['x'] = lambda: 1
    if how.startswith('reserved'):
        args[how.split()[1]] = 1
    if how == 'missing argument':
        del args['at']
    if how == 'file gone':
        import shutil
        gone = path + '.gone'
        shutil.copy(path, gone)
        reader = copc.FileReader(gone)
        os.unlink(gone)
    c.op('read with failure "%s" at %s' % (how, at))
    failed = None
    try:
        R.read_multithreaded(reader, failing, args, nodes=[byk[k] for k in files.KEYS[:n]], completed_callback=callback,
                             chunk_size=chunk, max_workers=w)
    except Exception as e:
        failed = e
    c.check(failed is not None, 'failure swallowed', 'failure "%s" went unnoticed' % how)
    c.check(not isinstance(failed, RuntimeError) or 'deadlock' not in str(failed), 'deadlock', str(failed))
    kind = {'raise': KeyError, 'not a dict': AssertionError, 'none': AssertionError, 'worker dies': pool.BrokenProcessPool,
            'callback raises': ZeroDivisionError, 'file gone': pool.BrokenProcessPool, 'missing argument': TypeError, 'clashing result': TypeError}.get(how)
    if kind:
        c.check(isinstance(failed, kind), 'another error', 'failure "%s" surfaced as %r' % (how, failed))
    c.check(len(set(k for k, _ in calls)) == len(calls), 'called twice', 'a node was handed to the callback twice')
    for k, r in calls:
        c.check(k != at or how == 'unpicklable argument', 'failed node', 'the failed node was handed to the callback')
        c.eq(r, k, 'result of another node')
    if how.startswith('reserved') or how in ('file gone', 'unpicklable argument', 'missing argument'):
        c.eq(calls, [], 'calls')
    for p in s.pools:
        c.check(p.closed and not p.running and not p.queue, 'pool left', 'tasks were left behind')
    c.state(repr((how, at, chunk, w, s.log)))
    c.outcome(repr((type(failed), calls)))


@scenario('failures among many nodes', shards=4)
def failures_many(c):
    """One task of many fails, at any place of the list and of the order in which they end."""
    n, chunk, w = c.pick([(5, 1024, 2), (8, 5, 3), (70, 16, 3), (70, 1024, 8)], 'nodes, chunk size and workers')
    path, spec = files.many(n)
    how = c.pick(['raise', 'not a dict', 'worker dies', 'callback raises', 'unpicklable result'], 'failure')
    keys = list(spec.nodes)
    at = keys[c.choose(n, 'which node')]
    policy = c.pick(['first', 'last', 'middle'], 'order of the tasks')
    s = pool.start(c, interrupts=False)
    s.policy = policy
    calls = []

    def callback(node, r):
        if how == 'callback raises' and kt(node.key) == at:
            raise ZeroDivisionError()
        calls.append((kt(node.key), r))
    c.op('read %d nodes with failure "%s" at %s, %s' % (n, how, at, policy))
    failed = None
    try:
        R.read_multithreaded(copc.FileReader(path), failing, dict(how=how, at=at), completed_callback=callback, chunk_size=chunk, max_workers=w)
    except Exception as e:
        failed = e
    c.check(failed is not None, 'failure swallowed', 'failure "%s" went unnoticed' % how)
    c.check(len(set(k for k, _ in calls)) == len(calls), 'called twice', 'a node was handed to the callback twice')
    for k, r in calls:
        c.check(k != at, 'failed node', 'the failed node was handed to the callback')
        c.eq(r, k, 'result of another node')
    for p in s.pools:
        c.check(p.closed and not p.running and not p.queue, 'pool left', 'tasks were left behind')
    c.state(repr((n, how, at, policy)))


@scenario('arguments')
def arguments(c):
    path, spec = std(3)
    s = pool.start(c, interrupts=False)
    reader = copc.FileReader(path)
    nodes = reader.GetAllNodes()
    which = c.choose(8, 'what')
    calls = []
    cb = lambda node, r: calls.append(kt(node.key))   # noqa: E731
    args = dict(how='', at=None)
    c.op('argument error %d' % which)
    if which == 0:   # nodes and resolution at once
        ns = c.pick([nodes, nodes[:1], []], 'nodes')
        res = c.pick([0, 0.001, 1, 1e9], 'resolution')
        c.raises(lambda: R.read_multithreaded(reader, failing, args, nodes=ns, resolution=res, completed_callback=cb), 'nodes and resolution', RuntimeError)
    elif which == 1:
        f = c.pick([R.read_concat_xyz_class_limit, R.read_map_xyz_class_limit], 'helper')
        a = c.pick(['filter_function', 'filter_function_args', 'completed_callback', 'read_function', 'read_function_args', 'nonsense'], 'argument')
        v = c.pick([None, 1], 'value')
        c.raises(lambda: f(reader, **{a: v}), 'argument ' + a, RuntimeError if a[0] in 'fc' else TypeError)
    elif which == 2:
        f = c.pick([R.read_concat_xyz_class_limit, R.read_map_xyz_class_limit], 'helper')
        v = c.pick([1, 'x', (1,), {1: 2}, 0], 'classes')
        c.raises(lambda: f(reader, v), 'classes', AssertionError)
    elif which == 3:
        f = c.pick([R.read_concat_xyz_class_limit, R.read_map_xyz_class_limit], 'helper')
        c.raises(lambda: f(reader, nodes=nodes, resolution=c.pick([0, 3.0], 'resolution')), 'nodes and resolution', RuntimeError)
    elif which == 4:   # no callback, no progress, defaults
        R.read_multithreaded(reader, failing, args)
        c.eq(len([x for x in s.log if x[0] == 'end']), 3, 'tasks')
    elif which == 5:   # negative resolution means none; with nodes it is allowed
        R.read_multithreaded(reader, failing, args, nodes=nodes, resolution=-1, completed_callback=cb)
        c.eq(len(calls), 3, 'calls')
    elif which == 6:   # a tuple of nodes
        R.read_multithreaded(reader, failing, args, nodes=tuple(nodes), completed_callback=cb, chunk_size=2)
        c.eq(sorted(calls), sorted(spec.nodes), 'calls')
    else:   # nothing to read at all
        p = Progress()
        R.read_multithreaded(copc.FileReader(empty_file()[0]), failing, args, completed_callback=cb, progress=p)
        c.eq((calls, p.totals, p.n), ([], [0], 0), 'calls')
    if which < 4:
        c.eq((calls, [x for x in s.log]), ([], []), 'work done in spite of the error')
    c.state(repr((which, c.trace)))


@scenario('one call after another', shards=4)
def sequence(c):
    """Two or three calls on one or two files: none sees anything of another."""
    fs = [std(2), std(3, fmt=8, eb=2), std(2, scale=0.001, offset=(5, 6, 7))]
    n = 3 if THOROUGH else 2
    for i in range(n):
        path, spec = fs[c.choose(3, 'file')]
        kind = c.pick(['read', 'concat', 'map', 'failure'], 'call')
        s = pool.start(c, interrupts=False)
        s.quiet = i < n - 1
        reader = copc.FileReader(path)
        c.op('%s of %s' % (kind, os.path.basename(path)))
        if kind == 'read':
            _, calls, p, _ = run_read(c, path, spec, None, 'all', None, 2, 2, False, True, False)
            check_calls(c, path, spec, list(spec.nodes), calls, p, 'all')
        elif kind == 'concat':
            got = R.read_concat_xyz_class_limit(reader, [1, 2, 3], max_workers=2)
            c.eq(sorted(map(tuple, got.tolist())), sorted(x for k in spec.nodes for x in want_rows(spec, k, [1, 2, 3])), 'coordinates')
        elif kind == 'map':
            got = R.read_map_xyz_class_limit(reader, max_workers=2)
            c.eq({k: [tuple(r) for r in v.tolist()] for k, v in got.items()},
                 {str(copc.VoxelKey(*k)): want_rows(spec, k, []) for k in spec.nodes}, 'map')
        else:
            c.raises(lambda: R.read_multithreaded(reader, failing, dict(how='raise', at=files.KEYS[1]), max_workers=2), 'failure', KeyError)
        c.check(not any(hasattr(f, 'copc_reader') for f in vars(R).values()), 'state left', 'a call left its reader behind')
        c.state(repr(c.trace[:c.pos]))


# ---- the same orders with real processes
def gated(points, node, reader, gate, **kw):
    import time
    name = os.path.join(gate, '-'.join(map(str, kt(node.key))))
    open(name + '.started', 'w').close()
    t = time.time()
    while not os.path.exists(name):
        if time.time() - t > 60:
            raise RuntimeError('gate')
        time.sleep(0.002)
    return summary(points, node, reader, **kw)


@scenario('real processes', shards=3)
def real_processes(c):
    """The genuine ProcessPoolExecutor, its tasks released in each order: what the model predicts is what happens."""
    import shutil, tempfile, threading, time
    n = 3
    path, spec = std(n)
    order = c.pick(list(itertools.permutations(range(n))), 'order')
    pool.real()
    gate = tempfile.mkdtemp(dir=files.TMP)
    reader = copc.FileReader(path)
    byk = {kt(x.key): x for x in reader.GetAllNodes()}
    calls = []
    seen = threading.Event()

    def callback(node, summary):
        calls.append((kt(node.key), node, dict(summary=summary)))
        seen.set()

    def release():
        for i in order:
            k = '-'.join(map(str, files.KEYS[i]))
            t = time.time()
            while not os.path.exists(os.path.join(gate, k + '.started')) and time.time() - t < 60:
                time.sleep(0.002)
            seen.clear()
            open(os.path.join(gate, k), 'w').close()
            seen.wait(60)
    th = threading.Thread(target=release)
    th.start()
    c.op('release in order %s' % (order,))
    try:
        R.read_multithreaded(reader, gated, dict(gate=gate, expect_path=path, extra=3), nodes=[byk[k] for k in files.KEYS[:n]],
                             completed_callback=callback, max_workers=n)
    finally:
        th.join()
        shutil.rmtree(gate)
    c.eq([k for k, _, _ in calls], [files.KEYS[i] for i in order], 'order of the calls')
    check_calls(c, path, spec, files.KEYS[:n], calls, None, 'nodes')
    c.state(repr(order))
    c.extra += 1


@scenario('real failures')
def real_failures(c):
    """Failures with real processes surface as in the model."""
    path, spec = std(2)
    how = c.pick(['raise', 'not a dict', 'unpicklable result', 'worker dies', 'file gone', 'unpicklable argument', 'none'], 'failure')
    pool.real()
    reader = copc.FileReader(path)
    nodes = reader.GetAllNodes()
    args = dict(how='exit' if how == 'worker dies' else how, at=files.KEYS[1])
    if how == 'unpicklable argument':
        args['x'] = lambda: 1
    if how == 'file gone':
        import shutil
        shutil.copy(path, path + '.g')
        reader = copc.FileReader(path + '.g')
        os.unlink(path + '.g')
    failed = None
    c.op('failure ' + how)
    try:
        R.read_multithreaded(reader, really_failing, args, nodes=nodes, completed_callback=lambda **k: None, max_workers=2)
    except Exception as e:
        failed = e
    c.check(failed is not None, 'failure swallowed', 'failure "%s" went unnoticed' % how)
    kind = {'raise': KeyError, 'not a dict': AssertionError, 'none': AssertionError, 'worker dies': pool.BrokenProcessPool, 'file gone': pool.BrokenProcessPool}.get(how)
    if kind:
        c.check(isinstance(failed, kind), 'another error', 'failure "%s" surfaced as %r' % (how, failed))
    c.state(how)


def really_failing(how, node, at, **kw):
    if how == 'exit' and kt(node.key) == at:
        os._exit(1)
    return failing(how=how, node=node, at=at, **kw)
