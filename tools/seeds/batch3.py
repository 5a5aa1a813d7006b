PY = '''import concurrent.futures as cf
import copclib as copc


class Fut:
    def __init__(self, f, a):
        self.cb = []
        try:
            self.r, self.e = f(*a), None
        except Exception as e:
            self.r, self.e = None, e

    def result(self):
        if self.e:
            raise self.e
        return self.r

    def add_done_callback(self, f):
        f(self)


class Ex:
    def __init__(self, max_workers=None, initializer=None, initargs=()):
        if initializer:
            initializer(*initargs)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def submit(self, f, *a):
        return Fut(f, a)


cf.ProcessPoolExecutor = Ex
cf.as_completed = lambda fs: list(reversed(fs))
K = [(0, 0, 0, 0), (1, 1, 0, 0), (2, 2, 1, 0), (1, 0, 1, 1), (3, 7, 7, 7)]


def build(path, pages=None, n=len(K), fmt=7):
    cfg = copc.CopcConfigWriter(fmt, [0.01] * 3, [0, 0, 0], 'WKT', copc.EbVlr(0), True)
    cfg.las_header.max = [64, 64, 64]
    cfg.copc_info.spacing = 8
    w = copc.FileWriter(path, cfg)
    for i, k in enumerate(K[:n]):
        p = copc.Points(w.copc_config.las_header)
        for j in range(3):
            q = p.CreatePoint()
            q.x, q.y, q.z = i + 1, j + 1, 5
            q.classification = j
            p.AddPoint(q)
        w.AddNode(copc.VoxelKey(*k), p, copc.VoxelKey(*(pages or {}).get(k, (0, 0, 0, 0))))
    w.Close()
    return copc.FileReader(path)


'''
SEEDS = [
dict(id='chunk-tail-dropped', property='C28', needs='more nodes than chunk_size, and not a multiple of it',
 breaks='the parallel reader leaves out the nodes after the last whole chunk',
 edits=[('python/copclib/mp/utils.py', '''    for i in range(0, len(lst), n):
        yield lst[i : i + n]''', '''    n = max(1, min(n, len(lst)))
    for i in range(0, len(lst) - n + 1, n):
        yield lst[i : i + n]''')],
 python=PY + '''from copclib.mp.read import read_concat_xyz_class_limit
r = build('a.copc.laz')
for size in (1, 2, 3, 4, 5, 100):
    n = len(read_concat_xyz_class_limit(r, chunk_size=size, max_workers=2))
    assert n == 15, (size, n)
'''),
dict(id='class-zero-filter', property='C28', needs='limiting a parallel read to class 0 alone',
 breaks='the parallel reader ignores a limit to class 0 and returns the points of all classes',
 edits=[('python/copclib/mp/read.py', '''        if not class_limits or point.classification in class_limits:''',
 '''        if not any(class_limits or ()) or point.classification in class_limits:''')],
 python=PY + '''from copclib.mp.read import read_concat_xyz_class_limit
r = build('a.copc.laz')
for limits, want in (([], 15), ([1], 5), ([0, 2], 10), ([0], 5), ([9], 0)):
    n = len(read_concat_xyz_class_limit(r, classification_limits=limits, max_workers=2))
    assert n == want, (limits, n)
'''),
dict(id='minmax-of-last-chunk', property='C29', needs='bounds update with more nodes than chunk_size',
 breaks='the parallel transform sets the bounds from the nodes of the last chunk only',
 edits=[('python/copclib/mp/transform.py', '''        for chunk in chunks(nodes, chunk_size):
            futures = []
''', '''        for chunk in chunks(nodes, chunk_size):
            futures, all_mins, all_maxs = [], [], []
''')],
 python=PY + '''from copclib.mp.transform import transform_multithreaded
r = build('a.copc.laz')
for size in (2, 3, 5, 10):
    w = copc.FileWriter('b.copc.laz', r.copc_config)
    transform_multithreaded(r, w, chunk_size=size, update_minmax=True, max_workers=2)
    w.Close()
    h = copc.FileReader('b.copc.laz').copc_config.las_header
    got = [h.min.x, h.min.y, h.max.x, h.max.y]
    assert all(abs(a - b) < 1e-6 for a, b in zip(got, [1, 1, 5, 3])), (size, got)
'''),
dict(id='transform-page-of-own-key', property='C29', needs='transforming a COPC file in which a node other than the root has a page of its own key',
 breaks='the parallel transform writes a node that is the first of its page into the root page',
 edits=[('python/copclib/mp/transform.py', '''                            node.page_key,
''', '''                            node.page_key
                            if node.page_key != node.key
                            else copc.VoxelKey.RootKey(),
''')],
 python=PY + '''from copclib.mp.transform import transform_multithreaded
r = build('a.copc.laz', {(1, 1, 0, 0): (1, 1, 0, 0), (2, 2, 1, 0): (1, 1, 0, 0)})
w = copc.FileWriter('b.copc.laz', r.copc_config)
transform_multithreaded(r, w, max_workers=2)
w.Close()
def pages(r):
    return sorted((n.key.d, n.key.x, n.key.y, n.key.z, str(n.page_key)) for n in r.GetAllNodes())
assert pages(copc.FileReader('b.copc.laz')) == pages(copc.FileReader('a.copc.laz'))
'''),
dict(id='pickle-swaps-counts', property='C30', needs='pickling the header of a file whose VLR and EVLR counts differ',
 breaks='a header comes back from pickling with its VLR count and EVLR count exchanged',
 edits=[('python/bindings.cpp', '''                                 t[17].cast<uint64_t>(), t[8].cast<uint32_t>(), t[11].cast<Vector3>(),
                                 t[12].cast<Vector3>(), t[15].cast<uint64_t>(), t[16].cast<uint32_t>(),''',
 '''                                 t[17].cast<uint64_t>(), t[16].cast<uint32_t>(), t[11].cast<Vector3>(),
                                 t[12].cast<Vector3>(), t[15].cast<uint64_t>(), t[8].cast<uint32_t>(),''')],
 python=PY + '''import copy, pickle
h = build('a.copc.laz').copc_config.las_header
for g in (pickle.loads(pickle.dumps(h)), copy.copy(h), copy.deepcopy(h)):
    assert (g.vlr_count, g.evlr_count) == (h.vlr_count, h.evlr_count), (g.vlr_count, g.evlr_count)
'''),
dict(id='pickle-node-narrow', property='C30', needs='pickling a node that lies beyond 4 GiB in its file',
 breaks='a node comes back from pickling with its offset cut to 32 bits',
 edits=[('python/bindings.cpp', '''return py::make_tuple(n.key, n.offset, n.byte_size, n.point_count, n.page_key);''',
 '''return py::make_tuple(n.key, (uint32_t)n.offset, n.byte_size, n.point_count, n.page_key);''')],
 python=PY + '''import pickle
n = copc.Node()
n.key = copc.VoxelKey(1, 1, 1, 1)
for o in (589, 2**31 - 1, 2**32 - 1, 2**32 + 5, 2**40):
    n.offset = o
    assert pickle.loads(pickle.dumps(n)).offset == o, o
'''),
dict(id='binding-edge-setter', property='C35', needs='setting the edge-of-flight-line extent from Python',
 breaks='assigning copc_extents.edge_of_flight_line changes the scan direction extent',
 edits=[('python/bindings.cpp', '''                      py::overload_cast<std::shared_ptr<CopcExtent>>(&CopcExtents::EdgeOfFlightLine))''',
 '''                      py::overload_cast<std::shared_ptr<CopcExtent>>(&CopcExtents::ScanDirectionFlag))''')],
 python=PY + '''e = copc.CopcExtents(7)
e.edge_of_flight_line = copc.CopcExtent(0, 1)
assert (e.edge_of_flight_line.maximum, e.scan_direction_flag.maximum) == (1, 0)
'''),
dict(id='binding-negative-index', property='C35', needs='indexing points from Python with a negative index below the first',
 breaks='p[-len(p)-1] and lower wrap around again instead of raising IndexError',
 edits=[('python/bindings.cpp', '''        if (i < 0)
            i += n;''', '''        while (i < 0 && n > 0)
            i += n;''')],
 python=PY + '''p = copc.Points(6)
for i in range(3):
    p.AddPoint(p.CreatePoint())
for i in (-4, -5, -7, 3):
    try:
        p[i]
    except IndexError:
        continue
    assert False, i
'''),
dict(id='empty-entries-dropped', property='C07', needs='a file with an entry of no points and no data (which other writers make for inner cells)',
 breaks='entries without points are left out of lookups and listings',
 edits=[('cpp/src/io/copc_base_io.cpp', '''        else
        {
            auto node = std::make_shared<Node>(e, page->key);
            hierarchy_->loaded_nodes_[e.key] = node;''', '''        else if (e.byte_size > 0)
        {
            auto node = std::make_shared<Node>(e, page->key);
            hierarchy_->loaded_nodes_[e.key] = node;''')],
 demo='''int main()
{
    std::stringstream s;
    {
        CopcConfigWriter cfg(6);
        Writer w(s, cfg);
        auto h = *w.CopcConfig()->LasHeader();
        w.AddNode(VoxelKey(0, 0, 0, 0), some(h, 2));
        w.AddNode(VoxelKey(1, 1, 0, 0), some(h, 2));
        w.Close();
    }
    // make the root an empty entry, as for an inner cell without points
    std::string x = s.str();
    size_t o = at<uint64_t>(x, 375 + 54 + 40), n = at<uint64_t>(x, 375 + 54 + 48);
    for (size_t i = o; i < o + n; i += 32)
        if (at<int32_t>(x, i) == 0)
            std::fill(x.begin() + i + 16, x.begin() + i + 32, 0);
    std::stringstream in(x);
    Reader r(&in);
    CHECK(r.GetAllNodes().size() == 2);
    auto root = r.FindNode(VoxelKey(0, 0, 0, 0));
    CHECK(root.key == VoxelKey(0, 0, 0, 0) && root.point_count == 0);
}
'''),
dict(id='laz-config-shares-header', property='C19', needs='a LAZ configuration made from a COPC writer configuration that is changed afterwards',
 breaks='a LAZ configuration made from a COPC configuration shares its header object',
 edits=[('cpp/src/las/laz_config.cpp', '''    header_ = std::make_shared<copc::las::LasHeader>(copc_config.LasHeader());
    wkt_ = copc_config.Wkt();''', '''    header_ = static_cast<const LazConfig &>(copc_config).header_;
    wkt_ = copc_config.Wkt();''')],
 demo='''int main()
{
    CopcConfigWriter a(6);
    las::LazConfig b(static_cast<const CopcConfig &>(a));
    a.LasHeader()->file_source_id = 7;
    a.LasHeader()->max.x = 9;
    CHECK(b.LasHeader().file_source_id == 0 && b.LasHeader().max.x == 0);
}
'''),
dict(id='chunk-table-clears-errors', property='C23', needs='an output that fails once while space for the header is reserved, and a file without points',
 breaks='closing forgets an earlier failure of the output, so an incomplete file is reported as written',
 edits=[('cpp/src/io/laz_base_writer.cpp', '''    // move to the end of the file to start emitting our compressed table
    out_stream_.seekp(0, std::ios::end);
''', '''    // move to the end of the file to start emitting our compressed table
    out_stream_.clear(); // seekp does nothing on a stream at its end
    out_stream_.seekp(0, std::ios_base::end);
''')],
 demo='''struct Buf : std::filebuf
{
    int left = -1;
    Buf()
    {
        pubsetbuf(nullptr, 0);
        open("a.laz", std::ios::out | std::ios::binary);
    }
    bool fail() { return left > 0 && --left == 0; }
    std::streamsize xsputn(const char *p, std::streamsize n) override { return fail() ? 0 : std::filebuf::xsputn(p, n); }
    int_type overflow(int_type c) override { return fail() ? traits_type::eof() : std::filebuf::overflow(c); }
};
int main()
{
    for (int n : {0, 3})
        for (int k = 1; k < 480; k++)
        {
            Buf b;
            std::ostream s(&b);
            las::LazConfigWriter cfg(6);
            b.left = k;
            bool thrown = throws([&] {
                laz::LazWriter w(s, cfg);
                auto h = *w.LazConfig()->LasHeader();
                for (int i = 0; i < n; i++)
                    w.WritePoints(some(h, 4));
                w.Close();
            });
            CHECK(thrown || b.left > 0);
        }
}
'''),
dict(id='longer-header-accepted', property='C33', needs='a LAS 1.4 file with a header of more than 375 bytes',
 breaks='headers longer than 375 bytes are accepted',
 edits=[('cpp/src/las/header.cpp', '''    if (header.header_size != HEADER_SIZE_BYTES)''', '''    if (header.header_size < HEADER_SIZE_BYTES)''')],
 demo='''int main()
{
    std::stringstream s;
    {
        las::LazConfigWriter cfg(6);
        laz::LazWriter w(s, cfg);
        w.WritePoints(some(*w.LazConfig()->LasHeader(), 3));
        w.Close();
    }
    std::string x = s.str();
    std::stringstream good(x);
    laz::LazReader r(&good);
    for (int n : {374, 376, 383, 400})
    {
        std::string y = x;
        y[94] = (char)(n & 255);
        y[95] = (char)(n >> 8);
        if (n > 375)
        {
            // a longer header, and everything behind it moved accordingly
            y.insert(375, std::string(n - 375, 0));
            auto move = [&](size_t o, int bytes) {
                uint64_t v = 0;
                std::memcpy(&v, &y[o], bytes);
                v += n - 375;
                std::memcpy(&y[o], &v, bytes);
            };
            move(at<uint32_t>(x, 96) + n - 375, 8);
            move(96, 4);
            move(235, 8);
        }
        std::stringstream in(y);
        CHECK(throws([&] { laz::LazReader z(&in); }));
    }
}
'''),
dict(id='kind-change-drops-returns', property='C34', needs='copying a COPC file into a LAZ file',
 breaks='the numbers of points by return are lost when a header changes between COPC and LAZ',
 edits=[('cpp/src/las/header.cpp', '''LasHeader::LasHeader(const LasHeader &header, bool is_copc) : LasHeader(header) { copc_flag_ = is_copc; }''',
 '''LasHeader::LasHeader(const LasHeader &header, bool is_copc) : LasHeader(header)
{
    // the counts are those of another file
    if (copc_flag_ != is_copc)
        points_by_return.fill(0);
    copc_flag_ = is_copc;
}''')],
 demo='''int main()
{
    CopcConfigWriter a(6);
    a.LasHeader()->points_by_return[0] = 5;
    a.LasHeader()->points_by_return[14] = 2;
    std::stringstream s;
    {
        Writer w(s, a);
        w.AddNode(VoxelKey(0, 0, 0, 0), some(*w.CopcConfig()->LasHeader(), 3));
        w.Close();
    }
    Reader r(&s);
    CHECK(r.CopcConfig().LasHeader().points_by_return[14] == 2);
    std::stringstream t;
    {
        laz::LazWriter w(t, r.CopcConfig());
        w.WritePoints(r.GetAllPoints());
        w.Close();
    }
    laz::LazReader z(&t);
    CHECK(z.LazConfig().LasHeader().points_by_return[0] == 5 && z.LazConfig().LasHeader().points_by_return[14] == 2);
}
'''),
dict(id='empty-laz-stays-open', property='C36', needs='closing a LAZ file writer to which no points were written',
 breaks='closing a LAZ file writer without points leaves its file open',
 edits=[('cpp/include/copc-lib/io/laz_writer.hpp', '''        LazWriter::Close();
        BaseFileWriter::Close();
''', '''        LazWriter::Close();
        if (PointCount() > 0)
            BaseFileWriter::Close();
''')],
 demo='''#include <dirent.h>
int fds()
{
    int n = 0;
    DIR *d = opendir("/proc/self/fd");
    while (readdir(d))
        n++;
    closedir(d);
    return n;
}
int main()
{
    for (int n : {0, 3})
    {
        int before = fds();
        las::LazConfigWriter cfg(6);
        laz::LazFileWriter w("a.laz", cfg);
        CHECK(fds() == before + 1);
        w.WritePoints(some(*w.LazConfig()->LasHeader(), n));
        w.Close();
        CHECK(fds() == before);
    }
}
'''),
dict(id='spacing-in-float', property='C08', needs='a requested resolution equal to, or very near, a spacing that is not a single-precision number',
 breaks='the resolution of each depth is computed in single precision, so a request for exactly a depth\'s spacing may select the next',
 edits=[('cpp/src/io/copc_reader.cpp', '''    auto current_resolution = config_.CopcInfo().spacing;
''', '''    auto current_resolution = static_cast<float>(config_.CopcInfo().spacing);
''')],
 demo='''int main()
{
    for (double spacing : {10.0, 0.1, 0.3, 0.7, 1.1})
    {
        CopcConfigWriter cfg(6);
        cfg.CopcInfo()->spacing = spacing;
        std::stringstream s;
        {
            Writer w(s, cfg);
            auto h = *w.CopcConfig()->LasHeader();
            for (int d = 0; d < 4; d++)
                w.AddNode(VoxelKey(d, 0, 0, 0), some(h, 1));
            w.Close();
        }
        Reader r(&s);
        for (int d = 0; d < 3; d++)
        {
            CHECK(r.GetDepthAtResolution(spacing / (1 << d)) == d);
            CHECK(r.GetDepthAtResolution(spacing / (1 << d) * (1 - 1e-12)) == d + 1);
        }
    }
}
'''),
dict(id='list-box-z-min', property='C12', needs='a two-dimensional box made from a list or tuple, and points or cells at z <= 0',
 breaks='a box made from four numbers in a list begins just above z = 0',
 edits=[('cpp/src/geometry/box.cpp', '''        y_min = vec[1];
        z_min = -std::numeric_limits<double>::max();''', '''        y_min = vec[1];
        z_min = std::numeric_limits<double>::min();''')],
 demo='''int main()
{
    Box b(std::vector<double>{0, 0, 2, 2});
    CHECK(b.Contains(Vector3(1, 1, 5)));
    CHECK(b.Contains(Vector3(1, 1, 0)));
    CHECK(b.Contains(Vector3(1, 1, -3)));
}
'''),
dict(id='override-drops-eb-extents', property='C18', needs='a writer override of the point format from 6 or 7, with as many extra-byte fields',
 breaks='the extents of extra bytes are lost when the point format is overridden',
 edits=[('cpp/src/copc/extents.cpp', '''    auto other_num_eb = other.NumberOfExtents() - PointBaseNumberExtents(other.PointFormatId());''',
 '''    auto other_num_eb = other.NumberOfExtents() - PointBaseNumberExtents(point_format_id);''')],
 demo='''int main()
{
    las::EbVlr eb(2);
    for (auto &i : eb.items)
        i.data_type = 1;
    for (int f : {6, 7, 8})
        for (int g : {6, 7, 8})
        {
            CopcConfigWriter cfg(f, Vector3::DefaultScale(), Vector3::DefaultOffset(), "", eb);
            cfg.CopcExtents()->ExtraBytes()[1]->minimum = -4;
            std::stringstream s;
            {
                Writer w(s, cfg, (int8_t)g);
                w.AddNode(VoxelKey(0, 0, 0, 0), some(*w.CopcConfig()->LasHeader(), 2));
                w.Close();
            }
            Reader r(&s);
            CHECK(r.CopcConfig().CopcExtents().ExtraBytes().size() == 2);
            CHECK(r.CopcConfig().CopcExtents().ExtraBytes()[1]->minimum == -4);
        }
}
'''),
dict(id='close-tolerance-relative', property='C27', needs='comparing numbers of a magnitude below or far above one',
 breaks='two numbers count as close when they differ by less than the tolerance times their size',
 edits=[('cpp/include/copc-lib/utils.hpp', '''return fabs(a - b) < epsilon; }''', '''return fabs(a - b) < epsilon * fmax(1.0, fabs(a)); }''')],
 demo='''int main()
{
    las::Point a(6), b(6);
    a.X(1000000);
    b.X(1000000.5);
    CHECK(!(a == b));
    b.X(1000000);
    CHECK(a == b);
    a.X(0.5);
    b.X(0.50001);
    CHECK(!(a == b));
}
'''),
dict(id='info-vlr-anywhere', property='C33', needs='a COPC file with another VLR before the info VLR',
 breaks='the info VLR is accepted anywhere in the file, though the format fixes its place',
 edits=[('cpp/src/io/copc_reader.cpp', '''    if (offset != CopcInfo::VLR_OFFSET)''', '''    if (offset < CopcInfo::VLR_OFFSET)''')],
 demo='''int main()
{
    std::stringstream s;
    {
        CopcConfigWriter cfg(6);
        Writer w(s, cfg);
        w.AddNode(VoxelKey(0, 0, 0, 0), some(*w.CopcConfig()->LasHeader(), 2));
        w.Close();
    }
    std::string x = s.str();
    // exchange the first two VLRs: info and extents
    size_t n = 54 + at<uint16_t>(x, 375 + 20), m = 54 + at<uint16_t>(x, 375 + n + 20);
    std::string y = x.substr(0, 375) + x.substr(375 + n, m) + x.substr(375, n) + x.substr(375 + n + m);
    std::stringstream good(x), bad(y);
    Reader r(&good);
    CHECK(throws([&] { Reader z(&bad); }));
}
'''),
dict(id='closed-writer-reopens-counts', property='C05', needs='closing a LAZ writer twice when it has a WKT',
 breaks='a second close appends the WKT record again',
 edits=[('cpp/src/io/laz_base_writer.cpp', '''void BaseWriter::Close()
{
    if (!open_)
        return;
''', '''void BaseWriter::Close()
{
    if (!open_ && config_->Wkt().size() < 64)
        return;
''')],
 demo='''int main()
{
    for (int n : {0, 5, 100})
    {
        std::stringstream s;
        las::LazConfigWriter cfg(6, Vector3::DefaultScale(), Vector3::DefaultOffset(), std::string(n, 'W'));
        laz::LazWriter w(s, cfg);
        w.WritePoints(some(*w.LazConfig()->LasHeader(), 2));
        w.Close();
        auto x = s.str();
        w.Close();
        CHECK(s.str() == x);
    }
}
'''),
]
