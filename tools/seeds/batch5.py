SEEDS = [
dict(id='page-loaded-early', property='C39', needs='an input that fails once while a page of the hierarchy is read',
 breaks='a page that could not be read counts as loaded, so later queries silently miss its nodes',
 edits=[('cpp/src/io/copc_reader.cpp', '''    int num_entries = int(page->byte_size / Entry::ENTRY_SIZE);
''', '''    const int num_entries = int(page->byte_size / Entry::ENTRY_SIZE);
    page->loaded = true;
'''), ('cpp/src/io/copc_reader.cpp', '''    page->loaded = true;
    return out;''', '''    return out;''')],
 demo='''struct Buf : std::stringbuf
{
    int left = -1;
    explicit Buf(const std::string &s) : std::stringbuf(s, std::ios::in | std::ios::binary) {}
    std::streamsize xsgetn(char *p, std::streamsize n) override
    {
        if (left >= 0 && left-- == 0)
            return 0;
        return std::stringbuf::xsgetn(p, n);
    }
};
int main()
{
    std::stringstream s;
    CopcConfigWriter cfg(6);
    Writer w(s, cfg);
    VoxelKey a(0, 0, 0, 0), b(1, 0, 0, 1);
    w.AddNode(a, some(*w.CopcConfig()->LasHeader(), 2));
    w.AddNode(b, some(*w.CopcConfig()->LasHeader(), 3), b);
    w.Close();
    for (int at : {0, 3, 8, 16, 20})
    {
        Buf buf(s.str());
        std::istream in(&buf);
        Reader r(&in);
        buf.left = at;
        throws([&] { r.FindNode(b); });
        buf.left = -1;
        CHECK(r.FindNode(b).IsValid());
        CHECK(r.GetAllNodes().size() == 2);
    }
}
'''),
dict(id='listing-skips-unreadable', property='C39', needs='an input that fails while the points of one node of several are read',
 breaks='the points of a node that cannot be read are left out of a query over many nodes without an error',
 edits=[('cpp/src/io/copc_reader.cpp', '''        if (node.key.d <= max_depth)
            out.AddPoints(GetPoints(node));
    return out;''', '''        if (node.key.d <= max_depth)
            if (in_stream_->seekg(node.offset)) // the points are there
                out.AddPoints(GetPoints(node));
    return out;''')],
 demo='''struct Buf : std::stringbuf
{
    int left = -1;
    explicit Buf(const std::string &s) : std::stringbuf(s, std::ios::in | std::ios::binary) {}
    pos_type seekpos(pos_type p, std::ios::openmode m) override
    {
        if (left >= 0 && left-- == 0)
            return pos_type(off_type(-1));
        return std::stringbuf::seekpos(p, m);
    }
};
int main()
{
    std::stringstream s;
    CopcConfigWriter cfg(6);
    Writer w(s, cfg);
    VoxelKey a(0, 0, 0, 0), b(1, 0, 0, 1);
    w.AddNode(a, some(*w.CopcConfig()->LasHeader(), 2));
    w.AddNode(b, some(*w.CopcConfig()->LasHeader(), 3));
    w.Close();
    for (int at = -1; at < 12; at++)
    {
        Buf buf(s.str());
        std::istream in(&buf);
        Reader r(&in);
        r.GetAllNodes();
        buf.left = at;
        size_t n = 5;
        throws([&] { n = r.GetAllPoints().Size(); });
        CHECK(n == 5);
        buf.left = -1;
        CHECK(r.GetAllPoints().Size() == 5);
    }
}
'''),
dict(id='cold-size-table', property='C31', needs='two threads that make their first writer, or open their first file, at the same time',
 breaks='the sizes of the extents are kept in a table that all threads fill without a lock',
 edits=[('cpp/src/copc/extents.cpp', '''    return CopcExtents(point_format_id, num_eb_items).ToLazPerf({}, {}, {}).size();''', '''    static std::map<int, size_t> sizes;
    auto &size = sizes[point_format_id * 65536 + num_eb_items];
    if (size == 0)
        size = CopcExtents(point_format_id, num_eb_items).ToLazPerf({}, {}, {}).size();
    return size;'''), ('cpp/src/copc/extents.cpp', '#include <sstream>', '#include <map>\n#include <sstream>')],
 demo='''#include <sys/wait.h>
#include <thread>
#include <unistd.h>
// many processes, each with threads that start together
static int run()
{
    std::atomic<int> ready{0}, bad{0};
    std::vector<std::thread> ts;
    for (int t = 0; t < 8; t++)
        ts.emplace_back([&, t]
        {
            ready++;
            while (ready < 8)
                ;
            for (int i = 0; i < 200; i++)
            {
                int n = (i * 8 + t) % 1500;
                if (CopcExtents::ByteSize(6, n) != 16 * (14 + n))
                    bad++;
            }
        });
    for (auto &t : ts)
        t.join();
    return bad;
}
int main()
{
    for (int i = 0; i < 40; i++)
    {
        pid_t p = fork();
        if (p == 0)
            _exit(run() ? 1 : 0);
        int st = 0;
        alarm(100);
        waitpid(p, &st, 0);
        CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    }
}
'''),
dict(id='within-in-float', property='C09', needs='coordinates that need more than 24 bits, and a box that a point only just lies in or out of',
 breaks='whether a point lies in a box is decided with coordinates rounded to single precision',
 edits=[('cpp/src/las/point.cpp', 'return box.Contains(Vector3(X(), Y(), Z()));', 'const float x = X(), y = Y(), z = Z(); return box.Contains(Vector3(x, y, z));')],
 demo='''int main()
{
    for (double base : {8.0, 6291456.0})
    {
        std::stringstream s;
        CopcConfigWriter cfg(6, Vector3(0.125, 0.125, 0.125), Vector3(base, base, base));
        Writer w(s, cfg);
        w.CopcConfig()->LasHeader()->min = Vector3(base, base, base);
        w.CopcConfig()->LasHeader()->max = Vector3(base + 4, base + 4, base + 4);
        Points p(*w.CopcConfig()->LasHeader());
        for (int i = 0; i < 16; i++)
        {
            auto q = p.CreatePoint();
            q->X(base + i * 0.125);
            q->Y(base + 1);
            q->Z(base + 1);
            p.AddPoint(q);
        }
        w.AddNode(VoxelKey(0, 0, 0, 0), p);
        w.Close();
        Reader r(&s);
        CHECK(r.GetPointsWithinBox(Box(base + 0.125, base, base, base + 0.625, base + 4, base + 4)).Size() == 5);
        CHECK(r.GetPointsWithinBox(Box(base + 0.25, base, base, base + 0.75, base + 4, base + 4)).Size() == 5);
    }
}
'''),
]
