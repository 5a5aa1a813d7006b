// C05: closing is idempotent and a closed writer can no longer alter its file.
#include "faulty.hpp"

static const K ROOT{0, 0, 0, 0}, NEW{2, 3, 3, 3}, NEWER{1, 1, 1, 0};

// Ways of ending: sequences over these, applied to an open writer with some nodes.
enum
{
    CLOSE,
    ADD,      // points under a new key
    ADD_RAW,  // into a new page
    ADD_COMP, // under a key that may exist
    MOVE,     // a node to the root page
    EDIT,     // change the configuration through the writer's handle
    NOTHING
};

struct Target // a writer over a stream or a file
{
    virtual ~Target() = default;
    virtual copc::Writer *w() = 0;
    virtual std::string bytes() = 0;
    virtual void destroy() = 0;
};
struct StreamTarget : Target
{
    std::stringstream out;
    std::unique_ptr<copc::Writer> p;
    StreamTarget(const copc::CopcConfigWriter &c) : p(new copc::Writer(out, c)) {}
    copc::Writer *w() override { return p.get(); }
    std::string bytes() override { return out.str(); }
    void destroy() override { p.reset(); }
};
struct FileTarget : Target
{
    std::string path = scratch_file("c05.copc.laz");
    std::unique_ptr<copc::FileWriter> p;
    FileTarget(const copc::CopcConfigWriter &c) : p(new copc::FileWriter(path, c)) {}
    ~FileTarget() { p.reset(), ::unlink(path.c_str()); }
    copc::Writer *w() override { return p.get(); }
    std::string bytes() override { return slurp(path); }
    void destroy() override { p.reset(); }
};

MC_SCENARIOS
{
    mc::add("copc", [](Ctx &c)
    {
        static const auto H = copc_histories();
        auto &h = c.pick(H, "history");
        bool file = c.flip("file");
        int L = mc::thorough() ? 5 : 4;
        auto cfg = make_cfg(h.s);
        std::unique_ptr<Target> t;
        if (file)
            t = std::make_unique<FileTarget>(cfg);
        else
            t = std::make_unique<StreamTarget>(cfg);
        Model m;
        m.s = h.s;
        int i = 0;
        for (auto &s : h.steps)
            run_step(*t->w(), m, s, i++);
        std::string done; // bytes once closed
        bool closed = false;
        auto after_close = [&]
        {
            std::string b = t->bytes();
            if (done.empty())
            {
                auto f = parse_or_fail(c, b, true);
                check_stored(c, f, m);
                c.eq(f.wkt, h.s.wkt, "WKT");
                c.eq(f.h.source, 0, "source id");
                done = b;
                c.state(cat(file, mc::hash64(f.canon())));
            }
            else
                c.check(b == done, "altered", "a closed writer changed its file");
        };
        std::string ops;
        for (int k = 0; k < L; k++)
        {
            int o = c.choose(NOTHING + 1, "operation");
            if (o == NOTHING)
                break;
            if (!closed && o != CLOSE) // the histories before closing are those of C01 and C02
                return;
            auto &w = *t->w();
            switch (o)
            {
            case CLOSE:
                c.op("close");
                w.Close();
                closed = true;
                break;
            case ADD:
                c.op("add points after closing");
                c.check(throws([&] { w.AddNode(vk(NEW), to_points(h.s.fmt, h.s.eb(), 90, 2, h.s.scale, h.s.offset)); }), "add after close: points",
                        "points added to a closed writer");
                break;
            case ADD_RAW:
                c.op("add raw after closing");
                c.check(throws([&] { w.AddNode(vk(NEW), vec(w::make_recs(h.s.fmt, h.s.eb(), 91, 1)), vk(NEW)); }), "add after close: raw",
                        "raw data added to a closed writer");
                break;
            case ADD_COMP:
                c.op("add a chunk after closing");
                c.check(throws([&] { w.AddNodeCompressed(vk(ROOT), vec(w::encode_chunk(w::make_recs(h.s.fmt, h.s.eb(), 92, 1), h.s.fmt, h.s.eb())), 1); }),
                        "add after close: chunk", "a chunk added to a closed writer");
                break;
            case MOVE:
                c.op("move after closing");
                if (!h.steps.empty())
                    throws([&] { w.ChangeNodePage(vk(h.steps.back().key), vk(ROOT)); });
                break;
            case EDIT:
                c.op("edit the configuration after closing");
                w.CopcConfig()->LasHeader()->file_source_id = 77;
                w.CopcConfig()->CopcInfo()->spacing = 5;
                w.CopcConfig()->CopcExtents()->Intensity()->maximum = 9;
                break;
            }
            after_close();
        }
        c.op("destroy");
        t->destroy();
        after_close();
        // the same history on a stream, closed once
        StreamTarget ref(make_cfg(h.s));
        Model m2;
        m2.s = h.s;
        i = 0;
        for (auto &s : h.steps)
            run_step(*ref.w(), m2, s, i++);
        ref.w()->Close();
        c.eq(done.size(), ref.bytes().size(), "size");
        c.check(parse_or_fail(c, done, true).canon() == parse_or_fail(c, ref.bytes(), true).canon(), "way of closing",
                "the file differs from the one written to a stream and closed once");
    }, 0, 8);

    mc::add("laz", [](Ctx &c)
    {
        static const auto H = laz_histories();
        auto &h = c.pick(H, "history");
        bool file = c.flip("file");
        int L = mc::thorough() ? 7 : 5;
        cl::LazConfigWriter cfg = make_laz_cfg(h.s);
        std::stringstream out;
        std::string path = scratch_file("c05.laz");
        struct Unlink
        {
            std::string p;
            ~Unlink() { ::unlink(p.c_str()); }
        } unlink_it{path};
        std::unique_ptr<copc::laz::LazWriter> sw;
        std::unique_ptr<copc::laz::LazFileWriter> fw;
        copc::laz::LazWriter *w;
        if (file)
        {
            fw = std::make_unique<copc::laz::LazFileWriter>(path, cfg);
            w = fw.get();
        }
        else
        {
            sw = std::make_unique<copc::laz::LazWriter>(out, cfg);
            w = sw.get();
        }
        auto bytes = [&] { return file ? slurp(path) : out.str(); };
        std::string want, done;
        int i = 0;
        for (auto &b : h.batches)
            want += run_batch(*w, h.s, b, i++);
        uint64_t n = w->PointCount(), ch = w->ChunkCount();
        auto after_close = [&]
        {
            std::string b = bytes();
            if (done.empty())
            {
                auto f = parse_or_fail(c, b, false);
                c.check(f.points == want, "points", "closed file does not hold the points written");
                c.eq(f.wkt, h.s.wkt, "WKT");
                done = b;
                c.state(cat(file, mc::hash64(b)));
            }
            else
                c.check(b == done, "altered", "a closed writer changed its file");
        };
        bool closed = false;
        for (int k = 0; k < L; k++)
        {
            int o = c.choose(5, "operation");
            if (o == 4)
                break;
            if (!closed && o)
                return;
            switch (o)
            {
            case 0:
                c.op("close");
                if (file)
                    fw->Close();
                else
                    w->Close();
                closed = true;
                break;
            case 1:
                c.op("points after closing");
                c.check(throws([&] { w->WritePoints(to_points(h.s.fmt, h.s.eb(), 90, 2, h.s.scale, h.s.offset)); }), "add after close: points",
                        "points written to a closed writer");
                break;
            case 2:
                c.op("chunk after closing");
                c.check(throws([&] { w->WritePointsCompressed(vec(w::encode_chunk(w::make_recs(h.s.fmt, h.s.eb(), 9, 1), h.s.fmt, h.s.eb())), 1); }),
                        "add after close: chunk", "a chunk written to a closed writer");
                break;
            case 3:
                c.op("edit the configuration after closing");
                w->LazConfig()->LasHeader()->file_source_id = 99;
                break;
            }
            if (closed)
                c.eq(w->PointCount(), n, "point counter"), c.eq(w->ChunkCount(), ch, "chunk counter");
            after_close();
        }
        c.op("destroy");
        fw.reset();
        sw.reset();
        after_close();
        std::stringstream o2;
        {
            copc::laz::LazWriter w2(o2, make_laz_cfg(h.s));
            i = 0;
            for (auto &b : h.batches)
                run_batch(w2, h.s, b, i++);
        }
        c.check(o2.str() == done, "way of closing", "the file differs from the one written to a stream by a writer that was destroyed");
    }, 0, 4);
}
