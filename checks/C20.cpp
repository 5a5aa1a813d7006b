// C20: a LAZ file gives back the concatenation of the batches written to it.
#include "faulty.hpp"

struct LazTarget
{
    std::stringstream out;
    std::string path;
    std::unique_ptr<copc::laz::LazWriter> s;
    std::unique_ptr<copc::laz::LazFileWriter> f;
    LazTarget(const cl::LazConfigWriter &cfg, bool file)
    {
        if (file)
        {
            path = scratch_file("c20.laz");
            f = std::make_unique<copc::laz::LazFileWriter>(path, cfg);
        }
        else
            s = std::make_unique<copc::laz::LazWriter>(out, cfg);
    }
    ~LazTarget()
    {
        s.reset();
        f.reset();
        if (!path.empty())
            ::unlink(path.c_str());
    }
    copc::laz::LazWriter &w() { return f ? *f : *s; }
    void close(int how)
    {
        if (how == 1) // by destruction
        {
            f.reset();
            s.reset();
        }
        else if (f)
            f->Close();
        else
            s->Close();
    }
    std::string bytes() { return path.empty() ? out.str() : slurp(path); }
};

// What the file says, by the reference parser and by the reader (asked twice, both ways).
static w::File check_file(Ctx &c, LazTarget &t, const Spec &s, const std::string &want, const std::vector<int> &sizes)
{
    auto f = parse_or_fail(c, t.bytes(), false);
    c.eq(f.h.count, want.size() / (size_t)s.len(), "header point count");
    c.eq(f.chunks.size(), sizes.size(), "chunks");
    for (size_t i = 0; i < sizes.size(); i++)
        c.eq(std::get<2>(f.chunks[i]), (uint64_t)sizes[i], cat("count of chunk ", i));
    c.check(f.points == want, "stored points", "the file's points are not the batches in order");
    c.eq(f.wkt, s.wkt, "WKT");
    c.eq(f.eb, s.eb(), "extra bytes");
    auto ask = [&](copc::laz::LazReader &r)
    {
        for (int k = 0; k < 2; k++)
        {
            c.check(str(r.GetPointData()) == want, "GetPointData", "reader's data is not the batches in order");
            auto p = r.GetPoints();
            c.eq(p.Size(), want.size() / (size_t)s.len(), "GetPoints: size");
            c.eq((int)p.PointFormatId(), s.fmt, "GetPoints: format");
            c.eq((int)p.EbByteSize(), s.eb(), "GetPoints: extra bytes");
            c.check(points_bytes(p, s.scale, s.offset) == want, "GetPoints", "reader's points are not the batches in order");
        }
        c.eq(r.LazConfig().LasHeader().PointCount(), want.size() / (size_t)s.len(), "reader's point count");
    };
    if (t.path.empty())
    {
        std::istringstream in(t.bytes());
        copc::laz::LazReader r(&in);
        ask(r);
    }
    else
    {
        copc::laz::LazFileReader r(t.path);
        ask(r);
    }
    return f;
}

// The batches.
struct Op
{
    enum
    {
        POINTS_,
        CHUNK,
        EMPTY,       // points
        EMPTY_OTHER, // of another format
        AGAIN,       // the last Points object
        EDITED,      // the last Points object, after changing and extending it
        BAD_FORMAT,  // of the same record length where that exists
        BAD_LENGTH,  // of the same format; -1: so many that their bytes are a whole number of the writer's records
        ZERO,        // chunk of no points
        NEGATIVE,
    } kind;
    int n;
};

static const std::vector<Op> &ops()
{
    static const std::vector<Op> v{{Op::POINTS_, 1}, {Op::POINTS_, 2},     {Op::POINTS_, 5},    {Op::CHUNK, 1}, {Op::CHUNK, 4},
                                   {Op::EMPTY, 0},   {Op::EMPTY_OTHER, 0}, {Op::AGAIN, 0},      {Op::EDITED, 0}, {Op::BAD_FORMAT, 2},
                                   {Op::BAD_LENGTH, 1}, {Op::BAD_LENGTH, -1}, {Op::ZERO, 0},     {Op::NEGATIVE, -1}, {Op::NEGATIVE, INT_MIN}};
    return v;
}

static void history(Ctx &c, const Spec &s, int L, bool files)
{
    bool file = files && c.flip("file");
    LazTarget t(make_laz_cfg(s), file);
    std::string want;
    std::vector<int> sizes;
    std::unique_ptr<cl::Points> last;
    int seed = 3;
    for (int k = 0; k < L; k++)
    {
        int o = c.choose((int)ops().size() + 1, "batch");
        if (o == (int)ops().size())
            break;
        auto op = ops()[o];
        auto &w = t.w();
        std::string recs;
        bool rejected = false;
        switch (op.kind)
        {
        case Op::POINTS_:
            last = std::make_unique<cl::Points>(to_points(s.fmt, s.eb(), seed, op.n, s.scale, s.offset));
            recs = w::make_recs(s.fmt, s.eb(), seed, op.n);
            w.WritePoints(*last);
            break;
        case Op::CHUNK:
        {
            recs = w::make_recs(s.fmt, s.eb(), seed, op.n);
            auto comp = vec(w::encode_chunk(recs, s.fmt, s.eb()));
            w.WritePointsCompressed(comp, op.n);
            comp.assign(comp.size(), 'x'); // the writer may not keep the caller's buffer
            break;
        }
        case Op::EMPTY:
            w.WritePoints(cl::Points((int8_t)s.fmt, (uint16_t)s.eb()));
            break;
        case Op::EMPTY_OTHER:
            throws([&] { w.WritePoints(cl::Points((int8_t)(s.fmt == 6 ? 7 : 6), (uint16_t)(s.eb() + 1))); });
            break;
        case Op::AGAIN:
        case Op::EDITED:
            if (!last)
                return; // that is an empty batch
            if (op.kind == Op::EDITED)
            {
                last->Get(0)->Intensity((uint16_t)(last->Get(0)->Intensity() + 1));
                last->Get(0)->X(last->Get(0)->X() + s.scale.x);
                last->AddPoint(to_point(w::make_rec(s.fmt, s.eb(), seed), s.scale, s.offset));
            }
            recs = points_bytes(*last, s.scale, s.offset);
            w.WritePoints(*last);
            break;
        case Op::BAD_FORMAT:
        {
            int of = s.fmt == 8 ? 7 : 8, oe = s.len() - w::base_size(of);
            if (oe < 0)
                oe = 0;
            rejected = true;
            auto p = to_points(of, oe, seed, op.n, s.scale, s.offset);
            c.check(throws([&] { w.WritePoints(p); }), "another format accepted", cat("format ", of, " accepted by a writer of format ", s.fmt));
            break;
        }
        case Op::BAD_LENGTH:
        {
            rejected = true;
            for (int eb : {s.eb() + 1, s.eb() - 1})
            {
                if (eb < 0)
                    continue;
                auto p = to_points(s.fmt, eb, seed, op.n < 0 ? s.len() : op.n, s.scale, s.offset);
                c.check(throws([&] { w.WritePoints(p); }), "another record length accepted", cat(p.Size(), " points with ", eb, " extra bytes accepted"));
            }
            break;
        }
        case Op::ZERO:
        case Op::NEGATIVE:
            rejected = true;
            c.check(throws([&] { w.WritePointsCompressed(vec(w::encode_chunk(w::make_recs(s.fmt, s.eb(), seed, 1), s.fmt, s.eb())), op.n); }),
                    "count accepted", cat("a chunk of ", op.n, " points accepted"));
            break;
        }
        c.op(cat("batch ", o, " of ", recs.size() / (size_t)s.len(), rejected ? " rejected" : ""));
        if (!recs.empty())
        {
            want += recs;
            sizes.push_back((int)(recs.size() / (size_t)s.len()));
        }
        seed += 11;
        c.eq(t.w().PointCount(), want.size() / (size_t)s.len(), "PointCount");
        c.eq(t.w().ChunkCount(), sizes.size(), "ChunkCount");
    }
    int how = c.choose(2, "destroy");
    c.op(how ? "destroy" : "close");
    t.close(how);
    if (how == 0)
    {
        c.eq(t.w().PointCount(), want.size() / (size_t)s.len(), "PointCount after Close");
        c.eq(t.w().ChunkCount(), sizes.size(), "ChunkCount after Close");
    }
    auto f = check_file(c, t, s, want, sizes);
    c.state(cat(file, s.fmt, "/", s.eb(), f.canon()));
    c.outcome(cat(sizes.size(), " chunks"));
}

MC_SCENARIOS
{
    static std::vector<Spec> specs;
    for (int fmt : {6, 7, 8})
        for (int eb : {0, 2})
        {
            Spec s;
            s.fmt = fmt;
            s.ebs = eb_raw(eb);
            if (eb)
                s.wkt = "LOCAL_CS[\"x\"]";
            specs.push_back(s);
        }
    // every history, over streams (files to depth 2)
    mc::add("histories", [](Ctx &c)
    {
        auto &s = c.pick(specs, "configuration");
        bool deep = s.fmt == 6 + (s.eb() ? 1 : 0);
        history(c, s, mc::thorough() ? (deep ? 5 : 4) : (deep ? 4 : 3), false);
    }, 0, 8);
    mc::add("files", [](Ctx &c) { history(c, c.pick(specs, "configuration"), mc::thorough() ? 3 : 2, true); }, 0, 2);

    // every batch size, and every number of batches
    mc::add("sizes", [](Ctx &c)
    {
        auto &s = c.pick(specs, "configuration");
        int N = mc::thorough() ? 1200 : 400;
        std::vector<int> sizes;
        int n = c.choose(N + 3, "size");
        n = n < N ? n : n == N ? 50000 : n == N + 1 ? 65535 : 65537;
        if (n > N && s.fmt != 7)
            return;
        int a = c.choose(2, "chunk"), b = c.choose(3, "neighbours");
        if (n > N && b)
            return;
        LazTarget t(make_laz_cfg(s), false);
        std::string want;
        auto put = [&](int m, int seed)
        {
            auto recs = w::make_recs(s.fmt, s.eb(), seed, m);
            if (!a)
                t.w().WritePoints(to_points(s.fmt, s.eb(), seed, m, s.scale, s.offset));
            else if (m)
                t.w().WritePointsCompressed(vec(w::encode_chunk(recs, s.fmt, s.eb())), m);
            if (m)
                sizes.push_back(m);
            want += recs;
        };
        if (b == 1)
            put(3, 1);
        put(n, 7);
        if (b == 2)
            put(2, 5);
        c.op(cat(n, " points"));
        c.eq(t.w().PointCount(), want.size() / (size_t)s.len(), "PointCount");
        t.close(0);
        auto f = check_file(c, t, s, want, sizes);
        c.state(cat(s.fmt, "/", s.eb(), a, b, " ", n));
    }, 0, 4);
    mc::add("many batches", [](Ctx &c)
    {
        auto &s = c.pick(specs, "configuration");
        static const std::vector<int> N{1, 2, 3, 4, 7, 8, 9, 31, 32, 33, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1000, 4097, 70000};
        int n = c.pick(N, "batches");
        int a = c.choose(2, "chunk"), sz = c.choose(3, "sizes");
        if (n > 5000 && (s.fmt != 6 || a || sz || (s.eb() && !mc::thorough())))
            return;
        LazTarget t(make_laz_cfg(s), false);
        std::string want;
        std::vector<int> sizes;
        for (int i = 0; i < n; i++)
        {
            int m = sz == 0 ? 1 : sz == 1 ? 1 + i % 3 : (i % 64 == 63 ? 40 : 1);
            auto recs = w::make_recs(s.fmt, s.eb(), i % 200, m);
            if (a)
                t.w().WritePointsCompressed(vec(w::encode_chunk(recs, s.fmt, s.eb())), m);
            else
                t.w().WritePoints(to_points(s.fmt, s.eb(), i % 200, m, s.scale, s.offset));
            want += recs;
            sizes.push_back(m);
        }
        c.op(cat(n, " batches"));
        c.step((uint64_t)n);
        c.eq(t.w().PointCount(), want.size() / (size_t)s.len(), "PointCount");
        c.eq(t.w().ChunkCount(), (uint64_t)n, "ChunkCount");
        t.close(0);
        check_file(c, t, s, want, sizes);
        c.state(cat(s.fmt, "/", s.eb(), a, sz, " ", n));
    }, 0, 2);
    // two writers taking turns over the same Points objects
    mc::add("two writers", [](Ctx &c)
    {
        Spec a = specs[0], b = specs[0];
        b.scale = {0.001, 0.004, 0.01};
        b.offset = {-3, 8, 0};
        a.scale = {0.01, 0.02, 0.05};
        a.offset = {100, -50, 7};
        // world coordinates lying on both grids
        auto world = [&](int i)
        {
            auto r = w::make_rec(6, 0, i);
            auto p = to_point(r, a.scale, a.offset);
            p->X(100 + 0.5 * i);
            p->Y(-50 + i);
            p->Z(7 + 2.0 * i);
            return p;
        };
        auto rec = [&](int i, const Spec &s)
        {
            auto r = w::make_rec(6, 0, i);
            r.x = (int32_t)std::llround((100 + 0.5 * i - s.offset.x) / s.scale.x);
            r.y = (int32_t)std::llround((-50 + i - s.offset.y) / s.scale.y);
            r.z = (int32_t)std::llround((7 + 2.0 * i - s.offset.z) / s.scale.z);
            return r.bytes();
        };
        LazTarget ta(make_laz_cfg(a), false), tb(make_laz_cfg(b), false);
        cl::Points shared(6, 0);
        for (int i = 1; i <= 2; i++)
            shared.AddPoint(world(i));
        std::string wa, wb;
        std::vector<int> sa, sb;
        int L = mc::thorough() ? 7 : 5, next = 3;
        for (int k = 0; k < L; k++)
        {
            int o = c.choose(4, "turn");
            if (o == 3)
                break;
            if (o == 2)
            {
                shared.AddPoint(world(next++));
                c.op("extend");
                continue;
            }
            auto &t = o ? tb : ta;
            auto &s = o ? b : a;
            for (int i = 1; i < next; i++)
                (o ? wb : wa) += rec(i, s);
            (o ? sb : sa).push_back(next - 1);
            t.w().WritePoints(shared);
            c.op(o ? "second" : "first");
        }
        ta.close(0);
        tb.close(0);
        auto fa = check_file(c, ta, a, wa, sa), fb = check_file(c, tb, b, wb, sb);
        c.state(fa.canon() + fb.canon());
    });
}
