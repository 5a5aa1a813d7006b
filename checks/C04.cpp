// C04: a rejected writer operation leaves no trace.
#include "hist.hpp"

// Rejected COPC calls. Each returns true if the call threw.
struct Bad
{
    const char *name;
    std::function<bool(copc::Writer &, const Model &)> f;
};
static const K ROOT{0, 0, 0, 0}, N1{1, 1, 0, 1}, N2{2, 2, 1, 3}, OTHER{1, 0, 1, 0}, FREE{3, 5, 2, 6};

static cl::Points good_points(const Spec &s, int n = 2) { return to_points(s.fmt, s.eb(), 77, n, s.scale, s.offset); }
static std::vector<char> good_raw(const Spec &s, int n = 2) { return vec(w::make_recs(s.fmt, s.eb(), 77, n)); }
static std::vector<char> good_comp(const Spec &s, int n = 2)
{
    return vec(w::encode_chunk(w::make_recs(s.fmt, s.eb(), 77, n), s.fmt, s.eb()));
}
// points of a format and an extra-byte size that are not those of s
static cl::Points alien(const Spec &s, int which)
{
    int fmt = s.fmt, eb = s.eb();
    switch (which)
    {
    case 0: // another format with records of the same length, when that is possible
        if (fmt == 6 && eb >= 6)
            fmt = 7, eb -= 6;
        else
            fmt = fmt == 6 ? 7 : 6, eb = fmt == 6 ? s.len() - 30 : eb;
        break;
    case 1: // the same format with one more extra byte
        eb += 1;
        break;
    default: // another format and length
        fmt = fmt == 8 ? 6 : 8;
    }
    // so many that their bytes are a whole number of the records of s
    return to_points(fmt, eb, 5, s.len(), s.scale, s.offset);
}
static cl::Points unfit(const Spec &s, int axis, double v)
{
    auto p = good_points(s, 2);
    auto q = p.Get(1);
    if (axis == 0)
        q->X(v);
    else if (axis == 1)
        q->Y(v);
    else
        q->Z(v);
    return p;
}

static const std::vector<Bad> &bads()
{
    static std::vector<Bad> b;
    if (!b.empty())
        return b;
    auto add = [](const char *n, std::function<void(copc::Writer &, const Model &)> f)
    {
        b.push_back({n, [f](copc::Writer &w, const Model &m) { return throws([&] { f(w, m); }); }});
    };
    auto INV = copc::VoxelKey::InvalidKey();
    add("points at an invalid key", [=](copc::Writer &w, const Model &m) { w.AddNode(INV, good_points(m.s)); });
    add("raw at an invalid key", [=](copc::Writer &w, const Model &m) { w.AddNode(copc::VoxelKey(2, -1, 0, 0), good_raw(m.s)); });
    add("chunk at an invalid key", [=](copc::Writer &w, const Model &m) { w.AddNodeCompressed(INV, good_comp(m.s), 2); });
    add("points in an invalid page", [=](copc::Writer &w, const Model &m) { w.AddNode(vk(FREE), good_points(m.s), INV); });
    add("raw in an invalid page", [=](copc::Writer &w, const Model &m) { w.AddNode(vk(FREE), good_raw(m.s), INV); });
    add("points in a page beside", [=](copc::Writer &w, const Model &m) { w.AddNode(vk(FREE), good_points(m.s), vk(OTHER)); });
    add("raw in a page below", [=](copc::Writer &w, const Model &m) { w.AddNode(vk(N1), good_raw(m.s), vk(N2)); });
    add("chunk in a page beside", [=](copc::Writer &w, const Model &m) { w.AddNodeCompressed(vk(FREE), good_comp(m.s), 2, vk(OTHER)); });
    add("no points", [=](copc::Writer &w, const Model &m) { w.AddNode(vk(FREE), cl::Points((int8_t)m.s.fmt, (uint16_t)m.s.eb())); });
    add("no raw data", [=](copc::Writer &w, const Model &m) { w.AddNode(vk(FREE), std::vector<char>()); });
    add("ragged raw data", [=](copc::Writer &w, const Model &m) { auto d = good_raw(m.s); d.pop_back(); w.AddNode(vk(FREE), d, vk(FREE)); });
    add("raw data one byte long", [=](copc::Writer &w, const Model &m) { w.AddNode(vk(FREE), std::vector<char>(1, 'x')); });
    add("format of same length", [=](copc::Writer &w, const Model &m) { w.AddNode(vk(FREE), alien(m.s, 0), vk(FREE)); });
    add("more extra bytes", [=](copc::Writer &w, const Model &m) { w.AddNode(vk(FREE), alien(m.s, 1)); });
    add("other format", [=](copc::Writer &w, const Model &m) { w.AddNode(vk(FREE), alien(m.s, 2), vk(FREE)); });
    add("x too large", [=](copc::Writer &w, const Model &m) { w.AddNode(vk(FREE), unfit(m.s, 0, 1e300), vk(FREE)); });
    add("y too small", [=](copc::Writer &w, const Model &m) { w.AddNode(vk(FREE), unfit(m.s, 1, -2147483700.0 * m.s.scale.y + m.s.offset.y)); });
    add("z NaN", [=](copc::Writer &w, const Model &m) { w.AddNode(vk(FREE), unfit(m.s, 2, NAN)); });
    add("chunk of 0 points", [=](copc::Writer &w, const Model &m) { w.AddNodeCompressed(vk(FREE), good_comp(m.s), 0, vk(FREE)); });
    add("chunk of -1 points", [=](copc::Writer &w, const Model &m) { w.AddNodeCompressed(vk(FREE), good_comp(m.s), -1); });
    add("chunk of INT_MIN points", [=](copc::Writer &w, const Model &m) { w.AddNodeCompressed(vk(FREE), good_comp(m.s), INT_MIN); });
    add("move of an unknown node", [=](copc::Writer &w, const Model &m) { w.ChangeNodePage(vk(FREE), vk(FREE)); });
    add("move of an invalid key", [=](copc::Writer &w, const Model &m) { w.ChangeNodePage(INV, vk(ROOT)); });
    return b;
}
// Adding a node that is there already, in each way and to its page, the root page and a page of its own.
static bool bad_again(copc::Writer &w, const Model &m, const K &k, int how, int page)
{
    auto p = vk(page == 0 ? m.nodes.at(k).page : page == 1 ? ROOT : k);
    return throws([&] {
        if (how == 0)
            w.AddNode(vk(k), good_points(m.s), p);
        else if (how == 1)
            w.AddNode(vk(k), good_raw(m.s), p);
        else
            w.AddNodeCompressed(vk(k), good_comp(m.s), 2, p);
    });
}
// Moves that need an existing node, tried on every node of the model.
static bool bad_move(copc::Writer &w, const K &k, int which)
{
    K to = which == 0 ? K{-1, -1, -1, -1} : which == 1 ? OTHER : which == 2 ? K{k.d + 1, 2 * k.x, 2 * k.y, 2 * k.z} : K{k.d, k.x ^ 1, k.y, k.z};
    return throws([&] { w.ChangeNodePage(vk(k), vk(to)); });
}

static void good(copc::Writer &wr, Model &m, int which)
{
    switch (which)
    {
    case 0: add_node(wr, m, ROOT, ROOT, POINTS, 2, 10); break;
    case 1: add_node(wr, m, N1, N1, RAW, 1, 20); break;
    case 2: add_node(wr, m, N2, K{1, 1, 0, 1}, COMPRESSED, 3, 30); break;
    default:
        // move N2 to the root page
        if (m.nodes.count(N2))
        {
            wr.ChangeNodePage(vk(N2), vk(ROOT));
            m.nodes[N2].page = ROOT;
        }
    }
}
static const std::vector<Spec> &specs()
{
    static std::vector<Spec> v;
    if (v.empty())
        for (int f : {6, 7, 8})
            for (int e : {0, 6})
            {
                Spec s;
                s.fmt = f;
                s.ebs = eb_raw(e);
                v.push_back(s);
            }
    return v;
}

MC_SCENARIOS
{
    mc::add("copc", [](Ctx &c)
    {
        int L = mc::thorough() ? 4 : 3;
        auto &sp = c.pick(specs(), "format");
        if (!mc::thorough() && sp.fmt == 7 && sp.eb())
            return;
        Model m;
        m.s = sp;
        std::stringstream out;
        copc::Writer wr(out, make_cfg(sp));
        std::string hist;
        bool any = false;
        std::set<int> done;
        auto &B = bads();
        for (int i = 0; i < L; i++)
        {
            int o = c.choose(5 + (int)B.size() + 4 + 3, "operation");
            if (o == 0)
                break;
            if (o <= 4)
            {
                if (o < 4 ? !done.insert(o).second : !m.nodes.count(N2))
                    return; // nothing new
                c.op(cat("accepted operation ", o));
                good(wr, m, o - 1);
                hist += (char)('0' + o);
                continue;
            }
            any = true;
            if (o < 5 + (int)B.size())
            {
                auto &b = B[(size_t)o - 5];
                c.op(b.name);
                c.check(b.f(wr, m), cat("not rejected: ", b.name), cat("accepted: ", b.name));
            }
            else
            {
                int k = o - 5 - (int)B.size();
                if (m.nodes.empty())
                    return;
                for (auto &n : m.nodes)
                {
                    K to = n.first;
                    if (k >= 4)
                    {
                        for (int page : {0, 1, 2})
                        {
                            c.op(cat("add ", n.first, " again, way ", k - 4, " page ", page));
                            c.check(bad_again(wr, m, n.first, k - 4, page), "not rejected: node added again", cat("accepted node ", n.first, " again"));
                        }
                        continue;
                    }
                    if (k == 3 && n.first == ROOT)
                        continue;
                    c.op(cat("bad move ", k, " of ", n.first));
                    c.check(bad_move(wr, to, k), "not rejected: page change", cat("accepted page change ", k, " of ", to));
                }
            }
            // what the writer shows is unchanged
            for (auto &k : {ROOT, N1, N2, OTHER, FREE})
            {
                auto n = wr.FindNode(vk(k));
                c.check(n.IsValid() == (m.nodes.count(k) == 1), "writer state", cat("after a rejected call, FindNode ", k, " is ", n.IsValid()));
            }
        }
        if (!any)
            return;
        wr.Close();
        auto f = parse_or_fail(c, out.str(), true);
        check_stored(c, f, m);
        // the same history without the rejected calls
        static std::map<std::string, std::pair<size_t, std::string>> cache;
        std::string id = cat(sp.fmt, "/", sp.eb(), "/", hist);
        if (!cache.count(id))
        {
            Model m2;
            m2.s = sp;
            std::stringstream o2;
            copc::Writer w2(o2, make_cfg(sp));
            for (char h : hist)
                good(w2, m2, h - '1');
            w2.Close();
            cache[id] = {o2.str().size(), parse_or_fail(c, o2.str(), true).canon()};
        }
        c.check(f.canon() == cache[id].second, "trace", "the closed file differs from the one written without the rejected calls");
        c.eq(out.str().size(), cache[id].first, "file size");
        c.state(id);
    }, 0, 8);

    mc::add("laz", [](Ctx &c)
    {
        int L = mc::thorough() ? 5 : 4;
        auto &sp = c.pick(specs(), "format");
        std::stringstream out;
        copc::laz::LazWriter wr(out, make_laz_cfg(sp));
        std::string want, hist;
        uint64_t n = 0, chunks = 0;
        bool any = false;
        for (int i = 0; i < L; i++)
        {
            int o = c.choose(12, "operation");
            if (o == 0)
                break;
            bool bad = true, threw = false;
            switch (o)
            {
            case 1:
                bad = false;
                wr.WritePoints(good_points(sp, 3));
                want += str(good_raw(sp, 3));
                n += 3, chunks++;
                break;
            case 2:
                bad = false;
                wr.WritePointsCompressed(good_comp(sp, 2), 2);
                want += str(good_raw(sp, 2));
                n += 2, chunks++;
                break;
            case 3: threw = throws([&] { wr.WritePoints(alien(sp, 0)); }); break;
            case 4: threw = throws([&] { wr.WritePoints(alien(sp, 1)); }); break;
            case 5: threw = throws([&] { wr.WritePoints(alien(sp, 2)); }); break;
            case 6: threw = throws([&] { wr.WritePoints(unfit(sp, 0, -1e300)); }); break;
            case 7: threw = throws([&] { wr.WritePoints(unfit(sp, 1, INFINITY)); }); break;
            case 8: threw = throws([&] { wr.WritePoints(unfit(sp, 2, NAN)); }); break;
            case 9: threw = throws([&] { wr.WritePointsCompressed(good_comp(sp, 2), 0); }); break;
            case 10: threw = throws([&] { wr.WritePointsCompressed(good_comp(sp, 2), -2); }); break;
            case 11: threw = throws([&] { wr.WritePointsCompressed(good_comp(sp, 2), INT_MIN); }); break;
            }
            c.op(cat("operation ", o));
            hist += (char)(bad ? 0 : '0' + o);
            if (bad)
            {
                any = true;
                c.check(threw, cat("not rejected: laz ", o), cat("accepted bad operation ", o));
            }
            c.eq(wr.PointCount(), n, "point counter");
            c.eq(wr.ChunkCount(), chunks, "chunk counter");
        }
        if (!any)
            return;
        wr.Close();
        auto f = parse_or_fail(c, out.str(), false);
        c.check(f.points == want, "points", "stored points differ");
        c.eq(f.chunks.size(), chunks, "chunks");
        std::string h;
        for (char x : hist)
            if (x)
                h += x;
        std::stringstream o2;
        {
            copc::laz::LazWriter w2(o2, make_laz_cfg(sp));
            for (char x : h)
                if (x == '1')
                    w2.WritePoints(good_points(sp, 3));
                else
                    w2.WritePointsCompressed(good_comp(sp, 2), 2);
            w2.Close();
        }
        c.check(out.str() == o2.str(), "trace", "the closed file differs from the one written without the rejected calls");
        c.state(cat(sp.fmt, sp.eb(), h));
    }, 0, 4);
}
