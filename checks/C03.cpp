// C03: every closed COPC or LAZ file is structurally well formed.
#include "hist.hpp"

static std::vector<std::vector<w::EbItem>> eb_choices()
{
    std::vector<std::vector<w::EbItem>> v(7);
    w::EbItem i;
    i.type = 3;
    i.name = "height";
    i.desc = "height above ground";
    v[1] = {i};
    w::EbItem j;
    j.type = 10;
    j.name = std::string(32, 'n'); // fills its field, no terminator
    j.desc = std::string(32, 'd');
    v[2] = {i, j};
    v[3] = eb_raw(300);
    for (int k = 1; k <= 30; k++)
    {
        i.type = (uint8_t)k;
        i.name = cat("f", k);
        v[4].push_back(i);
    }
    w::EbItem z; // a field of no bytes
    z.type = 0;
    z.options = 0;
    z.name = "nothing";
    v[5] = {z};
    v[6] = {z, j};
    return v;
}
static const std::vector<std::string> WKTS{"", "X", "PROJCS[\"some projection\"]", std::string(70000, 'w')};

// histories: lists of (key, page, count); -1 page index: same key
static const std::vector<std::vector<std::tuple<K, K, int>>> HIST{
    {},
    {{{0, 0, 0, 0}, {0, 0, 0, 0}, 3}},
    {{{2, 1, 2, 3}, {2, 1, 2, 3}, 1}},
    {{{0, 0, 0, 0}, {0, 0, 0, 0}, 2}, {{1, 0, 0, 0}, {1, 0, 0, 0}, 1}, {{2, 1, 0, 0}, {1, 0, 0, 0}, 4}},
    {{{3, 7, 7, 7}, {2, 3, 3, 3}, 1}, {{1, 1, 1, 1}, {0, 0, 0, 0}, 2}, {{2, 0, 0, 0}, {2, 0, 0, 0}, 2}, {{0, 0, 0, 0}, {0, 0, 0, 0}, 1}, {{2, 0, 0, 1}, {1, 0, 0, 0}, 1}}};

static void check_parts(Ctx &c, const w::File &f, const Spec &s)
{
    c.eq(f.fmt, s.fmt, "point format");
    c.eq(f.eb, s.eb(), "extra bytes");
    c.check(f.ebs == s.ebs, "extra bytes VLR", cat("extra bytes VLR has ", f.ebs.size(), " fields, want ", s.ebs.size()));
    c.check(f.wkt == s.wkt, "WKT", cat("WKT of ", f.wkt.size(), " bytes, want ", s.wkt.size()));
    for (int i = 0; i < 3; i++)
    {
        c.eq(f.h.scale[i], (&s.scale.x)[i], "scale");
        c.eq(f.h.offset[i], (&s.offset.x)[i], "offset");
    }
}

MC_SCENARIOS
{
    mc::add("copc", [](Ctx &c)
    {
        Model m;
        m.s.fmt = 6 + c.choose(3, "format");
        static const auto E = eb_choices();
        m.s.ebs = c.pick(E, "extra bytes");
        m.s.wkt = c.pick(WKTS, "WKT");
        m.s.stats = c.flip("extended statistics");
        auto &h = c.pick(HIST, "history");
        int kind = c.choose(3, "kind");
        if (h.empty() && kind)
            return;
        std::stringstream out;
        auto cfg = make_cfg(m.s);
        c.op(cat("format ", m.s.fmt, ", ", m.s.ebs.size(), " extra-byte fields, WKT ", m.s.wkt.size(), ", stats ", m.s.stats, ", ", h.size(), " nodes"));
        copc::Writer wr(out, cfg);
        int seed = 1;
        for (auto &t : h)
        {
            c.op(cat("add ", std::get<0>(t)));
            add_node(wr, m, std::get<0>(t), std::get<1>(t), kind, std::get<2>(t), seed += 10);
        }
        c.op("close");
        wr.Close();
        auto f = parse_or_fail(c, out.str(), true);
        check_stored(c, f, m);
        check_parts(c, f, m.s);
        c.eq(f.has_stats, m.s.stats, "extended statistics VLR");
        c.state(cat(m.s.fmt, m.s.ebs.size(), m.s.wkt.size(), m.s.stats, m.canon()));
        c.outcome(mc::hex(f.h.bytes(), 400));
    }, 0, 8);

    mc::add("laz", [](Ctx &c)
    {
        Spec s;
        s.fmt = 6 + c.choose(3, "format");
        static const auto E = eb_choices();
        s.ebs = c.pick(E, "extra bytes");
        s.wkt = c.pick(WKTS, "WKT");
        int batches = c.choose(4, "batches"), kind = c.choose(2, "kind");
        if (!batches && kind)
            return;
        std::stringstream out;
        c.op(cat("format ", s.fmt, ", ", s.ebs.size(), " extra-byte fields, WKT ", s.wkt.size(), ", ", batches, " batches"));
        cl::LazConfigWriter cfg = make_laz_cfg(s);
        copc::laz::LazWriter wr(out, cfg);
        std::string want;
        std::vector<int> counts;
        for (int b = 0; b < batches; b++)
        {
            int n = 1 + c.choose(3, "batch size") * 3, seed = 1 + b * 20;
            std::string recs = w::make_recs(s.fmt, s.eb(), seed, n);
            c.op(cat("batch of ", n));
            if (kind)
                wr.WritePointsCompressed(vec(w::encode_chunk(recs, s.fmt, s.eb())), n);
            else
                wr.WritePoints(to_points(s.fmt, s.eb(), seed, n, s.scale, s.offset));
            want += recs;
            counts.push_back(n);
        }
        c.op("close");
        wr.Close();
        auto f = parse_or_fail(c, out.str(), false);
        check_parts(c, f, s);
        c.check(f.points == want, "points", "stored points differ from those written");
        c.eq(f.chunks.size(), counts.size(), "chunks");
        for (size_t i = 0; i < counts.size(); i++)
            c.eq(std::get<2>(f.chunks[i]), (uint64_t)counts[i], "chunk count");
        c.state(cat(s.fmt, s.ebs.size(), s.wkt.size(), mc::hash64(want)));
    }, 0, 4);

    // a record length with extra bytes that no VLR describes
    mc::add("undescribed extra bytes", [](Ctx &c)
    {
        int fmt = 6 + c.choose(3, "format"), eb = 1 + c.choose(4, "bytes"), n = c.choose(3, "points");
        bool copc = c.flip("COPC");
        cl::LasHeader h((int8_t)fmt, (uint16_t)(w::base_size(fmt) + eb), copc::Vector3(0.01, 0.01, 0.01), copc::Vector3(0, 0, 0), copc);
        std::stringstream out;
        std::string recs = w::make_recs(fmt, eb, 5, n);
        c.op(cat("format ", fmt, " with ", eb, " undescribed extra bytes, ", n, " points, copc ", copc));
        if (copc)
        {
            copc::CopcConfigWriter cfg(h, copc::CopcInfo(), copc::CopcExtents((int8_t)fmt), "", cl::EbVlr(0));
            copc::Writer wr(out, cfg);
            if (n)
                wr.AddNode(copc::VoxelKey::RootKey(), vec(recs));
            wr.Close();
        }
        else
        {
            cl::LazConfigWriter cfg(cl::LazConfig(h, "", cl::EbVlr(0)));
            copc::laz::LazWriter wr(out, cfg);
            if (n)
                wr.WritePoints(cl::Points::Unpack(vec(recs), h));
            wr.Close();
        }
        auto f = parse_or_fail(c, out.str(), copc);
        c.eq(f.eb, eb, "extra bytes");
        c.check(f.points == recs, "points", "stored points differ");
        c.state(cat(fmt, eb, n, copc));
        out.clear();
        out.seekg(0);
        if (copc)
        {
            copc::Reader r(&out);
            c.check(str(r.GetPointData(copc::VoxelKey::RootKey())) == recs, "read back", "points read back differ");
        }
        else
        {
            copc::laz::LazReader r(&out);
            c.check(str(r.GetPointData()) == recs, "read back", "points read back differ");
        }
    });

    // counts beyond 32 bits: the data is handed over compressed, so the writer only knows the counts it is told
    mc::add("claimed counts", [](Ctx &c)
    {
        static const std::vector<int32_t> N{1, 1 << 30, INT32_MAX - 1, INT32_MAX};
        int fmt = 6 + c.choose(3, "format");
        bool copc = c.flip("COPC"), by_return = c.flip("large counts by return"), wkt = c.flip("WKT");
        int chunks = c.choose(mc::thorough() ? 7 : 6, "chunks");
        Spec s;
        s.fmt = fmt;
        s.wkt = wkt ? "W" : "";
        std::stringstream out;
        std::vector<int32_t> counts;
        std::vector<std::string> data;
        for (int i = 0; i < chunks; i++)
        {
            counts.push_back(c.pick(N, "count"));
            data.push_back(std::string(1 + (size_t)i * 7, (char)('a' + i)));
            c.op(cat("chunk of ", counts.back()));
        }
        auto set_returns = [&](cl::LasHeader &h)
        {
            if (by_return)
                for (size_t i = 0; i < 15; i++)
                    h.points_by_return[i] = (uint64_t(1) << (32 + i)) + i;
        };
        if (copc)
        {
            auto cfg = make_cfg(s);
            copc::Writer wr(out, cfg);
            set_returns(*wr.CopcConfig()->LasHeader());
            for (int i = 0; i < chunks; i++)
                wr.AddNodeCompressed(copc::VoxelKey(3, i, 0, 1), vec(data[(size_t)i]), counts[(size_t)i],
                                     i % 2 ? copc::VoxelKey::RootKey() : copc::VoxelKey(3, i, 0, 1));
            c.op("close");
            wr.Close();
        }
        else
        {
            cl::LazConfigWriter cfg = make_laz_cfg(s);
            copc::laz::LazWriter wr(out, cfg);
            set_returns(*wr.LazConfig()->LasHeader());
            for (int i = 0; i < chunks; i++)
                wr.WritePointsCompressed(vec(data[(size_t)i]), counts[(size_t)i]);
            c.op("close");
            wr.Close();
        }
        w::File f;
        try
        {
            f = w::parse(out.str(), copc, false, true);
        }
        catch (w::Bad &e)
        {
            c.fail("malformed", e.what());
        }
        uint64_t sum = 0;
        for (int i = 0; i < chunks; i++)
        {
            sum += (uint64_t)counts[(size_t)i];
            c.eq(std::get<2>(f.chunks.at((size_t)i)), (uint64_t)counts[(size_t)i], "chunk count");
            c.check(out.str().substr(std::get<0>(f.chunks[(size_t)i]), std::get<1>(f.chunks[(size_t)i])) == data[(size_t)i], "chunk data", "chunk bytes differ from those handed over");
            if (copc)
            {
                auto &n = f.nodes.at(K{3, i, 0, 1});
                c.eq(n.count, counts[(size_t)i], "node count");
            }
        }
        c.eq(f.chunks.size(), (size_t)chunks, "chunks");
        c.eq(f.h.count, sum, "point count");
        c.check(f.h.legacy_count == 0 || f.h.legacy_count == sum, "legacy count", cat("legacy count ", f.h.legacy_count, " of ", sum));
        for (size_t i = 0; i < 15; i++)
            c.eq(f.h.ret[i], by_return ? (uint64_t(1) << (32 + i)) + i : 0, "points by return");
        c.state(cat(fmt, copc, by_return, wkt, chunks, sum));
        c.outcome(mc::hex(f.h.bytes(), 400));
        // and back through the library
        std::stringstream in(out.str());
        if (copc)
        {
            copc::Reader r(&in);
            c.eq(r.CopcConfig().LasHeader().PointCount(), sum, "point count read");
            for (int i = 0; i < chunks; i++)
                c.eq(r.FindNode(copc::VoxelKey(3, i, 0, 1)).point_count, counts[(size_t)i], "node count read");
        }
        else
        {
            copc::laz::LazReader r(&in);
            c.eq(r.LazConfig().LasHeader().PointCount(), sum, "point count read");
        }
    }, 0, 8);

    // many chunks, pages and entries in a page
    mc::add("many", [](Ctx &c)
    {
        static const std::vector<int> N{15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 2047, 2048, 2049, 4097};
        int what = c.choose(4, "LAZ, nodes of one page, a page each, in lines"), n = c.pick(N, "how many");
        Spec s;
        s.fmt = 6 + n % 3;
        if (what == 0 && mc::thorough())
            n = n * 31 + n % 7;
        std::stringstream out;
        c.op(cat(n, what == 0 ? " batches" : what == 1 ? " nodes" : " pages"));
        c.state(cat(what, n));
        auto keys = octree_keys(n);
        std::string one = w::encode_chunk(w::make_recs(s.fmt, 0, 5, 1), s.fmt, 0);
        auto place = [&](const K &k)
        {
            if (what == 1)
                return K{0, 0, 0, 0};
            K p = k;
            while (what == 3 && p.d % 2)
                p = p.parent();
            return p;
        };
        if (what == 0)
        {
            copc::laz::LazWriter wr(out, make_laz_cfg(s));
            for (int i = 0; i < n; i++)
                wr.WritePointsCompressed(vec(one), 1);
            wr.Close();
        }
        else
        {
            auto cfg = make_cfg(s);
            copc::Writer wr(out, cfg);
            for (auto &k : keys)
                wr.AddNodeCompressed(vk(k), vec(one), 1, vk(place(k)));
            wr.Close();
        }
        auto f = parse_or_fail(c, out.str(), what != 0);
        c.eq(f.h.count, (uint64_t)n, "points");
        c.eq(f.chunks.size(), (size_t)n, "chunks");
        if (what)
        {
            c.eq(f.nodes.size(), (size_t)n, "nodes");
            std::set<K> pages{K{}};
            for (auto &k : keys)
            {
                auto it = f.nodes.find(k);
                c.check(it != f.nodes.end() && it->second.page == place(k) && it->second.count == 1 && it->second.comp == one, "node", cat("node ", k));
                pages.insert(place(k));
            }
            c.eq(f.page_nodes.size(), pages.size(), "pages");
        }
        c.step((uint64_t)n);
    }, 0, 8);
}
