// C34: copying a file through reader and writer preserves it.
#include "built.hpp"
#include "faulty.hpp"

static void header(w::Builder &b, int which)
{
    b.h.source = 7;
    b.h.encoding = which == 1 ? 0x1f : 0x11;
    b.h.guid = which == 1 ? std::string("0123456789abcdef") : "a guid";
    b.h.system = which == 1 ? std::string(32, 's') : "a system";
    b.h.software = which == 1 ? std::string(32, 'w') : "some software";
    b.h.day = 33;
    b.h.year = 2020;
    for (int i = 0; i < 3; i++)
    {
        b.h.scale[i] = 0.01 * (i + 1);
        b.h.offset[i] = 10 * i - 5;
        b.h.mn[i] = -100 - i;
        b.h.mx[i] = 100 + i;
    }
    for (int i = 0; i < 15; i++)
        b.h.ret[i] = (uint64_t)i * 3 + (i == 14 ? 1ull << 40 : 0);
    b.info.cx = 1, b.info.cy = 2, b.info.cz = 3, b.info.half = 200, b.info.spacing = 4;
    b.info.gmin = 13, b.info.gmax = 113;
}
static void hierarchy(w::Builder &b, int which)
{
    switch (which)
    {
    case 0:
        b.nodes = {{{0, 0, 0, 0}, {0, 0, 0, 0}, 2, 1}};
        break;
    case 1: // nested and sibling pages
        b.nodes = {{{3, 1, 0, 2}, {2, 0, 0, 1}, 1, 1}, {{0, 0, 0, 0}, {0, 0, 0, 0}, 2, 5}, {{1, 1, 1, 1}, {0, 0, 0, 0}, 1, 9},
                   {{2, 3, 3, 3}, {2, 3, 3, 3}, 3, 13}, {{1, 0, 1, 0}, {1, 0, 1, 0}, 1, 17}, {{4, 2, 1, 5}, {2, 0, 0, 1}, 1, 21}};
        break;
    case 2: // no nodes
        break;
    case 3: // only pages below the root
        b.nodes = {{{2, 0, 0, 0}, {2, 0, 0, 0}, 1, 1}, {{2, 0, 0, 1}, {2, 0, 0, 1}, 1, 3}, {{2, 0, 1, 0}, {2, 0, 1, 0}, 5, 5}};
        break;
    case 4: // a line of pages, deep
        b.nodes = {{{0, 0, 0, 0}, {0, 0, 0, 0}, 3, 1}, {{1, 1, 0, 1}, {1, 1, 0, 1}, 1, 4}, {{2, 2, 1, 3}, {2, 2, 1, 3}, 2, 7}, {{5, 17, 8, 30}, {4, 8, 4, 15}, 1, 11}};
        break;
    case 5: // many nodes in one page
        for (int i = 0; i < 8; i++)
            b.nodes.push_back({{1, i & 1, i >> 1 & 1, i >> 2}, {0, 0, 0, 0}, 1 + i % 3, 10 * i + 1});
        break;
    }
}

enum Mode
{
    CHUNKS,
    DATA,
    AS_POINTS,
    MIXED,
    MOVED // added to the root page, then moved
};
static std::string copy_copc(Ctx &c, copc::Reader &r, int mode, int order, const copc::CopcConfigWriter &cfg, bool file)
{
    std::string path = file ? scratch_file("c34.copc.laz") : "";
    std::stringstream out;
    std::shared_ptr<copc::Writer> wr;
    std::shared_ptr<copc::FileWriter> fw;
    if (file)
        wr = fw = std::make_shared<copc::FileWriter>(path, cfg);
    else
        wr = std::make_shared<copc::Writer>(out, cfg);
    auto nodes = r.GetAllNodes();
    std::sort(nodes.begin(), nodes.end(), [&](const copc::Node &a, const copc::Node &b)
              { return order == 0 ? a.offset < b.offset : order == 1 ? a.offset > b.offset : kk(a.key) < kk(b.key); });
    int i = 0;
    for (auto &n : nodes)
    {
        int m = mode == MIXED ? i % 3 : mode == MOVED ? CHUNKS : mode;
        auto page = mode == MOVED ? copc::VoxelKey::RootKey() : n.page_key;
        if (m == CHUNKS)
            wr->AddNodeCompressed(n.key, r.GetPointDataCompressed(n), n.point_count, page);
        else if (m == DATA)
            wr->AddNode(n.key, r.GetPointData(n), page);
        else
            wr->AddNode(n.key, r.GetPoints(n), page);
        if (mode == MOVED)
            wr->ChangeNodePage(n.key, n.page_key);
        i++;
    }
    c.step((uint64_t)i);
    if (fw)
        fw->Close();
    else
        wr->Close();
    std::string b = file ? slurp(path) : out.str();
    if (file)
    {
        wr.reset();
        fw.reset();
        ::unlink(path.c_str());
    }
    return b;
}
// The nodes and pages of a copy.
static void check_copy(Ctx &c, const w::File &f, const w::Builder &b, const std::string &what)
{
    c.eq(f.nodes.size(), b.out_nodes.size(), what + ": nodes");
    for (auto &n : b.out_nodes)
    {
        auto it = f.nodes.find(n.first);
        c.check(it != f.nodes.end(), "node lost", cat(what, ": node ", n.first, " is missing"));
        c.eq(it->second.page, n.second.page, cat(what, ": page of node ", n.first));
        c.eq(it->second.count, n.second.count, cat(what, ": count of node ", n.first));
        c.check(it->second.recs == n.second.recs, "points", cat(what, ": points of node ", n.first));
    }
    c.eq(f.page_nodes.size(), b.page_nodes.size(), what + ": pages");
    for (auto &p : b.page_nodes)
        c.check(f.page_nodes.count(p.first) && f.page_subs.at(p.first) == b.page_subs.at(p.first), "page", cat(what, ": page ", p.first));
}
static std::string reader_str(copc::Reader &r)
{
    std::string o = config_str(r.CopcConfig(), false) + " nodes";
    std::map<K, std::string> m;
    for (auto &n : r.GetAllNodes())
        m[kk(n.key)] = cat("@", kk(n.page_key), " ", n.point_count, " ", mc::hash64(str(r.GetPointData(n))), ";");
    for (auto &x : m)
        o += cat(x.first, x.second);
    std::multiset<K> p;
    for (auto &k : r.GetPageList())
        p.insert(kk(k));
    o += " pages";
    for (auto &k : p)
        o += cat(" ", k);
    return o;
}

static void copies(Ctx &c, w::Builder &b, int mode, int order, bool file, int cfg_route)
{
    std::string image = b.build();
    std::string want = ref_copc_config(b, image, false), first;
    std::string bytes = image;
    for (int gen = 1; gen <= 2; gen++)
    {
        std::istringstream in(bytes);
        copc::Reader r(&in);
        std::string before = reader_str(r);
        if (gen == 1)
            c.check(before.substr(0, want.size()) == want, "source", "the source's configuration is not what it stores");
        std::string next;
        auto cfg = r.CopcConfig();
        if (cfg_route == 0)
            next = copy_copc(c, r, mode, order, cfg, file);
        else if (cfg_route == 1) // from its elements
            next = copy_copc(c, r, mode, order,
                             copc::CopcConfigWriter(cfg.LasHeader(), cfg.CopcInfo(), cfg.CopcExtents(), cfg.Wkt(), cfg.ExtraBytesVlr()), file);
        else // through further configurations
        {
            copc::CopcConfigWriter a(cfg);
            copc::CopcConfigWriter d(a);
            copc::CopcConfig e(d);
            next = copy_copc(c, r, mode, order, e, file);
        }
        auto f = parse_or_fail(c, next, true, b.raw_eb > 0);
        check_copy(c, f, b, cat("copy ", gen));
        std::istringstream in2(next);
        copc::Reader r2(&in2);
        std::string after = reader_str(r2);
        c.check(after == before, "copy differs", cat("copy ", gen, " differs\n  got  ", after, "\n  want ", before));
        c.check(reader_str(r) == before, "source changed", "the source's reader gives other answers after the copy");
        if (order == 1)
            f.points.clear(); // the order of chunks was reversed on purpose
        if (gen == 1)
            first = f.canon();
        else
            c.check(f.canon() == first, "second copy", cat("the copy of the copy differs from the copy\n  ", f.canon(), "\n  ", first));
        bytes = next;
    }
    c.op(cat("two copies, mode ", mode));
    c.state(cat(first, mode, order, file));
}
static void to_laz(Ctx &c, w::Builder &b, int mode)
{
    std::string image = b.build();
    std::istringstream in(image);
    copc::Reader r(&in);
    std::string bytes;
    std::string all;
    {
        std::stringstream out;
        copc::laz::LazWriter wr(out, cl::LazConfigWriter(r.CopcConfig()));
        auto nodes = r.GetAllNodes();
        std::sort(nodes.begin(), nodes.end(), [&](const copc::Node &x, const copc::Node &y) { return x.offset < y.offset; });
        int i = 0;
        for (auto &n : nodes)
        {
            if (mode == 0 || (mode == 2 && i % 2))
                wr.WritePointsCompressed(r.GetPointDataCompressed(n), n.point_count);
            else
                wr.WritePoints(r.GetPoints(n));
            all += b.out_nodes.at(kk(n.key)).recs;
            i++;
        }
        wr.Close();
        bytes = out.str();
    }
    std::string want = ref_laz_config(b, image, false, false);
    for (int gen = 1; gen <= 2; gen++)
    {
        auto f = parse_or_fail(c, bytes, false, b.raw_eb > 0);
        c.check(f.points == all, "LAZ points", cat("points of LAZ copy ", gen));
        std::istringstream in2(bytes);
        copc::laz::LazReader lr(&in2);
        std::string got = config_str(lr.LazConfig(), false);
        c.check(got == want, "LAZ metadata", cat("metadata of LAZ copy ", gen, "\n  got  ", got, "\n  want ", want));
        c.check(str(lr.GetPointData()) == all, "LAZ data", cat("data of LAZ copy ", gen));
        if (gen == 1)
        {
            std::stringstream out;
            copc::laz::LazWriter wr(out, lr.LazConfig());
            wr.WritePoints(lr.GetPoints());
            wr.Close();
            bytes = out.str();
        }
        c.step();
    }
    c.op("LAZ copies");
    c.state(cat(mc::hash64(bytes), mode));
}
static void extra(w::Builder &b, int which)
{
    if (which & 1)
        b.ebs = eb_two();
    if (which & 2)
        b.raw_eb = 3;
}

MC_SCENARIOS
{
    mc::add("layouts", [](Ctx &c)
    {
        w::Builder b;
        header(b, 0);
        b.fmt = 6 + c.choose(3, "format");
        extra(b, c.choose(4, "extra bytes"));
        if (b.ebs.size())
            b.eb_place = 1 + c.choose(2, "extra bytes in an EVLR");
        b.wkt_place = c.choose(3, "WKT: none, VLR, EVLR");
        if (b.wkt_place)
            b.wkt = c.flip("long WKT") ? std::string(3000, 'W') : "WKT";
        b.extents = !c.flip("no extents");
        b.stats = c.flip("statistics");
        b.junk_vlr = b.junk_evlr = c.flip("unknown records") ? 4 : 0;
        b.hier_evlrs = c.choose(3, "pages: EVLR each, one EVLR, VLR");
        hierarchy(b, 1);
        copies(c, b, mc::thorough() ? c.choose(5, "mode") : MIXED, 0, false, 0);
    }, 0, 8);
    mc::add("hierarchies", [](Ctx &c)
    {
        w::Builder b;
        header(b, 1);
        b.fmt = 6 + c.choose(3, "format");
        extra(b, c.choose(2, "extra bytes"));
        b.wkt_place = 2;
        b.wkt = "WKT";
        b.hier_evlrs = c.choose(3, "pages: EVLR each, one EVLR, VLR");
        b.page_layout = c.choose(3, "page order");
        b.hier_pad = 16 * c.choose(2, "space after pages");
        b.tail_pad = b.data_pad = 7 * c.choose(2, "space around the points");
        hierarchy(b, c.choose(6, "hierarchy"));
        int mode = c.choose(5, "mode"), order = c.choose(3, "order of nodes");
        copies(c, b, mode, order, false, mc::thorough() ? c.choose(3, "configuration") : (mode + order) % 3);
    }, 0, 8);
    mc::add("files", [](Ctx &c)
    {
        w::Builder b;
        header(b, 1);
        b.fmt = 6 + c.choose(3, "format");
        extra(b, c.choose(4, "extra bytes"));
        b.wkt_place = 2;
        b.wkt = std::string(70000, 'w');
        b.stats = c.flip("statistics");
        hierarchy(b, c.choose(6, "hierarchy"));
        int route = c.choose(3, "configuration");
        copies(c, b, c.choose(5, "mode"), route, true, route);
    }, 0, 4);
    // values
    mc::add("extents", [](Ctx &c)
    {
        w::Builder b;
        header(b, 1);
        b.fmt = 6 + c.choose(3, "format");
        extra(b, c.choose(2, "extra bytes"));
        b.stats = c.flip("statistics");
        hierarchy(b, 1);
        int n = w::dims(b.fmt) + (int)b.ebs.size();
        for (int i = 0; i < n; i++)
        {
            b.ext_values.push_back({-10.5 * i, 3.25 + i});
            b.stat_values.push_back({0.1 * i, 7.0 + i * i});
        }
        static const std::vector<std::pair<double, double>> V{{0, 0}, {-DBL_MAX, DBL_MAX}, {5e-324, 5e-324}, {-1, -0.5}, {1e-300, 1e300}, {-0.0, 0.0}, {0.1, 1 / 3.0}};
        static const std::vector<std::pair<double, double>> S{{0, 0}, {-DBL_MAX, DBL_MAX}, {5, 5e-324}, {-1, 0.5}, {1e300, 1e300}, {1 / 3.0, 0.1}, {-0.0, 7}};
        int at = c.choose(n, "dimension"), v = c.choose((int)V.size(), "value");
        b.ext_values[(size_t)at] = V[(size_t)v];
        b.stat_values[(size_t)(n - 1 - at)] = S[(size_t)v];
        copies(c, b, (at + v) % 5, 0, false, v % 3);
    }, 0, 4);
    mc::add("header values", [](Ctx &c)
    {
        w::Builder b;
        header(b, 0);
        b.fmt = 6 + c.choose(3, "format");
        b.ebs = eb_two();
        hierarchy(b, c.choose(2, "hierarchy"));
        int f = c.choose(14, "field"), v = c.choose(5, "value");
        static const std::vector<double> D{0.5, -1e9, 1e-7, 12345.678901234567, 1.0 / 3};
        static const std::vector<std::string> T{"", "x", std::string("\0a\xff", 3), std::string(16, '\xfe'), "UTF-8 \xc3\xa9"};
        switch (f)
        {
        case 0:
            b.h.source = (uint16_t)(v * 16383 + (v == 4 ? 3 : 0));
            break;
        case 1:
            b.h.encoding = (uint16_t)(0x10 | (v == 1 ? 1 : v == 2 ? 0xffef : v == 3 ? 0x2 : v == 4 ? 0x8000 : 0));
            break;
        case 2:
            b.h.guid = T[(size_t)v];
            break;
        case 3:
            b.h.system = T[(size_t)v];
            break;
        case 4:
            b.h.software = T[(size_t)v];
            break;
        case 5:
            b.h.day = (uint16_t)(v == 4 ? 65535 : v * 91);
            break;
        case 6:
            b.h.year = (uint16_t)(v == 4 ? 65535 : v * 1000);
            break;
        case 7:
            for (int i = 0; i < 3; i++)
                b.h.scale[i] = std::fabs(D[(size_t)((v + i) % 5)]);
            if (v != 0 && v != 3) // coordinates overflow otherwise when points are made from records
                b.h.scale[v % 3] = 0.001;
            break;
        case 8:
            for (int i = 0; i < 3; i++)
                b.h.offset[i] = D[(size_t)((v + i) % 5)];
            break;
        case 9:
            for (int i = 0; i < 3; i++)
                b.h.mn[i] = -std::fabs(D[(size_t)((v + i) % 5)]);
            break;
        case 10:
            for (int i = 0; i < 3; i++)
                b.h.mx[i] = std::fabs(D[(size_t)((v + i) % 5)]);
            break;
        case 11:
            for (int i = 0; i < 15; i++)
                b.h.ret[i] = v == 0 ? 0 : v == 1 ? UINT64_MAX - (uint64_t)i : (1ull << (8 * v)) + (uint64_t)i;
            break;
        case 12:
            b.info.cx = D[(size_t)v], b.info.cy = D[(size_t)((v + 1) % 5)], b.info.cz = D[(size_t)((v + 2) % 5)];
            break;
        case 13:
            b.info.half = D[(size_t)v], b.info.spacing = D[(size_t)((v + 1) % 5)];
            break;
        }
        int mode = c.choose(2, "chunks or data");
        copies(c, b, mode, 0, false, v % 3);
        to_laz(c, b, 0);
    }, 0, 4);
    mc::add("LAZ copies", [](Ctx &c)
    {
        w::Builder b;
        header(b, c.choose(2, "header"));
        b.fmt = 6 + c.choose(3, "format");
        extra(b, c.choose(4, "extra bytes"));
        if (b.ebs.size())
            b.eb_place = 1 + c.choose(2, "extra bytes in an EVLR");
        b.wkt_place = c.choose(3, "WKT: none, VLR, EVLR");
        b.wkt = "WKT";
        b.stats = c.flip("statistics");
        hierarchy(b, c.choose(6, "hierarchy"));
        to_laz(c, b, c.choose(3, "chunks, points, mixed"));
    }, 0, 4);

    // many nodes, pages, points and fields
    mc::add("large", [](Ctx &c)
    {
        static const std::vector<int> N{100, 255, 256, 257, 300};
        w::Builder b;
        header(b, 1);
        b.fmt = 6 + c.choose(3, "format");
        b.stats = true;
        b.wkt_place = 2;
        b.wkt = "WKT";
        int what = c.choose(4, "nodes of one page, a page each, points, fields"), n = c.pick(N, "how many"), mode = c.choose(5, "mode");
        if (what == 2)
            b.nodes = {{{0, 0, 0, 0}, {0, 0, 0, 0}, n == 300 ? 66000 : n * 17, 1}, {{1, 0, 0, 1}, {1, 0, 0, 1}, n, 5}, {{1, 1, 0, 1}, {0, 0, 0, 0}, 2, 7}};
        else
            for (auto &k : octree_keys(what == 3 ? 3 : n))
                b.nodes.push_back({k, what == 1 ? k : K{}, 1 + k.x % 2, 1 + (int)b.nodes.size() % 90});
        if (what == 3)
            for (int i = 0; i < n; i++)
            {
                w::EbItem e;
                e.type = 1;
                e.name = cat("field ", i);
                b.ebs.push_back(e);
            }
        if (!mc::thorough() && what == 2 && n == 300 && b.fmt != 7)
            return;
        copies(c, b, mode, 0, false, mode % 3);
        if (mode < 3)
            to_laz(c, b, mode);
    }, 0, 8);
}
