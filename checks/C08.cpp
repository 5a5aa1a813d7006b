// C08: resolution queries select exactly the right depths.
#include "space.hpp"

static void verify(Ctx &c, const w::Builder &b, const std::string &image, const std::vector<double> &res, bool points)
{
    size_t len = (size_t)(w::base_size(b.fmt) + b.ebn());
    int deep = deepest(b.out_nodes);
    std::istringstream in(image);
    copc::Reader r(&in);
    copc::Vector3 sc(b.h.scale[0], b.h.scale[1], b.h.scale[2]), of(b.h.offset[0], b.h.offset[1], b.h.offset[2]);
    c.eq(r.GetMaxDepth(), deep, "deepest level");
    for (double x : res)
    {
        int d = ref_depth(b.info.spacing, deep, x);
        auto what = cat("spacing ", b.info.spacing, " deepest ", deep, " resolution ", x);
        c.check(r.GetDepthAtResolution(x) == d, "depth", cat(what, ": depth ", r.GetDepthAtResolution(x), " want ", d));
        auto at = listing(r.GetNodesAtResolution(x)), within = listing(r.GetNodesWithinResolution(x));
        auto ref_at = listing_if(b.out_nodes, [&](const K &k) { return k.d == d; });
        auto ref_within = listing_if(b.out_nodes, [&](const K &k) { return k.d <= d; });
        c.check(at == ref_at, "nodes at", cat(what, ": nodes at ", at, " want ", ref_at));
        c.check(within == ref_within, "nodes within", cat(what, ": nodes within ", within, " want ", ref_within));
        c.step(3);
        if (points)
        {
            std::multiset<std::string> m;
            for (auto &n : b.out_nodes)
                if (n.first.d <= d)
                    for (auto &p : split(n.second.recs, len))
                        m.insert(p);
            auto ps = r.GetAllPoints(x);
            c.check(sorted_points(ps, sc, of) == sorted_records(m), "points", cat(what, ": ", ps.Size(), " points, want ", m.size()));
            c.step();
        }
    }
    if (points)
    {
        auto all = r.GetAllPoints();
        std::multiset<std::string> m;
        for (auto &n : b.out_nodes)
            for (auto &p : split(n.second.recs, len))
                m.insert(p);
        c.check(sorted_points(all, sc, of) == sorted_records(m), "points", cat("all points: ", all.Size(), " want ", m.size()));
    }
}
static std::vector<double> resolutions(double spacing, int depth)
{
    std::vector<double> v{0, -0.0, -1, -1e300, 1e-300, 1e300, 1, 0.001, HUGE_VAL, -HUGE_VAL};
    for (int d = 0; d <= depth; d++)
    {
        double x = std::ldexp(spacing, -d);
        v.push_back(x);
        v.push_back(std::nextafter(x, 0));
        v.push_back(std::nextafter(x, HUGE_VAL));
        v.push_back(x * 0.75);
    }
    return v;
}

MC_SCENARIOS
{
    // which depths have nodes, in which pages; nodes with and without points
    mc::add("depths", [](Ctx &c)
    {
        int max = mc::thorough() ? 7 : 6;
        w::Builder b;
        b.info.spacing = c.pick(std::vector<double>{8, 0.7, 100.0 / 3}, "spacing");
        int page = c.choose(3, "pages");
        std::string st;
        int seed = 1;
        for (int d = 0; d < max; d++)
        {
            int n = c.choose(3, "nodes at the depth");
            for (int i = 0; i < n; i++)
            {
                K k{d, i ? (1 << d) - 1 : 0, 0, d};
                if (d == 0 && i)
                    break;
                K p = k;
                while (p.d && (page == 0 || (page == 2 && p.d % 2)))
                    p = p.parent();
                b.nodes.push_back({k, p, (d + i) % 4 == 3 ? 0 : 1 + (d + i) % 2, seed});
                seed += 2;
            }
            st += cat(n, ",");
        }
        c.op(cat("file with nodes per depth ", st, " spacing ", b.info.spacing));
        c.state(cat(st, page, b.info.spacing));
        verify(c, b, b.build(), resolutions(b.info.spacing, max), page == 2);
    }, 0, 16);
    // spacings and resolutions
    mc::add("spacings", [](Ctx &c)
    {
        static const std::vector<double> S{0, 1e-9, 0.1, 1.0 / 3, 1, 2, 3.7, 4096, 1e6, 1e15, 1e300, DBL_MAX, 1e-300};
        w::Builder b;
        b.info.spacing = c.pick(S, "spacing");
        int deep = c.choose(12, "deepest") - 1;
        b.fmt = 6 + (deep + 1) % 3;
        for (int d = 0; d <= deep; d++)
            if (d == deep || d % 3 != 1)
                b.nodes.push_back({{d, 0, 0, (1 << d) - 1}, {0, 0, 0, 0}, 1, d});
        c.op(cat("deepest ", deep, " spacing ", b.info.spacing));
        c.state(cat(deep, " ", b.info.spacing));
        auto res = resolutions(b.info.spacing, deep + 3);
        for (double s : S)
            res.push_back(s);
        verify(c, b, b.build(), res, true);
    }, 0, 8);
    // files of the library's own writer
    mc::add("written", [](Ctx &c)
    {
        Spec s;
        s.fmt = 6 + c.choose(3, "format");
        auto cfg = make_cfg(s);
        double spacing = c.pick(std::vector<double>{0.3, 16}, "spacing");
        cfg.CopcInfo()->spacing = spacing;
        std::stringstream out;
        Model m;
        m.s = s;
        copc::Writer wr(out, cfg);
        int mask = c.choose(32, "depths present");
        for (int d = 0; d < 5; d++)
            if (mask >> d & 1)
                add_node(wr, m, {d, 0, 0, 0}, {d / 2, 0, 0, 0}, d % 3, 1 + d, d * 10);
        wr.Close();
        auto f = parse_or_fail(c, out.str(), true);
        w::Builder b;
        b.fmt = s.fmt;
        b.info.spacing = spacing;
        b.out_nodes = f.nodes;
        const double sc[3] = {s.scale.x, s.scale.y, s.scale.z}, of[3] = {s.offset.x, s.offset.y, s.offset.z};
        std::copy(sc, sc + 3, b.h.scale);
        std::copy(of, of + 3, b.h.offset);
        c.op(cat("writer with depths ", mask));
        c.state(cat(s.fmt, spacing, mask));
        verify(c, b, out.str(), resolutions(spacing, 6), true);
    }, 0, 4);

    // many nodes, and many points in one
    mc::add("many", [](Ctx &c)
    {
        static const std::vector<int> N{73, 200, 255, 256, 257, 585, 1000};
        w::Builder b;
        b.info.spacing = 8;
        b.fmt = 6 + c.choose(3, "format");
        int n = c.pick(N, "nodes"), page = c.choose(3, "pages"), big = c.choose(3, "large node");
        int seed = 1;
        for (auto &k : octree_keys(n))
        {
            K p = k;
            while (p.d && (page == 0 || (page == 2 && p.d % 2)))
                p = p.parent();
            b.nodes.push_back({k, p, k.d == 1 && big ? (big == 1 ? 300 : 1500) : 1, seed++ % 100});
        }
        c.op(cat("file with ", n, " nodes"));
        c.state(cat(b.fmt, n, page, big));
        verify(c, b, b.build(), {0, 8, 4, 3, 2, 1, -1}, true);
    }, 0, 8);
}
