// C01: a COPC file gives back exactly the nodes and points added.
#include "hist.hpp"

static const std::vector<std::pair<K, K>> PLACES{
    {{0, 0, 0, 0}, {0, 0, 0, 0}},
    {{1, 0, 0, 0}, {0, 0, 0, 0}}, {{1, 0, 0, 0}, {1, 0, 0, 0}},
    {{1, 1, 0, 1}, {0, 0, 0, 0}}, {{1, 1, 0, 1}, {1, 1, 0, 1}},
    {{2, 0, 0, 0}, {0, 0, 0, 0}}, {{2, 0, 0, 0}, {1, 0, 0, 0}}, {{2, 0, 0, 0}, {2, 0, 0, 0}},
    {{2, 3, 0, 2}, {0, 0, 0, 0}}, {{2, 3, 0, 2}, {1, 1, 0, 1}}, {{2, 3, 0, 2}, {2, 3, 0, 2}}};
static const std::vector<K> OTHERS{{0, 0, 0, 0}, {1, 0, 0, 0}, {1, 0, 1, 0}, {1, 1, 0, 1}, {2, 0, 0, 0}, {2, 0, 1, 0}, {2, 3, 0, 2}, {2, 2, 0, 2}, {3, 0, 0, 0},
                                   {3, 6, 0, 4}, {5, 31, 31, 31}, {-1, 0, 0, 0}, {-1, -1, -1, -1}, {1, -1, 0, 0}, {31, INT32_MAX, 0, 0}};

static void run(Ctx &c, const Spec &s, int depth, const std::vector<int> &kinds, const std::vector<int> &counts)
{
    Model m;
    m.s = s;
    std::stringstream out;
    {
        auto cfg = make_cfg(s);
        copc::Writer wr(out, cfg);
        for (int d = 0; d < depth; d++)
        {
            int p = c.choose((int)PLACES.size() + 1, "place");
            if (p == 0)
                break;
            auto &pl = PLACES[(size_t)p - 1];
            if (m.nodes.count(pl.first))
                return; // distinct keys only
            int kind = c.pick(kinds, "kind");
            int n = c.pick(counts, "count");
            c.op(cat("add ", pl.first, " to page ", pl.second, " as ", n, " ", kind_name(kind)));
            auto node = add_node(wr, m, pl.first, pl.second, kind, n, 1 + d * 20);
            c.check(node.IsValid() && kk(node.key) == pl.first && kk(node.page_key) == pl.second && node.point_count == n, "returned node",
                    cat("AddNode returned ", node_str(node)));
        }
        c.state(m.canon());
        c.op("close");
        wr.Close();
    }
    auto f = parse_or_fail(c, out.str(), true);
    check_stored(c, f, m);
    out.clear();
    out.seekg(0);
    copc::Reader r(&out);
    check_reader(c, r, f, m, OTHERS);
    c.eq(r.CopcConfig().LasHeader().PointCount(), m.total(), "PointCount");
    c.outcome(listing(r.GetAllNodes()));
}

MC_SCENARIOS
{
    mc::add("histories", [](Ctx &c)
    {
        Spec s;
        s.fmt = 6 + c.choose(3, "format");
        int e = c.choose(mc::thorough() ? 3 : 2, "extra bytes");
        if (e)
            s.ebs = eb_raw(e == 1 ? 3 : 300);
        run(c, s, 3, {POINTS, RAW, COMPRESSED}, mc::thorough() ? std::vector<int>{1, 3} : std::vector<int>{1 + e});
    }, 0, 16);
    // deeper histories, one kind per step
    mc::add("deep", [](Ctx &c)
    {
        Spec s;
        s.fmt = 7;
        run(c, s, mc::thorough() ? 5 : 4, {RAW}, {1});
    }, 0, 8);
    // sizes: every combination of point counts of three nodes
    mc::add("sizes", [](Ctx &c)
    {
        Spec s;
        s.fmt = 6 + c.choose(3, "format");
        int e = c.choose(2, "extra bytes");
        if (e)
            s.ebs = eb_raw(260);
        Model m;
        m.s = s;
        std::stringstream out;
        static const std::vector<int> N{1, 2, 30, 300};
        int kind = c.choose(3, "kind");
        {
            copc::Writer wr(out, make_cfg(s));
            const K keys[3] = {{0, 0, 0, 0}, {1, 1, 0, 1}, {2, 3, 0, 2}};
            for (int i = 0; i < 3; i++)
            {
                int n = c.pick(N, "count");
                c.op(cat("add ", keys[i], " ", n, " ", kind_name(kind)));
                add_node(wr, m, keys[i], i ? keys[1] : keys[0], kind, n, i * 1000);
            }
        } // closed by the destructor
        c.state(m.canon());
        auto f = parse_or_fail(c, out.str(), true);
        check_stored(c, f, m);
        out.clear();
        out.seekg(0);
        copc::Reader r(&out);
        check_reader(c, r, f, m, {});
        auto all = r.GetAllPoints();
        c.eq(all.Size(), (size_t)m.total(), "GetAllPoints");
    }, 0, 8);

    // nodes of more points than 16 bits can count, and single coordinates of each size
    mc::add("large nodes", [](Ctx &c)
    {
        Model m;
        m.s.fmt = 6 + c.choose(3, "format");
        int n = c.pick(std::vector<int>{1023, 1024, 1025, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 70000}, "points");
        int kind = c.choose(3, "kind"), at = c.choose(2, "first or last");
        if (n > 5000 && m.s.fmt != 6 + kind)
            return;
        std::stringstream out;
        copc::Writer wr(out, make_cfg(m.s));
        const K keys[2] = {{0, 0, 0, 0}, {1, 1, 0, 1}};
        c.op(cat(n, " ", kind_name(kind), " in node ", at));
        for (int i = 0; i < 2; i++)
            add_node(wr, m, keys[i], keys[i], kind, i == at ? n : 2, i * 1000 + 1);
        wr.Close();
        c.state(m.canon());
        c.step((uint64_t)n);
        auto f = parse_or_fail(c, out.str(), true);
        check_stored(c, f, m);
        out.clear();
        out.seekg(0);
        copc::Reader r(&out);
        check_reader(c, r, f, m, {});
        c.eq(r.GetAllPoints().Size(), (size_t)m.total(), "GetAllPoints");
        c.eq(r.CopcConfig().LasHeader().PointCount(), m.total(), "PointCount");
    }, 0, 8);
    // files of many nodes, in one page or many
    mc::add("many nodes", [](Ctx &c)
    {
        Model m;
        m.s.fmt = 6;
        int n = c.pick(std::vector<int>{9, 31, 33, 64, 65, 127, 128, 129, 255, 256, 257, 500, 585}, "nodes");
        int shape = c.choose(4, "pages: one, every eighth node, one per node, nested");
        std::stringstream out;
        copc::Writer wr(out, make_cfg(m.s));
        c.op(cat(n, " nodes, pages ", shape));
        auto all = octree_keys(n);
        for (int i = 0; i < n; i++)
        {
            K k = all[(size_t)i], p{};
            if (shape == 1 && i % 8 == 0)
                p = k;
            if (shape == 2)
                p = k;
            if (shape == 3)
                p = k.d ? k.parent() : k;
            add_node(wr, m, k, p, i % 3, 1 + i % 3, i);
        }
        wr.Close();
        c.state(m.canon());
        c.step((uint64_t)n);
        auto f = parse_or_fail(c, out.str(), true);
        check_stored(c, f, m);
        out.clear();
        out.seekg(0);
        copc::Reader r(&out);
        check_reader(c, r, f, m, OTHERS);
        c.eq(r.GetAllPoints().Size(), (size_t)m.total(), "GetAllPoints");
    }, 0, 8);
}
