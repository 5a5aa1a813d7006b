// C09: spatial queries return exactly the nodes and points they should.
#include "space.hpp"

struct Space
{
    std::string name;
    w::Builder b;
    std::string image;
    std::vector<double> grid[3]; // interesting coordinates
};
// Points at all corners, face centres and the middle of the cell that lie in the header's bounds (and on the grid).
static std::string fill(const w::Builder &b, const K &k, int &seed, bool all)
{
    Bx c = cell(b.h, k), h = header_box(b.h);
    std::string o;
    for (int i = 0; i < 27; i++)
    {
        int q[3] = {i % 3, i / 3 % 3, i / 9};
        if (!all && (i * 5 + k.d + k.x) % 4)
            continue;
        V p;
        for (int j = 0; j < 3; j++)
            p.v[j] = q[j] == 0 ? c.lo.v[j] : q[j] == 1 ? (c.lo.v[j] + c.hi.v[j]) / 2 : c.hi.v[j];
        if (h.holds(p))
            o += record_at(b, p, seed++ % 100);
    }
    return o;
}
static std::vector<Space> spaces()
{
    std::vector<Space> v;
    for (int i = 0; i < 5; i++)
    {
        Space s;
        auto &b = s.b;
        b.fmt = 6 + i % 3;
        double mn[3] = {0, 0, 0}, mx[3] = {16, 16, 16};
        if (i == 1) // not a cube: cells reach beyond the header's bounds
            mn[0] = -8, mn[1] = 4, mn[2] = 100, mx[0] = 8, mx[1] = 8, mx[2] = 102;
        if (i == 2)
            mn[0] = mn[1] = mn[2] = -16, mx[0] = mx[1] = -8, mx[2] = 16, b.ebs = eb_two();
        if (i == 3) // everything in one place
            mx[0] = mx[1] = mx[2] = mn[0] = mn[1] = mn[2] = 5;
        if (i == 4) // coordinates of many digits
            for (int j = 0; j < 3; j++)
                mn[j] = (j - 1.5) * 4194304, mx[j] = mn[j] + 0.0625;
        for (int j = 0; j < 3; j++)
        {
            b.h.mn[j] = mn[j];
            b.h.mx[j] = mx[j];
            b.h.scale[j] = i == 4 ? std::ldexp(1, -10) : i == 2 ? 0.25 : 1;
            b.h.offset[j] = i == 4 ? mn[j] : i * 2 * j;
            b.h.mn[j] = mn[j];
        }
        b.info.spacing = 4;
        int seed = 0;
        std::vector<K> keys{{0, 0, 0, 0}, {1, 0, 0, 0}, {1, 1, 1, 1}, {1, 1, 0, 0}, {1, 0, 1, 0}, {2, 0, 0, 0}, {2, 1, 1, 1}, {2, 1, 2, 0}, {2, 3, 0, 1}, {3, 2, 2, 3}};
        if (i == 2)
            keys.insert(keys.end(), {{1, 0, 0, 1}, {2, 0, 1, 3}, {2, 1, 0, 2}});
        for (auto &k : keys)
        {
            K p = k;
            while (i % 2 == 0 && p.d % 2)
                p = p.parent();
            w::BNode n{k, p, 1, 0, fill(b, k, seed, k.d == 0)};
            if (n.recs.empty())
                n.n = 0;
            b.nodes.push_back(n);
        }
        b.hier_evlrs = i % 2;
        s.image = b.build();
        s.name = cat("space ", header_box(b.h).str());
        for (int j = 0; j < 3; j++)
        {
            double side = i == 4 ? 0.0625 : i == 3 ? 4 : 16;
            for (double q : {-1.0, 0.0, 2.0, 4.0, 8.0, 16.0, 17.0})
                s.grid[j].push_back(mn[j] + q * side / 16);
            s.grid[j].push_back(std::nextafter(mn[j] + side / 2, 1e9));
        }
        v.push_back(s);
    }
    return v;
}
static const std::vector<Space> &S()
{
    static const auto v = spaces();
    return v;
}
struct Ref
{
    const Space &s;
    size_t len;
    int deep;
    Ref(const Space &x) : s(x), len((size_t)(w::base_size(x.b.fmt) + x.b.ebn())), deep(deepest(x.b.out_nodes)) {}
    void verify(Ctx &c, copc::Reader &r, const Bx &q, double res, bool points)
    {
        auto &b = s.b;
        int d = ref_depth(b.info.spacing, deep, res);
        auto what = cat(s.name, " box ", q.str(), " resolution ", res);
        auto in = listing_if(b.out_nodes, [&](const K &k) { return k.d <= d && q.holds(cell(b.h, k)); });
        auto meet = listing_if(b.out_nodes, [&](const K &k) { return k.d <= d && q.meets(cell(b.h, k)); });
        auto got = listing(r.GetNodesWithinBox(q.box(), res));
        c.check(got == in, "nodes within", cat(what, ": nodes within ", got, " want ", in));
        got = listing(r.GetNodesIntersectBox(q.box(), res));
        c.check(got == meet, "nodes intersecting", cat(what, ": nodes intersecting ", got, " want ", meet));
        c.step(2);
        if (!points)
            return;
        std::multiset<std::string> m;
        for (auto &n : b.out_nodes)
            if (n.first.d <= d)
                for (auto &p : split(n.second.recs, len))
                    if (q.holds(position(b.h, p)))
                        m.insert(p);
        auto ps = r.GetPointsWithinBox(q.box(), res);
        copc::Vector3 sc(b.h.scale[0], b.h.scale[1], b.h.scale[2]), of(b.h.offset[0], b.h.offset[1], b.h.offset[2]);
        c.check(sorted_points(ps, sc, of) == sorted_records(m), "points within", cat(what, ": ", ps.Size(), " points, want ", m.size()));
        c.step();
    }
};

MC_SCENARIOS
{
    // every box on the grid of cell faces and their neighbours
    mc::add("boxes", [](Ctx &c)
    {
        auto &s = c.pick(S(), "space");
        Bx q;
        for (int j = 0; j < 2; j++)
        {
            int a = c.choose((int)s.grid[j].size(), "low"), b = c.choose((int)s.grid[j].size(), "high");
            q.lo.v[j] = s.grid[j][(size_t)a];
            q.hi.v[j] = s.grid[j][(size_t)b];
            if (q.lo.v[j] > q.hi.v[j])
                return;
        }
        Ref ref(s);
        std::istringstream in(s.image);
        copc::Reader r(&in);
        int n = 0;
        for (double lo : s.grid[2])
            for (double hi : s.grid[2])
                if (lo <= hi)
                {
                    q.lo.v[2] = lo;
                    q.hi.v[2] = hi;
                    ref.verify(c, r, q, n % 4 == 0 ? 2 : 0, mc::thorough() || n % 5 == 0 || (n + (int)q.lo.v[0] + (int)q.hi.v[1]) % 7 == 0);
                    n++;
                }
        c.op(cat(n, " boxes at ", q.str()));
        c.state(cat(s.name, q.str()));
        c.traces((uint64_t)n - 1);
    }, 0, 32);
    // degenerate, unbounded and tight boxes with every resolution
    mc::add("resolutions", [](Ctx &c)
    {
        auto &s = c.pick(S(), "space");
        std::vector<Bx> qs{header_box(s.b.h), {{{-DBL_MAX, -DBL_MAX, -DBL_MAX}}, {{DBL_MAX, DBL_MAX, DBL_MAX}}}};
        for (auto &n : s.b.nodes)
        {
            Bx k = cell(s.b.h, n.key);
            qs.push_back(k);
            qs.push_back({k.lo, k.lo});
            qs.push_back({k.hi, k.hi});
            for (int j = 0; j < 3; j++) // just not the cell
            {
                Bx a = k;
                a.lo.v[j] = std::nextafter(a.lo.v[j], DBL_MAX);
                if (a.lo.v[j] <= a.hi.v[j])
                    qs.push_back(a);
                a = k;
                a.hi.v[j] = std::nextafter(a.hi.v[j], -DBL_MAX);
                if (a.lo.v[j] <= a.hi.v[j])
                    qs.push_back(a);
                a = k; // touching it
                a.lo.v[j] = a.hi.v[j] = k.hi.v[j];
                qs.push_back(a);
            }
        }
        auto &q = qs[(size_t)c.choose((int)qs.size(), "box")];
        Ref ref(s);
        std::istringstream in(s.image);
        copc::Reader r(&in);
        for (double res : {0.0, -1.0, 8.0, 4.0, 3.9, 2.0, 1.0, 0.5, 0.25, 0.001})
            ref.verify(c, r, q, res, true);
        // the default resolution
        auto &b = s.b;
        auto got = listing(r.GetNodesWithinBox(q.box())) + listing(r.GetNodesIntersectBox(q.box()));
        c.check(got == listing_if(b.out_nodes, [&](const K &k) { return q.holds(cell(b.h, k)); }) +
                           listing_if(b.out_nodes, [&](const K &k) { return q.meets(cell(b.h, k)); }), "default resolution",
                cat(s.name, " box ", q.str(), " without resolution: ", got));
        c.op(cat("box ", q.str()));
        c.state(cat(s.name, q.str()));
    }, 0, 16);
    // two-dimensional boxes
    mc::add("flat boxes", [](Ctx &c)
    {
        auto &s = c.pick(S(), "space");
        double lo[2], hi[2];
        for (int j = 0; j < 2; j++)
        {
            lo[j] = c.pick(s.grid[j], "low");
            hi[j] = c.pick(s.grid[j], "high");
            if (lo[j] > hi[j])
                return;
        }
        Ref ref(s);
        std::istringstream in(s.image);
        copc::Reader r(&in);
        copc::Box box(lo[0], lo[1], hi[0], hi[1]);
        auto &b = s.b;
        Bx q{{{lo[0], lo[1], -DBL_MAX}}, {{hi[0], hi[1], DBL_MAX}}};
        auto got = listing(r.GetNodesIntersectBox(box));
        auto want = listing_if(b.out_nodes, [&](const K &k) { return q.meets(cell(b.h, k)); });
        c.check(got == want, "nodes intersecting", cat(s.name, " flat box ", q.str(), ": ", got, " want ", want));
        auto ps = r.GetPointsWithinBox(box);
        uint64_t n = 0;
        for (auto &nd : b.out_nodes)
            for (auto &p : split(nd.second.recs, ref.len))
                n += q.holds(position(b.h, p));
        c.eq(ps.Size(), n, cat(s.name, " flat box ", q.str(), ": points"));
        c.op(cat("flat box ", q.str()));
        c.state(cat(s.name, q.str()));
    }, 0, 8);

    // many nodes
    mc::add("many", [](Ctx &c)
    {
        static const std::vector<int> N{73, 255, 256, 257, 400};
        static std::map<std::pair<int, int>, Space> made;
        int n = c.pick(N, "nodes"), page = c.choose(2, "pages");
        auto &s = made[{n, page}];
        if (s.image.empty())
        {
            s = S()[0];
            s.b.nodes.clear();
            int seed = 0;
            for (auto &k : octree_keys(n))
            {
                w::BNode x{k, page ? k : K{}, 1, 0, fill(s.b, k, seed, false)};
                if (x.recs.empty())
                    x.n = 0;
                s.b.nodes.push_back(x);
            }
            s.image = s.b.build();
            s.name = cat(n, " nodes");
        }
        Bx q;
        for (int j = 0; j < 3; j++)
        {
            static const std::vector<std::pair<double, double>> R{{0, 16}, {0, 8}, {4, 4}, {7, 17}};
            auto &r = c.pick(R, "range");
            q.lo.v[j] = r.first;
            q.hi.v[j] = r.second;
        }
        Ref ref(s);
        std::istringstream in(s.image);
        copc::Reader r(&in);
        ref.verify(c, r, q, 0, true);
        ref.verify(c, r, q, 2, true);
        c.op(cat("box ", q.str()));
        c.state(cat(s.name, page, q.str()));
    }, 0, 8);
}
