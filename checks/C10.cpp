// C10: spatial validation accepts a file exactly when its bounds are consistent.
#include "space.hpp"

static bool valid(const w::Builder &b)
{
    Bx h = header_box(b.h);
    size_t len = (size_t)(w::base_size(b.fmt) + b.ebn());
    for (auto &n : b.out_nodes)
    {
        Bx k = cell(b.h, n.first);
        if (!k.meets(h))
            return false;
        for (auto &p : split(n.second.recs, len))
            if (!k.holds(position(b.h, p)) || !h.holds(position(b.h, p)))
                return false;
    }
    return true;
}
static void verify(Ctx &c, w::Builder &b, const std::string &what)
{
    std::string image = b.build();
    bool want = valid(b);
    auto validate = [](copc::Reader &r, bool verbose)
    {
        MuteCout mute;
        auto before = std::make_pair(std::cout.precision(), std::cout.flags());
        bool v = r.ValidateSpatialBounds(verbose);
        if (std::make_pair(std::cout.precision(), std::cout.flags()) != before)
            throw std::logic_error("the validation changed the format of std::cout");
        return v;
    };
    std::istringstream in1(image), in2(image);
    copc::Reader r1(&in1), r2(&in2);
    bool q = validate(r1, false), v = validate(r2, true);
    c.op(cat(what, ": ", want ? "consistent" : "inconsistent"));
    c.check(q == want, "quiet", cat(what, ": validation gives ", q, ", want ", want));
    c.check(v == want, "verbose", cat(what, ": verbose validation gives ", v, ", want ", want));
    c.check(validate(r1, true) == want && validate(r1, false) == want && validate(r2, false) == want, "again", what + ": validating again differs");
    c.step(4);
    c.state(cat(what, want));
    c.outcome(want ? "valid" : "invalid");
}
static const int HEADERS = 7;
static void header(w::Builder &b, int which)
{
    // the last two need many digits: far from the origin, and very small
    static const double A = 4194304, S = std::ldexp(1, -4), T = std::ldexp(1, -24);
    static const double MN[HEADERS][3] = {{0, 0, 0}, {-8, 4, 100}, {-16, -16, -16}, {5, 5, 5}, {0, 0, 0}, {A, -A, A / 2}, {1, -2, 4}};
    static const double MX[HEADERS][3] = {{16, 16, 16}, {8, 8, 102}, {-8, -8, 16}, {5, 5, 5}, {0, 16, 3}, {A + S, S - A, A / 2 + S / 2}, {1 + T, T - 2, 4 + T / 4}};
    for (int j = 0; j < 3; j++)
    {
        b.h.mn[j] = MN[which][j];
        b.h.mx[j] = MX[which][j];
        b.h.scale[j] = which < 5 ? 0.25 : std::ldexp(1, which == 5 ? -10 : -30);
        b.h.offset[j] = which < 5 ? which * j : MN[which][j];
    }
}
static const std::vector<K> KEYS{{0, 0, 0, 0}, {1, 0, 0, 0}, {1, 1, 1, 1}, {2, 1, 2, 0}, {1, 0, 1, 0}, {2, 3, 1, 3}, {2, 0, 0, 3}, {1, 2, 0, 0}, {0, 0, 0, 1}, {3, 0, 8, 0}};
static V around(const w::Builder &b, const K &k, const int q[3])
{
    Bx c = cell(b.h, k), h = header_box(b.h);
    V p;
    for (int j = 0; j < 3; j++)
    {
        double s = b.h.scale[j], v[7] = {c.lo.v[j] - s, c.lo.v[j], (c.lo.v[j] + c.hi.v[j]) / 2, c.hi.v[j], c.hi.v[j] + s, h.hi.v[j], h.hi.v[j] + s};
        p.v[j] = v[q[j]];
    }
    return p;
}

MC_SCENARIOS
{
    // one node, one point anywhere relative to its cell and the header
    mc::add("one point", [](Ctx &c)
    {
        w::Builder b;
        int hd = c.choose(HEADERS, "header");
        header(b, hd);
        K k = c.pick(KEYS, "node");
        b.fmt = 6 + (k.d + k.x) % 3;
        int q[3];
        for (int j = 0; j < 3; j++)
            q[j] = c.choose(7, "place on the axis");
        V p = around(b, k, q);
        b.nodes = {{k, K{}, 1, 0, record_at(b, p, 1)}};
        if (k.d == 0 && k != K{})
            b.nodes[0].page = K{};
        verify(c, b, cat("header ", header_box(b.h).str(), " node ", k, " point ", p.v[0], ",", p.v[1], ",", p.v[2]));
    }, 0, 16);
    // several nodes and points of which up to two are displaced
    mc::add("one of many", [](Ctx &c)
    {
        w::Builder b;
        header(b, c.pick(std::vector<int>{0, 2, 5, 6}, "header"));
        std::vector<K> ks{{0, 0, 0, 0}, {1, 0, 0, 0}, {1, 0, 0, 1}, {2, 0, 0, 2}};
        int layout = c.choose(3, "pages");
        c.deviations_left = mc::thorough() ? 3 : 2;
        std::string what = cat("layout ", layout, " header ", header_box(b.h).str(), ":");
        int seed = 0;
        for (auto &k : ks)
        {
            std::string recs;
            for (int i = 0; i < 3; i++)
            {
                int q[3] = {i == 0 ? 1 : 2, i == 1 ? 3 : 2, 2};
                Bx h = header_box(b.h), cl = cell(b.h, k);
                for (int j = 0; j < 3; j++)
                    if (std::min(h.hi.v[j], cl.hi.v[j]) < (cl.lo.v[j] + cl.hi.v[j]) / 2)
                        q[j] = 1;
                    else if (h.hi.v[j] < cl.hi.v[j] && q[j] == 3)
                        q[j] = 2;
                int d = c.deviate(7, "displacement");
                if (d)
                {
                    q[(d - 1) / 2] = d % 2 ? 0 : 4;
                    what += cat(" ", k, "#", i, ":", d);
                }
                recs += record_at(b, around(b, k, q), seed++);
            }
            K p = k;
            while (p.d && (layout == 0 || (layout == 1 && p.d % 2)))
                p = p.parent();
            b.nodes.push_back({k, p, 1, 0, recs});
        }
        verify(c, b, what);
    }, 0, 16);
    // nodes without points, also outside of the header's bounds
    mc::add("no points", [](Ctx &c)
    {
        w::Builder b;
        header(b, c.choose(HEADERS, "header"));
        std::string what = cat("header ", header_box(b.h).str(), " empty nodes");
        for (auto &k : KEYS)
            if (c.flip("node"))
            {
                b.nodes.push_back({k, K{}, 0, 0});
                what += cat(" ", k);
            }
        verify(c, b, what);
    }, 0, 8);
    // the header's bounds moved
    mc::add("header", [](Ctx &c)
    {
        w::Builder b;
        header(b, 0);
        std::vector<std::pair<K, V>> pts{{{0, 0, 0, 0}, {{0, 0, 0}}}, {{0, 0, 0, 0}, {{16, 16, 16}}}, {{1, 1, 0, 0}, {{8, 8, 8}}}, {{2, 3, 3, 3}, {{12, 16, 14}}}};
        std::map<K, std::string> recs;
        int seed = 0;
        for (auto &p : pts)
            recs[p.first] += record_at(b, p.second, seed++);
        for (auto &r : recs)
            b.nodes.push_back({r.first, K{}, 1, 0, r.second});
        static const std::vector<double> D{0, 0.25, -0.25, 4, -4, 100, -100};
        for (int j = 0; j < 3; j++)
        {
            b.h.mx[j] += c.pick(D, "upper bound");
            if (mc::thorough() || j == 0)
                b.h.mn[j] += c.pick(D, "lower bound");
            if (b.h.mn[j] > b.h.mx[j])
                return;
        }
        verify(c, b, cat("header ", header_box(b.h).str(), " with fixed points"));
    }, 0, 8);
}
