// C06: reader answers do not depend on the queries made before.
#include "built.hpp"

struct World
{
    std::string name, image;
    std::vector<Query> qs;
    std::vector<std::string> want;
    std::vector<size_t> loading; // queries that load some, but not all, pages, or nothing
};
template <typename R> static std::string ask(R &r, const std::function<std::string(R &)> &f)
{
    std::string o;
    if (throws([&] { o = f(r); }))
        return "<exception>";
    return "=" + o;
}
static w::Builder base(int fmt)
{
    w::Builder b;
    b.fmt = fmt;
    for (int i = 0; i < 3; i++)
    {
        b.h.scale[i] = 1;
        b.h.mn[i] = 0;
        b.h.mx[i] = 80;
    }
    b.info.spacing = 8;
    b.info.gmin = 13, b.info.gmax = 113;
    return b;
}
static std::string at(int fmt, int eb, int x, int y, int z, int seed)
{
    auto r = w::make_rec(fmt, eb, seed);
    r.x = x, r.y = y, r.z = z;
    return r.bytes();
}
static std::vector<World> worlds()
{
    std::vector<World> v;
    auto finish = [&](const std::string &name, w::Builder b, std::vector<K> keys)
    {
        World x;
        x.name = name;
        x.image = b.build();
        x.qs = copc_queries(keys, {copc::Box(0, 0, 0, 45, 45, 45), copc::Box(-1, -1, -1, 100, 100, 100)}, {0.0, 4.0});
        auto bad = [&](const std::string &n, uint64_t off, int32_t size, int32_t count)
        {
            x.qs.push_back({"data of a " + n, [=](copc::Reader &r)
            {
                copc::Node node(copc::Entry(vk({1, 0, 0, 0}), off, size, count), vk({0, 0, 0, 0}));
                std::string a = ask<copc::Reader>(r, [&](copc::Reader &q) { return str(q.GetPointData(node)); });
                std::string b = ask<copc::Reader>(r, [&](copc::Reader &q) { return str(q.GetPointDataCompressed(node)); });
                return a + b;
            }});
        };
        bad("node past the end", x.image.size() + 100, 40, 1);
        bad("node over the end", x.image.size() - 10, 40, 1);
        x.qs.push_back({"data of an invalid node", [](copc::Reader &r)
        {
            return ask<copc::Reader>(r, [](copc::Reader &q) { return str(q.GetPointData(copc::Node())); }) + "|" +
                   ask<copc::Reader>(r, [](copc::Reader &q) { return str(q.GetPointData(copc::VoxelKey())); }) +
                   listing(r.GetAllChildrenOfPage(copc::VoxelKey(-1, 0, 0, 0)));
        }});
        for (size_t i = 0; i < x.qs.size(); i++)
        {
            std::istringstream in(x.image);
            copc::Reader r(&in);
            x.want.push_back(ask(r, x.qs[i].f));
            auto &n = x.qs[i].name;
            if (n.compare(0, 8, "FindNode") == 0 || n.compare(0, 20, "GetAllChildrenOfPage") == 0 || n.find("node past") != n.npos)
                x.loading.push_back(i);
        }
        v.push_back(x);
    };
    {
        // pages in pages; one node above its own page
        auto b = base(6);
        b.nodes = {{{0, 0, 0, 0}, {0, 0, 0, 0}, 1, 0, at(6, 0, 1, 1, 1, 1) + at(6, 0, 50, 50, 50, 2)},
                   {{1, 0, 1, 0}, {0, 0, 0, 0}, 1, 0, at(6, 0, 10, 60, 10, 3)},
                   {{2, 0, 3, 1}, {1, 0, 1, 0}, 1, 0, at(6, 0, 10, 70, 30, 4) + at(6, 0, 19, 79, 39, 5)},
                   {{2, 1, 2, 0}, {0, 0, 0, 0}, 1, 0, at(6, 0, 30, 50, 10, 6)},
                   {{3, 2, 4, 1}, {2, 1, 2, 0}, 1, 0, at(6, 0, 21, 41, 12, 7)},
                   {{1, 1, 1, 1}, {1, 1, 1, 1}, 1, 0, at(6, 0, 60, 60, 60, 8)}};
        b.hier_evlrs = 1;
        finish("nested pages", b, {{0, 0, 0, 0}, {1, 0, 1, 0}, {2, 0, 3, 1}, {2, 1, 2, 0}, {3, 2, 4, 1}, {1, 1, 0, 1}});
    }
    {
        // pages without nodes, extra bytes, WKT at the end
        auto b = base(8);
        b.ebs = eb_two();
        b.wkt_place = 2;
        b.wkt = "WKT";
        b.stats = true;
        b.h.ret[0] = 5;
        b.nodes = {{{2, 0, 0, 0}, {2, 0, 0, 0}, 1, 0, at(8, 26, 1, 2, 3, 9)}, {{2, 0, 0, 1}, {1, 0, 0, 0}, 1, 0, at(8, 26, 4, 5, 21, 10) + at(8, 26, 90, 90, 90, 11)}};
        b.pages = {{1, 1, 1, 0}};
        finish("empty pages", b, {{0, 0, 0, 0}, {1, 0, 0, 0}, {2, 0, 0, 0}, {2, 0, 0, 1}, {1, 1, 1, 0}, {3, 4, 4, 0}});
    }
    {
        auto b = base(7);
        finish("no nodes", b, {{0, 0, 0, 0}, {1, 0, 0, 0}});
    }
    return v;
}
static const std::vector<World> &W()
{
    static const auto v = worlds();
    return v;
}
static void sequence(Ctx &c, const World &x, const std::vector<size_t> &qs)
{
    std::istringstream in(x.image);
    copc::Reader r(&in);
    std::string st = x.name;
    for (size_t i : qs)
    {
        c.op(x.qs[i].name);
        std::string got = ask(r, x.qs[i].f);
        c.check(got == x.want[i], "history dependence",
                cat(x.name, ": ", x.qs[i].name, " gives ", got.substr(0, 200), ", on a fresh reader ", x.want[i].substr(0, 200)));
        st += cat(" ", i);
    }
    c.state(st);
}

MC_SCENARIOS
{
    // every sequence of three (four) queries, the last query inside one execution
    mc::add("any three", [](Ctx &c)
    {
        auto &x = c.pick(W(), "file");
        std::vector<size_t> s;
        int n = mc::thorough() ? 3 : 2;
        for (int i = 0; i < n; i++)
            s.push_back((size_t)c.choose((int)x.qs.size(), "query"));
        // every last query
        for (size_t l = 0; l < x.qs.size(); l++)
        {
            if (!mc::thorough() && x.qs[l].name.find("Validate") == 0)
                continue;
            s.push_back(l);
            sequence(c, x, s);
            s.pop_back();
        }
    }, 0, 32);
    // longer sequences of the queries that load pages one by one
    mc::add("loading pages", [](Ctx &c)
    {
        auto &x = c.pick(W(), "file");
        std::vector<size_t> s;
        int n = mc::thorough() ? 5 : 4;
        for (int i = 0; i < n; i++)
            s.push_back(x.loading[(size_t)c.choose((int)x.loading.size(), "query")]);
        sequence(c, x, s);
    }, 0, 16);
    // every query after each of them was asked once, in both directions, and repeated
    mc::add("all", [](Ctx &c)
    {
        auto &x = c.pick(W(), "file");
        size_t last = (size_t)c.choose((int)x.qs.size(), "last query"), first = (size_t)c.choose((int)x.qs.size(), "first query");
        std::vector<size_t> s{first, first};
        for (size_t i = 0; i < x.qs.size(); i++)
            s.push_back((i + first) % x.qs.size());
        s.push_back(last);
        s.push_back(last);
        sequence(c, x, s);
    }, 0, 16);
    mc::add("laz", [](Ctx &c)
    {
        struct LW
        {
            std::string name, image;
            std::vector<std::string> want;
        };
        static const auto qs = laz_queries();
        static const auto LWS = []
        {
            std::vector<LW> v;
            for (int i = 0; i < 4; i++)
            {
                auto b = base(6 + i % 3);
                b.copc = i == 3;
                if (i)
                    b.ebs = eb_two();
                b.wkt_place = i % 3;
                b.wkt = "WKT";
                for (int j = 0; j < i * 2; j++)
                    b.nodes.push_back({{1, j & 1, j >> 1 & 1, j >> 2}, {0, 0, 0, 0}, 1 + j, j * 3});
                LW x{cat("LAZ file ", i), b.build(), {}};
                for (auto &q : qs)
                {
                    std::istringstream in(x.image);
                    copc::laz::LazReader r(&in);
                    x.want.push_back(ask(r, q.f));
                }
                v.push_back(x);
            }
            return v;
        }();
        auto &x = c.pick(LWS, "file");
        int n = mc::thorough() ? 7 : 5;
        std::istringstream in(x.image);
        copc::laz::LazReader r(&in);
        std::string st = x.name;
        for (int i = 0; i < n; i++)
        {
            auto j = (size_t)c.choose((int)qs.size(), "query");
            c.op(qs[j].name);
            std::string got = ask(r, qs[j].f);
            c.check(got != "=<exception>" && got == x.want[j], "history dependence",
                    cat(x.name, ": ", qs[j].name, " gives ", got.size(), " bytes, on a fresh reader ", x.want[j].size()));
            st += cat(" ", j);
        }
        c.state(st);
    }, 0, 4);
    // files with many nodes and pages
    mc::add("many", [](Ctx &c)
    {
        static const std::vector<World> MW = []
        {
            std::vector<World> v;
            for (int n : {73, 300})
                for (int page = 0; page < 3; page++)
                {
                    auto b = base(6 + page);
                    int seed = 0;
                    for (auto &k : octree_keys(n))
                    {
                        K p = page ? k : K{};
                        while (page == 2 && p.d % 2)
                            p = p.parent();
                        b.nodes.push_back({k, p, 1, seed++ % 100, at(b.fmt, 0, k.x, k.y, k.z, seed % 100)});
                    }
                    b.hier_evlrs = 1;
                    World x;
                    x.name = cat(n, " nodes, pages ", page);
                    x.image = b.build();
                    auto ks = octree_keys(n);
                    x.qs = copc_queries({ks[0], ks[5], ks[40], ks[72], ks.back(), {4, 15, 15, 15}}, {copc::Box(0, 0, 0, 45, 45, 45)}, {2.0});
                    for (auto &q : x.qs)
                    {
                        std::istringstream in(x.image);
                        copc::Reader r(&in);
                        x.want.push_back(ask(r, q.f));
                    }
                    v.push_back(x);
                }
            return v;
        }();
        auto &x = c.pick(MW, "file");
        size_t a = (size_t)c.choose((int)x.qs.size(), "query"), b = (size_t)c.choose((int)x.qs.size(), "query");
        sequence(c, x, {a, b});
        for (size_t i : {a, b})
            c.check(x.want[i] != "<exception>", "exception", cat(x.name, ": ", x.qs[i].name, " throws on a fresh reader"));
    }, 0, 8);
    // the fresh answers themselves: none of the well-formed queries throws
    mc::add("fresh", [](Ctx &c)
    {
        auto &x = c.pick(W(), "file");
        for (size_t i = 0; i < x.qs.size(); i++)
        {
            c.op(x.qs[i].name);
            c.check(x.want[i] != "<exception>", "exception", cat(x.name, ": ", x.qs[i].name, " throws on a fresh reader"));
        }
        c.state(x.name);
    });
}
