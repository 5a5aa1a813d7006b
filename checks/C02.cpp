// C02: the page hierarchy after any history of additions and page moves.
#include "hist.hpp"

struct Universe
{
    std::vector<K> keys;
    std::vector<std::vector<K>> pages; // candidate pages per key (ancestors or self)
};
static Universe chain()
{
    // one line of nested keys and a sibling branch
    Universe u;
    u.keys = {{2, 0, 0, 0}, {1, 0, 0, 0}, {2, 1, 0, 0}, {1, 1, 1, 1}};
    u.pages = {{{0, 0, 0, 0}, {1, 0, 0, 0}, {2, 0, 0, 0}}, {{0, 0, 0, 0}, {1, 0, 0, 0}}, {{1, 0, 0, 0}, {2, 1, 0, 0}, {0, 0, 0, 0}}, {{1, 1, 1, 1}, {0, 0, 0, 0}}};
    return u;
}
static Universe deep()
{
    // a deep line: pages can be inserted between two others
    Universe u;
    u.keys = {{3, 0, 0, 0}, {3, 1, 0, 0}, {4, 0, 0, 0}};
    u.pages = {{{0, 0, 0, 0}, {1, 0, 0, 0}, {2, 0, 0, 0}, {3, 0, 0, 0}}, {{2, 0, 0, 0}, {1, 0, 0, 0}}, {{3, 0, 0, 0}, {1, 0, 0, 0}, {4, 0, 0, 0}}};
    return u;
}
static Universe root_only()
{
    Universe u;
    u.keys = {{0, 0, 0, 0}, {1, 0, 0, 0}};
    u.pages = {{{0, 0, 0, 0}}, {{0, 0, 0, 0}, {1, 0, 0, 0}}};
    return u;
}

// What the writer itself says about the nodes added so far.
static void look_up(Ctx &c, copc::Writer &wr, const Model &m, std::map<K, std::string> &places)
{
    for (auto &k : std::vector<K>{{0, 0, 0, 0}, {1, 0, 0, 0}, {2, 0, 0, 0}, {3, 0, 0, 0}, {2, 1, 0, 0}, {1, 1, 1, 1}, {3, 1, 0, 0}, {4, 0, 0, 0}, {4, 1, 0, 0}, {5, 0, 0, 0}, {2, 2, 2, 2}})
    {
        auto n = wr.FindNode(vk(k));
        auto it = m.nodes.find(k);
        c.check(n.IsValid() == (it != m.nodes.end()), "lookup in the writer", cat("FindNode ", k, " of the writer is ", n.IsValid()));
        if (it == m.nodes.end())
            continue;
        c.check(kk(n.key) == k && kk(n.page_key) == it->second.page && n.point_count == it->second.count, "lookup in the writer",
                cat("FindNode ", k, " of the writer gives ", node_str(n), ", page should be ", it->second.page));
        places[k] = cat(n.offset, "+", n.byte_size);
    }
    c.check(!wr.FindNode(copc::VoxelKey::InvalidKey()).IsValid(), "lookup in the writer", "FindNode of an invalid key is valid");
}

static void run(Ctx &c, const Universe &u, int depth)
{
    Model m;
    std::map<K, std::string> places;
    bool lookups = c.flip("look up after every call");
    std::stringstream out;
    copc::Writer wr(out, make_cfg(m.s));
    for (int d = 0; d < depth; d++)
    {
        if (d && c.flip("close now"))
            break;
        int k = c.choose((int)u.keys.size(), "key");
        auto &key = u.keys[(size_t)k];
        auto &page = c.pick(u.pages[(size_t)k], "page");
        if (!m.nodes.count(key))
        {
            c.op(cat("add ", key, " to page ", page));
            add_node(wr, m, key, page, RAW, 1 + k, 10 * k + 1);
        }
        else
        {
            c.op(cat("move ", key, " to page ", page));
            wr.ChangeNodePage(vk(key), vk(page));
            m.nodes[key].page = page;
        }
        if (lookups)
            look_up(c, wr, m, places);
        c.state(m.canon());
    }
    c.op("close");
    wr.Close();
    auto f = parse_or_fail(c, out.str(), true);
    check_stored(c, f, m);
    if (lookups)
        look_up(c, wr, m, places);
    for (auto &p : places)
        c.eq(p.second, cat(f.nodes.at(p.first).off, "+", f.nodes.at(p.first).size), cat("place of ", p.first, " in the file"));
    out.clear();
    out.seekg(0);
    copc::Reader r(&out);
    check_reader(c, r, f, m, {{0, 0, 0, 0}, {1, 0, 0, 0}, {2, 0, 0, 0}, {3, 0, 0, 0}, {2, 1, 0, 0}, {1, 1, 1, 1}, {3, 1, 0, 0}, {4, 0, 0, 0}, {4, 1, 0, 0}});
    // listings of every page, and of keys that are no page
    auto pages = m.pages();
    for (auto k : pages)
        c.check(listing(r.GetAllChildrenOfPage(vk(k))) == ref_listing(f.nodes, f.page_nodes, k), "page listing",
                cat("listing of page ", k, ": ", listing(r.GetAllChildrenOfPage(vk(k))), " want ", ref_listing(f.nodes, f.page_nodes, k)));
    c.outcome(listing(r.GetAllNodes()));
}

MC_SCENARIOS
{
    bool t = mc::thorough();
    mc::add("chain", [t](Ctx &c) { run(c, chain(), t ? 6 : 4); }, 0, 8);
    mc::add("deep", [t](Ctx &c) { run(c, deep(), t ? 6 : 5); }, 0, 8);
    mc::add("root", [t](Ctx &c) { run(c, root_only(), t ? 9 : 6); }, 0, 1);

    // many entries: in the root page, in another page, pages in the root page, pages nested in each other; then many moves
    mc::add("many", [](Ctx &c)
    {
        Model m;
        int n = c.pick(std::vector<int>{7, 8, 9, 31, 32, 33, 127, 128, 129, 254, 255, 256, 257, 300, 585, 2047, 2048, 2049}, "nodes");
        int from = c.choose(5, "pages"), to = c.choose(5, "moved to");
        auto all = octree_keys(n);
        auto page = [&](int way, const K &k, int i)
        {
            K p{};
            switch (way)
            {
            case 0: return K{};
            case 1: // the page of the node's octant
                p = k;
                while (p.d > 1)
                    p = p.parent();
                return p;
            case 2: return k;
            case 3: return k.d ? k.parent() : k;
            default: return i % 5 == 0 ? k : i % 5 == 1 && k.d ? k.parent() : K{};
            }
        };
        if (n > 600 && (to != from || !mc::thorough()) && (from + to) % 4)
            return;
        std::stringstream out;
        copc::Writer wr(out, make_cfg(m.s));
        c.op(cat(n, " nodes in pages ", from, " moved to ", to));
        for (int i = 0; i < n; i++)
            add_node(wr, m, all[(size_t)i], page(from, all[(size_t)i], i), RAW, 1, i);
        if (to != from)
            for (int i = 0; i < n; i++)
            {
                wr.ChangeNodePage(vk(all[(size_t)i]), vk(page(to, all[(size_t)i], i)));
                m.nodes[all[(size_t)i]].page = page(to, all[(size_t)i], i);
            }
        wr.Close();
        c.state(m.canon());
        c.step((uint64_t)n * 2);
        auto f = parse_or_fail(c, out.str(), true);
        check_stored(c, f, m);
        out.clear();
        out.seekg(0);
        copc::Reader r(&out);
        c.check(listing(r.GetAllNodes()) == ref_listing(f.nodes, f.page_nodes, K{}), "GetAllNodes", cat("GetAllNodes of ", n, " nodes"));
        std::set<K> pl;
        for (auto &k : r.GetPageList())
            pl.insert(kk(k));
        c.check(pl == m.pages() && r.GetPageList().size() == pl.size(), "GetPageList", cat("page list of ", pl.size(), " pages"));
    }, 0, 8);
}
