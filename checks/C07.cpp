// C07: node lookup and page listings match the hierarchy stored in the file.
#include "built.hpp"

struct Open
{
    SparseBuf buf;
    std::istream in;
    copc::Reader r;
    Open(const std::string &image, const std::vector<std::pair<uint64_t, uint64_t>> &holes) : buf(image, holes), in(&buf), r(&in) {}
};
static std::string ref_find(const w::Builder &b, const K &k)
{
    auto it = b.out_nodes.find(k);
    return it == b.out_nodes.end() ? std::string("none") : node_str(k, it->second);
}
static std::string find(copc::Reader &r, const K &k)
{
    auto n = r.FindNode(vk(k));
    return n.IsValid() ? node_str(n) : std::string("none");
}
static void verify(Ctx &c, const w::Builder &b, const std::string &image, const std::vector<K> &keys)
{
    auto eq = [&](const std::string &got, const std::string &want, const char *key, const std::string &what)
    { c.check(got == want, key, cat(what, ": got ", got, " want ", want)); };
    auto page_list = [](copc::Reader &r)
    {
        std::multiset<K> m;
        for (auto &k : r.GetPageList())
            m.insert(kk(k));
        std::string o;
        for (auto &k : m)
            o += k.str() + " ";
        return o;
    };
    std::string pages;
    for (auto &p : b.page_nodes)
        pages += p.first.str() + " ";
    // on readers that have loaded nothing
    for (auto &k : keys)
    {
        {
            Open o(image, b.holes);
            eq(find(o.r, k), ref_find(b, k), "lookup", cat("FindNode ", k, " first"));
            eq(find(o.r, k), ref_find(b, k), "lookup", cat("FindNode ", k, " again"));
        }
        {
            Open o(image, b.holes);
            eq(listing(o.r.GetAllChildrenOfPage(vk(k))), ref_listing(b.out_nodes, b.page_nodes, k), "listing", cat("GetAllChildrenOfPage ", k, " first"));
            eq(listing(o.r.GetAllChildrenOfPage(vk(k))), ref_listing(b.out_nodes, b.page_nodes, k), "listing", cat("GetAllChildrenOfPage ", k, " again"));
        }
    }
    {
        Open o(image, b.holes);
        eq(page_list(o.r), pages, "page list", "GetPageList first");
    }
    {
        Open o(image, b.holes);
        eq(listing(o.r.GetAllNodes()), ref_listing(b.out_nodes, b.page_nodes, K{}), "all nodes", "GetAllNodes first");
    }
    // all on one reader
    Open o(image, b.holes);
    for (auto it = keys.rbegin(); it != keys.rend(); ++it)
    {
        eq(find(o.r, *it), ref_find(b, *it), "lookup", cat("FindNode ", *it));
        eq(listing(o.r.GetAllChildrenOfPage(vk(*it))), ref_listing(b.out_nodes, b.page_nodes, *it), "listing", cat("GetAllChildrenOfPage ", *it));
    }
    eq(listing(o.r.GetAllNodes()), ref_listing(b.out_nodes, b.page_nodes, K{}), "all nodes", "GetAllNodes");
    eq(page_list(o.r), pages, "page list", "GetPageList");
    for (auto &k : keys)
        eq(find(o.r, k), ref_find(b, k), "lookup", cat("FindNode ", k, " after all"));
    c.step(keys.size() * 6);
    c.traces(keys.size() * 2 + 2);
}
static std::vector<K> ancestors(K k)
{
    std::vector<K> v{k};
    while (k.d > 0)
        v.push_back(k = k.parent());
    return v;
}
// Every way to place nodes at the keys of u in pages, and to have further pages.
static void place(Ctx &c, w::Builder &b, const std::vector<K> &u, bool all_pages)
{
    std::string st;
    int i = 0;
    for (auto &k : u)
    {
        auto a = ancestors(k);
        int p = c.choose((int)a.size() + 1, "page of the node");
        if (p)
            b.nodes.push_back({k, a[(size_t)p - 1], 1, i++});
    }
    if (all_pages)
    {
        for (auto &k : u)
            if (c.flip("a page"))
                b.pages.insert(k);
    }
    else if (int p = c.choose((int)u.size() + 1, "further page"))
        b.pages.insert(u[(size_t)p - 1]);
    for (auto &n : b.nodes)
        st += cat(n.key, "@", n.page, " ");
    st += "pages ";
    for (auto &p : b.pages)
        st += p.str() + " ";
    c.op(cat("file with nodes ", st));
    c.state(st + cat(b.page_layout, b.hier_evlrs));
}

static std::string listing_if_all(const std::map<K, w::NodeRec> &nodes)
{
    std::multiset<std::string> s;
    for (auto &n : nodes)
        s.insert(node_str(n.first, n.second));
    std::string o;
    for (auto &x : s)
        o += x + "; ";
    return o;
}

MC_SCENARIOS
{
    static const std::vector<K> TREE{{0, 0, 0, 0}, {1, 0, 1, 0}, {1, 1, 1, 1}, {2, 0, 2, 1}, {2, 1, 3, 0}, {3, 1, 4, 3}};
    mc::add("tree", [](Ctx &c)
    {
        w::Builder b;
        b.page_layout = mc::thorough() ? c.choose(3, "page order") : 0;
        b.hier_evlrs = mc::thorough() ? c.choose(2, "pages: EVLR each, one EVLR") : 1;
        place(c, b, TREE, mc::thorough());
        auto keys = TREE;
        keys.push_back({1, 0, 0, 0});
        keys.push_back({2, 1, 2, 1});
        keys.push_back({3, 0, 4, 2});
        keys.push_back({4, 3, 9, 6});
        keys.push_back({5, 31, 31, 31});
        keys.push_back({-1, 0, 0, 0});
        keys.push_back({1, -1, 0, 0});
        verify(c, b, b.build(), keys);
    }, 0, 32);
    // a line of nested pages
    mc::add("line", [](Ctx &c)
    {
        w::Builder b;
        b.page_layout = c.choose(3, "page order");
        int depth = mc::thorough() ? 5 : 4;
        std::vector<K> line;
        for (int d = 0; d <= depth; d++)
            line.push_back({d, (1 << d) - 1, 0, (1 << d) / 2});
        std::reverse(line.begin(), line.end());
        for (auto &k : line)
            c.check(k.d == 0 || k.parent() == K{k.d - 1, (1 << (k.d - 1)) - 1, 0, k.d == 1 ? 0 : (1 << (k.d - 1)) / 2}, "harness", "line");
        place(c, b, line, false);
        auto keys = line;
        keys.push_back({depth + 1, 2 * ((1 << depth) - 1), 0, 1 << depth});
        keys.push_back({2, 0, 0, 0});
        verify(c, b, b.build(), keys);
    }, 0, 16);
    // full octrees, pages at chosen depths
    mc::add("full", [](Ctx &c)
    {
        w::Builder b;
        int depth = c.choose(mc::thorough() ? 4 : 3, "depth");
        auto all = keys_to(depth);
        all.resize(all.size() - 3);
        std::vector<bool> page_at(5);
        for (int d = 1; d <= depth; d++)
            page_at[(size_t)d] = c.flip("pages at this depth");
        int missing = c.choose(3, "missing nodes");
        int i = 0;
        for (auto &k : all)
        {
            i++;
            if (missing && (i * 7) % 5 < missing)
                continue;
            K p = k;
            while (p.d > 0 && !page_at[(size_t)p.d])
                p = p.parent();
            b.nodes.push_back({k, p, 1, i});
        }
        b.page_layout = c.choose(3, "page order");
        b.hier_evlrs = c.choose(2, "pages: EVLR each, one EVLR");
        c.op(cat("octree of depth ", depth, " with ", b.nodes.size(), " nodes"));
        c.state(cat(depth, page_at[1], page_at[2], page_at[3], missing, b.page_layout, b.hier_evlrs));
        std::vector<K> keys;
        int stride = depth > 2 ? 7 : 1;
        for (size_t j = 0; j < all.size(); j += (size_t)stride)
            keys.push_back(all[j]);
        keys.push_back({depth + 1, 1, 1, 1});
        verify(c, b, b.build(), keys);
    }, 0, 16);
    // very deep keys and large coordinates
    mc::add("deep", [](Ctx &c)
    {
        w::Builder b;
        int d = c.pick(std::vector<int>{1, 2, 15, 16, 17, 30, 31}, "depth");
        uint32_t m = d >= 31 ? 0x7fffffffu : (1u << d) - 1;
        static const std::vector<uint32_t> C{0, 0x7fffffffu, 0x55555555u, 0x40000000u, 0xffffu, 0x10000u};
        K k{d, (int32_t)(c.pick(C, "x") & m), (int32_t)(c.pick(C, "y") & m), (int32_t)(c.pick(C, "z") & m)};
        auto a = ancestors(k);
        int every = c.pick(std::vector<int>{1, 4, 100}, "page every so many levels");
        std::vector<K> keys;
        for (size_t i = 0; i < a.size(); i++)
        {
            K p = a[i];
            while (p.d % every)
                p = p.parent();
            if (i % 2 == 0)
                b.nodes.push_back({a[i], p, 1, (int)i});
            else
                b.pages.insert(p);
            if (i < 4 || i + 3 > a.size())
                keys.push_back(a[i]);
        }
        keys.push_back({d, k.x ^ 1, k.y, k.z});
        keys.push_back({d, k.y, k.x, k.z});
        keys.push_back({d, k.x, k.z, k.y});
        b.page_layout = 1;
        b.hier_evlrs = 1;
        c.op(cat("line of nodes down to ", k, ", a page every ", every, " levels"));
        c.state(cat(k, every));
        verify(c, b, b.build(), keys);
    }, 0, 16);
    // entries far into the file, with large sizes and counts
    mc::add("far", [](Ctx &c)
    {
        w::Builder b;
        static const std::vector<uint64_t> gaps{0, (1ull << 31) - 700, 1ull << 31, (1ull << 32) - 700, 1ull << 32, 5ull << 32, 1ull << 60};
        b.chunk_gap = c.pick(gaps, "hole in the chunks");
        b.tail_gap = c.pick(gaps, "hole before the EVLRs");
        b.hier_evlrs = 1;
        b.nodes = {{{1, 0, 0, 1}, {1, 0, 0, 1}, 1, 1}, {{0, 0, 0, 0}, {0, 0, 0, 0}, 1, 2}, {{2, 0, 1, 2}, {1, 0, 0, 1}, 2, 3}, {{2, 1, 1, 2}, {2, 1, 1, 2}, 1, 4}};
        std::string image = b.build();
        static const std::vector<int32_t> V{0, 1, 65536, INT_MAX};
        K k = b.nodes[(size_t)c.choose(4, "node")].key;
        auto &n = b.out_nodes[k];
        n.size = c.pick(V, "size");
        n.count = c.pick(V, "count");
        uint64_t at = b.entry_pos.at(n.page).at(k), gap = b.chunk_gap + b.tail_gap;
        image.replace(at - gap, 32, w::Entry{k, n.off, n.size, n.count}.bytes());
        c.op(cat("node ", k, " of size ", n.size, " and count ", n.count, " at ", n.off));
        c.state(cat(k, " ", n.size, " ", n.count, " ", n.off, " ", b.tail_gap));
        verify(c, b, image, {{0, 0, 0, 0}, {1, 0, 0, 1}, {2, 0, 1, 2}, {2, 1, 1, 2}, {1, 0, 0, 0}});
    }, 0, 8);

    // many entries in one page: nodes, pages, both; in the root page or further down
    mc::add("many", [](Ctx &c)
    {
        w::Builder b;
        int n = c.pick(std::vector<int>{7, 8, 9, 31, 32, 33, 127, 128, 129, 254, 255, 256, 257, 300, 584, 2047, 2048, 2049}, "entries");
        int kind = c.choose(3, "nodes, pages, both"), deep = c.choose(2, "further down");
        if (n > 600 && kind && !mc::thorough())
            return;
        K base = deep ? K{3, 5, 6, 7} : K{};
        auto rel = octree_keys(n + 1);
        std::vector<K> all;
        for (auto &k : rel)
            all.push_back({base.d + k.d, (base.x << k.d) + k.x, (base.y << k.d) + k.y, (base.z << k.d) + k.z});
        for (int i = 1; i <= n; i++)
        {
            bool own = kind == 1 || (kind == 2 && i % 2);
            if (own && rel[(size_t)i].d < rel.back().d)
                b.pages.insert(all[(size_t)i]); // stays a page within its parent's page
            b.nodes.push_back({all[(size_t)i], own ? all[(size_t)i] : base, i % 7 == 0 ? 0 : 1, i});
        }
        b.page_layout = c.choose(2, "page order");
        b.hier_evlrs = 1;
        c.op(cat(n, " entries of kind ", kind, " under ", base));
        c.state(cat(n, kind, deep, b.page_layout));
        c.step((uint64_t)n);
        std::vector<K> keys{all[1], all[(size_t)n], all[(size_t)n / 2], base};
        if (!deep)
            keys.push_back({12, 1, 1, 1});
        verify(c, b, b.build(), keys);
    }, 0, 8);
    // a page of more than 65536 entries
    mc::add("huge page", [](Ctx &c)
    {
        w::Builder b;
        int n = c.pick(std::vector<int>{65535, 65536, 65537, 70000}, "entries");
        auto keys = octree_keys(n);
        int i = 0;
        for (auto &k : keys)
        {
            bool has = i % 997 == 0 || i + 3 > n;
            b.nodes.push_back({k, {0, 0, 0, 0}, has ? 1 : 0, has ? 1 + i % 50 : 0});
            i++;
        }
        b.hier_evlrs = 1;
        std::string image = b.build();
        c.op(cat(n, " entries"));
        c.state(cat(n));
        std::istringstream in(image);
        copc::Reader r(&in);
        for (int i : {n - 1, 0, n / 2, 65534, 255})
            if (i < n)
            {
                auto &k = keys[(size_t)i];
                auto got = r.FindNode(vk(k));
                c.check(got.IsValid() && node_str(got) == node_str(k, b.out_nodes.at(k)), "FindNode", cat("FindNode ", k, " of ", n, " entries"));
                c.check(str(r.GetPointData(vk(k))) == b.out_nodes.at(k).recs, "GetPointData", cat("data of ", k));
            }
        auto all = r.GetAllNodes();
        c.check(listing(all) == listing_if_all(b.out_nodes), "GetAllNodes", cat(all.size(), " nodes of ", n));
        c.eq(r.GetAllChildrenOfPage(copc::VoxelKey::RootKey()).size(), (size_t)n, "children of the page");
        c.eq(r.GetPageList().size(), (size_t)1, "pages");
        c.step((uint64_t)n);
    }, 0, 4);
}
