// Histories of writer operations, the reference result, and the comparison of a closed file with it.
#pragma once
#include "common.hpp"

struct Spec
{
    int fmt = 6;
    std::vector<w::EbItem> ebs;
    std::string wkt;
    bool stats = false;
    copc::Vector3 scale{0.01, 0.02, 0.05}, offset{100, -50, 7};
    int eb() const { return w::eb_size(ebs); }
    int len() const { return w::base_size(fmt) + eb(); }
};
inline copc::CopcConfigWriter make_cfg(const Spec &s)
{
    copc::CopcConfigWriter c((int8_t)s.fmt, s.scale, s.offset, s.wkt, eb_vlr_of(s.ebs), s.stats);
    return c;
}
inline cl::LazConfigWriter make_laz_cfg(const Spec &s)
{
    return cl::LazConfigWriter((int8_t)s.fmt, s.scale, s.offset, s.wkt, eb_vlr_of(s.ebs));
}

enum Kind
{
    POINTS,
    RAW,
    COMPRESSED
};
inline const char *kind_name(int k) { return k == POINTS ? "points" : k == RAW ? "raw" : "compressed"; }

// What a writer's file must contain.
struct Model
{
    Spec s;
    std::map<K, w::NodeRec> nodes;
    std::vector<K> order; // of the chunks
    uint64_t total() const
    {
        uint64_t n = 0;
        for (auto &p : nodes)
            n += (uint64_t)p.second.count;
        return n;
    }
    std::string points() const
    {
        std::string o;
        for (auto &k : order)
            o += nodes.at(k).recs;
        return o;
    }
    std::set<K> pages() const
    {
        std::set<K> p{K{}};
        for (auto &n : nodes)
            p.insert(n.second.page);
        return p;
    }
    static K parent_page(const std::set<K> &pages, K k)
    {
        do
            k = k.parent();
        while (!pages.count(k));
        return k;
    }
    std::string canon() const
    {
        std::string o = w::cat(s.fmt, "/", s.eb(), "|");
        for (auto &k : order)
            o += w::cat(k, "@", nodes.at(k).page, ":", nodes.at(k).count, " ", mc::hash64(nodes.at(k).recs), ";");
        return o;
    }
};

// Adds one node both to the writer and to the model.
inline copc::Node add_node(copc::Writer &wr, Model &m, const K &key, const K &page, int kind, int n, int seed)
{
    auto &s = m.s;
    w::NodeRec r;
    r.page = page;
    r.count = n;
    r.recs = w::make_recs(s.fmt, s.eb(), seed, n);
    r.comp = w::encode_chunk(r.recs, s.fmt, s.eb());
    copc::Node out;
    if (kind == POINTS)
    {
        auto ps = to_points(s.fmt, s.eb(), seed, n, s.scale, s.offset);
        out = wr.AddNode(vk(key), ps, vk(page));
    }
    else if (kind == RAW)
        out = wr.AddNode(vk(key), vec(r.recs), vk(page));
    else
        out = wr.AddNodeCompressed(vk(key), vec(r.comp), n, vk(page));
    m.nodes[key] = r;
    m.order.push_back(key);
    return out;
}

inline w::File parse_or_fail(Ctx &c, const std::string &bytes, bool copc, bool allow_undescribed = false)
{
    c.checks++;
    try
    {
        return w::parse(bytes, copc, allow_undescribed);
    }
    catch (w::Bad &b)
    {
        c.fail("structure", std::string("closed file is not well formed: ") + b.what());
    }
}

// The first n keys of a full octree, level by level.
inline std::vector<K> octree_keys(int n)
{
    std::vector<K> v{K{}};
    for (size_t i = 0; (int)v.size() < n; i++)
        for (int j = 0; j < 8 && (int)v.size() < n; j++)
            v.push_back({v[i].d + 1, v[i].x * 2 + (j & 1), v[i].y * 2 + (j >> 1 & 1), v[i].z * 2 + (j >> 2)});
    return v;
}
// The stored hierarchy and data are those of the model.
inline void check_stored(Ctx &c, const w::File &f, const Model &m)
{
    c.eq(f.nodes.size(), m.nodes.size(), "stored number of nodes");
    for (auto &n : m.nodes)
    {
        auto it = f.nodes.find(n.first);
        c.check(it != f.nodes.end(), "stored node", cat("node ", n.first, " is not in the file"));
        c.eq(it->second.page, n.second.page, cat("stored page of node ", n.first));
        c.eq(it->second.count, n.second.count, cat("stored count of node ", n.first));
        c.check(it->second.recs == n.second.recs, "stored points", cat("points of node ", n.first, " differ from those added"));
        c.check(it->second.comp == n.second.comp, "stored chunk", cat("chunk of node ", n.first, " differs"));
    }
    auto pages = m.pages();
    c.eq(f.page_nodes.size(), pages.size(), "stored number of pages");
    for (auto &p : pages)
    {
        c.check(f.page_nodes.count(p), "stored page", cat("page ", p, " is not in the file"));
        if (p != K{})
        {
            K q = Model::parent_page(pages, p);
            c.check(f.page_subs.at(q).count(p), "page parent", cat("page ", p, " is not entered from page ", q));
        }
    }
    c.check(f.points == m.points(), "stored order", "chunks are not in the order written");
    c.eq(f.h.count, m.total(), "header point count");
}

inline std::string node_str(const copc::Node &n)
{
    return cat(kk(n.key), "@", kk(n.page_key), " off ", n.offset, " size ", n.byte_size, " count ", n.point_count);
}
// Sorted text of a listing, with multiplicity.
inline std::string listing(const std::vector<copc::Node> &v)
{
    std::multiset<std::string> s;
    for (auto &n : v)
        s.insert(node_str(n));
    std::string o;
    for (auto &x : s)
        o += x + "; ";
    return o;
}
inline std::string node_str(const K &k, const w::NodeRec &n)
{
    return cat(k, "@", n.page, " off ", n.off, " size ", n.size, " count ", n.count);
}
// Reference listing of the nodes of f in page k and the pages below it (or the node k itself).
inline std::string ref_listing(const std::map<K, w::NodeRec> &nodes, const std::map<K, std::set<K>> &pages, const K &k)
{
    std::multiset<std::string> s;
    if (!k.valid())
        return "";
    for (auto &n : nodes)
        if (pages.count(k) ? n.second.page.below_or_self(k) : n.first == k)
            s.insert(node_str(n.first, n.second));
    std::string o;
    for (auto &x : s)
        o += x + "; ";
    return o;
}

// Everything a reader says about nodes, pages and points equals the parsed file and the model.
inline void check_reader(Ctx &c, copc::Reader &r, const w::File &f, const Model &m, const std::vector<K> &others)
{
    c.check(listing(r.GetAllNodes()) == ref_listing(f.nodes, f.page_nodes, K{}), "GetAllNodes",
            cat("GetAllNodes: ", listing(r.GetAllNodes()), " want ", ref_listing(f.nodes, f.page_nodes, K{})));
    std::multiset<K> pl, want;
    for (auto &k : r.GetPageList())
        pl.insert(kk(k));
    for (auto &p : f.page_nodes)
        want.insert(p.first);
    c.check(pl == want, "GetPageList", "page list differs from the file's pages");
    for (auto &n : m.nodes)
    {
        auto &k = n.first;
        auto node = r.FindNode(vk(k));
        c.check(node.IsValid() && node_str(node) == node_str(k, f.nodes.at(k)), "FindNode",
                cat("FindNode ", k, ": ", node_str(node), " want ", node_str(k, f.nodes.at(k))));
        c.check(str(r.GetPointDataCompressed(node)) == n.second.comp, "GetPointDataCompressed", cat("compressed data of ", k));
        c.check(str(r.GetPointDataCompressed(vk(k))) == n.second.comp, "GetPointDataCompressed", cat("compressed data of key ", k));
        c.check(str(r.GetPointData(node)) == n.second.recs, "GetPointData", cat("point data of ", k));
        c.check(str(r.GetPointData(vk(k))) == n.second.recs, "GetPointData", cat("point data of key ", k));
        auto p1 = r.GetPoints(node), p2 = r.GetPoints(vk(k));
        c.check(points_bytes(p1, m.s.scale, m.s.offset) == n.second.recs, "GetPoints", cat("points of ", k));
        c.check(points_bytes(p2, m.s.scale, m.s.offset) == n.second.recs, "GetPoints", cat("points of key ", k));
    }
    for (auto &k : others)
    {
        if (m.nodes.count(k))
            continue;
        c.check(!r.FindNode(vk(k)).IsValid(), "absent key", cat("FindNode of absent key ", k, " is valid"));
        c.check(r.GetPointData(vk(k)).empty() && r.GetPointDataCompressed(vk(k)).empty() && r.GetPoints(vk(k)).Size() == 0, "absent key",
                cat("absent key ", k, " has data"));
    }
}
