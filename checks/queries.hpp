// Every read-only query of the readers, as text that does not depend on unspecified orders.
#pragma once
#include "hist.hpp"

inline std::string num(double v)
{
    char b[64];
    snprintf(b, sizeof b, "%.17g", v);
    return b;
}
inline std::string num(const copc::Vector3 &v) { return num(v.x) + "," + num(v.y) + "," + num(v.z); }
inline std::string quote0(const std::string &s) { return mc::hex(s, 100000); }

inline std::string header_str(const cl::LasHeader &h, bool place = true)
{
    std::string o = cat("src ", h.file_source_id, " enc ", h.global_encoding, " guid ", quote0(h.GUID()), " sys ", quote0(h.SystemIdentifier()), " sw ",
                        quote0(h.GeneratingSoftware()), " day ", h.creation_day, " year ", h.creation_year, " fmt ", (int)h.PointFormatId(), " len ",
                        h.PointRecordLength(), " n ", h.PointCount(), " copc ", h.IsCopc(), " scale ", num(h.Scale()), " off ", num(h.Offset()), " min ",
                        num(h.min), " max ", num(h.max), " ret");
    for (auto r : h.points_by_return)
        o += cat(" ", r);
    if (place)
        o += cat(" place ", h.PointOffset(), " ", h.VlrCount(), " ", h.EvlrOffset(), " ", h.EvlrCount());
    return o;
}
inline std::string eb_str(const cl::EbVlr &e)
{
    return cat(e.items.size(), ":", mc::hex(w::eb_payload(eb_items(e)), 100000));
}
inline std::string config_str(const cl::LazConfig &c, bool place = true)
{
    return header_str(c.LasHeader(), place) + " wkt " + quote0(c.Wkt()) + " eb " + eb_str(c.ExtraBytesVlr());
}
inline std::string info_str(const copc::CopcInfo &i, bool place = true)
{
    std::string o = " info " + num(i.center_x) + " " + num(i.center_y) + " " + num(i.center_z) + " " + num(i.halfsize) + " " + num(i.spacing);
    if (place)
        o += cat(" ", i.root_hier_offset, " ", i.root_hier_size);
    return o;
}
inline std::string extents_str(const copc::CopcExtents &e)
{
    std::string o = cat(" extents ", (int)e.PointFormatId(), " ", e.HasExtendedStats());
    for (auto &x : e.Extents())
        o += " " + num(x.minimum) + "/" + num(x.maximum) + (e.HasExtendedStats() ? "/" + num(x.mean) + "/" + num(x.var) : "");
    return o;
}
inline std::string config_str(const copc::CopcConfig &c, bool place = true)
{
    return config_str((const cl::LazConfig &)c, place) + info_str(c.CopcInfo(), place) + extents_str(c.CopcExtents());
}

// Points as a sorted list of records (queries over several nodes have no specified order).
inline std::string sorted_points(cl::Points &ps, const copc::Vector3 &s, const copc::Vector3 &o)
{
    std::multiset<std::string> m;
    for (size_t i = 0; i < ps.Size(); i++)
        m.insert(to_rec(*ps.Get(i), s, o).bytes());
    std::string r = cat(m.size(), " ");
    for (auto &x : m)
        r += x;
    return r;
}

struct Query
{
    std::string name;
    std::function<std::string(copc::Reader &)> f;
};
inline std::vector<Query> copc_queries(const std::vector<K> &keys, const std::vector<copc::Box> &boxes, const std::vector<double> &resolutions,
                                       bool config = true)
{
    std::vector<Query> q;
    auto sc = [](copc::Reader &r) { return r.CopcConfig().LasHeader().Scale(); };
    auto of = [](copc::Reader &r) { return r.CopcConfig().LasHeader().Offset(); };
    if (config)
        q.push_back({"CopcConfig", [](copc::Reader &r) { return config_str(r.CopcConfig()); }});
    q.push_back({"GetAllNodes", [](copc::Reader &r) { return listing(r.GetAllNodes()); }});
    q.push_back({"GetPageList", [](copc::Reader &r)
    {
        std::multiset<K> m;
        for (auto &k : r.GetPageList())
            m.insert(kk(k));
        std::string o;
        for (auto &k : m)
            o += k.str() + " ";
        return o;
    }});
    q.push_back({"GetMaxDepth", [](copc::Reader &r) { return cat(r.GetMaxDepth()); }});
    for (auto &k : keys)
    {
        auto v = vk(k);
        q.push_back({cat("FindNode ", k), [=](copc::Reader &r)
        {
            auto n = r.FindNode(v);
            return n.IsValid() ? node_str(n) : std::string("none");
        }});
        q.push_back({cat("GetAllChildrenOfPage ", k), [=](copc::Reader &r) { return listing(r.GetAllChildrenOfPage(v)); }});
        q.push_back({cat("GetPointData ", k), [=](copc::Reader &r) { return str(r.GetPointData(v)); }});
        q.push_back({cat("GetPointDataCompressed ", k), [=](copc::Reader &r) { return str(r.GetPointDataCompressed(v)); }});
        q.push_back({cat("GetPoints ", k), [=](copc::Reader &r)
        {
            auto p = r.GetPoints(v);
            return points_bytes(p, sc(r), of(r));
        }});
        q.push_back({cat("node data ", k), [=](copc::Reader &r)
        {
            auto n = r.FindNode(v);
            if (!n.IsValid())
                return std::string("none");
            auto p = r.GetPoints(n);
            return str(r.GetPointData(n)) + "|" + str(r.GetPointDataCompressed(n)) + "|" + points_bytes(p, sc(r), of(r));
        }});
    }
    for (double x : resolutions)
    {
        q.push_back({cat("GetDepthAtResolution ", x), [=](copc::Reader &r) { return cat(r.GetDepthAtResolution(x)); }});
        q.push_back({cat("GetNodesAtResolution ", x), [=](copc::Reader &r) { return listing(r.GetNodesAtResolution(x)); }});
        q.push_back({cat("GetNodesWithinResolution ", x), [=](copc::Reader &r) { return listing(r.GetNodesWithinResolution(x)); }});
        q.push_back({cat("GetAllPoints ", x), [=](copc::Reader &r)
        {
            auto p = r.GetAllPoints(x);
            return sorted_points(p, sc(r), of(r));
        }});
    }
    int i = 0;
    for (auto &b : boxes)
    {
        i++;
        double x = resolutions.empty() ? 0 : resolutions[(size_t)i % resolutions.size()];
        q.push_back({cat("GetNodesWithinBox ", i, " ", x), [=](copc::Reader &r) { return listing(r.GetNodesWithinBox(b, x)); }});
        q.push_back({cat("GetNodesIntersectBox ", i, " ", x), [=](copc::Reader &r) { return listing(r.GetNodesIntersectBox(b, x)); }});
        q.push_back({cat("GetPointsWithinBox ", i, " ", x), [=](copc::Reader &r)
        {
            auto p = r.GetPointsWithinBox(b, x);
            return sorted_points(p, sc(r), of(r));
        }});
    }
    for (bool verbose : {false, true})
        q.push_back({verbose ? "ValidateSpatialBounds verbose" : "ValidateSpatialBounds", [=](copc::Reader &r)
        {
            MuteCout mute;
            return cat(r.ValidateSpatialBounds(verbose));
        }});
    return q;
}
struct LazQuery
{
    std::string name;
    std::function<std::string(copc::laz::LazReader &)> f;
};
inline std::vector<LazQuery> laz_queries()
{
    return {{"LazConfig", [](copc::laz::LazReader &r) { return config_str(r.LazConfig()); }},
            {"GetPointData", [](copc::laz::LazReader &r) { return str(r.GetPointData()); }},
            {"GetPoints", [](copc::laz::LazReader &r)
             {
                 auto p = r.GetPoints();
                 return points_bytes(p, r.LazConfig().LasHeader().Scale(), r.LazConfig().LasHeader().Offset());
             }}};
}
