// Reference geometry of octree files. All numbers used are dyadic, so the arithmetic is exact.
#pragma once
#include "built.hpp"

struct V
{
    double v[3];
};
struct Bx
{
    V lo, hi;
    bool holds(const V &p) const
    {
        for (int i = 0; i < 3; i++)
            if (p.v[i] < lo.v[i] || p.v[i] > hi.v[i])
                return false;
        return true;
    }
    bool meets(const Bx &o) const
    {
        for (int i = 0; i < 3; i++)
            if (hi.v[i] < o.lo.v[i] || lo.v[i] > o.hi.v[i])
                return false;
        return true;
    }
    bool holds(const Bx &o) const { return holds(o.lo) && holds(o.hi); }
    copc::Box box() const { return copc::Box(lo.v[0], lo.v[1], lo.v[2], hi.v[0], hi.v[1], hi.v[2]); }
    std::string str() const
    {
        return cat("[", lo.v[0], ",", hi.v[0], "]x[", lo.v[1], ",", hi.v[1], "]x[", lo.v[2], ",", hi.v[2], "]");
    }
};
inline Bx header_box(const w::Hdr &h) { return {{{h.mn[0], h.mn[1], h.mn[2]}}, {{h.mx[0], h.mx[1], h.mx[2]}}}; }
inline Bx cell(const w::Hdr &h, const K &k)
{
    double side = 0;
    for (int i = 0; i < 3; i++)
        side = std::max(side, h.mx[i] - h.mn[i]);
    side = std::ldexp(side, -k.d);
    int32_t at[3] = {k.x, k.y, k.z};
    Bx b;
    for (int i = 0; i < 3; i++)
    {
        b.lo.v[i] = h.mn[i] + side * at[i];
        b.hi.v[i] = b.lo.v[i] + side;
    }
    return b;
}
// depth for a resolution: the shallowest d with spacing / 2^d <= r, at most the deepest node's
inline int ref_depth(double spacing, int deepest, double r)
{
    if (r <= 0)
        return deepest;
    for (int d = 0; d < deepest; d++)
        if (std::ldexp(spacing, -d) <= r)
            return d;
    return deepest;
}
inline int deepest(const std::map<K, w::NodeRec> &nodes)
{
    int d = -1;
    for (auto &n : nodes)
        d = std::max(d, n.first.d);
    return d;
}
inline V position(const w::Hdr &h, const std::string &rec)
{
    V p;
    for (int i = 0; i < 3; i++)
        p.v[i] = w::get<int32_t>(rec, 4 * (size_t)i) * h.scale[i] + h.offset[i];
    return p;
}
inline std::vector<std::string> split(const std::string &recs, size_t len)
{
    std::vector<std::string> v;
    for (size_t i = 0; i + len <= recs.size(); i += len)
        v.push_back(recs.substr(i, len));
    return v;
}
// A record at a position (which must be on the grid).
inline std::string record_at(const w::Builder &b, const V &p, int seed)
{
    auto r = w::make_rec(b.fmt, b.ebn(), seed);
    int32_t *g[3] = {&r.x, &r.y, &r.z};
    for (int i = 0; i < 3; i++)
    {
        double u = (p.v[i] - b.h.offset[i]) / b.h.scale[i];
        if (u != std::floor(u))
            throw std::logic_error("position not on the grid");
        *g[i] = (int32_t)u;
    }
    return r.bytes();
}
inline std::string sorted_records(const std::multiset<std::string> &m)
{
    std::string r = cat(m.size(), " ");
    for (auto &x : m)
        r += x;
    return r;
}
inline std::string listing_if(const std::map<K, w::NodeRec> &nodes, const std::function<bool(const K &)> &f)
{
    std::multiset<std::string> s;
    for (auto &n : nodes)
        if (f(n.first))
            s.insert(node_str(n.first, n.second));
    std::string o;
    for (auto &x : s)
        o += x + "; ";
    return o;
}
