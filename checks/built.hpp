// Files made by the builder (layouts other than the library's own) and what a reader must say about them.
#pragma once
#include "queries.hpp"

inline std::vector<w::EbItem> eb_two()
{
    std::vector<w::EbItem> v(2);
    v[0].type = 3;
    v[0].name = "first field";
    v[0].desc = "described";
    v[0].scale[0] = 0.5;
    v[1].type = 29;
    v[1].name = std::string(32, 'n');
    v[1].desc = std::string(32, 'd');
    v[1].mn[2] = -4;
    return v;
}
inline std::string header_str(const w::Hdr &h, bool copc, bool place = true)
{
    auto v3 = [](const double *d) { return num(d[0]) + "," + num(d[1]) + "," + num(d[2]); };
    std::string o = cat("src ", h.source, " enc ", h.encoding, " guid ", quote0(h.guid), " sys ", quote0(h.system), " sw ", quote0(h.software), " day ",
                        h.day, " year ", h.year, " fmt ", h.fmt_byte & 0x7f, " len ", h.rec_len, " n ", h.count, " copc ", copc, " scale ",
                        v3(h.scale), " off ", v3(h.offset), " min ", v3(h.mn), " max ", v3(h.mx), " ret");
    for (auto r : h.ret)
        o += cat(" ", r);
    if (place)
        o += cat(" place ", h.point_offset, " ", h.vlr_count, " ", h.evlr_offset, " ", h.evlr_count);
    return o;
}
// What config_str must give for a built file (values of absent extents are not specified: see config_eq).
inline std::string ref_laz_config(const w::Builder &b, const std::string &image, bool copc, bool place = true)
{
    return header_str(w::Hdr::parse(image), copc, place) + " wkt " + quote0(b.wkt_place ? b.wkt : "") +
           cat(" eb ", b.ebs.size(), ":", mc::hex(w::eb_payload(b.ebs), 100000));
}
inline std::string ref_copc_config(const w::Builder &b, const std::string &image, bool place = true)
{
    auto root = b.page_pos.at(K{});
    std::string o = ref_laz_config(b, image, true, place) + " info " + num(b.info.cx) + " " + num(b.info.cy) + " " + num(b.info.cz) + " " +
                    num(b.info.half) + " " + num(b.info.spacing);
    if (place)
        o += cat(" ", root.first, " ", root.second);
    bool stats = b.extents && b.stats;
    o += cat(" extents ", b.fmt, " ", stats);
    if (!b.extents)
        return o;
    for (int i = 0; i < w::dims(b.fmt) + (int)b.ebs.size(); i++)
    {
        auto e = i < (int)b.ext_values.size() ? b.ext_values[(size_t)i] : std::pair<double, double>{i, 100.0 + i};
        auto s = i < (int)b.stat_values.size() ? b.stat_values[(size_t)i] : std::pair<double, double>{i, 100.0 + i};
        o += " " + num(e.first) + "/" + num(e.second) + (stats ? "/" + num(s.first) + "/" + num(s.second) : "");
    }
    return o;
}
inline void check_copc_config(Ctx &c, copc::Reader &r, const w::Builder &b, const std::string &image)
{
    auto cfg = r.CopcConfig();
    std::string got = config_str(cfg), want = ref_copc_config(b, image);
    if (!b.extents)
        got = got.substr(0, want.size()); // default extents: only their number is specified
    c.check(got == want, "configuration", "configuration differs\n  got  " + got + "\n  want " + want);
    const auto &e = cfg;
    c.eq(e.CopcExtents().Extents().size(), (size_t)w::dims(b.fmt) + b.ebs.size(), "number of extents");
}
// The nodes, pages and points of a built file.
inline void check_built(Ctx &c, copc::Reader &r, const w::Builder &b, const std::vector<K> &others)
{
    w::File f;
    f.nodes = b.out_nodes;
    f.page_nodes = b.page_nodes;
    Model m;
    m.s.fmt = b.fmt;
    m.s.scale = {b.h.scale[0], b.h.scale[1], b.h.scale[2]};
    m.s.offset = {b.h.offset[0], b.h.offset[1], b.h.offset[2]};
    m.nodes = b.out_nodes;
    check_reader(c, r, f, m, others);
    for (auto &p : b.page_nodes)
        c.check(listing(r.GetAllChildrenOfPage(vk(p.first))) == ref_listing(f.nodes, f.page_nodes, p.first), "GetAllChildrenOfPage",
                cat("children of page ", p.first, ": ", listing(r.GetAllChildrenOfPage(vk(p.first))), " want ",
                    ref_listing(f.nodes, f.page_nodes, p.first)));
}
inline void check_laz(Ctx &c, const w::Builder &b, const std::string &image)
{
    std::istringstream in(image);
    copc::laz::LazReader r(&in);
    std::string got = config_str(r.LazConfig()), want = ref_laz_config(b, image, b.copc);
    c.check(got == want, "LAZ configuration", "configuration as LAZ differs\n  got  " + got + "\n  want " + want);
    std::string all;
    std::map<uint64_t, const w::NodeRec *> by_off;
    for (auto &n : b.out_nodes)
        if (n.second.count)
            by_off[n.second.off] = &n.second;
    for (auto &n : by_off)
        all += n.second->recs;
    c.check(str(r.GetPointData()) == all, "LAZ point data", cat("point data as LAZ differs (", r.GetPointData().size(), " of ", all.size(), " bytes)"));
    auto p = r.GetPoints();
    c.check(points_bytes(p, {b.h.scale[0], b.h.scale[1], b.h.scale[2]}, {b.h.offset[0], b.h.offset[1], b.h.offset[2]}) == all, "LAZ points",
            "points as LAZ differ");
}
// A read-only stream over an image with holes (zeros) in it.
struct SparseBuf : std::streambuf
{
    std::string image;
    std::vector<std::pair<uint64_t, uint64_t>> holes; // position in the file, length
    uint64_t pos = 0, size;
    char cur = 0;
    SparseBuf(const std::string &i, const std::vector<std::pair<uint64_t, uint64_t>> &h) : image(i), holes(h), size(i.size())
    {
        for (auto &x : holes)
            size += x.second;
    }
    char at(uint64_t p) const
    {
        uint64_t skip = 0;
        for (auto &h : holes)
        {
            if (p < h.first)
                break;
            if (p < h.first + h.second)
                return 0;
            skip += h.second;
        }
        return image[p - skip];
    }
    int_type underflow() override
    {
        setg(&cur, &cur, &cur);
        return pos < size ? traits_type::to_int_type(at(pos)) : traits_type::eof();
    }
    int_type uflow() override { return pos < size ? traits_type::to_int_type(at(pos++)) : traits_type::eof(); }
    std::streamsize xsgetn(char *s, std::streamsize n) override
    {
        std::streamsize i = 0;
        for (; i < n && pos < size; i++)
            s[i] = at(pos++);
        return i;
    }
    pos_type seekoff(off_type o, std::ios::seekdir d, std::ios::openmode) override
    {
        off_type n = (d == std::ios::beg ? 0 : d == std::ios::cur ? (off_type)pos : (off_type)size) + o;
        if (n < 0 || (uint64_t)n > size)
            return pos_type(off_type(-1));
        pos = (uint64_t)n;
        return pos_type(n);
    }
    pos_type seekpos(pos_type p, std::ios::openmode m) override { return seekoff(off_type(p), std::ios::beg, m); }
};
// All keys to the given depth, plus one beyond any file here.
inline std::vector<K> keys_to(int depth)
{
    std::vector<K> v;
    for (int d = 0; d <= depth; d++)
        for (int x = 0; x < 1 << d; x++)
            for (int y = 0; y < 1 << d; y++)
                for (int z = 0; z < 1 << d; z++)
                    v.push_back({d, x, y, z});
    v.push_back({9, 0, 0, 0});
    v.push_back({9, 511, 511, 511});
    v.push_back({30, 1, 2, 3});
    return v;
}
