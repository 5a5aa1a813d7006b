// Adaptors between the independent reference side (w::) and copc-lib's public API.
#pragma once
#include "world.hpp"

#include <copc-lib/copc/copc_config.hpp>
#include <copc-lib/copc/extents.hpp>
#include <copc-lib/copc/info.hpp>
#include <copc-lib/geometry/box.hpp>
#include <copc-lib/geometry/vector3.hpp>
#include <copc-lib/hierarchy/key.hpp>
#include <copc-lib/hierarchy/node.hpp>
#include <copc-lib/io/copc_reader.hpp>
#include <copc-lib/io/copc_writer.hpp>
#include <copc-lib/io/laz_reader.hpp>
#include <copc-lib/io/laz_writer.hpp>
#include <copc-lib/las/header.hpp>
#include <copc-lib/las/laz_config.hpp>
#include <copc-lib/las/point.hpp>
#include <copc-lib/las/points.hpp>
#include <copc-lib/las/utils.hpp>
#include <copc-lib/las/vlr.hpp>
#include <copc-lib/laz/compressor.hpp>
#include <copc-lib/laz/decompressor.hpp>

#include <cfloat>
#include <climits>
#include <fstream>
#include <iostream>

using w::cat;
using w::K;
using w::Rec;
namespace cl = copc::las;
using mc::Ctx;

inline copc::VoxelKey vk(const K &k) { return copc::VoxelKey(k.d, k.x, k.y, k.z); }
inline K kk(const copc::VoxelKey &k) { return {k.d, k.x, k.y, k.z}; }
inline std::vector<char> vec(const std::string &s) { return std::vector<char>(s.begin(), s.end()); }
inline std::string str(const std::vector<char> &v) { return std::string(v.begin(), v.end()); }

// Runs f; true if it threw an exception derived from std::exception.
template <typename F> bool throws(F f)
{
    try
    {
        f();
    }
    catch (mc::Fail &)
    {
        throw;
    }
    catch (std::exception &)
    {
        return true;
    }
    return false;
}

// std::cout is noise for the checks (and a shared object in the thread ones)
struct MuteCout
{
    std::streambuf *old;
    std::ostringstream sink;
    MuteCout() : old(std::cout.rdbuf(sink.rdbuf())) {}
    ~MuteCout() { std::cout.rdbuf(old); }
};

inline bool same_bits(double a, double b)
{
    return (std::isnan(a) && std::isnan(b)) || std::memcmp(&a, &b, 8) == 0;
}

inline cl::EbVlr::ebfield eb_field(const w::EbItem &i)
{
    cl::EbVlr::ebfield f;
    f.data_type = i.type;
    f.options = i.options;
    f.name = i.name;
    f.description = i.desc;
    std::memcpy(f.no_data, i.nodata, 24);
    std::memcpy(f.minval, i.mn, 24);
    std::memcpy(f.maxval, i.mx, 24);
    std::memcpy(f.scale, i.scale, 24);
    std::memcpy(f.offset, i.off, 24);
    return f;
}
inline w::EbItem eb_item(const cl::EbVlr::ebfield &f)
{
    w::EbItem i;
    i.type = f.data_type;
    i.options = f.options;
    i.name = f.name;
    i.desc = f.description;
    std::memcpy(i.nodata, f.no_data, 24);
    std::memcpy(i.mn, f.minval, 24);
    std::memcpy(i.mx, f.maxval, 24);
    std::memcpy(i.scale, f.scale, 24);
    std::memcpy(i.off, f.offset, 24);
    return i;
}
inline cl::EbVlr eb_vlr_of(const std::vector<w::EbItem> &v)
{
    cl::EbVlr e(0);
    for (auto &i : v)
        e.addField(eb_field(i));
    return e;
}
inline std::vector<w::EbItem> eb_items(const cl::EbVlr &e)
{
    std::vector<w::EbItem> v;
    for (auto &f : e.items)
        v.push_back(eb_item(f));
    return v;
}
// Extra bytes adding up to n bytes (one field of undocumented bytes).
inline std::vector<w::EbItem> eb_raw(int n)
{
    std::vector<w::EbItem> v;
    int i = 0;
    while (n > 0)
    {
        w::EbItem f;
        f.type = 0;
        f.options = (uint8_t)std::min(n, 255);
        f.name = cat("raw", i++);
        n -= f.options;
        v.push_back(f);
    }
    return v;
}

// A Point carrying the fields of r, its coordinates being the grid values under scale and offset.
inline std::shared_ptr<cl::Point> to_point(const Rec &r, const copc::Vector3 &s, const copc::Vector3 &o)
{
    auto p = std::make_shared<cl::Point>((int8_t)r.fmt, (uint16_t)r.eb.size());
    p->X(r.x * s.x + o.x);
    p->Y(r.y * s.y + o.y);
    p->Z(r.z * s.z + o.z);
    p->Intensity(r.intensity);
    p->ReturnNumber(r.rn);
    p->NumberOfReturns(r.nr);
    p->Synthetic(r.synthetic);
    p->KeyPoint(r.key);
    p->Withheld(r.withheld);
    p->Overlap(r.overlap);
    p->ScannerChannel(r.channel);
    p->ScanDirectionFlag(r.dir);
    p->EdgeOfFlightLineFlag(r.edge);
    p->Classification(r.cls);
    p->UserData(r.user);
    p->ScanAngle(r.angle);
    p->PointSourceId(r.source);
    p->GPSTime(r.gps);
    if (r.fmt >= 7)
        p->Rgb(r.r, r.g, r.b);
    if (r.fmt == 8)
        p->Nir(r.nir);
    p->ExtraBytes(std::vector<uint8_t>(r.eb.begin(), r.eb.end()));
    return p;
}
// The fields of p as a record (coordinates rounded to the grid by the reference side).
inline Rec to_rec(const cl::Point &p, const copc::Vector3 &s, const copc::Vector3 &o)
{
    Rec r;
    r.fmt = p.PointFormatId();
    r.x = (int32_t)std::llround((p.X() - o.x) / s.x);
    r.y = (int32_t)std::llround((p.Y() - o.y) / s.y);
    r.z = (int32_t)std::llround((p.Z() - o.z) / s.z);
    r.intensity = p.Intensity();
    r.rn = p.ReturnNumber();
    r.nr = p.NumberOfReturns();
    r.synthetic = p.Synthetic();
    r.key = p.KeyPoint();
    r.withheld = p.Withheld();
    r.overlap = p.Overlap();
    r.channel = p.ScannerChannel();
    r.dir = p.ScanDirectionFlag();
    r.edge = p.EdgeOfFlightLineFlag();
    r.cls = p.Classification();
    r.user = p.UserData();
    r.angle = p.ScanAngle();
    r.source = p.PointSourceId();
    r.gps = p.GPSTime();
    if (r.fmt >= 7)
    {
        r.r = p.Red();
        r.g = p.Green();
        r.b = p.Blue();
    }
    if (r.fmt == 8)
        r.nir = p.Nir();
    auto e = p.ExtraBytes();
    r.eb = std::string(e.begin(), e.end());
    return r;
}
inline cl::Points to_points(int fmt, int eb, int seed, int n, const copc::Vector3 &s, const copc::Vector3 &o)
{
    cl::Points ps((int8_t)fmt, (uint16_t)eb);
    for (int i = 0; i < n; i++)
        ps.AddPoint(to_point(w::make_rec(fmt, eb, seed + i), s, o));
    return ps;
}
inline std::string points_bytes(cl::Points &ps, const copc::Vector3 &s, const copc::Vector3 &o)
{
    std::string out;
    for (size_t i = 0; i < ps.Size(); i++)
        out += to_rec(*ps.Get(i), s, o).bytes();
    return out;
}
