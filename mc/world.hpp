// Independent reference side: record patterns, a strict parser and a builder for COPC / LAZ files.
// Nothing here uses copc-lib; chunks are coded with the laz-perf stand-in.
#pragma once
#include "mc.hpp"

#include <lazperf/filestream.hpp>
#include <lazperf/lazperf.hpp>

#include <algorithm>
#include <cmath>
#include <cstring>
#include <map>
#include <optional>
#include <set>
#include <sstream>
#include <tuple>
#include <vector>

namespace w
{

struct Bad : std::runtime_error
{
    using std::runtime_error::runtime_error;
};
inline void need(bool ok, const std::string &m)
{
    if (!ok)
        throw Bad(m);
}
template <typename... A> std::string cat(const A &...a)
{
    std::ostringstream o;
    o.precision(17);
    (o << ... << a);
    return o.str();
}

// ------------------------------------------------------------------ keys
struct K
{
    int32_t d = 0, x = 0, y = 0, z = 0;
    auto t() const { return std::tie(d, x, y, z); }
    bool operator<(const K &o) const { return t() < o.t(); }
    bool operator==(const K &o) const { return t() == o.t(); }
    bool operator!=(const K &o) const { return !(*this == o); }
    bool valid() const { return d >= 0 && x >= 0 && y >= 0 && z >= 0; }
    std::string str() const { return cat(d, "-", x, "-", y, "-", z); }
    K parent() const { return {d - 1, x / 2, y / 2, z / 2}; }
    bool below_or_self(const K &p) const // is this key at or below p
    {
        K k = *this;
        while (k.d > p.d)
            k = k.parent();
        return k == p;
    }
};
inline std::ostream &operator<<(std::ostream &o, const K &k) { return o << k.str(); }

// ------------------------------------------------------------------ records
inline int base_size(int fmt) { return fmt == 6 ? 30 : fmt == 7 ? 36 : 38; }
inline int dims(int fmt) { return fmt == 6 ? 14 : fmt == 7 ? 17 : 18; }

template <typename T> void put(std::string &b, const T &v) { b.append(reinterpret_cast<const char *>(&v), sizeof(T)); }
template <typename T> T get(const std::string &b, size_t at)
{
    T v;
    need(at + sizeof(T) <= b.size(), "read past the end");
    std::memcpy(&v, b.data() + at, sizeof(T));
    return v;
}
inline std::string padded(const std::string &s, size_t n)
{
    std::string t = s.substr(0, n);
    t.resize(n, '\0');
    return t;
}

// A LAS 1.4 point record, formats 6 to 8, field by field.
struct Rec
{
    int fmt = 6;
    int32_t x = 0, y = 0, z = 0;
    uint16_t intensity = 0;
    uint8_t rn = 0, nr = 0;                                           // 4 bits each
    uint8_t synthetic = 0, key = 0, withheld = 0, overlap = 0, channel = 0, dir = 0, edge = 0; // 1 1 1 1 2 1 1 bits
    uint8_t cls = 0, user = 0;
    int16_t angle = 0;
    uint16_t source = 0;
    double gps = 0;
    uint16_t r = 0, g = 0, b = 0, nir = 0;
    std::string eb;

    std::string bytes() const
    {
        std::string o;
        put(o, x);
        put(o, y);
        put(o, z);
        put(o, intensity);
        put(o, (uint8_t)(rn | (nr << 4)));
        put(o, (uint8_t)(synthetic | (key << 1) | (withheld << 2) | (overlap << 3) | (channel << 4) | (dir << 6) | (edge << 7)));
        put(o, cls);
        put(o, user);
        put(o, angle);
        put(o, source);
        put(o, gps);
        if (fmt >= 7)
        {
            put(o, r);
            put(o, g);
            put(o, b);
        }
        if (fmt == 8)
            put(o, nir);
        return o + eb;
    }
};
// Distinctive records: no two fields of one record, and no two seeds, share a value.
inline Rec make_rec(int fmt, int eb, int seed)
{
    Rec p;
    p.fmt = fmt;
    p.x = 100 + seed * 7;
    p.y = -200 - seed * 11;
    p.z = 300 + seed * 13;
    p.intensity = (uint16_t)(40000 + seed);
    p.rn = (uint8_t)(1 + seed % 15);
    p.nr = (uint8_t)(15 - seed % 15);
    p.synthetic = seed & 1;
    p.key = (seed >> 1) & 1;
    p.withheld = (seed >> 2) & 1;
    p.overlap = (seed + 1) & 1;
    p.channel = (uint8_t)(seed % 4);
    p.dir = (seed / 3) & 1;
    p.edge = (seed / 5) & 1;
    p.cls = (uint8_t)(seed * 3 + 1);
    p.user = (uint8_t)(200 - seed);
    p.angle = (int16_t)(-15000 + seed * 17);
    p.source = (uint16_t)(50000 - seed);
    p.gps = 1000.25 + seed * 0.5;
    p.r = (uint16_t)(seed * 257 + 3);
    p.g = (uint16_t)(60001 - seed);
    p.b = (uint16_t)(300 + seed);
    p.nir = (uint16_t)(45678 - seed * 2);
    for (int i = 0; i < eb; i++)
        p.eb.push_back((char)(seed * 31 + i * 7 + 5));
    return p;
}
inline std::string make_recs(int fmt, int eb, int seed, int n)
{
    std::string o;
    for (int i = 0; i < n; i++)
        o += make_rec(fmt, eb, seed + i).bytes();
    return o;
}
inline std::string encode_chunk(const std::string &recs, int fmt, int eb)
{
    std::string o;
    auto c = lazperf::build_las_compressor([&o](const unsigned char *b, size_t n) { o.append((const char *)b, n); }, fmt,
                                           (size_t)eb);
    size_t sz = (size_t)(base_size(fmt) + eb);
    for (size_t i = 0; i + sz <= recs.size(); i += sz)
        c->compress(recs.data() + i);
    c->done();
    return o;
}
inline std::string decode_chunk(const std::string &in, size_t n, int fmt, int eb, size_t *used = nullptr)
{
    size_t at = 0;
    auto d = lazperf::build_las_decompressor(
        [&](unsigned char *b, size_t k)
        {
            need(at + k <= in.size(), "chunk is cut short");
            std::memcpy(b, in.data() + at, k);
            at += k;
        },
        fmt, (size_t)eb);
    std::string o, buf((size_t)(base_size(fmt) + eb), '\0');
    for (size_t i = 0; i < n; i++)
    {
        try
        {
            d->decompress(&buf[0]);
        }
        catch (lazperf::error &e)
        {
            throw Bad(std::string("chunk does not decode: ") + e.what());
        }
        o += buf;
    }
    if (used)
        *used = at;
    return o;
}
inline std::string encode_chunk_table(const std::vector<std::pair<uint64_t, uint64_t>> &count_size)
{
    std::vector<lazperf::chunk> c;
    for (auto &p : count_size)
        c.push_back({p.first, p.second});
    std::string o;
    put(o, (uint32_t)0);
    put(o, (uint32_t)c.size());
    lazperf::compress_chunk_table([&o](const unsigned char *b, size_t n) { o.append((const char *)b, n); }, c, true);
    return o;
}

// ------------------------------------------------------------------ file parts
struct EbItem
{
    uint8_t type = 1, options = 0;
    std::string name, desc;
    double nodata[3]{}, mn[3]{}, mx[3]{}, scale[3]{}, off[3]{};
    bool operator==(const EbItem &o) const
    {
        return type == o.type && options == o.options && name == o.name && desc == o.desc &&
               !std::memcmp(nodata, o.nodata, 24) && !std::memcmp(mn, o.mn, 24) && !std::memcmp(mx, o.mx, 24) &&
               !std::memcmp(scale, o.scale, 24) && !std::memcmp(off, o.off, 24);
    }
};
inline int type_size(int t)
{
    static const int base[11] = {0, 1, 1, 2, 2, 4, 4, 8, 8, 4, 8};
    if (t <= 0 || t > 30)
        return 0;
    if (t <= 10)
        return base[t];
    if (t <= 20)
        return 2 * base[t - 10];
    return 3 * base[t - 20];
}
inline int eb_size(const std::vector<EbItem> &v)
{
    int n = 0;
    for (auto &i : v)
        n += i.type == 0 ? i.options : type_size(i.type);
    return n;
}
inline std::string eb_payload(const std::vector<EbItem> &v)
{
    std::string o;
    for (auto &f : v)
    {
        o += std::string(2, '\0');
        put(o, f.type);
        put(o, f.options);
        o += padded(f.name, 32);
        o += std::string(4, '\0');
        o.append((const char *)f.nodata, 24);
        o.append((const char *)f.mn, 24);
        o.append((const char *)f.mx, 24);
        o.append((const char *)f.scale, 24);
        o.append((const char *)f.off, 24);
        o += padded(f.desc, 32);
    }
    return o;
}
inline std::vector<EbItem> eb_parse(const std::string &b)
{
    need(b.size() % 192 == 0, "extra bytes VLR has a ragged size");
    std::vector<EbItem> v;
    for (size_t i = 0; i < b.size(); i += 192)
    {
        EbItem f;
        f.type = (uint8_t)b[i + 2];
        f.options = (uint8_t)b[i + 3];
        f.name = std::string(b.data() + i + 4, strnlen(b.data() + i + 4, 32));
        std::memcpy(f.nodata, b.data() + i + 40, 24);
        std::memcpy(f.mn, b.data() + i + 64, 24);
        std::memcpy(f.mx, b.data() + i + 88, 24);
        std::memcpy(f.scale, b.data() + i + 112, 24);
        std::memcpy(f.off, b.data() + i + 136, 24);
        f.desc = std::string(b.data() + i + 160, strnlen(b.data() + i + 160, 32));
        v.push_back(f);
    }
    return v;
}

struct Hdr // LAS 1.4 public header block
{
    uint16_t source = 0, encoding = 16;
    std::string guid, system, software; // up to 16, 32, 32 bytes
    uint8_t major = 1, minor = 4;
    uint16_t day = 0, year = 0, header_size = 375;
    uint32_t point_offset = 0, vlr_count = 0;
    uint8_t fmt_byte = 0x86;
    uint16_t rec_len = 30;
    uint32_t legacy_count = 0;
    uint32_t legacy_ret[5]{};
    double scale[3]{0.01, 0.01, 0.01}, offset[3]{}, mx[3]{}, mn[3]{};
    uint64_t wave = 0, evlr_offset = 0;
    uint32_t evlr_count = 0;
    uint64_t count = 0, ret[15]{};
    std::string bytes() const
    {
        std::string o = "LASF";
        put(o, source);
        put(o, encoding);
        o += padded(guid, 16);
        put(o, major);
        put(o, minor);
        o += padded(system, 32) + padded(software, 32);
        put(o, day);
        put(o, year);
        put(o, header_size);
        put(o, point_offset);
        put(o, vlr_count);
        put(o, fmt_byte);
        put(o, rec_len);
        put(o, legacy_count);
        for (auto v : legacy_ret)
            put(o, v);
        for (auto v : scale)
            put(o, v);
        for (auto v : offset)
            put(o, v);
        for (int i = 0; i < 3; i++)
        {
            put(o, mx[i]);
            put(o, mn[i]);
        }
        put(o, wave);
        put(o, evlr_offset);
        put(o, evlr_count);
        put(o, count);
        for (auto v : ret)
            put(o, v);
        return o;
    }
    static Hdr parse(const std::string &b)
    {
        need(b.size() >= 375, "shorter than a header");
        need(b.compare(0, 4, "LASF") == 0, "bad signature");
        Hdr h;
        h.source = get<uint16_t>(b, 4);
        h.encoding = get<uint16_t>(b, 6);
        auto str = [&](size_t at, size_t n) { return std::string(b.data() + at, strnlen(b.data() + at, n)); };
        h.guid = b.substr(8, 16); // bytes, zeros included
        h.guid.erase(h.guid.find_last_not_of('\0') + 1);
        h.major = get<uint8_t>(b, 24);
        h.minor = get<uint8_t>(b, 25);
        h.system = str(26, 32);
        h.software = str(58, 32);
        h.day = get<uint16_t>(b, 90);
        h.year = get<uint16_t>(b, 92);
        h.header_size = get<uint16_t>(b, 94);
        h.point_offset = get<uint32_t>(b, 96);
        h.vlr_count = get<uint32_t>(b, 100);
        h.fmt_byte = get<uint8_t>(b, 104);
        h.rec_len = get<uint16_t>(b, 105);
        h.legacy_count = get<uint32_t>(b, 107);
        for (int i = 0; i < 5; i++)
            h.legacy_ret[i] = get<uint32_t>(b, 111 + 4 * (size_t)i);
        for (int i = 0; i < 3; i++)
        {
            h.scale[i] = get<double>(b, 131 + 8 * (size_t)i);
            h.offset[i] = get<double>(b, 155 + 8 * (size_t)i);
            h.mx[i] = get<double>(b, 179 + 16 * (size_t)i);
            h.mn[i] = get<double>(b, 187 + 16 * (size_t)i);
        }
        h.wave = get<uint64_t>(b, 227);
        h.evlr_offset = get<uint64_t>(b, 235);
        h.evlr_count = get<uint32_t>(b, 243);
        h.count = get<uint64_t>(b, 247);
        for (int i = 0; i < 15; i++)
            h.ret[i] = get<uint64_t>(b, 255 + 8 * (size_t)i);
        return h;
    }
};

struct Info
{
    double cx = 0, cy = 0, cz = 0, half = 0, spacing = 0;
    uint64_t root_off = 0, root_size = 0;
    double gmin = 0, gmax = 0;
    std::string bytes() const
    {
        std::string o;
        put(o, cx);
        put(o, cy);
        put(o, cz);
        put(o, half);
        put(o, spacing);
        put(o, root_off);
        put(o, root_size);
        put(o, gmin);
        put(o, gmax);
        o.resize(160, '\0');
        return o;
    }
};
struct Vlr
{
    std::string user;
    uint16_t rid = 0;
    std::string data, desc;
    bool ev = false;
    uint64_t at = 0; // offset of its header in the file
    uint64_t hole = 0; // zeros after the data that are part of it, not kept here
    uint64_t payload_at() const { return at + (ev ? 60 : 54); }
    std::string header() const
    {
        std::string o;
        put(o, (uint16_t)0);
        o += padded(user, 16);
        put(o, rid);
        if (ev)
            put(o, (uint64_t)(data.size() + hole));
        else
            put(o, (uint16_t)data.size());
        return o + padded(desc, 32);
    }
};
inline std::string laz_vlr_payload(int fmt, int eb)
{
    std::string o;
    put(o, (uint16_t)3);
    put(o, (uint16_t)0);
    put(o, (uint8_t)3);
    put(o, (uint8_t)4);
    put(o, (uint16_t)3);
    put(o, (uint32_t)0);
    put(o, (uint32_t)0xFFFFFFFFu);
    put(o, (int64_t)-1);
    put(o, (int64_t)-1);
    std::vector<std::array<uint16_t, 3>> items{{10, 30, 3}};
    if (fmt == 7)
        items.push_back({11, 6, 3});
    if (fmt == 8)
        items.push_back({12, 8, 3});
    if (eb)
        items.push_back({14, (uint16_t)eb, 3});
    put(o, (uint16_t)items.size());
    for (auto &i : items)
        for (auto v : i)
            put(o, v);
    return o;
}
struct Entry
{
    K key;
    uint64_t off = 0;
    int32_t size = 0, count = 0;
    std::string bytes() const
    {
        std::string o;
        put(o, key.d);
        put(o, key.x);
        put(o, key.y);
        put(o, key.z);
        put(o, off);
        put(o, size);
        put(o, count);
        return o;
    }
};
struct NodeRec
{
    K page;
    int32_t count = 0;
    uint64_t off = 0;
    int32_t size = 0;
    std::string recs, comp; // uncompressed records, compressed chunk
};
struct File
{
    Hdr h;
    int fmt = 0, eb = 0;
    std::vector<Vlr> vlrs, evlrs;
    std::vector<std::tuple<uint64_t, uint64_t, uint64_t>> chunks; // offset, size, count
    std::string points;                                           // all chunks decoded, in file order
    Info info;
    std::vector<EbItem> ebs;
    std::string wkt;
    std::vector<std::pair<double, double>> extents, stats;
    bool has_stats = false, has_extents = false;
    std::map<K, NodeRec> nodes;
    std::map<K, std::set<K>> page_nodes, page_subs;
    const Vlr *find(const std::string &u, int id) const
    {
        for (auto &v : vlrs)
            if (v.user == u && v.rid == id)
                return &v;
        for (auto &v : evlrs)
            if (v.user == u && v.rid == id)
                return &v;
        return nullptr;
    }
    // what a user can observe, independent of where things were put in the file
    std::string canon(bool with_header = true) const
    {
        std::ostringstream o;
        if (with_header)
        {
            Hdr c = h;
            c.point_offset = 0;
            c.evlr_offset = 0;
            c.evlr_count = 0;
            o << mc::hex(c.bytes(), 400) << "|" << wkt << "|" << mc::hex(eb_payload(ebs), 4000) << "|";
            Info i = info;
            i.root_off = 0;
            o << mc::hex(i.bytes(), 400);
            o.precision(17);
            for (auto &e : extents)
                o << e.first << "," << e.second << ";";
            o << "|";
            for (auto &e : stats)
                o << e.first << "," << e.second << ";";
        }
        for (auto &p : page_nodes)
        {
            o << "|P" << p.first << ":";
            for (auto &n : p.second)
                o << n << " ";
            o << "/";
            for (auto &n : page_subs.at(p.first))
                o << n << " ";
        }
        for (auto &n : nodes)
            o << "|" << n.first << " " << n.second.count << " " << mc::hash64(n.second.recs);
        o << "|" << mc::hash64(points);
        return o.str();
    }
};

// Strict parse of a closed file: throws Bad naming the first rule that does not hold.
// opaque: the chunks hold claimed counts and arbitrary bytes, do not decode them
inline File parse(const std::string &b, bool copc, bool allow_undescribed = false, bool opaque = false)
{
    File f;
    f.h = Hdr::parse(b);
    auto &h = f.h;
    need(h.major == 1 && h.minor == 4, "version is not 1.4");
    need(h.header_size == 375, "header size is not 375");
    need(h.encoding & 16, "WKT bit of the global encoding is not set");
    need((h.fmt_byte & 0xC0) == 0x80, "compression bit of the point format is not set");
    f.fmt = h.fmt_byte & 0x3f;
    need(f.fmt >= 6 && f.fmt <= 8, "point format is not 6 to 8");
    need(h.rec_len >= base_size(f.fmt), "record length is too small");
    f.eb = h.rec_len - base_size(f.fmt);
    // VLRs
    uint64_t at = 375;
    for (uint32_t i = 0; i < h.vlr_count; i++)
    {
        need(at + 54 <= b.size() && at + 54 <= h.point_offset, cat("VLR ", i, " does not fit before the point data"));
        Vlr v;
        v.at = at;
        v.user = std::string(b.data() + at + 2, strnlen(b.data() + at + 2, 16));
        v.rid = get<uint16_t>(b, at + 18);
        uint16_t len = get<uint16_t>(b, at + 20);
        v.desc = std::string(b.data() + at + 22, strnlen(b.data() + at + 22, 32));
        need(at + 54 + len <= h.point_offset && at + 54 + len <= b.size(), cat("VLR ", i, " payload does not fit"));
        v.data = b.substr(at + 54, len);
        f.vlrs.push_back(v);
        at += 54u + len;
    }
    need(at == h.point_offset, cat("VLRs end at ", at, " but point data is declared at ", h.point_offset));
    auto count_vlr = [&](const std::string &u, int id)
    {
        int n = 0;
        for (auto &v : f.vlrs)
            n += v.user == u && v.rid == id;
        for (auto &v : f.evlrs)
            n += v.user == u && v.rid == id;
        return n;
    };
    need(count_vlr("laszip encoded", 22204) == 1, "not exactly one LAZ VLR");
    {
        auto *v = f.find("laszip encoded", 22204);
        need(v->data == laz_vlr_payload(f.fmt, f.eb), "LAZ VLR does not describe the point format, extra bytes and variable chunks");
    }
    // chunk table
    uint64_t table = get<uint64_t>(b, h.point_offset);
    need(table >= h.point_offset + 8u && table + 8 <= b.size(), "chunk table offset is outside the file");
    need(get<uint32_t>(b, table) == 0, "chunk table version");
    uint32_t nchunks = get<uint32_t>(b, table + 4);
    uint64_t pos = table + 8;
    std::vector<lazperf::chunk> tab;
    try
    {
        tab = lazperf::decompress_chunk_table(
            [&](unsigned char *p, size_t n)
            {
                need(pos + n <= b.size(), "chunk table runs past the end of the file");
                std::memcpy(p, b.data() + pos, n);
                pos += n;
            },
            nchunks, true);
    }
    catch (lazperf::error &e)
    {
        throw Bad(std::string("chunk table: ") + e.what());
    }
    at = h.point_offset + 8u;
    uint64_t total = 0;
    std::map<uint64_t, std::pair<size_t, std::string>> chunk_at;
    for (auto &c : tab)
    {
        need(c.offset > 0 && at + c.offset <= table, "chunk does not fit before the chunk table");
        need(c.count > 0, "empty chunk");
        size_t used = 0;
        std::string comp = b.substr(at, c.offset);
        std::string recs;
        if (opaque)
            used = c.offset;
        else
            recs = decode_chunk(comp, c.count, f.fmt, f.eb, &used);
        need(used == c.offset, "chunk size in the chunk table differs from the chunk");
        chunk_at[at] = {f.chunks.size(), recs};
        f.chunks.push_back({at, c.offset, c.count});
        f.points += recs;
        total += c.count;
        at += c.offset;
    }
    need(at == table, "gap between the last chunk and the chunk table");
    need(total == h.count, cat("header point count ", h.count, " but chunks hold ", total));
    need(h.legacy_count == 0 || h.legacy_count == h.count, "legacy point count");
    for (int i = 0; i < 5; i++)
        need(h.legacy_ret[i] == 0 || h.legacy_ret[i] == h.ret[i], "legacy points by return");
    // EVLRs
    need(h.evlr_count == 0 || h.evlr_offset >= pos, "EVLRs overlap the chunk table");
    at = h.evlr_count ? h.evlr_offset : pos;
    for (uint32_t i = 0; i < h.evlr_count; i++)
    {
        need(at + 60 <= b.size(), cat("EVLR ", i, " does not fit in the file"));
        Vlr v;
        v.ev = true;
        v.at = at;
        v.user = std::string(b.data() + at + 2, strnlen(b.data() + at + 2, 16));
        v.rid = get<uint16_t>(b, at + 18);
        uint64_t len = get<uint64_t>(b, at + 20);
        v.desc = std::string(b.data() + at + 28, strnlen(b.data() + at + 28, 32));
        need(len <= b.size() && at + 60 + len <= b.size(), cat("EVLR ", i, " payload does not fit"));
        v.data = b.substr(at + 60, len);
        f.evlrs.push_back(v);
        at += 60 + len;
    }
    need(at == b.size(), cat("EVLRs end at ", at, " but the file has ", b.size(), " bytes"));
    // optional records
    need(count_vlr("LASF_Projection", 2112) <= 1, "more than one WKT record");
    if (auto *v = f.find("LASF_Projection", 2112))
        f.wkt = v->data;
    need(count_vlr("LASF_Spec", 4) <= 1, "more than one extra bytes record");
    if (auto *v = f.find("LASF_Spec", 4)) // extra bytes without a description are legal
    {
        f.ebs = eb_parse(v->data);
        need(eb_size(f.ebs) == f.eb || (allow_undescribed && eb_size(f.ebs) < f.eb), "extra bytes record does not add up to the record length");
    }
    if (!copc)
    {
        need(!f.find("copc", 1) && !f.find("copc", 1000) && !f.find("copc", 10000), "COPC record in a LAZ file");
        return f;
    }
    // COPC
    need(!f.vlrs.empty() && f.vlrs[0].user == "copc" && f.vlrs[0].rid == 1 && f.vlrs[0].data.size() == 160,
         "the first VLR is not the COPC info VLR");
    need(count_vlr("copc", 1) == 1, "more than one COPC info VLR");
    auto &id = f.vlrs[0].data;
    f.info.cx = get<double>(id, 0);
    f.info.cy = get<double>(id, 8);
    f.info.cz = get<double>(id, 16);
    f.info.half = get<double>(id, 24);
    f.info.spacing = get<double>(id, 32);
    f.info.root_off = get<uint64_t>(id, 40);
    f.info.root_size = get<uint64_t>(id, 48);
    f.info.gmin = get<double>(id, 56);
    f.info.gmax = get<double>(id, 64);
    need(id.substr(72) == std::string(88, '\0'), "reserved bytes of the COPC info VLR are not zero");
    auto ext = [&](const Vlr *v, std::vector<std::pair<double, double>> &out)
    {
        need(v->data.size() == 16u * (size_t)(dims(f.fmt) + (int)f.ebs.size()), "extents VLR has the wrong size");
        for (size_t i = 0; i < v->data.size(); i += 16)
            out.push_back({get<double>(v->data, i), get<double>(v->data, i + 8)});
    };
    need(count_vlr("copc", 10000) == 1, "not exactly one extents VLR");
    f.has_extents = true;
    ext(f.find("copc", 10000), f.extents);
    need(f.extents[13].first == f.info.gmin && f.extents[13].second == f.info.gmax, "GPS time range of the info VLR differs from the extents");
    need(count_vlr("rock_robotic", 10001) <= 1, "more than one extended statistics VLR");
    if (auto *v = f.find("rock_robotic", 10001))
    {
        f.has_stats = true;
        ext(v, f.stats);
    }
    // hierarchy
    std::map<uint64_t, const Vlr *> pages;
    for (auto &v : f.evlrs)
        if (v.user == "copc" && v.rid == 1000)
            pages[v.payload_at()] = &v;
    std::set<uint64_t> seen_pages, seen_chunks;
    struct Todo
    {
        K key;
        uint64_t off, size;
    };
    std::vector<Todo> todo{{K{}, f.info.root_off, f.info.root_size}};
    while (!todo.empty())
    {
        Todo t = todo.back();
        todo.pop_back();
        need(pages.count(t.off), cat("page ", t.key, " does not point at a hierarchy EVLR"));
        const Vlr *v = pages[t.off];
        need(v->data.size() == t.size, cat("page ", t.key, " has size ", t.size, " but its EVLR ", v->data.size()));
        need(seen_pages.insert(t.off).second, cat("page ", t.key, " is entered twice"));
        need(t.size % 32 == 0, "ragged page");
        f.page_nodes[t.key];
        f.page_subs[t.key];
        for (size_t i = 0; i < v->data.size(); i += 32)
        {
            Entry e;
            e.key = {get<int32_t>(v->data, i), get<int32_t>(v->data, i + 4), get<int32_t>(v->data, i + 8),
                     get<int32_t>(v->data, i + 12)};
            e.off = get<uint64_t>(v->data, i + 16);
            e.size = get<int32_t>(v->data, i + 24);
            e.count = get<int32_t>(v->data, i + 28);
            need(e.key.valid(), "invalid key in a page");
            need(e.key.below_or_self(t.key), cat("entry ", e.key, " is not below its page ", t.key));
            if (e.count == -1)
            {
                need(e.key != t.key, "page contains itself");
                need(!f.page_nodes.count(e.key) && f.page_subs[t.key].insert(e.key).second, cat("page ", e.key, " listed twice"));
                todo.push_back({e.key, e.off, (uint64_t)(uint32_t)e.size});
            }
            else
            {
                need(e.count > 0, cat("node ", e.key, " has count ", e.count));
                need(!f.nodes.count(e.key), cat("node ", e.key, " is listed twice"));
                need(chunk_at.count(e.off), cat("node ", e.key, " does not start at a chunk"));
                auto &c = chunk_at[e.off];
                need(seen_chunks.insert(e.off).second, "two nodes share a chunk");
                need(std::get<1>(f.chunks[c.first]) == (uint64_t)e.size, cat("node ", e.key, " size differs from its chunk"));
                need(std::get<2>(f.chunks[c.first]) == (uint64_t)e.count, cat("node ", e.key, " count differs from its chunk"));
                f.page_nodes[t.key].insert(e.key);
                f.nodes[e.key] = {t.key, e.count, e.off, e.size, c.second, b.substr(e.off, (size_t)e.size)};
            }
        }
    }
    need(seen_pages.size() == pages.size(), "hierarchy EVLR that no page refers to");
    need(seen_chunks.size() == f.chunks.size(), "chunk that no node refers to");
    return f;
}

// ------------------------------------------------------------------ builder of conforming (or slightly broken) files
struct BNode
{
    K key, page;
    int n = 1, seed = 0; // n == 0: no chunk
    std::string recs; // if empty, n records made from seed
};
struct Builder
{
    int fmt = 6;
    std::vector<EbItem> ebs;
    Hdr h;
    Info info;
    std::string wkt;
    int wkt_place = 0; // 0 none, 1 VLR, 2 EVLR
    int eb_place = 1;  // 1 VLR, 2 EVLR
    bool extents = true, stats = false;
    std::vector<std::pair<double, double>> ext_values, stat_values;
    int ext_more = 0, stat_more = 0; // entries too many (or too few) in the extents and statistics records
    std::vector<int> vlr_order;  // permutation of the VLRs after the info VLR (empty: natural)
    int junk_vlr = 0, junk_evlr = 0; // number of unknown records
    bool copc = true;
    std::vector<Vlr> foreign; // further records of others, before (foreign_place 0) or after (1) the known VLRs or as EVLRs before (2) and after (3) the others
    int foreign_place = 0;
    int page_layout = 0;  // 0: parents after children, 1: parents first, 2: reversed siblings
    int hier_evlrs = 0;   // 0: one EVLR per page, 1: all pages in one EVLR, 2: all pages in one VLR
    int hier_pad = 0;     // unused bytes after each page within its record
    int raw_eb = 0;       // extra bytes per record that no VLR describes
    int data_pad = 0;     // unused bytes between the VLRs and the point data
    int tail_pad = 0;     // unused bytes between the chunk table and the EVLRs
    uint64_t chunk_gap = 0, tail_gap = 0; // holes after the first chunk and before the EVLRs, not part of the image returned
    std::vector<std::pair<uint64_t, uint64_t>> holes; // position in the file and length
    bool evlr_wkt_first = false;
    std::vector<BNode> nodes;
    std::set<K> pages; // extra pages (the root and the pages of nodes are always there)
    // results
    std::map<K, std::set<K>> page_nodes, page_subs;
    std::map<K, NodeRec> out_nodes;
    std::map<K, std::pair<uint64_t, uint64_t>> page_pos;
    std::map<K, std::map<K, uint64_t>> entry_pos; // file position of each entry, by page and key (pages: key with d += 1000)
    uint64_t table_at = 0;
    std::vector<uint64_t> vlr_at;

    // owners of unknown records: also those of known ones, with other record ids
    static std::string junk_user(int i)
    {
        static const char *u[] = {"copc", "LASF_Projection", "LASF_Spec", "junk"};
        return u[i % 4];
    }
    int ebn() const { return eb_size(ebs) + raw_eb; }
    std::string build()
    {
        int eb = ebn();
        Hdr hh = h;
        hh.fmt_byte = (uint8_t)(fmt | 0x80);
        hh.rec_len = (uint16_t)(base_size(fmt) + eb);
        page_nodes.clear();
        page_subs.clear();
        page_pos.clear();
        entry_pos.clear();
        page_nodes[K{}];
        for (auto &p : pages)
            page_nodes[p];
        for (auto &n : nodes)
            page_nodes[n.page].insert(n.key);
        // page tree
        for (auto &p : page_nodes)
        {
            page_subs[p.first];
            if (p.first == K{})
                continue;
            K q = p.first.parent();
            while (!page_nodes.count(q))
                q = q.parent();
            page_subs[q].insert(p.first);
        }
        std::vector<K> order;
        std::function<void(K)> walk = [&](K k)
        {
            if (page_layout == 1)
                order.push_back(k);
            std::vector<K> s(page_subs[k].begin(), page_subs[k].end());
            if (page_layout == 2)
                std::reverse(s.begin(), s.end());
            for (auto &c : s)
                walk(c);
            if (page_layout != 1)
                order.push_back(k);
        };
        walk(K{});
        auto size_of = [&](K k) { return 32 * (page_nodes[k].size() + page_subs[k].size()); };
        size_t hier_size = 0;
        for (auto &k : order)
            hier_size += size_of(k) + (size_t)hier_pad;
        std::vector<Vlr> vl;
        if (ebs.size() && eb_place == 1)
            vl.push_back({"LASF_Spec", 4, eb_payload(ebs), ""});
        vl.push_back({"laszip encoded", 22204, laz_vlr_payload(fmt, eb), ""});
        auto ranges = [&](const std::vector<std::pair<double, double>> &v, int more)
        {
            std::string o;
            for (int i = 0; i < dims(fmt) + (int)ebs.size() + more; i++)
            {
                auto p = i < (int)v.size() ? v[(size_t)i] : std::pair<double, double>{i, 100.0 + i};
                put(o, p.first);
                put(o, p.second);
            }
            return o;
        };
        if (foreign_place == 0)
            vl.insert(vl.begin(), foreign.begin(), foreign.end());
        if (copc && extents)
            vl.push_back({"copc", 10000, ranges(ext_values, ext_more), ""});
        if (copc && stats)
            vl.push_back({"rock_robotic", 10001, ranges(stat_values, stat_more), ""});
        if (wkt_place == 1)
            vl.push_back({"LASF_Projection", 2112, wkt, ""});
        for (int i = 0; i < junk_vlr; i++)
            vl.push_back({junk_user(i), (uint16_t)(i % 4 == 3 ? 2112 : 7 + i), std::string((size_t)(5 + 13 * i), 'j'), "unknown"});
        if (copc && hier_evlrs == 2)
            vl.push_back({"copc", 1000, std::string(hier_size, 'h'), "pages"});
        if (foreign_place == 1)
            vl.insert(vl.end(), foreign.begin(), foreign.end());
        if (!vlr_order.empty())
        {
            std::vector<Vlr> p;
            for (int i : vlr_order)
                if (i < (int)vl.size())
                    p.push_back(vl[(size_t)i]);
            vl = p;
        }
        uint64_t at = 375;
        if (copc)
            at += 54 + 160;
        vlr_at.clear();
        for (auto &v : vl)
        {
            vlr_at.push_back(at);
            at += 54 + v.data.size();
        }
        hh.vlr_count = (uint32_t)vl.size() + (copc ? 1 : 0);
        at += (uint64_t)data_pad;
        hh.point_offset = (uint32_t)at;
        // chunks
        std::string body;
        std::vector<std::pair<uint64_t, uint64_t>> tab;
        uint64_t base = at + 8, total = 0;
        out_nodes.clear();
        holes.clear();
        for (auto &n : nodes)
        {
            if (n.n == 0 && n.recs.empty())
            {
                out_nodes[n.key] = {n.page, 0, 0, 0, "", ""};
                continue;
            }
            std::string recs = n.recs.empty() ? make_recs(fmt, eb, n.seed, n.n) : n.recs;
            int cnt = (int)(recs.size() / (size_t)(base_size(fmt) + eb));
            std::string c = encode_chunk(recs, fmt, eb);
            tab.push_back({(uint64_t)cnt, c.size()});
            out_nodes[n.key] = {n.page, cnt, base + body.size() + (holes.empty() ? 0 : chunk_gap), (int32_t)c.size(), recs, c};
            body += c;
            total += (uint64_t)cnt;
            if (chunk_gap && holes.empty())
                holes.push_back({base + body.size(), chunk_gap});
        }
        hh.count = total;
        uint64_t hole = holes.empty() ? 0 : chunk_gap;
        table_at = base + body.size() + hole;
        body += encode_chunk_table(tab);
        // EVLRs: assign positions first
        struct E
        {
            Vlr v;
            std::vector<K> pages;
        };
        std::vector<E> ev;
        auto add_foreign = [&](int place)
        {
            for (auto v : foreign)
                if (v.ev = true; foreign_place == place)
                    ev.push_back({v, {}});
        };
        add_foreign(2);
        for (int i = 0; i < junk_evlr; i++)
            ev.push_back({{junk_user(i), (uint16_t)(i % 4 == 3 ? 1000 : 9 + i), std::string((size_t)(3 + 70 * i), 'J'), "unknown", true}, {}});
        if (ebs.size() && eb_place == 2)
            ev.push_back({{"LASF_Spec", 4, eb_payload(ebs), "", true}, {}});
        auto add_wkt = [&]
        {
            if (wkt_place == 2)
                ev.push_back({{"LASF_Projection", 2112, wkt, "", true}, {}});
        };
        if (evlr_wkt_first)
            add_wkt();
        if (copc)
        {
            if (hier_evlrs == 0)
                for (auto &k : order)
                    ev.push_back({{"copc", 1000, "", k.str(), true}, {k}});
            else if (hier_evlrs == 1)
                ev.push_back({{"copc", 1000, "", "pages", true}, order});
        }
        if (!evlr_wkt_first)
            add_wkt();
        add_foreign(3);
        uint64_t eat = base + body.size() + (uint64_t)tail_pad + hole;
        if (tail_gap)
            holes.push_back({eat, tail_gap});
        eat += tail_gap;
        hh.evlr_offset = ev.empty() ? 0 : eat;
        hh.evlr_count = (uint32_t)ev.size();
        for (auto &e : ev)
        {
            e.v.at = eat;
            eat += 60;
            for (auto &k : e.pages)
            {
                page_pos[k] = {eat, size_of(k)};
                eat += size_of(k) + (uint64_t)hier_pad;
            }
            eat += e.pages.empty() ? e.v.data.size() : 0;
            if (e.v.hole)
                holes.push_back({eat, e.v.hole});
            eat += e.v.hole;
        }
        auto page_bytes = [&](K k)
        {
            std::string o;
            uint64_t q = page_pos[k].first;
            auto add_pages = [&]
            {
                for (auto &s : page_subs[k])
                {
                    entry_pos[k][K{s.d + 1000, s.x, s.y, s.z}] = q + o.size();
                    o += Entry{s, page_pos[s].first, (int32_t)page_pos[s].second, -1}.bytes();
                }
            };
            if (page_layout == 1)
                add_pages();
            for (auto &n : page_nodes[k])
            {
                entry_pos[k][n] = q + o.size();
                o += Entry{n, out_nodes[n].off, out_nodes[n].size, out_nodes[n].count}.bytes();
            }
            if (page_layout != 1)
                add_pages();
            return o + std::string((size_t)hier_pad, 'h');
        };
        for (size_t i = 0; i < vl.size(); i++)
            if (vl[i].user == "copc" && vl[i].rid == 1000)
            {
                uint64_t q = vlr_at[i] + 54;
                for (auto &k : order)
                {
                    page_pos[k] = {q, size_of(k)};
                    q += size_of(k) + (size_t)hier_pad;
                }
                vl[i].data.clear();
                for (auto &k : order)
                    vl[i].data += page_bytes(k);
            }
        for (auto &e : ev)
            for (auto &k : e.pages)
                e.v.data += page_bytes(k);
        Info ii = info;
        if (copc)
        {
            ii.root_off = page_pos[K{}].first;
            ii.root_size = page_pos[K{}].second;
        }
        std::string o = hh.bytes();
        if (copc)
            o += Vlr{"copc", 1, ii.bytes(), ""}.header() + ii.bytes();
        for (auto &v : vl)
            o += v.header() + v.data;
        o += std::string((size_t)data_pad, 'd');
        put(o, table_at);
        o += body;
        o += std::string((size_t)tail_pad, 't');
        for (auto &e : ev)
            o += e.v.header() + e.v.data;
        return o;
    }
};

} // namespace w
