// Implementation of the laz-perf stand-in. See ../DESIGN.md for what it assumes about the real library.
#include "lazperf/filestream.hpp"
#include "lazperf/header.hpp"
#include "lazperf/lazperf.hpp"
#include "lazperf/readers.hpp"
#include "lazperf/vlr.hpp"

#include <algorithm>
#include <cstring>

namespace lazperf
{
namespace
{
template <typename T> void put(std::string &b, const T &v) { b.append(reinterpret_cast<const char *>(&v), sizeof(T)); }
void puts_(std::string &b, const std::string &s, size_t n)
{
    std::string t = s.substr(0, n);
    t.resize(n, '\0');
    b += t;
}
struct Ext
{
    const char *p;
    template <typename T> void get(T &v)
    {
        std::memcpy(&v, p, sizeof(T));
        p += sizeof(T);
    }
    std::string str(size_t n)
    {
        std::string s(p, strnlen(p, n));
        p += n;
        return s;
    }
};
uint32_t fnv(uint32_t h, const unsigned char *p, size_t n)
{
    for (size_t i = 0; i < n; i++)
        h = (h ^ p[i]) * 16777619u;
    return h;
}
int baseSize(int format)
{
    switch (format)
    {
    case 0: return 20;
    case 1: return 28;
    case 2: return 26;
    case 3: return 34;
    case 6: return 30;
    case 7: return 36;
    case 8: return 38;
    default: return 0;
    }
}
const unsigned char MAGIC = 0xC7;
} // namespace

// ---------------------------------------------------------------- streams
struct InFileStream::Private
{
    static const size_t BUF = 1 << 16;
    std::istream &f;
    std::unique_ptr<unsigned char[]> buf;
    size_t filled{0}, pos{0};
    Private(std::istream &in) : f(in), buf(new unsigned char[BUF]) {}
    void get(unsigned char *b, size_t n)
    {
        while (n)
        {
            if (pos == filled)
            {
                f.read(reinterpret_cast<char *>(buf.get()), BUF);
                filled = (size_t)f.gcount();
                pos = 0;
                if (filled == 0)
                    throw error("Unexpected end of file.");
            }
            size_t k = std::min(n, filled - pos);
            std::memcpy(b, buf.get() + pos, k);
            pos += k;
            b += k;
            n -= k;
        }
    }
};
InFileStream::InFileStream(std::istream &in) : p_(new Private(in)) {}
InFileStream::~InFileStream() = default;
void InFileStream::reset() { p_->pos = p_->filled = 0; }
InputCb InFileStream::cb()
{
    Private *p = p_.get();
    return [p](unsigned char *b, size_t n) { p->get(b, n); };
}

// ---------------------------------------------------------------- codec
// chunk := MAGIC format eb:u16 first-point count:u32 payload-size:u32 payload checksum:u32
// payload := for each further point a bitmap of the bytes that differ from the previous point, then those bytes
namespace
{
struct Comp : public las_compressor
{
    OutputCb cb;
    int format;
    size_t eb, size;
    std::string first, prev, payload;
    uint32_t count{0}, sum{2166136261u};
    bool finished{false};
    Comp(OutputCb c, int f, size_t e) : cb(std::move(c)), format(f), eb(e), size(baseSize(f) + e) {}
    const char *compress(const char *in) override
    {
        std::string p(in, size);
        sum = fnv(sum, reinterpret_cast<const unsigned char *>(in), size);
        if (count == 0)
            first = p;
        else
        {
            std::string map((size + 7) / 8, '\0'), d;
            for (size_t i = 0; i < size; i++)
                if (p[i] != prev[i])
                {
                    map[i / 8] |= (char)(1 << (i % 8));
                    d.push_back((char)(p[i] - prev[i]));
                }
            payload += map + d;
        }
        prev = p;
        count++;
        return in + size;
    }
    void done() override
    {
        if (finished)
            return;
        finished = true;
        std::string o;
        o.push_back((char)MAGIC);
        o.push_back((char)format);
        put(o, (uint16_t)eb);
        first.resize(size, '\0');
        o += first;
        put(o, count);
        put(o, (uint32_t)payload.size());
        o += payload;
        put(o, sum);
        cb(reinterpret_cast<const unsigned char *>(o.data()), o.size());
    }
};
struct Decomp : public las_decompressor
{
    InputCb cb;
    int format;
    size_t eb, size;
    bool started{false};
    std::string prev;
    std::vector<unsigned char> payload;
    size_t pos{0};
    uint32_t count{0}, i{0};
    Decomp(InputCb c, int f, size_t e) : cb(std::move(c)), format(f), eb(e), size(baseSize(f) + e) {}
    void next(std::string &p, size_t &at)
    {
        size_t m = at;
        at += (size + 7) / 8;
        if (at > payload.size())
            throw error("Corrupt chunk payload.");
        for (size_t k = 0; k < size; k++)
            if (payload[m + k / 8] & (1 << (k % 8)))
            {
                if (at >= payload.size())
                    throw error("Corrupt chunk payload.");
                p[k] = (char)(p[k] + (char)payload[at++]);
            }
    }
    char *decompress(char *out) override
    {
        if (!started)
        {
            started = true;
            unsigned char h[4];
            cb(h, 4);
            if (h[0] != MAGIC || h[1] != (unsigned char)format || (h[2] | (h[3] << 8)) != (int)(uint16_t)eb)
                throw error("Not a chunk of this point format.");
            prev.resize(size);
            cb(reinterpret_cast<unsigned char *>(&prev[0]), size);
            uint32_t n, want;
            cb(reinterpret_cast<unsigned char *>(&count), 4);
            cb(reinterpret_cast<unsigned char *>(&n), 4);
            if (n > (1u << 26))
                throw error("Corrupt chunk.");
            payload.resize(n);
            if (n)
                cb(payload.data(), n);
            cb(reinterpret_cast<unsigned char *>(&want), 4);
            uint32_t sum = 2166136261u;
            std::string p = prev;
            size_t at = 0;
            for (uint32_t k = 0; k < count; k++)
            {
                if (k)
                    next(p, at);
                sum = fnv(sum, reinterpret_cast<const unsigned char *>(p.data()), size);
            }
            if (sum != want || at != payload.size())
                throw error("Corrupt chunk checksum.");
        }
        else if (i < count)
            next(prev, pos);
        if (i >= count)
            throw error("Read past the end of a chunk.");
        i++;
        std::memcpy(out, prev.data(), size);
        return out + size;
    }
};
} // namespace

las_compressor::ptr build_las_compressor(OutputCb cb, int format, size_t eb)
{
    if (!baseSize(format))
        return nullptr;
    return std::make_shared<Comp>(std::move(cb), format, eb);
}
las_decompressor::ptr build_las_decompressor(InputCb cb, int format, size_t eb)
{
    if (!baseSize(format))
        return nullptr;
    return std::make_shared<Decomp>(std::move(cb), format, eb);
}

// chunk table payload: zig-zag deltas as varints, then a checksum
void compress_chunk_table(OutputCb cb, const std::vector<chunk> &chunks, bool variable)
{
    std::string o;
    auto vi = [&o](uint64_t prev, uint64_t v)
    {
        int64_t d = (int64_t)(v - prev);
        uint64_t z = ((uint64_t)d << 1) ^ (uint64_t)(d >> 63);
        while (z >= 128)
        {
            o.push_back((char)(z | 128));
            z >>= 7;
        }
        o.push_back((char)z);
    };
    uint64_t pc = 0, po = 0;
    for (auto &c : chunks)
    {
        if (variable)
            vi(pc, c.count);
        vi(po, c.offset);
        pc = c.count;
        po = c.offset;
    }
    uint32_t s = fnv(2166136261u, reinterpret_cast<const unsigned char *>(o.data()), o.size());
    put(o, s);
    cb(reinterpret_cast<const unsigned char *>(o.data()), o.size());
}
std::vector<chunk> decompress_chunk_table(InputCb cb, size_t n, bool variable)
{
    std::vector<chunk> out;
    std::string o;
    auto vi = [&](uint64_t prev)
    {
        uint64_t z = 0;
        int sh = 0;
        unsigned char b;
        do
        {
            cb(&b, 1);
            o.push_back((char)b);
            if (sh > 63)
                throw error("Corrupt chunk table.");
            z |= (uint64_t)(b & 127) << sh;
            sh += 7;
        } while (b & 128);
        int64_t d = (int64_t)(z >> 1) ^ -(int64_t)(z & 1);
        return prev + (uint64_t)d;
    };
    chunk p{0, 0};
    for (size_t i = 0; i < n; i++)
    {
        chunk c{0, 0};
        if (variable)
            c.count = vi(p.count);
        c.offset = vi(p.offset);
        out.push_back(c);
        p = c;
    }
    uint32_t s = fnv(2166136261u, reinterpret_cast<const unsigned char *>(o.data()), o.size()), w;
    cb(reinterpret_cast<unsigned char *>(&w), 4);
    if (s != w)
        throw error("Corrupt chunk table checksum.");
    return out;
}

// ---------------------------------------------------------------- VLRs
vlr_header vlr_header::create(std::istream &in)
{
    vlr_header h;
    h.read(in);
    return h;
}
void vlr_header::read(std::istream &in)
{
    char b[54]{};
    in.read(b, 54);
    Ext e{b};
    e.get(reserved);
    user_id = e.str(16);
    e.get(record_id);
    e.get(data_length);
    description = e.str(32);
}
void vlr_header::write(std::ostream &out) const
{
    std::string b;
    put(b, reserved);
    puts_(b, user_id, 16);
    put(b, record_id);
    put(b, data_length);
    puts_(b, description, 32);
    out.write(b.data(), (std::streamsize)b.size());
}
evlr_header evlr_header::create(std::istream &in)
{
    evlr_header h;
    h.read(in);
    return h;
}
void evlr_header::read(std::istream &in)
{
    char b[60]{};
    in.read(b, 60);
    Ext e{b};
    e.get(reserved);
    user_id = e.str(16);
    e.get(record_id);
    e.get(data_length);
    description = e.str(32);
}
void evlr_header::write(std::ostream &out) const
{
    std::string b;
    put(b, reserved);
    puts_(b, user_id, 16);
    put(b, record_id);
    put(b, data_length);
    puts_(b, description, 32);
    out.write(b.data(), (std::streamsize)b.size());
}

laz_vlr::laz_vlr() : valid_(false) {}
laz_vlr::laz_vlr(int format, int ebCount, uint32_t chunksize) : chunk_size(chunksize)
{
    switch (format)
    {
    case 6: items.push_back({10, 30, 3}); break;
    case 7:
        items.push_back({10, 30, 3});
        items.push_back({11, 6, 3});
        break;
    case 8:
        items.push_back({10, 30, 3});
        items.push_back({12, 8, 3});
        break;
    default: valid_ = false;
    }
    if (ebCount)
        items.push_back({14, (uint16_t)ebCount, 3});
}
laz_vlr laz_vlr::create(std::istream &in)
{
    laz_vlr v;
    v.read(in);
    return v;
}
void laz_vlr::read(std::istream &in)
{
    char b[34]{};
    in.read(b, 34);
    if (in.gcount() != 34)
        throw error("Truncated LAZ VLR.");
    Ext e{b};
    e.get(compressor);
    e.get(coder);
    e.get(ver_major);
    e.get(ver_minor);
    e.get(revision);
    e.get(options);
    e.get(chunk_size);
    e.get(num_points);
    e.get(num_bytes);
    uint16_t n;
    e.get(n);
    items.clear();
    for (int i = 0; i < n && i < 64; i++)
    {
        char ib[6]{};
        in.read(ib, 6);
        if (in.gcount() != 6)
            throw error("Truncated LAZ VLR.");
        Ext x{ib};
        laz_item it;
        uint16_t t;
        x.get(t);
        it.type = t;
        x.get(t);
        it.size = t;
        x.get(t);
        it.version = t;
        items.push_back(it);
    }
    valid_ = true;
}
void laz_vlr::write(std::ostream &out) const
{
    std::string b;
    put(b, compressor);
    put(b, coder);
    put(b, ver_major);
    put(b, ver_minor);
    put(b, revision);
    put(b, options);
    put(b, chunk_size);
    put(b, num_points);
    put(b, num_bytes);
    put(b, (uint16_t)items.size());
    for (auto &i : items)
    {
        uint16_t t = i.type;
        put(b, t);
        t = i.size;
        put(b, t);
        t = i.version;
        put(b, t);
    }
    out.write(b.data(), (std::streamsize)b.size());
}

eb_vlr::eb_vlr(int n)
{
    for (int i = 0; i < n; i++)
        addField();
}
void eb_vlr::addField()
{
    ebfield f;
    f.name = "FIELD_" + std::to_string(items.size());
    items.push_back(f);
}
eb_vlr eb_vlr::create(std::istream &in, int byteSize)
{
    eb_vlr v;
    v.read(in, byteSize);
    return v;
}
void eb_vlr::read(std::istream &in, int byteSize)
{
    if (byteSize % 192 != 0)
        throw error("Invalid size for extra bytes VLR.");
    items.clear();
    for (int i = 0; i < byteSize / 192; i++)
    {
        char b[192]{};
        in.read(b, 192);
        Ext e{b};
        ebfield f;
        e.get(f.reserved);
        e.get(f.data_type);
        e.get(f.options);
        f.name = e.str(32);
        e.get(f.unused);
        e.get(f.no_data);
        e.get(f.minval);
        e.get(f.maxval);
        e.get(f.scale);
        e.get(f.offset);
        f.description = e.str(32);
        items.push_back(f);
    }
}
void eb_vlr::write(std::ostream &out) const
{
    std::string b;
    for (auto &f : items)
    {
        put(b, f.reserved);
        put(b, f.data_type);
        put(b, f.options);
        puts_(b, f.name, 32);
        put(b, f.unused);
        put(b, f.no_data);
        put(b, f.minval);
        put(b, f.maxval);
        put(b, f.scale);
        put(b, f.offset);
        puts_(b, f.description, 32);
    }
    out.write(b.data(), (std::streamsize)b.size());
}

wkt_vlr wkt_vlr::create(std::istream &in, int byteSize)
{
    wkt_vlr v;
    v.read(in, byteSize);
    return v;
}
void wkt_vlr::read(std::istream &in, int byteSize)
{
    wkt.assign((size_t)std::max(byteSize, 0), '\0');
    in.read(&wkt[0], byteSize);
}
void wkt_vlr::write(std::ostream &out) const { out.write(wkt.data(), (std::streamsize)wkt.size()); }

copc_info_vlr copc_info_vlr::create(std::istream &in)
{
    copc_info_vlr v;
    v.read(in);
    return v;
}
void copc_info_vlr::read(std::istream &in)
{
    char b[160]{};
    in.read(b, 160);
    Ext e{b};
    e.get(center_x);
    e.get(center_y);
    e.get(center_z);
    e.get(halfsize);
    e.get(spacing);
    e.get(root_hier_offset);
    e.get(root_hier_size);
    e.get(gpstime_minimum);
    e.get(gpstime_maximum);
    e.get(reserved);
}
void copc_info_vlr::write(std::ostream &out) const
{
    std::string b;
    put(b, center_x);
    put(b, center_y);
    put(b, center_z);
    put(b, halfsize);
    put(b, spacing);
    put(b, root_hier_offset);
    put(b, root_hier_size);
    put(b, gpstime_minimum);
    put(b, gpstime_maximum);
    put(b, reserved);
    out.write(b.data(), (std::streamsize)b.size());
}

// ---------------------------------------------------------------- header
header14 header14::create(std::istream &in)
{
    header14 h;
    h.read(in);
    return h;
}
uint16_t header14::ebCount() const
{
    int b = baseSize(pointFormat());
    return b && point_record_length >= b ? (uint16_t)(point_record_length - b) : 0;
}
void header14::read(std::istream &in)
{
    char b[375]{};
    in.read(b, 375);
    Ext e{b};
    e.get(magic);
    e.get(file_source_id);
    e.get(global_encoding);
    e.get(guid);
    e.get(version.major);
    e.get(version.minor);
    e.get(system_identifier);
    e.get(generating_software);
    e.get(creation.day);
    e.get(creation.year);
    e.get(header_size);
    e.get(point_offset);
    e.get(vlr_count);
    e.get(point_format_id);
    e.get(point_record_length);
    e.get(point_count);
    e.get(points_by_return);
    e.get(scale.x);
    e.get(scale.y);
    e.get(scale.z);
    e.get(offset.x);
    e.get(offset.y);
    e.get(offset.z);
    e.get(maxx);
    e.get(minx);
    e.get(maxy);
    e.get(miny);
    e.get(maxz);
    e.get(minz);
    e.get(wave_offset);
    e.get(evlr_offset);
    e.get(evlr_count);
    e.get(point_count_14);
    e.get(points_by_return_14);
}
void header14::write(std::ostream &out) const
{
    std::string b;
    put(b, magic);
    put(b, file_source_id);
    put(b, global_encoding);
    put(b, guid);
    put(b, version.major);
    put(b, version.minor);
    put(b, system_identifier);
    put(b, generating_software);
    put(b, creation.day);
    put(b, creation.year);
    put(b, header_size);
    put(b, point_offset);
    put(b, vlr_count);
    put(b, point_format_id);
    put(b, point_record_length);
    put(b, point_count);
    put(b, points_by_return);
    put(b, scale.x);
    put(b, scale.y);
    put(b, scale.z);
    put(b, offset.x);
    put(b, offset.y);
    put(b, offset.z);
    put(b, maxx);
    put(b, minx);
    put(b, maxy);
    put(b, miny);
    put(b, maxz);
    put(b, minz);
    put(b, wave_offset);
    put(b, evlr_offset);
    put(b, evlr_count);
    put(b, point_count_14);
    put(b, points_by_return_14);
    out.write(b.data(), (std::streamsize)b.size());
}

// ---------------------------------------------------------------- sequential reader
namespace reader
{
struct basic_file::Private
{
    std::istream *f{nullptr};
    std::unique_ptr<InFileStream> stream;
    header14 head;
    bool compressed{false};
    laz_vlr laz;
    std::vector<chunk> chunks; // absolute start offsets
    las_decompressor::ptr dec;
    size_t cur{0};
    uint64_t inChunk{0}, read{0};
};
basic_file::basic_file() : p_(new Private) {}
basic_file::~basic_file() = default;
uint64_t basic_file::pointCount() const { return p_->head.point_count_14; }
const header14 &basic_file::header() const { return p_->head; }
laz_vlr basic_file::lazVlr() const { return p_->laz; }
std::vector<char> basic_file::vlrData(const std::string &, uint16_t) { return {}; }

bool basic_file::open(std::istream &in)
{
    auto &p = *p_;
    p.f = &in;
    in.seekg(0);
    char magic[4]{};
    in.read(magic, 4);
    if (in.gcount() != 4 || std::string(magic, 4) != "LASF")
        throw error("Invalid LAS file. Incorrect magic number.");
    in.seekg(0);
    p.head.read(in);
    if (in.gcount() != 375)
        throw error("Couldn't read LAS header.");
    if (p.head.point_format_id & 0x80)
        p.compressed = true;
    if ((p.head.point_format_id & 0x40) && p.compressed)
        throw error("Invalid LAZ compression bits.");
    p.head.point_format_id &= 0x3f;
    if (p.head.header_size < 227)
        throw error("Invalid header size.");
    // find the LAZ VLR
    in.seekg(p.head.header_size);
    bool found = false;
    for (uint32_t i = 0; i < p.head.vlr_count && in.good(); i++)
    {
        vlr_header h = vlr_header::create(in);
        if (!in.good())
            break;
        std::streampos at = in.tellg();
        if (h.user_id == "laszip encoded" && h.record_id == 22204)
        {
            p.laz = laz_vlr::create(in);
            found = true;
        }
        in.seekg(at + (std::streamoff)h.data_length);
    }
    in.clear();
    if (p.compressed)
    {
        if (!found)
            throw error("Couldn't find LASZIP VLR.");
        in.seekg((std::streamoff)p.head.point_offset);
        uint64_t off = 0;
        in.read(reinterpret_cast<char *>(&off), 8);
        if (in.gcount() != 8)
            throw error("Couldn't read chunk table offset.");
        in.seekg((std::streamoff)off);
        uint32_t version = 0, n = 0;
        in.read(reinterpret_cast<char *>(&version), 4);
        in.read(reinterpret_cast<char *>(&n), 4);
        if (!in.good())
            throw error("Couldn't read chunk table.");
        if (version != 0)
            throw error("Invalid version in chunk table.");
        if (n)
        {
            InFileStream s(in);
            p.chunks = decompress_chunk_table(s.cb(), n, p.laz.chunk_size == 0xFFFFFFFFu);
            uint64_t at = (uint64_t)p.head.point_offset + 8;
            for (auto &c : p.chunks)
            {
                uint64_t size = c.offset;
                c.offset = at;
                at += size;
            }
        }
        in.clear();
        in.seekg((std::streamoff)p.head.point_offset + 8);
    }
    else
        in.seekg((std::streamoff)p.head.point_offset);
    p.stream.reset(new InFileStream(in));
    return true;
}
void basic_file::readPoint(char *out)
{
    auto &p = *p_;
    if (p.read >= p.head.point_count_14)
        throw error("Read past the last point.");
    if (!p.compressed)
    {
        p.stream->cb()(reinterpret_cast<unsigned char *>(out), p.head.point_record_length);
        p.read++;
        return;
    }
    if (!p.dec || p.inChunk == p.chunks[p.cur].count)
    {
        if (p.dec)
            p.cur++;
        if (p.cur >= p.chunks.size())
            throw error("Read past the last chunk.");
        p.dec = build_las_decompressor(p.stream->cb(), p.head.point_format_id, p.head.ebCount());
        if (!p.dec)
            throw error("Unsupported point format.");
        p.inChunk = 0;
    }
    p.dec->decompress(out);
    p.inChunk++;
    p.read++;
}
generic_file::generic_file(std::istream &in) { open(in); }
generic_file::~generic_file() = default;
} // namespace reader
} // namespace lazperf
