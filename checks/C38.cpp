// C38: what does not fit the format's fields is refused, and what fits is stored right, however large the file.
#include "hist.hpp"
#include <copc-lib/laz/decompressor.hpp>

namespace
{
// A file of any size: small writes are kept, writes out of a known big buffer are referred to, zeros are not kept.
struct BigBuf : std::streambuf
{
    struct Seg
    {
        uint64_t at, n;
        const char *big; // or
        std::string own;
    };
    static const char *big_data;
    static uint64_t big_size;
    std::map<uint64_t, Seg> segs; // by position, not overlapping
    uint64_t pos = 0, size = 0;
    bool reading = false;

    static constexpr uint64_t PAGE = 1 << 16;
    void cut(uint64_t a, uint64_t b) // forget what is in [a, b)
    {
        auto it = segs.upper_bound(a);
        if (it != segs.begin())
            --it;
        std::vector<Seg> back;
        while (it != segs.end() && it->first < b)
        {
            Seg s = it->second;
            if (s.at + s.n <= a)
            {
                ++it;
                continue;
            }
            it = segs.erase(it);
            if (s.at < a)
                back.push_back({s.at, a - s.at, s.big, s.big ? std::string() : s.own.substr(0, a - s.at)});
            if (s.at + s.n > b)
                back.push_back({b, s.at + s.n - b, s.big ? s.big + (b - s.at) : nullptr, s.big ? std::string() : s.own.substr(b - s.at)});
        }
        for (auto &s : back)
            segs[s.at] = s;
    }
    std::streamsize xsputn(const char *p, std::streamsize n) override
    {
        uint64_t a = pos, b = pos + (uint64_t)n;
        if (n == 0)
            return 0;
        if (a < size)
            cut(a, b);
        if (p >= big_data && p + n <= big_data + big_size)
            segs[a] = {a, (uint64_t)n, p, ""};
        else if (n < (std::streamsize)(4 * PAGE))
        {
            // join small writes
            auto it = segs.lower_bound(a);
            if (it != segs.begin() && (--it, it->second.at + it->second.n == a && !it->second.big && it->second.n < PAGE))
                it->second.own.append(p, (size_t)n), it->second.n += (uint64_t)n;
            else
                segs[a] = {a, (uint64_t)n, nullptr, std::string(p, (size_t)n)};
        }
        else
            for (uint64_t i = 0; i < (uint64_t)n; i += PAGE)
            {
                static const std::string zeros(PAGE, '\0');
                uint64_t m = std::min(PAGE, (uint64_t)n - i);
                if (std::memcmp(p + i, zeros.data(), m) != 0)
                    segs[a + i] = {a + i, m, nullptr, std::string(p + i, m)};
            }
        pos = b;
        size = std::max(size, b);
        return n;
    }
    int_type overflow(int_type ch) override
    {
        char x = traits_type::to_char_type(ch);
        return xsputn(&x, 1) == 1 ? ch : traits_type::eof();
    }
    std::streamsize xsgetn(char *out, std::streamsize want) override
    {
        uint64_t n = pos >= size ? 0 : std::min((uint64_t)want, size - pos), a = pos, b = pos + n;
        std::memset(out, 0, n);
        auto it = segs.upper_bound(a);
        if (it != segs.begin())
            --it;
        for (; it != segs.end() && it->first < b; ++it)
        {
            auto &s = it->second;
            uint64_t f = std::max(a, s.at), t = std::min(b, s.at + s.n);
            if (f < t)
                std::memcpy(out + (f - a), (s.big ? s.big : s.own.data()) + (f - s.at), t - f);
        }
        pos = b;
        return (std::streamsize)n;
    }
    char cur = 0;
    int_type underflow() override
    {
        setg(&cur, &cur, &cur);
        uint64_t p = pos;
        int_type r = xsgetn(&cur, 1) == 1 ? traits_type::to_int_type(cur) : traits_type::eof();
        pos = p;
        return r;
    }
    int_type uflow() override { return xsgetn(&cur, 1) == 1 ? traits_type::to_int_type(cur) : traits_type::eof(); }
    pos_type seekoff(off_type o, std::ios::seekdir d, std::ios::openmode) override
    {
        off_type n = (d == std::ios::beg ? 0 : d == std::ios::cur ? (off_type)pos : (off_type)size) + o;
        if (n < 0)
            return pos_type(off_type(-1));
        pos = (uint64_t)n;
        return pos_type(n);
    }
    pos_type seekpos(pos_type p, std::ios::openmode m) override { return seekoff(off_type(p), std::ios::beg, m); }
    std::string read(uint64_t at, uint64_t n)
    {
        std::string o(n, '\0');
        pos = at;
        o.resize((size_t)xsgetn(&o[0], (std::streamsize)n));
        return o;
    }
};
const char *BigBuf::big_data = nullptr;
uint64_t BigBuf::big_size = 0;

const uint64_t LIMIT = INT32_MAX;
std::vector<char> &big(uint64_t n) // n bytes (at most LIMIT + 1), zeros but for a few
{
    static std::vector<char> v;
    if (v.empty())
    {
        v.resize(LIMIT + 1);
        BigBuf::big_data = v.data(), BigBuf::big_size = v.size();
        for (uint64_t i = 0; i < v.size(); i += 99999989)
            v[i] = (char)(1 + i % 127);
    }
    v.resize(n);
    return v;
}
struct Chunk
{
    K key, page;
    int32_t count;
    std::string recs;  // small chunks
    uint64_t huge = 0; // or the size of one out of the big buffer
    uint64_t off = 0, size = 0;
};
// The parts of a large file other than its chunks, checked against what was added.
void check_big(Ctx &c, BigBuf &b, std::vector<Chunk> &chunks, bool copc, int fmt, int eb)
{
    auto head = b.read(0, 375);
    auto h = w::Hdr::parse(head);
    uint64_t at = h.point_offset + 8u, total = 0;
    c.eq((int)h.rec_len, w::base_size(fmt) + eb, "record length");
    uint64_t table = w::get<uint64_t>(b.read(h.point_offset, 8), 0);
    auto t = b.read(table, 1 << 16);
    c.check(t.size() >= 8 && w::get<uint32_t>(t, 0) == 0 && w::get<uint32_t>(t, 4) == chunks.size(), "chunk table",
            cat("chunk table at ", table, " of ", b.size, " lists ", t.size() >= 8 ? w::get<uint32_t>(t, 4) : 0, " chunks instead of ", chunks.size()));
    size_t pos = 8;
    std::vector<lazperf::chunk> tab;
    try
    {
        tab = lazperf::decompress_chunk_table(
            [&](unsigned char *p, size_t n)
            {
                w::need(pos + n <= t.size(), "chunk table ends early");
                std::memcpy(p, t.data() + pos, n);
                pos += n;
            },
            chunks.size(), true);
    }
    catch (std::exception &e)
    {
        c.fail("chunk table", e.what());
    }
    for (size_t i = 0; i < chunks.size(); i++)
    {
        auto &k = chunks[i];
        k.off = at;
        k.size = k.huge ? k.huge : w::encode_chunk(k.recs, fmt, eb).size();
        c.eq(tab[i].offset, k.size, cat("size of chunk ", i));
        c.eq(tab[i].count, (uint64_t)k.count, cat("points of chunk ", i));
        if (k.huge)
            c.check(b.read(at, 100) == std::string(BigBuf::big_data, 100) &&
                        b.read(at + k.huge - 100, 100) == std::string(BigBuf::big_data + k.huge - 100, 100), "chunk", cat("bytes of chunk ", i));
        else
            c.check(b.read(at, k.size) == w::encode_chunk(k.recs, fmt, eb), "chunk", cat("bytes of chunk ", i));
        at += k.size;
        total += (uint64_t)k.count;
    }
    // a chunk that turned out to be too large may leave its bytes behind the last one
    c.check(table >= at, "chunk table", cat("chunk table at ", table, ", chunks end at ", at));
    c.eq(h.count, total, "point count");
    c.check(h.legacy_count == 0 || h.legacy_count == total, "legacy point count", cat(h.legacy_count, " of ", total));
    if (h.evlr_count)
        c.eq(h.evlr_offset, table + pos, "EVLR offset");
    at = table + pos;
    std::map<uint64_t, std::string> pages;
    std::string wkt;
    for (uint32_t i = 0; i < h.evlr_count; i++)
    {
        auto e = b.read(at, 60);
        c.eq(e.size(), (size_t)60, "EVLR header");
        auto n = w::get<uint64_t>(e, 20);
        if (e.substr(2, 4) == "copc" && w::get<uint16_t>(e, 18) == 1000)
            pages[at + 60] = b.read(at + 60, n);
        else
            wkt += b.read(at + 60, n);
        at += 60 + n;
    }
    c.eq(at, b.size, "end of the file");
    c.eq(wkt, std::string("GEOGCS[]"), "WKT");
    if (!copc)
        return;
    auto info = b.read(375 + 54, 160);
    std::map<K, w::Entry> nodes;
    std::map<K, K> page_of;
    std::set<K> page_keys;
    std::vector<std::tuple<K, uint64_t, uint64_t>> todo{{K{}, w::get<uint64_t>(info, 40), w::get<uint64_t>(info, 48)}};
    while (!todo.empty())
    {
        auto [key, off, size] = todo.back();
        todo.pop_back();
        page_keys.insert(key);
        c.check(pages.count(off) && pages[off].size() == size, "page", cat("page ", key, " at ", off, " of ", size, " bytes is not one of the EVLRs"));
        for (size_t i = 0; i < size; i += 32)
        {
            w::Entry e;
            auto &p = pages[off];
            e.key = {w::get<int32_t>(p, i), w::get<int32_t>(p, i + 4), w::get<int32_t>(p, i + 8), w::get<int32_t>(p, i + 12)};
            e.off = w::get<uint64_t>(p, i + 16), e.size = w::get<int32_t>(p, i + 24), e.count = w::get<int32_t>(p, i + 28);
            if (e.count == -1)
                todo.push_back({e.key, e.off, (uint64_t)e.size});
            else
            {
                c.check(!nodes.count(e.key), "entry", cat("node ", e.key, " is entered twice"));
                nodes[e.key] = e, page_of[e.key] = key;
            }
        }
    }
    c.eq(page_keys.size(), pages.size(), "number of pages");
    c.eq(nodes.size(), chunks.size(), "number of entries");
    // refused chunks leave no page either
    std::set<K> held{K{}};
    for (auto &k : chunks)
        held.insert(k.page);
    c.check(page_keys == held, "pages", cat("the file has ", page_keys.size(), " pages, ", held.size(), " hold nodes"));
    for (auto &k : chunks)
    {
        c.check(nodes.count(k.key), "entry", cat("node ", k.key, " has no entry"));
        auto &e = nodes[k.key];
        c.check(e.off == k.off && (uint64_t)e.size == k.size && e.count == k.count && page_of[k.key] == k.page, "entry",
                cat("entry of ", k.key, " says offset ", e.off, " size ", e.size, " count ", e.count, ", not ", k.off, " ", k.size, " ", k.count));
    }
}

cl::EbVlr many(int n, int type, int options)
{
    cl::EbVlr e(0);
    for (int i = 0; i < n; i++)
    {
        w::EbItem f;
        f.type = (uint8_t)type, f.options = (uint8_t)options, f.name = cat("dim", i);
        e.addField(eb_field(f));
    }
    return e;
}
} // namespace

MC_SCENARIOS
{
    // Files beyond 2 and 4 GiB
    mc::add("huge", [](Ctx &c)
    {
        bool copc = !c.flip("LAZ");
        const int fmt = 7, eb = 28; // records of 64 bytes
        BigBuf buf;
        std::iostream s(&buf);
        std::vector<Chunk> chunks;
        big(LIMIT + 1);
        int huge = 0;
        int depth = mc::thorough() ? 5 : 4;
        Spec sp;
        sp.fmt = fmt, sp.wkt = "GEOGCS[]", sp.ebs = eb_raw(eb);
        std::unique_ptr<copc::Writer> cw;
        std::unique_ptr<copc::laz::LazWriter> lw;
        if (copc)
            cw.reset(new copc::Writer(s, make_cfg(sp)));
        else
            lw.reset(new copc::laz::LazWriter(s, make_laz_cfg(sp)));
        std::string st;
        for (int i = 0; i < depth; i++)
        {
            int op = c.choose(mc::thorough() ? 6 : 5, "op");
            K key{2, i % 4, (i / 4) % 4, 0};
            Chunk k;
            k.key = key, k.page = i % 2 ? K{1, key.x / 2, key.y / 2, 0} : K{};
            bool threw;
            switch (op)
            {
            case 0: // stop
                i = depth;
                continue;
            case 1: // a few points
                c.op("a few points");
                k.count = 3, k.recs = w::make_recs(fmt, eb, i, 3);
                if (copc)
                    cw->AddNode(vk(k.key), to_points(fmt, eb, i, 3, sp.scale, sp.offset), vk(k.page));
                else
                    lw->WritePoints(to_points(fmt, eb, i, 3, sp.scale, sp.offset));
                break;
            case 2: // as large as can be
            {
                c.op("a chunk of 2^31-1 bytes");
                k.count = INT32_MAX, k.huge = LIMIT;
                auto &v = big(LIMIT);
                if (copc)
                    cw->AddNodeCompressed(vk(k.key), v, k.count, vk(k.page));
                else
                    lw->WritePointsCompressed(v, k.count);
                huge++;
                break;
            }
            case 3: // too large
            {
                c.op("a chunk of 2^31 bytes");
                auto &v = big(LIMIT + 1);
                threw = throws([&] { copc ? (void)cw->AddNodeCompressed(vk(k.key), v, 5, vk(k.page)) : lw->WritePointsCompressed(v, 5); });
                c.check(threw, "size of a chunk", "a chunk of 2^31 bytes was accepted");
                st += "!";
                continue;
            }
            case 4: // too large uncompressed (COPC only)
            {
                if (!copc)
                    return;
                auto &v = big(LIMIT + 1);
                c.op("raw data of 2^31 bytes");
                threw = throws([&] { cw->AddNode(vk(k.key), v, vk(k.page)); });
                c.check(threw, "size of point data", "raw data of 2^31 bytes was accepted");
                st += "?";
                continue;
            }
            case 5: // of middling size
            {
                c.op("a chunk of 2^30 bytes");
                k.count = 1 << 30, k.huge = 1 << 30;
                auto &v = big(k.huge);
                if (copc)
                    cw->AddNodeCompressed(vk(k.key), v, k.count, vk(k.page));
                else
                    lw->WritePointsCompressed(v, k.count);
                huge++;
                break;
            }
            }
            chunks.push_back(k);
            st += cat(op, k.key);
        }
        if (copc)
            cw->Close();
        else
            lw->Close();
        check_big(c, buf, chunks, copc, fmt, eb);
        c.state(cat(copc, st));
        // and back
        s.clear();
        s.seekg(0);
        if (!copc)
        {
            copc::laz::LazReader r(&s);
            uint64_t total = 0;
            for (auto &k : chunks)
                total += (uint64_t)k.count;
            c.eq(r.LazConfig().LasHeader().PointCount(), total, "PointCount");
            c.eq(r.LazConfig().Wkt(), std::string("GEOGCS[]"), "WKT");
            if (!huge)
                c.eq(str(r.GetPointData()).size(), (size_t)total * 64, "GetPointData");
            return;
        }
        copc::Reader r(&s);
        c.eq(r.CopcConfig().Wkt(), std::string("GEOGCS[]"), "WKT");
        c.eq(r.GetAllChildrenOfPage(copc::VoxelKey::RootKey()).size(), chunks.size(), "listing");
        bool read_big = huge && huge == (int)chunks.size() && huge == 3;
        for (auto &k : chunks)
        {
            auto n = r.FindNode(vk(k.key));
            c.check(n.IsValid() && n.offset == k.off && (uint64_t)n.byte_size == k.size && n.point_count == k.count && kk(n.page_key) == k.page, "node",
                    cat("node ", k.key, " is read as ", node_str(n)));
            if (!k.huge)
            {
                c.check(str(r.GetPointData(n)) == k.recs, "points", cat("points of node ", k.key));
                c.check(str(r.GetPointDataCompressed(vk(k.key))) == w::encode_chunk(k.recs, fmt, eb), "compressed points", cat("chunk of node ", k.key));
            }
            else if (read_big && &k == &chunks.back())
            {
                auto v = r.GetPointDataCompressed(n);
                c.check(v.size() == k.huge && std::memcmp(v.data(), BigBuf::big_data, v.size()) == 0, "compressed points", cat("chunk of node ", k.key));
            }
        }
        c.outcome(cat(chunks.size(), huge));
    }, 0, 3);

    // Configurations around the limits of the record length and of the extra bytes VLR
    mc::add("extra bytes", [](Ctx &c)
    {
        bool copc = !c.flip("LAZ");
        int fmt = 6 + c.choose(3, "format");
        int kind = c.choose(3, "limit");
        cl::EbVlr eb;
        uint64_t len;
        if (kind == 0) // number of items
        {
            int n = c.pick(std::vector<int>{340, 341, 342, 343, 682, 683, 1000}, "items");
            eb = many(n, 1, 0), len = (uint64_t)n;
        }
        else if (kind == 1) // bytes
        {
            int below = c.pick(std::vector<int>{-300, -40, -38, -37, -36, -31, -30, -29, -9, -8, -7, -6, -5, -3, -2, -1, 0, 1, 2, 3, 255, 1000}, "bytes beyond");
            int n = 65535 - w::base_size(6) + below + 1;
            eb = eb_vlr_of(eb_raw(n)), len = (uint64_t)n;
        }
        else // both
        {
            int n = c.pick(std::vector<int>{257, 258, 341, 342, 600}, "items");
            eb = many(n, 0, 255), len = (uint64_t)n * 255;
        }
        bool fits_rec = (uint64_t)w::base_size(fmt) + len <= 65535, fits_vlr = eb.items.size() * 192 <= 65535;
        // given to the configuration, as override, or to another format's configuration
        int how = copc ? c.choose(3, "how") : 0;
        std::stringstream out;
        Rec one = w::make_rec(fmt, fits_rec ? (int)len : 0, 5);
        std::string what = cat(eb.items.size(), " items of ", len, " bytes, format ", fmt);
        bool threw = throws([&]
        {
            copc::Vector3 sc(0.01, 0.01, 0.01), of(0, 0, 0);
            if (copc)
            {
                copc::CopcConfigWriter cfg = how == 0 ? copc::CopcConfigWriter((int8_t)fmt, sc, of, "", eb) : copc::CopcConfigWriter((int8_t)(how == 2 ? 6 : fmt), sc, of);
                std::unique_ptr<copc::Writer> wr;
                if (how == 0)
                    wr.reset(new copc::Writer(out, cfg));
                else if (how == 1)
                    wr.reset(new copc::Writer(out, cfg, {}, {}, {}, {}, eb));
                else
                    wr.reset(new copc::Writer(out, cfg, (int8_t)fmt, {}, {}, {}, eb));
                wr->AddNode(copc::VoxelKey::RootKey(), vec(one.bytes()));
                wr->Close();
            }
            else
            {
                cl::LazConfigWriter cfg((int8_t)fmt, sc, of, "", eb);
                copc::laz::LazWriter wr(out, cfg);
                cl::Points ps((int8_t)fmt, (uint16_t)len);
                ps.AddPoint(to_point(one, sc, of));
                wr.WritePoints(ps);
                wr.Close();
            }
        });
        c.op(what);
        c.check(threw == !(fits_rec && fits_vlr), "limit", cat(what, threw ? " are refused" : " are accepted"));
        c.state(cat(copc, how, what));
        if (threw)
            return;
        auto f = parse_or_fail(c, out.str(), copc);
        c.check(f.points == one.bytes(), "points", "points differ");
        out.clear();
        out.seekg(0);
        if (copc)
        {
            copc::Reader r(&out);
            c.check(str(r.GetPointData(copc::VoxelKey::RootKey())) == one.bytes(), "points", "points read differ");
            c.check(r.CopcConfig().ExtraBytesVlr().items.size() == eb.items.size(), "extra bytes", "number of items read");
            c.eq((uint64_t)r.CopcConfig().LasHeader().EbByteSize(), len, "EbByteSize");
        }
        else
        {
            copc::laz::LazReader r(&out);
            c.check(str(r.GetPointData()) == one.bytes(), "points", "points read differ");
            c.check(r.LazConfig().ExtraBytesVlr().items.size() == eb.items.size(), "extra bytes", "number of items read");
        }
    }, 0, 2);

    // A file whose extra bytes record is longer than a VLR can be (an EVLR) can be read but not copied
    mc::add("long descriptions", [](Ctx &c)
    {
        int n = c.pick(std::vector<int>{341, 342, 700}, "items");
        w::Builder b;
        b.fmt = 6;
        for (int i = 0; i < n; i++)
        {
            w::EbItem f;
            f.type = 1, f.name = cat("d", i);
            b.ebs.push_back(f);
        }
        b.eb_place = 2;
        w::BNode nd;
        nd.n = 2, nd.seed = 3;
        b.nodes.push_back(nd);
        std::stringstream in(b.build());
        copc::Reader r(&in);
        c.eq(r.CopcConfig().ExtraBytesVlr().items.size(), (size_t)n, "items read");
        auto data = r.GetPointData(copc::VoxelKey::RootKey());
        std::stringstream out;
        bool threw = throws([&]
        {
            copc::CopcConfigWriter cfg(r.CopcConfig());
            copc::Writer wr(out, cfg);
            wr.AddNode(copc::VoxelKey::RootKey(), data);
            wr.Close();
        });
        c.check(threw == (n > 341), "copy", cat("copying ", n, " descriptions ", threw ? "is refused" : "is accepted"));
        if (!threw)
            parse_or_fail(c, out.str(), true);
        c.state(cat(n));
    });

    // Points, collections and codecs with the longest records
    mc::add("records", [](Ctx &c)
    {
        int fmt = 6 + c.choose(3, "format");
        int len = c.pick(std::vector<int>{65500, 65530, 65534, 65535, 65536, 65537, 65541, 65543, 65565, 65566}, "record length");
        int eb = len - w::base_size(fmt);
        if (eb > 65535)
            return;
        bool ok = len <= 65535;
        c.op(cat("format ", fmt, " with ", eb, " extra bytes"));
        c.state(cat(fmt, len));
        auto want = [&](bool threw, const char *what) { c.check(threw == !ok, what, cat(what, threw ? " refused " : " accepted ", eb, " extra bytes for format ", fmt)); };
        want(throws([&] { cl::PointByteSize((int8_t)fmt, (uint16_t)eb); }), "PointByteSize");
        want(throws([&] { cl::Points p((int8_t)fmt, (uint16_t)eb); }), "Points");
        std::string recs = ok ? w::make_recs(fmt, eb, 3, 2) : std::string((size_t)(len % 65536) * 2, 'x');
        copc::Vector3 sc(0.01, 0.01, 0.01), of(0, 0, 0);
        want(throws([&] { cl::Points::Unpack(vec(recs), (int8_t)fmt, (uint16_t)eb, sc, of); }), "Unpack");
        std::vector<char> comp;
        want(throws([&] { comp = copc::laz::Compressor::CompressBytes(vec(recs), (int8_t)fmt, (uint16_t)eb); }), "CompressBytes");
        want(throws([&]
        {
            auto v = copc::laz::Decompressor::DecompressBytes(comp, (int8_t)fmt, (uint16_t)eb, 2);
            if (ok)
                c.check(str(v) == recs, "DecompressBytes", "other records");
        }), "DecompressBytes");
        if (!ok)
            return;
        // conversion to a longer format
        int to = 6 + c.choose(3, "new format");
        bool fits = w::base_size(to) + eb <= 65535;
        auto ps = cl::Points::Unpack(vec(recs), (int8_t)fmt, (uint16_t)eb, sc, of);
        auto one = cl::Point(*ps.Get(0));
        one.ToPointFormat((int8_t)to); // only collections have a limit
        bool t2 = throws([&] { ps.ToPointFormat((int8_t)to); });
        c.check(t2 == !fits, "conversion", cat("conversion of points of ", len, " bytes to format ", to, t2 ? " is refused" : " is accepted"));
        int now = fits ? to : fmt;
        c.check(one.PointFormatId() == to && (int)one.EbByteSize() == eb && (int)one.PointRecordLength() == w::base_size(to) + eb, "conversion", "point after conversion");
        c.check(ps.PointFormatId() == now && (int)ps.EbByteSize() == eb && (int)ps.PointRecordLength() == w::base_size(now) + eb, "conversion", "collection after conversion");
        for (auto &p : ps)
            c.check(p->PointFormatId() == now && (int)p->EbByteSize() == eb, "conversion", "points after conversion");
        if (!fits)
            c.check(str(ps.Pack(sc, of)) == recs, "conversion", "a refused conversion changed the points");
        ps.AddPoint(ps.CreatePoint());
        c.eq(ps.Pack(sc, of).size(), (size_t)3 * (size_t)(w::base_size(now) + eb), "packed size");
    });
}
