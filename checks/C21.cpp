// C21: compression and decompression are inverse, and the stream stays usable.
#include "faulty.hpp"

using copc::laz::Compressor;
using copc::laz::Decompressor;

// Records: 0 patterned, 1 zeros, 2 ones, 3 all the same, 4 every byte different
static std::string content(int kind, int fmt, int eb, int n)
{
    size_t len = (size_t)(w::base_size(fmt) + eb);
    if (kind == 0)
        return w::make_recs(fmt, eb, 5, n);
    if (kind == 3)
    {
        std::string one = w::make_rec(fmt, eb, 9).bytes(), o;
        for (int i = 0; i < n; i++)
            o += one;
        return o;
    }
    std::string o(len * (size_t)n, kind == 1 ? '\0' : '\xff');
    if (kind == 4)
        for (size_t i = 0; i < o.size(); i++)
            o[i] = (char)(i * 37 + i / 251 + i / len * 11);
    return o;
}
static cl::LasHeader header(int fmt, int eb)
{
    // the header's extra-byte size is that of its record length
    Spec s;
    s.fmt = fmt;
    s.ebs = eb_raw(eb);
    return *make_laz_cfg(s).LasHeader();
}
static const char *const CROUTE[] = {"stream, format", "stream, header", "buffer, format", "buffer, header"};
static std::string compress(Ctx &c, int route, int fmt, int eb, const std::string &recs, std::ostream *into = nullptr)
{
    auto in = vec(recs);
    int n = (int)(recs.size() / (size_t)(w::base_size(fmt) + eb));
    std::string out;
    std::ostringstream own;
    std::ostream &o = into ? *into : own;
    switch (route)
    {
    case 0:
        c.eq(Compressor::CompressBytes(o, (int8_t)fmt, (uint16_t)eb, in), n, "count returned");
        out = own.str();
        break;
    case 1:
        c.eq(Compressor::CompressBytes(o, header(fmt, eb), in), n, "count returned");
        out = own.str();
        break;
    case 2:
        out = str(Compressor::CompressBytes(in, (int8_t)fmt, (uint16_t)eb));
        break;
    default:
        out = str(Compressor::CompressBytes(in, header(fmt, eb)));
    }
    c.check(str(in) == recs, "input changed", "compressing changed its input");
    return out;
}
static std::string decompress(Ctx &c, int route, int fmt, int eb, const std::string &comp, int n)
{
    auto in = vec(comp);
    std::istringstream s(comp);
    std::string o;
    switch (route)
    {
    case 0:
        o = str(Decompressor::DecompressBytes(s, (int8_t)fmt, (uint16_t)eb, n));
        break;
    case 1:
        o = str(Decompressor::DecompressBytes(s, header(fmt, eb), n));
        break;
    case 2:
        o = str(Decompressor::DecompressBytes(in, (int8_t)fmt, (uint16_t)eb, n));
        break;
    default:
        o = str(Decompressor::DecompressBytes(in, header(fmt, eb), n));
    }
    c.check(str(in) == comp, "input changed", "decompressing changed its input");
    if (route < 2)
    {
        c.check(s.good(), "stream state", "the stream is not good after decompressing");
        s.seekg(0);
        std::string b(comp.size(), '\0');
        s.read(&b[0], (std::streamsize)b.size());
        c.check(s.gcount() == (std::streamsize)comp.size() && b == comp, "stream unusable", "the stream can't be read again");
    }
    return o;
}

static void roundtrip(Ctx &c, int fmt, int eb, int n, int kind, int cr, int dr)
{
    auto recs = content(kind, fmt, eb, n);
    c.op(cat("format ", fmt, " extra bytes ", eb, " points ", n, " by ", CROUTE[cr], "; ", CROUTE[dr]));
    auto comp = compress(c, cr, fmt, eb, recs);
    size_t used = 0;
    std::string ref;
    try
    {
        ref = w::decode_chunk(comp, (size_t)n, fmt, eb, &used);
    }
    catch (w::Bad &b)
    {
        c.fail("not decodable", cat("compressed data is no chunk: ", b.what()));
    }
    c.check(ref == recs, "compressed", "compressed data does not decode to the records");
    if (n)
        c.eq(used, comp.size(), "bytes written beyond the chunk");
    c.check(decompress(c, dr, fmt, eb, comp, n) == recs, "decompressed", "decompressing does not give the records back");
    c.state(cat(fmt, "/", eb, "/", n, "/", kind, "/", cr, dr));
}

MC_SCENARIOS
{
    mc::add("roundtrip", [](Ctx &c)
    {
        static const std::vector<int> EB{0, 1, 2, 3, 4, 5, 7, 8, 16, 27, 64, 127, 128, 192, 200, 217, 218, 219, 220, 225, 226, 227, 255, 256, 257, 300, 512, 1000, 4000};
        int fmt = 6 + c.choose(3, "format");
        int eb = c.pick(EB, "extra bytes");
        int n = c.choose(mc::thorough() ? 12 : 6, "points");
        int kind = c.choose(5, "content");
        int cr = c.choose(4, "compress"), dr = c.choose(4, "decompress");
        roundtrip(c, fmt, eb, n, kind, cr, dr);
    }, 0, 4);
    mc::add("every extra-byte size", [](Ctx &c)
    {
        int fmt = 6 + c.choose(3, "format");
        int eb = c.choose(mc::thorough() ? 2000 : 600, "extra bytes");
        int r = c.choose(4, "route");
        roundtrip(c, fmt, eb, 2, 4, r, r);
    });
    mc::add("largest records", [](Ctx &c)
    {
        int fmt = 6 + c.choose(3, "format");
        static const std::vector<int> left{0, 1, 2, 100};
        int eb = 65535 - w::base_size(fmt) - c.pick(left, "below the largest");
        int r = c.choose(4, "route");
        int dr = c.choose(4, "route back");
        if (dr != r && !mc::thorough())
            return;
        roundtrip(c, fmt, eb, 2, 4, r, dr);
    });
    mc::add("every count", [](Ctx &c)
    {
        int fmt = 6 + c.choose(3, "format");
        static const std::vector<int> EB{0, 3, 230};
        int eb = c.pick(EB, "extra bytes");
        int N = mc::thorough() ? 700 : 300;
        int n = c.choose(N + 4, "points");
        n = n < N ? n : n == N ? 5000 : n == N + 1 ? 32768 : n == N + 2 ? 65536 : 70001;
        int r = c.choose(4, "route");
        if (n > N && eb > 3)
            return;
        roundtrip(c, fmt, eb, n, 0, r, r);
    }, 0, 2);
    // a shorter count gives the first records, whatever follows them
    mc::add("prefix", [](Ctx &c)
    {
        int fmt = 6 + c.choose(3, "format");
        static const std::vector<int> EB{0, 2, 260};
        int eb = c.pick(EB, "extra bytes");
        int n = 1 + c.choose(8, "points"), k = c.choose(n + 2, "asked for");
        int tail = c.choose(3, "bytes after it");
        int r = c.choose(4, "route");
        k -= 1; // -1: a negative count
        auto recs = content(4, fmt, eb, n);
        auto comp = w::encode_chunk(recs, fmt, eb) + std::string(tail == 0 ? 0 : tail == 1 ? 3 : 100000, 'z');
        c.op(cat(k, " of ", n));
        auto got = decompress(c, r, fmt, eb, comp, k);
        c.check(got == recs.substr(0, (size_t)std::max(k, 0) * (size_t)(w::base_size(fmt) + eb)), "prefix", cat("decompressing ", k, " of ", n, " points"));
        c.state(cat(fmt, eb, "/", n, "/", k, "/", tail));
    });
    // input of every size: whole records only
    mc::add("every input size", [](Ctx &c)
    {
        int fmt = 6 + c.choose(3, "format");
        static const std::vector<int> EB{0, 1, 2, 6, 8, 226, 300};
        int eb = c.pick(EB, "extra bytes");
        int len = w::base_size(fmt) + eb;
        int n = c.choose(3 * len + 2, "bytes");
        int r = c.choose(4, "route");
        auto recs = content(4, fmt, eb, 4).substr(0, (size_t)n);
        std::stringstream s;
        s << "before";
        auto in = vec(recs);
        c.op(cat(n, " bytes, record length ", len));
        std::string out;
        bool ok = !throws([&] { out = compress(c, r, fmt, eb, recs, r < 2 ? (std::ostream *)&s : nullptr); });
        c.eq(ok, n % len == 0, "accepted exactly whole records");
        if (r < 2)
        {
            c.check(s.good(), "stream state", "output stream not good");
            out = s.str();
            c.check(out.substr(0, 6) == "before", "overwritten", "data before the chunk changed");
            out = out.substr(6);
            if (!ok)
                c.check(out.empty(), "partial output", "rejected input left something in the stream");
        }
        if (ok)
            c.check(w::decode_chunk(out, (size_t)(n / len), fmt, eb) == recs, "compressed", "does not decode");
        c.state(cat(fmt, eb, "/", n, ok));
    }, 0, 2);
    // one stream with several chunks and plain data, written and read in any order
    mc::add("write histories", [](Ctx &c)
    {
        int L = mc::thorough() ? 6 : 4;
        int kind = c.choose(3, "stream"); // string stream, file, overwriting an existing content
        std::string path;
        std::stringstream ss;
        std::fstream fs;
        if (kind == 1)
        {
            path = scratch_file("c21");
            fs.open(path, std::ios::in | std::ios::out | std::ios::binary | std::ios::trunc);
        }
        std::ostream &o = kind == 1 ? (std::ostream &)fs : ss;
        if (kind == 2)
        {
            ss << std::string(3000, 'q');
            ss.seekp(0);
        }
        struct Piece
        {
            int fmt, eb, n;
            std::string recs, raw;
            size_t at, len;
        };
        std::vector<Piece> pieces;
        for (int k = 0; k < L; k++)
        {
            int a = c.choose(7, "write");
            if (a == 6)
                break;
            Piece p{6, 0, 0, "", "", (size_t)o.tellp(), 0};
            if (a == 0)
            {
                p.raw = cat("plain", k);
                o << p.raw;
            }
            else
            {
                p.fmt = a == 1 ? 6 : a == 2 ? 7 : a == 3 ? 8 : a == 4 ? 6 : 8;
                p.eb = a == 4 ? 300 : a == 3 ? 2 : 0;
                p.n = a == 5 ? 0 : a == 1 ? 3 : 2;
                p.recs = w::make_recs(p.fmt, p.eb, 10 * k + 1, p.n);
                compress(c, k % 2, p.fmt, p.eb, p.recs, &o);
            }
            c.op(cat("write ", a));
            c.check(o.good(), "stream state", "output stream not good");
            p.len = (size_t)o.tellp() - p.at;
            pieces.push_back(p);
        }
        o.flush();
        std::string all = kind == 1 ? slurp(path) : ss.str();
        if (kind == 1)
        {
            fs.close();
            ::unlink(path.c_str());
        }
        size_t end = 0;
        for (auto &p : pieces)
        {
            std::string b = all.substr(p.at, p.len);
            c.eq(p.at, end, "position");
            end = p.at + p.len;
            if (p.raw.size())
                c.check(b == p.raw, "plain data", "plain data changed");
            else
                c.check(w::decode_chunk(b, (size_t)p.n, p.fmt, p.eb) == p.recs, "chunk", "chunk changed");
        }
        c.eq(all.size(), kind == 2 ? std::max<size_t>(3000, end) : end, "size of the stream");
        if (kind == 2 && end < 3000)
            c.check(all.substr(end) == std::string(3000 - end, 'q'), "after the chunk", "data after the chunk was changed");
        c.state(mc::hex(all, 100000));
    });
    mc::add("read histories", [](Ctx &c)
    {
        int L = mc::thorough() ? 5 : 4;
        struct Piece
        {
            int fmt, eb, n;
            std::string recs;
            size_t at;
        };
        static std::vector<Piece> pieces;
        static std::string all;
        if (all.empty())
        {
            all = "0123456789";
            int i = 0;
            for (auto q : std::vector<std::array<int, 3>>{{6, 0, 3}, {7, 2, 2}, {8, 300, 4}})
            {
                Piece p{q[0], q[1], q[2], w::make_recs(q[0], q[1], 7 + 5 * i, q[2]), all.size()};
                all += w::encode_chunk(p.recs, p.fmt, p.eb);
                all += i == 2 ? "" : cat("gap", i); // the last chunk ends the stream
                pieces.push_back(p);
                i++;
            }
        }
        int kind = c.choose(3, "stream");
        static const std::string path = []
        {
            auto p = scratch_file("c21r");
            std::ofstream(p, std::ios::binary) << all;
            return p;
        }();
        std::istringstream is(all);
        std::stringstream ss(all);
        std::ifstream fs;
        if (kind == 1)
        {
            if (slurp(path) != all)
                std::ofstream(path, std::ios::binary) << all;
            fs.open(path, std::ios::binary);
        }
        std::istream &s = kind == 0 ? (std::istream &)is : kind == 1 ? (std::istream &)fs : ss;
        for (int k = 0; k < L; k++)
        {
            int a = c.choose(10, "read");
            if (a < 6) // a chunk, all of it or its first points
            {
                auto &p = pieces[(size_t)(a / 2)];
                int n = a % 2 ? p.n : p.n - 1;
                s.seekg((std::streamoff)p.at);
                std::string got = str(k % 2 ? Decompressor::DecompressBytes(s, (int8_t)p.fmt, (uint16_t)p.eb, n)
                                            : Decompressor::DecompressBytes(s, header(p.fmt, p.eb), n));
                c.check(got == p.recs.substr(0, (size_t)n * (size_t)(w::base_size(p.fmt) + p.eb)), "chunk read", cat("chunk ", a / 2, " read in step ", k));
                c.check(s.good(), "stream state", "stream not good after decompressing");
            }
            else if (a == 6 || a == 7)
            {
                size_t at = a == 6 ? 2 : all.size() - 6;
                s.seekg((std::streamoff)at);
                char b[5];
                s.read(b, 5);
                c.check(s.good() && std::string(b, 5) == all.substr(at, 5), "plain read", "plain data can't be read after decompressing");
            }
            else if (a == 8) // the last chunk through its end, then its first bytes from where the end says
            {
                s.seekg(0, std::ios::end);
                c.check(s.good() && (size_t)s.tellg() == all.size(), "end of stream", "the end of the stream is not found");
            }
            else
                break;
            c.op(cat("read ", a));
        }
        std::string t;
        for (auto x : c.trace)
            t += cat(x, ",");
        c.state(t);
    }, 0, 2);
    mc::add("too much input", [](Ctx &c)
    {
        int r = c.choose(4, "route");
        std::vector<char> in((size_t)30 * 71582789, 0); // whole records, just above what a signed 32-bit size can hold
        std::ostringstream o;
        c.op("2 GiB");
        bool t = throws([&]
        {
            if (r == 0)
                Compressor::CompressBytes(o, (int8_t)6, (uint16_t)0, in);
            else if (r == 1)
                Compressor::CompressBytes(o, header(6, 0), in);
            else if (r == 2)
                Compressor::CompressBytes(in, (int8_t)6, (uint16_t)0);
            else
                Compressor::CompressBytes(in, header(6, 0));
        });
        c.check(t, "too much input", "more bytes than a count can hold were accepted");
        c.check(o.str().empty(), "partial output", "rejected input left something in the stream");
        c.state(cat(r));
    }, 1);
}
