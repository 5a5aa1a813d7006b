// C15: point records follow the LAS 1.4 layout.
#include "common.hpp"

static const copc::Vector3 S(0.01, 0.5, 2), O(10, -20, 0);

// Field by field from a record's bytes, by the LAS 1.4 tables (independent of Rec::bytes).
static Rec rec_from(const std::string &b, int fmt, int eb)
{
    Rec r;
    r.fmt = fmt;
    auto u8 = [&](int i) { return (unsigned)(unsigned char)b[(size_t)i]; };
    auto u16 = [&](int i) { return (uint16_t)(u8(i) | u8(i + 1) << 8); };
    auto u32 = [&](int i) { return (uint32_t)(u16(i) | (uint32_t)u16(i + 2) << 16); };
    r.x = (int32_t)u32(0);
    r.y = (int32_t)u32(4);
    r.z = (int32_t)u32(8);
    r.intensity = u16(12);
    r.rn = u8(14) % 16;
    r.nr = (uint8_t)(u8(14) / 16);
    r.synthetic = u8(15) % 2;
    r.key = u8(15) / 2 % 2;
    r.withheld = u8(15) / 4 % 2;
    r.overlap = u8(15) / 8 % 2;
    r.channel = u8(15) / 16 % 4;
    r.dir = u8(15) / 64 % 2;
    r.edge = (uint8_t)(u8(15) / 128);
    r.cls = (uint8_t)u8(16);
    r.user = (uint8_t)u8(17);
    r.angle = (int16_t)u16(18);
    r.source = u16(20);
    uint64_t g = u32(22) | (uint64_t)u32(26) << 32;
    std::memcpy(&r.gps, &g, 8);
    int at = 30;
    if (fmt >= 7)
    {
        r.r = u16(30);
        r.g = u16(32);
        r.b = u16(34);
        at = 36;
    }
    if (fmt == 8)
    {
        r.nir = u16(36);
        at = 38;
    }
    r.eb = b.substr((size_t)at, (size_t)eb);
    return r;
}
static std::string show(const Rec &r) { return mc::hex(r.bytes(), 80); }

static void same_fields(Ctx &c, const cl::Point &p, const Rec &want, const char *what)
{
    Rec got = to_rec(p, S, O);
    c.check(got.bytes() == want.bytes(), what, cat(what, ": fields ", show(got), " want ", show(want)));
    c.check(p.EbByteSize() == want.eb.size() && p.PointFormatId() == want.fmt &&
                p.PointRecordLength() == w::base_size(want.fmt) + want.eb.size(),
            "shape", cat(what, ": format, extra bytes or record length wrong"));
    c.check(p.HasRgb() == (want.fmt >= 7) && p.HasNir() == (want.fmt == 8), "shape", "HasRgb / HasNir");
}
static void check_rec(Ctx &c, const Rec &want)
{
    int fmt = want.fmt, eb = (int)want.eb.size();
    std::string bytes = want.bytes();
    // pack a point built with setters
    auto p = to_point(want, S, O);
    std::ostringstream o;
    p->Pack(o, S, O);
    c.check(o.str() == bytes, "pack", cat("Pack gives ", mc::hex(o.str(), 80), " want ", mc::hex(bytes, 80)));
    // unpack
    std::istringstream in(bytes + "following data");
    auto q = cl::Point::Unpack(in, (int8_t)fmt, S, O, (uint16_t)eb);
    same_fields(c, *q, want, "unpack");
    c.check((size_t)in.tellg() == bytes.size(), "unpack", "Unpack consumed another number of bytes");
    std::ostringstream o2;
    q->Pack(o2, S, O);
    c.check(o2.str() == bytes, "pack-unpack", cat("repacking gives ", mc::hex(o2.str(), 80), " want ", mc::hex(bytes, 80)));
    c.check(*p == *q, "equal", "unpacked point differs from the one packed");
}
static const std::vector<int> EBS{0, 1, 2, 3, 7, 19, 217, 300};

MC_SCENARIOS
{
    // every field through its boundary values, all other fields from a pattern
    mc::add("fields", [](Ctx &c)
    {
        int fmt = 6 + c.choose(3, "format");
        int eb = c.pick(EBS, "extra bytes");
        int f = c.choose(22, "field");
        int seed = c.choose(3, "rest");
        Rec base = w::make_rec(fmt, eb, seed * 5);
        auto go = [&](Rec r)
        {
            c.step(4);
            c.state(r.bytes());
            check_rec(c, r);
        };
        static const std::vector<int32_t> I{0, 1, -1, 255, 256, 65535, 65536, INT32_MAX, INT32_MIN, 0x01020304};
        static const std::vector<uint16_t> U{0, 1, 127, 128, 255, 256, 0x0102, 32767, 32768, 65534, 65535};
        static const std::vector<double> D{0, -0.0, 1, -1.5, 1e300, 5e-324, INFINITY, -INFINITY, 123456789.125, 0x1.0203040506078p+0};
        Rec r = base;
        switch (f)
        {
        case 0: for (auto v : I) { r.x = v; go(r); } break;
        case 1: for (auto v : I) { r.y = v; go(r); } break;
        case 2: for (auto v : I) { r.z = v; go(r); } break;
        case 3: for (auto v : U) { r.intensity = v; go(r); } break;
        case 4: for (int v = 0; v < 16; v++) { r.rn = (uint8_t)v; go(r); } break;
        case 5: for (int v = 0; v < 16; v++) { r.nr = (uint8_t)v; go(r); } break;
        case 6: for (int v = 0; v < 2; v++) { r.synthetic = (uint8_t)v; go(r); } break;
        case 7: for (int v = 0; v < 2; v++) { r.key = (uint8_t)v; go(r); } break;
        case 8: for (int v = 0; v < 2; v++) { r.withheld = (uint8_t)v; go(r); } break;
        case 9: for (int v = 0; v < 2; v++) { r.overlap = (uint8_t)v; go(r); } break;
        case 10: for (int v = 0; v < 4; v++) { r.channel = (uint8_t)v; go(r); } break;
        case 11: for (int v = 0; v < 2; v++) { r.dir = (uint8_t)v; go(r); } break;
        case 12: for (int v = 0; v < 2; v++) { r.edge = (uint8_t)v; go(r); } break;
        case 13: for (int v = 0; v < 256; v++) { r.cls = (uint8_t)v; go(r); } break;
        case 14: for (int v = 0; v < 256; v++) { r.user = (uint8_t)v; go(r); } break;
        case 15: for (auto v : U) { r.angle = (int16_t)v; go(r); } break;
        case 16: for (auto v : U) { r.source = v; go(r); } break;
        case 17: for (auto v : D) { r.gps = v; go(r); } break;
        case 18: if (fmt >= 7) for (auto v : U) { r.r = v; go(r); } break;
        case 19: if (fmt >= 7) for (auto v : U) { r.g = v; go(r); } break;
        case 20: if (fmt >= 7) for (auto v : U) { r.b = v; go(r); } break;
        case 21: if (fmt == 8) for (auto v : U) { r.nir = v; go(r); } break;
        }
    }, 0, 2);

    // every byte of a record through all 256 values, over three backgrounds
    mc::add("bytes", [](Ctx &c)
    {
        int fmt = 6 + c.choose(3, "format");
        int eb = c.pick(std::vector<int>{0, 1, 5}, "extra bytes");
        int len = w::base_size(fmt) + eb;
        int at = c.choose(len, "byte");
        int bg = c.choose(3, "background");
        std::string b((size_t)len, bg == 0 ? '\0' : bg == 1 ? '\xff' : '\x5a');
        if (bg == 1)
            b[29] = '\x3f'; // keep the GPS time a number
        for (int v = 0; v < 256; v++)
        {
            b[(size_t)at] = (char)v;
            c.step(2);
            c.state(b);
            std::istringstream in(b);
            auto p = cl::Point::Unpack(in, (int8_t)fmt, S, O, (uint16_t)eb);
            same_fields(c, *p, rec_from(b, fmt, eb), "unpack");
            std::ostringstream o;
            p->Pack(o, S, O);
            c.check(o.str() == b, "pack-unpack", cat("byte ", at, "=", v, ": repacking gives ", mc::hex(o.str(), 80)));
            c.check(p->ReturnsBitField() == (uint8_t)b[14] && p->FlagsBitField() == (uint8_t)b[15], "bit fields", "bit field getters");
        }
    }, 0, 2);

    // lists of points: concatenation in order, through every overload
    mc::add("lists", [](Ctx &c)
    {
        int fmt = 6 + c.choose(3, "format");
        int eb = c.pick(EBS, "extra bytes");
        int n = c.choose(mc::thorough() ? 7 : 5, "points");
        std::string want;
        cl::Points ps((int8_t)fmt, (uint16_t)eb);
        for (int i = 0; i < n; i++)
        {
            int s = c.choose(3, "point");
            c.op(cat("p", s));
            Rec r = w::make_rec(fmt, eb, s * 17 + i);
            ps.AddPoint(to_point(r, S, O));
            want += r.bytes();
        }
        c.state(want);
        cl::LasHeader h0;
        cl::LasHeader h(h0, (int8_t)fmt, (uint16_t)(w::base_size(fmt) + eb), S, O);
        std::ostringstream o1, o2;
        ps.Pack(o1, S, O);
        ps.Pack(o2, h);
        c.check(o1.str() == want, "list pack", "Points::Pack(stream, scale, offset)");
        c.check(o2.str() == want, "list pack", "Points::Pack(stream, header)");
        c.check(str(ps.Pack(S, O)) == want, "list pack", "Points::Pack(scale, offset)");
        c.check(str(ps.Pack(h)) == want, "list pack", "Points::Pack(header)");
        auto q1 = cl::Points::Unpack(vec(want), h);
        auto q2 = cl::Points::Unpack(vec(want), (int8_t)fmt, (uint16_t)eb, S, O);
        for (auto *q : {&q1, &q2})
        {
            c.eq(q->Size(), (size_t)n, "list unpack size");
            c.eq((int)q->PointFormatId(), fmt, "list unpack format");
            c.eq((int)q->EbByteSize(), eb, "list unpack extra bytes");
            c.check(points_bytes(*q, S, O) == want, "list unpack", "unpacked points differ");
        }
    }, 0, 2);

    // lists of every size around powers of two
    mc::add("long lists", [](Ctx &c)
    {
        static const std::vector<int> sizes{100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8193, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 70000};
        int fmt = 6 + c.choose(3, "format"), eb = 3 * c.choose(2, "extra bytes"), n = c.pick(sizes, "points");
        if (n > 5000 && eb && !mc::thorough())
            return;
        std::string want = w::make_recs(fmt, eb, 11, n);
        c.op(cat(n, " points"));
        c.state(cat(fmt, eb, n));
        cl::LasHeader h0;
        cl::LasHeader h(h0, (int8_t)fmt, (uint16_t)(w::base_size(fmt) + eb), S, O);
        auto a = to_points(fmt, eb, 11, n, S, O);
        auto b = cl::Points::Unpack(vec(want), h);
        auto d = cl::Points::Unpack(vec(want), (int8_t)fmt, (uint16_t)eb, S, O);
        for (auto *q : {&a, &b, &d})
        {
            c.eq(q->Size(), (size_t)n, "number of points");
            c.check(points_bytes(*q, S, O) == want, "list unpack", "points differ");
            std::ostringstream o;
            q->Pack(o, S, O);
            c.check(o.str() == want && str(q->Pack(h)) == want, "list pack", "packed points differ");
        }
        c.step(6);
    }, 0, 8);

    // data whose size is not a multiple of the record length
    mc::add("ragged", [](Ctx &c)
    {
        int fmt = 6 + c.choose(3, "format");
        int eb = c.pick(EBS, "extra bytes");
        int len = w::base_size(fmt) + eb;
        std::string all = w::make_recs(fmt, eb, 3, 4);
        cl::LasHeader h0;
        cl::LasHeader h(h0, (int8_t)fmt, (uint16_t)len, S, O);
        for (size_t k = 0; k <= all.size(); k++)
        {
            c.step();
            c.state(cat(k, " of ", len));
            auto v = vec(all.substr(0, k));
            for (int way = 0; way < 2; way++)
            {
                size_t n = 0;
                bool t = throws([&] { n = (way ? cl::Points::Unpack(v, h) : cl::Points::Unpack(v, (int8_t)fmt, (uint16_t)eb, S, O)).Size(); });
                c.check(t == (k % (size_t)len != 0), "ragged", cat(k, " bytes of ", len, "-byte records: ", t ? "rejected" : "accepted"));
                c.check(t || n == k / (size_t)len, "ragged", "number of points");
            }
        }
    });

    // formats other than 6, 7, 8 have no record layout here
    mc::add("formats", [](Ctx &c)
    {
        int f = c.choose(256, "format") - 128;
        bool ok = f >= 6 && f <= 8;
        c.step(2);
        c.state(cat(f));
        c.check(throws([&] { cl::Point p((int8_t)f, 2); }) == !ok, "formats", cat("Point of format ", f));
        std::istringstream in(std::string(400, 'x'));
        c.check(throws([&] { cl::Point::Unpack(in, (int8_t)f, S, O, 0); }) == !ok, "formats", cat("Unpack of format ", f));
        c.check(throws([&] { cl::Points::Unpack(vec(w::make_recs(ok ? f : 6, 0, 1, 2)), (int8_t)f, 0, S, O); }) == !ok, "formats",
                cat("Points::Unpack of format ", f));
    });
}
