// C14: attributes of a point are independent and range checked.
#include "common.hpp"

// model: plain fields
struct M
{
    int fmt, eb;
    double x = 0, y = 0, z = 0, gps = 0;
    int intensity = 0, rn = 0, nr = 0, syn = 0, key = 0, wh = 0, ov = 0, ch = 0, dir = 0, edge = 0, cls = 0, user = 0, angle = 0, src = 0;
    int r = 0, g = 0, b = 0, nir = 0;
    std::vector<uint8_t> e;
    std::string str() const
    {
        std::ostringstream o;
        o.precision(17);
        o << fmt << "/" << eb << "|" << x << "," << y << "," << z << "," << gps << "|" << intensity << "," << rn << "," << nr << "," << syn << key << wh << ov
          << ch << dir << edge << "," << cls << "," << user << "," << angle << "," << src << "|" << r << "," << g << "," << b << "," << nir << "|"
          << mc::hex(std::string(e.begin(), e.end()), 40);
        return o.str();
    }
};
static std::string look(const cl::Point &p)
{
    M m;
    m.fmt = p.PointFormatId();
    m.eb = p.EbByteSize();
    m.x = p.X();
    m.y = p.Y();
    m.z = p.Z();
    m.gps = p.GPSTime();
    m.intensity = p.Intensity();
    m.rn = p.ReturnNumber();
    m.nr = p.NumberOfReturns();
    m.syn = p.Synthetic();
    m.key = p.KeyPoint();
    m.wh = p.Withheld();
    m.ov = p.Overlap();
    m.ch = p.ScannerChannel();
    m.dir = p.ScanDirectionFlag();
    m.edge = p.EdgeOfFlightLineFlag();
    m.cls = p.Classification();
    m.user = p.UserData();
    m.angle = p.ScanAngle();
    m.src = p.PointSourceId();
    if (m.fmt >= 7)
    {
        m.r = p.Red();
        m.g = p.Green();
        m.b = p.Blue();
    }
    if (m.fmt == 8)
        m.nir = p.Nir();
    m.e = p.ExtraBytes();
    return m.str();
}
static int flags(const M &m) { return m.syn | m.key << 1 | m.wh << 2 | m.ov << 3 | m.ch << 4 | m.dir << 6 | m.edge << 7; }
static void set_flags(M &m, int v)
{
    m.syn = v & 1;
    m.key = v >> 1 & 1;
    m.wh = v >> 2 & 1;
    m.ov = v >> 3 & 1;
    m.ch = v >> 4 & 3;
    m.dir = v >> 6 & 1;
    m.edge = v >> 7 & 1;
}
// One setter applied to the implementation and to the model; returns false if the model says it must be rejected.
struct Op
{
    std::string name;
    std::function<void(cl::Point &)> real;
    std::function<bool(M &)> model;
};
static std::vector<Op> ops(bool wide)
{
    std::vector<Op> v;
    auto add = [&](const std::string &n, std::function<void(cl::Point &)> r, std::function<bool(M &)> m) { v.push_back({n, r, m}); };
#define NUM(NAME, FIELD, TYPE, ...)                                                                                                        \
    for (long long val : std::vector<long long>{__VA_ARGS__})                                                                              \
    add(cat(#NAME "(", val, ")"), [val](cl::Point &p) { p.NAME((TYPE)val); },                                                              \
        [val](M &m) {                                                                                                                      \
            m.FIELD = (TYPE)val;                                                                                                           \
            return true;                                                                                                                   \
        })
    NUM(X, x, double, 5, -7);
    NUM(Y, y, double, 6);
    NUM(Z, z, double, -8);
    NUM(GPSTime, gps, double, 123456789);
    if (wide)
    {
        NUM(Intensity, intensity, uint16_t, 0, 255, 256, 65535);
        NUM(Classification, cls, uint8_t, 0, 127, 255);
        NUM(UserData, user, uint8_t, 1, 255);
        NUM(ScanAngle, angle, int16_t, -32768, -1, 32767);
        NUM(PointSourceId, src, uint16_t, 255, 256, 65535);
    }
    else
    {
        NUM(Intensity, intensity, uint16_t, 65535);
        NUM(Classification, cls, uint8_t, 255);
        NUM(UserData, user, uint8_t, 254);
        NUM(ScanAngle, angle, int16_t, -30000);
        NUM(PointSourceId, src, uint16_t, 65534);
    }
#define LIM(NAME, FIELD, MAXV, ...)                                                                                                        \
    for (int val : std::vector<int>{__VA_ARGS__})                                                                                          \
    add(cat(#NAME "(", val, ")"), [val](cl::Point &p) { p.NAME((uint8_t)val); },                                                           \
        [val](M &m) {                                                                                                                      \
            if (val > MAXV)                                                                                                                \
                return false;                                                                                                              \
            m.FIELD = val;                                                                                                                 \
            return true;                                                                                                                   \
        })
    if (wide)
    {
        LIM(ReturnNumber, rn, 15, 0, 1, 8, 15, 16, 255);
        LIM(NumberOfReturns, nr, 15, 0, 1, 8, 15, 16, 240);
        LIM(ScannerChannel, ch, 3, 0, 1, 2, 3, 4, 255);
    }
    else
    {
        LIM(ReturnNumber, rn, 15, 5, 16);
        LIM(NumberOfReturns, nr, 15, 10, 16);
        LIM(ScannerChannel, ch, 3, 2, 1, 4);
    }
    LIM(Synthetic, syn, 1, 0, 1);
    LIM(KeyPoint, key, 1, 0, 1);
    LIM(Withheld, wh, 1, 0, 1);
    LIM(Overlap, ov, 1, 0, 1);
    LIM(ScanDirectionFlag, dir, 1, 0, 1);
    LIM(EdgeOfFlightLineFlag, edge, 1, 0, 1);
    for (int val : wide ? std::vector<int>{0, 0x5A, 0xA5, 255} : std::vector<int>{0xA5})
    {
        add(cat("ReturnsBitField(", val, ")"), [val](cl::Point &p) { p.ReturnsBitField((uint8_t)val); },
            [val](M &m) {
                m.rn = val & 15;
                m.nr = val >> 4;
                return true;
            });
        add(cat("FlagsBitField(", val, ")"), [val](cl::Point &p) { p.FlagsBitField((uint8_t)val); },
            [val](M &m) {
                set_flags(m, val);
                return true;
            });
    }
#define COL(NAME, FIELD, MINF, ...)                                                                                                        \
    for (int val : std::vector<int>{__VA_ARGS__})                                                                                          \
    add(cat(#NAME "(", val, ")"), [val](cl::Point &p) { p.NAME((uint16_t)val); },                                                          \
        [val](M &m) {                                                                                                                      \
            if (m.fmt < MINF)                                                                                                              \
                return false;                                                                                                              \
            m.FIELD = val;                                                                                                                 \
            return true;                                                                                                                   \
        })
    if (wide)
    {
        COL(Red, r, 7, 1, 65535);
        COL(Green, g, 7, 256, 65534);
        COL(Blue, b, 7, 255, 65533);
        COL(Nir, nir, 8, 7, 65532);
    }
    else
    {
        COL(Red, r, 7, 65535);
        COL(Green, g, 7, 65534);
        COL(Blue, b, 7, 65533);
        COL(Nir, nir, 8, 65532);
    }
    add("Rgb(1,2,3)", [](cl::Point &p) { p.Rgb(1, 2, 3); },
        [](M &m) {
            if (m.fmt < 7)
                return false;
            m.r = 1;
            m.g = 2;
            m.b = 3;
            return true;
        });
    for (int n : {2, 3, 4})
        add(cat("Rgb(list of ", n, ")"), [n](cl::Point &p) { p.Rgb(std::vector<uint16_t>((size_t)n, 40001)); },
            [n](M &m) {
                if (m.fmt < 7 || n != 3)
                    return false;
                m.r = m.g = m.b = 40001;
                return true;
            });
    for (int d : {0, -1, 1})
        add(cat("ExtraBytes(", d, ")"),
            [d](cl::Point &p) {
                std::vector<uint8_t> e;
                for (int i = 0; i < p.EbByteSize() + d; i++)
                    e.push_back((uint8_t)(200 + i));
                if (d < 0 && e.size() == p.EbByteSize())
                    e.push_back(1); // no extra bytes: one too many instead of one too few
                p.ExtraBytes(e);
            },
            [d](M &m) {
                if (d)
                    return false;
                m.e.clear();
                for (int i = 0; i < m.eb; i++)
                    m.e.push_back((uint8_t)(200 + i));
                return true;
            });
    return v;
}
static void apply(Ctx &c, cl::Point &p, M &m, const Op &o)
{
    c.step();
    M before = m;
    bool ok = o.model(m);
    if (!ok)
        m = before;
    bool t = throws([&] { o.real(p); });
    c.checks += 2;
    if (t == ok)
        c.fail("rejection", o.name + (t ? " is rejected on " : " is accepted on ") + before.str());
    std::string got = look(p), want = m.str();
    if (got != want)
        c.fail("attributes", o.name + " on " + before.str() + " gives " + got + " instead of " + want);
    c.eq((int)p.FlagsBitField(), flags(m), "flags byte");
    c.eq((int)p.ReturnsBitField(), m.rn | m.nr << 4, "returns byte");
    c.eq(p.HasRgb(), m.fmt >= 7, "has rgb");
    c.eq(p.HasNir(), m.fmt == 8, "has nir");
    c.eq((int)p.PointRecordLength(), w::base_size(m.fmt) + m.eb, "record length");
    if (m.fmt < 7)
    {
        c.eq(throws([&] { p.Red(); }) && throws([&] { p.Green(); }) && throws([&] { p.Blue(); }), true, "colour getters rejected");
    }
    if (m.fmt < 8)
        c.eq(throws([&] { p.Nir(); }), true, "nir getter rejected");
}
static void histories(Ctx &c, int depth, bool wide)
{
    static auto narrow_ops = ops(false), wide_ops = ops(true);
    auto &O = wide ? wide_ops : narrow_ops;
    M m;
    m.fmt = c.choose(3, "format") + 6;
    m.eb = c.choose(2, "extra bytes") * 3;
    m.e.assign((size_t)m.eb, 0);
    cl::Point p((int8_t)m.fmt, (uint16_t)m.eb);
    c.eq(look(p), m.str(), "new point");
    for (int i = 0; i < depth; i++)
    {
        const Op &o = c.pick(O, "setter");
        if (c.ops.size() < 4)
            c.ops.push_back(o.name);
        apply(c, p, m, o);
        c.state(m.str());
    }
    // a copy carries everything over and is independent
    cl::Point q(p);
    c.eq(look(q), m.str(), "copied point");
    c.eq(p == q, true, "a copy is equal");
}

MC_SCENARIOS
{
    mc::add("setter histories, depth 2, all values", [](Ctx &c) { histories(c, 2, true); }, 0, 4);
    mc::add("setter histories, depth 3", [](Ctx &c) { histories(c, 3, false); }, 0, 8);
    mc::add("setter histories, depth 3, all values", [](Ctx &c) { histories(c, 3, true); }, 1, 32);
    // every value of the packed bytes times every setter that shares them
    mc::add("packed bytes", [](Ctx &c) {
        static auto O = ops(true);
        int fmt = 6 + c.choose(3, "format");
        int v = c.choose(256, "byte");
        bool which = c.flip("flags or returns");
        for (auto &o : O)
        {
            M m;
            m.fmt = fmt;
            m.eb = 0;
            cl::Point p((int8_t)fmt);
            if (which)
            {
                p.FlagsBitField((uint8_t)v);
                set_flags(m, v);
            }
            else
            {
                p.ReturnsBitField((uint8_t)v);
                m.rn = v & 15;
                m.nr = v >> 4;
            }
            apply(c, p, m, o);
        }
        c.state(cat(fmt, v, which));
    });
    // all values of the packed attributes
    mc::add("return numbers and channels", [](Ctx &c) {
        int v = c.choose(256, "value");
        int start = c.pick(std::vector<int>{0, 255, 0x5A, 0xA5}, "byte before");
        M m;
        m.fmt = 6;
        m.eb = 0;
        auto run = [&](const char *n, std::function<void(cl::Point &)> f, std::function<bool(M &)> g) {
            cl::Point p(6);
            p.FlagsBitField((uint8_t)start);
            p.ReturnsBitField((uint8_t)start);
            M k = m;
            set_flags(k, start);
            k.rn = start & 15;
            k.nr = start >> 4;
            apply(c, p, k, {cat(n, " ", v), f, g});
        };
        run("ReturnNumber", [v](cl::Point &p) { p.ReturnNumber((uint8_t)v); }, [v](M &k) { k.rn = v; return v <= 15; });
        run("NumberOfReturns", [v](cl::Point &p) { p.NumberOfReturns((uint8_t)v); }, [v](M &k) { k.nr = v; return v <= 15; });
        run("ScannerChannel", [v](cl::Point &p) { p.ScannerChannel((uint8_t)v); }, [v](M &k) { k.ch = v; return v <= 3; });
        c.state(cat(v, start));
    });
    // all 16 bit values of the wide attributes
    mc::add("full ranges", [](Ctx &c) {
        int hi = c.choose(256, "high byte");
        cl::Point p(8);
        for (int lo = 0; lo < 256; lo++)
        {
            uint16_t v = (uint16_t)(hi << 8 | lo);
            p.Intensity(v);
            p.PointSourceId((uint16_t)(v + 1));
            p.ScanAngle((int16_t)(v + 2));
            p.Red((uint16_t)(v + 3));
            p.Green((uint16_t)(v + 4));
            p.Blue((uint16_t)(v + 5));
            p.Nir((uint16_t)(v + 6));
            p.UserData((uint8_t)lo);
            p.Classification((uint8_t)(lo + 1));
            c.checks += 9;
            if (p.Intensity() != v || p.PointSourceId() != (uint16_t)(v + 1) || p.ScanAngle() != (int16_t)(v + 2) || p.Red() != (uint16_t)(v + 3) ||
                p.Green() != (uint16_t)(v + 4) || p.Blue() != (uint16_t)(v + 5) || p.Nir() != (uint16_t)(v + 6) || p.UserData() != (uint8_t)lo ||
                p.Classification() != (uint8_t)(lo + 1))
                c.fail("value", cat("a 16 bit attribute does not keep ", v));
            c.step(9);
        }
        c.state(cat(hi));
    });
    mc::add("scan angle in degrees", [](Ctx &c) {
        int hi = c.choose(256, "high byte");
        for (int lo = 0; lo < 256; lo++)
        {
            int16_t a = (int16_t)(hi << 8 | lo);
            cl::Point p(6);
            p.ScanAngle(a);
            float deg = p.ScanAngleDegrees();
            c.checks++;
            if (std::fabs(deg - 0.006 * a) > 1e-4)
                c.fail("degrees", cat("scan angle ", a, " reads as ", deg, " degrees"));
            p.ScanAngle(0);
            p.ScanAngleDegrees(deg);
            c.eq(p.ScanAngle(), a, "scan angle after setting the degrees it reads as");
            for (float f : {0.002f, -0.002f})
            {
                if (a == 32767 || a == -32768)
                    continue;
                p.ScanAngleDegrees(deg + f);
                c.eq(p.ScanAngle(), a, "degrees go to the nearest step");
            }
            c.step(4);
        }
        c.state(cat(hi));
    });
    mc::add("scan angle in degrees out of range", [](Ctx &c) {
        static const std::vector<float> V = {196.6f,   196.7f,  200.f,  393.f,  393.2f, 1e5f,   3e8f,      3e30f,
                                             -196.59f, -196.7f, -200.f, -393.f, -1e5f,  -3e30f, INFINITY, -INFINITY, NAN,
                                             196.602f, -196.608f};
        float f = c.pick(V, "degrees");
        int16_t before = c.pick(std::vector<int16_t>{0, 5, -30000}, "angle before");
        cl::Point p(6);
        p.ScanAngle(before);
        double r = std::round((double)f / 0.006);
        bool ok = r >= -32768 && r <= 32767;
        c.op(cat("ScanAngleDegrees(", f, ")"));
        c.eq(throws([&] { p.ScanAngleDegrees(f); }), !ok, cat("rejects a scan angle of ", f, " degrees"));
        c.eq(p.ScanAngle(), ok ? (int16_t)r : before, "scan angle afterwards");
        c.state(cat(f, " ", before));
    });
    // one differing attribute makes points differ
    mc::add("equality", [](Ctx &c) {
        static auto O = ops(true);
        int fmt = 6 + c.choose(3, "format");
        const Op &a = c.pick(O, "first setter"), &b = c.pick(O, "second setter");
        M ma, mb;
        ma.fmt = mb.fmt = fmt;
        ma.eb = mb.eb = 2;
        ma.e = mb.e = {0, 0};
        cl::Point p((int8_t)fmt, 2), q((int8_t)fmt, 2);
        apply(c, p, ma, a);
        apply(c, q, mb, b);
        c.eq(p == q, ma.str() == mb.str(), "equality after " + a.name + " and " + b.name);
        c.eq(p != q, ma.str() != mb.str(), "inequality after " + a.name + " and " + b.name);
        c.state(ma.str() + mb.str());
    });
    mc::add("construction", [](Ctx &c) {
        int f = c.choose(256, "format byte");
        bool ok = (int8_t)f >= 6 && (int8_t)f <= 8;
        c.op(cat("Point(", (int)(int8_t)f, ")"));
        c.eq(throws([&] { cl::Point p((int8_t)f, 4); }), !ok, "format of a new point");
        if (ok)
            for (int eb : {0, 1, 300, 65000})
            {
                cl::Point p((int8_t)f, (uint16_t)eb);
                c.eq((int)p.EbByteSize(), eb, "extra bytes");
                c.eq((int)p.PointRecordLength(), eb + w::base_size(f), "record length");
                c.eq(p.ExtraBytes().size(), (size_t)eb, "number of extra bytes");
                cl::LasHeader h((int8_t)f, (uint16_t)(eb + w::base_size(f)), {1, 1, 1}, {0, 0, 0}, true);
                cl::Point q(h);
                c.eq(p == q, true, "point made from a header");
            }
        c.state(cat(f));
    });
}
