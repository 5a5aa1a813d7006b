// C13: coordinate quantization and header scaling.
#include "common.hpp"

typedef long double LD;
static const std::vector<double> SC = {0.01, 0.001, 1.0, 0.0001, 0.25, 2.5, 1e-7, 1000};
static const std::vector<double> OFF = {0, 500000, -12345.678, 1e6, 0.005, -0.5};

// grid positions, as real numbers in units of the scale
static std::vector<LD> positions()
{
    std::vector<LD> v;
    for (LD base : {(LD)0, (LD)1, (LD)-1, (LD)2, (LD)-7, (LD)1000, (LD)-65536, (LD)123456789, (LD)2147483646, (LD)2147483647,
                    (LD)2147483648LL, (LD)-2147483647, (LD)-2147483648LL, (LD)-2147483649LL, (LD)4294967296LL, (LD)4294967295LL,
                    (LD)-4294967296LL, (LD)1e12, (LD)-1e12, (LD)9223372036854775807.0L, (LD)1e30, (LD)-1e30, (LD)1e200, (LD)-1e200})
        for (LD f : {(LD)0, (LD)0.25, (LD)0.49, (LD)0.5, (LD)0.51, (LD)0.75, (LD)-0.25, (LD)-0.49, (LD)-0.5, (LD)-0.51, (LD)-0.9})
            v.push_back(base + f);
    return v;
}
// what may happen to value v: 0 must be rejected, 1 must be stored, 2 either (too near the limit for floating point)
static int fate(LD r)
{
    LD tol = 1e-6L;
    if (r < -2147483648.5L - tol || r > 2147483647.5L + tol)
        return 0;
    if (r > -2147483648.5L + tol && r < 2147483647.5L - tol)
        return 1;
    return 2;
}
struct Axis
{
    double v[3];
};

static void one(Ctx &c, int axis, double v, double s, double o, bool via_points)
{
    bool nan = std::isnan(v);
    LD r = ((LD)v - (LD)o) / (LD)s;
    int f = nan || std::isinf(v) ? 0 : fate(r);
    copc::Vector3 S(0.5, 0.25, 0.125), O(1, 2, 3);
    (axis == 0 ? S.x : axis == 1 ? S.y : S.z) = s;
    (axis == 0 ? O.x : axis == 1 ? O.y : O.z) = o;
    auto p = std::make_shared<cl::Point>((int8_t)6);
    p->X(axis == 0 ? v : 5.0);
    p->Y(axis == 1 ? v : 6.0);
    p->Z(axis == 2 ? v : 7.0);
    std::string bytes;
    bool t;
    if (via_points)
    {
        cl::Points ps((int8_t)6);
        ps.AddPoint(p);
        t = throws([&] { bytes = str(ps.Pack(S, O)); });
    }
    else
    {
        std::ostringstream out;
        t = throws([&] { p->Pack(out, S, O); });
        if (!t)
            bytes = out.str();
    }
    c.step();
    c.checks++;
    std::string what = cat("coordinate ", v, " scale ", s, " offset ", o, " (grid position ", (double)r, ")");
    if (t && f == 1)
        c.fail("rejected", what + " is rejected");
    if (!t && f == 0)
        c.fail("stored", what + cat(" is stored as ", w::get<int32_t>(bytes, 4 * (size_t)axis)));
    if (t)
        return;
    c.eq(bytes.size(), (size_t)30, "record size");
    int32_t n = w::get<int32_t>(bytes, 4 * (size_t)axis);
    LD err = fabsl((LD)n - r), tol = 0.5L + 1e-6L;
    c.checks++;
    if (err > tol)
        c.fail("nearest", what + cat(" is stored as ", n));
    // the other axes are untouched by this one
    int32_t others[3] = {(int32_t)std::lround((5.0 - O.x) / S.x), (int32_t)std::lround((6.0 - O.y) / S.y), (int32_t)std::lround((7.0 - O.z) / S.z)};
    for (int a = 0; a < 3; a++)
        if (a != axis)
            c.eq(w::get<int32_t>(bytes, 4 * (size_t)a), others[a], "other coordinate");
    // reading back and storing again changes nothing
    std::istringstream in(bytes);
    auto q = cl::Point::Unpack(in, 6, S, O, 0);
    double back = axis == 0 ? q->X() : axis == 1 ? q->Y() : q->Z();
    LD exact = (LD)n * (LD)s + (LD)o;
    c.checks++;
    if (fabsl((LD)back - exact) > (fabsl((LD)n * (LD)s) + fabsl((LD)o)) * 4e-16L)
        c.fail("read back", what + cat(" stored as ", n, " is read as ", back));
    std::ostringstream again;
    q->Pack(again, S, O);
    c.eq(mc::hex(again.str()), mc::hex(bytes), what + " stored again");
    c.step(2);
}

MC_SCENARIOS
{
    mc::add("coordinates", [](Ctx &c) {
        static auto P = positions();
        int axis = c.choose(3, "axis");
        bool via = c.flip("through a collection");
        double s = c.pick(SC, "scale"), o = c.pick(OFF, "offset");
        for (LD r : P)
        {
            double v = (double)(r * (LD)s + (LD)o);
            one(c, axis, v, s, o, via);
            one(c, axis, std::nextafter(v, INFINITY), s, o, via);
            one(c, axis, std::nextafter(v, -INFINITY), s, o, via);
        }
        for (double v : {(double)NAN, (double)INFINITY, (double)-INFINITY, DBL_MAX, -DBL_MAX, 5e-324, -0.0})
            one(c, axis, v, s, o, via);
        c.state(cat(axis, s, o));
    });
    // every grid value of a window around zero and the limits survives read and write
    mc::add("grid values are fixed points", [](Ctx &c) {
        double s = c.pick(SC, "scale"), o = c.pick(OFF, "offset");
        static const std::vector<int64_t> C = {0, 1000000, -1000000, 2147483647LL - 600, -2147483648LL + 600, 1 << 24, 99999999};
        int64_t mid = c.pick(C, "window");
        copc::Vector3 S(s, s, s), O(o, o, o);
        for (int64_t n = mid - 600; n <= mid + 600; n++)
        {
            Rec r = w::make_rec(6, 0, 3);
            r.x = (int32_t)n;
            r.y = (int32_t)n;
            r.z = (int32_t)n;
            std::string b = r.bytes();
            std::istringstream in(b);
            auto p = cl::Point::Unpack(in, 6, S, O, 0);
            std::ostringstream out;
            p->Pack(out, S, O);
            c.eq(mc::hex(out.str()), mc::hex(b), "record after reading and writing");
            c.step(2);
        }
        c.state(cat(s, o, mid));
    });
    // the generic helpers, for every width
    mc::add("scale helpers", [](Ctx &c) {
        double s = c.pick(SC, "scale"), o = c.pick(OFF, "offset");
        auto run = [&](auto zero, LD lo, LD hi) {
            using T = decltype(zero);
            for (LD base : {(LD)0, (LD)1, (LD)100, lo, hi, lo - 1, hi + 1, lo * 2, hi * 2, (lo + hi) / 2})
                for (LD f : {(LD)0, (LD)0.3, (LD)-0.3, (LD)0.5, (LD)0.6, (LD)-0.6})
                {
                    double v = (double)((base + f) * (LD)s + (LD)o);
                    LD r = ((LD)v - (LD)o) / (LD)s;
                    LD tol = 1e-6L;
                    bool must = r > lo - 0.5L + tol && r < hi + 0.5L - tol, mustnot = r < lo - 0.5L - tol || r > hi + 0.5L + tol;
                    T n = 0;
                    bool t = throws([&] { n = cl::RemoveScale<T>(v, s, o); });
                    c.step();
                    c.checks++;
                    if ((t && must) || (!t && mustnot))
                        c.fail("range", cat("RemoveScale of ", v, " scale ", s, " offset ", o, t ? " is rejected" : " is accepted"));
                    if (!t && fabsl((LD)n - r) > 0.5L + tol)
                        c.fail("nearest", cat("RemoveScale of ", v, " scale ", s, " offset ", o, " gives ", (double)n));
                    if (!t)
                    {
                        double back = cl::ApplyScale<T>(n, s, o);
                        LD exact = (LD)n * (LD)s + (LD)o;
                        c.checks++;
                        if (fabsl((LD)back - exact) > (fabsl((LD)n * (LD)s) + fabsl((LD)o)) * 4e-16L)
                            c.fail("apply", cat("ApplyScale of ", (double)n));
                    }
                }
            c.eq(throws([&] { cl::RemoveScale<T>(NAN, s, o); }), true, "NaN rejected");
            c.eq(throws([&] { cl::RemoveScale<T>(INFINITY, s, o); }), true, "infinity rejected");
            c.eq(throws([&] { cl::RemoveScale<T>(-INFINITY, s, o); }), true, "infinity rejected");
        };
        run((int32_t)0, -2147483648.0L, 2147483647.0L);
        run((int16_t)0, -32768.0L, 32767.0L);
        run((uint16_t)0, 0.0L, 65535.0L);
        run((int8_t)0, -128.0L, 127.0L);
        c.state(cat(s, o));
    });
    mc::add("header scaling", [](Ctx &c) {
        double sx = c.pick(SC, "x scale");
        double ox = c.pick(OFF, "x offset");
        int rot = c.choose(3, "which axis");
        copc::Vector3 S(0.5, 0.25, 0.125), O(10, -20, 30);
        (rot == 0 ? S.x : rot == 1 ? S.y : S.z) = sx;
        (rot == 0 ? O.x : rot == 1 ? O.y : O.z) = ox;
        cl::LasHeader h(6, 30, S, O, true);
        for (int32_t n : {0, 1, -1, 7, -1000, 123456, 2147483000, -2147483000})
            for (int32_t m : {5, -6})
            {
                copc::Vector3 u(rot == 0 ? n : m, rot == 1 ? n : m + 1, rot == 2 ? n : m + 2);
                auto v = h.ApplyScale(u);
                auto close = [&](double got, LD want, LD mag, const char *k) {
                    c.checks++;
                    if (fabsl((LD)got - want) > mag * 1e-15L)
                        c.fail(k, cat(k, ": got ", got, " want ", (double)want, " scale ", sx, " offset ", ox));
                };
                auto mag = [](double a, double s, double o) { return fabsl((LD)a * s) + fabsl((LD)o); };
                close(v.x, (LD)u.x * S.x + O.x, mag(u.x, S.x, O.x), "ApplyScale x");
                close(v.y, (LD)u.y * S.y + O.y, mag(u.y, S.y, O.y), "ApplyScale y");
                close(v.z, (LD)u.z * S.z + O.z, mag(u.z, S.z, O.z), "ApplyScale z");
                close(h.ApplyScaleX(u.x), (LD)u.x * S.x + O.x, mag(u.x, S.x, O.x), "ApplyScaleX");
                close(h.ApplyScaleY(u.y), (LD)u.y * S.y + O.y, mag(u.y, S.y, O.y), "ApplyScaleY");
                close(h.ApplyScaleZ(u.z), (LD)u.z * S.z + O.z, mag(u.z, S.z, O.z), "ApplyScaleZ");
                auto back = h.ApplyInverseScale(v);
                auto tol = [](double s, double o, double v) { return 1e-9L + (fabsl((LD)v) + fabsl((LD)o)) / s * 4e-16L; };
                c.check(fabsl(back.x - u.x) <= tol(S.x, O.x, v.x) && fabsl(back.y - u.y) <= tol(S.y, O.y, v.y) && fabsl(back.z - u.z) <= tol(S.z, O.z, v.z),
                        "inverse scale", cat("ApplyInverseScale(ApplyScale(", u, ")) is ", back, " with scale ", S, " offset ", O));
                c.eq(h.RemoveScaleX(v.x), (int32_t)u.x, "RemoveScaleX");
                c.eq(h.RemoveScaleY(v.y), (int32_t)u.y, "RemoveScaleY");
                c.eq(h.RemoveScaleZ(v.z), (int32_t)u.z, "RemoveScaleZ");
                // values between grid points go to the nearest
                for (double f : {0.3, -0.3, 0.49, -0.49})
                {
                    c.eq(h.RemoveScaleX((double)(((LD)u.x + f) * S.x + O.x)), (int32_t)u.x, "RemoveScaleX between grid points");
                    c.eq(h.RemoveScaleY((double)(((LD)u.y + f) * S.y + O.y)), (int32_t)u.y, "RemoveScaleY between grid points");
                    c.eq(h.RemoveScaleZ((double)(((LD)u.z + f) * S.z + O.z)), (int32_t)u.z, "RemoveScaleZ between grid points");
                }
                c.step(23);
            }
        c.state(cat(sx, ox, rot));
    });
}
