// C27: vector arithmetic, point-format tables, closeness.
#include "common.hpp"
bool probe_are_close(double a, double b, double e);

static const std::vector<double> V = {0.0,     -0.0, 1.0,  -1.0,    0.5,     3.0,      0.1, 1e300,
                                      DBL_MAX, -2.5, 5e-324, INFINITY, -INFINITY, NAN, 1e-300, 123456.789};

static void vec_is(Ctx &c, const copc::Vector3 &g, double x, double y, double z, const char *key)
{
    c.checks++;
    if (!same_bits(g.x, x) || !same_bits(g.y, y) || !same_bits(g.z, z))
        c.fail(key, cat(key, ": got ", g.x, ",", g.y, ",", g.z, " want ", x, ",", y, ",", z));
}

MC_SCENARIOS
{
    // every operator on every pair of vectors whose components come from V (one component varies over V x V, the
    // others run through rotations, so every pair of values meets in every position)
    mc::add("vector arithmetic", [](Ctx &c) {
        int n = (int)V.size();
        int i = c.choose(n, "a.x"), j = c.choose(n, "b.x"), r = c.choose(n, "rotation");
        double ax = V[(size_t)i], ay = V[(size_t)((i + r) % n)], az = V[(size_t)((i + 2 * r + 1) % n)];
        double bx = V[(size_t)j], by = V[(size_t)((j + 3 * r) % n)], bz = V[(size_t)((j + r + 5) % n)];
        c.state(cat(i, ",", j, ",", r));
        for (int rot = 0; rot < 3; rot++)
        {
            copc::Vector3 a(ax, ay, az), b(bx, by, bz);
            vec_is(c, a + b, ax + bx, ay + by, az + bz, "vector + vector");
            vec_is(c, a - b, ax - bx, ay - by, az - bz, "vector - vector");
            vec_is(c, a * b, ax * bx, ay * by, az * bz, "vector * vector");
            vec_is(c, a / b, ax / bx, ay / by, az / bz, "vector / vector");
            vec_is(c, a + bx, ax + bx, ay + bx, az + bx, "vector + scalar");
            vec_is(c, a - bx, ax - bx, ay - bx, az - bx, "vector - scalar");
            vec_is(c, a * bx, ax * bx, ay * bx, az * bx, "vector * scalar");
            vec_is(c, a / bx, ax / bx, ay / bx, az / bx, "vector / scalar");
            vec_is(c, a, ax, ay, az, "operand changed");
            vec_is(c, b, bx, by, bz, "operand changed");
            bool same = ax == bx && ay == by && az == bz;
            c.eq(a == b, same, "vector ==");
            c.eq(a != b, !same, "vector !=");
            c.step(10);
            double t = ax;
            ax = ay;
            ay = az;
            az = t;
            t = bx;
            bx = by;
            by = bz;
            bz = t;
        }
    });
    // equality when exactly one component differs, by any amount
    mc::add("vector equality", [](Ctx &c) {
        double x = c.pick(V, "x"), y = c.pick(V, "y"), z = c.pick(V, "z");
        int which = c.choose(4, "component that changes");
        double d = c.pick(V, "new value");
        copc::Vector3 a(x, y, z), b(x, y, z);
        (which == 0 ? b.x : which == 1 ? b.y : b.z) = d;
        if (which == 3)
            b = a;
        bool same = a.x == b.x && a.y == b.y && a.z == b.z;
        c.eq(a == b, same, "vector ==");
        c.eq(b == a, same, "vector == (swapped)");
        c.eq(a != b, !same, "vector !=");
        copc::Vector3 fromvec(std::vector<double>{x, y, z});
        vec_is(c, fromvec, x, y, z, "vector from a list");
        c.step(4);
        c.state(cat(x, y, z, which, d));
    });
    mc::add("vector equality of neighbours", [](Ctx &c) {
        // values one unit in the last place apart, in each component
        double v = c.pick(V, "value");
        int which = c.choose(3), dir = c.choose(2);
        double n = std::nextafter(v, dir ? INFINITY : -INFINITY);
        copc::Vector3 a(v, v, v), b(v, v, v);
        (which == 0 ? b.x : which == 1 ? b.y : b.z) = n;
        bool same = (v == n);
        if (std::isnan(v))
            same = false;
        c.eq(a == b, same, "vector == of neighbouring values");
        c.eq(a != b, !same, "vector != of neighbouring values");
        c.step(2);
        c.state(cat(v, which, dir));
    });
    mc::add("vector from lists", [](Ctx &c) {
        int n = c.choose(8, "length");
        c.op(cat("Vector3(list of ", n, ")"));
        std::vector<double> l;
        for (int i = 0; i < n; i++)
            l.push_back(i + 0.5);
        bool t = throws([&] { copc::Vector3 v(l); });
        c.eq(t, n != 3, "list of another length rejected");
        if (n == 3)
            vec_is(c, copc::Vector3(l), 0.5, 1.5, 2.5, "vector from a list");
        vec_is(c, copc::Vector3(), 0, 0, 0, "default vector");
        vec_is(c, copc::Vector3::DefaultScale(), 0.01, 0.01, 0.01, "default scale");
        vec_is(c, copc::Vector3::DefaultOffset(), 0, 0, 0, "default offset");
        c.state(cat(n));
    });
    mc::add("format tables", [](Ctx &c) {
        int v = c.choose(256, "format byte");
        int8_t f = (int8_t)v;
        c.op(cat("format ", (int)f));
        c.state(cat(v));
        bool ok = f >= 6 && f <= 8;
        uint8_t size = 0, dims = 0;
        bool rgb = false, nir = false;
        c.eq(throws([&] { size = cl::PointBaseByteSize(f); }), !ok, "base size rejects the format");
        c.eq(throws([&] { dims = cl::PointBaseNumberDimensions(f); }), !ok, "dimension count rejects the format");
        c.eq(throws([&] { rgb = cl::FormatHasRgb((uint8_t)v); }), !(v >= 6 && v <= 8), "rgb test rejects the format");
        c.eq(throws([&] { nir = cl::FormatHasNir((uint8_t)v); }), !(v >= 6 && v <= 8), "nir test rejects the format");
        if (ok)
        {
            c.eq((int)size, w::base_size(f), "base record size");
            c.eq((int)dims, w::dims(f), "number of dimensions");
            c.eq(rgb, f >= 7, "format has rgb");
            c.eq(nir, f == 8, "format has nir");
            for (uint32_t eb = 0; eb + size <= 65535; eb++)
            {
                uint16_t len = cl::PointByteSize(f, (uint16_t)eb);
                c.eq((uint32_t)len, size + eb, "record length");
                c.eq((uint32_t)cl::EbByteSize(f, len), eb, "extra bytes of a record length");
            }
            for (uint32_t len = 0; len < size; len++)
                c.eq((uint32_t)cl::EbByteSize(f, len), 0u, "extra bytes of a record shorter than the format's");
            c.step(2 * (65536 - size));
        }
        else
        {
            c.eq(throws([&] { cl::PointByteSize(f, 4); }), true, "record length rejects the format");
            c.eq(throws([&] { cl::EbByteSize(f, 40); }), true, "extra byte size rejects the format");
        }
    });
    mc::add("closeness", [](Ctx &c) {
        static const std::vector<double> B = {0, -0.0, 1, -1, 1e-6, -1e-6, 2e-6, 1 + 1e-6, 1 - 1e-6, 1e9, -1e9, 1e300, -1e300,
                                              INFINITY, -INFINITY, NAN, 0.5, -0.5, 1.5, 2};
        static const std::vector<double> E = {1e-6, 0, 0.5, 1, 2, 1e-300, INFINITY, 1e9, NAN, 1e-12};
        double a = c.pick(B, "a"), e = c.pick(E, "epsilon");
        for (double b0 : B)
            for (double b : {b0, std::nextafter(b0, INFINITY), std::nextafter(b0, -INFINITY), a + e, a - e,
                             std::nextafter(a + e, 0), std::nextafter(a + e, INFINITY), a + b0 * e})
            {
                double d = a > b ? a - b : b - a; // distance
                bool want = d < e;
                c.checks++;
                if (probe_are_close(a, b, e) != want)
                    c.fail("closeness", cat("AreClose(", a, ", ", b, ", ", e, ") is ", !want));
                c.step();
            }
        c.state(cat(a, " ", e));
    });
}
