// C12: box and octree-cell predicates.
#include "common.hpp"

struct Iv
{
    int lo, hi;
}; // closed interval on grid points
static std::vector<Iv> ivs(int n)
{
    std::vector<Iv> v;
    for (int a = 0; a < n; a++)
        for (int b = a; b < n; b++)
            v.push_back({a, b});
    return v;
}
// the points of an interval on the half grid, as a set
static uint32_t mask(Iv i)
{
    uint32_t m = 0;
    for (int p = 2 * i.lo; p <= 2 * i.hi; p++)
        m |= 1u << p;
    return m;
}
struct Oracle
{
    uint32_t a[3], b[3];
    bool intersects() const { return (a[0] & b[0]) && (a[1] & b[1]) && (a[2] & b[2]); }
    bool contains() const { return !(b[0] & ~a[0]) && !(b[1] & ~a[1]) && !(b[2] & ~a[2]); }
    bool within() const { return !(a[0] & ~b[0]) && !(a[1] & ~b[1]) && !(a[2] & ~b[2]); }
};
static void pair(Ctx &c, const copc::Box &A, const copc::Box &B, const Oracle &o)
{
    c.checks += 4;
    c.step(4);
    if (A.Intersects(B) != o.intersects())
        c.fail("Intersects", cat(A, " intersects ", B, " should be ", o.intersects()));
    if (B.Intersects(A) != o.intersects())
        c.fail("Intersects", cat(B, " intersects ", A, " should be ", o.intersects()));
    if (A.Contains(B) != o.contains())
        c.fail("Contains", cat(A, " contains ", B, " should be ", o.contains()));
    if (A.Within(B) != o.within())
        c.fail("Within", cat(A, " within ", B, " should be ", o.within()));
}
static void grid(Ctx &c, int n, double scale, double off)
{
    auto I = ivs(n);
    Iv ax = c.pick(I, "a.x"), ay = c.pick(I, "a.y"), az = c.pick(I, "a.z");
    auto q = [&](double v) { return v * scale + off; };
    copc::Box A(q(ax.lo), q(ay.lo), q(az.lo), q(ax.hi), q(ay.hi), q(az.hi));
    Oracle o{{mask(ax), mask(ay), mask(az)}, {}};
    c.state(cat(ax.lo, ax.hi, ay.lo, ay.hi, az.lo, az.hi));
    for (auto bx : I)
        for (auto by : I)
            for (auto bz : I)
            {
                o.b[0] = mask(bx);
                o.b[1] = mask(by);
                o.b[2] = mask(bz);
                pair(c, A, copc::Box(q(bx.lo), q(by.lo), q(bz.lo), q(bx.hi), q(by.hi), q(bz.hi)), o);
            }
    for (int x = -1; x <= 2 * n; x++)
        for (int y = -1; y <= 2 * n; y++)
            for (int z = -1; z <= 2 * n; z++)
            {
                bool in = x >= 0 && y >= 0 && z >= 0 && (o.a[0] >> x & 1) && (o.a[1] >> y & 1) && (o.a[2] >> z & 1);
                c.checks++;
                if (A.Contains(copc::Vector3(q(x / 2.0), q(y / 2.0), q(z / 2.0))) != in)
                    c.fail("Contains point", cat(A, " contains (", q(x / 2.0), ",", q(y / 2.0), ",", q(z / 2.0), ")"));
                c.step();
            }
}

MC_SCENARIOS
{
    mc::add("box pairs", [](Ctx &c) { grid(c, mc::thorough() ? 4 : 3, 1, 0); });
    mc::add("box pairs, negative and large coordinates", [](Ctx &c) {
        int k = c.choose(3, "placement");
        grid(c, 3, k == 0 ? 1 : k == 1 ? 1024 : 0.25, k == 0 ? -1 : k == 1 ? -1e6 : -0.25);
    });
    // one axis at full resolution (five grid points, unbounded and point intervals), the others whole or disjoint
    mc::add("axis pairs", [](Ctx &c) {
        int axis = c.choose(3, "axis");
        auto I = ivs(5);
        Iv a = c.pick(I, "a"), b = c.pick(I, "b");
        bool disjoint1 = c.flip("first other axis disjoint"), disjoint2 = c.flip("second other axis disjoint");
        double mn[2][3], mx[2][3];
        uint32_t m[2][3];
        auto set = [&](int w, int ax, Iv i) {
            mn[w][ax] = i.lo;
            mx[w][ax] = i.hi;
            m[w][ax] = mask(i);
        };
        set(0, axis, a);
        set(1, axis, b);
        set(0, (axis + 1) % 3, {0, 1});
        set(1, (axis + 1) % 3, disjoint1 ? Iv{2, 3} : Iv{0, 1});
        set(0, (axis + 2) % 3, {1, 2});
        set(1, (axis + 2) % 3, disjoint2 ? Iv{4, 4} : Iv{1, 2});
        Oracle o{{m[0][0], m[0][1], m[0][2]}, {m[1][0], m[1][1], m[1][2]}};
        copc::Box A(mn[0][0], mn[0][1], mn[0][2], mx[0][0], mx[0][1], mx[0][2]), B(mn[1][0], mn[1][1], mn[1][2], mx[1][0], mx[1][1], mx[1][2]);
        pair(c, A, B, o);
        c.state(cat(axis, a.lo, a.hi, b.lo, b.hi, disjoint1, disjoint2));
    });
    // neighbouring doubles around each face
    mc::add("points next to faces", [](Ctx &c) {
        int axis = c.choose(3, "axis"), side = c.choose(2, "side"), step = c.choose(3, "step") - 1;
        static const std::vector<std::pair<double, double>> L = {{0, 1}, {-1, 0}, {-5.5, -5.25}, {1e6, 1e6 + 0.1}, {0.1, 0.3}, {0, 0}, {-1e300, 1e300}};
        auto iv = c.pick(L, "interval");
        double mn[3] = {-7, -7, -7}, mx[3] = {7, 7, 7}, p[3] = {1, 2, 3};
        mn[axis] = iv.first;
        mx[axis] = iv.second;
        double f = side ? iv.second : iv.first;
        p[axis] = step == 0 ? f : std::nextafter(f, step > 0 ? INFINITY : -INFINITY);
        bool in = p[axis] >= iv.first && p[axis] <= iv.second;
        copc::Box b(mn[0], mn[1], mn[2], mx[0], mx[1], mx[2]);
        c.eq(b.Contains(copc::Vector3(p[0], p[1], p[2])), in, cat(b, " contains ", p[0], ",", p[1], ",", p[2]));
        copc::Box t(p[0], p[1], p[2], p[0], p[1], p[2]);
        c.eq(b.Contains(t), in, "contains a point box");
        c.eq(b.Intersects(t), in, "intersects a point box");
        c.eq(t.Within(b), in, "point box within");
        cl::Point pt(6);
        pt.X(p[0]);
        pt.Y(p[1]);
        pt.Z(p[2]);
        c.eq(pt.Within(b), in, "point within");
        c.step(5);
        c.state(cat(axis, side, step, iv.first));
    });
    mc::add("box construction", [](Ctx &c) {
        double v[6];
        static const std::vector<double> V = {0, 1, -1};
        for (int i = 0; i < 6; i++)
            v[i] = c.pick(V, "value");
        bool bad = v[3] < v[0] || v[4] < v[1] || v[5] < v[2];
        auto is = [&](const copc::Box &b) {
            c.eq(b.x_min == v[0] && b.y_min == v[1] && b.z_min == v[2] && b.x_max == v[3] && b.y_max == v[4] && b.z_max == v[5], true,
                 "box corners");
        };
        c.eq(throws([&] { is(copc::Box(v[0], v[1], v[2], v[3], v[4], v[5])); }), bad, "six values");
        c.eq(throws([&] { is(copc::Box(copc::Vector3(v[0], v[1], v[2]), copc::Vector3(v[3], v[4], v[5]))); }), bad, "two vectors");
        c.eq(throws([&] { is(copc::Box(std::vector<double>(v, v + 6))); }), bad, "list of six");
        bool bad2 = v[2] < v[0] || v[3] < v[1];
        auto is2 = [&](const copc::Box &b) {
            c.eq(b.x_min == v[0] && b.y_min == v[1] && b.x_max == v[2] && b.y_max == v[3], true, "2D box corners");
            c.eq(b.z_min == -DBL_MAX && b.z_max == DBL_MAX, true, "2D box is unbounded in z");
        };
        c.eq(throws([&] { is2(copc::Box(v[0], v[1], v[2], v[3])); }), bad2, "four values");
        c.eq(throws([&] { is2(copc::Box(std::vector<double>(v, v + 4))); }), bad2, "list of four");
        c.step(5);
        c.state(cat(v[0], v[1], v[2], v[3], v[4], v[5]));
    });
    mc::add("boxes from lists", [](Ctx &c) {
        int n = c.choose(10, "length");
        std::vector<double> l;
        for (int i = 0; i < n; i++)
            l.push_back(i);
        c.op(cat("Box(list of ", n, ")"));
        c.eq(throws([&] { copc::Box b(l); }), n != 4 && n != 6, "list length");
        auto m = copc::Box::MaxBox();
        for (double x : {-DBL_MAX, -1.0, 0.0, 1e300, DBL_MAX})
        {
            c.eq(m.Contains(copc::Vector3(x, -x, x)), true, "the maximal box contains every point");
            c.eq(m.Contains(copc::Box(x, x, x, x, x, x)) && copc::Box(x, x, x, x, x, x).Within(m), true, "the maximal box contains every box");
        }
        auto e = copc::Box::EmptyBox();
        c.eq(e.Contains(copc::Vector3(0, 0, 0)) && !e.Contains(copc::Vector3(0, 0, 1)), true, "the empty box is the origin");
        c.state(cat(n));
    });
    mc::add("cells of keys", [](Ctx &c) {
        struct H
        {
            copc::Vector3 mn, mx;
        };
        static const std::vector<H> hs = {{{0, 0, 0}, {8, 8, 8}},       {{0, 0, 0}, {8, 2, 1}},       {{-16, 4, 32}, {-15, 12, 36}},
                                          {{1024, -64, -8}, {1026, -60, 56}}, {{0, 0, 0}, {0, 0, 0}}, {{-3, -3, -3}, {-3, -3, -2.5}},
                                          {{0, 0, 0}, {16777217, 1, 5}}, {{-536870913, 7, 0}, {0, 536870919, 5}}};
        const H &h = c.pick(hs, "header bounds");
        int d = c.choose(5, "depth");
        int lim = std::min(1 << d, 9);
        int x = c.choose(lim + 1, "x"), y = c.choose(lim + 1, "y");
        cl::LasHeader hd(6, 30, copc::Vector3(1, 1, 1), copc::Vector3(0, 0, 0), true);
        hd.min = h.mn;
        hd.max = h.mx;
        double span = std::max({h.mx.x - h.mn.x, h.mx.y - h.mn.y, h.mx.z - h.mn.z});
        c.eq(hd.Span(), span, "span");
        double side = std::ldexp(span, -d);
        for (int z = 0; z <= lim; z++)
        {
            K k{d, x, y, z};
            copc::Box b(vk(k), hd);
            double mn[3] = {h.mn.x + side * x, h.mn.y + side * y, h.mn.z + side * z};
            c.checks++;
            if (b.x_min != mn[0] || b.y_min != mn[1] || b.z_min != mn[2] || b.x_max != mn[0] + side || b.y_max != mn[1] + side ||
                b.z_max != mn[2] + side)
                c.fail("cell", cat("cell of ", k, " is ", b));
            c.step();
            c.state(cat(h.mn.x, k));
            // predicates of the key against boxes around its cell
            double s = side > 0 ? side : 1;
            for (int ax = 0; ax < 3; ax++)
                for (int lo = -2; lo <= 4; lo++)
                    for (int hi = lo; hi <= 6; hi++)
                    {
                        double bmn[3], bmx[3];
                        for (int i = 0; i < 3; i++)
                        {
                            bmn[i] = mn[i];
                            bmx[i] = mn[i] + side;
                        }
                        bmn[ax] = mn[ax] + lo * s / 2;
                        bmx[ax] = mn[ax] + hi * s / 2;
                        bool meets = bmn[ax] <= mn[ax] + side && bmx[ax] >= mn[ax];
                        bool within = bmn[ax] <= mn[ax] && bmx[ax] >= mn[ax] + side;
                        bool contains = bmn[ax] >= mn[ax] && bmx[ax] <= mn[ax] + side;
                        copc::Box q(bmn[0], bmn[1], bmn[2], bmx[0], bmx[1], bmx[2]);
                        auto key = vk(k);
                        c.checks += 5;
                        c.step(5);
                        if (key.Intersects(hd, q) != meets)
                            c.fail("key Intersects", cat(k, " ", q));
                        if (key.Within(hd, q) != within)
                            c.fail("key Within", cat(k, " ", q));
                        if (key.Contains(hd, q) != contains)
                            c.fail("key Contains", cat(k, " ", q));
                        if (key.Crosses(hd, q) != (meets && !within))
                            c.fail("key Crosses", cat(k, " ", q));
                        bool pin = bmn[ax] >= mn[ax] && bmn[ax] <= mn[ax] + side;
                        if (key.Contains(hd, copc::Vector3(bmn[0], bmn[1], bmn[2])) != pin)
                            c.fail("key Contains point", cat(k, " ", bmn[0], ",", bmn[1], ",", bmn[2]));
                    }
        }
    });
    // cells of deep keys; every number here is exact
    mc::add("deep cells", [](Ctx &c) {
        int d = c.choose(36, "depth"), h = c.choose(4, "header bounds");
        double mn = h == 1 ? -16 : h == 2 ? 1 << 16 : 0, span = h == 3 ? 1 << 30 : h == 2 ? 4 : 8;
        cl::LasHeader hd(6, 30, copc::Vector3(1, 1, 1), copc::Vector3(0, 0, 0), true);
        hd.min = {mn, mn, mn};
        hd.max = {mn + 1, mn + span, mn + span / 4};
        double side = std::ldexp(span, -d);
        int64_t last = std::min<int64_t>(((int64_t)1 << d) - 1, INT32_MAX);
        std::set<int64_t> at{0, 1, 2, last / 3, last / 2, last / 2 + 1, last - 1, last};
        for (int64_t x : at)
            for (int64_t y : at)
                for (int64_t z : at)
                {
                    if (x < 0 || y < 0 || z < 0 || x > last || y > last || z > last)
                        continue;
                    copc::VoxelKey k(d, (int32_t)x, (int32_t)y, (int32_t)z);
                    copc::Box b(k, hd);
                    c.step();
                    c.eq(b.x_min == mn + side * (double)x && b.y_min == mn + side * (double)y && b.z_min == mn + side * (double)z, true, cat("low corner of the cell of ", k));
                    c.eq(b.x_max == mn + side * (double)(x + 1) && b.y_max == mn + side * (double)(y + 1) && b.z_max == mn + side * (double)(z + 1), true,
                         cat("high corner of the cell of ", k));
                    // its own cell, a corner and the next cell
                    copc::Box next(b.x_max, b.y_min, b.z_min, b.x_max + side, b.y_max, b.z_max), away(b.x_max + side / 2, b.y_min, b.z_min, b.x_max + side, b.y_max, b.z_max);
                    c.eq(k.Intersects(hd, b) && k.Within(hd, b) && k.Contains(hd, b) && !k.Crosses(hd, b), true, cat("cell of ", k, " and itself"));
                    c.eq(k.Intersects(hd, next) && !k.Within(hd, next) && !k.Contains(hd, next) && k.Crosses(hd, next), true, cat("cell of ", k, " and the next"));
                    c.eq(!k.Intersects(hd, away) && !k.Within(hd, away) && !k.Contains(hd, away) && !k.Crosses(hd, away), true, cat("cell of ", k, " and one apart"));
                    c.eq(k.Contains(hd, copc::Vector3(b.x_max, b.y_min, b.z_max)), true, cat("cell of ", k, " and its corner"));
                    c.eq(k.Contains(hd, copc::Vector3(b.x_max + side / 2, b.y_min, b.z_max)), false, cat("cell of ", k, " and a point outside"));
                }
        c.state(cat(d, h));
    });
    mc::add("header bounds", [](Ctx &c) {
        double v[6];
        static const std::vector<double> V = {0, 1, -2.5};
        for (int i = 0; i < 6; i++)
            v[i] = c.pick(V, "value");
        cl::LasHeader h(6, 30, copc::Vector3(1, 1, 1), copc::Vector3(0, 0, 0), true);
        h.min = {v[0], v[1], v[2]};
        h.max = {v[3], v[4], v[5]};
        bool bad = v[3] < v[0] || v[4] < v[1] || v[5] < v[2];
        c.eq(h.Span(), std::max({v[3] - v[0], v[4] - v[1], v[5] - v[2]}), "span");
        copc::Box b;
        c.eq(throws([&] { b = h.Bounds(); }), bad, "bounds with a minimum above a maximum");
        if (!bad)
            c.eq(b.x_min == v[0] && b.y_min == v[1] && b.z_min == v[2] && b.x_max == v[3] && b.y_max == v[4] && b.z_max == v[5], true, "bounds");
        c.step(2);
        c.state(cat(v[0], v[1], v[2], v[3], v[4], v[5]));
    });
    mc::add("growing bounds", [](Ctx &c) {
        // bounds already there: none (reversed), of one point, wide, and reaching the limits
        static const std::vector<std::array<double, 2>> B = {{DBL_MAX, -DBL_MAX}, {0, 0}, {-1.5, 2}, {-DBL_MAX, DBL_MAX}};
        static const std::vector<double> V = {-2, 0, 1, 3.25};
        auto b = c.pick(B, "bounds before");
        cl::LasHeader h(6, 30, copc::Vector3(0.25, 0.25, 0.25), copc::Vector3(0, 0, 0), true);
        double mn[3], mx[3];
        for (int i = 0; i < 3; i++)
        {
            mn[i] = b[0] + (b[0] == -1.5 ? i : 0);
            mx[i] = b[1] + (b[0] == -1.5 ? 2 * i : 0);
        }
        h.min = {mn[0], mn[1], mn[2]};
        h.max = {mx[0], mx[1], mx[2]};
        int n = c.choose(mc::thorough() ? 4 : 3, "points");
        for (int k = 0; k < n; k++)
        {
            double v[3];
            for (int i = 0; i < 3; i++)
                v[i] = c.pick(V, "coordinate");
            cl::Point p(6);
            p.X(v[0]);
            p.Y(v[1]);
            p.Z(v[2]);
            c.op(cat("CheckAndUpdateBounds(", v[0], ",", v[1], ",", v[2], ")"));
            h.CheckAndUpdateBounds(p);
            c.step();
            for (int i = 0; i < 3; i++)
            {
                mn[i] = std::min(mn[i], v[i]);
                mx[i] = std::max(mx[i], v[i]);
            }
            c.eq(h.min.x == mn[0] && h.min.y == mn[1] && h.min.z == mn[2], true, "minimum of the grown bounds");
            c.eq(h.max.x == mx[0] && h.max.y == mx[1] && h.max.z == mx[2], true, "maximum of the grown bounds");
            c.eq(p.X() == v[0] && p.Y() == v[1] && p.Z() == v[2], true, "the point is unchanged");
        }
        c.state(cat(h.min.x, h.min.y, h.min.z, h.max.x, h.max.y, h.max.z));
    });
}
