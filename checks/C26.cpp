// C26: bulk accessors of a point collection match its points.
#include "common.hpp"

static const copc::Vector3 S(0.01, 0.01, 0.01), O(0, 0, 0);

// PointSourceId takes 16-bit values; accept an 8-bit setter too so that the difference shows as a wrong value
template <typename T, typename = void> struct Wide : std::false_type
{
};
template <typename T>
struct Wide<T, std::void_t<decltype(std::declval<T &>().PointSourceId(std::declval<const std::vector<uint16_t> &>()))>> : std::true_type
{
};
template <typename P> void set_source(P &p, const std::vector<uint16_t> &v)
{
    if constexpr (Wide<P>::value)
        p.PointSourceId(v);
    else
        p.PointSourceId(std::vector<uint8_t>(v.begin(), v.end()));
}

struct Attr
{
    const char *name;
    int fmt; // formats below this one lack the attribute
    std::function<std::vector<double>(cl::Points &)> get;
    std::function<void(cl::Points &, const std::vector<double> &)> set;
    std::function<double(const Rec &)> field;
    std::function<void(Rec &, double)> put;
    std::vector<double> values;
};
template <typename V> std::vector<double> dbl(const V &v) { return std::vector<double>(v.begin(), v.end()); }
template <typename T> std::vector<T> as(const std::vector<double> &v)
{
    std::vector<T> o;
    for (double d : v)
        o.push_back((T)d);
    return o;
}
static const std::vector<Attr> &attrs()
{
    static const std::vector<double> C{0, 1, -1, 0.01, 12345.67, -2147483.64}, U8{0, 1, 127, 128, 255}, U16{0, 255, 256, 0x0102, 32768, 65535};
#define A(NAME, F, TYPE, FIELD, UNIT, VALS)                                                                                                \
    Attr { #NAME, F, [](cl::Points &p) { return dbl(p.NAME()); }, [](cl::Points &p, const std::vector<double> &v) { p.NAME(as<TYPE>(v)); }, \
           [](const Rec &r) { return (double)r.FIELD * UNIT; }, [](Rec &r, double v) { r.FIELD = (decltype(r.FIELD))std::llround(v / UNIT); }, VALS }
    static const std::vector<Attr> v{
        A(X, 6, double, x, 0.01, C), A(Y, 6, double, y, 0.01, C), A(Z, 6, double, z, 0.01, C), A(Classification, 6, uint8_t, cls, 1, U8),
        A(Red, 7, uint16_t, r, 1, U16), A(Green, 7, uint16_t, g, 1, U16), A(Blue, 7, uint16_t, b, 1, U16),
        Attr{"PointSourceId", 6, [](cl::Points &p) { return dbl(p.PointSourceId()); },
             [](cl::Points &p, const std::vector<double> &x) { set_source(p, as<uint16_t>(x)); }, [](const Rec &r) { return (double)r.source; },
             [](Rec &r, double x) { r.source = (uint16_t)x; }, U16}};
    return v;
}
static void same(Ctx &c, cl::Points &ps, const std::vector<Rec> &m, const std::string &when)
{
    c.eq(ps.Size(), m.size(), "size " + when);
    for (size_t i = 0; i < m.size(); i++)
    {
        Rec r = to_rec(*ps.Get(i), S, O);
        c.check(r.bytes() == m[i].bytes(), "points " + when, cat("point ", i, " ", when, ": ", mc::hex(r.bytes(), 60), " want ", mc::hex(m[i].bytes(), 60)));
    }
    for (auto &a : attrs())
    {
        if (!m.empty() && m[0].fmt < a.fmt)
        {
            c.check(throws([&] { a.get(ps); }), "getter of a missing attribute", cat(a.name, " of a format that lacks it"));
            continue;
        }
        auto g = a.get(ps);
        c.eq(g.size(), m.size(), cat(a.name, " getter size"));
        for (size_t i = 0; i < m.size(); i++)
            c.check(std::fabs(g[i] - a.field(m[i])) < 1e-9, "getter", cat(a.name, "[", i, "] ", when, ": ", g[i], " want ", a.field(m[i])));
    }
}
static std::vector<Rec> start(int fmt, int n, cl::Points &ps)
{
    std::vector<Rec> m;
    for (int i = 0; i < n; i++)
    {
        m.push_back(w::make_rec(fmt, 2, i));
        ps.AddPoint(to_point(m.back(), S, O));
    }
    return m;
}

MC_SCENARIOS
{
    // every history of two (thorough: three) setter calls, right and wrong sizes
    mc::add("setters", [](Ctx &c)
    {
        int fmt = 6 + c.choose(3, "format");
        int n = c.choose(4, "points");
        cl::Points ps((int8_t)fmt, 2);
        auto m = start(fmt, n, ps);
        int depth = mc::thorough() ? 3 : 2;
        for (int d = 0; d < depth; d++)
        {
            auto &a = c.pick(attrs(), "attribute");
            // number of values: as many as points, none, one less, one more, twice as many
            int kind = c.choose(5, "count");
            int k = kind == 0 ? n : kind == 1 ? 0 : kind == 2 ? n - 1 : kind == 3 ? n + 1 : 2 * n;
            if (k < 0 || (kind && k == n))
                return;
            int rot = c.choose((int)(kind ? 1 : d == 0 && mc::thorough() ? a.values.size() : 2), "values") * (d + 1);
            std::vector<double> v;
            for (int i = 0; i < k; i++)
                v.push_back(a.values[(size_t)(i + rot) % a.values.size()]);
            bool ok = k == n && (n == 0 || fmt >= a.fmt);
            c.op(cat(a.name, "(", k, " values)"));
            bool t = throws([&] { a.set(ps, v); });
            c.check(t == !ok, "setter rejects", cat(a.name, " with ", k, " values on ", n, " points of format ", fmt, t ? " rejected" : " accepted"));
            if (ok)
                for (int i = 0; i < n; i++)
                    a.put(m[(size_t)i], v[(size_t)i]);
            same(c, ps, m, cat("after ", a.name, "(", k, ")"));
            std::string st;
            for (auto &r : m)
                st += r.bytes();
            c.state(cat(fmt, st));
        }
        c.outcome("done");
    }, 0, 8);

    // every single 16-bit and 8-bit value in every position
    mc::add("values", [](Ctx &c)
    {
        auto &a = c.pick(attrs(), "attribute");
        int n = 1 + c.choose(3, "points"), at = c.choose(n, "position");
        cl::Points ps(8, 2);
        auto m = start(8, n, ps);
        int top = a.values.back() == 255 ? 255 : a.values.back() == 65535 ? 65535 : 2000;
        auto v = a.get(ps);
        for (int x = 0; x <= top; x++)
        {
            c.step();
            double val = a.values.back() < 0 ? (x - 1000) * 0.37 : x;
            v[(size_t)at] = val;
            a.set(ps, v);
            auto g = a.get(ps);
            c.check(g == v, "set-get", cat(a.name, "[", at, "]=", val, " reads back as ", g[(size_t)at]));
            c.checks += 2;
            if (std::fabs(a.field(to_rec(*ps.Get((size_t)at), S, O)) - val) > 0.0051)
                c.fail("set", cat(a.name, "[", at, "]=", val, " not in the point"));
            c.state(cat(a.name, at, ":", val));
        }
    });

    // selection by box: every subset of points inside, on the border, outside
    mc::add("within", [](Ctx &c)
    {
        int n = c.choose(mc::thorough() ? 5 : 4, "points");
        static const std::vector<copc::Vector3> spots{{0.5, 0.5, 0.5}, {0, 0, 0}, {1, 1, 1}, {1, 0.5, 0.5}, {1.01, 0.5, 0.5}, {0.5, -0.01, 0.5}, {0.5, 0.5, 2}, {0.5, 0.5, -1}, {-3, 0.2, 0.2}, {0.2, 7, 0.2}};
        static const std::vector<bool> in{true, true, true, true, false, false, false, false, false, false};
        // a unit of 1, or a very small one far from the origin
        double unit = c.flip("small unit") ? std::ldexp(1, -20) : 1, far = unit == 1 ? 0 : 4194304;
        copc::Box box(far, -far, far, far + unit, unit - far, far + unit);
        cl::Points ps(7, 1);
        std::vector<std::shared_ptr<cl::Point>> want;
        bool all = true;
        std::string key = unit == 1 ? "" : "small ";
        for (int i = 0; i < n; i++)
        {
            int s = c.choose((int)spots.size(), "spot");
            auto p = ps.CreatePoint();
            p->X(far + unit * spots[(size_t)s].x);
            p->Y(unit * spots[(size_t)s].y - far);
            p->Z(far + unit * spots[(size_t)s].z);
            p->UserData((uint8_t)i);
            ps.AddPoint(p);
            key += cat(s, ".");
            c.op(cat("point at spot ", s));
            all = all && in[(size_t)s];
            if (in[(size_t)s])
                want.push_back(p);
            c.check(p->Within(box) == in[(size_t)s], "point within", cat("Point::Within at spot ", s));
        }
        c.state(key);
        c.check(ps.Within(box) == all, "all within", "Points::Within");
        auto got = ps.GetWithin(box);
        c.check(got == want, "select", cat("GetWithin selects ", got.size(), " of ", n, ", want ", want.size()));
        c.eq(ps.Size(), (size_t)n, "GetWithin changed the collection");
        // element access agrees with iteration
        size_t i = 0;
        for (auto &p : ps)
        {
            c.check(p == ps.Get(i) && p == ps[i] && p == ps.Get()[i] && p->UserData() == i, "order", "iteration order");
            i++;
        }
        c.eq(i, (size_t)n, "iteration length");
    }, 0, 2);

    // more points than 8 or 16 bits can count
    mc::add("large", [](Ctx &c)
    {
        int n = c.pick(std::vector<int>{127, 128, 255, 256, 257, 1000, 4097, 65535, 65536, 65537, 70000}, "points");
        int which = c.choose((int)attrs().size() + 4, "attribute or selection");
        cl::Points ps(8, 2);
        auto m = start(8, n, ps);
        auto compare = [&](const std::string &when)
        {
            c.eq(ps.Size(), (size_t)n, "size " + when);
            for (int i = 0; i < n; i++)
                if (to_rec(*ps.Get((size_t)i), S, O).bytes() != m[(size_t)i].bytes())
                    c.fail("points " + when, cat("point ", i, " of ", n, " ", when));
            for (auto &a : attrs())
            {
                auto g = a.get(ps);
                c.eq(g.size(), (size_t)n, cat(a.name, " getter size"));
                for (int i = 0; i < n; i++)
                    if (!(std::fabs(g[(size_t)i] - a.field(m[(size_t)i])) < 1e-9))
                        c.fail("getter", cat(a.name, "[", i, "] of ", n, " ", when, ": ", g[(size_t)i], " want ", a.field(m[(size_t)i])));
                c.checks += (uint64_t)n * 2;
            }
        };
        c.op(cat(n, " points"));
        c.state(cat(n, "/", which));
        c.step((uint64_t)n);
        if (which < (int)attrs().size())
        {
            auto &a = attrs()[(size_t)which];
            std::vector<double> v;
            for (int i = 0; i < n; i++)
            {
                v.push_back(a.values.back() < 0 ? i * 0.25 : (i * 7 + 3) % ((int)a.values.back() + 1));
                a.put(m[(size_t)i], v.back());
            }
            a.set(ps, v);
            compare(cat("after ", a.name));
            v.pop_back();
            c.check(throws([&] { a.set(ps, v); }), "setter rejects", cat(a.name, " with one value less than ", n));
            compare(cat("after ", a.name, " was refused"));
            return;
        }
        // boxes that hold all, all but the last, all but the first, every third point
        int kind = which - (int)attrs().size();
        copc::Box box(0, 0, 0, 1, 1, 1);
        std::vector<double> x((size_t)n, 0.5);
        if (kind == 1)
            x.back() = 2;
        if (kind == 2)
            x.front() = -1;
        if (kind == 3)
            for (int i = 0; i < n; i++)
                x[(size_t)i] = i % 3 ? 5 : 0;
        ps.X(x);
        ps.Y(std::vector<double>((size_t)n, 0.25));
        ps.Z(std::vector<double>((size_t)n, 1));
        std::vector<std::shared_ptr<cl::Point>> want;
        for (int i = 0; i < n; i++)
            if (x[(size_t)i] >= 0 && x[(size_t)i] <= 1)
                want.push_back(ps.Get((size_t)i));
        c.check(ps.Within(box) == (kind == 0), "all within", cat("Points::Within of ", n));
        c.check(ps.GetWithin(box) == want, "select", cat("GetWithin selects ", ps.GetWithin(box).size(), " of ", n, ", want ", want.size()));
    }, 0, 4);
}
