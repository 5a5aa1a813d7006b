// C37: two values compare equal exactly when what they hold is equal.
#include "common.hpp"
#include <copc-lib/hierarchy/page.hpp>
#include <unordered_map>
#include <unordered_set>

namespace
{
// Every way of comparing agrees.
template <typename T> void compare(Ctx &c, T &a, T &b, bool want, const char *what)
{
    c.step(4);
    c.check((a == b) == want, what, cat(what, want ? ": equal values compare different" : ": different values compare equal"));
    c.check((b == a) == want, what, cat(what, ": comparison is not symmetric"));
    c.check(a == a && b == b, what, cat(what, ": a value differs from itself"));
    T ca(a), cb(b);
    c.check(ca == a && (ca == cb) == want, what, cat(what, ": a copy compares otherwise"));
    T da(b);
    da = a;
    c.check(da == a && (da == b) == want, what, cat(what, ": an assigned value compares otherwise"));
}
template <typename T> void differ(Ctx &c, T &a, T &b, bool want, const char *what)
{
    c.check((a != b) != want && (b != a) != want, what, cat(what, ": != is not the opposite of =="));
}
std::shared_ptr<cl::Point> from_bytes(const std::string &rec, int fmt, int eb, const copc::Vector3 &s, const copc::Vector3 &o)
{
    std::istringstream is(rec);
    return cl::Point::Unpack(is, (int8_t)fmt, s, o, (uint16_t)eb);
}
} // namespace

MC_SCENARIOS
{
    // all sets of up to two changed bits of a record
    mc::add("records", [](Ctx &c)
    {
        int fmt = 6 + c.choose(3, "format"), eb = c.pick(std::vector<int>{0, 3}, "extra bytes");
        copc::Vector3 s(0.01, 0.5, 0.001), o(0, 10, -3);
        std::string base = w::make_rec(fmt, eb, c.choose(2, "record")).bytes();
        int n = (int)base.size() * 8, i = c.choose(n + 1, "bit");
        auto p = from_bytes(base, fmt, eb, s, o);
        std::string x = base;
        auto flip = [&](std::string &b, int k) { b[(size_t)k / 8] = (char)(b[(size_t)k / 8] ^ (1 << k % 8)); };
        if (i)
            flip(x, i - 1);
        auto a = from_bytes(x, fmt, eb, s, o);
        compare(c, *p, *a, i == 0, "point");
        differ(c, *p, *a, i == 0, "point");
        for (int j = 0; j < n; j++)
            if (j != i - 1)
            {
                std::string y = base;
                flip(y, j);
                auto q = from_bytes(y, fmt, eb, s, o);
                c.check(!(*a == *q) && *a != *q && *q != *a, "point", "points of different records compare equal");
                flip(y, i ? i - 1 : j); // both bits, against one of them
                auto r = from_bytes(y, fmt, eb, s, o);
                c.check(!(*r == *q) && *r != *q, "point", "points of different records compare equal");
                c.step(2);
            }
        c.state(cat(fmt, eb, i, base.size()));
    }, 0, 2);

    // coordinates are compared with a tolerance of one millionth
    mc::add("coordinates", [](Ctx &c)
    {
        static const std::vector<double> D = {0, 1e-9, -1e-9, 9e-7, -9e-7, 1.1e-6, -1.1e-6, 1e-3, -1, 1e6};
        int fmt = 6 + c.choose(3, "format");
        double base = c.pick(std::vector<double>{0, 1.5, -300}, "base");
        double dx = c.pick(D, "x"), dy = c.pick(D, "y"), dz = c.pick(D, "z");
        cl::Point p((int8_t)fmt), q((int8_t)fmt);
        p.X(base), p.Y(base), p.Z(base);
        q.X(base + dx), q.Y(base + dy), q.Z(base + dz);
        auto ok = [](double d) { return std::fabs(d) < 1e-6; };
        bool want = ok(dx) && ok(dy) && ok(dz);
        compare(c, p, q, want, "coordinates");
        differ(c, p, q, want, "coordinates");
        c.state(cat(fmt, base, dx, dy, dz));
    });

    // formats, extra bytes, and conversions between them
    mc::add("formats", [](Ctx &c)
    {
        int f1 = 6 + c.choose(3, "format"), f2 = 6 + c.choose(3, "other format"), e1 = c.choose(5, "extra bytes"), e2 = c.choose(5, "other extra bytes");
        cl::Point p((int8_t)f1, (uint16_t)e1), q((int8_t)f2, (uint16_t)e2);
        compare(c, p, q, f1 == f2 && e1 == e2, "blank points");
        auto s = copc::Vector3(1, 1, 1), o = copc::Vector3(0, 0, 0);
        auto a = to_point(w::make_rec(f1, e1, 3), s, o);
        auto b = to_point(w::make_rec(f1, e1, 3), s, o);
        compare(c, *a, *b, true, "points made twice");
        b->ToPointFormat((int8_t)f2);
        compare(c, *a, *b, f1 == f2, "converted point");
        auto d = to_point(w::make_rec(f2, e1, 3), s, o);
        if (f2 <= f1) // nothing that the first format lacks
            compare(c, *b, *d, true, "converted point");
        c.state(cat(f1, f2, e1, e2));
    });

    mc::add("keys", [](Ctx &c)
    {
        std::vector<int> v = {-1, 0, 1, 2, 65536, INT32_MAX, INT32_MIN};
        auto pick = [&] { return copc::VoxelKey(c.pick(v, "d"), c.pick(v, "x"), c.pick(v, "y"), c.pick(v, "z")); };
        auto a = pick();
        std::unordered_map<copc::VoxelKey, int> m;
        std::unordered_set<copc::VoxelKey> s;
        std::hash<copc::VoxelKey> h;
        int n = 0;
        for (int d : v)
            for (int x : v)
                for (int y : v)
                    for (int z : v)
                    {
                        copc::VoxelKey b(d, x, y, z);
                        bool want = a.d == d && a.x == x && a.y == y && a.z == z;
                        c.check((a == b) == want && (b == a) == want && (a != b) != want, "key", "keys " + a.ToString() + " and " + b.ToString() + " compare wrongly");
                        if (want)
                            c.check(h(a) == h(b), "hash", "equal keys have different hashes");
                        c.step(1);
                        m[b] = n;
                        s.insert(b);
                        n++;
                    }
        compare(c, a, a, true, "key");
        c.eq(m.size(), (size_t)n, "keys in a map");
        c.eq(s.size(), (size_t)n, "keys in a set");
        n = 0;
        for (int d : v)
            for (int x : v)
                for (int y : v)
                    for (int z : v)
                        c.eq(m.at(copc::VoxelKey(d, x, y, z)), n++, "value of a key");
        c.state(a.ToString());
    }, 1, 2);
    mc::add("few keys", [](Ctx &c)
    {
        std::vector<int> v = {-1, 0, 1, 65536};
        auto pick = [&] { return copc::VoxelKey(c.pick(v, "d"), c.pick(v, "x"), c.pick(v, "y"), c.pick(v, "z")); };
        auto a = pick(), b = pick();
        bool want = a.d == b.d && a.x == b.x && a.y == b.y && a.z == b.z;
        compare(c, a, b, want, "key");
        differ(c, a, b, want, "key");
        std::hash<copc::VoxelKey> h;
        c.check(!want || h(a) == h(b), "hash", "equal keys have different hashes");
        std::unordered_map<copc::VoxelKey, int> m;
        m[a] = 1;
        m[b] = 2;
        c.eq(m.size(), want ? 1u : 2u, "keys in a map");
        c.eq(m.at(a), want ? 2 : 1, "value of a key");
        c.state(a.ToString() + b.ToString());
    }, 0, 2);

    // entries of the hierarchy
    mc::add("nodes and pages", [](Ctx &c)
    {
        static const std::vector<copc::VoxelKey> ks = {{0, 0, 0, 0}, {1, 0, 0, 0}, {1, 0, 0, 1}, {1, 0, 1, 0}, {1, 1, 0, 0}};
        static const std::vector<uint64_t> off = {0, 589, 1ull << 32, (1ull << 32) + 589, UINT64_MAX};
        static const std::vector<int32_t> size = {0, 589, -1, INT32_MAX};
        struct E
        {
            int k, o, s, n;
        };
        auto pick = [&] { return E{c.choose(5, "key"), c.choose(5, "offset"), c.choose(4, "size"), c.choose(4, "count")}; };
        E e = pick();
        auto entry = [&](const E &e) { return copc::Entry(ks[(size_t)e.k], off[(size_t)e.o], size[(size_t)e.s], size[(size_t)e.n]); };
        for (int k = 0; k < 5; k++)
            for (int o = 0; o < 5; o++)
                for (int s = 0; s < 4; s++)
                    for (int n = 0; n < 4; n++)
                    {
                        E f{k, o, s, n};
                        bool want = e.k == k && e.o == o && e.s == s && e.n == n;
                        copc::Node a(entry(e)), b(entry(f));
                        compare(c, a, b, want, "node");
                        copc::Page p(entry(e)), q(entry(f));
                        compare(c, p, q, want, "page");
                        q.loaded = true;
                        c.check(!(p == q) && !(q == p), "page", "a loaded and an unloaded page compare equal");
                        p.loaded = true;
                        c.check((p == q) == want, "page", "loaded pages compare wrongly");
                    }
        c.state(cat(e.k, e.o, e.s, e.n));
    });

    mc::add("vectors and extents", [](Ctx &c)
    {
        static const std::vector<double> D = {0, -0.0, 1, std::nextafter(1.0, 2.0), -1, 1e300};
        bool ext = c.flip("extents");
        double a[4], b[4];
        int n = ext ? 4 : 3;
        for (int i = 0; i < n; i++)
            a[i] = c.pick(D, "value");
        if (ext)
        {
            if (a[0] > a[1] || a[3] < 0)
                return;
            copc::CopcExtent x(a[0], a[1], a[2], a[3]);
            for (int k = 0; k < 1296; k++)
            {
                bool want = true;
                for (int i = 0, m = k; i < 4; i++, m /= 6)
                    b[i] = D[(size_t)(m % 6)], want = want && a[i] == b[i];
                if (b[0] > b[1] || b[3] < 0)
                    continue;
                copc::CopcExtent y(b[0], b[1], b[2], b[3]);
                c.check((x == y) == want && (y == x) == want && (x != y) != want, "extent", "extents compare wrongly");
                c.step();
            }
            compare(c, x, x, true, "extent");
        }
        else
            for (int k = 0; k < 216; k++)
            {
                bool want = true;
                for (int i = 0, m = k; i < 3; i++, m /= 6)
                    b[i] = D[(size_t)(m % 6)], want = want && a[i] == b[i];
                copc::Vector3 x(a[0], a[1], a[2]), y(b[0], b[1], b[2]);
                compare(c, x, y, want, "vector");
            }
        c.state(cat(ext, a[0], a[1], a[2], a[3]));
    });

    // every byte of an extra-byte description, and every pair of them
    mc::add("extra bytes", [](Ctx &c)
    {
        auto field = []
        {
            w::EbItem i;
            i.type = 5;
            i.options = 0x1f;
            i.name = "name";
            i.desc = "a description";
            for (int k = 0; k < 3; k++)
                i.nodata[k] = 1 + k, i.mn[k] = -2.5 - k, i.mx[k] = 1e9 * (k + 1), i.scale[k] = 0.01 * (k + 1), i.off[k] = 1e-9 * k;
            auto f = eb_field(i);
            f.reserved[0] = 1;
            f.reserved[1] = 2;
            return f;
        };
        using F = cl::EbVlr::ebfield;
        auto change = [](F &f, int k)
        {
            if (k < 2)
                f.reserved[k] ^= 0x40;
            else if (k == 2)
                f.data_type ^= 1;
            else if (k == 3)
                f.options ^= 1;
            else if (k < 8)
                f.name[(size_t)k - 4] ^= 1;
            else if (k == 8)
                f.name += "e";
            else if (k < 22)
                f.description[(size_t)k - 9] ^= 1;
            else if (k == 22)
                f.description += "n";
            else
            {
                k -= 23;
                char *at[5] = {(char *)f.no_data, (char *)f.minval, (char *)f.maxval, (char *)f.scale, (char *)f.offset};
                at[k / 24][k % 24] ^= 1;
            }
        };
        const int N = 23 + 5 * 24;
        int i = c.choose(N + 1, "byte");
        F a = field(), b = field();
        if (i)
            change(b, i - 1);
        compare(c, a, b, i == 0, "extra byte field");
        cl::EbVlr u(0), v(0), w(0);
        u.addField(field()), u.addField(a);
        v.addField(field()), v.addField(b);
        w.addField(b);
        c.check((u.items == v.items) == (i == 0), "extra byte fields", "descriptions of extra bytes compare wrongly");
        c.check(!(u.items == w.items), "extra byte fields", "descriptions of different length compare equal");
        for (int j = 0; j < N; j++)
            if (j != i - 1)
            {
                F d = field();
                change(d, j);
                c.check(!(d == b) && !(b == d), "extra byte field", "different descriptions of extra bytes compare equal");
                c.step();
            }
        c.state(cat(i));
    });
};
