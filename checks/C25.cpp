// C25: extents hold one correctly placed range per dimension.
#include "built.hpp"
#include "faulty.hpp"

using Ext = copc::CopcExtent;
using Exts = copc::CopcExtents;
using P = std::shared_ptr<Ext>;
struct Dim
{
    const char *name;
    P (Exts::*get)();
    void (Exts::*set)(P);
};
#define DIM(n) {#n, static_cast<P (Exts::*)()>(&Exts::n), static_cast<void (Exts::*)(P)>(&Exts::n)}
// in the order of the COPC specification
static const std::vector<Dim> &dims()
{
    static const std::vector<Dim> v{DIM(X), DIM(Y), DIM(Z), DIM(Intensity), DIM(ReturnNumber), DIM(NumberOfReturns), DIM(ScannerChannel), DIM(ScanDirectionFlag),
                                    DIM(EdgeOfFlightLine), DIM(Classification), DIM(UserData), DIM(ScanAngle), DIM(PointSourceId), DIM(GpsTime), DIM(Red),
                                    DIM(Green), DIM(Blue), DIM(Nir)};
    return v;
}
static int base_dims(int fmt) { return fmt == 6 ? 14 : fmt == 7 ? 17 : 18; }
using A4 = std::array<double, 4>;
static const std::vector<A4> &values()
{
    static const std::vector<A4> v{{1, 2, 3, 4}, {-1, -1, -1, 0}, {-DBL_MAX, DBL_MAX, 5e-324, DBL_MAX}, {-0.0, 0.0, -0.0, 0.0}, {0.1, 0.30000000000000004, 1e-9, 0.7}};
    return v;
}
static P ext(const A4 &a) { return std::make_shared<Ext>(a[0], a[1], a[2], a[3]); }
static std::string show(const std::vector<A4> &v)
{
    std::string o;
    for (auto &x : v)
        o += num(x[0]) + "/" + num(x[1]) + "/" + num(x[2]) + "/" + num(x[3]) + " ";
    return o;
}
static std::string show(const Exts &e)
{
    std::vector<A4> v;
    for (auto &x : e.Extents())
        v.push_back({x.minimum, x.maximum, x.mean, x.var});
    return show(v);
}
// what every way of reading them says
static void check_exts(Ctx &c, Exts &e, const std::vector<A4> &want, const char *who)
{
    c.check(show((const Exts &)e) == show(want), "extents", cat(who, ": extents are ", show((const Exts &)e), "\n  want ", show(want)));
    c.eq(e.NumberOfExtents(), want.size(), "number of extents");
    int fmt = e.PointFormatId();
    auto ps = e.Extents();
    c.eq(ps.size(), want.size(), "number of extents");
    for (size_t i = 0; i < dims().size(); i++)
    {
        bool has = (int)i < base_dims(fmt);
        P p;
        bool threw = throws([&] { p = (e.*dims()[i].get)(); });
        c.check(threw == !has, dims()[i].name, cat(who, ": ", dims()[i].name, " of format ", fmt, threw ? " is refused" : " is given"));
        if (has)
            c.check(p == ps[i] && num(p->minimum) == num(want[i][0]) && num(p->maximum) == num(want[i][1]) && num(p->mean) == num(want[i][2]) && num(p->var) == num(want[i][3]),
                    dims()[i].name, cat(who, ": ", dims()[i].name, " is not entry ", i));
    }
    auto eb = e.ExtraBytes();
    c.eq(eb.size(), want.size() - (size_t)base_dims(fmt), "number of extra-byte extents");
    for (size_t i = 0; i < eb.size(); i++)
        c.check(eb[i] == ps[(size_t)base_dims(fmt) + i], "extra-byte extent", cat(who, ": extra-byte extent ", i, " is not entry ", base_dims(fmt) + (int)i));
}
static std::vector<w::EbItem> ebs_of(int n)
{
    std::vector<w::EbItem> v((size_t)n);
    for (int i = 0; i < n; i++)
        v[(size_t)i].name = cat("f", i);
    return v;
}
// through a file
static void check_file(Ctx &c, const std::string &image, int fmt, int neb, bool stats, std::vector<A4> want)
{
    auto f = parse_or_fail(c, image, true);
    c.eq(f.extents.size(), want.size(), "stored number of extents");
    c.eq(f.has_stats, stats, "stored statistics");
    for (size_t i = 0; i < want.size(); i++)
    {
        c.check(num(f.extents[i].first) == num(want[i][0]) && num(f.extents[i].second) == num(want[i][1]), "stored extent",
                cat("extent ", i, " stored as ", f.extents[i].first, "/", f.extents[i].second, ", want ", want[i][0], "/", want[i][1]));
        if (stats)
            c.check(num(f.stats[i].first) == num(want[i][2]) && num(f.stats[i].second) == num(want[i][3]), "stored statistics",
                    cat("statistics ", i, " stored as ", f.stats[i].first, "/", f.stats[i].second, ", want ", want[i][2], "/", want[i][3]));
        else
            want[i][2] = 0, want[i][3] = 1;
    }
    c.check(num(f.info.gmin) == num(want[13][0]) && num(f.info.gmax) == num(want[13][1]), "stored GPS time",
            cat("GPS times stored in the info are ", f.info.gmin, "/", f.info.gmax, ", want ", want[13][0], "/", want[13][1]));
    std::istringstream in(image);
    copc::Reader r(&in);
    auto e = r.CopcConfig().CopcExtents();
    c.eq((int)e.PointFormatId(), fmt, "format of the extents");
    c.eq(e.HasExtendedStats(), stats, "extended statistics");
    c.eq((int)e.ExtraBytes().size(), neb, "extra-byte extents");
    check_exts(c, e, want, "read back");
}

MC_SCENARIOS
{
    // histories of settings, in memory and through a file
    mc::add("set", [](Ctx &c)
    {
        int fmt = 6 + c.choose(3, "format"), neb = c.pick(std::vector<int>{0, 1, 3}, "extra-byte fields");
        bool stats = c.flip("statistics");
        int where = c.choose(3, "where"); // extents alone, then a configuration; a configuration; a writer
        std::vector<A4> want((size_t)(base_dims(fmt) + neb), A4{0, 0, 0, 1});
        Exts alone((int8_t)fmt, (uint16_t)neb, stats);
        copc::CopcConfigWriter cfg((int8_t)fmt, {1, 1, 1}, {0, 0, 0}, "", eb_vlr_of(ebs_of(neb)), stats);
        std::stringstream out;
        std::shared_ptr<copc::Writer> wr;
        if (where == 2)
            wr = std::make_shared<copc::Writer>(out, cfg);
        std::shared_ptr<Exts> e = where == 0 ? std::shared_ptr<Exts>(&alone, [](Exts *) {}) : where == 1 ? cfg.CopcExtents() : wr->CopcConfig()->CopcExtents();
        check_exts(c, *e, want, "new");
        int depth = mc::thorough() ? 3 : 2, first = 0;
        for (int step = 0; step < depth; step++)
        {
            int i = c.choose((int)want.size() + 1, "dimension");
            if (i == (int)want.size())
                break;
            int v = step == 0 ? c.choose((int)values().size(), "value") : (step + i) % (int)values().size();
            int how = step == 0 ? c.choose(4, "how") : (i + step) % 4;
            auto &a = values()[(size_t)v];
            c.op(cat("set entry ", i, " to value ", v, " in way ", how));
            bool base = i < base_dims(fmt);
            first = step == 0 ? v + how : first;
            if (first && !mc::thorough())
                depth = 1; // the longer histories start with the first value and way
            switch (how)
            {
            case 0: // replace the entry
                if (base)
                    ((*e).*dims()[(size_t)i].set)(ext(a));
                else
                {
                    auto eb = e->ExtraBytes();
                    eb[(size_t)(i - base_dims(fmt))] = ext(a);
                    e->ExtraBytes(eb);
                }
                break;
            case 1: // change the entry
                if (base)
                    *((*e).*dims()[(size_t)i].get)() = *ext(a);
                else
                    *e->ExtraBytes()[(size_t)(i - base_dims(fmt))] = *ext(a);
                break;
            case 2: // change it in the list of all
                *e->Extents()[(size_t)i] = Ext(std::vector<double>{a[0], a[1], a[2], a[3]});
                break;
            case 3: // change its values
            {
                auto p = e->Extents()[(size_t)i];
                p->minimum = a[0], p->maximum = a[1], p->mean = a[2], p->var = a[3];
                break;
            }
            }
            want[(size_t)i] = a;
            check_exts(c, *e, want, "after setting");
            c.state(show(want));
        }
        // dimensions the format lacks
        for (int i = base_dims(fmt); i < (int)dims().size(); i++)
            c.check(throws([&] { ((*e).*dims()[(size_t)i].set)(ext({1, 2, 3, 4})); }), "missing dimension", cat("format ", fmt, " lets ", dims()[(size_t)i].name, " be set"));
        for (int n = 0; n < neb + 3; n++)
            if (n != neb)
                c.check(throws([&] { e->ExtraBytes(std::vector<P>((size_t)n, ext({1, 2, 3, 4}))); }), "list length", cat(n, " extra-byte extents accepted instead of ", neb));
        for (int i = 0; i < (int)dims().size(); i++)
            c.check(throws([&] { ((*e).*dims()[(size_t)i].set)(nullptr); }), "null extent", cat(dims()[(size_t)i].name, " can be set to nothing"));
        for (int i = 0; i < neb; i++)
        {
            auto eb = e->ExtraBytes();
            eb[(size_t)i] = nullptr;
            c.check(throws([&] { e->ExtraBytes(eb); }), "null extent", "extra-byte extents can be set to nothing");
        }
        check_exts(c, *e, want, "after refusals");
        Exts copy(*e), copy2((int8_t)(6 + (fmt + 1) % 3), 2);
        check_exts(c, copy, want, "copy");
        copy2 = *e;
        check_exts(c, copy2, want, "assigned copy");
        c.eq(copy2.HasExtendedStats(), stats, "statistics of the copy");
        if (where != 2)
        {
            std::unique_ptr<copc::CopcConfigWriter> made;
            if (where == 0)
                made = std::make_unique<copc::CopcConfigWriter>(*cfg.LasHeader(), *cfg.CopcInfo(), alone, "", cfg.ExtraBytesVlr());
            else
                made = std::make_unique<copc::CopcConfigWriter>(cfg);
            wr = std::make_shared<copc::Writer>(out, *made);
        }
        wr->Close();
        check_file(c, out.str(), fmt, neb, stats, want);
    }, 0, 8);
    // every entry at once, all numbers of extra bytes
    mc::add("all entries", [](Ctx &c)
    {
        int fmt = 6 + c.choose(3, "format"), neb = c.pick(std::vector<int>{0, 1, 2, 3, 10, 100, 255, 256, 300}, "extra-byte fields");
        bool stats = c.flip("statistics"), add = c.flip("with points");
        std::vector<A4> want;
        copc::CopcConfigWriter cfg((int8_t)fmt, {1, 1, 1}, {0, 0, 0}, "", eb_vlr_of(ebs_of(neb)), stats);
        auto e = cfg.CopcExtents();
        c.eq((int)e->NumberOfExtents(), base_dims(fmt) + neb, "number of extents");
        c.eq(Exts::NumberOfExtents((int8_t)fmt, (uint16_t)neb), base_dims(fmt) + neb, "number of extents");
        c.eq(Exts::ByteSize((int8_t)fmt, (uint16_t)neb), (size_t)(16 * (base_dims(fmt) + neb)), "byte size");
        for (int i = 0; i < base_dims(fmt) + neb; i++)
        {
            want.push_back({-1.0 - i, 1000.0 + i, 0.5 * i, 2.0 * i});
            *e->Extents()[(size_t)i] = *ext(want.back());
        }
        c.op(cat("format ", fmt, " with ", neb, " extra-byte fields"));
        check_exts(c, *e, want, "configuration");
        std::stringstream out;
        copc::Writer wr(out, cfg);
        if (add)
            wr.AddNode(copc::VoxelKey::RootKey(), vec(w::make_recs(fmt, neb, 3, 2)));
        wr.Close();
        check_file(c, out.str(), fmt, neb, stats, want);
        c.state(cat(fmt, neb, stats, add));
    });
    // a single range
    mc::add("ranges", [](Ctx &c)
    {
        static const std::vector<double> D{-DBL_MAX, -1, -5e-324, -0.0, 0, 5e-324, 1, 1 + DBL_EPSILON, DBL_MAX, -HUGE_VAL, HUGE_VAL};
        double a = c.pick(D, "minimum"), b = c.pick(D, "maximum"), m = c.pick(std::vector<double>{0, -1, DBL_MAX}, "mean"), v = c.pick(D, "variance");
        c.op(cat("range ", num(a), " ", num(b), " ", num(m), " ", num(v)));
        bool bad2 = a > b, bad4 = bad2 || v < 0;
        auto check = [&](const char *how, bool bad, bool four, const std::function<Ext()> &f)
        {
            std::unique_ptr<Ext> e;
            bool threw = throws([&] { e = std::make_unique<Ext>(f()); });
            c.check(threw == bad, how, cat(how, threw ? " refused" : " accepted"));
            if (!bad)
                c.check(num(e->minimum) == num(a) && num(e->maximum) == num(b) && num(e->mean) == num(four ? m : 0) && num(e->var) == num(four ? v : 1), how,
                        cat(how, " gives ", e->ToString()));
        };
        check("two values", bad2, false, [&] { return Ext(a, b); });
        check("four values", bad4, true, [&] { return Ext(a, b, m, v); });
        check("list of two", bad2, false, [&] { return Ext(std::vector<double>{a, b}); });
        check("list of four", bad4, true, [&] { return Ext(std::vector<double>{a, b, m, v}); });
        Ext e, o;
        e.minimum = a, e.maximum = b, e.mean = m, e.var = v;
        check("copy", bad4, true, [&] { return Ext(e); });
        c.eq(e == o, a == 0 && b == 0 && m == 0 && v == 1, "equality");
        c.eq(e != o, !(a == 0 && b == 0 && m == 0 && v == 1), "inequality");
        for (int i = 0; i < 4; i++)
        {
            Ext p = e.minimum <= e.maximum && e.var >= 0 ? e : Ext(), q = p;
            c.check(p == q && !(p != q), "equality", "a copy is not equal");
            (i == 0 ? q.minimum : i == 1 ? q.maximum : i == 2 ? q.mean : q.var) = 123;
            c.check(p != q && !(p == q), "equality", cat("ranges that differ in value ", i, " are equal"));
        }
        c.state(cat(num(a), num(b), num(m), num(v)));
    }, 0, 4);
    mc::add("lists", [](Ctx &c)
    {
        for (int n = 0; n < 10; n++)
        {
            bool bad = throws([&] { Ext e(std::vector<double>((size_t)n, 1.0)); });
            c.check(bad == (n != 2 && n != 4), "list length", cat("a range from ", n, " values ", bad ? "refused" : "accepted"));
        }
        int fmt = c.choose(256, "format") - 128, neb = c.choose(3, "extra-byte fields");
        bool bad = throws([&] { Exts e((int8_t)fmt, (uint16_t)neb); });
        c.check(bad == (fmt < 6 || fmt > 8), "format", cat("extents of format ", fmt, bad ? " refused" : " accepted"));
        cl::CopcExtentsVlr v;
        int right = fmt >= 6 && fmt <= 8 ? base_dims(fmt) + neb : 14;
        for (int n = 0; n < right + 4; n++)
        {
            bool bad = throws([&] { Exts e(v, (int8_t)fmt, (uint16_t)neb, true); });
            c.check(bad == (fmt < 6 || fmt > 8 || n != right), "VLR", cat("a VLR of ", n, " entries for format ", fmt, " ", bad ? "refused" : "accepted"));
            if (fmt >= 6 && fmt <= 8)
                for (bool stats : {false, true})
                {
                    Exts e((int8_t)fmt, (uint16_t)neb, stats);
                    std::string before = show((const Exts &)e);
                    bool bad = throws([&] { e.SetExtendedStats(v); });
                    c.check(bad == (!stats || n != right), "statistics", cat("statistics of ", n, " entries for format ", fmt, " ", bad ? "refused" : "accepted"));
                    if (bad)
                        c.check(show((const Exts &)e) == before, "statistics", "refused statistics changed the extents");
                }
            v.items.emplace_back((double)n, n + 0.5);
        }
        c.state(cat(fmt, neb));
    });
    // extents made from those of another format
    mc::add("other format", [](Ctx &c)
    {
        static const std::vector<int> FIELDS{0, 1, 2, 3, 9, 17, 65, 256};
        int from = 6 + c.choose(3, "from"), to = 6 + c.choose(3, "to"), n1 = c.pick(FIELDS, "fields"), n2 = c.pick(FIELDS, "new fields");
        bool s1 = c.flip("statistics"), s2 = c.flip("new statistics");
        Exts a((int8_t)from, (uint16_t)n1, s1);
        std::vector<A4> v, want((size_t)(base_dims(to) + n2), A4{0, 0, 0, 1});
        for (int i = 0; i < base_dims(from) + n1; i++)
        {
            v.push_back({-1.0 - i, 1000.0 + i, 0.5 * i, 2.0 * i});
            *a.Extents()[(size_t)i] = *ext(v.back());
        }
        for (int i = 0; i < std::min(base_dims(from), base_dims(to)); i++)
            want[(size_t)i] = v[(size_t)i];
        if (n1 == n2)
            for (int i = 0; i < n1; i++)
                want[(size_t)(base_dims(to) + i)] = v[(size_t)(base_dims(from) + i)];
        c.op(cat("extents of format ", from, " with ", n1, " fields as format ", to, " with ", n2));
        MuteCout mute;
        Exts b(a, (int8_t)to, (uint16_t)n2, s2);
        c.eq(b.HasExtendedStats(), s2, "statistics");
        c.eq((int)b.PointFormatId(), to, "format");
        check_exts(c, b, want, "other format");
        check_exts(c, a, v, "original");
        // changing every entry of one leaves the other as it was
        for (auto &x : b.Extents())
            *x = Ext(-9, 9, 9, 9);
        check_exts(c, a, v, "original");
        c.state(cat(from, to, n1, n2, s1, s2));
    });
    // files of other software
    mc::add("other files", [](Ctx &c)
    {
        w::Builder b;
        b.fmt = 6 + c.choose(3, "format");
        b.ebs = ebs_of(c.choose(4, "extra-byte fields"));
        b.stats = c.flip("statistics");
        b.nodes = {{{0, 0, 0, 0}, {0, 0, 0, 0}, 2, 1}};
        int n = base_dims(b.fmt) + (int)b.ebs.size(), at = c.choose(n + 1, "entry");
        auto &v = c.pick(values(), "value");
        std::vector<A4> want;
        for (int i = 0; i < n; i++)
        {
            want.push_back(i == at ? v : A4{i - 50.0, i + 50.0, i + 0.25, i + 0.75});
            b.ext_values.push_back({want.back()[0], want.back()[1]});
            b.stat_values.push_back({want.back()[2], want.back()[3]});
            if (!b.stats)
                want.back()[2] = 0, want.back()[3] = 1;
        }
        // or of the wrong number
        if (at == n)
        {
            b.ext_more = c.pick(std::vector<int>{0, 0, -1, 1, -14, 5}, "extents too many");
            b.stat_more = b.stats ? c.pick(std::vector<int>{0, -1, 1, -14, 5}, "statistics too many") : 0;
        }
        std::string image = b.build();
        c.op(cat("format ", b.fmt, ", ", b.ebs.size(), " fields, ", b.ext_more, " and ", b.stat_more, " too many"));
        std::istringstream in(image);
        c.state(cat(show(want), b.ext_more, b.stat_more));
        if (b.ext_more || b.stat_more)
        {
            c.check(throws([&] { copc::Reader r(&in); }), "wrong number", "a file with the wrong number of extents is accepted");
            return;
        }
        copc::Reader r(&in);
        auto e = r.CopcConfig().CopcExtents();
        c.eq(e.HasExtendedStats(), b.stats, "statistics");
        check_exts(c, e, want, "read");
    }, 0, 4);
    // a file without extents
    mc::add("no extents", [](Ctx &c)
    {
        w::Builder b;
        b.fmt = 6 + c.choose(3, "format");
        b.ebs = ebs_of(c.choose(4, "extra-byte fields"));
        b.eb_place = 1 + c.choose(2, "place");
        b.extents = false;
        b.nodes = {{{0, 0, 0, 0}, {0, 0, 0, 0}, 2, 1}};
        std::istringstream in(b.build());
        copc::Reader r(&in);
        auto e = r.CopcConfig().CopcExtents();
        c.op("no extents in the file");
        c.eq(e.HasExtendedStats(), false, "statistics");
        check_exts(c, e, std::vector<A4>((size_t)base_dims(b.fmt) + b.ebs.size(), A4{0, 0, 0, 1}), "default");
        c.state(cat(b.fmt, b.ebs.size()));
    });
}
