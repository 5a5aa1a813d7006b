// C16: point collections stay homogeneous; format conversion keeps attributes.
#include "common.hpp"

static const copc::Vector3 S(0.01, 0.01, 0.01), O(1, 2, 3);

struct MP // model point; lost: had colour (1) or infrared (2) before a conversion dropped them
{
    Rec r;
    int lost = 0;
};
static void convert(MP &p, int fmt)
{
    if (p.r.fmt >= 7 && fmt < 7)
        p.lost |= 1;
    if (p.r.fmt == 8 && fmt < 8)
        p.lost |= 2;
    if (p.r.fmt < 7 && fmt >= 7 && !(p.lost & 1))
        p.r.r = p.r.g = p.r.b = 0;
    if (p.r.fmt < 8 && fmt == 8 && !(p.lost & 2))
        p.r.nir = 0;
    p.r.fmt = fmt;
}
static void same_point(Ctx &c, const cl::Point &p, MP &m, const std::string &when)
{
    c.check(p.PointFormatId() == m.r.fmt && p.HasRgb() == (m.r.fmt >= 7) && p.HasNir() == (m.r.fmt == 8), "point format",
            cat("format of a point ", when, " is ", (int)p.PointFormatId(), " want ", m.r.fmt));
    c.eq((size_t)p.EbByteSize(), m.r.eb.size(), "extra bytes of a point " + when);
    c.eq((size_t)p.PointRecordLength(), w::base_size(m.r.fmt) + m.r.eb.size(), "record length of a point " + when);
    Rec g = to_rec(p, S, O);
    // colours the point once had and got back are not specified: adopt them
    if (m.r.fmt >= 7 && (m.lost & 1))
        m.r.r = g.r, m.r.g = g.g, m.r.b = g.b, m.lost &= ~1;
    if (m.r.fmt == 8 && (m.lost & 2))
        m.r.nir = g.nir, m.lost &= ~2;
    c.check(g.bytes() == m.r.bytes(), "attributes", cat("attributes ", when, ": ", mc::hex(g.bytes(), 60), " want ", mc::hex(m.r.bytes(), 60)));
    c.check(throws([&] { p.Red(); }) == (m.r.fmt < 7) && throws([&] { p.Green(); }) == (m.r.fmt < 7) && throws([&] { p.Blue(); }) == (m.r.fmt < 7) &&
                throws([&] { p.Nir(); }) == (m.r.fmt < 8), "missing attributes", "colour or infrared getter " + when);
    std::ostringstream o;
    p.Pack(o, S, O);
    c.check(o.str() == m.r.bytes(), "record", cat("record ", when, ": ", mc::hex(o.str(), 60), " want ", mc::hex(m.r.bytes(), 60)));
}
static void same_all(Ctx &c, cl::Points &ps, std::vector<MP> &m, int fmt, int eb, const std::string &when)
{
    c.eq((int)ps.PointFormatId(), fmt, "collection format " + when);
    c.eq((int)ps.EbByteSize(), eb, "collection extra bytes " + when);
    c.eq((int)ps.PointRecordLength(), w::base_size(fmt) + eb, "collection record length " + when);
    c.eq(ps.Size(), m.size(), "collection size " + when);
    std::string st = cat(fmt, "/", eb, ":"), all;
    for (size_t i = 0; i < m.size(); i++)
    {
        same_point(c, *ps.Get(i), m[i], when);
        all += m[i].r.bytes();
        st += m[i].r.bytes() + (char)m[i].lost;
    }
    c.check(str(ps.Pack(S, O)) == all, "collection bytes", "packed collection " + when);
    auto n = ps.CreatePoint();
    c.check(n->PointFormatId() == fmt && n->EbByteSize() == eb, "CreatePoint", "CreatePoint makes a point of another kind " + when);
    c.state(st);
}

MC_SCENARIOS
{
    // histories of additions and conversions
    mc::add("collection", [](Ctx &c)
    {
        int fmt = 6 + c.choose(3, "format");
        static const std::vector<int> EB = mc::thorough() ? std::vector<int>{0, 2, 6} : std::vector<int>{0, 6}; // 6 + 2 = the record length of 7 + ... : equal lengths, other formats
        int eb = c.pick(EB, "extra bytes");
        cl::Points ps((int8_t)fmt, (uint16_t)eb);
        std::vector<MP> m;
        int seed = 1, depth = mc::thorough() ? 4 : 3;
        same_all(c, ps, m, fmt, eb, "when new");
        for (int d = 0; d < depth; d++)
        {
            // kinds offered: own kind, and the same record length reached with another format, other extra bytes
            bool null = false; // no point at all
            auto kind = [&](int &f, int &e)
            {
                null = false;
                switch (c.choose(6, "kind"))
                {
                case 0: f = fmt, e = eb; break;
                case 1: f = fmt, e = eb + 1; break;
                case 2: f = fmt == 6 ? 7 : 6, e = eb; break;
                case 3: f = fmt == 8 ? 7 : 8, e = eb; break;
                case 4: null = true; return false;
                default: f = fmt == 8 ? 7 : fmt == 7 ? 6 : 7, e = w::base_size(fmt) + eb - w::base_size(f); break;
                }
                if (e < 0)
                    e = 0;
                return f == fmt && e == eb;
            };
            int act = c.choose(7, "op");
            int f = fmt, e = eb;
            switch (act)
            {
            case 0: // AddPoint
            {
                bool ok = kind(f, e);
                Rec r = w::make_rec(f, e, seed++);
                c.op(cat("AddPoint ", f, "/", e));
                c.check(throws([&] { ps.AddPoint(null ? nullptr : to_point(r, S, O)); }) == !ok, "AddPoint", cat("AddPoint of ", f, "/", e, " to ", fmt, "/", eb));
                if (ok)
                    m.push_back({r});
                break;
            }
            case 1: // AddPoints(Points)
            {
                bool ok = kind(f, e);
                if (null)
                    return;
                int n = mc::thorough() ? c.choose(3, "how many") : 2 * c.choose(2, "how many");
                cl::Points other((int8_t)f, (uint16_t)e);
                std::vector<MP> om;
                for (int i = 0; i < n; i++)
                {
                    om.push_back({w::make_rec(f, e, seed++)});
                    other.AddPoint(to_point(om.back().r, S, O));
                }
                c.op(cat("AddPoints(Points ", f, "/", e, " x", n, ")"));
                c.check(throws([&] { ps.AddPoints(other); }) == !ok, "AddPoints", cat("AddPoints of ", f, "/", e, " to ", fmt, "/", eb));
                if (ok)
                    m.insert(m.end(), om.begin(), om.end());
                c.eq(other.Size(), (size_t)n, "AddPoints changed its argument");
                break;
            }
            case 2: // AddPoints(vector) with one possibly odd element
            {
                bool ok = kind(f, e);
                int n = c.flip("how many") ? 3 : 1, odd = n == 1 ? 0 : 2 * c.choose(2, "odd one");
                std::vector<std::shared_ptr<cl::Point>> v;
                std::vector<MP> om;
                for (int i = 0; i < n; i++)
                {
                    om.push_back({i == odd ? w::make_rec(f, e, seed++) : w::make_rec(fmt, eb, seed++)});
                    v.push_back(i == odd && null ? nullptr : to_point(om.back().r, S, O));
                }
                c.op(cat("AddPoints(vector x", n, ", element ", odd, " ", f, "/", e, ")"));
                c.check(throws([&] { ps.AddPoints(v); }) == !ok, "AddPoints", cat("AddPoints of a vector with ", null ? "null " : "", f, "/", e, " to ", fmt, "/", eb));
                if (ok)
                    m.insert(m.end(), om.begin(), om.end());
                break;
            }
            case 3: // ToPointFormat
            {
                static const std::vector<int> F{6, 7, 8, 5, 9};
                f = c.pick(F, "new format");
                bool ok = f >= 6 && f <= 8;
                c.op(cat("ToPointFormat ", f));
                c.check(throws([&] { ps.ToPointFormat((int8_t)f); }) == !ok, "ToPointFormat", cat("conversion to format ", f));
                if (ok)
                {
                    for (auto &p : m)
                        convert(p, f);
                    fmt = f;
                }
                break;
            }
            case 4: // through Points(vector)
            {
                c.op("Points(vector)");
                bool t = throws([&] { cl::Points q(ps.Get()); ps = q; });
                c.check(t == m.empty(), "Points(vector)", "construction from a vector of points");
                auto v = ps.Get();
                v.insert(v.begin() + (v.empty() ? 0 : c.choose((int)v.size() + 1, "where")), nullptr);
                c.check(throws([&] { cl::Points q(v); }), "Points(vector)", "construction from a vector with a null point");
                break;
            }
            case 5: // set colours and infrared of the last point
            {
                if (m.empty() || fmt == 6)
                    return;
                c.op("set colours");
                auto &r = m.back().r;
                r.r = (uint16_t)(seed + 1000), r.g = (uint16_t)(seed + 2000), r.b = (uint16_t)(seed + 3000);
                ps.Get(m.size() - 1)->Rgb(r.r, r.g, r.b);
                if (fmt == 8)
                {
                    r.nir = (uint16_t)(seed + 4000);
                    ps.Get(m.size() - 1)->Nir(r.nir);
                }
                seed++;
                break;
            }
            case 6: // add its own points once more, which ends the history as the points are shared then
            {
                bool whole = c.flip("as a collection");
                c.op(cat("AddPoints(itself", whole ? ")" : ".Get())"));
                if (whole)
                    ps.AddPoints(ps);
                else
                    ps.AddPoints(ps.Get());
                auto again = m;
                m.insert(m.end(), again.begin(), again.end());
                same_all(c, ps, m, fmt, eb, cat("after adding itself in step ", d));
                int g = 6 + c.choose(3, "new format");
                ps.ToPointFormat((int8_t)g);
                for (auto &p : m)
                    convert(p, g);
                same_all(c, ps, m, g, eb, cat("after adding itself and converting in step ", d));
                return;
            }
            }
            same_all(c, ps, m, fmt, eb, cat("after step ", d));
        }
        c.outcome(cat(fmt, eb, m.size()));
    }, 0, 8);

    // Points(vector) with every mix of kinds
    mc::add("from vector", [](Ctx &c)
    {
        int n = c.choose(4, "points");
        std::vector<std::shared_ptr<cl::Point>> v;
        std::vector<MP> m;
        bool ok = n > 0;
        for (int i = 0; i < n; i++)
        {
            int f = 6 + c.choose(3, "format"), e = c.choose(3, "extra bytes") * 2;
            m.push_back({w::make_rec(f, e, i)});
            v.push_back(to_point(m.back().r, S, O));
            ok = ok && f == m[0].r.fmt && e == (int)m[0].r.eb.size();
            c.op(cat(f, "/", e));
        }
        std::unique_ptr<cl::Points> p;
        c.check(throws([&] { p.reset(new cl::Points(v)); }) == !ok, "Points(vector)", "mixed or empty vector");
        if (p)
            same_all(c, *p, m, m[0].r.fmt, (int)m[0].r.eb.size(), "from a vector");
    });

    // conversions of a single point: every sequence of formats, copies in between
    mc::add("point", [](Ctx &c)
    {
        int fmt = 6 + c.choose(3, "format");
        int eb = c.pick(std::vector<int>{0, 1, 300}, "extra bytes");
        MP m{w::make_rec(fmt, eb, c.choose(2, "values") * 9)};
        auto p = to_point(m.r, S, O);
        int depth = mc::thorough() ? 6 : 5;
        for (int d = 0; d < depth; d++)
        {
            int f = c.choose(6, "op");
            if (f < 3)
            {
                p->ToPointFormat((int8_t)(6 + f));
                convert(m, 6 + f);
                c.op(cat("to ", 6 + f));
            }
            else if (f == 3)
            {
                auto q = std::make_shared<cl::Point>(*p);
                c.op("copy");
                c.check(*q == *p && !(*q != *p), "copy", "copy differs from its source");
                q->Intensity((uint16_t)(m.r.intensity + 1));
                same_point(c, *p, m, "after changing a copy");
                c.check(*q != *p, "compare", "points with different intensity are equal");
                q->Intensity(m.r.intensity);
                p = q;
                m.lost = m.lost; // what a copy keeps of dropped attributes is not specified either
            }
            else
            {
                int8_t bad = f == 4 ? 5 : 9;
                c.op(cat("to ", (int)bad));
                c.check(throws([&] { p->ToPointFormat(bad); }), "ToPointFormat", cat("conversion to format ", (int)bad));
            }
            same_point(c, *p, m, cat("after step ", d));
            c.state(cat(m.r.bytes(), m.lost));
        }
    }, 0, 2);

    // more points than 8 or 16 bits can count
    mc::add("large", [](Ctx &c)
    {
        int n = c.pick(std::vector<int>{127, 128, 255, 256, 257, 1000, 4097, 65535, 65536, 65537, 70000}, "points");
        int fmt = 6 + c.choose(3, "format"), way = c.choose(5, "way"), to = 6 + c.choose(3, "converted to");
        if (n > 5000 && (way == 1 || (to != fmt && to != 8)))
            return;
        const int eb = 3;
        cl::Points ps((int8_t)fmt, eb);
        std::string all;
        std::vector<std::shared_ptr<cl::Point>> v;
        for (int i = 0; i < n; i++)
        {
            all += w::make_rec(fmt, eb, i).bytes();
            v.push_back(to_point(w::make_rec(fmt, eb, i), S, O));
        }
        c.op(cat(n, " points of format ", fmt, " by way ", way, ", to format ", to));
        c.state(cat(n, fmt, way, to));
        c.step((uint64_t)n);
        if (way == 0)
            ps.AddPoints(v);
        else if (way == 1)
            for (auto &p : v)
                ps.AddPoint(p);
        else if (way == 2)
            ps.AddPoints(cl::Points(v));
        else if (way == 3)
            ps = cl::Points::Unpack(vec(all), (int8_t)fmt, eb, S, O);
        else
        {
            // the one of another kind is the last
            auto x = v;
            x.push_back(to_point(w::make_rec(fmt, eb + 1, n), S, O));
            c.check(throws([&] { ps.AddPoints(x); }) && throws([&] { cl::Points y(x); }) && ps.Size() == 0, "rejects", cat("foreign point after ", n));
            ps.AddPoints(v);
        }
        c.eq(ps.Size(), (size_t)n, "size");
        c.check(str(ps.Pack(S, O)) == all, "collection bytes", cat("packed collection of ", n));
        ps.ToPointFormat((int8_t)to);
        std::string want;
        for (int i = 0; i < n; i++)
        {
            MP p{w::make_rec(fmt, eb, i)};
            convert(p, to);
            want += p.r.bytes();
        }
        c.check(str(ps.Pack(S, O)) == want, "converted", cat("converted collection of ", n));
        std::ostringstream o;
        ps.Pack(o, S, O);
        c.check(o.str() == want, "converted", cat("converted collection of ", n, " as a stream"));
    }, 0, 4);
}
