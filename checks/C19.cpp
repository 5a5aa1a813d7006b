// C19: configurations are isolated between their owners.
#include "built.hpp"

// What can differ between two configurations: header, info, extents (two entries).
enum
{
    HEADER,
    INFO,
    EXTENT,
    LAST_EXTENT,
    N_FACETS
};
static const char *facet_name[] = {"header", "info", "an extent", "the last extent"};
using Facets = std::array<int, N_FACETS>; // -1: it has none
static std::string show(const Facets &f) { return cat(f[0], " ", f[1], " ", f[2], " ", f[3]); }

struct Obj;
using ObjP = std::shared_ptr<Obj>;
struct Derive
{
    std::string name;
    std::function<ObjP()> make;
};
struct Obj
{
    std::string type;
    Obj(const std::string &t) : type(t) {}
    virtual ~Obj() = default;
    virtual Facets read() = 0;
    virtual bool can_set(int) { return false; }
    virtual void set(int, int) {}
    virtual std::vector<Derive> derive() { return {}; }
    virtual bool assign(Obj &) { return false; }
    virtual bool closes() { return false; }
    virtual Facets close() { return {}; }
};
static void set_header(cl::LasHeader &h, int v)
{
    h.file_source_id = (uint16_t)v;
    h.GUID(cat("g", v));
    h.min.y = -v;
    h.points_by_return[2] = (uint64_t)v;
}
static int get_header(const cl::LasHeader &h)
{
    int v = h.file_source_id;
    return h.GUID() == (v ? cat("g", v) : "") && h.min.y == -v && h.points_by_return[2] == (uint64_t)v ? v : -2;
}
static void set_info(copc::CopcInfo &i, int v) { i.spacing = v, i.center_x = -v; }
static int get_info(const copc::CopcInfo &i) { return i.center_x == -i.spacing ? (int)i.spacing : -2; }
static void set_extent(copc::CopcExtent &e, int v) { e.maximum = v, e.minimum = -v, e.mean = v + 0.5; }
static int get_extent(const copc::CopcExtent &e) { return e.minimum == -e.maximum && (e.mean == e.maximum + 0.5 || e.mean == 0) ? (int)e.maximum : -2; }
static int nth(const std::vector<copc::CopcExtent> &v, int i) { return get_extent(i < 0 ? v.back() : v[(size_t)i]); }

static Facets facets(const cl::LasHeader &h) { return {get_header(h), -1, -1, -1}; }
// a configuration's header counts as broken when its WKT or extra bytes got lost
static int get_header(const cl::LazConfig &c)
{
    auto eb = c.ExtraBytesVlr().items;
    return !c.Wkt().empty() && eb.size() == 1 && eb[0].name == "e" ? get_header(c.LasHeader()) : -2;
}
static Facets facets(const cl::LazConfig &c) { return {get_header(c), -1, -1, -1}; }
static Facets facets(const copc::CopcExtents &e)
{
    auto v = e.Extents();
    return {-1, -1, nth(v, 3), nth(v, -1)};
}
static Facets facets(const copc::CopcConfig &c)
{
    auto e = facets(c.CopcExtents());
    return {get_header(static_cast<const cl::LazConfig &>(c)), get_info(c.CopcInfo()), e[2], e[3]};
}
static Facets facets_of_file(const std::string &image, bool copc)
{
    auto f = w::parse(image, copc);
    Facets o{f.h.source, -1, -1, -1};
    if (f.h.guid != (f.h.source ? cat("g", f.h.source) : "") || f.h.mn[1] != -(double)f.h.source || f.h.ret[2] != f.h.source)
        o[0] = -2;
    if (copc)
        o = {o[0], f.info.cx == -f.info.spacing ? (int)f.info.spacing : -2, (int)f.extents[3].second, (int)f.extents.back().second};
    return o;
}
static ObjP of(const cl::LasHeader &), of(const copc::CopcExtents &), of(const copc::CopcInfo &);
static ObjP of_cc(const copc::CopcConfig &), of_lc(const cl::LazConfig &);
template <typename C> static ObjP of_ccw(const C &);
template <typename C> static ObjP of_lcw(const C &);
// Kept as the function made it: a copy of it would not share anything any more.
template <typename T, typename F> static ObjP kept(F f) { return std::make_shared<T>(std::in_place, f); }
struct CC;
struct CCW;
struct LC;
struct LCW;
static ObjP of_writer(const copc::CopcConfigWriter &, int);
static ObjP of_laz_writer(const cl::LazConfigWriter &);
static ObjP of_reader(const std::string &, bool);

// values
struct HeaderObj : Obj
{
    cl::LasHeader v;
    HeaderObj(const cl::LasHeader &h) : Obj("header"), v(h) {}
    Facets read() override { return facets(v); }
    bool can_set(int f) override { return f == HEADER; }
    void set(int, int x) override { set_header(v, x); }
};
struct InfoObj : Obj
{
    copc::CopcInfo v;
    InfoObj(const copc::CopcInfo &h) : Obj("info"), v(h) {}
    Facets read() override { return {-1, get_info(v), -1, -1}; }
    bool can_set(int f) override { return f == INFO; }
    void set(int, int x) override { set_info(v, x); }
};
struct ExtentsObj : Obj
{
    copc::CopcExtents v;
    ExtentsObj(const copc::CopcExtents &h) : Obj("extents"), v(h) {}
    Facets read() override { return facets(v); }
    bool can_set(int f) override { return f >= EXTENT; }
    void set(int f, int x) override { set_extent(f == EXTENT ? *v.Intensity() : *v.Extents().back(), x); }
    std::vector<Derive> derive() override
    {
        return {{"copy", [this] { return of(v); }},
                {"of the same format", [this] { return std::make_shared<ExtentsObj>(*this, v.PointFormatId()); }},
                {"assigned", [this]
                {
                    auto n = of(copc::CopcExtents(6));
                    dynamic_cast<ExtentsObj &>(*n).v = v;
                    return n;
                }}};
    }
    ExtentsObj(const ExtentsObj &o, int fmt) : Obj("extents"), v(o.v, (int8_t)fmt, (uint16_t)1, true) {}
    bool assign(Obj &o) override
    {
        v = dynamic_cast<ExtentsObj &>(o).v;
        return true;
    }
};
static ObjP of(const cl::LasHeader &h) { return std::make_shared<HeaderObj>(h); }
static ObjP of(const copc::CopcInfo &h) { return std::make_shared<InfoObj>(h); }
static ObjP of(const copc::CopcExtents &h) { return std::make_shared<ExtentsObj>(h); }

static std::vector<Derive> from_cc(const copc::CopcConfig &c)
{
    return {{"CopcConfigWriter", [&c] { return of_ccw(c); }},
            {"CopcConfig", [&c] { return of_cc(c); }},
            {"LazConfigWriter", [&c] { return of_lcw(c); }},
            {"Writer", [&c] { return of_writer(c, 0); }},
            {"LazWriter", [&c] { return of_laz_writer(c); }},
            {"LazConfig", [&c] { return of_lc(c); }},
            {"LazConfig made for it", [&c] { return kept<LC>([&c] { return cl::LazConfig(c); }); }},
            {"CopcConfig with other extents", [&c] { return kept<CC>([&c] { return copc::CopcConfig(c, c.CopcInfo(), c.CopcExtents()); }); }},
            {"its extents", [&c] { return of(c.CopcExtents()); }},
            {"its header", [&c] { return of(c.LasHeader()); }},
            {"its info", [&c] { return of(c.CopcInfo()); }}};
}
struct CC : Obj
{
    copc::CopcConfig v;
    CC(const copc::CopcConfig &c) : Obj("CopcConfig"), v(c) {}
    template <typename F> CC(std::in_place_t, F f) : Obj("CopcConfig"), v(f()) {}
    Facets read() override { return facets(v); }
    std::vector<Derive> derive() override { return from_cc(v); }
    bool assign(Obj &o) override
    {
        v = dynamic_cast<CC &>(o).v;
        return true;
    }
};
struct CCW : Obj
{
    copc::CopcConfigWriter v;
    template <typename C> CCW(const C &c) : Obj("CopcConfigWriter"), v(c) {}
    template <typename F> CCW(std::in_place_t, F f) : Obj("CopcConfigWriter"), v(f()) {}
    Facets read() override
    {
        auto a = facets((const copc::CopcConfig &)v);
        Facets b{get_header(*v.LasHeader()), get_info(*v.CopcInfo()), get_extent(*v.CopcExtents()->Intensity()), get_extent(*v.CopcExtents()->Extents().back())};
        return a == b ? a : Facets{-3, -3, -3, -3};
    }
    bool can_set(int) override { return true; }
    void set(int f, int x) override
    {
        if (f == HEADER)
            set_header(*v.LasHeader(), x);
        else if (f == INFO)
            set_info(*v.CopcInfo(), x);
        else
            set_extent(f == EXTENT ? *v.CopcExtents()->Intensity() : *v.CopcExtents()->Extents().back(), x);
    }
    std::vector<Derive> derive() override
    {
        auto o = from_cc(v);
        o[0] = {"CopcConfigWriter", [this] { return of_ccw(v); }};
        o[3] = {"Writer", [this] { return of_writer(v, 0); }};
        o.push_back({"Writer with an override", [this] { return of_writer(v, 1); }});
        o.push_back({"CopcConfig of its parts", [this]
        {
            const auto &c = v;
            return kept<CC>([&] { return copc::CopcConfig(c.LasHeader(), c.CopcInfo(), c.CopcExtents(), c.Wkt(), c.ExtraBytesVlr()); });
        }});
        o.push_back({"CopcConfigWriter of its parts", [this]
        {
            const auto &c = v;
            return kept<CCW>([&] { return copc::CopcConfigWriter(c.LasHeader(), c.CopcInfo(), c.CopcExtents(), c.Wkt(), c.ExtraBytesVlr()); });
        }});
        o.push_back({"CopcConfig of the parts it gives away", [this]
        {
            return kept<CC>([&] { return copc::CopcConfig(*v.LasHeader(), *v.CopcInfo(), *v.CopcExtents(), v.Wkt(), v.ExtraBytesVlr()); });
        }});
        o.push_back({"CopcConfigWriter of the parts it gives away", [this]
        {
            return kept<CCW>([&] { return copc::CopcConfigWriter(*v.LasHeader(), *v.CopcInfo(), *v.CopcExtents(), v.Wkt(), v.ExtraBytesVlr()); });
        }});
        o.push_back({"assigned CopcConfigWriter", [this]
        {
            auto n = kept<CCW>([] { return copc::CopcConfigWriter(6); });
            dynamic_cast<CCW &>(*n).v = v;
            return n;
        }});
        return o;
    }
    bool assign(Obj &o) override
    {
        v = dynamic_cast<CCW &>(o).v;
        return true;
    }
};
static std::vector<Derive> from_lc(const cl::LazConfig &c)
{
    return {{"LazConfigWriter", [&c] { return of_lcw(c); }},
            {"LazConfig", [&c] { return of_lc(c); }},
            {"LazWriter", [&c] { return of_laz_writer(c); }},
            {"CopcConfig with it", [&c] { return kept<CC>([&c] { return copc::CopcConfig(c, copc::CopcInfo(), copc::CopcExtents(7, 1, true)); }); }},
            {"LazConfig of its parts", [&c] { return kept<LC>([&c] { return cl::LazConfig(c.LasHeader(), c.Wkt(), c.ExtraBytesVlr()); }); }},
            {"its header", [&c] { return of(c.LasHeader()); }}};
}
struct LC : Obj
{
    cl::LazConfig v;
    LC(const cl::LazConfig &c) : Obj("LazConfig"), v(c) {}
    template <typename F> LC(std::in_place_t, F f) : Obj("LazConfig"), v(f()) {}
    Facets read() override { return facets(v); }
    std::vector<Derive> derive() override { return from_lc(v); }
    bool assign(Obj &o) override
    {
        v = dynamic_cast<LC &>(o).v;
        return true;
    }
};
struct LCW : Obj
{
    cl::LazConfigWriter v;
    template <typename C> LCW(const C &c) : Obj("LazConfigWriter"), v(c) {}
    template <typename F> LCW(std::in_place_t, F f) : Obj("LazConfigWriter"), v(f()) {}
    Facets read() override { return facets((const cl::LazConfig &)v)[0] == get_header(*v.LasHeader()) ? facets(v) : Facets{-3, -3, -3, -3}; }
    bool can_set(int f) override { return f == HEADER; }
    void set(int, int x) override { set_header(*v.LasHeader(), x); }
    std::vector<Derive> derive() override
    {
        auto o = from_lc(v);
        o[0] = {"LazConfigWriter", [this] { return of_lcw(v); }};
        o[2] = {"LazWriter", [this] { return of_laz_writer(v); }};
        return o;
    }
    bool assign(Obj &o) override
    {
        v = dynamic_cast<LCW &>(o).v;
        return true;
    }
};
// writers: what they are told through their configuration is what they write
struct W : Obj
{
    std::stringstream out;
    copc::Writer wr;
    std::shared_ptr<cl::LasHeader> h; // handles taken at the start
    std::shared_ptr<copc::CopcInfo> i;
    std::shared_ptr<copc::CopcExtents> e;
    static copc::Writer make(std::ostream &o, const copc::CopcConfigWriter &c, int over)
    {
        if (over)
            return copc::Writer(o, c, {}, {}, {}, std::string("overridden"));
        return copc::Writer(o, c);
    }
    W(const copc::CopcConfigWriter &c, int over)
        : Obj("Writer"), wr(make(out, c, over)), h(wr.CopcConfig()->LasHeader()), i(wr.CopcConfig()->CopcInfo()), e(wr.CopcConfig()->CopcExtents())
    {
        wr.AddNode(copc::VoxelKey::RootKey(), vec(w::make_recs(7, 1, 1, 1)));
    }
    Facets read() override { return facets((const copc::CopcConfig &)*wr.CopcConfig()); }
    bool can_set(int) override { return true; }
    bool flip = false;
    void set(int f, int x) override
    {
        // once through the handles taken at the start, once through new ones
        flip = !flip;
        auto c = wr.CopcConfig();
        if (f == HEADER)
            set_header(flip ? *h : *c->LasHeader(), x);
        else if (f == INFO)
            set_info(flip ? *i : *c->CopcInfo(), x);
        else
        {
            auto ex = flip ? e : c->CopcExtents();
            set_extent(f == EXTENT ? *ex->Intensity() : *ex->Extents().back(), x);
        }
    }
    std::vector<Derive> derive() override
    {
        auto &c = *wr.CopcConfig();
        auto o = from_cc(c);
        o[0] = {"CopcConfigWriter", [&c] { return of_ccw(c); }};
        o[3] = {"Writer", [&c] { return of_writer(c, 0); }};
        return o;
    }
    bool closes() override { return true; }
    Facets close() override
    {
        wr.Close();
        return facets_of_file(out.str(), true);
    }
};
struct LW : Obj
{
    std::stringstream out;
    copc::laz::LazWriter wr;
    std::shared_ptr<cl::LasHeader> h;
    LW(const cl::LazConfigWriter &c) : Obj("LazWriter"), wr(out, c), h(wr.LazConfig()->LasHeader()) {}
    Facets read() override { return facets((const cl::LazConfig &)*wr.LazConfig()); }
    bool can_set(int f) override { return f == HEADER; }
    bool flip = false;
    void set(int, int x) override
    {
        flip = !flip;
        set_header(flip ? *h : *wr.LazConfig()->LasHeader(), x);
    }
    std::vector<Derive> derive() override
    {
        auto &c = *wr.LazConfig();
        return {{"LazConfigWriter", [&c] { return of_lcw(c); }}, {"LazWriter", [&c] { return of_laz_writer(c); }}, {"LazConfig", [&c] { return of_lc(c); }}};
    }
    bool closes() override { return true; }
    Facets close() override
    {
        wr.Close();
        return facets_of_file(out.str(), false);
    }
};
struct R : Obj
{
    std::istringstream in;
    copc::Reader r;
    R(const std::string &s) : Obj("Reader"), in(s), r(&in) {}
    Facets read() override { return facets(r.CopcConfig()); }
    std::vector<copc::CopcConfig> kept;
    std::vector<Derive> derive() override
    {
        return {{"CopcConfigWriter", [this] { return of_ccw(r.CopcConfig()); }}, {"CopcConfig", [this] { return of_cc(r.CopcConfig()); }},
                {"Writer", [this] { return of_writer(r.CopcConfig(), 0); }},     {"Writer with an override", [this] { return of_writer(r.CopcConfig(), 1); }},
                {"LazWriter", [this] { return of_laz_writer(r.CopcConfig()); }}, {"LazConfigWriter", [this] { return of_lcw(r.CopcConfig()); }},
                {"its extents", [this] { return of(r.CopcConfig().CopcExtents()); }}};
    }
};
struct LR : Obj
{
    std::istringstream in;
    copc::laz::LazReader r;
    LR(const std::string &s) : Obj("LazReader"), in(s), r(&in) {}
    Facets read() override { return facets(r.LazConfig()); }
    std::vector<Derive> derive() override
    {
        return {{"LazConfigWriter", [this] { return of_lcw(r.LazConfig()); }}, {"LazConfig", [this] { return of_lc(r.LazConfig()); }},
                {"LazWriter", [this] { return of_laz_writer(r.LazConfig()); }}, {"its header", [this] { return of(r.LazConfig().LasHeader()); }}};
    }
};
static ObjP of_cc(const copc::CopcConfig &c) { return std::make_shared<CC>(c); }
static ObjP of_lc(const cl::LazConfig &c) { return std::make_shared<LC>(c); }
template <typename C> static ObjP of_ccw(const C &c) { return std::make_shared<CCW>(c); }
template <typename C> static ObjP of_lcw(const C &c) { return std::make_shared<LCW>(c); }
static ObjP of_writer(const copc::CopcConfigWriter &c, int o) { return std::make_shared<W>(c, o); }
static ObjP of_laz_writer(const cl::LazConfigWriter &c) { return std::make_shared<LW>(c); }
static ObjP of_reader(const std::string &s, bool copc)
{
    if (copc)
        return std::make_shared<R>(s);
    return std::make_shared<LR>(s);
}
static copc::CopcConfigWriter start_config()
{
    std::vector<w::EbItem> eb(1);
    eb[0].name = "e";
    copc::CopcConfigWriter c(7, {1, 1, 1}, {0, 0, 0}, "wkt", eb_vlr_of(eb), true);
    set_header(*c.LasHeader(), 1);
    set_info(*c.CopcInfo(), 1);
    set_extent(*c.CopcExtents()->Intensity(), 1);
    set_extent(*c.CopcExtents()->Extents().back(), 1);
    return c;
}
static std::string start_image(bool copc)
{
    std::stringstream out;
    if (copc)
    {
        copc::Writer w(out, start_config());
        w.AddNode(copc::VoxelKey::RootKey(), vec(w::make_recs(7, 1, 1, 1)));
        w.Close();
    }
    else
    {
        copc::laz::LazWriter w(out, cl::LazConfigWriter(start_config()));
        w.Close();
    }
    return out.str();
}

// Everything the objects say after each step; the files of the writers in the end.
static void explore(Ctx &c, int depth, bool with_assign)
{
    static const std::string copc_image = start_image(true), laz_image = start_image(false);
    std::vector<ObjP> objs;
    std::vector<Facets> model;
    switch (c.choose(4, "start"))
    {
    case 0: objs.push_back(of_ccw(start_config())); break;
    case 1: objs.push_back(of_lcw(cl::LazConfigWriter(start_config()))); break;
    case 2: objs.push_back(of_reader(copc_image, true)); break;
    case 3: objs.push_back(of_reader(laz_image, false)); break;
    }
    model.push_back(objs[0]->read());
    c.op("start with a " + objs[0]->type);
    auto check = [&]
    {
        for (size_t i = 0; i < objs.size(); i++)
        {
            auto got = objs[i]->read();
            c.check(got == model[i], objs[i]->type, cat("object ", i, ", a ", objs[i]->type, ", says ", show(got), " instead of ", show(model[i])));
        }
    };
    int value = 10;
    for (int step = 0; step < depth; step++)
    {
        int i = c.choose((int)objs.size(), "object");
        auto &o = *objs[(size_t)i];
        auto ds = o.derive();
        std::vector<int> fs;
        for (int f = 0; f < N_FACETS; f++)
            if (o.can_set(f))
                fs.push_back(f);
        std::vector<size_t> as;
        if (with_assign)
            for (size_t j = 0; j < objs.size(); j++)
                if (objs[j]->type == o.type && o.type != "Writer" && o.type != "LazWriter" && o.type != "header" && o.type != "info" && (int)j != i &&
                    o.type != "Reader" && o.type != "LazReader")
                    as.push_back(j);
        int k = c.choose((int)(ds.size() + fs.size() + as.size()) + 1, "step");
        if (k < (int)ds.size())
        {
            c.op(cat("object ", objs.size(), " = ", ds[(size_t)k].name, " of object ", i));
            auto n = ds[(size_t)k].make();
            // it starts with what it was made from
            auto got = n->read();
            auto want = model[(size_t)i];
            for (int f = 0; f < N_FACETS; f++)
                if (got[(size_t)f] >= 0 && want[(size_t)f] >= 0)
                    c.check(got[(size_t)f] == want[(size_t)f], "made from", cat("a ", n->type, " made from a ", o.type, " has another ", facet_name[f]));
                else
                    c.check(got[(size_t)f] == -1 || want[(size_t)f] == -1, "made from", cat("a ", n->type, " made from a ", o.type, " has a broken ", facet_name[f]));
            objs.push_back(n);
            model.push_back(got);
        }
        else if (k < (int)(ds.size() + fs.size()))
        {
            int f = fs[(size_t)k - ds.size()];
            value++;
            c.op(cat("set ", facet_name[f], " of object ", i, " to ", value));
            o.set(f, value);
            model[(size_t)i][(size_t)f] = value;
        }
        else if (k < (int)(ds.size() + fs.size() + as.size()))
        {
            size_t j = as[(size_t)k - ds.size() - fs.size()];
            c.op(cat("object ", i, " = object ", j));
            o.assign(*objs[j]);
            model[(size_t)i] = model[j];
        }
        else
            break; // no more steps
        check();
        std::string st;
        for (size_t x = 0; x < objs.size(); x++)
            st += objs[x]->type + show(model[x]) + ";";
        c.state(st);
    }
    // change everything there is, one after the other
    for (size_t i = 0; i < objs.size(); i++)
        for (int f = 0; f < N_FACETS; f++)
            if (objs[i]->can_set(f))
            {
                value++;
                c.op(cat("set ", facet_name[f], " of object ", i, " to ", value));
                objs[i]->set(f, value);
                model[i][(size_t)f] = value;
                check();
            }
    // writers write what they were told; the order of closing does not matter
    for (size_t i = 0; i < objs.size(); i++)
        if (objs[i]->closes())
        {
            c.op(cat("close object ", i));
            auto got = objs[i]->close();
            c.check(got == model[i], "file", cat("the file of object ", i, ", a ", objs[i]->type, ", has ", show(got), " instead of ", show(model[i])));
            check();
        }
    // the last to go may be any
    while (objs.size() > 1)
    {
        objs.erase(objs.begin());
        model.erase(model.begin());
        check();
    }
}

MC_SCENARIOS
{
    mc::add("histories", [](Ctx &c) { explore(c, mc::thorough() ? 4 : 3, false); }, 0, 16);
    mc::add("histories with assignments", [](Ctx &c) { explore(c, mc::thorough() ? 4 : 3, true); }, 0, 16);
    // parts that are handed in do not stay connected, and values handed out do not lead back
    mc::add("parts", [](Ctx &c)
    {
        cl::LasHeader h(7, 37, {1, 1, 1}, {0, 0, 0}, true);
        set_header(h, 3);
        copc::CopcInfo info;
        set_info(info, 4);
        copc::CopcExtents e(7, 1, true);
        set_extent(*e.Intensity(), 5);
        set_extent(*e.Extents().back(), 6);
        std::string wkt = "WKT";
        std::vector<w::EbItem> eb(1);
        eb[0].name = "e";
        auto vlr = eb_vlr_of(eb);
        copc::CopcConfigWriter cfg(h, info, e, wkt, vlr);
        cl::LazConfigWriter laz(cl::LazConfig(h, wkt, vlr));
        std::stringstream out, out2;
        copc::Writer w(out, cfg, {}, {}, {}, c.flip("override") ? std::optional<std::string>("WKT") : std::nullopt);
        copc::laz::LazWriter lw(out2, laz);
        std::vector<std::function<void()>> changes{
            [&] { set_header(h, 30); },
            [&] { set_info(info, 30); },
            [&] { set_extent(*e.Intensity(), 30); },
            [&] { set_extent(*e.Extents().back(), 30); },
            [&] { e.Red(std::make_shared<copc::CopcExtent>(-50, 50)); },
            [&] { wkt = "other"; },
            [&] { vlr.addField(eb_field(eb[0])); },
            [&] { vlr.items.clear(); },
            [&] { auto v = cfg.ExtraBytesVlr(); v.items.clear(); },
            [&] { auto v = w.CopcConfig()->ExtraBytesVlr(); v.items.clear(); },
            [&] { auto v = cfg.Wkt(); v += "more"; },
            [&] { const auto &k = cfg; for (auto &x : k.CopcExtents().Extents()) x->maximum = 99; },
            [&] { const auto &k = cfg; auto x = k.CopcExtents(); *x.Intensity() = copc::CopcExtent(-77, 77); },
            [&] { const auto &k = cfg; auto x = k.LasHeader(); set_header(x, 77); },
        };
        int first = c.choose((int)changes.size(), "change"), second = c.choose((int)changes.size(), "change");
        for (int k : {first, second})
        {
            c.op(cat("change ", k));
            changes[(size_t)k]();
            Facets want{3, 4, 5, 6};
            for (auto *x : std::vector<copc::CopcConfig *>{&cfg, w.CopcConfig().get()})
            {
                c.eq(show(facets((const copc::CopcConfig &)*x)), show(want), "configuration");
                c.eq(x->Wkt(), std::string("WKT"), "WKT");
                c.eq((int)x->ExtraBytesVlr().items.size(), 1, "extra bytes");
                const auto &y = *x;
                c.eq(y.CopcExtents().Extents()[14]->maximum, 0.0, "red");
            }
            c.eq(get_header(*laz.LasHeader()), 3, "LAZ configuration");
            c.eq(laz.Wkt(), std::string("WKT"), "WKT");
            c.eq((int)laz.ExtraBytesVlr().items.size(), 1, "extra bytes");
            c.state(cat(first, second));
        }
        w.Close();
        lw.Close();
        c.eq(show(facets_of_file(out.str(), true)), show({3, 4, 5, 6}), "file");
        c.eq(facets_of_file(out2.str(), false)[0], 3, "LAZ file");
    });
    // nodes, points and keys a reader gives are copies
    mc::add("values of a reader", [](Ctx &c)
    {
        std::istringstream in(start_image(true)), in2(start_image(true));
        copc::Reader r(&in), fresh(&in2);
        auto nodes = r.GetAllNodes();
        c.check(nodes.size() == 1, "harness", "no node");
        std::vector<std::function<void()>> changes{
            [&] { nodes[0].point_count = 77, nodes[0].offset = 1, nodes[0].byte_size = 2; },
            [&] { nodes[0].key = copc::VoxelKey(3, 3, 3, 3), nodes[0].page_key = copc::VoxelKey(3, 3, 3, 3); },
            [&] { auto n = r.FindNode(copc::VoxelKey::RootKey()); n.offset = 0, n.point_count = -1; },
            [&] { auto p = r.GetPoints(copc::VoxelKey::RootKey()); p.Get(0)->X(9), p.Get(0)->Classification(1); },
            [&] { auto d = r.GetPointData(copc::VoxelKey::RootKey()); d.assign(d.size(), 1); },
            [&] { auto d = r.GetPointDataCompressed(copc::VoxelKey::RootKey()); d.assign(d.size(), 1); },
            [&] { auto d = r.GetPageList(); d.clear(); },
            [&] { auto d = r.GetAllPoints(); for (size_t i = 0; i < d.Size(); i++) d.Get(i)->Intensity(1); },
        };
        for (int k = 0; k < 2; k++)
        {
            int i = c.choose((int)changes.size(), "change");
            c.op(cat("change ", i));
            changes[(size_t)i]();
            for (auto &q : copc_queries({{0, 0, 0, 0}}, {copc::Box(-1e9, -1e9, -1e9, 1e9, 1e9, 1e9)}, {0.0}))
                c.check(q.f(r) == q.f(fresh), q.name.c_str(), q.name + " changed with a value the reader had given");
            c.state(cat(k, i));
        }
    });
}
