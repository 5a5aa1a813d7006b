// C18: overrides given to a COPC writer change exactly the settings they name.
#include "built.hpp"
#include "faulty.hpp"

static double val(int i, int what, int salt) { return (what == 1 ? 1000 : what == 3 ? 1 : what == 2 ? 7 : -1000) + i * 3 + salt * 0.5 + what; }
static std::vector<w::EbItem> ebs_of(int n)
{
    std::vector<w::EbItem> v;
    for (int i = 0; i < n; i++)
    {
        w::EbItem e;
        e.type = (uint8_t)(1 + i * 3);
        e.name = cat("eb", n, "-", i);
        v.push_back(e);
    }
    return v;
}
struct Want
{
    int fmt;
    copc::Vector3 scale, offset;
    std::string wkt;
    std::vector<w::EbItem> ebs;
    bool stats;
    std::vector<std::array<double, 4>> ext;
    int eb() const { return w::eb_size(ebs); }
};
static void fill(copc::CopcConfigWriter &cfg, int salt)
{
    auto h = cfg.LasHeader();
    h->file_source_id = (uint16_t)(77 + salt);
    h->global_encoding = 17;
    h->GUID("0123456789abcdef");
    h->SystemIdentifier("a system");
    h->GeneratingSoftware(std::string(32, 's'));
    h->creation_day = 99;
    h->creation_year = 2023;
    h->min = copc::Vector3(-1, -2, -3);
    h->max = copc::Vector3(100, 200, 300);
    for (size_t i = 0; i < 15; i++)
        h->points_by_return[i] = 10 + i;
    auto i = cfg.CopcInfo();
    i->center_x = 1, i->center_y = 2, i->center_z = 3, i->halfsize = 4, i->spacing = 5;
    auto e = cfg.CopcExtents()->Extents();
    for (size_t k = 0; k < e.size(); k++)
        *e[k] = copc::CopcExtent(val((int)k, 0, salt), val((int)k, 1, salt), val((int)k, 2, salt), val((int)k, 3, salt));
}
static std::string text(const copc::CopcConfig &c, int fmt)
{
    std::string o = config_str(c, false) + " |";
    auto e = c.CopcExtents();
    for (auto &x : e.Extents())
        o += cat(" ", num(*x == *x ? x->mean : 0), "/", num(x->var));
    return o + cat(fmt >= 0 ? 0 : 1);
}

MC_SCENARIOS
{
    mc::add("overrides", [](Ctx &c)
    {
        // the given configuration
        int fmt = 6 + c.choose(3, "format"), neb = c.choose(3, "extra-byte fields");
        bool stats = c.flip("statistics");
        int salt = 0;
        Want w{fmt, {0.5, 0.25, 2}, {10, 20, 30}, (mc::thorough() ? c.flip("WKT") : neb == 1) ? "original" : "", ebs_of(neb), stats, {}};
        copc::CopcConfigWriter made((int8_t)fmt, w.scale, w.offset, w.wkt, eb_vlr_of(w.ebs), stats);
        fill(made, salt);
        int origin = c.choose(mc::thorough() ? 3 : 2, "origin");
        // 0: this one, 1: that of a reader of a file made with it, 2: that of another writer
        std::stringstream file, other;
        std::unique_ptr<copc::Writer> another;
        std::unique_ptr<copc::CopcConfigWriter> cfg;
        if (origin == 1)
        {
            {
                copc::Writer x(file, made);
                x.Close();
            }
            copc::Reader r(&file);
            cfg = std::make_unique<copc::CopcConfigWriter>(r.CopcConfig());
        }
        else if (origin == 2)
        {
            another = std::make_unique<copc::Writer>(other, made);
            cfg = std::make_unique<copc::CopcConfigWriter>(*another->CopcConfig());
        }
        else
            cfg = std::make_unique<copc::CopcConfigWriter>(made);
        for (int i = 0; i < w::dims(fmt) + neb; i++)
            w.ext.push_back({val(i, 0, 0), val(i, 1, 0), stats || origin != 1 ? val(i, 2, 0) : 0, stats || origin != 1 ? val(i, 3, 0) : 1});
        Want o = w;
        // the overrides
        std::optional<int8_t> ofmt;
        std::optional<copc::Vector3> oscale, ooffset;
        std::optional<std::string> owkt;
        std::optional<cl::EbVlr> oeb;
        std::optional<bool> ostats;
        std::string what;
        if (int k = c.choose(4, "format override"))
        {
            ofmt = (int8_t)(5 + k);
            o.fmt = 5 + k;
            what += cat(" format ", o.fmt);
        }
        if (c.flip("scale override"))
        {
            oscale = o.scale = copc::Vector3(0.001, 3, 1e-9);
            what += " scale";
        }
        if (c.flip("offset override"))
        {
            ooffset = o.offset = copc::Vector3(-1, 0, 1e9);
            what += " offset";
        }
        if (int k = c.choose(3, "WKT override"))
        {
            owkt = o.wkt = k == 1 ? "" : "another";
            what += cat(" WKT ", o.wkt);
        }
        if (int k = c.choose(5, "extra bytes override"))
        {
            o.ebs = ebs_of(k - 1);
            oeb = eb_vlr_of(o.ebs);
            what += cat(" extra bytes ", k - 1);
        }
        if (int k = c.choose(3, "statistics override"))
        {
            ostats = o.stats = k == 2;
            what += cat(" statistics ", k == 2);
        }
        // extents: those of dimensions both formats have, extra bytes if their number is the same
        o.ext.assign((size_t)w::dims(o.fmt) + o.ebs.size(), {0, 0, 0, 1});
        for (int i = 0; i < std::min(w::dims(fmt), w::dims(o.fmt)); i++)
            o.ext[(size_t)i] = w.ext[(size_t)i];
        if (o.ebs.size() == w.ebs.size())
            for (size_t i = 0; i < w.ebs.size(); i++)
                o.ext[(size_t)w::dims(o.fmt) + i] = w.ext[(size_t)w::dims(fmt) + i];
        std::string before = text(*cfg, -1);
        c.op(cat("format ", fmt, " with ", neb, " extra-byte fields, origin ", origin, ", overrides", what.empty() ? " none" : what));
        bool to_file = mc::thorough() && c.flip("file");
        std::string path = to_file ? scratch_file("c18.copc.laz") : "";
        std::stringstream out;
        std::shared_ptr<copc::Writer> wr;
        MuteCout mute;
        if (to_file)
            wr = std::make_shared<copc::FileWriter>(path, *cfg, ofmt, oscale, ooffset, owkt, oeb, ostats);
        else
            wr = std::make_shared<copc::Writer>(out, *cfg, ofmt, oscale, ooffset, owkt, oeb, ostats);
        c.check(text(*cfg, -1) == before, "configuration changed", "the given configuration was changed\n  was " + before + "\n  is  " + text(*cfg, -1));
        // the writer's own configuration
        auto &wc = *wr->CopcConfig();
        auto check_cfg = [&](const copc::CopcConfig &got, const char *who, bool mean)
        {
            auto h = got.LasHeader();
            c.eq((int)h.PointFormatId(), o.fmt, cat(who, ": point format").c_str());
            c.eq((int)h.PointRecordLength(), w::base_size(o.fmt) + o.eb(), cat(who, ": record length").c_str());
            c.eq(num(h.Scale()), num(o.scale), cat(who, ": scale").c_str());
            c.eq(num(h.Offset()), num(o.offset), cat(who, ": offset").c_str());
            c.eq(got.Wkt(), o.wkt, cat(who, ": WKT").c_str());
            c.check(eb_items(got.ExtraBytesVlr()) == o.ebs, "extra bytes", cat(who, ": extra bytes differ"));
            c.eq(h.file_source_id, (uint16_t)77, cat(who, ": source id").c_str());
            c.eq(h.global_encoding, (uint16_t)17, cat(who, ": encoding").c_str());
            c.eq(h.GUID(), std::string("0123456789abcdef"), cat(who, ": GUID").c_str());
            c.eq(h.SystemIdentifier(), std::string("a system"), cat(who, ": system identifier").c_str());
            c.eq(h.GeneratingSoftware(), std::string(32, 's'), cat(who, ": generating software").c_str());
            c.eq(h.creation_day * 10000 + h.creation_year, 992023, cat(who, ": creation").c_str());
            c.eq(num(h.min) + num(h.max), std::string("-1,-2,-3100,200,300"), cat(who, ": bounds").c_str());
            for (size_t i = 0; i < 15; i++)
                c.eq(h.points_by_return[i], (uint64_t)(10 + i), cat(who, ": returns").c_str());
            c.check(h.IsCopc(), "COPC flag", cat(who, ": COPC flag lost"));
            c.eq(info_str(got.CopcInfo(), false), std::string(" info 1 2 3 4 5"), cat(who, ": info").c_str());
            const auto ce = got.CopcExtents();
            c.eq(ce.HasExtendedStats(), o.stats, cat(who, ": extended statistics").c_str());
            c.eq((int)ce.PointFormatId(), o.fmt, cat(who, ": format of the extents").c_str());
            auto e = ce.Extents();
            c.eq(e.size(), o.ext.size(), cat(who, ": number of extents").c_str());
            for (size_t i = 0; i < e.size(); i++)
            {
                auto &x = o.ext[i];
                c.check(e[i].minimum == x[0] && e[i].maximum == x[1] && (!mean || (e[i].mean == x[2] && e[i].var == x[3])), "extent",
                        cat(who, ": extent ", i, " is ", e[i].ToString(), ", want ", x[0], "/", x[1], "/", x[2], "/", x[3]));
            }
        };
        check_cfg(wc, "writer", o.stats);
        // and what it writes
        c.op("add and close");
        Model m;
        m.s.fmt = o.fmt;
        m.s.ebs = o.ebs;
        m.s.scale = o.scale;
        m.s.offset = o.offset;
        add_node(*wr, m, {0, 0, 0, 0}, {0, 0, 0, 0}, RAW, 2, 5);
        wr->Close();
        std::string image = out.str();
        if (to_file)
        {
            std::ifstream in(path, std::ios::binary);
            std::stringstream all;
            all << in.rdbuf();
            image = all.str();
        }
        auto f = parse_or_fail(c, image, true);
        check_stored(c, f, m);
        c.eq(f.fmt, o.fmt, "stored format");
        c.eq(f.has_stats, o.stats, "stored statistics");
        c.check(f.wkt == o.wkt && f.ebs == o.ebs, "stored WKT or extra bytes", "stored WKT or extra bytes differ");
        std::istringstream in(image);
        copc::Reader r(&in);
        check_cfg(r.CopcConfig(), "reader", o.stats);
        c.eq(r.CopcConfig().LasHeader().PointCount(), (uint64_t)2, "points");
        c.check(str(r.GetPointData(copc::VoxelKey::RootKey())) == m.points(), "points", "points differ");
        c.check(text(*cfg, -1) == before, "configuration changed", "the given configuration was changed later");
        c.state(cat(before, what));
    }, 0, 16);
    // long lists of extra bytes and long WKTs
    mc::add("many extra bytes", [](Ctx &c)
    {
        static const std::vector<int> counts{0, 4, 9, 17, 33, 65, 100, 128, 255, 256, 257, 341};
        int fmt = 6 + c.choose(3, "format"), n = c.pick(counts, "fields"), salt = 3;
        bool stats = c.flip("statistics");
        auto list = [](int n, const char *name)
        {
            std::vector<w::EbItem> v;
            for (int i = 0; i < n; i++)
            {
                w::EbItem e;
                e.type = 1;
                e.name = cat(name, i);
                v.push_back(e);
            }
            return v;
        };
        auto ebs = list(n, "field ");
        std::string wkt = c.flip("long WKT") ? std::string(70001, 'w') + "end" : "";
        copc::CopcConfigWriter cfg((int8_t)fmt, {1, 1, 1}, {0, 0, 0}, wkt, eb_vlr_of(ebs), stats);
        fill(cfg, salt);
        int ofmt = 6 + c.choose(3, "new format"), oeb = c.choose(4, "new extra bytes: none, others, one fewer, one more");
        int m = oeb < 2 ? n : oeb == 2 ? std::max(n - 1, 0) : std::min(n + 1, 341);
        auto want_eb = oeb ? list(m, "other ") : ebs;
        std::optional<cl::EbVlr> eb;
        if (oeb)
            eb = eb_vlr_of(want_eb);
        c.op(cat("format ", fmt, " with ", n, " extra-byte fields as format ", ofmt, " with ", m));
        MuteCout mute;
        std::string before = text(cfg, -1);
        std::stringstream out;
        copc::Writer wr(out, cfg, (int8_t)ofmt, std::nullopt, std::nullopt, std::nullopt, eb);
        wr.Close();
        std::istringstream in(out.str());
        copc::Reader r(&in);
        auto check = [&](const copc::CopcConfig &got, const std::string &who)
        {
            c.eq((int)got.LasHeader().PointFormatId(), ofmt, who + ": format");
            c.eq((int)got.LasHeader().PointRecordLength(), w::base_size(ofmt) + m, who + ": record length");
            c.check(eb_items(got.ExtraBytesVlr()) == want_eb, "extra bytes", who + ": extra bytes differ");
            c.check(got.Wkt() == wkt, "WKT", who + ": WKT differs");
            auto ce = got.CopcExtents();
            auto e = ce.Extents();
            c.eq(e.size(), (size_t)(w::dims(ofmt) + m), who + ": number of extents");
            for (int i = 0; i < (int)e.size(); i++)
            {
                bool eb = i >= w::dims(ofmt), kept = eb ? m == n : i < w::dims(fmt);
                int k = eb ? i - w::dims(ofmt) + w::dims(fmt) : i;
                std::array<double, 4> x{0, 0, 0, 1};
                if (kept)
                    x = {val(k, 0, salt), val(k, 1, salt), val(k, 2, salt), val(k, 3, salt)};
                c.check(e[(size_t)i]->minimum == x[0] && e[(size_t)i]->maximum == x[1] && (!stats || (e[(size_t)i]->mean == x[2] && e[(size_t)i]->var == x[3])), "extent",
                        cat(who, ": extent ", i, " is ", e[(size_t)i]->ToString(), ", want ", x[0], "/", x[1], "/", x[2], "/", x[3]));
            }
            c.step();
        };
        check(*wr.CopcConfig(), "writer");
        check(r.CopcConfig(), "reader");
        c.check(text(cfg, -1) == before, "configuration changed", "the given configuration was changed");
        c.state(cat(fmt, n, stats, ofmt, oeb, wkt.size()));
    }, 0, 8);
    // combinations that cannot be
    mc::add("refused", [](Ctx &c)
    {
        copc::CopcConfigWriter cfg((int8_t)(6 + c.choose(3, "format")), {1, 1, 1}, {0, 0, 0}, "", eb_vlr_of(ebs_of(c.choose(3, "fields"))));
        fill(cfg, 0);
        std::string before = text(cfg, -1);
        MuteCout mute;
        for (int f = -128; f < 128; f++)
        {
            std::stringstream out;
            bool bad = throws([&] { copc::Writer w(out, cfg, (int8_t)f); });
            c.check(bad == (f < 6 || f > 8), "format", cat("override with format ", f, bad ? " is refused" : " is accepted"));
            if (bad)
                c.check(out.str().empty(), "format", cat("refused override with format ", f, " wrote to the file"));
            c.check(text(cfg, -1) == before, "configuration changed", "the given configuration was changed");
            c.state(cat(f));
        }
    });
}
