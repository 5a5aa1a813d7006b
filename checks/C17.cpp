// C17: metadata set through a configuration are the same when the file is read back.
#include "built.hpp"
#include "faulty.hpp"

struct Field
{
    std::string name;
    struct Value
    {
        std::function<void(cl::LasHeader &)> set;
        std::function<void(w::Hdr &)> ref;
    };
    std::vector<Value> values;
};
template <typename T> static Field num_field(const std::string &name, const std::vector<T> &vs, T cl::LasHeader::*m, T w::Hdr::*r)
{
    Field f{name, {}};
    for (auto v : vs)
        f.values.push_back({[=](cl::LasHeader &h) { h.*m = v; }, [=](w::Hdr &h) { h.*r = v; }});
    return f;
}
static std::string binary(size_t n)
{
    std::string s;
    for (size_t i = 0; i < n; i++)
        s += (char)(200 + i);
    return s;
}
static const std::vector<Field> &fields()
{
    static const auto all = []
    {
        std::vector<Field> v;
        v.push_back(num_field<uint16_t>("file source id", {0, 1, 255, 256, 65535}, &cl::LasHeader::file_source_id, &w::Hdr::source));
        v.push_back({"global encoding", {}});
        for (int e : {16, 17, 1, 0, 65535, 65535 - 16, 0x8000})
            v.back().values.push_back({[=](cl::LasHeader &h) { h.global_encoding = (uint16_t)e; }, [=](w::Hdr &h) { h.encoding = (uint16_t)(e | 16); }});
        v.back().values.push_back({[](cl::LasHeader &h) { h.SetGpsTimeBit(); }, [](w::Hdr &h) { h.encoding = 17; }});
        v.push_back(num_field<uint16_t>("creation day", {1, 366, 65535}, &cl::LasHeader::creation_day, &w::Hdr::day));
        v.push_back(num_field<uint16_t>("creation year", {1, 2024, 65535}, &cl::LasHeader::creation_year, &w::Hdr::year));
        struct S
        {
            std::string name;
            size_t len;
            void (cl::LasHeader::*set)(const std::string &);
            std::string w::Hdr::*ref;
        };
        for (auto &s : std::vector<S>{{"GUID", 16, &cl::LasHeader::GUID, &w::Hdr::guid},
                                      {"system identifier", 32, &cl::LasHeader::SystemIdentifier, &w::Hdr::system},
                                      {"generating software", 32, &cl::LasHeader::GeneratingSoftware, &w::Hdr::software}})
        {
            v.push_back({s.name, {}});
            std::vector<std::string> texts{"a", " b c ", std::string(s.len - 1, 'x'), std::string(s.len, 'y'), binary(s.len), ""};
            if (s.len == 16) // these are bytes rather than text
                for (auto &t : std::vector<std::string>{std::string("\0\0z", 3), std::string("\1\2\3\4\0\6\0\0\0\12", 10) + "123456", std::string(15, '\0') + "e"})
                    texts.push_back(t);
            for (auto &t : texts)
                v.back().values.push_back({[=](cl::LasHeader &h) { (h.*s.set)(t); }, [=](w::Hdr &h) { h.*s.ref = t; }});
        }
        static const std::vector<std::pair<double, double>> B{{-1, 1}, {5, 5}, {-0.0, 0.0}, {-DBL_MAX, DBL_MAX}, {5e-324, 0.1 + 0.2}, {-1e9, -1e-9}};
        for (int i = 0; i < 3; i++)
        {
            v.push_back({cat("bounds ", "xyz"[i]), {}});
            for (auto &b : B)
                v.back().values.push_back({[=](cl::LasHeader &h) { (&h.min.x)[i] = b.first, (&h.max.x)[i] = b.second; },
                                           [=](w::Hdr &h) { h.mn[i] = b.first, h.mx[i] = b.second; }});
        }
        for (int i = 0; i < 15; i++)
        {
            v.push_back({cat("points of return ", i + 1), {}});
            for (uint64_t n : {(uint64_t)1, (uint64_t)0xffffffff, (uint64_t)1 << 32, UINT64_MAX})
                v.back().values.push_back({[=](cl::LasHeader &h) { h.points_by_return[(size_t)i] = n; }, [=](w::Hdr &h) { h.ret[i] = n; }});
        }
        return v;
    }();
    return all;
}
enum When
{
    BEFORE,  // on the configuration the writer is made from
    RIGHT,   // through the writer, at once
    BETWEEN, // through the writer, between additions
    LATE,    // through the writer, before closing
    MADE,    // on a header the configuration is made from
    N_WHEN
};
static const char *when_name[] = {"before", "at once", "between", "late", "in a header"};

// Writes a file with the header settings and returns the image.
struct Job
{
    int fmt = 7, when = 0, nodes = 2;
    bool copc = true, file = false;
    Spec s;
    std::function<void(cl::LasHeader &)> header = [](cl::LasHeader &) {};
    std::function<void(copc::CopcInfo &)> info = [](copc::CopcInfo &) {};
    std::string path() const { return scratch_file("c17.laz"); }
    std::string run(std::string *recs = nullptr)
    {
        s.fmt = fmt;
        std::stringstream out;
        auto add = [&](auto &&f)
        {
            for (int i = 0; i < nodes; i++)
            {
                if (i == 1 && when == BETWEEN)
                    f(-1);
                std::string r = w::make_recs(fmt, s.eb(), 1 + 10 * i, i + 1);
                if (recs)
                    *recs += r;
                f(i);
            }
            if (nodes < 2 && when == BETWEEN)
                f(-1);
        };
        if (copc)
        {
            auto cfg = make_cfg(s);
            if (when == BEFORE)
                header(*cfg.LasHeader()), info(*cfg.CopcInfo());
            if (when == MADE)
            {
                cl::LasHeader h = *cfg.LasHeader();
                header(h);
                copc::CopcInfo i = *cfg.CopcInfo();
                info(i);
                cfg.~CopcConfigWriter();
                new (&cfg) copc::CopcConfigWriter(h, i, copc::CopcExtents((int8_t)fmt, (uint16_t)s.ebs.size(), s.stats), s.wkt, eb_vlr_of(s.ebs));
            }
            std::shared_ptr<copc::Writer> w;
            if (file)
                w = std::make_shared<copc::FileWriter>(path(), cfg);
            else
                w = std::make_shared<copc::Writer>(out, cfg);
            auto late = [&] { header(*w->CopcConfig()->LasHeader()), info(*w->CopcConfig()->CopcInfo()); };
            if (when == RIGHT)
                late();
            add([&](int i)
            {
                if (i < 0)
                    late();
                else
                    w->AddNode(copc::VoxelKey(i, 0, 0, 0), vec(w::make_recs(fmt, s.eb(), 1 + 10 * i, i + 1)));
            });
            if (when == LATE)
                late();
            w->Close();
        }
        else
        {
            auto cfg = make_laz_cfg(s);
            if (when == BEFORE)
                header(*cfg.LasHeader());
            if (when == MADE)
            {
                cl::LasHeader h = *cfg.LasHeader();
                header(h);
                cfg.~LazConfigWriter();
                new (&cfg) cl::LazConfigWriter(cl::LazConfig(h, s.wkt, eb_vlr_of(s.ebs)));
            }
            std::unique_ptr<copc::laz::LazWriter> w;
            std::unique_ptr<copc::laz::LazFileWriter> fw;
            copc::laz::LazWriter *p;
            if (file)
                p = (fw = std::make_unique<copc::laz::LazFileWriter>(path(), cfg)).get();
            else
                p = (w = std::make_unique<copc::laz::LazWriter>(out, cfg)).get();
            auto late = [&] { header(*p->LazConfig()->LasHeader()); };
            if (when == RIGHT)
                late();
            add([&](int i)
            {
                if (i < 0)
                    late();
                else
                    p->WritePointsCompressed(vec(w::encode_chunk(w::make_recs(fmt, s.eb(), 1 + 10 * i, i + 1), fmt, s.eb())), i + 1);
            });
            if (when == LATE)
                late();
            if (fw)
                fw->Close();
            else
                w->Close();
        }
        if (!file)
            return out.str();
        std::ifstream in(path(), std::ios::binary);
        std::stringstream all;
        all << in.rdbuf();
        return all.str();
    }
    uint64_t points() const { return (uint64_t)nodes * (uint64_t)(nodes + 1) / 2; }
    // the header the file must have, but for where things are
    w::Hdr ref() const
    {
        w::Hdr h;
        h.fmt_byte = (uint8_t)(0x80 | fmt);
        h.rec_len = (uint16_t)(w::base_size(fmt) + s.eb());
        h.count = points();
        for (int i = 0; i < 3; i++)
        {
            h.scale[i] = (&s.scale.x)[i];
            h.offset[i] = (&s.offset.x)[i];
        }
        return h;
    }
};
static w::Info default_info()
{
    w::Info i;
    copc::CopcInfo d;
    i.cx = d.center_x, i.cy = d.center_y, i.cz = d.center_z, i.half = d.halfsize, i.spacing = d.spacing;
    return i;
}
static void check_image(Ctx &c, const Job &j, const std::string &image, w::Hdr want, const w::Info &info = default_info())
{
    auto f = parse_or_fail(c, image, j.copc);
    // what is stored
    want.point_offset = f.h.point_offset, want.vlr_count = f.h.vlr_count, want.evlr_offset = f.h.evlr_offset, want.evlr_count = f.h.evlr_count;
    std::string ref = header_str(want, j.copc);
    c.check(header_str(f.h, j.copc) == ref, "stored header", "the stored header differs\n  got  " + header_str(f.h, j.copc) + "\n  want " + ref);
    c.check(f.wkt == j.s.wkt, "stored WKT", cat("WKT of ", f.wkt.size(), " bytes stored, want ", j.s.wkt.size()));
    c.check(f.ebs == j.s.ebs, "stored extra bytes", "the stored extra-byte descriptions differ");
    if (j.copc)
        c.check(num(f.info.cx) == num(info.cx) && num(f.info.cy) == num(info.cy) && num(f.info.cz) == num(info.cz) &&
                    num(f.info.half) == num(info.half) && num(f.info.spacing) == num(info.spacing),
                "stored info", cat("stored info differs: ", f.info.cx, " ", f.info.cy, " ", f.info.cz, " ", f.info.half, " ", f.info.spacing));
    // what a reader says
    ref += " wkt " + quote0(j.s.wkt) + cat(" eb ", j.s.ebs.size(), ":", mc::hex(w::eb_payload(j.s.ebs), 100000));
    auto same = [&](const std::string &got, const char *who)
    {
        c.check(got == ref, who, cat("a ", who, " gives other metadata\n  got  ", got, "\n  want ", ref));
    };
    c.op("read back");
    if (j.copc)
    {
        std::istringstream in(image);
        auto check = [&](copc::Reader &r, const char *who)
        {
            same(config_str((const cl::LazConfig &)r.CopcConfig(), true), who);
            auto i = r.CopcConfig().CopcInfo();
            std::string got = info_str(i), w = cat(" info ", num(info.cx), " ", num(info.cy), " ", num(info.cz), " ", num(info.half), " ", num(info.spacing),
                                                   " ", f.info.root_off, " ", f.info.root_size);
            c.check(got == w, "info", cat("a ", who, " gives other info\n  got ", got, "\n  want", w));
        };
        copc::Reader r(&in);
        check(r, "Reader");
        if (j.file)
        {
            copc::FileReader fr(j.path());
            check(fr, "FileReader");
        }
    }
    std::istringstream in(image);
    copc::laz::LazReader r(&in);
    same(config_str(r.LazConfig()), "LazReader");
    if (j.file)
    {
        copc::laz::LazFileReader fr(j.path());
        same(config_str(fr.LazConfig()), "LazFileReader");
    }
    c.state(ref);
}

MC_SCENARIOS
{
    // header fields, one or two at a time
    mc::add("header", [](Ctx &c)
    {
        Job j;
        j.copc = !c.flip("LAZ");
        j.when = c.choose(N_WHEN, "when");
        j.fmt = mc::thorough() ? 6 + c.choose(3, "format") : 6 + j.when % 3;
        j.nodes = j.when == 2 ? 2 : 1;
        bool pairs = mc::thorough() || (((j.when == LATE && j.copc) || (j.when == BEFORE && !j.copc)) && c.flip("pairs"));
        c.deviations_left = pairs ? 2 : 1;
        auto want = j.ref();
        std::vector<std::function<void(cl::LasHeader &)>> sets;
        std::string what;
        for (auto &f : fields())
        {
            // pairs: of the returns, only some
            if (!mc::thorough() && pairs && f.name.substr(0, 6) == "points" && f.name != "points of return 5" && f.name != "points of return 6")
                continue;
            int k = c.deviate((int)f.values.size() + 1, f.name.c_str());
            if (!k)
                continue;
            auto &v = f.values[(size_t)k - 1];
            sets.push_back(v.set);
            v.ref(want);
            what += cat(" ", f.name, " #", k);
        }
        j.header = [&](cl::LasHeader &h)
        {
            for (auto &s : sets)
                s(h);
        };
        c.op(cat("set", what, " ", when_name[j.when]));
        want.fmt_byte = (uint8_t)(0x80 | j.fmt), want.rec_len = (uint16_t)w::base_size(j.fmt), want.count = j.points();
        check_image(c, j, j.run(), want);
    }, 0, 16);
    // every field at once, at each time, to streams and files
    mc::add("all fields", [](Ctx &c)
    {
        Job j;
        j.copc = !c.flip("LAZ");
        j.when = c.choose(N_WHEN, "when");
        j.fmt = 6 + c.choose(3, "format");
        j.nodes = c.choose(4, "nodes");
        j.file = c.flip("file");
        int k = c.choose(6, "values");
        if (c.flip("extra bytes"))
            j.s.ebs = eb_two();
        auto want = j.ref();
        std::vector<std::function<void(cl::LasHeader &)>> sets;
        for (auto &f : fields())
        {
            auto &v = f.values[(size_t)k % f.values.size()];
            sets.push_back(v.set);
            v.ref(want);
        }
        j.header = [&](cl::LasHeader &h)
        {
            for (auto &s : sets)
                s(h);
        };
        c.op(cat("set all ", when_name[j.when]));
        check_image(c, j, j.run(), want);
    }, 0, 4);
    // settings that are refused
    mc::add("too long", [](Ctx &c)
    {
        cl::LasHeader h;
        for (size_t n : {0, 1, 15, 16, 17, 31, 32, 33, 64, 300})
        {
            std::string t(n, 'q');
            c.check(throws([&] { h.GUID(t); }) == (n > 16), "GUID", cat("GUID of ", n, " bytes"));
            c.check(throws([&] { h.SystemIdentifier(t); }) == (n > 32), "system identifier", cat("system identifier of ", n, " bytes"));
            c.check(throws([&] { h.GeneratingSoftware(t); }) == (n > 32), "generating software", cat("generating software of ", n, " bytes"));
            c.check(h.GUID() == std::string(std::min<size_t>(n, 16), 'q'), "GUID", "GUID differs");
            c.check(h.SystemIdentifier() == std::string(std::min<size_t>(n, 32), 'q'), "system identifier", "system identifier differs");
            c.check(h.GeneratingSoftware() == std::string(std::min<size_t>(n, 32), 'q'), "generating software", "generating software differs");
            c.state(cat(n));
        }
    });
    mc::add("scale and offset", [](Ctx &c)
    {
        Job j;
        j.copc = !c.flip("LAZ");
        j.fmt = 6 + c.choose(3, "format");
        static const std::vector<double> S{1, 0.001, 1e-9, 1e9, 5e-324, DBL_MAX, -0.5}, O{0, -0.0, 0.1, -1e9, DBL_MAX, 5e-324};
        c.deviations_left = mc::thorough() ? 3 : 2;
        for (int i = 0; i < 3; i++)
        {
            (&j.s.scale.x)[i] = S[(size_t)c.deviate((int)S.size(), "scale")];
            (&j.s.offset.x)[i] = O[(size_t)c.deviate((int)O.size(), "offset")];
        }
        c.op(cat("scale ", num(j.s.scale), " offset ", num(j.s.offset)));
        check_image(c, j, j.run(), j.ref());
    }, 0, 4);
    mc::add("WKT", [](Ctx &c)
    {
        Job j;
        j.copc = !c.flip("LAZ");
        j.nodes = c.choose(3, "nodes");
        size_t n = (size_t)c.pick(std::vector<int>{0, 1, 2, 3, 7, 20, 53, 54, 55, 59, 60, 61, 255, 256, 257, 4095, 65535, 65536, 65537, 200000}, "length");
        switch (c.choose(4, "text"))
        {
        case 0: j.s.wkt = std::string(n, 'w'); break;
        case 1: // white space all over
            for (size_t i = 0; i < n; i++)
                j.s.wkt += " \n\tX "[i % 5];
            break;
        case 2: // any byte
            for (size_t i = 0; i < n; i++)
                j.s.wkt += (char)(1 + i % 255);
            break;
        case 3: // like a record
            j.s.wkt = (std::string("LASF_Projection") + std::string(1, 64) + "copc").substr(0, n);
            break;
        }
        if (c.flip("extra bytes"))
            j.s.ebs = eb_two();
        c.op(cat("WKT of ", j.s.wkt.size(), " bytes"));
        check_image(c, j, j.run(), j.ref());
    }, 0, 4);
    mc::add("extra bytes", [](Ctx &c)
    {
        Job j;
        j.copc = !c.flip("LAZ");
        j.fmt = 6 + c.choose(3, "format");
        j.nodes = 1;
        int n = 1 + c.choose(mc::thorough() ? 3 : 2, "fields");
        int one = c.choose(n, "field");
        for (int i = 0; i < n; i++)
        {
            w::EbItem e;
            e.type = 1;
            e.name = cat("field ", i);
            if (i == one)
                switch (c.choose(5, "what"))
                {
                case 0:
                    e.type = (uint8_t)c.choose(31, "type");
                    e.options = (uint8_t)c.pick(std::vector<int>{0, 1, 2, 31, 128, 255}, "options");
                    break;
                case 1: e.name = std::string((size_t)c.choose(33, "length"), 'n'); break;
                case 2: e.desc = std::string((size_t)c.choose(33, "length"), 'd'); break;
                case 3:
                {
                    static const std::vector<double> D{1, -1, 5e-324, DBL_MAX, HUGE_VAL, NAN};
                    double *a[5] = {e.nodata, e.mn, e.mx, e.scale, e.off};
                    a[c.choose(5, "array")][c.choose(3, "element")] = c.pick(D, "value");
                    break;
                }
                case 4: e.name = e.desc = binary(32); break;
                }
            j.s.ebs.push_back(e);
        }
        c.op(cat(n, " extra-byte fields"));
        check_image(c, j, j.run(), j.ref());
    }, 0, 4);
    mc::add("info", [](Ctx &c)
    {
        Job j;
        j.when = c.choose(N_WHEN, "when");
        j.fmt = 6 + c.choose(3, "format");
        static const std::vector<double> D{0, 1, -1, 1e-9, 5e-324, DBL_MAX, -DBL_MAX, 0.1 + 0.2, -0.0};
        w::Info want;
        double *f[5] = {&want.cx, &want.cy, &want.cz, &want.half, &want.spacing};
        c.deviations_left = 2;
        for (int i = 0; i < 5; i++)
        {
            *f[i] = 10 + i;
            if (int k = c.deviate((int)D.size() + 1, "value"))
                *f[i] = D[(size_t)k - 1];
        }
        j.info = [&](copc::CopcInfo &i) { i.center_x = want.cx, i.center_y = want.cy, i.center_z = want.cz, i.halfsize = want.half, i.spacing = want.spacing; };
        c.op(cat("info set ", when_name[j.when]));
        check_image(c, j, j.run(), j.ref(), want);
    }, 0, 4);
    // files made by others
    mc::add("other files", [](Ctx &c)
    {
        w::Builder b;
        b.fmt = 6 + c.choose(3, "format");
        b.copc = !c.flip("LAZ file");
        c.deviations_left = 2;
        b.wkt = "WKT";
        b.wkt_place = 2;
        for (auto &f : fields())
        {
            if (f.name.substr(0, 6) == "points" && f.name != "points of return 1" && f.name != "points of return 15")
                continue;
            if (int k = c.deviate((int)f.values.size() + 1, f.name.c_str()))
                f.values[(size_t)k - 1].ref(b.h);
        }
        b.nodes = {{{0, 0, 0, 0}, {0, 0, 0, 0}, 2, 1}};
        std::string image = b.build();
        c.op("open");
        if (b.copc)
        {
            std::istringstream in(image);
            copc::Reader r(&in);
            std::string got = config_str((const cl::LazConfig &)r.CopcConfig()), want = ref_laz_config(b, image, true);
            c.check(got == want, "Reader of another file", "metadata differ\n  got  " + got + "\n  want " + want);
        }
        std::istringstream in(image);
        copc::laz::LazReader r(&in);
        std::string got = config_str(r.LazConfig()), want = ref_laz_config(b, image, b.copc);
        c.check(got == want, "LazReader of another file", "metadata differ\n  got  " + got + "\n  want " + want);
        c.state(want);
    }, 0, 4);
    // the headers of variable-length records in their short and long forms
    mc::add("VLR headers", [](Ctx &c)
    {
        bool is_long = c.flip("long");
        auto number = [&](const char *what) { return std::vector<uint64_t>{0, 1, 255, 256, 65535}[(size_t)c.choose(5, what)]; };
        auto text = [&](const char *what, size_t n) { return std::vector<std::string>{"", "a", std::string(n, 'z')}[(size_t)c.choose(3, what)]; };
        uint64_t reserved = number("reserved"), id = number("id"), length = number("length");
        if (is_long && c.flip("beyond 4 GiB"))
            length += uint64_t(5) << 32;
        std::string user = text("user", 16), description = text("description", 32);
        auto same = [&](const auto &h, const char *what)
        {
            c.check(h.reserved == reserved && h.user_id == user && h.record_id == id && h.data_length == length && h.description == description, what,
                    cat(h.reserved, " ", h.user_id, " ", h.record_id, " ", h.data_length, " ", h.description, ", want ", reserved, " ", user, " ", id, " ", length, " ",
                        description));
        };
        cl::VlrHeader v, w;
        if (is_long)
            v = cl::VlrHeader(lazperf::evlr_header{(uint16_t)reserved, user, (uint16_t)id, length, description});
        else
            v = cl::VlrHeader(lazperf::vlr_header{(uint16_t)reserved, user, (uint16_t)id, (uint16_t)length, description});
        w = v;
        cl::VlrHeader x(w);
        c.step(3);
        for (auto *h : {&v, &w, &x})
        {
            same(*h, "VLR header");
            c.check(h->evlr_flag == is_long, "VLR header", "long form or not");
            same(h->ToLazperfEvlrHeader(), "ToLazperfEvlrHeader");
            if (length <= 65535)
                same(h->ToLazperfVlrHeader(), "ToLazperfVlrHeader");
        }
        c.state(cat(is_long, reserved, " ", id, " ", length, " ", user, " ", description));
    });
    // counters of the file
    mc::add("counts", [](Ctx &c)
    {
        Job j;
        j.copc = !c.flip("LAZ");
        j.fmt = 6 + c.choose(3, "format");
        j.nodes = c.choose(12, "nodes");
        if (int n = c.choose(4, "extra bytes"))
            j.s.ebs = eb_raw(n == 1 ? 1 : n == 2 ? 255 : 700);
        if (j.s.ebs.size())
            j.s.wkt = "w";
        c.op(cat(j.nodes, " nodes"));
        check_image(c, j, j.run(), j.ref());
    });
}
