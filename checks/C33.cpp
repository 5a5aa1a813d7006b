// C33: files that are not valid COPC or LAS 1.4 are rejected; corrupted ones never crash or hang a reader.
#include "built.hpp"

static w::Builder base(int which)
{
    w::Builder b;
    b.fmt = 6 + which % 3;
    for (int i = 0; i < 3; i++)
    {
        b.h.scale[i] = 0.5;
        b.h.mx[i] = 100;
    }
    b.info.spacing = 8;
    b.info.half = 50;
    b.info.gmin = 13, b.info.gmax = 113;
    b.wkt = "WKT";
    b.wkt_place = 2 - which % 2;
    if (which != 2)
        b.ebs = eb_two();
    b.eb_place = which == 1 ? 2 : 1;
    b.stats = which != 1;
    b.hier_evlrs = which == 1;
    b.junk_vlr = which == 1;
    b.nodes = {{{0, 0, 0, 0}, {0, 0, 0, 0}, 2, 1}, {{1, 0, 0, 1}, {1, 0, 0, 1}, 1, 5}, {{2, 0, 1, 2}, {1, 0, 0, 1}, 2, 9}};
    if (which != 2)
        b.nodes.push_back({{2, 1, 1, 3}, {2, 1, 1, 3}, 1, 13});
    return b;
}
static const std::vector<Query> &queries()
{
    static const auto v = []
    {
        auto q = copc_queries({{0, 0, 0, 0}, {1, 0, 0, 1}, {2, 1, 1, 3}, {3, 3, 3, 3}}, {copc::Box(0, 0, 0, 60, 60, 60)}, {0.0, 4.0});
        q.push_back({"data of all nodes", [](copc::Reader &r)
        {
            for (auto &n : r.GetAllNodes())
            {
                throws([&] { r.GetPoints(n); });
                throws([&] { r.GetPointDataCompressed(n); });
                throws([&] { r.GetPointData(n.key); });
            }
            return std::string();
        }});
        return q;
    }();
    return v;
}
// Opens the image both ways and asks everything; whatever happens must be an answer or an exception.
static void survive(Ctx &c, const std::string &image, const std::vector<std::pair<uint64_t, uint64_t>> &holes = {})
{
    std::string st;
    {
        SparseBuf buf(image, holes);
        std::istream in(&buf);
        std::unique_ptr<copc::Reader> r;
        if (throws([&] { r = std::make_unique<copc::Reader>(&in); }))
            st += "rejected";
        else
            for (auto &q : queries())
            {
                c.step();
                st += throws([&] { q.f(*r); }) ? 'x' : '.';
            }
        c.step();
    }
    {
        SparseBuf buf(image, holes);
        std::istream in(&buf);
        std::unique_ptr<copc::laz::LazReader> r;
        if (throws([&] { r = std::make_unique<copc::laz::LazReader>(&in); }))
            st += " rejected";
        else
            for (auto &q : laz_queries())
            {
                c.step();
                st += throws([&] { q.f(*r); }) ? 'x' : '.';
            }
        c.step();
    }
    c.checks++;
    c.state(cat(mc::hash64(image), st));
    c.outcome(st);
}
static bool opens(const std::string &image, bool as_laz)
{
    std::istringstream in(image);
    return !throws([&]
    {
        if (as_laz)
            copc::laz::LazReader r(&in);
        else
            copc::Reader r(&in);
    });
}
static void must_reject(Ctx &c, const std::string &what, const std::string &image, bool copc, bool laz)
{
    c.op(what);
    c.state(what);
    if (copc)
        c.check(!opens(image, false), "accepted", "a COPC reader accepts a file with " + what);
    if (laz)
        c.check(!opens(image, true), "accepted by LAZ reader", "a LAZ reader accepts a file with " + what);
    c.step(2);
}
template <typename T> static std::string with(std::string s, uint64_t at, T v)
{
    s.replace(at, sizeof v, std::string((const char *)&v, sizeof v));
    return s;
}
static std::string without_hierarchy(int which, const char *user, int rid)
{
    auto b = base(which);
    std::string s = b.build();
    auto h = w::Hdr::parse(s);
    uint64_t at = h.evlr_offset;
    for (uint32_t i = 0; i < h.evlr_count; i++)
    {
        if (s.compare(at + 2, 5, std::string("copc\0", 5)) == 0 && w::get<uint16_t>(s, at + 18) == 1000)
        {
            s.replace(at + 2, 16, w::padded(user, 16));
            s = with(s, at + 18, (uint16_t)rid);
        }
        at += 60 + w::get<uint64_t>(s, at + 20);
    }
    return s;
}

MC_SCENARIOS
{
    // what a reader must refuse
    mc::add("header", [](Ctx &c)
    {
        auto b = base(c.choose(3, "file"));
        b.copc = !c.flip("LAZ file");
        std::string s = b.build();
        auto good = [&] { return opens(s, true) && (!b.copc || opens(s, false)); };
        c.check(good(), "harness", "the file itself is rejected");
        if (!b.copc)
            c.check(!opens(s, false), "accepted", "a COPC reader accepts a LAZ file");
        switch (c.choose(6, "what"))
        {
        case 0:
            for (int major = 0; major < 256; major++)
                for (int minor : {0, 1, 2, 3, 4, 5, 14, 255})
                    if (major != 1 || minor != 4)
                        must_reject(c, cat("version ", major, ".", minor), with(with(s, 24, (uint8_t)major), 25, (uint8_t)minor), true, true);
            for (int minor = 0; minor < 256; minor++)
                if (minor != 4)
                    must_reject(c, cat("version 1.", minor), with(s, 25, (uint8_t)minor), true, true);
            break;
        case 1:
            for (int n = 0; n < 65536; n += n < 1000 ? 1 : 97)
                if (n != 375)
                    must_reject(c, cat("header size ", n), with(s, 94, (uint16_t)n), true, true);
            must_reject(c, "header size 65535", with(s, 94, (uint16_t)65535), true, true);
            break;
        case 2:
            for (int f = 0; f < 64; f++)
                for (int bits : {0x80, 0x00, 0x40, 0xc0})
                    if (f < 6 || f > 8)
                        must_reject(c, cat("point format byte ", f | bits), with(s, 104, (uint8_t)(f | bits)), true, true);
            break;
        case 3:
            for (int e = 0; e < 65536; e += e < 256 ? 1 : 257)
                if (!(e & 16))
                    must_reject(c, cat("global encoding ", e), with(s, 6, (uint16_t)e), true, true);
            break;
        case 4:
            for (int i = 0; i < 4; i++)
                for (int v : {0, 108, 255})
                    must_reject(c, cat("signature byte ", i, " ", v), with(s, (uint64_t)i, (uint8_t)v), true, true);
            for (size_t n : {0, 1, 4, 100, 374, 375, 400})
                must_reject(c, cat("only ", n, " bytes"), s.substr(0, n), true, true);
            break;
        case 5:
            // a point format byte that says the data are not compressed, or the record length is too short
            for (int n = 0; n < w::base_size(b.fmt); n++)
                must_reject(c, cat("record length ", n), with(s, 105, (uint16_t)n), true, true);
            break;
        }
    }, 0, 16);
    mc::add("missing records", [](Ctx &c)
    {
        int which = c.choose(3, "file");
        auto b = base(which);
        std::string s = b.build();
        static const std::vector<std::string> users{"", "Copc", "copc1", "cop", "COPC", "LASF_Spec", "rock_robotic", "copc            ", std::string(16, 'c')};
        static const std::vector<int> ids{0, 1, 2, 999, 1000, 1001, 10000, 65535, 256, 257, 1000 + 256};
        auto &u = c.pick(users, "user id");
        int id = c.pick(ids, "record id");
        must_reject(c, cat("the info record named '", u, "' ", id), with(s, 375 + 18, (uint16_t)id).replace(375 + 2, 16, w::padded(u, 16)), true, false);
        if (id != 1)
            must_reject(c, cat("the info record with id ", id), with(s, 375 + 18, (uint16_t)id), true, false);
        must_reject(c, cat("the hierarchy records named '", u, "' ", id), without_hierarchy(which, u.c_str(), id), true, false);
        if (id != 1000)
            must_reject(c, cat("the hierarchy records with id ", id), without_hierarchy(which, "copc", id), true, false);
        // the counts leave the record out
        must_reject(c, "no VLRs declared", with(s, 100, (uint32_t)0), true, false);
        must_reject(c, "no EVLRs declared", with(s, 243, (uint32_t)0), true, false);
    }, 0, 8);
    // the info record somewhere else
    mc::add("info elsewhere", [](Ctx &c)
    {
        auto b = base(c.choose(3, "file"));
        std::string s = b.build();
        auto h = w::Hdr::parse(s);
        // take the VLRs apart, and put the info record at another place (or in another copy of itself)
        std::vector<std::string> v;
        uint64_t at = 375;
        for (uint32_t i = 0; i < h.vlr_count; i++)
        {
            uint64_t n = 54u + w::get<uint16_t>(s, at + 20);
            v.push_back(s.substr(at, n));
            at += n;
        }
        std::string info = v[0];
        v.erase(v.begin());
        size_t to = 1 + (size_t)c.choose((int)v.size(), "position");
        v.insert(v.begin() + (long)to, info);
        std::string o = s.substr(0, 375);
        for (auto &x : v)
            o += x;
        o += s.substr(at);
        must_reject(c, cat("the info record as VLR ", to), o, true, false);
        // as an EVLR at the end
        std::string e = s;
        e.replace(375 + 2, 16, w::padded("other", 16));
        std::string ev;
        w::put(ev, (uint16_t)0);
        ev += w::padded("copc", 16);
        w::put(ev, (uint16_t)1);
        w::put(ev, (uint64_t)160);
        ev += w::padded("", 32) + info.substr(54);
        e = with(e + ev, 243, h.evlr_count + 1);
        must_reject(c, "the info record as EVLR", e, true, false);
    });
    // every byte of a file
    mc::add("any byte", [](Ctx &c)
    {
        int which = c.choose(mc::thorough() ? 3 : 2, "file");
        static std::map<int, std::string> images;
        if (!images.count(which))
            images[which] = base(which).build();
        auto &s = images[which];
        int blocks = 64, b = c.choose(blocks, "block of positions");
        int n = mc::thorough() ? 10 : 5;
        int how = c.choose(n, "value");
        c.op(cat("file ", which, " bytes of block ", b, " changed in way ", how));
        for (size_t i = (size_t)b; i < s.size(); i += (size_t)blocks)
        {
            auto o = (uint8_t)s[i];
            const uint8_t v[10] = {0, 255, (uint8_t)(o + 1), (uint8_t)(o ^ 0x80), 0x7f, 0x80, (uint8_t)(o - 1), (uint8_t)(o ^ 1), 30, 200};
            if (v[how] == o)
                continue;
            c.op(cat("byte ", i, " from ", (int)o, " to ", (int)v[how]));
            survive(c, with(s, i, v[how]));
            c.traces(1);
        }
    }, 0, 32);
    // hierarchy entries
    mc::add("entries", [](Ctx &c)
    {
        int which = c.choose(3, "file");
        auto b = base(which);
        std::string s = b.build();
        struct E
        {
            uint64_t at;
            std::string name;
        };
        std::vector<E> es;
        for (auto &p : b.entry_pos)
            for (auto &e : p.second)
                es.push_back({e.second, cat(e.first, " in page ", p.first)});
        c.deviations_left = mc::thorough() ? 3 - (which == 0) : 1 + (which == 2);
        std::vector<std::pair<uint64_t, uint64_t>> pages;
        for (auto &p : b.page_pos)
            pages.push_back(p.second);
        std::string what;
        for (auto &e : es)
        {
            // kind of change, each field with special values
            int k = c.deviate(8, "change");
            auto put = [&](uint64_t off, auto v)
            {
                s = with(s, e.at + off, v);
                what += cat(" entry ", e.name, " +", off, "=", v);
            };
            switch (k)
            {
            case 1: // another key
            {
                K key = c.pick(std::vector<K>{{0, 0, 0, 0}, {1, 0, 0, 1}, {1, 1, 1, 1}, {2, 1, 1, 3}, {3, 0, 0, 0}, {2, 9, 9, 9}, {-1, 0, 0, 0}, {INT_MAX, 0, 0, 0}, {2, 0, -1, 0}}, "key");
                s.replace(e.at, 16, w::Entry{key, 0, 0, 0}.bytes().substr(0, 16));
                what += cat(" entry ", e.name, " key ", key);
                break;
            }
            case 2: // another offset: a page, before, after or at the end of the file
            {
                int i = c.choose((int)pages.size() + 4, "offset");
                uint64_t v = i < (int)pages.size() ? pages[(size_t)i].first : i == (int)pages.size() ? 0 : i == (int)pages.size() + 1 ? s.size() : i == (int)pages.size() + 2 ? UINT64_MAX : s.size() - 40;
                put(16, v);
                break;
            }
            case 3: // a page with that page's offset and size
            {
                auto &p = pages[(size_t)c.choose((int)pages.size(), "page")];
                put(16, p.first);
                put(24, (int32_t)p.second);
                put(28, (int32_t)-1);
                break;
            }
            case 4: put(24, c.pick(std::vector<int32_t>{0, -1, 1, 31, 33, 64, 100000, INT_MIN}, "size")); break;
            case 5: put(28, c.pick(std::vector<int32_t>{0, -1, -2, 1, 1000, INT_MAX, INT_MIN}, "count")); break;
            case 6: // a copy of another entry
            {
                auto &o = es[(size_t)c.choose((int)es.size(), "copied entry")];
                s.replace(e.at, 32, s.substr(o.at, 32));
                what += cat(" entry ", e.name, " = ", o.name);
                break;
            }
            case 7: // the root as a page
                s.replace(e.at, 32, w::Entry{K{}, b.page_pos.at(K{}).first, (int32_t)b.page_pos.at(K{}).second, -1}.bytes());
                what += cat(" entry ", e.name, " = root page");
                break;
            }
        }
        c.op("file with" + what);
        survive(c, s);
    }, 0, 32);
    // counts, sizes and offsets in the header, records and info
    mc::add("fields", [](Ctx &c)
    {
        int which = c.choose(3, "file");
        auto b = base(which);
        b.copc = !c.flip("LAZ file");
        std::string s = b.build();
        auto h = w::Hdr::parse(s);
        struct F
        {
            std::string name;
            uint64_t at;
            int size;
        };
        std::vector<F> fs{{"point offset", 96, 4}, {"VLR count", 100, 4}, {"record length", 105, 2}, {"EVLR offset", 235, 8}, {"EVLR count", 243, 4}, {"point count", 247, 8}, {"chunk table", h.point_offset, 8}};
        uint64_t at = 375;
        if (b.copc)
        {
            fs.push_back({"root offset", 375 + 54 + 40, 8});
            fs.push_back({"root size", 375 + 54 + 48, 8});
        }
        for (uint32_t i = 0; i < h.vlr_count; i++)
        {
            fs.push_back({cat("VLR ", i, " length"), at + 20, 2});
            at += 54u + w::get<uint16_t>(s, at + 20);
        }
        at = h.evlr_offset;
        for (uint32_t i = 0; i < h.evlr_count; i++)
        {
            fs.push_back({cat("EVLR ", i, " length"), at + 20, 8});
            at += 60 + w::get<uint64_t>(s, at + 20);
        }
        c.deviations_left = mc::thorough() || which == 2 ? 2 : 1;
        std::string what;
        for (auto &f : fs)
        {
            static const std::vector<uint64_t> V{0, 0, 1, 29, 0xffff, 0x7fffff, (uint64_t)-60, (uint64_t)-1, 1ull << 63, 40000};
            int k = c.deviate((int)V.size() + 1, "value");
            if (k && !mc::thorough() && c.deviations_left == 0 && which == 2 && k != 1 && k != 2 && k != 6)
                return;
            if (!k)
                continue;
            uint64_t old = 0, v = k == (int)V.size() ? 0 : V[(size_t)k];
            std::memcpy(&old, s.data() + f.at, (size_t)f.size);
            if (k == (int)V.size())
                v = old + 1;
            s.replace(f.at, (size_t)f.size, std::string((const char *)&v, (size_t)f.size));
            what += cat(" ", f.name, " ", v);
        }
        c.op("file with" + what);
        survive(c, s);
    }, 0, 32);
    // a line of pages: as deep as a key can be, or deeper
    mc::add("many pages", [](Ctx &c)
    {
        int n = c.pick(std::vector<int>{1, 31, 1000, mc::thorough() ? 300000 : 60000}, "pages");
        bool nested = c.flip("each below the last");
        auto b = base(2);
        b.nodes.resize(1);
        std::string s = b.build();
        std::string body;
        uint64_t at = s.size();
        // every page holds only the entry of the next
        for (int i = 1; i <= n; i++)
        {
            K k = nested ? K{i, 0, 0, 0} : K{20, i, i / 7, 0};
            body += w::Entry{k, at + 32 * (uint64_t)i, i == n ? 0 : 32, -1}.bytes();
        }
        s += body;
        s = with(s, 375 + 54 + 40, at);
        s = with(s, 375 + 54 + 48, (uint64_t)32);
        c.op(cat(n, " pages in a line"));
        std::istringstream in(s);
        copc::Reader r(&in);
        std::string st;
        for (auto &f : std::vector<std::function<void()>>{[&] { r.GetAllNodes(); }, [&] { r.GetPageList(); }, [&] { if (!nested || n <= 1000) r.FindNode(copc::VoxelKey(nested ? n : 20, 0, 0, 0)); },
                                                          [&] { r.GetAllChildrenOfPage(copc::VoxelKey(1, 0, 0, 0)); }, [&] { r.FindNode(copc::VoxelKey(1, 0, 0, 0)); }})
        {
            st += throws(f) ? 'x' : '.';
            c.step();
        }
        if (!nested || n <= 1000)
        {
            std::istringstream in2(s);
            copc::Reader r2(&in2);
            st += throws([&] { r2.FindNode(copc::VoxelKey(nested ? n + 1 : 20, 0, 0, 0)); }) ? 'x' : '.';
            st += throws([&] { r2.GetAllChildrenOfPage(copc::VoxelKey(nested ? n : 20, 0, 0, 0)); }) ? 'x' : '.';
        }
        c.checks++;
        c.state(cat(n, nested, st));
        c.outcome(st);
    }, 0, 4);
    // extra-byte descriptions and extents
    mc::add("descriptions", [](Ctx &c)
    {
        int which = c.choose(2, "file");
        auto b = base(which);
        std::string what;
        switch (c.choose(3, "what"))
        {
        case 0:
        {
            int t = c.choose(256, "data type");
            b.ebs[0].type = (uint8_t)t;
            b.raw_eb = c.pick(std::vector<int>{0, 40}, "more bytes");
            what = cat("extra bytes of type ", t);
            std::string s = b.build();
            c.op(what);
            survive(c, s);
            // and what a writer makes of it
            std::istringstream in(s);
            c.check(true, "", "");
            throws([&]
            {
                copc::Reader r(&in);
                std::stringstream out;
                copc::Writer w(out, copc::CopcConfigWriter(r.CopcConfig()));
                for (auto &n : r.GetAllNodes())
                    w.AddNode(n.key, r.GetPointData(n), n.page_key);
                w.Close();
            });
            throws([&]
            {
                copc::CopcConfigWriter cfg(7, {1, 1, 1}, {0, 0, 0}, "", eb_vlr_of(b.ebs));
                std::stringstream out;
                copc::Writer w(out, cfg);
                w.Close();
            });
            return;
        }
        case 1:
        {
            static const std::vector<double> D{0, -1, 1, NAN, HUGE_VAL, -HUGE_VAL, DBL_MAX, -DBL_MAX, 5e-324};
            b.ext_values.assign(60, {0, 1});
            b.ext_values[13] = {13, 113};
            int i = c.choose(w::dims(b.fmt) + 2, "extent");
            b.ext_values[(size_t)i] = {c.pick(D, "minimum"), c.pick(D, "maximum")};
            what = cat("extent ", i, " ", b.ext_values[(size_t)i].first, "..", b.ext_values[(size_t)i].second);
            break;
        }
        case 2:
        {
            static const std::vector<double> D{0, -1, 1, NAN, HUGE_VAL, -HUGE_VAL};
            b.stats = true;
            b.stat_values.assign(60, {0, 1});
            int i = c.choose(w::dims(b.fmt) + 2, "statistics");
            b.stat_values[(size_t)i] = {c.pick(D, "mean"), c.pick(D, "variance")};
            what = cat("statistics ", i, " ", b.stat_values[(size_t)i].first, "..", b.stat_values[(size_t)i].second);
            break;
        }
        }
        c.op(what);
        survive(c, b.build());
    }, 0, 8);
}

// Memory: what a corrupted size asks for beyond this is refused, as a system would sooner or later.
static void *get_memory(size_t n)
{
    void *p = n > (size_t)(48u << 20) ? nullptr : std::malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    return p;
}
void *operator new(size_t n) { return get_memory(n); }
void *operator new[](size_t n) { return get_memory(n); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete(void *p, size_t) noexcept { std::free(p); }
void operator delete[](void *p, size_t) noexcept { std::free(p); }
