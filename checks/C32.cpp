// C32: any conforming COPC layout is read.
#include "built.hpp"

static void hierarchy(w::Builder &b, int which)
{
    switch (which)
    {
    case 0: // the root only
        b.nodes = {{{0, 0, 0, 0}, {0, 0, 0, 0}, 2, 1}};
        break;
    case 1: // nested and sibling pages, pages without nodes of their own
        b.nodes = {{{3, 1, 0, 2}, {2, 0, 0, 1}, 1, 1}, {{0, 0, 0, 0}, {0, 0, 0, 0}, 2, 5}, {{1, 1, 1, 1}, {0, 0, 0, 0}, 1, 9},
                   {{2, 3, 3, 3}, {2, 3, 3, 3}, 3, 13}, {{1, 0, 1, 0}, {1, 0, 1, 0}, 1, 17}, {{4, 2, 1, 5}, {2, 0, 0, 1}, 1, 21}};
        b.pages = {{1, 0, 0, 0}};
        break;
    case 2: // nodes without points, and chunks in an order of their own
        b.nodes = {{{2, 1, 2, 3}, {1, 0, 1, 1}, 1, 1}, {{1, 0, 1, 1}, {1, 0, 1, 1}, 0, 0}, {{0, 0, 0, 0}, {0, 0, 0, 0}, 0, 0}, {{1, 0, 0, 0}, {0, 0, 0, 0}, 4, 7}};
        break;
    case 3: // no nodes
        break;
    case 4: // no root node, only pages below
        b.nodes = {{{2, 0, 0, 0}, {2, 0, 0, 0}, 1, 1}, {{2, 0, 0, 1}, {2, 0, 0, 1}, 1, 3}, {{2, 0, 1, 0}, {2, 0, 1, 0}, 1, 5}};
        break;
    }
}
static void header(w::Builder &b)
{
    b.h.source = 7;
    b.h.encoding = 0x11;
    b.h.guid = "a guid";
    b.h.system = "a system";
    b.h.software = "some software";
    b.h.day = 33;
    b.h.year = 2020;
    for (int i = 0; i < 3; i++)
    {
        b.h.scale[i] = 0.01 * (i + 1);
        b.h.offset[i] = 10 * i - 5;
        b.h.mn[i] = -100 - i;
        b.h.mx[i] = 100 + i;
    }
    for (int i = 0; i < 15; i++)
        b.h.ret[i] = (uint64_t)i * 3 + (i == 14 ? 1ull << 40 : 0);
    b.info.cx = 1, b.info.cy = 2, b.info.cz = 3, b.info.half = 200, b.info.spacing = 4;
    b.info.gmin = 13, b.info.gmax = 113;
}
static void extra(w::Builder &b, int which)
{
    if (which & 1)
        b.ebs = eb_two();
    if (which & 2)
        b.raw_eb = 3;
}
static std::vector<K> others()
{
    static const std::vector<K> v = keys_to(2);
    return v;
}
static void verify(Ctx &c, w::Builder &b)
{
    std::string image = b.build();
    c.op(cat("open a file of ", image.size(), " bytes"));
    c.state(mc::hex(image, image.size()));
    {
        std::istringstream in(image);
        copc::Reader r(&in);
        check_copc_config(c, r, b, image);
        check_built(c, r, b, others());
        check_copc_config(c, r, b, image);
    }
    {
        // lookups first, on readers that have loaded nothing
        for (auto &n : b.out_nodes)
        {
            std::istringstream in(image);
            copc::Reader r(&in);
            auto got = r.FindNode(vk(n.first));
            c.check(got.IsValid() && node_str(got) == node_str(n.first, n.second), "first lookup",
                    cat("FindNode ", n.first, " first: ", node_str(got), " want ", node_str(n.first, n.second)));
        }
        c.traces(b.out_nodes.size());
    }
    check_laz(c, b, image);
    c.step(3);
}

MC_SCENARIOS
{
    // where things are
    mc::add("placement", [](Ctx &c)
    {
        w::Builder b;
        header(b);
        b.fmt = 6 + c.choose(3, "format");
        extra(b, c.choose(4, "extra bytes"));
        if (b.ebs.size())
            b.eb_place = 1 + c.choose(2, "extra bytes in an EVLR");
        b.wkt_place = c.choose(3, "WKT: none, VLR, EVLR");
        if (b.wkt_place)
            b.wkt = c.flip("long WKT") ? std::string(3000, 'W') : "WKT";
        b.extents = !c.flip("no extents");
        b.stats = c.flip("statistics");
        b.junk_vlr = c.flip("unknown VLRs") ? 4 : 0;
        b.junk_evlr = c.flip("unknown EVLRs") ? 4 : 0;
        if (b.wkt_place == 2)
            b.evlr_wkt_first = c.flip("WKT before pages");
        b.hier_evlrs = c.choose(3, "pages: EVLR each, one EVLR, VLR");
        hierarchy(b, 1);
        verify(c, b);
    }, 0, 16);
    // hierarchies and gaps
    mc::add("pages", [](Ctx &c)
    {
        w::Builder b;
        header(b);
        b.fmt = 6 + c.choose(3, "format");
        b.wkt_place = c.choose(3, "WKT: none, VLR, EVLR");
        b.wkt = "WKT";
        b.hier_evlrs = c.choose(3, "pages: EVLR each, one EVLR, VLR");
        b.page_layout = c.choose(3, "page order");
        b.hier_pad = 16 * c.choose(3, "space after pages");
        b.data_pad = 50 * c.choose(3, "space before the points");
        b.tail_pad = 7 * c.choose(3, "space after the chunk table");
        hierarchy(b, c.choose(5, "hierarchy"));
        verify(c, b);
    }, 0, 16);
    // every order of the VLRs after the info VLR
    mc::add("VLR order", [](Ctx &c)
    {
        w::Builder b;
        header(b);
        b.fmt = 8;
        b.ebs = eb_two();
        b.wkt_place = 1;
        b.wkt = "WKT";
        b.stats = true;
        b.hier_evlrs = 2;
        b.junk_vlr = mc::thorough() ? 2 : 1;
        b.nodes = {{{0, 0, 0, 0}, {0, 0, 0, 0}, 2, 1}, {{1, 1, 1, 1}, {1, 1, 1, 1}, 1, 4}};
        std::vector<int> left;
        for (int i = 0; i < 6 + b.junk_vlr; i++)
            left.push_back(i);
        while (!left.empty())
        {
            int i = left.size() == 1 ? 0 : c.choose((int)left.size(), "next VLR");
            b.vlr_order.push_back(left[(size_t)i]);
            left.erase(left.begin() + i);
        }
        verify(c, b);
    }, 0, 16);
    // records of others that look like those that matter: the same record id, and an owner whose name is nearly the same
    mc::add("lookalikes", [](Ctx &c)
    {
        static const std::vector<std::pair<const char *, int>> known{{"copc", 1}, {"copc", 1000}, {"copc", 10000}, {"rock_robotic", 10001}, {"LASF_Projection", 2112}, {"LASF_Spec", 4}};
        w::Builder b;
        header(b);
        b.fmt = 6 + c.choose(3, "format");
        auto &k = c.pick(known, "record");
        std::string user = k.first;
        w::Vlr v;
        v.rid = (uint16_t)k.second;
        switch (c.choose(10, "owner"))
        {
        case 0: user += "x"; break;
        case 1: user.pop_back(); break;
        case 2: user = " " + user.substr(0, 15); break;
        case 3: user[0] ^= 0x20; break;
        case 4: user = ""; break;
        // the same owner, another record
        case 5: v.rid = (uint16_t)(v.rid + 1); break;
        case 6: v.rid = (uint16_t)(v.rid ^ 0x100); break;
        case 7: v.rid = (uint16_t)(v.rid ^ 0x1000); break;
        case 8: v.rid = (uint16_t)(v.rid ^ 0x8000); break;
        case 9: v.rid = (uint16_t)(v.rid << 8 | v.rid >> 8); break;
        }
        v.user = user;
        v.desc = "foreign";
        // data that would be taken for it
        int n = c.choose(2, "data");
        v.data = std::string(n ? 160 : 16 * 14, '\x01');
        if (k.second == 4)
            v.data = w::eb_payload(eb_two()).substr(0, 192 * (size_t)(n + 1));
        if (k.second == 2112)
            v.data = "WKT of another";
        b.foreign = {v};
        if (c.flip("two"))
            b.foreign.push_back(v);
        b.foreign_place = c.choose(4, "place");
        bool full = c.flip("with the real record");
        b.hier_evlrs = c.choose(3, "pages: EVLR each, one EVLR, VLR");
        b.wkt_place = full ? 1 + c.choose(2, "WKT EVLR") : 0;
        b.wkt = full ? "WKT" : "";
        if (full)
            b.ebs = eb_two(), b.eb_place = 1 + c.choose(2, "extra bytes EVLR");
        b.extents = b.stats = full;
        hierarchy(b, 1);
        c.op(cat("foreign record ", v.user, "/", v.rid));
        verify(c, b);
    }, 0, 8);
    // many records, pages, entries and points in a chunk
    mc::add("many", [](Ctx &c)
    {
        w::Builder b;
        header(b);
        b.fmt = 6 + c.choose(3, "format");
        int what = c.choose(5, "what");
        b.hier_evlrs = what == 2 ? c.choose(2, "pages: EVLR each, one EVLR") : 1;
        b.wkt_place = 1 + c.choose(2, "WKT: VLR, EVLR");
        b.wkt = "WKT";
        b.ebs = eb_two();
        b.eb_place = b.wkt_place;
        static const std::vector<int> counts{7, 15, 31, 63, 127, 200, 254, 255, 256, 257};
        int n = c.pick(counts, "how many");
        std::string name;
        if (what == 0 || what == 1)
        {
            // unknown records before those that matter
            w::Vlr v;
            v.user = "someone";
            v.desc = "foreign";
            for (int i = 0; i < n; i++)
            {
                v.rid = (uint16_t)i;
                v.data = std::string((size_t)(i % 7), 'x');
                b.foreign.push_back(v);
            }
            b.foreign_place = what == 0 ? 0 : 2;
            b.nodes = {{{0, 0, 0, 0}, {0, 0, 0, 0}, 2, 1}, {{1, 1, 1, 1}, {1, 1, 1, 1}, 1, 4}};
            name = what == 0 ? "unknown VLRs" : "unknown EVLRs";
        }
        else if (what == 2)
        {
            // a page for each node
            for (auto &k : octree_keys(n))
                b.nodes.push_back({k, k, 1, 1 + (int)b.nodes.size() % 50});
            name = "pages";
        }
        else if (what == 3)
        {
            // a root page of many entries: to beyond 65535 bytes
            int m = n == 257 ? 2100 : n;
            for (auto &k : octree_keys(m))
                b.nodes.push_back({k, {0, 0, 0, 0}, k.d == 2 ? 1 : 0, 1 + (int)b.nodes.size() % 50});
            name = "entries";
        }
        else
        {
            // many extra-byte fields
            b.ebs.clear();
            for (int i = 0; i < n; i++)
            {
                w::EbItem e;
                e.type = 1;
                e.name = cat("field ", i);
                b.ebs.push_back(e);
            }
            b.stats = true;
            b.nodes = {{{0, 0, 0, 0}, {0, 0, 0, 0}, 2, 1}, {{1, 1, 1, 1}, {1, 1, 1, 1}, 1, 4}};
            name = "extra-byte fields";
        }
        std::string image = b.build();
        c.op(cat("open a file with ", n, " ", name));
        c.state(mc::hash64(image) ? cat(mc::hash64(image)) : "");
        std::istringstream in(image);
        copc::Reader r(&in);
        check_copc_config(c, r, b, image);
        check_built(c, r, b, others());
        check_laz(c, b, image);
        c.step(3);
    }, 0, 8);
    // chunks, WKT and pages beyond 4 GiB
    mc::add("far", [](Ctx &c)
    {
        w::Builder b;
        header(b);
        b.fmt = 6 + c.choose(3, "format");
        extra(b, c.choose(4, "extra bytes"));
        b.wkt_place = 2;
        b.wkt = "WKT";
        static const std::vector<uint64_t> gaps{0, (1ull << 31) - 1000, 1ull << 31, (1ull << 32) - 1000, 1ull << 32, (1ull << 32) + 5, 5ull << 32, 1ull << 50};
        b.chunk_gap = c.pick(gaps, "hole in the chunks");
        b.tail_gap = c.pick(gaps, "hole before the EVLRs");
        b.hier_evlrs = c.choose(2, "pages: EVLR each, one EVLR");
        // or a record of others that is as large, before all others
        bool foreign = (mc::thorough() || b.chunk_gap == 0) && c.flip("hole in an unknown EVLR");
        if (foreign)
        {
            w::Vlr v;
            v.user = "someone";
            v.rid = 2112;
            v.data = "long";
            v.hole = b.tail_gap;
            b.foreign = {v};
            b.foreign_place = 2;
            if (!mc::thorough())
                b.tail_gap = 0;
            b.evlr_wkt_first = c.flip("WKT before pages");
        }
        hierarchy(b, 1);
        std::string image = b.build();
        c.op(cat("open a file of ", image.size(), " bytes and ", b.chunk_gap, " + ", b.tail_gap, " of holes", foreign ? " and an unknown record" : ""));
        c.state(cat(b.fmt, b.ebs.size(), b.chunk_gap, " ", b.tail_gap, b.hier_evlrs, b.raw_eb, foreign, b.evlr_wkt_first));
        SparseBuf buf(image, b.holes);
        std::istream in(&buf);
        copc::Reader r(&in);
        check_copc_config(c, r, b, image);
        check_built(c, r, b, others());
    }, 0, 8);
}
