// Files of several kinds, as bytes.
#pragma once
#include "faulty.hpp"
#include "queries.hpp"

static std::vector<Hist> histories()
{
    auto v = copc_histories();
    Hist big;
    for (int i = 0; i < 5; i++)
    {
        K k{3, i, 0, 7 - i};
        big.steps.push_back({k, i % 2 ? k : K{2, i / 2, 0, (7 - i) / 2}, i % 3, 2 + i % 2});
    }
    big.s.fmt = 7;
    big.s.wkt = "some WKT";
    v.push_back(big);
    return v;
}
static std::string copc_image(const Hist &h)
{
    std::stringstream out;
    Model m;
    m.s = h.s;
    auto cfg = make_cfg(h.s);
    cfg.LasHeader()->max = {1000, 1000, 1000};
    cfg.CopcInfo()->spacing = 4;
    copc::Writer w(out, cfg);
    int i = 0;
    for (auto &s : h.steps)
        run_step(w, m, s, i++);
    w.Close();
    return out.str();
}
// Files in another layout: WKT and extra bytes as EVLRs at the end, pages in one EVLR.
static std::string built_image(int which)
{
    w::Builder b;
    b.h.mx[0] = b.h.mx[1] = b.h.mx[2] = 1000;
    b.info.spacing = 4;
    b.fmt = 6 + which % 3;
    b.ebs = eb_raw(2);
    b.wkt = "WKT of a built file";
    b.wkt_place = 1 + which % 2;
    b.eb_place = 1 + which / 2 % 2;
    b.hier_evlrs = which / 4;
    b.junk_evlr = 1;
    if (which >= 8) // everything but the points at the start of the file, so that it opens as long as that is there
    {
        b.wkt_place = b.eb_place = 1;
        b.junk_evlr = which % 2;
    }
    b.stats = true;
    b.ext_values.assign(30, {1, 2});
    b.stat_values.assign(30, {1, 2});
    b.nodes = {{{0, 0, 0, 0}, {0, 0, 0, 0}, 2, 1}, {{1, 0, 0, 1}, {1, 0, 0, 1}, 1, 5}, {{2, 0, 1, 2}, {2, 0, 1, 2}, 3, 9}};
    b.info.gmin = 1, b.info.gmax = 2;
    return b.build();
}
static std::string laz_image(const LHist &h)
{
    std::stringstream out;
    cl::LazConfigWriter cfg = make_laz_cfg(h.s);
    copc::laz::LazWriter w(out, cfg);
    int i = 0;
    for (auto &b : h.batches)
        run_batch(w, h.s, b, i++);
    w.Close();
    return out.str();
}

template <typename R> static std::string ask(R *r, const std::function<std::string(R &)> &f)
{
    std::string o;
    if (throws([&] { o = f(*r); }))
        return "<exception>";
    return "=" + o;
}
