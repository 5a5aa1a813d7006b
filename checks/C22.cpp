// C22: an interrupted write is never mistaken for a complete file.
#include "faulty.hpp"
#include "queries.hpp"

#include <sys/wait.h>

static const std::vector<K> &keys_of(const Hist &h)
{
    static std::map<const Hist *, std::vector<K>> m;
    auto &v = m[&h];
    if (v.empty())
    {
        v = {{0, 0, 0, 0}, {1, 0, 0, 1}};
        for (auto &s : h.steps)
            v.push_back(s.key);
    }
    return v;
}
static std::vector<Hist> histories()
{
    auto v = copc_histories();
    Hist big; // many nodes in many pages, so that cuts fall between pages
    for (int i = 0; i < 6; i++)
    {
        K k{3, i, 0, 7 - i};
        big.steps.push_back({k, i % 2 ? k : K{2, i / 2, 0, (7 - i) / 2}, i % 3, 1 + i % 2});
    }
    big.s.fmt = 7;
    big.s.wkt = "some WKT";
    v.push_back(big);
    return v;
}

// What a reader makes of an image: "rejected", or every answer.
static std::string observe_copc(const std::string &image, const std::vector<Query> &q)
{
    std::istringstream in(image);
    std::unique_ptr<copc::Reader> r;
    if (throws([&] { r = std::make_unique<copc::Reader>(&in); }))
        return "rejected";
    std::string o;
    for (auto &x : q)
    {
        o += x.name + "=";
        if (throws([&] { o += x.f(*r); }))
            o += "<exception>";
        o += "\n";
    }
    return o;
}
static std::string observe_laz(const std::string &image)
{
    std::istringstream in(image);
    std::unique_ptr<copc::laz::LazReader> r;
    if (throws([&] { r = std::make_unique<copc::laz::LazReader>(&in); }))
        return "rejected";
    std::string o;
    for (auto &x : laz_queries())
    {
        o += x.name + "=";
        if (throws([&] { o += x.f(*r); }))
            o += "<exception>";
        o += "\n";
    }
    return o;
}

// Every byte prefix of the log of writes.
template <typename F> static void prefixes(Ctx &c, const LogBuf &log, const std::string &want, F observe)
{
    std::string img;
    uint64_t n = 0, total = 0;
    for (auto &w : log.log)
        total += w.bytes.size();
    int blocks = 8, b = c.choose(blocks, "block of prefixes");
    for (auto &w : log.log)
        for (size_t i = 0; i < w.bytes.size(); i++)
        {
            if (w.pos + i >= img.size())
                img.resize(w.pos + i + 1, '\0');
            img[w.pos + i] = w.bytes[i];
            n++;
            if (n * (uint64_t)blocks / (total + 1) != (uint64_t)b)
                continue;
            c.step();
            c.traces(1);
            c.checks++;
            std::string got = observe(img);
            if (got != "rejected" && got != want)
            {
                size_t at = 0;
                while (at < got.size() && at < want.size() && got[at] == want[at])
                    at++;
                at = got.rfind('\n', at);
                c.fail("partial file accepted", cat("after ", n, " of ", total, " written bytes the file opens but ",
                                                    mc::quote(got.substr(at == std::string::npos ? 0 : at + 1, 120))));
            }
            if (n == total)
                c.check(got == want, "complete file", "the complete file is not read as such");
            c.state(cat(n, got == "rejected"));
        }
}

MC_SCENARIOS
{
    mc::add("copc", [](Ctx &c)
    {
        static const auto H = histories();
        auto &h = c.pick(H, "history");
        static std::map<const Hist *, LogBuf> logs;
        static std::map<const Hist *, std::string> wants;
        auto q = copc_queries(keys_of(h), {}, {0.0});
        if (!logs.count(&h))
        {
            std::ostream out(&logs[&h]);
            Model m;
            m.s = h.s;
            auto cfg = make_cfg(h.s);
            cfg.LasHeader()->max = {1000, 1000, 1000};
            cfg.CopcInfo()->spacing = 4;
            copc::Writer w(out, cfg);
            int i = 0;
            for (auto &s : h.steps)
                run_step(w, m, s, i++);
            w.Close();
            check_stored(c, parse_or_fail(c, logs[&h].data, true), m);
            wants[&h] = observe_copc(logs[&h].data, q);
        }
        c.check(wants[&h].find("<exception>") == std::string::npos, "complete file", "a query of the complete file throws");
        prefixes(c, logs[&h], wants[&h], [&](const std::string &i) { return observe_copc(i, q); });
        // a COPC image that is cut short is no LAZ file either
    }, 0, 8);
    mc::add("copc as laz", [](Ctx &c)
    {
        static const auto H = histories();
        auto &h = c.pick(H, "history");
        LogBuf log;
        std::ostream out(&log);
        Model m;
        m.s = h.s;
        copc::Writer w(out, make_cfg(h.s));
        int i = 0;
        for (auto &s : h.steps)
            run_step(w, m, s, i++);
        w.Close();
        prefixes(c, log, observe_laz(log.data), observe_laz);
    }, 0, 8);
    mc::add("laz", [](Ctx &c)
    {
        static const auto H = laz_histories();
        auto &h = c.pick(H, "history");
        LogBuf log;
        std::ostream out(&log);
        cl::LazConfigWriter cfg = make_laz_cfg(h.s);
        copc::laz::LazWriter w(out, cfg);
        int i = 0;
        for (auto &b : h.batches)
            run_batch(w, h.s, b, i++);
        w.Close();
        std::string want = observe_laz(log.data);
        c.check(want.find("<exception>") == std::string::npos, "complete file", "a query of the complete file throws");
        prefixes(c, log, want, observe_laz);
    }, 0, 4);
    // a process that ends without closing, with a real file
    mc::add("process ends", [](Ctx &c)
    {
        static const auto H = histories();
        auto &h = c.pick(H, "history");
        size_t stop = (size_t)c.choose((int)h.steps.size() + 1, "operations before the end");
        std::string path = scratch_file("c22");
        c.op(cat("end after ", stop, " operations"));
        pid_t p = fork();
        if (p == 0)
        {
            auto *w = new copc::FileWriter(path, make_cfg(h.s));
            Model m;
            m.s = h.s;
            for (size_t i = 0; i < stop; i++)
                run_step(*w, m, h.steps[i], (int)i);
            _exit(0);
        }
        int st = 0;
        waitpid(p, &st, 0);
        c.check(WIFEXITED(st) && WEXITSTATUS(st) == 0, "child", "the writing process failed");
        std::string img = slurp(path);
        ::unlink(path.c_str());
        auto q = copc_queries(keys_of(h), {}, {0.0});
        c.check(observe_copc(img, q) == "rejected", "unclosed file accepted", "the file of a process that ended before closing is accepted");
        c.check(observe_laz(img) == "rejected", "unclosed file accepted", "the file of a process that ended before closing is accepted as LAZ");
        c.state(cat(stop, img.size()));
    });
}
