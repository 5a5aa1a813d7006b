// C24: truncated input never yields wrong data.
#include "images.hpp"

// Compares every answer on the first n bytes with the answers on the whole file.
template <typename R, typename Q> static void cut(Ctx &c, const std::string &image, size_t n, const std::vector<Q> &qs, const std::vector<std::string> &want)
{
    std::string part = image.substr(0, n);
    auto differs = [&](const Q &q, const std::string &got, const std::string &w, const char *how)
    {
        c.checks++;
        if (got != "<exception>" && got != w)
            c.fail("wrong answer", cat("file of ", image.size(), " bytes cut to ", n, ": ", q.name, how, " gives ", mc::hex(got, 40), " (", got.size(),
                                       " bytes), the whole file ", mc::hex(w, 40), " (", w.size(), " bytes)"));
    };
    // files which get shorter after they were opened, and after the first queries
    for (int asked = 0; asked < 2; asked++)
    {
        if (!mc::thorough() && n / 16 % 8 != (n + (size_t)asked * 4) % 8) // one length in eight, spread over the file
            continue;
        std::stringstream in(image);
        R r(&in);
        if (asked)
            ask<R>(&r, qs[1 % qs.size()].f);
        in.str(part);
        std::string st = cat(n, "shrunk", asked);
        for (size_t i = 0; i < qs.size(); i++)
        {
            c.step();
            std::string got = ask<R>(&r, qs[i].f);
            differs(qs[i], got, want[i], " (cut after opening)");
            st += got == "<exception>" ? 'x' : '.';
        }
        c.state(st);
    }
    // one reader for all queries: answers after exceptions must be right, too
    {
        std::istringstream in(part);
        std::unique_ptr<R> r;
        if (throws([&] { r = std::make_unique<R>(&in); }))
        {
            c.state(cat(n, "rejected"));
            c.traces(3);
            return;
        }
        std::string st = cat(n);
        for (int round = 0; round < 2; round++)
            for (size_t i = 0; i < qs.size(); i++)
            {
                c.step();
                std::string got = ask<R>(r.get(), qs[i].f);
                differs(qs[i], got, want[i], round ? " (asked again)" : "");
                st += got == "<exception>" ? 'x' : '.';
            }
        c.state(st);
    }
    // a fresh reader for each
    for (size_t i = 0; i < qs.size(); i++)
    {
        std::istringstream in(part);
        R r(&in);
        differs(qs[i], ask<R>(&r, qs[i].f), want[i], " (first query)");
    }
    c.traces(3 + qs.size());
}
template <typename R, typename Q> static void all_cuts(Ctx &c, const std::string &image, const std::vector<Q> &qs)
{
    std::vector<std::string> want;
    for (auto &q : qs)
    {
        std::istringstream in(image);
        R r(&in);
        want.push_back(ask<R>(&r, q.f));
        c.check(want.back() != "<exception>", "complete file", q.name + " of the complete file throws");
    }
    int b = c.choose(16, "block of lengths");
    for (size_t n = (size_t)b; n < image.size(); n += 16)
        cut<R>(c, image, n, qs, want);
}

MC_SCENARIOS
{
    mc::add("copc", [](Ctx &c)
    {
        static const auto H = histories();
        auto &h = c.pick(H, "history");
        std::vector<K> keys{{0, 0, 0, 0}, {1, 0, 0, 1}, {4, 1, 1, 1}};
        for (auto &s : h.steps)
            keys.push_back(s.key);
        all_cuts<copc::Reader>(c, copc_image(h), copc_queries(keys, {copc::Box(0, 0, 0, 500, 500, 500)}, {0.0, 2.0}));
    }, 0, 8);
    mc::add("other layouts", [](Ctx &c)
    {
        int which = c.choose(12, "layout");
        std::vector<K> keys{{0, 0, 0, 0}, {1, 0, 0, 1}, {2, 0, 1, 2}, {4, 1, 1, 1}};
        all_cuts<copc::Reader>(c, built_image(which), copc_queries(keys, {copc::Box(0, 0, 0, 500, 500, 500)}, {0.0, 2.0}));
    }, 0, 8);
    mc::add("laz", [](Ctx &c)
    {
        static const auto H = laz_histories();
        auto &h = c.pick(H, "history");
        all_cuts<copc::laz::LazReader>(c, laz_image(h), laz_queries());
    }, 0, 4);
    mc::add("copc as laz", [](Ctx &c)
    {
        static const auto H = histories();
        auto &h = c.pick(H, "history");
        all_cuts<copc::laz::LazReader>(c, copc_image(h), laz_queries());
    }, 0, 4);
    // files on disk
    mc::add("files", [](Ctx &c)
    {
        static const auto H = histories();
        auto &h = c.pick(H, "history");
        std::string image = copc_image(h), path = scratch_file("c24");
        auto qs = copc_queries({{0, 0, 0, 0}, {1, 0, 0, 1}}, {}, {0.0});
        std::vector<std::string> want;
        for (auto &q : qs)
        {
            std::istringstream in(image);
            copc::Reader r(&in);
            want.push_back(ask<copc::Reader>(&r, q.f));
        }
        int b = c.choose(8, "block");
        for (size_t n = (size_t)b; n < image.size(); n += 8)
        {
            std::ofstream(path, std::ios::binary).write(image.data(), (std::streamsize)n);
            std::unique_ptr<copc::FileReader> r;
            c.step();
            c.traces(1);
            if (throws([&] { r = std::make_unique<copc::FileReader>(path); }))
                continue;
            for (size_t i = 0; i < qs.size(); i++)
            {
                std::string got = ask<copc::Reader>(r.get(), qs[i].f);
                c.checks++;
                if (got != "<exception>" && got != want[i])
                    c.fail("wrong answer", cat("file of ", image.size(), " bytes cut to ", n, ": ", qs[i].name, " differs"));
            }
        }
        ::unlink(path.c_str());
    }, 0, 8);
}
