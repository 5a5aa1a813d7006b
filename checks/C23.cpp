// C23: a failing output is reported.
#include "faulty.hpp"

#include <cerrno>
#include <csignal>
#include <dlfcn.h>
#include <sys/resource.h>
#include <unistd.h>

// Closing a file can be the moment when it turns out that its content could not be kept.
static bool g_fail_close = false;
static int g_failed_closes = 0;
extern "C" int fclose(FILE *f)
{
    using F = int (*)(FILE *);
    static F real = (F)dlsym(RTLD_NEXT, "fclose");
    int r = real(f);
    if (!g_fail_close)
        return r;
    g_failed_closes++;
    errno = EIO;
    return EOF;
}

// Runs a history on a stream; returns whether some call threw.
static bool run_copc(std::ostream &out, const Hist &h)
{
    bool threw = false;
    Model m;
    m.s = h.s;
    auto cfg = make_cfg(h.s);
    std::unique_ptr<copc::Writer> w;
    threw |= throws([&] { w = std::make_unique<copc::Writer>(out, cfg); });
    if (!w)
        return true;
    int i = 0;
    for (auto &t : h.steps)
        threw |= throws([&] { run_step(*w, m, t, i++); });
    threw |= throws([&] { w->Close(); });
    throws([&] { w->Close(); });
    return threw;
}
static bool run_laz(std::ostream &out, const LHist &h)
{
    bool threw = false;
    cl::LazConfigWriter cfg = make_laz_cfg(h.s);
    std::unique_ptr<copc::laz::LazWriter> w;
    threw |= throws([&] { w = std::make_unique<copc::laz::LazWriter>(out, cfg); });
    if (!w)
        return true;
    int i = 0;
    for (auto &b : h.batches)
        threw |= throws([&] { run_batch(*w, h.s, b, i++); });
    threw |= throws([&] { w->Close(); });
    throws([&] { w->Close(); });
    return threw;
}

template <typename F> static void explore(Ctx &c, F run, bool copc)
{
    FailBuf ref;
    {
        std::ostream out(&ref);
        c.check(!run(out), "sound output", "a call threw although every output operation succeeded");
    }
    // the explorer splits on blocks of operations; all operations of a block are tried
    int blocks = 16, b = c.choose(blocks, "block of output operations");
    int mode = c.choose(3, "way of failing");
    bool stays = c.flip("stays failed"), exc = c.flip("stream throws");
    std::string want = parse_or_fail(c, ref.data, copc).canon();
    for (size_t k = ref.count * (size_t)b / (size_t)blocks; k < ref.count * (size_t)(b + 1) / (size_t)blocks; k++)
    {
        FailBuf f;
        f.fail_at = k;
        f.mode = mode;
        f.stays = stays;
        std::ostream out(&f);
        if (exc)
            out.exceptions(std::ios::badbit | std::ios::failbit);
        c.step();
        c.traces(1);
        bool threw = run(out);
        c.checks++;
        if (f.failed && !threw)
            c.fail("silent failure", cat("output operation ", k, " of ", ref.count, " failed (way ", mode, ", ", stays ? "persistently" : "once",
                                         ") but every call returned normally"));
        if (!threw)
            c.check(parse_or_fail(c, f.data, copc).canon() == want, "content", "every call returned normally but the file is not complete");
        c.state(cat(mode, stays, exc, k));
    }
}

template <typename F> static void file_limits(Ctx &c, const std::string &path, F run)
{
    signal(SIGXFSZ, SIG_IGN);
    bool threw = run(path);
    c.check(!threw, "sound output", "a call threw although the file could be written");
    std::string want = slurp(path);
    int b = c.choose(8, "block of file sizes");
    for (size_t n = want.size() * (size_t)b / 8; n < want.size() * (size_t)(b + 1) / 8; n++)
    {
        rlimit old{}, lim{};
        getrlimit(RLIMIT_FSIZE, &old);
        lim = old;
        lim.rlim_cur = n;
        setrlimit(RLIMIT_FSIZE, &lim);
        c.step();
        c.traces(1);
        threw = run(path);
        setrlimit(RLIMIT_FSIZE, &old);
        c.checks++;
        if (!threw)
            c.fail("silent failure: file", cat("no call threw although the file could only hold ", n, " of ", want.size(), " bytes"));
        c.state(cat(n));
    }
    ::unlink(path.c_str());
}

MC_SCENARIOS
{
    mc::add("copc stream", [](Ctx &c)
    {
        static const auto H = copc_histories();
        auto &h = c.pick(H, "history");
        explore(c, [&](std::ostream &o) { return run_copc(o, h); }, true);
    }, 0, 8);
    mc::add("laz stream", [](Ctx &c)
    {
        static const auto H = laz_histories();
        auto &h = c.pick(H, "history");
        explore(c, [&](std::ostream &o) { return run_laz(o, h); }, false);
    }, 0, 4);
    mc::add("copc file", [](Ctx &c)
    {
        static const auto H = copc_histories();
        auto &h = c.pick(H, "history");
        file_limits(c, scratch_file("copc"), [&](const std::string &p)
        {
            std::unique_ptr<copc::FileWriter> w;
            bool threw = throws([&] { w = std::make_unique<copc::FileWriter>(p, make_cfg(h.s)); });
            if (!w)
                return true;
            Model m;
            m.s = h.s;
            int i = 0;
            for (auto &t : h.steps)
                threw |= throws([&] { run_step(*w, m, t, i++); });
            threw |= throws([&] { w->Close(); });
            return threw;
        });
    }, 0, 8);
    mc::add("laz file", [](Ctx &c)
    {
        static const auto H = laz_histories();
        auto &h = c.pick(H, "history");
        file_limits(c, scratch_file("laz"), [&](const std::string &p)
        {
            std::unique_ptr<copc::laz::LazFileWriter> w;
            bool threw = throws([&] { w = std::make_unique<copc::laz::LazFileWriter>(p, make_laz_cfg(h.s)); });
            if (!w)
                return true;
            int i = 0;
            for (auto &b : h.batches)
                threw |= throws([&] { run_batch(*w, h.s, b, i++); });
            threw |= throws([&] { w->Close(); });
            return threw;
        });
    }, 0, 8);
    // the operating system reports a failure as late as when the file is closed
    mc::add("closing the file fails", [](Ctx &c)
    {
        bool copc = c.flip("COPC");
        static const auto H = copc_histories();
        static const auto L = laz_histories();
        auto path = scratch_file("close");
        bool fails = c.flip("fails"), threw = false, reached = false;
        g_failed_closes = 0;
        auto close = [&](auto &w)
        {
            g_fail_close = fails;
            threw |= throws([&] { w.Close(); });
            g_fail_close = false;
            reached = g_failed_closes > 0;
        };
        if (copc)
        {
            auto &h = c.pick(H, "history");
            copc::FileWriter w(path, make_cfg(h.s));
            Model m;
            m.s = h.s;
            for (auto &t : h.steps)
                run_step(w, m, t, 1);
            close(w);
        }
        else
        {
            auto &h = c.pick(L, "history");
            copc::laz::LazFileWriter w(path, make_laz_cfg(h.s));
            for (auto &b : h.batches)
                run_batch(w, h.s, b, 1);
            close(w);
        }
        ::unlink(path.c_str());
        c.op("close");
        // a writer that gives its file to the system in another way is not concerned
        c.check(threw == (fails && reached), "silent failure: closing", fails ? "no call threw although the file could not be closed" : "a call threw although nothing failed");
        c.state(cat(copc, fails, reached));
    });
    mc::add("full device", [](Ctx &c)
    {
        bool copc = c.flip("COPC");
        static const auto H = copc_histories();
        static const auto L = laz_histories();
        bool threw = false;
        if (copc)
        {
            auto &h = c.pick(H, "history");
            std::unique_ptr<copc::FileWriter> w;
            threw |= throws([&] { w = std::make_unique<copc::FileWriter>("/dev/full", make_cfg(h.s)); });
            Model m;
            m.s = h.s;
            if (w)
            {
                for (auto &t : h.steps)
                    threw |= throws([&] { run_step(*w, m, t, 1); });
                threw |= throws([&] { w->Close(); });
            }
        }
        else
        {
            auto &h = c.pick(L, "history");
            std::unique_ptr<copc::laz::LazFileWriter> w;
            threw |= throws([&] { w = std::make_unique<copc::laz::LazFileWriter>("/dev/full", make_laz_cfg(h.s)); });
            if (w)
            {
                for (auto &b : h.batches)
                    threw |= throws([&] { run_batch(*w, h.s, b, 1); });
                threw |= throws([&] { w->Close(); });
            }
        }
        c.op("write everything to a full device");
        c.check(threw, "silent failure: device", "no call threw although the device is full");
        c.state(cat(copc));
    });
}
