// C39: an input that fails is reported, and the reader gives right answers once it works again.
#include "images.hpp"

namespace
{
// An input of which operation number `fail_at` (and all later ones if `stays`, until it is repaired) fails.
struct FailIn : std::streambuf
{
    enum
    {
        NOTHING,
        HALF,
        THROW
    };
    explicit FailIn(const std::string &d) : data(d) {}
    const std::string &data;
    size_t at = 0, count = 0, fail_at = SIZE_MAX;
    int mode = NOTHING;
    bool stays = false, failed = false;
    void repair() { fail_at = SIZE_MAX; }
    bool now()
    {
        size_t n = count++;
        bool f = n == fail_at || (stays && n > fail_at && fail_at != SIZE_MAX);
        if (f)
        {
            failed = true;
            if (mode == THROW)
                throw Injected();
        }
        return f;
    }

  protected:
    std::streamsize xsgetn(char *s, std::streamsize n) override
    {
        if (n <= 0)
            return 0;
        bool f = now();
        size_t k = std::min((size_t)n, at < data.size() ? data.size() - at : 0);
        if (f)
            k = mode == HALF ? k / 2 : 0;
        if (k)
            std::memcpy(s, data.data() + at, k);
        at += k;
        return (std::streamsize)k;
    }
    int_type underflow() override
    {
        if (now() || at >= data.size())
            return traits_type::eof();
        return traits_type::to_int_type(data[at]);
    }
    int_type uflow() override
    {
        if (now() || at >= data.size())
            return traits_type::eof();
        return traits_type::to_int_type(data[at++]);
    }
    pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override
    {
        off_type base = d == std::ios_base::beg ? 0 : d == std::ios_base::cur ? (off_type)at : (off_type)data.size();
        return to(base + o);
    }
    pos_type seekpos(pos_type p, std::ios_base::openmode) override { return to((off_type)p); }
    pos_type to(off_type p)
    {
        if (now() || p < 0 || (mode != HALF && p > (off_type)data.size()))
            return (pos_type)(off_type)-1;
        at = (size_t)p;
        return (pos_type)p;
    }
};

// The reader is opened and asked `before`, then `q`; one operation fails on the way. Afterwards everything is asked on sound input.
template <typename R, typename Q>
void fail_each(Ctx &c, const std::string &image, const std::vector<Q> &qs, const std::vector<std::string> &want, int before, size_t q, int mode, bool stays,
               const std::vector<size_t> &after)
{
    std::vector<size_t> asked;
    if (before >= 0)
        asked.push_back((size_t)before);
    asked.push_back(q);
    for (size_t at = 0;; at++)
    {
        FailIn buf(image);
        buf.mode = mode;
        buf.stays = stays;
        buf.fail_at = at;
        std::istream in(&buf);
        std::unique_ptr<R> r;
        std::string st = cat(before, " ", q, " ", at);
        c.step();
        if (throws([&] { r = std::make_unique<R>(&in); }))
        {
            c.check(buf.failed, "sound input", "opening throws although nothing has failed");
            c.checks++;
            c.traces(1);
            c.state(st + "x");
            continue;
        }
        bool at_open = buf.failed, threw = false;
        for (size_t i : asked)
        {
            bool before_failure = !buf.failed;
            std::string got = ask<R>(r.get(), qs[i].f);
            c.step();
            if (got == "<exception>")
            {
                c.check(buf.failed, "sound input", qs[i].name + " throws although nothing has failed");
                threw = true;
                st += 'x';
                buf.repair();
                continue;
            }
            st += '.';
            c.check(got == want[i], "wrong answer",
                    cat("operation ", at, " fails (", mode, stays ? ", stays" : "", before_failure && buf.failed ? "" : ", before", "): ", qs[i].name, " gives ",
                        mc::hex(got, 60), " (", got.size(), " bytes), sound input ", mc::hex(want[i], 60), " (", want[i].size(), " bytes)"));
        }
        bool failed = buf.failed;
        buf.repair();
        for (size_t i : after)
        {
            std::string got = ask<R>(r.get(), qs[i].f);
            c.check(got == want[i], "after the failure",
                    cat("operation ", at, " failed (", mode, stays ? ", stays" : "", at_open ? ", opening" : "", threw ? ", reported" : "", ") in ", qs[q].name,
                        ", then ", qs[i].name, " gives ", mc::hex(got, 60), ", sound input ", mc::hex(want[i], 60)));
        }
        c.traces(1);
        c.state(st);
        if (!failed)
            break;
    }
}
template <typename R, typename Q> void all(Ctx &c, const std::string &image, const std::vector<Q> &qs, const std::vector<int> &befores)
{
    std::vector<std::string> want;
    for (auto &q : qs)
    {
        std::istringstream in(image);
        R r(&in);
        want.push_back(ask<R>(&r, q.f));
        c.check(want.back() != "<exception>", "complete file", q.name + " of the complete file throws");
    }
    size_t q = (size_t)c.choose((int)qs.size(), "query");
    int mode = c.choose(3, "how");
    bool stays = c.choose(2, "stays");
    std::vector<size_t> after;
    for (size_t i = 0; i < qs.size(); i++)
        after.push_back((i + q) % qs.size()); // the failed one first
    for (int b : befores)
        fail_each<R>(c, image, qs, want, b, q, mode, stays, after);
}
const std::vector<copc::Box> BOX = {copc::Box(0, 0, 0, 500, 500, 500)};
} // namespace

MC_SCENARIOS
{
    mc::add("copc", [](Ctx &c)
    {
        static const auto H = histories();
        auto &h = c.pick(H, "history");
        std::vector<K> keys{{0, 0, 0, 0}};
        for (size_t i = 0; i < h.steps.size() && i < (mc::thorough() ? 9u : 2u); i++)
            keys.push_back(h.steps[h.steps.size() - 1 - i].key);
        all<copc::Reader>(c, copc_image(h), copc_queries(keys, BOX, {2.0}), {-1});
    }, 0, 16);
    mc::add("other layouts", [](Ctx &c)
    {
        int which = c.choose(mc::thorough() ? 12 : 4, "layout") * (mc::thorough() ? 1 : 3);
        all<copc::Reader>(c, built_image(which), copc_queries({{1, 0, 0, 1}, {2, 0, 1, 2}}, BOX, {0.0}), {-1});
    }, 0, 8);
    mc::add("after a query", [](Ctx &c)
    {
        static const auto H = histories();
        auto &h = H.back();
        std::vector<K> keys{{0, 0, 0, 0}};
        for (auto &s : h.steps)
            keys.push_back(s.key);
        auto qs = copc_queries(keys, BOX, {2.0});
        std::vector<int> before;
        for (size_t i = 0; i < qs.size(); i += mc::thorough() ? 1 : 9)
            before.push_back((int)i);
        all<copc::Reader>(c, copc_image(h), qs, before);
    }, 0, 16);
    mc::add("laz", [](Ctx &c)
    {
        static const auto H = laz_histories();
        all<copc::laz::LazReader>(c, laz_image(c.pick(H, "history")), laz_queries(), {-1, 0, 1, 2});
    }, 0, 4);
    mc::add("copc as laz", [](Ctx &c)
    {
        static const auto H = histories();
        int which = c.choose((int)H.size() + 3, "file");
        all<copc::laz::LazReader>(c, which < (int)H.size() ? copc_image(H[(size_t)which]) : built_image(which), laz_queries(), {-1, 0, 1, 2});
    }, 0, 4);
}
