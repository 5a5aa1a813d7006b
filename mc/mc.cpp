#include "mc.hpp"

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>

namespace mc
{

struct Shm // survives a crash of this process, read by the driver
{
    volatile uint64_t heartbeat;
    volatile uint32_t n;
    volatile uint16_t c[8192];
};
static Shm *shm = nullptr;

struct Stats
{
    uint64_t executions = 0, pruned = 0, known = 0, transitions = 0, checks = 0, traces = 0, maxdepth = 0;
    std::unordered_set<uint64_t> states, outcomes;
    std::vector<std::string> samples;
    std::set<std::string> known_keys;
    bool capped = false;
};

struct Scenario
{
    std::string name;
    Body body;
    int tier, shards;
};
static std::vector<Scenario> &scenarios()
{
    static std::vector<Scenario> s;
    return s;
}
static std::set<std::string> known;

void add(const std::string &name, Body body, int tier, int shards) { scenarios().push_back({name, body, tier, shards}); }
bool thorough()
{
    const char *t = getenv("VERIF_TIER");
    return t && std::string(t) == "thorough";
}

std::string quote(const std::string &s)
{
    std::string o = "\"";
    for (unsigned char ch : s)
    {
        if (ch == '"' || ch == '\\')
        {
            o += '\\';
            o += (char)ch;
        }
        else if (ch < 32 || ch > 126)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", ch);
            o += b;
        }
        else
            o += (char)ch;
    }
    return o + "\"";
}
std::string hex(const std::string &s, size_t max)
{
    static const char *d = "0123456789abcdef";
    std::string o;
    for (size_t i = 0; i < s.size() && i < max; i++)
    {
        o += d[(unsigned char)s[i] >> 4];
        o += d[(unsigned char)s[i] & 15];
    }
    if (s.size() > max)
        o += "...(" + std::to_string(s.size()) + ")";
    return o;
}
uint64_t hash64(const std::string &s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s)
    {
        h ^= c;
        h *= 1099511628211ull;
    }
    h ^= h >> 32;
    h *= 0x9E3779B97F4A7C15ull;
    h ^= h >> 29;
    return h;
}

struct ShardSkip
{
};

int Ctx::choose(int n, const char *what)
{
    if (n <= 0)
    {
        std::cerr << "mc: empty choice " << what << "\n";
        exit(3);
    }
    int c;
    if (pos < trace.size())
    {
        c = trace[pos];
        if (pos < arity.size() && arity[pos] != n)
        {
            std::cerr << "mc: divergence while replaying a prefix: " << what << " had " << arity[pos] << " options, now "
                      << n << "\n";
            exit(3);
        }
        if (c >= n)
        {
            std::cerr << "mc: choice out of range in replay: " << what << "\n";
            exit(3);
        }
        if (pos >= arity.size())
            arity.push_back(n);
    }
    else
    {
        c = 0;
        if (replaying)
        {
            // a recorded trace may end at the crash; later choices take the default
        }
        trace.push_back(0);
        arity.push_back(n);
    }
    pos++;
    if (shm && pos <= 8192)
    {
        shm->c[pos - 1] = (uint16_t)c;
        shm->n = (uint32_t)pos;
        shm->heartbeat = shm->heartbeat + 1;
    }
    if (nshards > 1 && pos == 3)
    {
        uint32_t h = (uint32_t)(trace[0] * 7919 + trace[1] * 104729 + trace[2] * 1299709 + 17);
        h ^= h >> 13;
        h *= 2654435761u;
        h ^= h >> 16;
        if ((int)(h % (uint32_t)nshards) != shard)
            throw ShardSkip{};
    }
    return c;
}

void Ctx::op(const std::string &s)
{
    ops.push_back(s);
    if (stats)
        stats->transitions++;
    if (shm)
        shm->heartbeat = shm->heartbeat + 1;
    static bool v = getenv("MC_VERBOSE") != nullptr;
    if (v)
        std::cerr << "  op: " << s << std::endl;
}
void Ctx::step(uint64_t n)
{
    if (stats)
        stats->transitions += n;
    if (shm)
        shm->heartbeat = shm->heartbeat + 1;
}
bool Ctx::state(const std::string &canon)
{
    if (!stats)
        return true;
    return stats->states.insert(hash64(canon)).second;
}
void Ctx::outcome(const std::string &s)
{
    if (stats)
        stats->outcomes.insert(hash64(s));
}
void Ctx::fail(const std::string &key, const std::string &msg)
{
    if (known.count(key))
    {
        if (stats)
            stats->known_keys.insert(key);
        throw KnownHit{};
    }
    throw Fail{key, msg};
}

static std::string ops_text(const std::vector<std::string> &ops, size_t max = 40)
{
    std::string o;
    for (size_t i = 0; i < ops.size() && i < max; i++)
        o += (i ? "; " : "") + ops[i];
    if (ops.size() > max)
        o += "; ...";
    return o;
}

static void write_result(const std::string &path, const Scenario &s, const Stats &st, const Fail *f, const Ctx *c)
{
    std::ofstream o(path);
    o << "{\"scenario\":" << quote(s.name) << ",\"executions\":" << st.executions << ",\"pruned\":" << st.pruned
      << ",\"known_executions\":" << st.known << ",\"transitions\":" << st.transitions << ",\"checks\":" << st.checks
      << ",\"traces\":" << st.traces << ",\"states\":" << st.states.size() << ",\"outcomes\":" << st.outcomes.size()
      << ",\"maxdepth\":" << st.maxdepth << ",\"capped\":" << (st.capped ? "true" : "false") << ",\"known\":[";
    bool first = true;
    for (auto &k : st.known_keys)
    {
        o << (first ? "" : ",") << quote(k);
        first = false;
    }
    o << "],\"samples\":[";
    first = true;
    for (auto &k : st.samples)
    {
        o << (first ? "" : ",") << quote(k);
        first = false;
    }
    o << "]";
    if (f)
    {
        o << ",\"violation\":{\"key\":" << quote(f->key) << ",\"msg\":" << quote(f->msg) << ",\"trace\":[";
        for (size_t i = 0; i < c->pos && i < c->trace.size(); i++)
            o << (i ? "," : "") << c->trace[i];
        o << "],\"ops\":" << quote(ops_text(c->ops, 200)) << "}";
    }
    o << "}\n";
}

// one execution; returns true when a violation was found
static bool execute(const Scenario &s, Ctx &c, Stats &st, Fail &f)
{
    bool bad = false, count = true;
    try
    {
        s.body(c);
    }
    catch (Pruned &)
    {
        st.pruned++;
    }
    catch (KnownHit &)
    {
        st.known++;
    }
    catch (ShardSkip &)
    {
        count = false;
    }
    catch (Fail &x)
    {
        f = x;
        bad = true;
    }
    catch (std::exception &e)
    {
        f = Fail{"exception", std::string("unexpected exception: ") + e.what()};
        bad = !known.count(f.key);
        if (!bad)
        {
            st.known++;
            st.known_keys.insert(f.key);
        }
    }
    catch (...)
    {
        f = Fail{"exception", "unexpected exception of unknown type"};
        bad = true;
    }
    if (count)
    {
        st.executions++;
        st.checks += c.checks;
        st.traces += 1 + c.extra_traces;
        if (c.ops.size() > st.maxdepth)
            st.maxdepth = c.ops.size();
        uint64_t e = st.executions;
        if (e == 1 || e == 7 || e == 97 || e == 997)
            st.samples.push_back(ops_text(c.ops, 14));
    }
    return bad;
}

} // namespace mc

int main(int argc, char **argv)
{
    using namespace mc;
    std::string out = "/dev/stdout", run, replay;
    std::vector<int> trace;
    int shard = 0, nshards = 1;
    double cap = 0;
    bool list = false;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        auto next = [&]() { return std::string(argv[++i]); };
        if (a == "--list")
            list = true;
        else if (a == "--run")
            run = next();
        else if (a == "--replay")
            replay = next();
        else if (a == "--trace")
        {
            std::istringstream s(next());
            std::string t;
            while (std::getline(s, t, ','))
                if (!t.empty())
                    trace.push_back(atoi(t.c_str()));
        }
        else if (a == "--shard")
        {
            std::string t = next();
            sscanf(t.c_str(), "%d/%d", &shard, &nshards);
        }
        else if (a == "--out")
            out = next();
        else if (a == "--known")
            known.insert(next());
        else if (a == "--cap")
            cap = atof(next().c_str());
    }
    if (list)
    {
        for (auto &s : scenarios())
            std::cout << s.tier << " " << s.shards << " " << s.name << "\n";
        return 0;
    }
    if (const char *p = getenv("MC_SHM"))
    {
        int fd = open(p, O_RDWR | O_CREAT, 0600);
        if (fd >= 0 && ftruncate(fd, sizeof(Shm)) == 0)
        {
            void *m = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (m != MAP_FAILED)
                shm = (Shm *)m;
        }
    }
    const Scenario *s = nullptr;
    for (auto &x : scenarios())
        if (x.name == (replay.empty() ? run : replay))
            s = &x;
    if (!s)
    {
        std::cerr << "mc: no such scenario\n";
        return 3;
    }
    Stats st;
    Fail f;
    if (!replay.empty())
    {
        Ctx c;
        c.trace = trace;
        c.replaying = true;
        c.stats = &st;
        bool bad = execute(*s, c, st, f);
        write_result(out, *s, st, bad ? &f : nullptr, &c);
        return bad ? 1 : 0;
    }
    std::vector<int> tr, ar;
    time_t start = time(nullptr);
    for (;;)
    {
        Ctx c;
        c.trace = tr;
        c.arity = ar;
        c.stats = &st;
        c.shard = shard;
        c.nshards = nshards;
        if (shm)
        {
            shm->n = 0;
            shm->heartbeat = shm->heartbeat + 1;
        }
        bool bad = execute(*s, c, st, f);
        if (bad)
        {
            write_result(out, *s, st, &f, &c);
            return 1;
        }
        // next choice sequence in depth-first order
        tr.assign(c.trace.begin(), c.trace.begin() + (long)c.pos);
        ar.assign(c.arity.begin(), c.arity.begin() + (long)c.pos);
        while (!tr.empty() && tr.back() + 1 >= ar.back())
        {
            tr.pop_back();
            ar.pop_back();
        }
        if (tr.empty())
            break;
        tr.back()++;
        if (cap > 0 && difftime(time(nullptr), start) > cap)
        {
            st.capped = true;
            break;
        }
    }
    write_result(out, *s, st, nullptr, nullptr);
    if (nshards > 1)
    {
        std::ofstream h(out + ".states", std::ios::binary);
        for (uint64_t x : st.states)
            h.write((const char *)&x, 8);
    }
    return 0;
}
