// Stateless model checker: runs a scenario body once per sequence of choices until every sequence was explored.
#pragma once
#include <cstdint>
#include <functional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace mc
{

struct Fail // an oracle disagreed
{
    std::string key, msg;
};
struct Pruned // this execution repeats an already explored state
{
};
struct KnownHit // this execution ran into a listed known finding
{
};

std::string quote(const std::string &s);
std::string hex(const std::string &s, size_t max = 64);
uint64_t hash64(const std::string &s);

class Ctx
{
  public:
    // An environment decision in 0..n-1; the explorer tries all of them, 0 first.
    int choose(int n, const char *what = "");
    bool flip(const char *what = "") { return choose(2, what) == 1; }
    template <typename T> const T &pick(const std::vector<T> &v, const char *what = "")
    {
        return v[(size_t)choose((int)v.size(), what)];
    }
    // Like choose, but every non-zero answer uses up one deviation; once used up the answer is always 0.
    int deviate(int n, const char *what = "")
    {
        if (deviations_left <= 0)
            return 0;
        int c = choose(n, what);
        if (c)
            deviations_left--;
        return c;
    }
    int deviations_left = 0;

    void op(const std::string &s); // one transition of the system under test
    void step(uint64_t n = 1);      // n transitions without a description
    // Note the canonical form of the state reached; true when it is new in this scenario.
    bool state(const std::string &canon);
    void outcome(const std::string &s); // what an observer saw at the end
    void traces(uint64_t n) { extra_traces += n; }
    // Stop here if this canonical state was reached before (only if equal states have equal futures).
    void prune_if_seen(const std::string &canon)
    {
        if (!state(canon))
            throw Pruned{};
    }
    [[noreturn]] void fail(const std::string &key, const std::string &msg);
    void check(bool ok, const std::string &key, const std::string &msg)
    {
        checks++;
        if (!ok)
            fail(key, msg);
    }
    template <typename A, typename B> void eq(const A &got, const B &want, const std::string &key)
    {
        checks++;
        if (!(got == want))
        {
            std::ostringstream o;
            o.precision(17);
            o << key << ": got " << got << ", want " << want;
            fail(key, o.str());
        }
    }
    uint64_t checks = 0, extra_traces = 0;

    // engine state
    std::vector<int> trace, arity;
    size_t pos = 0;
    bool replaying = false;
    int shard = 0, nshards = 1;
    std::vector<std::string> ops;
    struct Stats *stats = nullptr;
};

using Body = std::function<void(Ctx &)>;
// tier 0: quick and thorough; 1: thorough only. The space is split over `shards` processes.
void add(const std::string &name, Body body, int tier = 0, int shards = 1);
bool thorough();

struct Reg
{
    template <typename F> Reg(F f) { f(); }
};

} // namespace mc

#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define MC_SCENARIOS static void MC_CAT(mc_reg_, __LINE__)(); static mc::Reg MC_CAT(mc_r_, __LINE__)(MC_CAT(mc_reg_, __LINE__)); static void MC_CAT(mc_reg_, __LINE__)()
