// Stream buffers that log every output operation or make a chosen one fail.
#pragma once
#include "hist.hpp"

#include <streambuf>
#include <unistd.h>

// A growable in-memory file with one position for reading and writing.
class MemBuf : public std::streambuf
{
  public:
    std::string data;
    size_t at = 0;

  protected:
    virtual bool op(const char *s, size_t n) // one output operation
    {
        put(s, n);
        return true;
    }
    void put(const char *s, size_t n)
    {
        if (at + n > data.size())
            data.resize(at + n, '\0');
        std::memcpy(&data[at], s, n);
        at += n;
    }
    std::streamsize xsputn(const char *s, std::streamsize n) override
    {
        if (n <= 0)
            return 0;
        size_t before = at;
        return op(s, (size_t)n) ? n : (std::streamsize)(at - before);
    }
    int_type overflow(int_type c) override
    {
        if (traits_type::eq_int_type(c, traits_type::eof()))
            return traits_type::not_eof(c);
        char x = traits_type::to_char_type(c);
        return op(&x, 1) ? c : traits_type::eof();
    }
    pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override
    {
        off_type base = d == std::ios_base::beg ? 0 : d == std::ios_base::cur ? (off_type)at : (off_type)data.size();
        if (d == std::ios_base::cur && o == 0)
            return seek_ok() ? (pos_type)(off_type)at : (pos_type)(off_type)-1;
        return seekpos((pos_type)(base + o), std::ios_base::out);
    }
    pos_type seekpos(pos_type p, std::ios_base::openmode) override
    {
        if ((off_type)p < 0 || !seek_ok())
            return (pos_type)(off_type)-1;
        at = (size_t)(off_type)p;
        return p;
    }
    virtual bool seek_ok() { return true; }
};

struct LogBuf : MemBuf
{
    struct W
    {
        size_t pos;
        std::string bytes;
    };
    std::vector<W> log;
    bool op(const char *s, size_t n) override
    {
        log.push_back({at, std::string(s, n)});
        put(s, n);
        return true;
    }
};

struct Injected : std::runtime_error
{
    Injected() : std::runtime_error("injected") {}
};
// Operation number `fail_at` (and all later ones if `stays`) fails.
struct FailBuf : MemBuf
{
    size_t count = 0, fail_at = SIZE_MAX;
    int mode = 0; // 0: nothing written, 1: half of it written, 2: an exception leaves the buffer
    bool stays = false, failed = false;
    bool now()
    {
        size_t n = count++;
        bool f = n == fail_at || (stays && n > fail_at && fail_at != SIZE_MAX);
        failed |= f;
        return f;
    }
    bool op(const char *s, size_t n) override
    {
        if (!now())
        {
            put(s, n);
            return true;
        }
        if (mode == 1)
            put(s, n / 2);
        if (mode == 2)
            throw Injected();
        return false;
    }
    bool seek_ok() override { return !now(); }
    int sync() override { return now() ? -1 : 0; }
};

struct Step
{
    K key, page;
    int kind, n;
};
struct Hist
{
    Spec s;
    std::vector<Step> steps;
};
// A few COPC histories that use every part of a file.
inline std::vector<Hist> copc_histories()
{
    std::vector<Hist> v(5);
    v[0].steps = {{{0, 0, 0, 0}, {0, 0, 0, 0}, POINTS, 2}};
    v[1].s.fmt = 7;
    v[1].s.wkt = "PROJCS[\"wkt\"]";
    v[1].s.ebs = eb_raw(3);
    v[1].s.stats = true;
    v[1].steps = {{{0, 0, 0, 0}, {0, 0, 0, 0}, RAW, 1}, {{1, 0, 0, 1}, {1, 0, 0, 1}, COMPRESSED, 2}, {{2, 0, 0, 2}, {1, 0, 0, 1}, POINTS, 1}};
    v[2].s.fmt = 8;
    v[2].s.ebs = eb_raw(1);
    v[2].steps = {{{2, 1, 1, 1}, {2, 1, 1, 1}, POINTS, 1}, {{3, 2, 2, 2}, {3, 2, 2, 2}, RAW, 2}, {{0, 0, 0, 0}, {0, 0, 0, 0}, POINTS, 1}};
    v[3].s.wkt = std::string(200, 'w');
    v[3].steps = {};
    v[4].s.stats = true;
    v[4].steps = {{{1, 1, 0, 0}, {0, 0, 0, 0}, RAW, 3}, {{1, 0, 0, 0}, {1, 0, 0, 0}, RAW, 1}};
    return v;
}
inline void run_step(copc::Writer &w, Model &m, const Step &t, int i) { add_node(w, m, t.key, t.page, t.kind, t.n, 10 * (i + 1)); }

struct LHist
{
    Spec s;
    std::vector<std::pair<int, int>> batches; // kind, points
};
inline std::vector<LHist> laz_histories()
{
    std::vector<LHist> v(4);
    v[0].batches = {{POINTS, 2}};
    v[1].s.fmt = 8;
    v[1].s.wkt = "PROJCS[\"wkt\"]";
    v[1].s.ebs = eb_raw(3);
    v[1].batches = {{POINTS, 1}, {COMPRESSED, 3}, {POINTS, 2}};
    v[2].s.fmt = 7;
    v[2].s.wkt = "W";
    v[2].batches = {};
    v[3].s.ebs = eb_raw(2);
    v[3].batches = {{COMPRESSED, 1}, {COMPRESSED, 1}};
    return v;
}
inline std::string run_batch(copc::laz::LazWriter &w, const Spec &s, const std::pair<int, int> &b, int i)
{
    std::string recs = w::make_recs(s.fmt, s.eb(), 10 * (i + 1), b.second);
    if (b.first == POINTS)
        w.WritePoints(to_points(s.fmt, s.eb(), 10 * (i + 1), b.second, s.scale, s.offset));
    else
        w.WritePointsCompressed(vec(w::encode_chunk(recs, s.fmt, s.eb())), b.second);
    return recs;
}
inline std::string scratch_file(const char *name)
{
    const char *d = getenv("MC_TMP");
    return std::string(d ? d : "/tmp") + "/" + name + "." + std::to_string(getpid());
}
inline std::string slurp(const std::string &p)
{
    std::ifstream f(p, std::ios::binary);
    std::stringstream o;
    o << f.rdbuf();
    return o.str();
}
