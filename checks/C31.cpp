// C31: readers and writers that share nothing do not interfere when used from several threads.
//
// The threads of an execution are real ones, but only one of them runs at a time: an execution is given by the list of points
// at which the running thread is preempted. Points are all stream operations, calls into the library and (in some scenarios)
// memory allocations. Control passes from thread to thread by means the thread sanitizer does not see, so for it the threads
// are not ordered at all, and two accesses to the same memory are reported as a race in every schedule.
#include "queries.hpp"

#include <atomic>
#include <cerrno>
#include <fcntl.h>
#include <linux/futex.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <thread>
#include <time.h>
#include <unistd.h>

#define UNSEEN __attribute__((no_sanitize("thread"), noinline))

namespace
{
enum
{
    MAXT = 3,
    MAXSEG = 6,
    IO = 1,
    ALLOC = 2
};
struct Segment
{
    int thread;
    long len;
};
struct Sched
{
    volatile int turn;     // the thread that runs
    volatile int free_run; // a thread waits for another one in some other way: let all of them run
    volatile int kinds;    // of points
    volatile int n;        // threads
    volatile int nseg, seg;
    Segment segs[MAXSEG];
    volatile long left;
    volatile int done[MAXT];
    volatile long count[MAXT];
    volatile unsigned progress;
} S;
__thread int self = -1; // number of this thread, -1 when it is not controlled

UNSEEN void futex_wake() { syscall(SYS_futex, (int *)&S.turn, FUTEX_WAKE_PRIVATE, 1000, nullptr, nullptr, 0); }
UNSEEN void wait_turn(int me)
{
    unsigned last = S.progress;
    int idle = 0;
    while (S.turn != me && !S.free_run)
    {
        int t = S.turn;
        if (t == me)
            break;
        struct timespec ts = {0, 200 * 1000 * 1000};
        syscall(SYS_futex, (int *)&S.turn, FUTEX_WAIT_PRIVATE, t, &ts, nullptr, 0);
        if (S.progress != last)
            last = S.progress, idle = 0;
        else if (++idle > 25) // the running thread is stuck: it must be waiting for a preempted one
        {
            S.free_run = 1;
            futex_wake();
        }
    }
}
// The running thread has used up its segment or ended.
UNSEEN void advance()
{
    for (S.seg = S.seg + 1; S.seg < S.nseg; S.seg = S.seg + 1)
        if (!S.done[S.segs[S.seg].thread])
        {
            S.left = S.segs[S.seg].len;
            S.turn = S.segs[S.seg].thread;
            futex_wake();
            return;
        }
    for (int t = 0; t < S.n; t++)
        if (!S.done[t])
        {
            S.left = -1;
            S.turn = t;
            futex_wake();
            return;
        }
    S.turn = -2;
    futex_wake();
}
UNSEEN void point(int kind)
{
    int me = self;
    if (me < 0 || !(S.kinds & kind))
        return;
    S.count[me] = S.count[me] + 1;
    S.progress = S.progress + 1;
    if (S.free_run || S.turn != me)
        return;
    if (S.left > 0)
    {
        S.left = S.left - 1;
        if (S.left == 0)
        {
            advance();
            wait_turn(me);
        }
    }
}
UNSEEN void enter(int me)
{
    self = me;
    wait_turn(me);
}
UNSEEN void leave(int me)
{
    self = -1;
    S.done[me] = 1;
    if (!S.free_run && S.turn == me)
        advance();
}
UNSEEN void prepare(int kinds, int n, const Segment *segs, int nseg)
{
    S.kinds = kinds;
    S.n = n;
    S.nseg = nseg;
    S.seg = 0;
    S.free_run = 0;
    for (int i = 0; i < nseg; i++)
        S.segs[i] = segs[i];
    for (int t = 0; t < MAXT; t++)
        S.done[t] = 0, S.count[t] = 0;
    S.left = nseg ? segs[0].len : -1;
    S.turn = nseg ? segs[0].thread : 0;
}
UNSEEN long count_of(int t) { return S.count[t]; }
} // namespace

// every allocation is a possible point
void *operator new(size_t n)
{
    point(ALLOC);
    if (void *p = malloc(n ? n : 1))
        return p;
    throw std::bad_alloc();
}
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }

namespace
{
// A memory stream of one thread.
struct PointBuf : std::stringbuf
{
    explicit PointBuf(std::string s = "") : std::stringbuf(s, std::ios::in | std::ios::out | std::ios::binary) {}
    std::streamsize xsputn(const char *p, std::streamsize n) override { point(IO); return std::stringbuf::xsputn(p, n); }
    std::streamsize xsgetn(char *p, std::streamsize n) override { point(IO); return std::stringbuf::xsgetn(p, n); }
    pos_type seekoff(off_type o, std::ios::seekdir d, std::ios::openmode m) override { point(IO); return std::stringbuf::seekoff(o, d, m); }
    pos_type seekpos(pos_type o, std::ios::openmode m) override { point(IO); return std::stringbuf::seekpos(o, m); }
    int sync() override { point(IO); return std::stringbuf::sync(); }
};
struct NullBuf : std::streambuf
{
    std::streamsize xsputn(const char *, std::streamsize n) override { return n; }
    int overflow(int c) override { return c == EOF ? 0 : c; }
};

// What a thread works on: prepared by the main thread, read by that thread alone.
struct Input
{
    int v; // variant
    Spec s;
    std::vector<std::string> recs, comps;
    std::string file, laz; // written before
    std::string dir;
};
const K KEYS[5] = {{0, 0, 0, 0}, {1, 1, 0, 1}, {2, 2, 1, 3}, {1, 0, 1, 0}, {2, 0, 2, 1}};

struct Log
{
    std::string o;
    template <typename F> void operator()(const char *what, F f)
    {
        point(IO);
        std::string r;
        try
        {
            r = f();
        }
        catch (std::exception &e)
        {
            r = std::string("threw ") + e.what();
        }
        o += what;
        o += ": ";
        o += r;
        o += "\n";
    }
};

template <typename W> void write_copc(Log &log, const Input &in, W &wr)
{
    auto &s = in.s;
    auto pts = to_points(s.fmt, s.eb(), in.v * 10, 2, s.scale, s.offset);
    log("add", [&] { return node_str(wr.AddNode(vk(KEYS[0]), pts)); });
    log("add raw", [&] { return node_str(wr.AddNode(vk(KEYS[1]), vec(in.recs[1]), vk(KEYS[1]))); });
    log("add chunk", [&] { return node_str(wr.AddNodeCompressed(vk(KEYS[2]), vec(in.comps[2]), 1 + in.v, vk(KEYS[1]))); });
    log("bad page", [&] { return node_str(wr.AddNode(vk(KEYS[3]), vec(in.recs[1]), vk(KEYS[2]))); });
    log("bad data", [&] { auto d = vec(in.recs[1]); d.pop_back(); return node_str(wr.AddNode(vk(KEYS[3]), d)); });
    if (in.v % 2)
        log("move", [&] { wr.ChangeNodePage(vk(KEYS[2]), vk(KEYS[2])); return std::string(); });
    log("edit", [&]
    {
        auto &c = *wr.CopcConfig();
        c.LasHeader()->GUID("guid" + std::to_string(in.v));
        c.CopcInfo()->spacing = in.v + 0.5;
        c.CopcExtents()->Intensity()->minimum = in.v;
        c.CopcExtents()->Intensity()->maximum = in.v + 3;
        return config_str((const copc::CopcConfig &)c, false);
    });
    log("find", [&] { return cat(wr.FindNode(vk(KEYS[1])).IsValid(), wr.FindNode(vk(KEYS[4])).IsValid()); });
    log("close", [&] { wr.Close(); return std::string(); });
}
void read_copc(Log &log, const Input &in, copc::Reader &r)
{
    auto &s = in.s;
    copc::Box box(0, 0, 0, 40 + in.v, 50, 60);
    log("config", [&] { return config_str(r.CopcConfig()); });
    log("find", [&] { return node_str(r.FindNode(vk(KEYS[2]))); });
    log("points", [&] { auto p = r.GetPoints(vk(KEYS[0])); return points_bytes(p, s.scale, s.offset); });
    log("nodes", [&] { return listing(r.GetAllNodes()); });
    log("pages", [&] { return cat(r.GetPageList().size()); });
    log("data", [&] { return str(r.GetPointData(vk(KEYS[1]))); });
    log("chunk", [&] { return str(r.GetPointDataCompressed(vk(KEYS[2]))); });
    log("below", [&] { return listing(r.GetAllChildrenOfPage(vk(KEYS[1]))); });
    log("resolution", [&] { return cat(r.GetDepthAtResolution(0.3), listing(r.GetNodesWithinResolution(0.3)), listing(r.GetNodesAtResolution(0.3))); });
    log("in box", [&] { return listing(r.GetNodesWithinBox(box)) + listing(r.GetNodesIntersectBox(box)); });
    log("points in box", [&] { auto p = r.GetPointsWithinBox(box); return sorted_points(p, s.scale, s.offset); });
    log("valid", [&] { return cat(r.ValidateSpatialBounds(true)); });
    log("all points", [&] { auto p = r.GetAllPoints(); return sorted_points(p, s.scale, s.offset); });
}
template <typename W> void write_laz(Log &log, const Input &in, W &wr)
{
    auto &s = in.s;
    auto pts = to_points(s.fmt, s.eb(), in.v * 10, 2, s.scale, s.offset);
    log("points", [&] { wr.WritePoints(pts); return std::string(); });
    log("chunk", [&] { wr.WritePointsCompressed(vec(in.comps[2]), 1 + in.v); return std::string(); });
    log("bad chunk", [&] { wr.WritePointsCompressed(vec(in.comps[2]), 0); return std::string(); });
    log("alien points", [&] { wr.WritePoints(to_points(s.fmt, s.eb() + 1, 1, 1, s.scale, s.offset)); return std::string(); });
    log("counts", [&] { return cat(wr.PointCount(), " ", wr.ChunkCount()); });
    log("edit", [&] { wr.LazConfig()->LasHeader()->SystemIdentifier("sys" + std::to_string(in.v)); return std::string(); });
    log("close", [&] { wr.Close(); return std::string(); });
}

std::string run_write_copc(const Input &in)
{
    Log log;
    PointBuf b;
    std::ostream out(&b);
    {
        copc::Writer wr(out, make_cfg(in.s));
        write_copc(log, in, wr);
    }
    return log.o + b.str();
}
std::string run_read_copc(const Input &in)
{
    Log log;
    PointBuf b(in.file);
    std::istream is(&b);
    copc::Reader r(&is);
    read_copc(log, in, r);
    return log.o;
}
std::string run_write_laz(const Input &in)
{
    Log log;
    PointBuf b;
    std::ostream out(&b);
    {
        copc::laz::LazWriter wr(out, make_laz_cfg(in.s));
        write_laz(log, in, wr);
    }
    return log.o + b.str();
}
std::string run_read_laz(const Input &in)
{
    Log log;
    auto &s = in.s;
    {
        PointBuf b(in.laz);
        std::istream is(&b);
        copc::laz::LazReader r(&is);
        log("config", [&] { return config_str(r.LazConfig()); });
        log("data", [&] { return str(r.GetPointData()); });
        log("points", [&] { auto p = r.GetPoints(); return points_bytes(p, s.scale, s.offset); });
    }
    {
        PointBuf b(in.file); // a COPC file as LAZ
        std::istream is(&b);
        copc::laz::LazReader r(&is);
        log("copc as laz", [&] { return config_str(r.LazConfig()) + str(r.GetPointData()); });
    }
    {
        PointBuf b(in.laz.substr(0, in.laz.size() / 2));
        std::istream is(&b);
        log("broken", [&] { copc::laz::LazReader r(&is); return str(r.GetPointData()); });
        log("not copc", [&] { copc::Reader r(&is); return std::string(); });
    }
    return log.o;
}
// points, headers, keys, boxes, compression: nothing but memory
std::string run_compute(const Input &in)
{
    Log log;
    auto &s = in.s;
    auto pts = to_points(s.fmt, s.eb(), in.v, 2, s.scale, s.offset);
    cl::LasHeader h((int8_t)s.fmt, (uint16_t)s.len(), s.scale, s.offset, true);
    log("pack", [&] { return str(pts.Pack(h)); });
    log("unpack", [&] { auto p = cl::Points::Unpack(vec(in.recs[1]), h); return points_bytes(p, s.scale, s.offset) + p.ToString(); });
    log("bulk", [&]
    {
        pts.Classification({(uint8_t)in.v, 7});
        pts.X({1.0 + in.v, 2});
        std::string o;
        for (auto x : pts.X())
            o += num(x) + " ";
        for (auto x : pts.Classification())
            o += cat((int)x, " ");
        return o;
    });
    log("box", [&]
    {
        auto p = pts.GetWithin(copc::Box(0, 0, 0, 1000, 1000, 1000));
        return cat(p.size());
    });
    log("bad bulk", [&] { pts.Y({1}); return std::string(); });
    log("compress", [&] { return str(copc::laz::Compressor::CompressBytes(vec(in.recs[1]), (int8_t)s.fmt, (uint16_t)s.eb())); });
    log("decompress", [&] { return str(copc::laz::Decompressor::DecompressBytes(vec(in.comps[2]), h, 1 + in.v)); });
    log("format", [&]
    {
        auto q = to_points(6, s.eb(), in.v, 1, s.scale, s.offset);
        q.ToPointFormat((int8_t)(7 + in.v % 2));
        return points_bytes(q, s.scale, s.offset);
    });
    log("bad format", [&] { auto q = to_points(6, 0, in.v, 1, s.scale, s.offset); q.ToPointFormat((int8_t)(3 + in.v)); return std::string(); });
    log("bad value", [&] { auto q = to_points(6, 0, in.v, 1, s.scale, s.offset); q.Get(0)->X(1e300); return str(q.Pack(s.scale, s.offset)); });
    log("keys", [&]
    {
        auto k = vk(KEYS[2]);
        std::string o = k.ToString();
        for (auto &c : k.GetChildren())
            o += c.ToString();
        for (auto &c : k.GetParents(true))
            o += c.ToString();
        return o;
    });
    log("header", [&]
    {
        h.min = copc::Vector3(0, 0, in.v);
        h.max = copc::Vector3(64, 64, 64 + in.v);
        h.GUID("g" + std::to_string(in.v));
        return h.ToString() + copc::Box(vk(KEYS[1]), h).ToString() + header_str(h) + num(h.ApplyScaleX(in.v));
    });
    log("bad key", [&] { return copc::VoxelKey(std::vector<int32_t>{1, 2, in.v}).ToString(); });
    return log.o;
}
std::string run_configs(const Input &in)
{
    Log log;
    auto &s = in.s;
    auto c = make_cfg(s);
    log("made", [&] { return config_str((const copc::CopcConfig &)c); });
    log("edited", [&]
    {
        c.CopcExtents()->UserData()->maximum = in.v;
        return std::string();
    });
    log("copied", [&]
    {
        copc::CopcConfigWriter d(c);
        d.LasHeader()->file_source_id = (uint16_t)in.v;
        d.CopcExtents()->Classification()->minimum = in.v;
        copc::CopcConfig e(d);
        cl::LazConfig l(e);
        cl::LazConfigWriter m(l);
        m.LasHeader()->file_source_id++;
        return config_str(e) + config_str(l) + config_str((const cl::LazConfig &)m) + d.CopcExtents()->ToString() + d.CopcInfo()->ToString();
    });
    log("overrides", [&]
    {
        PointBuf b;
        std::ostream out(&b);
        int8_t fmt = (int8_t)(6 + (s.fmt - 5) % 3);
        copc::Vector3 sc(0.5, 0.5, in.v + 1);
        std::string wkt = "w" + std::to_string(in.v);
        auto eb = eb_vlr_of(eb_raw(in.v + 1));
        bool stats = in.v % 2;
        copc::Writer wr(out, c, fmt, sc, copc::Vector3(1, 2, 3), wkt, eb, stats);
        auto r = config_str((const copc::CopcConfig &)*wr.CopcConfig(), false);
        wr.Close();
        return r + b.str();
    });
    log("bad override", [&]
    {
        PointBuf b;
        std::ostream out(&b);
        copc::Writer wr(out, c, (int8_t)(1 + in.v));
        return std::string();
    });
    log("bad extents", [&] { copc::CopcExtent x(5 + in.v, 1); return x.ToString(); });
    log("extents", [&] { copc::CopcExtents e((int8_t)8, (uint16_t)(1 + in.v), true); e.Nir()->maximum = in.v; return extents_str(e) + e.ToString(); });
    return log.o;
}
std::string slurp(const std::string &path)
{
    std::ifstream f(path, std::ios::binary);
    return std::string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
}
// files of its own, and one that every thread reads
std::string run_files(const Input &in)
{
    Log log;
    auto a = in.dir + "/w" + std::to_string(in.v) + ".copc.laz", b = in.dir + "/w" + std::to_string(in.v) + ".laz";
    {
        auto wr = std::make_shared<copc::FileWriter>(a, make_cfg(in.s));
        write_copc(log, in, *wr);
    }
    {
        auto wr = std::make_shared<copc::laz::LazFileWriter>(b, make_laz_cfg(in.s));
        write_laz(log, in, *wr);
    }
    {
        copc::FileReader r(a);
        read_copc(log, in, r);
    }
    {
        copc::FileReader r(in.dir + "/shared.copc.laz");
        log("shared nodes", [&] { return listing(r.GetAllNodes()); });
        log("shared data", [&] { return str(r.GetPointData(vk(KEYS[1]))) + str(r.GetPointData(vk(KEYS[2]))); });
    }
    log("laz", [&] { copc::laz::LazFileReader r(b); return config_str(r.LazConfig()) + str(r.GetPointData()); });
    log("no file", [&] { copc::FileReader r(in.dir + "/none"); return std::string(); });
    return log.o + slurp(a) + slurp(b);
}

struct Script
{
    const char *name;
    std::string (*run)(const Input &);
};
const Script SCRIPTS[] = {{"write COPC", run_write_copc}, {"read COPC", run_read_copc}, {"write LAZ", run_write_laz}, {"read LAZ", run_read_laz},
                          {"compute", run_compute}, {"configurations", run_configs}, {"files", run_files}};
const int NS = 7;

std::string scratch()
{
    static std::string d;
    if (d.empty())
    {
        const char *t = getenv("TMPDIR");
        std::string p = std::string(t ? t : "/tmp") + "/c31-XXXXXX";
        d = mkdtemp(&p[0]);
        atexit([] {
            for (auto n : {"w0.copc.laz", "w1.copc.laz", "w2.copc.laz", "w0.laz", "w1.laz", "w2.laz", "shared.copc.laz", "in0.copc", "in1.copc",
                           "in0.laz", "in1.laz", "out0", "out1", "err"})
                unlink((d + "/" + n).c_str());
            rmdir(d.c_str());
        });
    }
    return d;
}
// The part of an input that is prepared without the library.
Input plain_input(int v)
{
    Input in;
    in.v = v;
    in.s.fmt = 6 + (v + 1) % 3;
    in.s.ebs = eb_raw(v == 1 ? 0 : 2 + v);
    in.s.wkt = "wkt" + std::to_string(v);
    in.s.stats = v != 1;
    in.s.scale = copc::Vector3(0.01, 0.02 + v, 0.5);
    in.s.offset = copc::Vector3(v, -v, 10 * v);
    for (int i = 0; i < 3; i++)
    {
        in.recs.push_back(w::make_recs(in.s.fmt, in.s.eb(), 20 + 5 * v + i, i == 2 ? 1 + v : 2));
        in.comps.push_back(w::encode_chunk(in.recs.back(), in.s.fmt, in.s.eb()));
    }
    return in;
}
const Input &input(int v)
{
    static std::map<int, Input> m;
    if (m.count(v))
        return m[v];
    Input in = plain_input(v);
    in.dir = scratch();
    Model model;
    model.s = in.s;
    std::stringstream o;
    copc::Writer wr(o, make_cfg(in.s));
    for (int i = 0; i < 5; i++)
        add_node(wr, model, KEYS[i], i == 0 ? KEYS[0] : i < 3 ? KEYS[1] : i == 3 ? KEYS[0] : KEYS[4], i % 3, 1 + (i + v) % 2, 30 + v * 7 + i);
    wr.CopcConfig()->LasHeader()->max = copc::Vector3(64, 64, 64);
    wr.CopcConfig()->CopcInfo()->spacing = 1;
    wr.Close();
    in.file = o.str();
    std::stringstream o2;
    copc::laz::LazWriter lw(o2, make_laz_cfg(in.s));
    lw.WritePoints(to_points(in.s.fmt, in.s.eb(), 50 + v, 3, in.s.scale, in.s.offset));
    lw.WritePointsCompressed(vec(in.comps[2]), 1 + v);
    lw.Close();
    in.laz = o2.str();
    if (v == 0)
        std::ofstream(in.dir + "/shared.copc.laz", std::ios::binary) << in.file;
    return m[v] = in;
}

std::vector<std::string> run_threads(int kinds, const std::vector<int> &scripts, const std::vector<Segment> &segs, const Input &(*input)(int) = ::input)
{
    static NullBuf nul;
    static bool muted = (std::cout.rdbuf(&nul), true);
    (void)muted;
    int n = (int)scripts.size();
    for (int t = 0; t < n; t++)
        input(t);
    std::vector<std::string> out((size_t)n);
    prepare(kinds, n, segs.data(), (int)segs.size());
    std::vector<std::thread> ts;
    for (int t = 0; t < n; t++)
    {
        auto *in = &input(t);
        auto *o = &out[(size_t)t];
        auto f = SCRIPTS[scripts[(size_t)t]].run;
        ts.emplace_back([in, o, f, t]
        {
            enter(t);
            try
            {
                *o = f(*in);
            }
            catch (std::exception &e)
            {
                *o = std::string("ended by ") + e.what();
            }
            leave(t);
        });
    }
    for (auto &t : ts)
        t.join();
    return out;
}
struct Solo
{
    std::string out;
    int points;
};
// What a script gives when it is the only thread, as thread t of an execution.
const Solo &solo(int kinds, int script, int t)
{
    static std::map<std::vector<int>, Solo> m;
    auto &s = m[{kinds, script, t}];
    if (s.out.empty())
        for (int i = 0; i < 2; i++) // the second time everything that is set up once has been
        {
            static NullBuf nul;
            input(0);
            auto *in = &input(t);
            prepare(kinds, 1, nullptr, 0);
            auto *o = &s.out;
            std::thread th([=] {
                enter(0);
                *o = SCRIPTS[script].run(*in);
                leave(0);
            });
            th.join();
            s.points = (int)count_of(0);
        }
    return s;
}

void compare(Ctx &c, int kinds, const std::vector<int> &scripts, const std::vector<std::string> &out)
{
    for (size_t t = 0; t < scripts.size(); t++)
    {
        auto &want = solo(kinds, scripts[t], (int)t).out;
        if (out[t] == want)
        {
            c.checks++;
            continue;
        }
        size_t i = 0;
        while (i < out[t].size() && i < want.size() && out[t][i] == want[i])
            i++;
        size_t l = want.rfind('\n', i);
        l = l == std::string::npos ? 0 : l + 1;
        c.fail("interference", cat("thread ", t, " (", SCRIPTS[scripts[t]].name, "): got ", mc::hex(out[t].substr(l, 200)), ", alone ", mc::hex(want.substr(l, 200))));
    }
}
std::vector<std::vector<int>> groups(int n, const std::vector<int> &from)
{
    std::vector<std::vector<int>> g;
    for (int a : from)
        for (int b : from)
            if (b >= a)
            {
                if (n == 2)
                    g.push_back({a, b});
                else
                    for (int d : from)
                        if (d >= b)
                            g.push_back({a, b, d});
            }
    return g;
}
const std::vector<int> ALL = {0, 1, 2, 3, 4, 5, 6};

// Two threads: one runs up to a point, the other one to its end (or, with two preemptions, up to a point), and so on.
void pairs(Ctx &c, int kinds, int preemptions, const std::vector<int> &from)
{
    auto gs = groups(2, from);
    auto &g = c.pick(gs, "threads");
    int first = c.choose(2, "which first");
    std::vector<Segment> segs;
    for (int i = 0, t = first; i < preemptions; i++, t = 1 - t)
    {
        // points of the thread not used up yet
        int used = 0;
        for (auto &s : segs)
            if (s.thread == t)
                used += (int)s.len;
        int left = solo(kinds, g[(size_t)t], t).points - used;
        if (left <= 0)
            return;
        segs.push_back({t, 1 + c.choose(left, "preempted at")});
    }
    // without an alternation the rest would go on with the lowest thread
    segs.push_back({preemptions % 2 ? 1 - first : first, 1 << 30});
    c.op(cat(SCRIPTS[g[0]].name, " and ", SCRIPTS[g[1]].name, " preempted ", preemptions, " times"));
    compare(c, kinds, g, run_threads(kinds, g, segs));
    c.step((uint64_t)preemptions + 1);
    std::string st = cat(g[0], " ", g[1]);
    for (auto &s : segs)
        st += cat(" ", s.thread, ":", s.len);
    c.state(st);
}
// Three threads: one is preempted at a point, the two others run to their ends in either order.
void triples(Ctx &c, int kinds, const std::vector<int> &from)
{
    auto gs = groups(3, from);
    auto &g = c.pick(gs, "threads");
    int first = c.choose(3, "which first");
    int order = c.choose(2, "order");
    int a = (first + 1 + order) % 3, b = (first + 2 - order) % 3;
    int at = 1 + c.choose(solo(kinds, g[(size_t)first], first).points, "preempted at");
    // the second one is preempted too, half way
    int half = std::max(1, solo(kinds, g[(size_t)a], a).points / 2);
    c.op(cat(SCRIPTS[g[0]].name, ", ", SCRIPTS[g[1]].name, " and ", SCRIPTS[g[2]].name));
    compare(c, kinds, g, run_threads(kinds, g, {{first, at}, {a, half}, {b, 1 << 30}, {first, 1 << 30}, {a, 1 << 30}}));
    c.step(5);
    c.state(cat(g[0], g[1], g[2], first, order, " ", at));
}
// The same in a process of its own in which nothing of the library has run before the threads: what is set up by whoever
// comes first is set up by them.
const Input &cold_input(int v)
{
    static std::map<int, Input> m;
    if (m.count(v))
        return m[v];
    Input in = plain_input(v);
    in.dir = getenv("C31_DIR");
    in.file = slurp(cat(in.dir, "/in", v, ".copc"));
    in.laz = slurp(cat(in.dir, "/in", v, ".laz"));
    return m[v] = in;
}
[[noreturn]] void cold_child(const char *what)
{
    std::istringstream is(what);
    std::vector<int> scripts(2);
    std::vector<Segment> segs;
    Segment s;
    is >> scripts[0] >> scripts[1];
    while (is >> s.thread >> s.len)
        segs.push_back(s);
    auto out = run_threads(IO, scripts, segs, cold_input);
    for (int t = 0; t < 2; t++)
        std::ofstream(cat(getenv("C31_DIR"), "/out", t), std::ios::binary) << out[(size_t)t];
    _exit(0);
}
void cold(Ctx &c)
{
    if (const char *what = getenv("C31_COLD"))
        cold_child(what);
    auto gs = groups(2, ALL);
    auto &g = c.pick(gs, "threads");
    int first = c.choose(2, "which first");
    // the first one runs up to a point: to its end, or some points of the way
    int points = solo(IO, g[(size_t)first], first).points;
    int parts = mc::thorough() ? std::min(points, 40) : 2;
    int at = 1 + (int)((long)(points - 1) * (1 + c.choose(parts, "how far")) / parts);
    std::string what = cat(g[0], " ", g[1], " ", first, " ", at == points ? 1 << 30 : at, " ", 1 - first, " ", 1 << 30);
    c.op(cat(SCRIPTS[g[0]].name, " and ", SCRIPTS[g[1]].name, " in a new process: ", what));
    static bool made = false;
    auto dir = scratch();
    if (!made)
        for (int v = 0; v < 2; v++)
        {
            std::ofstream(cat(dir, "/in", v, ".copc"), std::ios::binary) << input(v).file;
            std::ofstream(cat(dir, "/in", v, ".laz"), std::ios::binary) << input(v).laz;
        }
    made = true;
    for (int t = 0; t < 2; t++)
        unlink(cat(dir, "/out", t).c_str());
    static char self_path[4096];
    ssize_t l = readlink("/proc/self/exe", self_path, sizeof self_path - 1);
    if (l <= 0)
        throw std::runtime_error("no path of this program");
    self_path[l] = 0;
    setenv("C31_COLD", what.c_str(), 1);
    setenv("C31_DIR", dir.c_str(), 1);
    std::string err = dir + "/err";
    const char *cmd[] = {self_path, "--run", "tsan: from the start", "--out", "/dev/null", nullptr};
    pid_t p = vfork();
    if (p == 0)
    {
        int fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        dup2(fd, 2);
        execv(self_path, (char **)cmd);
        _exit(127);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR)
        ;
    unsetenv("C31_COLD");
    if (!WIFEXITED(st) || WEXITSTATUS(st) == 127)
        c.fail("crash", cat("status ", st, ": ", slurp(err).substr(0, 1500)));
    if (WEXITSTATUS(st) != 0)
        c.fail("race", slurp(err).substr(0, 3000));
    compare(c, IO, g, {slurp(dir + "/out0"), slurp(dir + "/out1")});
    c.step(2);
    c.state(what);
}
} // namespace

MC_SCENARIOS
{
    mc::add("tsan: pairs, operations", [](Ctx &c) { pairs(c, IO, 1, ALL); }, 0, 16);
    mc::add("tsan: pairs, allocations", [](Ctx &c) { pairs(c, IO | ALLOC, 1, {4, 5}); }, 0, 16);
    mc::add("tsan: pairs, all allocations", [](Ctx &c) { pairs(c, IO | ALLOC, 1, ALL); }, 1, 64);
    mc::add("tsan: pairs, two preemptions", [](Ctx &c) { pairs(c, IO, 2, ALL); }, 1, 64);
    mc::add("tsan: from the start", cold, 0, 16);
    mc::add("tsan: triples", [](Ctx &c) { triples(c, IO, mc::thorough() ? ALL : std::vector<int>{0, 1, 5}); }, 0, 16);
}
