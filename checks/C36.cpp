// C36: readers and writers own their files exactly as long as they are open, and what they gave lives on without them.
#include "faulty.hpp"
#include "queries.hpp"

#include <dirent.h>
#include <sys/stat.h>

namespace
{
// Files of this process's scratch directory that are open, by name.
std::multiset<std::string> open_files(const std::string &dir)
{
    std::multiset<std::string> m;
    DIR *d = opendir("/proc/self/fd");
    while (auto *e = readdir(d))
    {
        char b[4096];
        ssize_t n = readlink((std::string("/proc/self/fd/") + e->d_name).c_str(), b, sizeof b);
        std::string p(b, n > 0 ? (size_t)n : 0);
        if (p.compare(0, dir.size() + 1, dir + "/") == 0)
            m.insert(p.substr(dir.size() + 1));
    }
    closedir(d);
    return m;
}
std::string join(const std::multiset<std::string> &m)
{
    std::string o;
    for (auto &x : m)
        o += x + " ";
    return o;
}
struct Dir
{
    std::string path;
    Dir()
    {
        path = scratch_file("c36");
        mkdir(path.c_str(), 0700);
    }
    ~Dir()
    {
        DIR *d = opendir(path.c_str());
        while (auto *e = readdir(d))
            if (e->d_name[0] != '.')
                unlink((path + "/" + e->d_name).c_str()), rmdir((path + "/" + e->d_name).c_str());
        closedir(d);
        rmdir(path.c_str());
    }
    void put(const std::string &name, const std::string &bytes) const
    {
        std::ofstream f(path + "/" + name, std::ios::binary);
        f << bytes;
    }
};

const std::vector<K> KEYS = {{0, 0, 0, 0}, {1, 0, 0, 1}, {2, 0, 0, 2}, {1, 1, 0, 0}};
w::Builder image(int which)
{
    w::Builder b;
    b.fmt = 6 + which;
    b.raw_eb = 0;
    b.ebs = eb_raw(which);
    b.wkt = cat("WKT", which);
    b.wkt_place = 2;
    b.stats = which;
    b.h.mn[0] = b.h.mn[1] = b.h.mn[2] = 0;
    b.h.mx[0] = b.h.mx[1] = b.h.mx[2] = 64;
    b.nodes = {{KEYS[0], KEYS[0], 2, 1 + which}, {KEYS[1], KEYS[1], 1, 7 + which}, {KEYS[2], KEYS[1], 1, 9 + which}, {KEYS[3], KEYS[0], 1, 20}};
    return b;
}

// Everything a reader can give, to be looked at later.
struct Kept
{
    std::function<std::string()> look;
    std::string was;
    const char *what;
};

// An object under test together with what is known about it.
struct Obj
{
    int kind = -1; // 0 COPC reader, 1 LAZ reader, 2 COPC writer, 3 LAZ writer
    std::unique_ptr<copc::FileReader> cr;
    std::unique_ptr<copc::laz::LazFileReader> lr;
    std::unique_ptr<copc::FileWriter> cw;
    std::unique_ptr<copc::laz::LazFileWriter> lw;
    bool open = false;
    std::string name;
    Spec s;
    int added = 0;
    void reset()
    {
        cr.reset(), lr.reset(), cw.reset(), lw.reset();
        kind = -1;
        open = false;
        added = 0;
    }
};

// What all executions of a process have in common.
struct Shared
{
    Dir dir;
    std::vector<Query> cq = copc_queries({KEYS[0], KEYS[2]}, {copc::Box(0, 0, 0, 30, 30, 30)}, {0, 0.3});
    std::vector<LazQuery> lq = laz_queries();
    std::map<std::string, std::string> content, other;
    std::map<std::string, std::map<std::string, std::string>> answers; // file -> query -> answer of a fresh reader
    bool dirty = true;
    Shared()
    {
        for (int i = 0; i < 2; i++)
            content[cat("copc", i)] = image(i).build();
        auto b = image(0);
        b.copc = false;
        content["laz"] = b.build();
        auto whole = content["copc1"];
        other["short"] = whole.substr(0, 300);
        other["cut"] = whole.substr(0, whole.size() - 40);
        other["empty"] = "";
        other["text"] = std::string(2000, 'x');
        mkdir((dir.path + "/folder").c_str(), 0700);
    }
    void clean()
    {
        for (auto &f : content)
            if (dirty)
                dir.put(f.first, f.second);
        for (auto &f : other)
            if (dirty)
                dir.put(f.first, f.second);
        dirty = true; // until an execution ends well
        for (int i = 0; i < 6; i++)
            unlink((dir.path + cat("/out", i)).c_str());
        for (int i = 0; i < 2; i++)
            dir.put(cat("old", i), std::string(4000, 'o'));
    }
};
Shared &shared()
{
    static Shared s;
    return s;
}

struct World
{
    Ctx &c;
    Shared &sh = shared();
    Dir &dir = sh.dir;
    std::vector<Query> &cq = sh.cq;
    std::vector<LazQuery> &lq = sh.lq;
    std::map<std::string, std::string> content; // of readable files
    std::map<std::string, std::map<std::string, std::string>> &answers = sh.answers;
    std::vector<Kept> kept;
    Obj obj[2];
    int fresh = 0;

    World(Ctx &c) : c(c)
    {
        sh.clean();
        content = sh.content;
    }
    std::string at(const std::string &n) const { return dir.path + "/" + n; }
    std::string answer(const std::string &name, int kind, const std::string &query)
    {
        auto &a = answers[name + (kind ? "/laz" : "/copc")];
        if (a.empty())
        {
            std::istringstream is(content.at(name));
            if (kind == 0)
            {
                copc::Reader r(&is);
                for (auto &q : cq)
                    a[q.name] = q.f(r);
            }
            else
            {
                copc::laz::LazReader r(&is);
                for (auto &q : lq)
                    a[q.name] = q.f(r);
            }
        }
        return a.at(query);
    }
    // The files open are those of the objects that are open.
    void owned()
    {
        std::multiset<std::string> want;
        for (auto &o : obj)
            if (o.open)
                want.insert(o.name);
        auto got = open_files(dir.path);
        c.check(got == want, "open files", "open files: " + join(got) + ", expected: " + join(want));
        for (auto &k : kept)
            c.check(k.look() == k.was, "kept", std::string(k.what) + " changed after its source was closed or gone");
        for (auto &f : content)
            c.check(slurp(at(f.first)) == f.second, "file altered", "a file that nobody writes changed: " + f.first);
    }
    void keep(const char *what, std::function<std::string()> f) { kept.push_back({f, f(), what}); }
    void query(Obj &o, bool all, int only = 0)
    {
        auto ask = [&](const std::string &name, auto f)
        {
            std::string a;
            bool threw = false;
            try
            {
                a = f();
            }
            catch (std::exception &)
            {
                threw = true;
            }
            c.step();
            if (o.open)
                c.check(!threw, "query", "an open reader does not answer " + name);
            if (!threw)
                c.check(a == answer(o.name, o.kind, name), o.open ? "query" : "closed query", std::string(o.open ? "an open" : "a closed") + " reader gives a wrong answer to " + name);
        };
        if (o.kind == 0)
            for (size_t i = all ? 0 : (size_t)only; i < (all ? cq.size() : (size_t)only + 1); i++)
                ask(cq[i].name, [&] { return cq[i].f(*o.cr); });
        else
            for (size_t i = all ? 0 : (size_t)only; i < (all ? lq.size() : (size_t)only + 1); i++)
                ask(lq[i].name, [&] { return lq[i].f(*o.lr); });
    }
    void keep_from(Obj &o)
    {
        if (o.kind == 0)
        {
            auto cfg = std::make_shared<copc::CopcConfig>(o.cr->CopcConfig());
            keep("configuration", [cfg] { return config_str(*cfg); });
            auto n = o.cr->FindNode(vk(KEYS[2]));
            keep("node", [n] { return node_str(n); });
            auto l = o.cr->GetAllNodes();
            keep("nodes", [l] { return listing(l); });
            auto p = std::make_shared<cl::Points>(o.cr->GetAllPoints());
            keep("points", [p] { return sorted_points(*p, {1, 1, 1}, {0, 0, 0}); });
            auto one = o.cr->GetPoints(vk(KEYS[0])).Get(1);
            keep("point", [one] { return one->ToString(); });
            keep("path", [s = o.cr->FilePath()] { return s; });
        }
        else if (o.kind == 1)
        {
            auto cfg = std::make_shared<cl::LazConfig>(o.lr->LazConfig());
            keep("configuration", [cfg] { return config_str(*cfg); });
            auto p = std::make_shared<cl::Points>(o.lr->GetPoints());
            keep("points", [p] { return sorted_points(*p, {1, 1, 1}, {0, 0, 0}); });
        }
        else if (o.kind == 2)
        {
            auto cfg = o.cw->CopcConfig();
            auto h = cfg->LasHeader();
            h->file_source_id = 77;
            auto x = cfg->CopcExtents()->Intensity();
            keep("header of a writer", [h] { return header_str(*h, false); });
            keep("extent of a writer", [x] { return x->ToString(); });
            auto n = o.cw->FindNode(vk(KEYS[0]));
            keep("node of a writer", [n] { return node_str(n); });
        }
        else
        {
            auto h = o.lw->LazConfig()->LasHeader();
            h->file_source_id = 77;
            keep("header of a writer", [h] { return header_str(*h, false); });
        }
        c.op("keep things");
    }
    // Makes object i; which: 0.. the possibilities of the kind
    bool make(int i, int kind, bool some)
    {
        Obj &o = obj[i];
        o.reset();
        o.kind = kind;
        if (kind < 2)
        {
            static const std::vector<std::string> names = {"copc0", "copc1", "laz", "short", "cut", "empty", "text", "missing", "folder"};
            static const std::vector<int> all = {0, 1, 2, 3, 4, 5, 6, 7, 8}, few = {0, 2, 6};
            int k = c.pick(some ? few : all, "file");
            o.name = names[(size_t)k];
            bool want = k < 2 || (k == 2 && kind == 1);
            c.op(cat("open ", o.name, kind ? " as LAZ" : " as COPC"));
            std::string err;
            try
            {
                if (kind == 0)
                    o.cr = std::make_unique<copc::FileReader>(at(o.name));
                else
                    o.lr = std::make_unique<copc::laz::LazFileReader>(at(o.name));
                o.open = true;
            }
            catch (std::exception &e)
            {
                err = e.what();
            }
            if (k != 4) // one cut in its last record may be noticed later
                c.check(o.open == want, "opening", "opening " + o.name + (o.open ? " succeeded" : ": " + err));
            if (o.open && k == 4)
                o.reset();
        }
        else
        {
            int k = c.choose(some ? 2 : 4, "target");
            o.name = k == 2 ? "folder" : k == 3 ? "no/where" : k == 1 && kind == 3 ? cat("old", i) : cat("out", fresh++);
            content.erase(o.name);
            o.s = Spec();
            o.s.fmt = 7;
            c.op(cat("create ", o.name, kind == 3 ? " as LAZ" : " as COPC", k == 1 && kind == 2 ? " wrongly" : ""));
            std::string err;
            try
            {
                if (kind == 2)
                    o.cw = std::make_unique<copc::FileWriter>(at(o.name), make_cfg(o.s), k == 1 ? std::optional<int8_t>(5) : std::optional<int8_t>());
                else
                    o.lw = std::make_unique<copc::laz::LazFileWriter>(at(o.name), make_laz_cfg(o.s));
                o.open = true;
            }
            catch (std::exception &e)
            {
                err = e.what();
            }
            bool want = k == 0 || (k == 1 && kind == 3);
            c.check(o.open == want, "creating", "creating " + o.name + (o.open ? " succeeded" : ": " + err));
        }
        if (!o.open)
            o.kind = -1;
        return true;
    }
    void close(Obj &o)
    {
        c.op(cat("close ", o.name));
        bool was = o.open;
        if (o.kind == 0)
            o.cr->Close();
        else if (o.kind == 1)
            o.lr->Close();
        else if (o.kind == 2)
            o.cw->Close();
        else
            o.lw->Close();
        o.open = false;
        if (was && o.kind >= 2)
            done(o);
    }
    // A written file is complete as soon as its writer is closed, and then stays as it is.
    void done(Obj &o)
    {
        std::string b = slurp(at(o.name));
        auto f = parse_or_fail(c, b, o.kind == 2);
        size_t n = 0;
        if (o.kind == 2)
            for (auto &x : f.nodes)
                n += (size_t)x.second.count;
        else
            n = f.points.size() / (size_t)o.s.len();
        c.eq(n, (size_t)o.added, "points written");
        content[o.name] = b;
    }
    void destroy(Obj &o)
    {
        c.op(cat("destroy ", o.name));
        bool was = o.open;
        int kind = o.kind;
        o.cr.reset(), o.lr.reset(), o.cw.reset(), o.lw.reset();
        o.open = false;
        if (was && kind >= 2)
            done(o);
        o.kind = -1;
    }
};
} // namespace

MC_SCENARIOS
{
    static auto histories = [](Ctx &c, int L, bool all_files)
    {
        MuteCout mute;
        World x(c);
        x.owned();
        for (int k = 0; k < L; k++)
        {
            int i = x.obj[0].kind < 0 ? 0 : c.choose(2, "object");
            Obj &o = x.obj[i];
            if (o.kind < 0)
                x.make(i, c.choose(4, "kind"), k > 0 && !all_files);
            else
            {
                int op = c.choose(5, "operation");
                if (op == 4)
                    break;
                if (op == 0)
                    x.close(o);
                else if (op == 1)
                    x.destroy(o);
                else if (op == 2)
                {
                    if (!o.open)
                        return; // only what an open one gives
                    x.keep_from(o);
                }
                else if (o.kind < 2)
                {
                    c.op(o.open ? "all queries" : "all queries after closing");
                    x.query(o, true);
                }
                else
                {
                    auto pts = to_points(o.s.fmt, o.s.eb(), 5, 2, o.s.scale, o.s.offset);
                    c.op(o.open ? "add points" : "add points after closing");
                    std::string err;
                    try
                    {
                        if (o.kind == 2)
                            o.cw->AddNode(vk(KEYS[(size_t)o.added / 2]), pts);
                        else
                            o.lw->WritePoints(pts);
                    }
                    catch (std::exception &e)
                    {
                        err = e.what();
                    }
                    if (o.open)
                        c.check(err.empty(), "adding", "an open writer refuses points: " + err), o.added += 2;
                    else
                        c.check(!err.empty(), "adding", "a closed writer accepts points");
                }
            }
            x.owned();
        }
        c.state(cat(c.trace.size(), mc::hash64(std::string((const char *)c.trace.data(), c.pos * sizeof(int)))));
        c.op("destroy everything");
        int first = c.choose(2, "destroyed first");
        for (int i : {first, 1 - first})
        {
            if (x.obj[i].kind >= 0)
                x.destroy(x.obj[i]);
            x.owned();
        }
        x.sh.dirty = false;
    };
    mc::add("histories", [](Ctx &c) { histories(c, mc::thorough() ? 5 : 4, false); }, 0, 8);
    mc::add("histories, all files", [](Ctx &c) { histories(c, 4, true); }, 1, 8);

    // every pair of queries: before closing (which decides what is loaded) and after
    mc::add("queries after closing", [](Ctx &c)
    {
        MuteCout mute;
        World x(c);
        Obj &o = x.obj[0];
        o.kind = c.choose(2, "kind");
        o.name = c.pick(std::vector<std::string>{"copc0", "copc1"}, "file");
        if (o.kind == 0)
            o.cr = std::make_unique<copc::FileReader>(x.at(o.name));
        else
            o.lr = std::make_unique<copc::laz::LazFileReader>(x.at(o.name));
        o.open = true;
        int n = (int)(o.kind == 0 ? x.cq.size() : x.lq.size());
        int a = c.choose(n + 1, "query before");
        if (a)
        {
            c.op("query");
            x.query(o, false, a - 1);
        }
        x.close(o);
        x.owned();
        if (mc::thorough())
        {
            c.op("query");
            x.query(o, false, c.choose(n, "query after"));
        }
        int b = c.choose(n, "query after");
        c.op("query");
        x.query(o, false, b);
        x.close(o);
        x.owned();
        x.destroy(o);
        x.owned();
        x.sh.dirty = false;
        c.state(cat(o.kind, o.name, a, b));
    }, 0, 4);
};
