// C11: octree key algebra.
#include "common.hpp"

static std::vector<K> all_keys(int depth)
{
    std::vector<K> v;
    for (int d = 0; d <= depth; d++)
        for (int x = 0; x < 1 << d; x++)
            for (int y = 0; y < 1 << d; y++)
                for (int z = 0; z < 1 << d; z++)
                    v.push_back({d, x, y, z});
    return v;
}
// keys with large coordinates, keys outside the cube of their depth, and deep keys
static std::vector<K> odd_keys()
{
    std::vector<K> v;
    const int M = INT_MAX;
    for (int d : {0, 1, 2, 5, 15, 16, 29, 30})
        for (int x : {0, 1, 2, 12345, 65535, 65536, (1 << 30) - 1})
            for (int y : {0, 3, (1 << 29) + 1})
                for (int z : {0, 7, (1 << 30) - 2})
                    v.push_back({d, x, y, z});
    v.push_back({30, M, M, M});
    v.push_back({31, M, 1, M - 1});
    return v;
}
static void chain(Ctx &c, const K &k, int maxd)
{
    c.state(k.str());
    auto key = vk(k);
    c.eq(key.IsValid(), true, "valid key");
    // parents
    std::vector<K> want;
    K p = k;
    while (p.d > 0)
    {
        p = {p.d - 1, p.x >> 1, p.y >> 1, p.z >> 1};
        want.push_back(p);
    }
    auto got = key.GetParents();
    c.eq(got.size(), want.size(), "number of parents");
    for (size_t i = 0; i < want.size(); i++)
        c.eq(kk(got[i]), want[i], "parent chain");
    auto self = key.GetParents(true);
    c.eq(self.size(), want.size() + 1, "number of parents with the key itself");
    c.eq(kk(self[0]), k, "the key itself comes first");
    for (size_t i = 0; i < want.size(); i++)
        c.eq(kk(self[i + 1]), want[i], "parent chain after the key itself");
    if (k.d > 0)
        c.eq(kk(key.GetParent()), want[0], "parent");
    else
        c.eq(key.GetParent().IsValid(), false, "parent of a depth 0 key is invalid");
    for (int d = -2; d <= k.d + 2; d++)
    {
        copc::VoxelKey q;
        bool t = throws([&] { q = key.GetParentAtDepth(d); });
        c.eq(t, d < 0 || d > k.d, cat("parent of ", k, " at depth ", d, " rejected"));
        if (!t)
            c.eq(kk(q), d == k.d ? k : want[(size_t)(k.d - d - 1)], cat("parent of ", k, " at depth ", d));
    }
    c.step(4 + (uint64_t)k.d + 5);
    // children
    if (k.x < (1 << 30) && k.y < (1 << 30) && k.z < (1 << 30) && k.d < maxd)
    {
        auto ch = key.GetChildren();
        c.eq(ch.size(), (size_t)8, "number of children");
        std::set<K> seen;
        for (int i = 0; i < 8; i++)
        {
            K e{k.d + 1, 2 * k.x + (i & 1), 2 * k.y + ((i >> 1) & 1), 2 * k.z + ((i >> 2) & 1)};
            c.eq(kk(ch[(size_t)i]), e, cat("child ", i, " of ", k));
            c.eq(kk(key.Bisect((uint64_t)i)), e, cat("Bisect(", i, ") of ", k));
            c.eq(kk(ch[(size_t)i].GetParent()), k, "parent of the child");
            c.eq(ch[(size_t)i].ChildOf(key), true, "child is a child of its parent");
            c.eq(key.ChildOf(ch[(size_t)i]), false, "parent is no child of its child");
            seen.insert(kk(ch[(size_t)i]));
        }
        c.eq(seen.size(), (size_t)8, "children are distinct");
        c.step(9);
    }
    c.eq(kk(key), k, "key unchanged");
}

MC_SCENARIOS
{
    mc::add("key chains", [](Ctx &c) {
        static auto keys = all_keys(mc::thorough() ? 6 : 5);
        const K &k = c.pick(keys, "key");
        if (k.x == 0 && k.y == 0)
            c.op("chain of " + k.str());
        chain(c, k, 40);
    });
    mc::add("extreme keys", [](Ctx &c) {
        static auto keys = odd_keys();
        const K &k = c.pick(keys, "key");
        c.op("chain of " + k.str());
        chain(c, k, 30);
    });
    mc::add("key pairs", [](Ctx &c) {
        static auto keys = all_keys(3);
        const K &a = c.pick(keys, "key");
        auto ka = vk(a);
        std::hash<copc::VoxelKey> h;
        size_t ha = h(ka);
        for (auto &b : keys)
        {
            auto kb = vk(b);
            c.checks += 4;
            if (ka.ChildOf(kb) != a.below_or_self(b))
                c.fail("ChildOf", cat(a, " ChildOf ", b));
            if ((ka == kb) != (a == b) || (ka != kb) == (a == b))
                c.fail("key equality", cat(a, " == ", b));
            if (a == b && ha != h(kb))
                c.fail("hash", cat("equal keys ", a, " with different hashes"));
            c.step(3);
        }
        c.state(a.str());
    });
    // keys outside the cube of their depth and large coordinates among each other and with their ancestors
    mc::add("extreme pairs", [](Ctx &c) {
        static auto base = [] {
            auto v = odd_keys();
            std::set<K> s(v.begin(), v.end());
            for (auto k : v)
                while (k.d > 0)
                    s.insert(k = k.parent());
            return std::vector<K>(s.begin(), s.end());
        }();
        const K &a = c.pick(base, "key");
        auto ka = vk(a);
        std::hash<copc::VoxelKey> h;
        for (auto &b : base)
        {
            auto kb = vk(b);
            c.checks += 3;
            if (b.d <= a.d && (a.d - b.d < 3 || a.x % 5 == 0) && ka.ChildOf(kb) != a.below_or_self(b))
                c.fail("ChildOf", cat(a, " ChildOf ", b));
            if ((ka == kb) != (a == b) || (ka != kb) == (a == b))
                c.fail("key equality", cat(a, " == ", b));
            if (a == b && h(ka) != h(kb))
                c.fail("hash", cat(a));
            c.step(2);
        }
        c.state(a.str());
    });
    mc::add("invalid keys", [](Ctx &c) {
        std::vector<int> vals = {-1, 0, 1, INT_MIN, 5};
        K k{c.pick(vals, "d"), c.pick(vals, "x"), c.pick(vals, "y"), c.pick(vals, "z")};
        auto key = vk(k);
        bool ok = k.d >= 0 && k.x >= 0 && k.y >= 0 && k.z >= 0;
        c.op("key " + k.str());
        c.state(k.str());
        c.eq(key.IsValid(), ok, "validity");
        if (ok)
            return;
        c.eq(key.GetParents().size(), (size_t)0, "parents of an invalid key");
        c.eq(key.GetParents(true).size(), (size_t)0, "parents of an invalid key with itself");
        c.eq(key.GetParent().IsValid(), false, "parent of an invalid key");
        c.eq(key.GetParentAtDepth(0).IsValid(), false, "parent at depth of an invalid key");
        for (auto &p : all_keys(2))
        {
            c.eq(key.ChildOf(vk(p)), false, "invalid key is below nothing");
            c.eq(vk(p).ChildOf(key), false, "nothing is below an invalid key");
        }
        c.eq(key.ChildOf(key), false, "invalid key is not below itself");
    });
    // an unordered_map keyed by voxel keys keeps every key apart
    mc::add("map of keys", [](Ctx &c) {
        int rot = c.choose(16, "insertion order");
        auto keys = all_keys(3);
        for (auto &k : odd_keys())
            keys.push_back(k);
        std::rotate(keys.begin(), keys.begin() + rot * 30, keys.end());
        std::sort(keys.begin() + 100, keys.end());
        keys.erase(std::unique(keys.begin() + 100, keys.end()), keys.end());
        std::set<K> u(keys.begin(), keys.end());
        std::unordered_map<copc::VoxelKey, K> m;
        for (auto &k : keys)
            m[vk(k)] = k;
        c.eq(m.size(), u.size(), "number of distinct keys");
        for (auto &k : keys)
        {
            c.eq(m.count(vk(k)), (size_t)1, "key found");
            c.eq(m[vk(k)], k, "value of the key");
        }
        c.step(keys.size() * 2);
        c.state(cat(rot));
    });
    mc::add("key from lists", [](Ctx &c) {
        int n = c.choose(8, "length");
        std::vector<int32_t> l;
        for (int i = 0; i < n; i++)
            l.push_back(i + 3);
        c.op(cat("VoxelKey(list of ", n, ")"));
        c.eq(throws([&] { copc::VoxelKey k(l); }), n != 4, "list of another length rejected");
        if (n == 4)
            c.eq(kk(copc::VoxelKey(l)), K{3, 4, 5, 6}, "key from a list");
        c.eq(kk(copc::VoxelKey::RootKey()), K{0, 0, 0, 0}, "root key");
        c.eq(copc::VoxelKey::InvalidKey().IsValid(), false, "invalid key");
        c.eq(copc::VoxelKey().IsValid(), false, "default key");
        c.state(cat(n));
    });
}
