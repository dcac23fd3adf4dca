// Keys form an octree: children, parents, ancestry
#include "spec.hpp"
#include <copc-lib/hierarchy/key.hpp>
using namespace copc;
typedef VoxelKey K;

static bool ok(const K &k) { return k.d >= 0 && k.x >= 0 && k.y >= 0 && k.z >= 0; }

K lhs_make(int32_t d, int32_t x, int32_t y, int32_t z) { return K(d, x, y, z); }
K rhs_make(int32_t d, int32_t x, int32_t y, int32_t z)
{
    K k;
    k.d = d;
    k.x = x;
    k.y = y;
    k.z = z;
    return k;
}
K lhs_makelist(const std::vector<int32_t> &v) { return K(v); }
K rhs_makelist(const std::vector<int32_t> &v)
{
    if (v.size() != 4)
        throw std::runtime_error("four numbers");
    return K(v[0], v[1], v[2], v[3]);
}
K lhs_root() { return K::RootKey(); }
K rhs_root() { return K(0, 0, 0, 0); }
K lhs_invalid() { return K::InvalidKey(); }
K rhs_invalid() { return K(-1, -1, -1, -1); }
K lhs_default() { return K(); }
K rhs_default() { return K(-1, -1, -1, -1); }
bool lhs_valid(const K &k) { return k.IsValid(); }
bool rhs_valid(const K &k) { return ok(k); }
bool lhs_equal(const K &a, const K &b) { return a == b; }
bool rhs_equal(const K &a, const K &b) { return a.d == b.d && a.x == b.x && a.y == b.y && a.z == b.z; }
bool lhs_unequal(const K &a, const K &b) { return a != b; }
bool rhs_unequal(const K &a, const K &b) { return !(a.d == b.d && a.x == b.x && a.y == b.y && a.z == b.z); }

// direction bit 0, 1, 2 chooses the half along x, y, z
K lhs_bisect(const K &k, uint64_t dir) { return k.Bisect(dir); }
K rhs_bisect(const K &k, uint64_t dir)
{
    return K(k.d + 1, 2 * k.x + ((dir & 1) ? 1 : 0), 2 * k.y + ((dir & 2) ? 1 : 0), 2 * k.z + ((dir & 4) ? 1 : 0));
}
std::vector<K> lhs_children(const K &k) { return k.GetChildren(); }
std::vector<K> rhs_children(const K &k)
{
    return std::vector<K>{K(k.d + 1, 2 * k.x, 2 * k.y, 2 * k.z),         K(k.d + 1, 2 * k.x + 1, 2 * k.y, 2 * k.z),
                          K(k.d + 1, 2 * k.x, 2 * k.y + 1, 2 * k.z),     K(k.d + 1, 2 * k.x + 1, 2 * k.y + 1, 2 * k.z),
                          K(k.d + 1, 2 * k.x, 2 * k.y, 2 * k.z + 1),     K(k.d + 1, 2 * k.x + 1, 2 * k.y, 2 * k.z + 1),
                          K(k.d + 1, 2 * k.x, 2 * k.y + 1, 2 * k.z + 1), K(k.d + 1, 2 * k.x + 1, 2 * k.y + 1, 2 * k.z + 1)};
}
K lhs_parent(const K &k) { return k.GetParent(); }
K rhs_parent(const K &k)
{
    if (!ok(k))
        return K(-1, -1, -1, -1);
    return K(k.d - 1, k.x / 2, k.y / 2, k.z / 2);
}
// the parent of a child is the key, and the child's direction is what the low bits say
K lhs_parentofchild(const K &k, uint64_t dir)
{
    assume(ok(k));
    return k.Bisect(dir).GetParent();
}
K rhs_parentofchild(const K &k, uint64_t dir)
{
    assume(ok(k));
    return k;
}
bool always_rootparent() { return !K::RootKey().GetParent().IsValid(); }
bool always_descends(const K &k) { return !k.IsValid() || k.GetParent().d == k.d - 1; }

K lhs_atdepth(const K &k, int32_t depth) { return k.GetParentAtDepth(depth); }
K rhs_atdepth(const K &k, int32_t depth)
{
    if (!ok(k))
        return K();
    if (depth < 0 || depth > k.d)
        throw std::runtime_error("no such ancestor");
    int32_t f = (int32_t)std::pow(2, k.d - depth);
    return K(depth, k.x / f, k.y / f, k.z / f);
}
// the chain of ancestors for every depth the key components can express in small trees, and the general recursion
static std::vector<K> chain(K k, bool self)
{
    std::vector<K> r;
    if (!ok(k))
        return r;
    if (self)
        r.push_back(k);
    for (k = K(k.d - 1, k.x / 2, k.y / 2, k.z / 2); ok(k); k = K(k.d - 1, k.x / 2, k.y / 2, k.z / 2))
        r.push_back(k);
    return r;
}
#define DEPTH(n)                                                                                                       \
    std::vector<K> lhs_chain##n(int32_t x, int32_t y, int32_t z, bool self) { return K(n, x, y, z).GetParents(self); }  \
    std::vector<K> rhs_chain##n(int32_t x, int32_t y, int32_t z, bool self) { return chain(K(n, x, y, z), self); }      \
    bool lhs_childof##n(int32_t x, int32_t y, int32_t z, const K &p) { return K(n, x, y, z).ChildOf(p); }               \
    bool rhs_childof##n(int32_t x, int32_t y, int32_t z, const K &p)                                                    \
    {                                                                                                                  \
        for (const K &q : chain(K(n, x, y, z), true))                                                                  \
            if (q.d == p.d && q.x == p.x && q.y == p.y && q.z == p.z)                                                  \
                return true;                                                                                           \
        return false;                                                                                                  \
    }                                                                                                                  \
    std::vector<K> lhs_agree##n(int32_t x, int32_t y, int32_t z)                                                        \
    {                                                                                                                  \
        std::vector<K> r;                                                                                              \
        if (K(n, x, y, z).IsValid())                                                                                   \
            for (int i = n; i >= 0; --i)                                                                               \
                r.push_back(K(n, x, y, z).GetParentAtDepth(i));                                                        \
        return r;                                                                                                      \
    }                                                                                                                  \
    std::vector<K> rhs_agree##n(int32_t x, int32_t y, int32_t z) { return chain(K(n, x, y, z), true); }
DEPTH(0)
DEPTH(1)
DEPTH(2)
DEPTH(3)
DEPTH(5)
DEPTH(9)
std::vector<K> lhs_chain(const K &k, bool self) { return k.GetParents(self); }
std::vector<K> rhs_chain(const K &k, bool self)
{
    std::vector<K> r;
    if (!k.IsValid())
        return r;
    if (self)
        r.push_back(k);
    for (K p = k.GetParent(); p.IsValid(); p = p.GetParent())
        r.push_back(p);
    return r;
}
bool lhs_childof(const K &k, const K &p) { return k.ChildOf(p); }
bool rhs_childof(const K &k, const K &p)
{
    for (const K &q : k.GetParents(true))
        if (q == p)
            return true;
    return false;
}
// equal keys hash equally, and the hash depends on the key alone
size_t lhs_hash(const K &k) { return std::hash<K>()(k); }
size_t rhs_hash(const K &k) { return std::hash<K>()(K(k.d, k.x, k.y, k.z)); }
std::string lhs_print(const K &k) { return k.ToString(); }
std::string rhs_print(const K &k)
{
    std::stringstream s;
    s << "(" << k.d << ", " << k.x << ", " << k.y << ", " << k.z << ")";
    return s.str();
}
