// Reading a hierarchy finds every reachable node and always ends
//@ result
#include "reader.hpp"
using namespace copc;
using namespace spec;
typedef std::vector<Node> NV;
struct Disk
{
    std::ostringstream o;
    Disk &e(const VoxelKey &k, uint64_t offset, int32_t size, int32_t count)
    {
        put(o, k.d);
        put(o, k.x);
        put(o, k.y);
        put(o, k.z);
        put(o, offset);
        put(o, size);
        put(o, count);
        return *this;
    }
};
static const VoxelKey R() { return VoxelKey(0, 0, 0, 0); }
static const VoxelKey A() { return VoxelKey(1, 0, 0, 0); }
static const VoxelKey B() { return VoxelKey(1, 1, 0, 1); }
static const VoxelKey AA() { return VoxelKey(2, 1, 1, 0); }
static const VoxelKey AB() { return VoxelKey(2, 0, 1, 1); }
static const VoxelKey AAA() { return VoxelKey(3, 2, 2, 1); }
static Node node(const VoxelKey &k, uint64_t o, int32_t s, int32_t c, const VoxelKey &page) { return Node(Entry(k, o, s, c), page); }
// ---- pages of nodes only
NV lhs_empty(uint64_t at)
{
    std::istringstream i("");
    CopcIn r(i, at, 0);
    return r.GetAllNodes();
}
NV rhs_empty(uint64_t at) { return {}; }
NV lhs_one(uint64_t o, int32_t s, int32_t c)
{
    assume(s >= 0 && c >= 0);
    Disk d;
    d.e(R(), o, s, c);
    std::istringstream i(d.o.str());
    CopcIn r(i, 0, 32);
    return r.GetAllNodes();
}
NV rhs_one(uint64_t o, int32_t s, int32_t c) { return {node(R(), o, s, c, R())}; }
NV lhs_two(uint64_t o, int32_t s, int32_t c)
{
    assume(s >= 0 && c >= 0);
    Disk d;
    d.e(A(), o, s, c).e(AA(), o + s, 7, c);
    std::istringstream i(d.o.str());
    CopcIn r(i, 0, 64);
    return r.GetAllNodes();
}
NV rhs_two(uint64_t o, int32_t s, int32_t c) { return {node(A(), o, s, c, R()), node(AA(), o + s, 7, c, R())}; }
// ---- pages of pages: the file is  [root: P nodes.. pages..][page at 96][page at 160]
// root: node R, page A (at 96, two nodes A, AA), page B (at 160, one node)
static void tree(Disk &d, uint64_t o, int32_t s, int32_t c)
{
    assume(s >= 0 && c >= 0);
    d.e(R(), o, s, c).e(A(), 64, 64, -1);
    d.e(A(), o + 1, s, c).e(AA(), o + 2, s, 7);
}
#define T uint64_t o, int32_t s, int32_t c
NV lhs_tree(T)
{
    Disk d;
    tree(d, o, s, c);
    std::istringstream i(d.o.str());
    CopcIn r(i, 0, 64);
    return r.GetAllNodes();
}
NV rhs_tree(T) { return {node(A(), o + 1, s, c, A()), node(AA(), o + 2, s, 7, A()), node(R(), o, s, c, R())}; }
// whatever was looked at before
NV lhs_tree_again(T)
{
    Disk d;
    tree(d, o, s, c);
    std::istringstream i(d.o.str());
    CopcIn r(i, 0, 64);
    r.FindNode(AB());
    r.FindNode(A());
    r.GetAllNodes();
    return r.GetAllNodes();
}
NV rhs_tree_again(T) { return {node(A(), o + 1, s, c, A()), node(AA(), o + 2, s, 7, A()), node(R(), o, s, c, R())}; }
#define IN(name, what, want)                                                                                           \
    auto lhs_##name(T)                                                                                                 \
    {                                                                                                                  \
        Disk d;                                                                                                        \
        tree(d, o, s, c);                                                                                              \
        std::istringstream i(d.o.str());                                                                               \
        CopcIn r(i, 0, 64);                                                                                            \
        return what;                                                                                                   \
    }                                                                                                                  \
    auto rhs_##name(T) -> decltype(lhs_##name(o, s, c))                                                                \
    {                                                                                                                  \
        assume(s >= 0 && c >= 0);                                                                                      \
        return want;                                                                                                   \
    }
IN(find_root, r.FindNode(R()), node(R(), o, s, c, R()))
IN(find_a, r.FindNode(A()), node(A(), o + 1, s, c, A()))
IN(find_aa, r.FindNode(AA()), node(AA(), o + 2, s, 7, A()))
IN(find_ab, r.FindNode(AB()).IsValid(), false)
IN(find_b, r.FindNode(B()).IsValid(), false)
IN(find_deep, r.FindNode(VoxelKey(4, 4, 4, 2)).IsValid(), false)
IN(sub_a, r.GetAllChildrenOfPage(A()), (NV{node(A(), o + 1, s, c, A()), node(AA(), o + 2, s, 7, A())}))
IN(sub_aa, r.GetAllChildrenOfPage(AA()), (NV{node(AA(), o + 2, s, 7, A())}))
IN(sub_b, r.GetAllChildrenOfPage(B()), NV())
IN(sub_invalid, r.GetAllChildrenOfPage(VoxelKey::InvalidKey()), NV())
IN(pages, r.GetPageList(), (std::vector<VoxelKey>{R(), A()}))
// ---- three levels, and a page without nodes of its own
static void deep(Disk &d, uint64_t o, int32_t s, int32_t c)
{
    assume(s >= 0 && c >= 0);
    d.e(A(), 32, 32, -1);
    d.e(AA(), 64, 64, -1);
    d.e(AA(), o, s, c).e(AAA(), o + 9, s, c);
}
#define DEEP(name, what, want)                                                                                         \
    auto lhs_##name(T)                                                                                                 \
    {                                                                                                                  \
        Disk d;                                                                                                        \
        deep(d, o, s, c);                                                                                              \
        std::istringstream i(d.o.str());                                                                               \
        CopcIn r(i, 0, 32);                                                                                            \
        return what;                                                                                                   \
    }                                                                                                                  \
    auto rhs_##name(T) -> decltype(lhs_##name(o, s, c))                                                                \
    {                                                                                                                  \
        assume(s >= 0 && c >= 0);                                                                                      \
        return want;                                                                                                   \
    }
DEEP(deep_all, r.GetAllNodes(), (NV{node(AA(), o, s, c, AA()), node(AAA(), o + 9, s, c, AA())}))
DEEP(deep_aa, r.GetAllChildrenOfPage(AA()), (NV{node(AA(), o, s, c, AA()), node(AAA(), o + 9, s, c, AA())}))
DEEP(deep_a, r.GetAllChildrenOfPage(A()), (NV{node(AA(), o, s, c, AA()), node(AAA(), o + 9, s, c, AA())}))
DEEP(deep_find, r.FindNode(AAA()), node(AAA(), o + 9, s, c, AA()))
DEEP(deep_none, r.FindNode(A()).IsValid(), false)
DEEP(deep_other, r.FindNode(VoxelKey(3, 0, 0, 0)).IsValid(), false)
DEEP(deep_pages, r.GetPageList(), (std::vector<VoxelKey>{R(), A(), AA()}))
// ---- damaged hierarchies end with an error
static bool fails(const std::string &file, int32_t size)
{
    std::istringstream i(file);
    CopcIn r(i, 0, size);
    r.GetAllNodes();
    return true;
}
static bool error() { throw std::runtime_error("damaged"); }
#define BAD(name, what, size)                                                                                          \
    bool lhs_##name(T)                                                                                                 \
    {                                                                                                                  \
        assume(s >= 0 && c >= 0);                                                                                      \
        Disk d;                                                                                                        \
        what;                                                                                                          \
        return fails(d.o.str(), size);                                                                                 \
    }                                                                                                                  \
    bool rhs_##name(T) { return error(); }
BAD(cycle_self, d.e(R(), 0, 32, -1), 32)
BAD(cycle_self2, d.e(A(), 32, 32, -1).e(A(), 32, 32, -1), 32)
BAD(cycle_two, d.e(A(), 32, 32, -1).e(R(), 0, 32, -1), 32)
BAD(cycle_three, d.e(A(), 32, 32, -1).e(AA(), 64, 32, -1).e(A(), 32, 32, -1), 32)
BAD(twice, d.e(A(), 64, 0, -1).e(A(), 64, 0, -1), 64)
BAD(invalid_key, d.e(VoxelKey(-1, 0, 0, 0), o, s, c), 32)
BAD(invalid_size, d.e(A(), o, -1, c), 32)
BAD(short_entry, d.e(A(), o, s, c), 64)
BAD(short_page, d.e(A(), 32, 32, -1), 32)
BAD(negative, d.e(A(), o, s, c), -32)
BAD(beyond, d.e(A(), 64, 32, -1), 32)
BAD(invalid_second, d.e(A(), o, s, c).e(VoxelKey(-1, 0, 0, 0), o, s, c), 64)
BAD(invalid_last, d.e(R(), o, s, c).e(A(), o, s, c).e(AA(), o, -1, c), 96)
BAD(invalid_below, d.e(A(), 32, 64, -1).e(A(), o, s, c).e(AA(), o, -7, c), 32)
