// The written hierarchy lists every node and page once and reaches all of them
#include "copc_file.hpp"
#include <sstream>
using namespace copc;
using namespace copc::laz;
using namespace spec;
//@ pure: copc::las::Points::Pack
static CopcCfg plain(const CopcConfig &cc) { return cfg(cc, 6, false, false, false); }
typedef std::vector<char> Bytes;
static const VoxelKey A(1, 0, 1, 0), B(2, 1, 3, 1), C(3, 2, 6, 3), D(4, 5, 13, 6), E(2, 3, 3, 3);
static const VoxelKey ROOT(0, 0, 0, 0);
#define LAW(n, WRITE, EXPECT)                                                                                          \
    std::string lhs_##n(const CopcConfig &cc, const Bytes &d, const Bytes &e)                                          \
    {                                                                                                                  \
        std::ostringstream o;                                                                                          \
        Writer w(o, plain(cc));                                                                                        \
        WRITE;                                                                                                         \
        w.Close();                                                                                                     \
        return o.str();                                                                                                \
    }                                                                                                                  \
    std::string rhs_##n(const CopcConfig &cc, const Bytes &d, const Bytes &e)                                          \
    {                                                                                                                  \
        std::ostringstream o;                                                                                          \
        CopcFile f(o, plain(cc));                                                                                      \
        EXPECT;                                                                                                        \
        f.finish();                                                                                                    \
        return o.str();                                                                                                \
    }
static Node add(Writer &w, const VoxelKey &k, const Bytes &d, const VoxelKey &p) { return w.AddNodeCompressed(k, d, 7, p); }
static bool refuses_add(Writer &w, const VoxelKey &k, const Bytes &d, const VoxelKey &p)
{
    try
    {
        w.AddNodeCompressed(k, d, 7, p);
    }
    catch (const std::runtime_error &)
    {
        return true;
    }
    return false;
}
static bool refuses_move(Writer &w, const VoxelKey &k, const VoxelKey &p)
{
    try
    {
        w.ChangeNodePage(k, p);
    }
    catch (const std::runtime_error &)
    {
        return true;
    }
    return false;
}
// pages without nodes of their own page above them hang below the nearest page there is
LAW(chain, add(w, D, d, C); add(w, C, e, B); add(w, B, d, A); add(w, A, e, ROOT),
    Entry x = f.raw(D, d, 7); Entry y = f.raw(C, e, 7); Entry z = f.raw(B, d, 7); Entry r = f.raw(A, e, 7); f.chunks();
    f.page(ROOT, {r, f.page(A, {z, f.page(B, {y, f.page(C, {x})})})}))
LAW(gap, add(w, D, d, C); add(w, ROOT, e, ROOT),
    Entry x = f.raw(D, d, 7); Entry y = f.raw(ROOT, e, 7); f.chunks(); f.page(ROOT, {y, f.page(C, {x})}))
LAW(gap2, add(w, D, d, D); add(w, B, e, A),
    Entry x = f.raw(D, d, 7); Entry y = f.raw(B, e, 7); f.chunks(); f.page(ROOT, {f.page(A, {y, f.page(D, {x})})}))
LAW(gap3, add(w, B, e, A); add(w, D, d, D); add(w, C, e, A),
    Entry y = f.raw(B, e, 7); Entry x = f.raw(D, d, 7); Entry z = f.raw(C, e, 7); f.chunks();
    f.page(ROOT, {f.page(A, {y, z, f.page(D, {x})})}))
LAW(many, add(w, A, d, ROOT); add(w, ROOT, e, ROOT); add(w, B, d, ROOT); add(w, C, e, ROOT); add(w, D, d, ROOT),
    Entry a = f.raw(A, d, 7); Entry r = f.raw(ROOT, e, 7); Entry b = f.raw(B, d, 7); Entry c = f.raw(C, e, 7);
    Entry x = f.raw(D, d, 7); f.chunks(); f.page(ROOT, {r, a, b, c, x}))
// moving nodes
LAW(move, add(w, D, d, B); add(w, C, e, B); w.ChangeNodePage(D, C),
    Entry x = f.raw(D, d, 7); Entry y = f.raw(C, e, 7); f.chunks(); f.page(ROOT, {f.page(B, {y, f.page(C, {x})})}))
LAW(move_up, add(w, D, d, B); add(w, C, e, B); w.ChangeNodePage(D, ROOT),
    Entry x = f.raw(D, d, 7); Entry y = f.raw(C, e, 7); f.chunks(); f.page(ROOT, {x, f.page(B, {y})}))
LAW(move_last, add(w, D, d, B); add(w, C, e, A); w.ChangeNodePage(D, A),
    Entry x = f.raw(D, d, 7); Entry y = f.raw(C, e, 7); f.chunks(); f.page(ROOT, {f.page(A, {y, x})}))
LAW(move_from_root, add(w, D, d, ROOT); w.ChangeNodePage(D, A), Entry x = f.raw(D, d, 7); f.chunks();
    f.page(ROOT, {f.page(A, {x})}))
LAW(move_to_root, add(w, D, d, A); w.ChangeNodePage(D, ROOT), Entry x = f.raw(D, d, 7); f.chunks(); f.page(ROOT, {x}))
LAW(move_same, add(w, D, d, A); w.ChangeNodePage(D, A), Entry x = f.raw(D, d, 7); f.chunks();
    f.page(ROOT, {f.page(A, {x})}))
LAW(move_twice, add(w, D, d, A); w.ChangeNodePage(D, B); w.ChangeNodePage(D, C), Entry x = f.raw(D, d, 7); f.chunks();
    f.page(ROOT, {f.page(C, {x})}))
LAW(move_back, add(w, D, d, A); w.ChangeNodePage(D, B); w.ChangeNodePage(D, A); add(w, C, e, B),
    Entry x = f.raw(D, d, 7); Entry y = f.raw(C, e, 7); f.chunks(); f.page(ROOT, {f.page(A, {x, f.page(B, {y})})}))
// a page which lost its last node is gone, and the pages below it hang below the next one
LAW(move_middle, add(w, D, d, C); add(w, C, e, B); w.ChangeNodePage(C, ROOT),
    Entry x = f.raw(D, d, 7); Entry y = f.raw(C, e, 7); f.chunks(); f.page(ROOT, {y, f.page(C, {x})}))
// refusals change nothing
#define SAME Entry x = f.raw(D, d, 7); f.chunks(); f.page(ROOT, {f.page(B, {x})})
LAW(duplicate, add(w, D, d, B); if (!refuses_add(w, D, e, B) || !refuses_add(w, D, e, ROOT)) return "", SAME)
LAW(no_descendant, add(w, D, d, B);
    if (!refuses_add(w, A, e, B) || !refuses_add(w, VoxelKey(3, 0, 0, 0), e, B) || !refuses_add(w, E, e, B)) return "", SAME)
LAW(invalid, add(w, D, d, B);
    if (!refuses_add(w, VoxelKey(-1, -1, -1, -1), e, ROOT) || !refuses_add(w, C, e, VoxelKey(-1, -1, -1, -1)) ||
        !refuses_add(w, VoxelKey(2, 1, -1, 0), e, ROOT)) return "", SAME)
LAW(no_move, add(w, D, d, B);
    if (!refuses_move(w, C, B) || !refuses_move(w, D, E) || !refuses_move(w, D, VoxelKey(5, 10, 26, 12)) ||
        !refuses_move(w, D, VoxelKey(-1, -1, -1, -1)) || !refuses_move(w, VoxelKey(-1, -1, -1, -1), ROOT)) return "", SAME)
// any key
std::string lhs_any_key(const CopcConfig &cc, const Bytes &d, const Bytes &e, const VoxelKey &k)
{
    assume(k.IsValid() && k.ChildOf(ROOT));
    std::ostringstream o;
    Writer w(o, plain(cc));
    add(w, k, d, ROOT);
    if (!refuses_add(w, k, e, ROOT) || !refuses_add(w, k, e, k))
        return "";
    w.Close();
    return o.str();
}
std::string rhs_any_key(const CopcConfig &cc, const Bytes &d, const Bytes &e, const VoxelKey &k)
{
    assume(k.IsValid() && k.ChildOf(ROOT));
    std::ostringstream o;
    CopcFile f(o, plain(cc));
    Entry x = f.raw(k, d, 7);
    f.chunks();
    f.page(ROOT, {x});
    f.finish();
    return o.str();
}
Node lhs_found(const CopcConfig &cc, const Bytes &d, const Bytes &e)
{
    std::ostringstream o;
    Writer w(o, plain(cc));
    add(w, C, e, A);
    Node n = add(w, D, d, B);
    if (!(w.FindNode(D) == n) || w.FindNode(D).page_key != B)
        return Node();
    if (w.FindNode(E).IsValid() || w.FindNode(B).IsValid())
        return Node();
    w.ChangeNodePage(D, C);
    return w.FindNode(D);
}
Node rhs_found(const CopcConfig &cc, const Bytes &d, const Bytes &e)
{
    std::ostringstream o;
    CopcFile f(o, plain(cc));
    Entry y = f.raw(C, e, 7);
    Entry x = f.raw(D, d, 7);
    f.chunks();
    f.page(ROOT, {f.page(A, {y, f.page(C, {x})})});
    f.finish();
    return Node(x, C);
}
