// Resolution and depth correspond
//@ pure: copc::Reader::GetAllChildrenOfPage
#include "reader.hpp"
using namespace copc;
using namespace spec;
static std::vector<Node> all(CopcIn &r) { return r.GetAllChildrenOfPage(VoxelKey::RootKey()); }
static int deepest(CopcIn &r)
{
    int m = -1;
    for (const Node &n : all(r))
        m = std::max(m, n.key.d);
    return m;
}
std::vector<Node> lhs_nodes(CopcIn &r) { return r.GetAllNodes(); }
std::vector<Node> rhs_nodes(CopcIn &r) { return all(r); }
int lhs_deepest(CopcIn &r) { return r.GetMaxDepth(); }
int rhs_deepest(CopcIn &r) { return deepest(r); }
int lhs_zero(CopcIn &r, double q)
{
    assume(q <= 0);
    return r.GetDepthAtResolution(q);
}
int rhs_zero(CopcIn &r, double q)
{
    assume(q <= 0);
    return deepest(r);
}
int lhs_depth(CopcIn &r, double q) { return r.GetDepthAtResolution(q); }
int rhs_depth(CopcIn &r, double q)
{
    int m = deepest(r);
    if (q <= 0)
        return m;
    double s = r.CopcConfig().CopcInfo().spacing;
    for (int i = 0; i <= m; i++)
    {
        if (s <= q)
            return i;
        s = s / 2;
    }
    return m;
}
// a file whose only node has depth D: every depth, and every resolution in between
template <int D> void one(CopcIn &r)
{
    assume(all(r).size() == 1);
    assume(all(r)[0].key.d == D);
}
template <int D> int few_l(CopcIn &r, double q)
{
    one<D>(r);
    return r.GetDepthAtResolution(q);
}
template <int D> int few_r(CopcIn &r, double q)
{
    one<D>(r);
    if (q <= 0)
        return D;
    double s = r.CopcConfig().CopcInfo().spacing;
    for (int i = 0; i < D; i++)
        if (std::ldexp(s, -i) <= q)
            return i;
    return D;
}
int lhs_empty(CopcIn &r, double q)
{
    assume(all(r).empty());
    return r.GetDepthAtResolution(q);
}
int rhs_empty(CopcIn &r, double q)
{
    assume(all(r).empty());
    return -1;
}
#define FEW(D)                                                                                                         \
    int lhs_few##D(CopcIn &r, double q) { return few_l<D>(r, q); }                                                     \
    int rhs_few##D(CopcIn &r, double q) { return few_r<D>(r, q); }
FEW(0)
FEW(1)
FEW(2)
FEW(4)
FEW(9)
std::vector<Node> lhs_at(CopcIn &r, double q) { return r.GetNodesAtResolution(q); }
std::vector<Node> rhs_at(CopcIn &r, double q)
{
    int d = r.GetDepthAtResolution(q);
    std::vector<Node> out;
    for (const Node &n : all(r))
        if (n.key.d == d)
            out.push_back(n);
    return out;
}
std::vector<Node> lhs_upto(CopcIn &r, double q) { return r.GetNodesWithinResolution(q); }
std::vector<Node> rhs_upto(CopcIn &r, double q)
{
    int d = r.GetDepthAtResolution(q);
    std::vector<Node> out;
    for (const Node &n : all(r))
        if (n.key.d <= d)
            out.push_back(n);
    return out;
}
