// The nodes chosen for a resolution are those of the depth found for it
//@ pure: copc::Reader::GetAllChildrenOfPage copc::Reader::GetDepthAtResolution
#include "reader.hpp"
using namespace copc;
using namespace spec;
static std::vector<Node> all(CopcIn &r) { return r.GetAllChildrenOfPage(VoxelKey::RootKey()); }
// files with up to two nodes, whatever their depths
template <int N> void only(CopcIn &r) { assume(all(r).size() == N); }
template <int N> std::vector<Node> pick(CopcIn &r, double q, bool shallower)
{
    int d = r.GetDepthAtResolution(q);
    std::vector<Node> a = all(r), out;
    for (int i = 0; i < N; i++)
        if (a[i].key.d == d || (shallower && a[i].key.d < d))
            out.push_back(a[i]);
    return out;
}
#define NODES(N)                                                                                                       \
    std::vector<Node> lhs_at##N(CopcIn &r, double q)                                                                   \
    {                                                                                                                  \
        only<N>(r);                                                                                                    \
        return r.GetNodesAtResolution(q);                                                                              \
    }                                                                                                                  \
    std::vector<Node> rhs_at##N(CopcIn &r, double q)                                                                   \
    {                                                                                                                  \
        only<N>(r);                                                                                                    \
        return pick<N>(r, q, false);                                                                                   \
    }                                                                                                                  \
    std::vector<Node> lhs_upto##N(CopcIn &r, double q)                                                                 \
    {                                                                                                                  \
        only<N>(r);                                                                                                    \
        return r.GetNodesWithinResolution(q);                                                                          \
    }                                                                                                                  \
    std::vector<Node> rhs_upto##N(CopcIn &r, double q)                                                                 \
    {                                                                                                                  \
        only<N>(r);                                                                                                    \
        return pick<N>(r, q, true);                                                                                    \
    }
NODES(0)
NODES(1)
NODES(2)
