// Spatial queries on files of up to two nodes, whatever they are
//@ pure: copc::Reader::GetAllChildrenOfPage copc::Reader::GetDepthAtResolution copc::Reader::GetPoints copc::Box::Box copc::las::Points::GetWithin
#include "reader.hpp"
using namespace copc;
using namespace spec;
static std::vector<Node> all(CopcIn &r) { return r.GetAllChildrenOfPage(VoxelKey::RootKey()); }
template <int N> void only(CopcIn &r) { assume(all(r).size() == N); }
enum What { inside, touching, any };
template <int N> std::vector<Node> nodes(CopcIn &r, const Box &b, double q, What w)
{
    int d = r.GetDepthAtResolution(q);
    std::vector<Node> a = all(r), out;
    for (int i = 0; i < N; i++)
    {
        if (a[i].key.d > d)
            continue;
        Box box(a[i].key, r.CopcConfig().LasHeader());
        if (w == inside ? box.Within(b) : box.Intersects(b))
            out.push_back(a[i]);
    }
    return out;
}
template <int N> las::Points points(CopcIn &r, const Box &b, double q, What w)
{
    las::LasHeader h = r.CopcConfig().LasHeader();
    las::Points out(h);
    int d = r.GetDepthAtResolution(q);
    std::vector<Node> a = all(r);
    for (int i = 0; i < N; i++)
    {
        if (a[i].key.d > d)
            continue;
        Box box(a[i].key, h);
        if (w == any || box.Within(b))
            out.AddPoints(r.GetPoints(a[i]));
        else if (box.Intersects(b))
            out.AddPoints(r.GetPoints(a[i]).GetWithin(b));
    }
    return out;
}
#define LAW(T, name, N, params, L, R)                                                                                  \
    T lhs_##name##N params                                                                                             \
    {                                                                                                                  \
        only<N>(r);                                                                                                    \
        return L;                                                                                                      \
    }                                                                                                                  \
    T rhs_##name##N params                                                                                             \
    {                                                                                                                  \
        only<N>(r);                                                                                                    \
        return R;                                                                                                      \
    }
#define FILE(N)                                                                                                        \
    LAW(std::vector<Node>, within, N, (CopcIn & r, const Box &b, double q), r.GetNodesWithinBox(b, q), nodes<N>(r, b, q, inside)) \
    LAW(std::vector<Node>, within_all, N, (CopcIn & r, const Box &b), r.GetNodesWithinBox(b), nodes<N>(r, b, 0, inside)) \
    LAW(std::vector<Node>, intersect, N, (CopcIn & r, const Box &b, double q), r.GetNodesIntersectBox(b, q), nodes<N>(r, b, q, touching)) \
    LAW(std::vector<Node>, intersect_all, N, (CopcIn & r, const Box &b), r.GetNodesIntersectBox(b), nodes<N>(r, b, 0, touching)) \
    LAW(las::Points, points, N, (CopcIn & r, const Box &b, double q), r.GetPointsWithinBox(b, q), points<N>(r, b, q, inside)) \
    LAW(las::Points, points_all, N, (CopcIn & r, const Box &b), r.GetPointsWithinBox(b), points<N>(r, b, 0, inside)) \
    LAW(las::Points, every, N, (CopcIn & r, const Box &b, double q), r.GetAllPoints(q), points<N>(r, b, q, any)) \
    LAW(las::Points, every_all, N, (CopcIn & r, const Box &b), r.GetAllPoints(), points<N>(r, b, 0, any))
FILE(0)
FILE(1)
FILE(2)
