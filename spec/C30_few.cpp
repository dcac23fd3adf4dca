// Bounds validation of hierarchies with a given small number of nodes and points
//@ result
//@ pure: copc::Reader::GetAllChildrenOfPage copc::Reader::GetPoints
#include "reader.hpp"
using namespace copc;
using namespace spec;
// a header whose bounds are a box
static void bounded(CopcIn &r)
{
    las::LasHeader h = r.CopcConfig().LasHeader();
    assume(h.min.x <= h.max.x && h.min.y <= h.max.y && h.min.z <= h.max.z);
}
static bool inside(double lo, double v, double hi) { return lo <= v && v <= hi; }
static bool in(const las::Point &p, const Box &b)
{
    return inside(b.x_min, p.X(), b.x_max) && inside(b.y_min, p.Y(), b.y_max) && inside(b.z_min, p.Z(), b.z_max);
}
template <int N, int P> bool fits(const std::vector<Node> &all, CopcIn &r)
{
    las::LasHeader h = r.CopcConfig().LasHeader();
    Box file = h.Bounds();
    bool ok = true;
    for (int i = 0; i < N; ++i)
    {
        Box b(all[i].key, h);
        if (!b.Intersects(file))
            ok = false;
        else
        {
            las::Points ps = r.GetPoints(all[i]);
            for (int k = 0; k < P; ++k)
                ok = ok && in(*ps[k], b) && (b.Within(file) || in(*ps[k], file));
        }
    }
    return ok;
}
template <int N, int P> std::vector<Node> sized(CopcIn &r)
{
    bounded(r);
    std::vector<Node> all = r.GetAllChildrenOfPage(VoxelKey::RootKey());
    assume(all.size() == N);
    for (int i = 0; i < N; ++i)
        assume(r.GetPoints(all[i]).Size() == P);
    return all;
}
#define FEW(n, p)                                                                                                      \
    bool lhs_quick##n##_##p(CopcIn &r)                                                                                 \
    {                                                                                                                  \
        sized<n, p>(r);                                                                                                \
        return r.ValidateSpatialBounds(false);                                                                         \
    }                                                                                                                  \
    bool rhs_quick##n##_##p(CopcIn &r) { return fits<n, p>(sized<n, p>(r), r); }                                       \
    bool lhs_verbose##n##_##p(CopcIn &r)                                                                               \
    {                                                                                                                  \
        sized<n, p>(r);                                                                                                \
        return r.ValidateSpatialBounds(true);                                                                          \
    }                                                                                                                  \
    bool rhs_verbose##n##_##p(CopcIn &r) { return fits<n, p>(sized<n, p>(r), r); }
FEW(0, 0)
FEW(1, 0)
FEW(1, 1)
FEW(1, 2)
FEW(2, 1)
