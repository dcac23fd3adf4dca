// Bounds validation reports exactly the nodes and points outside the bounds
//@ pure: copc::Reader::GetAllChildrenOfPage copc::Reader::GetPoints
#include "reader.hpp"
using namespace copc;
using namespace spec;
// a header whose bounds are a box
static void bounded(CopcIn &r)
{
    las::LasHeader h = r.CopcConfig().LasHeader();
    assume(h.min.x <= h.max.x && h.min.y <= h.max.y && h.min.z <= h.max.z);
}
static std::vector<Node> all(CopcIn &r) { return r.GetAllChildrenOfPage(VoxelKey::RootKey()); }
// one node and its points
static bool fits(CopcIn &r, const Node &n, const las::LasHeader &h)
{
    Box file = h.Bounds(), box(n.key, h);
    if (!box.Intersects(file))
        return false;
    las::Points ps = r.GetPoints(n);
    bool inside = box.Within(file);
    for (const auto &p : ps)
        if (!p->Within(box) || (!inside && !p->Within(file)))
            return false;
    return true;
}
bool lhs_quick(CopcIn &r)
{
    bounded(r);
    return r.ValidateSpatialBounds(false);
}
bool rhs_quick(CopcIn &r)
{
    bounded(r);
    las::LasHeader h = r.CopcConfig().LasHeader();
    for (const Node &n : all(r))
        if (!fits(r, n, h))
            return false;
    return true;
}
bool lhs_default(CopcIn &r)
{
    bounded(r);
    return r.ValidateSpatialBounds();
}
bool rhs_default(CopcIn &r)
{
    bounded(r);
    return r.ValidateSpatialBounds(false);
}
bool lhs_verbose(CopcIn &r)
{
    bounded(r);
    return r.ValidateSpatialBounds(true);
}
bool rhs_verbose(CopcIn &r)
{
    bounded(r);
    las::LasHeader h = r.CopcConfig().LasHeader();
    for (const Node &n : all(r))
        if (!fits(r, n, h))
            return false;
    return true;
}
