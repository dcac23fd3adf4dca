// Spatial queries return exactly the matching nodes and points
//@ pure: copc::Reader::GetAllChildrenOfPage copc::Reader::GetDepthAtResolution copc::Reader::GetPoints
#include "reader.hpp"
using namespace copc;
using namespace spec;
static std::vector<Node> all(CopcIn &r) { return r.GetAllChildrenOfPage(VoxelKey::RootKey()); }
std::vector<Node> lhs_within(CopcIn &r, const Box &b, double q) { return r.GetNodesWithinBox(b, q); }
std::vector<Node> rhs_within(CopcIn &r, const Box &b, double q)
{
    int d = r.GetDepthAtResolution(q);
    std::vector<Node> out;
    for (const Node &n : all(r))
        if (n.key.d <= d && Box(n.key, r.CopcConfig().LasHeader()).Within(b))
            out.push_back(n);
    return out;
}
std::vector<Node> lhs_intersect(CopcIn &r, const Box &b, double q) { return r.GetNodesIntersectBox(b, q); }
std::vector<Node> rhs_intersect(CopcIn &r, const Box &b, double q)
{
    int d = r.GetDepthAtResolution(q);
    std::vector<Node> out;
    for (const Node &n : all(r))
        if (n.key.d <= d && Box(n.key, r.CopcConfig().LasHeader()).Intersects(b))
            out.push_back(n);
    return out;
}
std::vector<Node> lhs_within_all(CopcIn &r, const Box &b) { return r.GetNodesWithinBox(b); }
std::vector<Node> rhs_within_all(CopcIn &r, const Box &b) { return r.GetNodesWithinBox(b, 0); }
std::vector<Node> lhs_intersect_all(CopcIn &r, const Box &b) { return r.GetNodesIntersectBox(b); }
std::vector<Node> rhs_intersect_all(CopcIn &r, const Box &b) { return r.GetNodesIntersectBox(b, 0); }
las::Points lhs_points(CopcIn &r, const Box &b, double q) { return r.GetPointsWithinBox(b, q); }
las::Points rhs_points(CopcIn &r, const Box &b, double q)
{
    las::LasHeader h = r.CopcConfig().LasHeader();
    las::Points out(h);
    int d = r.GetDepthAtResolution(q);
    for (const Node &n : all(r))
    {
        if (n.key.d > d)
            continue;
        // (the predicates of a key are those of its bounds)
        if (n.key.Within(h, b))
            out.AddPoints(r.GetPoints(n));
        else if (n.key.Intersects(h, b))
            out.AddPoints(r.GetPoints(n).GetWithin(b));
    }
    return out;
}
las::Points lhs_points_all(CopcIn &r, const Box &b) { return r.GetPointsWithinBox(b); }
las::Points rhs_points_all(CopcIn &r, const Box &b) { return r.GetPointsWithinBox(b, 0); }
las::Points lhs_every(CopcIn &r, double q) { return r.GetAllPoints(q); }
las::Points rhs_every(CopcIn &r, double q)
{
    las::Points out(r.CopcConfig().LasHeader());
    int d = r.GetDepthAtResolution(q);
    for (const Node &n : all(r))
        if (n.key.d <= d)
            out.AddPoints(r.GetPoints(n));
    return out;
}
