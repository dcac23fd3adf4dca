// The bounds of a key, and the predicates built on them
#include "spec.hpp"
#include <copc-lib/hierarchy/key.hpp>
#include <copc-lib/las/header.hpp>
using namespace copc;
using las::LasHeader;
typedef VoxelKey K;

static double side(const LasHeader &h, const K &k) { return h.Span() / std::pow(2, k.d); }
static Box cube(const K &k, const LasHeader &h)
{
    Box b;
    double s = side(h, k);
    b.x_min = s * k.x + h.min.x;
    b.y_min = s * k.y + h.min.y;
    b.z_min = s * k.z + h.min.z;
    b.x_max = b.x_min + s;
    b.y_max = b.y_min + s;
    b.z_max = b.z_min + s;
    return b;
}
double lhs_span(const LasHeader &h) { return h.Span(); }
double rhs_span(const LasHeader &h)
{
    return std::max({h.max.x - h.min.x, h.max.y - h.min.y, h.max.z - h.min.z});
}
Box lhs_bounds(const LasHeader &h) { return h.Bounds(); }
Box rhs_bounds(const LasHeader &h) { return Box(h.min, h.max); }
Box lhs_box(const K &k, const LasHeader &h) { return Box(k, h); }
Box rhs_box(const K &k, const LasHeader &h) { return cube(k, h); }
bool lhs_intersects(const K &k, const LasHeader &h, const Box &b) { return k.Intersects(h, b); }
bool rhs_intersects(const K &k, const LasHeader &h, const Box &b) { return cube(k, h).Intersects(b); }
bool lhs_containsbox(const K &k, const LasHeader &h, const Box &b) { return k.Contains(h, b); }
bool rhs_containsbox(const K &k, const LasHeader &h, const Box &b) { return cube(k, h).Contains(b); }
bool lhs_containspoint(const K &k, const LasHeader &h, const Vector3 &p) { return k.Contains(h, p); }
bool rhs_containspoint(const K &k, const LasHeader &h, const Vector3 &p) { return cube(k, h).Contains(p); }
bool lhs_within(const K &k, const LasHeader &h, const Box &b) { return k.Within(h, b); }
bool rhs_within(const K &k, const LasHeader &h, const Box &b) { return b.Contains(cube(k, h)); }
bool lhs_crosses(const K &k, const LasHeader &h, const Box &b) { return k.Crosses(h, b); }
bool rhs_crosses(const K &k, const LasHeader &h, const Box &b)
{
    return b.Intersects(cube(k, h)) && !b.Contains(cube(k, h));
}
