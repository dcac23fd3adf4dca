// Box predicates are the closed interval relations on all three axes
#include "spec.hpp"
#include <copc-lib/geometry/box.hpp>
using namespace copc;

static const double MAX = std::numeric_limits<double>::max();
struct B
{
    double a, b, c, d, e, f;
};
static B see(const Box &b) { return B{b.x_min, b.y_min, b.z_min, b.x_max, b.y_max, b.z_max}; }
static B need(double a, double b, double c, double d, double e, double f)
{
    if (d < a || e < b || f < c)
        throw std::runtime_error("minimum above maximum");
    return B{a, b, c, d, e, f};
}
B lhs_make(double a, double b, double c, double d, double e, double f) { return see(Box(a, b, c, d, e, f)); }
B rhs_make(double a, double b, double c, double d, double e, double f) { return need(a, b, c, d, e, f); }
B lhs_make2d(double a, double b, double d, double e) { return see(Box(a, b, d, e)); }
B rhs_make2d(double a, double b, double d, double e) { return need(a, b, -MAX, d, e, MAX); }
B lhs_makevec(const Vector3 &a, const Vector3 &b) { return see(Box(a, b)); }
B rhs_makevec(const Vector3 &a, const Vector3 &b) { return need(a.x, a.y, a.z, b.x, b.y, b.z); }
B lhs_makelist(const std::vector<double> &v) { return see(Box(v)); }
B rhs_makelist(const std::vector<double> &v)
{
    if (v.size() == 4)
        return need(v[0], v[1], -MAX, v[2], v[3], MAX);
    if (v.size() == 6)
        return need(v[0], v[1], v[2], v[3], v[4], v[5]);
    throw std::runtime_error("four or six numbers");
}
B lhs_empty() { return see(Box::EmptyBox()); }
B rhs_empty() { return B{0, 0, 0, 0, 0, 0}; }
B lhs_max() { return see(Box::MaxBox()); }
B rhs_max() { return B{-MAX, -MAX, -MAX, MAX, MAX, MAX}; }
B lhs_copy(const Box &b)
{
    Box c(b);
    return see(c);
}
B rhs_copy(const Box &b) { return see(b); }

// two closed intervals share a point, one covers the other
static bool meet(double a, double b, double c, double d) { return b >= c && a <= d; }
static bool cover(double a, double b, double c, double d) { return a <= c && b >= d; }

bool lhs_intersects(const Box &a, const Box &b) { return a.Intersects(b); }
bool rhs_intersects(const Box &a, const Box &b)
{
    return meet(a.x_min, a.x_max, b.x_min, b.x_max) && meet(a.y_min, a.y_max, b.y_min, b.y_max) &&
           meet(a.z_min, a.z_max, b.z_min, b.z_max);
}
bool lhs_contains(const Box &a, const Box &b) { return a.Contains(b); }
bool rhs_contains(const Box &a, const Box &b)
{
    return cover(a.x_min, a.x_max, b.x_min, b.x_max) && cover(a.y_min, a.y_max, b.y_min, b.y_max) &&
           cover(a.z_min, a.z_max, b.z_min, b.z_max);
}
bool lhs_containspoint(const Box &a, const Vector3 &p) { return a.Contains(p); }
bool rhs_containspoint(const Box &a, const Vector3 &p)
{
    return cover(a.x_min, a.x_max, p.x, p.x) && cover(a.y_min, a.y_max, p.y, p.y) && cover(a.z_min, a.z_max, p.z, p.z);
}
bool lhs_within(const Box &a, const Box &b) { return a.Within(b); }
bool rhs_within(const Box &a, const Box &b) { return b.Contains(a); }
bool lhs_symmetric(const Box &a, const Box &b) { return a.Intersects(b); }
bool rhs_symmetric(const Box &a, const Box &b) { return b.Intersects(a); }
// a point is the box which has it as both corners
bool lhs_pointbox(const Box &a, const Vector3 &p) { return a.Contains(p); }
bool rhs_pointbox(const Box &a, const Vector3 &p)
{
    Box b;
    b.x_min = b.x_max = p.x;
    b.y_min = b.y_max = p.y;
    b.z_min = b.z_max = p.z;
    return a.Contains(b);
}
