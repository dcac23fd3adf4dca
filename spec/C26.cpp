// Vector arithmetic is componentwise and keeps the axes apart
#include "spec.hpp"
#include <copc-lib/geometry/vector3.hpp>
using namespace copc;
typedef Vector3 V;

V lhs_default() { return V(); }
V rhs_default()
{
    V v(0, 0, 0);
    return v;
}
V lhs_xyz(double x, double y, double z) { return V(x, y, z); }
V rhs_xyz(double x, double y, double z)
{
    V v;
    v.x = x;
    v.y = y;
    v.z = z;
    return v;
}
V lhs_vec(const std::vector<double> &d) { return V(d); }
V rhs_vec(const std::vector<double> &d)
{
    if (d.size() != 3)
        throw std::runtime_error("three numbers");
    return V(d[0], d[1], d[2]);
}
V lhs_copy(const V &a)
{
    V b(a);
    return b;
}
V rhs_copy(const V &a) { return V(a.x, a.y, a.z); }
V lhs_assign(V a, const V &b)
{
    a = b;
    return a;
}
V rhs_assign(V a, const V &b) { return V(b.x, b.y, b.z); }
V lhs_scale() { return V::DefaultScale(); }
V rhs_scale() { return V(0.01, 0.01, 0.01); }
V lhs_offset() { return V::DefaultOffset(); }
V rhs_offset() { return V(0, 0, 0); }

#define OP(name, op)                                                                                                   \
    V lhs_##name##_num(const V &a, double d) { return a op d; }                                                        \
    V rhs_##name##_num(const V &a, double d) { return V(a.x op d, a.y op d, a.z op d); }                               \
    V lhs_##name##_vec(const V &a, const V &b) { return a op b; }                                                      \
    V rhs_##name##_vec(const V &a, const V &b) { return V(a.x op b.x, a.y op b.y, a.z op b.z); }
OP(add, +)
OP(sub, -)
OP(mul, *)
OP(div, /)

bool lhs_eq(const V &a, const V &b) { return a == b; }
bool rhs_eq(const V &a, const V &b) { return a.x == b.x && a.y == b.y && a.z == b.z; }
bool lhs_ne(const V &a, const V &b) { return a != b; }
bool rhs_ne(const V &a, const V &b) { return !(a.x == b.x && a.y == b.y && a.z == b.z); }
std::string lhs_print(const V &a) { return a.ToString(); }
std::string rhs_print(const V &a)
{
    std::stringstream s;
    s.precision(17);
    s << "(" << a.x << ", " << a.y << ", " << a.z << ")";
    return s.str();
}
