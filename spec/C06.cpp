// Equality means equal content, and copies are independent of their source
#include "point.hpp"
#include <copc-lib/copc/extents.hpp>
#include <copc-lib/geometry/vector3.hpp>
#include <copc-lib/hierarchy/key.hpp>
#include <copc-lib/hierarchy/node.hpp>
#include <copc-lib/las/vlr.hpp>
using namespace copc;
using namespace copc::las;
using namespace spec;

static bool near(double a, double b) { return std::fabs(a - b) < 0.000001; }
static Point made(int8_t f, const PV &v)
{
    assume(v.eb.size() <= 60000);
    Point p(f, (uint16_t)v.eb.size());
    fill(p, f, v);
    return p;
}
static bool alike(int8_t f, const PV &a, int8_t g, const PV &b)
{
    if (f != g || a.eb != b.eb)
        return false;
    if (!near(a.x, b.x) || !near(a.y, b.y) || !near(a.z, b.z))
        return false;
    if (a.intensity != b.intensity || a.returns != b.returns || a.flags != b.flags || a.cls != b.cls)
        return false;
    if (a.angle != b.angle || a.user != b.user || a.source != b.source || a.gps != b.gps)
        return false;
    if (rgb(f) && (a.red != b.red || a.green != b.green || a.blue != b.blue))
        return false;
    return !nir(f) || a.nir == b.nir;
}
bool lhs_pointeq(int8_t f, const PV &a, int8_t g, const PV &b) { return made(f, a) == made(g, b); }
bool rhs_pointeq(int8_t f, const PV &a, int8_t g, const PV &b)
{
    made(f, a);
    made(g, b);
    return alike(f, a, g, b);
}
bool lhs_pointne(int8_t f, const PV &a, int8_t g, const PV &b) { return made(f, a) != made(g, b); }
bool rhs_pointne(int8_t f, const PV &a, int8_t g, const PV &b)
{
    made(f, a);
    made(g, b);
    return !alike(f, a, g, b);
}
struct Obs
{
    PV v;
    int8_t f;
    uint32_t len;
    uint16_t eb;
    bool rgb, nir;
};
static Obs obs(const Point &p) { return Obs{view(p), p.PointFormatId(), p.PointRecordLength(), p.EbByteSize(), p.HasRgb(), p.HasNir()}; }
// a copy equals its source ...
Obs lhs_copy(int8_t f, const PV &v)
{
    Point a = made(f, v);
    Point b(a);
    return obs(b);
}
Obs rhs_copy(int8_t f, const PV &v) { return obs(made(f, v)); }
// ... and is another object: changing it leaves the source alone
Obs lhs_copyapart(int8_t f, const PV &v, const PV &w)
{
    Point a = made(f, v);
    Point b(a);
    fill(b, f, w);
    return obs(a);
}
Obs rhs_copyapart(int8_t f, const PV &v, const PV &w)
{
    Point a = made(f, v);
    Point b = made(f, v);
    fill(b, f, w);
    return obs(a);
}
Obs lhs_sourceapart(int8_t f, const PV &v, const PV &w)
{
    Point a = made(f, v);
    Point b(a);
    fill(a, f, w);
    return obs(b);
}
Obs rhs_sourceapart(int8_t f, const PV &v, const PV &w)
{
    Point a = made(f, v);
    Point b = made(f, v);
    fill(a, f, w);
    return obs(b);
}
Obs lhs_assign(int8_t f, const PV &v, int8_t g, const PV &w)
{
    Point a = made(f, v);
    Point b = made(g, w);
    b = a;
    return obs(b);
}
Obs rhs_assign(int8_t f, const PV &v, int8_t g, const PV &w)
{
    made(f, v);
    made(g, w);
    return obs(made(f, v));
}

// entries: nodes, pages, keys
bool lhs_nodeeq(const Entry &a, const Entry &b, const VoxelKey &p, const VoxelKey &q) { return Node(a, p) == Node(b, q); }
bool rhs_nodeeq(const Entry &a, const Entry &b, const VoxelKey &p, const VoxelKey &q)
{
    return a.key.d == b.key.d && a.key.x == b.key.x && a.key.y == b.key.y && a.key.z == b.key.z && a.offset == b.offset &&
           a.byte_size == b.byte_size && a.point_count == b.point_count;
}

// vectors
bool lhs_veq(const Vector3 &a, const Vector3 &b) { return a == b; }
bool rhs_veq(const Vector3 &a, const Vector3 &b) { return a.x == b.x && a.y == b.y && a.z == b.z; }
bool lhs_vne(const Vector3 &a, const Vector3 &b) { return a != b; }
bool rhs_vne(const Vector3 &a, const Vector3 &b) { return !(a.x == b.x && a.y == b.y && a.z == b.z); }

// extents
bool lhs_exteq(double a, double b, double m, double v, double c, double d, double n, double w)
{
    return CopcExtent(a, b, m, v) == CopcExtent(c, d, n, w);
}
bool rhs_exteq(double a, double b, double m, double v, double c, double d, double n, double w)
{
    CopcExtent(a, b, m, v);
    CopcExtent(c, d, n, w);
    return a == c && b == d && m == n && v == w;
}
bool lhs_extne(double a, double b, double c, double d) { return CopcExtent(a, b) != CopcExtent(c, d); }
bool rhs_extne(double a, double b, double c, double d)
{
    CopcExtent(a, b);
    CopcExtent(c, d);
    return !(a == c && b == d);
}

// extra byte fields
typedef EbVlr::ebfield F;
static bool three(const double *a, const double *b) { return std::memcmp(a, b, 24) == 0; }
bool lhs_fieldeq(const F &a, const F &b) { return a == b; }
bool rhs_fieldeq(const F &a, const F &b)
{
    return std::memcmp(a.reserved, b.reserved, 2) == 0 && a.data_type == b.data_type && a.options == b.options && a.name == b.name &&
           three(a.no_data, b.no_data) && three(a.minval, b.minval) && three(a.maxval, b.maxval) && three(a.scale, b.scale) &&
           three(a.offset, b.offset) && a.description == b.description;
}
