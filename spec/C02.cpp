//@ nan
// Coordinate conversion between world values and scaled integers, the same formula everywhere
#include "spec.hpp"
#include <copc-lib/las/header.hpp>
#include <copc-lib/las/points.hpp>
using namespace copc;
using namespace copc::las;

static LasHeader header(const Vector3 &s, const Vector3 &o) { return LasHeader(6, 30, s, o, true); }
// the integer nearest to (v - o) / s, refused when a 32 bit integer cannot hold it (NaN included)
static int32_t raw(double v, double s, double o)
{
    double r = std::round((v - o) / s);
    if (!(r >= -2147483648.0 && r <= 2147483647.0))
        throw std::runtime_error("range");
    return static_cast<int32_t>(r);
}

double lhs_apply(double v, double s, double o) { return ApplyScale(v, s, o); }
double rhs_apply(double v, double s, double o) { return v * s + o; }
double lhs_applyint(int32_t v, double s, double o) { return ApplyScale(v, s, o); }
double rhs_applyint(int32_t v, double s, double o) { return v * s + o; }
int32_t lhs_remove(double v, double s, double o) { return RemoveScale<int32_t>(v, s, o); }
int32_t rhs_remove(double v, double s, double o) { return raw(v, s, o); }

double lhs_applyx(double v, const Vector3 &s, const Vector3 &o) { return header(s, o).ApplyScaleX(v); }
double rhs_applyx(double v, const Vector3 &s, const Vector3 &o) { return v * s.x + o.x; }
double lhs_applyy(double v, const Vector3 &s, const Vector3 &o) { return header(s, o).ApplyScaleY(v); }
double rhs_applyy(double v, const Vector3 &s, const Vector3 &o) { return v * s.y + o.y; }
double lhs_applyz(double v, const Vector3 &s, const Vector3 &o) { return header(s, o).ApplyScaleZ(v); }
double rhs_applyz(double v, const Vector3 &s, const Vector3 &o) { return v * s.z + o.z; }
int32_t lhs_removex(double v, const Vector3 &s, const Vector3 &o) { return header(s, o).RemoveScaleX(v); }
int32_t rhs_removex(double v, const Vector3 &s, const Vector3 &o) { return raw(v, s.x, o.x); }
int32_t lhs_removey(double v, const Vector3 &s, const Vector3 &o) { return header(s, o).RemoveScaleY(v); }
int32_t rhs_removey(double v, const Vector3 &s, const Vector3 &o) { return raw(v, s.y, o.y); }
int32_t lhs_removez(double v, const Vector3 &s, const Vector3 &o) { return header(s, o).RemoveScaleZ(v); }
int32_t rhs_removez(double v, const Vector3 &s, const Vector3 &o) { return raw(v, s.z, o.z); }

Vector3 lhs_applyvec(const Vector3 &v, const Vector3 &s, const Vector3 &o) { return header(s, o).ApplyScale(v); }
Vector3 rhs_applyvec(const Vector3 &v, const Vector3 &s, const Vector3 &o)
{
    return Vector3(v.x * s.x + o.x, v.y * s.y + o.y, v.z * s.z + o.z);
}
// the inverse undoes ApplyScale: offset first, then scale
Vector3 lhs_invvec(const Vector3 &v, const Vector3 &s, const Vector3 &o) { return header(s, o).ApplyInverseScale(v); }
Vector3 rhs_invvec(const Vector3 &v, const Vector3 &s, const Vector3 &o)
{
    return Vector3((v.x - o.x) / s.x, (v.y - o.y) / s.y, (v.z - o.z) / s.z);
}
Vector3 lhs_scaleof(const Vector3 &s, const Vector3 &o) { return header(s, o).Scale(); }
Vector3 rhs_scaleof(const Vector3 &s, const Vector3 &o) { return s; }
Vector3 lhs_offsetof(const Vector3 &s, const Vector3 &o) { return header(s, o).Offset(); }
Vector3 rhs_offsetof(const Vector3 &s, const Vector3 &o) { return o; }

// what a point writes for its coordinates, and what a record means when it is read
void lhs_packxyz(std::ostream &out, double x, double y, double z, const Vector3 &s, const Vector3 &o)
{
    std::stringstream b;
    Point p(6, 0);
    p.X(x);
    p.Y(y);
    p.Z(z);
    p.Pack(b, s, o);
    out << b.str().substr(0, 12);
}
void rhs_packxyz(std::ostream &out, double x, double y, double z, const Vector3 &s, const Vector3 &o)
{
    spec::put<int32_t>(out, raw(x, s.x, o.x));
    spec::put<int32_t>(out, raw(y, s.y, o.y));
    spec::put<int32_t>(out, raw(z, s.z, o.z));
}
// Points::Pack with a header uses the scale and offset of that header
std::vector<char> lhs_packheader(const Points &p, const Vector3 &s, const Vector3 &o) { return p.Pack(header(s, o)); }
std::vector<char> rhs_packheader(const Points &p, const Vector3 &s, const Vector3 &o) { return p.Pack(s, o); }
