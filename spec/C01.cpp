// Point record layout
#include "point.hpp"
using namespace copc;
using namespace copc::las;
using namespace spec;

static int32_t raw(double v, double s, double o)
{
    double r = std::round((v - o) / s);
    if (!(r >= -2147483648.0 && r <= 2147483647.0))
        throw std::runtime_error("range");
    return static_cast<int32_t>(r);
}

void lhs_pack(std::ostream &o, int8_t f, const PV &v, const Vector3 &scale, const Vector3 &offset)
{
    assume(v.eb.size() <= 65000);
    Point p(f, v.eb.size());
    fill(p, f, v);
    p.Pack(o, scale, offset);
}
void rhs_pack(std::ostream &o, int8_t f, const PV &v, const Vector3 &scale, const Vector3 &offset)
{
    assume(v.eb.size() <= 65000);
    if (!fmt_ok(f))
        throw std::runtime_error("format");
    put<int32_t>(o, raw(v.x, scale.x, offset.x));
    put<int32_t>(o, raw(v.y, scale.y, offset.y));
    put<int32_t>(o, raw(v.z, scale.z, offset.z));
    put<uint16_t>(o, v.intensity);
    put<uint8_t>(o, v.returns);
    put<uint8_t>(o, v.flags);
    put<uint8_t>(o, v.cls);
    put<uint8_t>(o, v.user);
    put<int16_t>(o, v.angle);
    put<uint16_t>(o, v.source);
    put<double>(o, v.gps);
    if (f == 7 || f == 8)
    {
        put<uint16_t>(o, v.red);
        put<uint16_t>(o, v.green);
        put<uint16_t>(o, v.blue);
    }
    if (f == 8)
        put<uint16_t>(o, v.nir);
    for (size_t i = 0; i < v.eb.size(); ++i)
        put<uint8_t>(o, v.eb[i]);
}

PV lhs_unpack(std::istream &in, int8_t f, uint16_t n, const Vector3 &scale, const Vector3 &offset)
{
    assume(n <= 65000);
    auto p = Point::Unpack(in, f, scale, offset, n);
    return view(*p);
}
PV rhs_unpack(std::istream &in, int8_t f, uint16_t n, const Vector3 &scale, const Vector3 &offset)
{
    assume(n <= 65000);
    if (!fmt_ok(f))
        throw std::runtime_error("format");
    PV v{};
    v.x = get<int32_t>(in) * scale.x + offset.x;
    v.y = get<int32_t>(in) * scale.y + offset.y;
    v.z = get<int32_t>(in) * scale.z + offset.z;
    v.intensity = get<uint16_t>(in);
    v.returns = get<uint8_t>(in);
    v.flags = get<uint8_t>(in);
    v.cls = get<uint8_t>(in);
    v.user = get<uint8_t>(in);
    v.angle = get<int16_t>(in);
    v.source = get<uint16_t>(in);
    v.gps = get<double>(in);
    if (f == 7 || f == 8)
    {
        v.red = get<uint16_t>(in);
        v.green = get<uint16_t>(in);
        v.blue = get<uint16_t>(in);
    }
    if (f == 8)
        v.nir = get<uint16_t>(in);
    for (uint32_t i = 0; i < n; ++i)
        v.eb.push_back(get<uint8_t>(in));
    return v;
}
// instances of fixed size, which decide whatever way the loops are written
#define UNPACK(N, F)                                                                                                   \
    PV lhs_unpack##N(std::istream &in, const Vector3 &scale, const Vector3 &offset)                                    \
    {                                                                                                                  \
        return lhs_unpack(in, F, N, scale, offset);                                                                    \
    }                                                                                                                  \
    PV rhs_unpack##N(std::istream &in, const Vector3 &scale, const Vector3 &offset)                                    \
    {                                                                                                                  \
        return rhs_unpack(in, F, N, scale, offset);                                                                    \
    }                                                                                                                  \
    void lhs_pack##N(std::ostream &o, PV v, const Vector3 &scale, const Vector3 &offset)                               \
    {                                                                                                                  \
        assume(v.eb.size() == N);                                                                                      \
        lhs_pack(o, F, v, scale, offset);                                                                              \
    }                                                                                                                  \
    void rhs_pack##N(std::ostream &o, PV v, const Vector3 &scale, const Vector3 &offset)                               \
    {                                                                                                                  \
        assume(v.eb.size() == N);                                                                                      \
        rhs_pack(o, F, v, scale, offset);                                                                              \
    }
UNPACK(0, 7)
UNPACK(1, 6)
UNPACK(4, 8)
UNPACK(258, 6)

// the record length announced for a point is the number of bytes its record occupies
uint32_t lhs_length(int8_t f, uint16_t n)
{
    assume(n <= 65000);
    Point p(f, n);
    return p.PointRecordLength();
}
uint32_t rhs_length(int8_t f, uint16_t n)
{
    assume(n <= 65000);
    if (!fmt_ok(f))
        throw std::runtime_error("format");
    return base_size(f) + n;
}
uint32_t lhs_size(int8_t f, uint16_t n)
{
    assume(n <= 65000);
    return PointByteSize(f, n);
}
uint32_t rhs_size(int8_t f, uint16_t n) { return rhs_length(f, n); }
uint32_t lhs_base(int8_t f) { return PointBaseByteSize(f); }
uint32_t rhs_base(int8_t f)
{
    if (!fmt_ok(f))
        throw std::runtime_error("format");
    return base_size(f);
}
uint32_t lhs_dims(int8_t f) { return PointBaseNumberDimensions(f); }
uint32_t rhs_dims(int8_t f)
{
    if (!fmt_ok(f))
        throw std::runtime_error("format");
    return f == 6 ? 14u : f == 7 ? 17u : 18u;
}
uint32_t lhs_ebsize(int8_t f, uint32_t len)
{
    assume(len >= 38 && len <= 65535);
    return EbByteSize(f, len);
}
uint32_t rhs_ebsize(int8_t f, uint32_t len)
{
    assume(len >= 38 && len <= 65535);
    if (!fmt_ok(f))
        throw std::runtime_error("format");
    return len - base_size(f);
}
uint32_t lhs_pointeb(int8_t f, uint16_t n)
{
    assume(n <= 65000);
    Point p(f, n);
    return p.EbByteSize();
}
uint32_t rhs_pointeb(int8_t f, uint16_t n)
{
    assume(n <= 65000);
    if (!fmt_ok(f))
        throw std::runtime_error("format");
    return n;
}
