#pragma once
#include "spec.hpp"
#include <copc-lib/las/point.hpp>
#include <copc-lib/las/points.hpp>
namespace spec
{
// the value of every dimension a LAS 1.4 point record can carry
struct PV
{
    double x, y, z;
    uint16_t intensity;
    uint8_t returns, flags, cls;
    int16_t angle;
    uint8_t user;
    uint16_t source;
    double gps;
    uint16_t red, green, blue, nir;
    std::vector<uint8_t> eb;
};
inline bool rgb(int8_t f) { return f == 7 || f == 8; }
inline bool nir(int8_t f) { return f == 8; }
inline bool fmt_ok(int8_t f) { return f >= 6 && f <= 8; }
inline uint32_t base_size(int8_t f) { return f == 6 ? 30u : f == 7 ? 36u : 38u; }
inline void fill(copc::las::Point &p, int8_t f, const PV &v)
{
    p.X(v.x);
    p.Y(v.y);
    p.Z(v.z);
    p.Intensity(v.intensity);
    p.ReturnsBitField(v.returns);
    p.FlagsBitField(v.flags);
    p.Classification(v.cls);
    p.ScanAngle(v.angle);
    p.UserData(v.user);
    p.PointSourceId(v.source);
    p.GPSTime(v.gps);
    if (rgb(f))
    {
        p.Red(v.red);
        p.Green(v.green);
        p.Blue(v.blue);
    }
    if (nir(f))
        p.Nir(v.nir);
    p.ExtraBytes(v.eb);
}
inline PV view(const copc::las::Point &p)
{
    PV v{};
    v.x = p.X();
    v.y = p.Y();
    v.z = p.Z();
    v.intensity = p.Intensity();
    v.returns = p.ReturnsBitField();
    v.flags = p.FlagsBitField();
    v.cls = p.Classification();
    v.angle = p.ScanAngle();
    v.user = p.UserData();
    v.source = p.PointSourceId();
    v.gps = p.GPSTime();
    if (p.HasRgb())
    {
        v.red = p.Red();
        v.green = p.Green();
        v.blue = p.Blue();
    }
    if (p.HasNir())
        v.nir = p.Nir();
    v.eb = p.ExtraBytes();
    return v;
}
} // namespace spec
