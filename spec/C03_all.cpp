// Setting a field of a point changes that field and no other, or is refused and changes nothing
//@ result
#include "point.hpp"
using namespace copc;
using namespace copc::las;
using namespace spec;
struct All
{
    PV v;
    int8_t f;
    uint32_t len;
    bool rgb, nir;
};
static All all(const Point &p) { return {view(p), p.PointFormatId(), p.PointRecordLength(), p.HasRgb(), p.HasNir()}; }
static Point made(int8_t f, const PV &v)
{
    assume(fmt_ok(f) && v.eb.size() <= 60000);
    Point p(f, (uint16_t)v.eb.size());
    fill(p, f, v);
    return p;
}
static uint8_t put(uint8_t old, int shift, int width, unsigned v)
{
    unsigned m = ((1u << width) - 1) << shift;
    return v >= (1u << width) ? old : static_cast<uint8_t>((old & ~m) | (v << shift));
}
#define SETS(name, T, call, change)                                                                                    \
    All lhs_##name(int8_t f, const PV &v, const T &x)                                                                  \
    {                                                                                                                  \
        Point p = made(f, v);                                                                                          \
        try                                                                                                            \
        {                                                                                                              \
            p.call;                                                                                                    \
        }                                                                                                              \
        catch (std::exception &)                                                                                       \
        {                                                                                                              \
        }                                                                                                              \
        return all(p);                                                                                                 \
    }                                                                                                                  \
    All rhs_##name(int8_t f, const PV &v, const T &x)                                                                  \
    {                                                                                                                  \
        Point p = made(f, v);                                                                                          \
        All r = all(p);                                                                                                \
        change;                                                                                                        \
        return r;                                                                                                      \
    }
SETS(returnnumber, uint8_t, ReturnNumber(x), r.v.returns = put(v.returns, 0, 4, x))
SETS(numberofreturns, uint8_t, NumberOfReturns(x), r.v.returns = put(v.returns, 4, 4, x))
SETS(synthetic, bool, Synthetic(x), r.v.flags = put(v.flags, 0, 1, x))
SETS(keypoint, bool, KeyPoint(x), r.v.flags = put(v.flags, 1, 1, x))
SETS(withheld, bool, Withheld(x), r.v.flags = put(v.flags, 2, 1, x))
SETS(overlap, bool, Overlap(x), r.v.flags = put(v.flags, 3, 1, x))
SETS(scannerchannel, uint8_t, ScannerChannel(x), r.v.flags = put(v.flags, 4, 2, x))
SETS(scandirection, bool, ScanDirectionFlag(x), r.v.flags = put(v.flags, 6, 1, x))
SETS(edgeofflightline, bool, EdgeOfFlightLineFlag(x), r.v.flags = put(v.flags, 7, 1, x))
SETS(returns, uint8_t, ReturnsBitField(x), r.v.returns = x)
SETS(flags, uint8_t, FlagsBitField(x), r.v.flags = x)
SETS(x, double, X(x), r.v.x = x)
SETS(y, double, Y(x), r.v.y = x)
SETS(z, double, Z(x), r.v.z = x)
SETS(intensity, uint16_t, Intensity(x), r.v.intensity = x)
SETS(classification, uint8_t, Classification(x), r.v.cls = x)
SETS(angle, int16_t, ScanAngle(x), r.v.angle = x)
SETS(user, uint8_t, UserData(x), r.v.user = x)
SETS(source, uint16_t, PointSourceId(x), r.v.source = x)
SETS(gps, double, GPSTime(x), r.v.gps = x)
SETS(red, uint16_t, Red(x), if (rgb(f)) r.v.red = x)
SETS(green, uint16_t, Green(x), if (rgb(f)) r.v.green = x)
SETS(blue, uint16_t, Blue(x), if (rgb(f)) r.v.blue = x)
SETS(nir, uint16_t, Nir(x), if (nir(f)) r.v.nir = x)
typedef std::vector<uint16_t> Colour;
SETS(rgb, Colour, Rgb(x), if (rgb(f) && x.size() == 3) { r.v.red = x[0]; r.v.green = x[1]; r.v.blue = x[2]; })
typedef std::vector<uint8_t> Bytes;
SETS(extra, Bytes, ExtraBytes(x), if (x.size() == v.eb.size()) r.v.eb = x)
All lhs_colours(int8_t f, const PV &v, uint16_t a, uint16_t b, uint16_t c)
{
    Point p = made(f, v);
    try
    {
        p.Rgb(a, b, c);
    }
    catch (std::exception &)
    {
    }
    return all(p);
}
All rhs_colours(int8_t f, const PV &v, uint16_t a, uint16_t b, uint16_t c)
{
    Point p = made(f, v);
    All r = all(p);
    if (rgb(f))
    {
        r.v.red = a;
        r.v.green = b;
        r.v.blue = c;
    }
    return r;
}
// the angle in degrees is a view of the same field
float lhs_degrees(int8_t f, const PV &v) { return made(f, v).ScanAngleDegrees(); }
float rhs_degrees(int8_t f, const PV &v)
{
    made(f, v);
    return 0.006f * float(v.angle);
}
int16_t lhs_degrees_value(int8_t f, const PV &v, float x)
{
    Point p = made(f, v);
    p.ScanAngleDegrees(x);
    return p.ScanAngle();
}
int16_t rhs_degrees_value(int8_t f, const PV &v, float x)
{
    made(f, v);
    return static_cast<int16_t>(x / 0.006f);
}
All lhs_set_degrees(int8_t f, const PV &v, float x)
{
    Point p = made(f, v);
    p.ScanAngleDegrees(x);
    PV w = v;
    w.angle = p.ScanAngle();
    Point q = made(f, w);
    return all(q);
}
All rhs_set_degrees(int8_t f, const PV &v, float x)
{
    Point p = made(f, v);
    p.ScanAngleDegrees(x);
    return all(p);
}
