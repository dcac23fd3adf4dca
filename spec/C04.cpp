// Colour and near-infrared exist exactly for the formats that store them, and changing the format keeps everything else
#include "point.hpp"
using namespace copc;
using namespace copc::las;
using namespace spec;

static Point make(int8_t f, uint16_t n, const PV &v)
{
    assume(n <= 65000 && v.eb.size() == n);
    if (!fmt_ok(f))
        throw std::runtime_error("format");
    Point p(f, n);
    fill(p, f, v);
    return p;
}
static void need(bool c)
{
    if (!c)
        throw std::runtime_error("not in this format");
}
bool lhs_hasrgb(int8_t f) { return Point(f).HasRgb(); }
bool rhs_hasrgb(int8_t f)
{
    need(fmt_ok(f));
    return f == 7 || f == 8;
}
bool lhs_hasnir(int8_t f) { return Point(f).HasNir(); }
bool rhs_hasnir(int8_t f)
{
    need(fmt_ok(f));
    return f == 8;
}
bool lhs_fmtrgb(uint8_t f) { return FormatHasRgb(f); }
bool rhs_fmtrgb(uint8_t f)
{
    need(f >= 6 && f <= 8);
    return f >= 7;
}
bool lhs_fmtnir(uint8_t f) { return FormatHasNir(f); }
bool rhs_fmtnir(uint8_t f)
{
    need(f >= 6 && f <= 8);
    return f == 8;
}
#define GET(name, acc, ok)                                                                                             \
    uint16_t lhs_get_##name(int8_t f, uint16_t n, const PV &v) { return make(f, n, v).acc(); }                         \
    uint16_t rhs_get_##name(int8_t f, uint16_t n, const PV &v)                                                         \
    {                                                                                                                  \
        make(f, n, v);                                                                                                 \
        need(ok(f));                                                                                                   \
        return v.name;                                                                                                 \
    }                                                                                                                  \
    PV lhs_set_##name(int8_t f, uint16_t n, const PV &v, uint16_t c)                                                   \
    {                                                                                                                  \
        Point p = make(f, n, v);                                                                                       \
        p.acc(c);                                                                                                      \
        return view(p);                                                                                                \
    }                                                                                                                  \
    PV rhs_set_##name(int8_t f, uint16_t n, const PV &v, uint16_t c)                                                   \
    {                                                                                                                  \
        need(ok(f));                                                                                                   \
        PV w = v;                                                                                                      \
        w.name = c;                                                                                                    \
        return view(make(f, n, w));                                                                                    \
    }
GET(red, Red, rgb)
GET(green, Green, rgb)
GET(blue, Blue, rgb)
GET(nir, Nir, nir)

PV lhs_set_three(int8_t f, uint16_t n, const PV &v, uint16_t a, uint16_t b, uint16_t c)
{
    Point p = make(f, n, v);
    p.Rgb(a, b, c);
    return view(p);
}
PV rhs_set_three(int8_t f, uint16_t n, const PV &v, uint16_t a, uint16_t b, uint16_t c)
{
    need(rgb(f));
    PV w = v;
    w.red = a;
    w.green = b;
    w.blue = c;
    return view(make(f, n, w));
}
PV lhs_set_vec(int8_t f, uint16_t n, const PV &v, const std::vector<uint16_t> &c)
{
    Point p = make(f, n, v);
    p.Rgb(c);
    return view(p);
}
PV rhs_set_vec(int8_t f, uint16_t n, const PV &v, const std::vector<uint16_t> &c)
{
    need(rgb(f) && c.size() == 3);
    PV w = v;
    w.red = c[0];
    w.green = c[1];
    w.blue = c[2];
    return view(make(f, n, w));
}
PV lhs_seteb(int8_t f, uint16_t n, const PV &v, const std::vector<uint8_t> &e)
{
    Point p = make(f, n, v);
    p.ExtraBytes(e);
    return view(p);
}
PV rhs_seteb(int8_t f, uint16_t n, const PV &v, const std::vector<uint8_t> &e)
{
    need(e.size() == n);
    PV w = v;
    w.eb = e;
    return view(make(f, n, w));
}

struct Shape
{
    int8_t f;
    uint32_t len;
    uint16_t eb;
    bool rgb, nir;
    PV v;
};
PV lhs_convert(int8_t f, uint16_t n, const PV &v, int8_t g)
{
    Point p = make(f, n, v);
    p.ToPointFormat(g);
    return view(p);
}
PV rhs_convert(int8_t f, uint16_t n, const PV &v, int8_t g)
{
    need(fmt_ok(g) && fmt_ok(f));
    assume(n <= 65000 && v.eb.size() == n);
    PV w = v;
    if (!(rgb(f) && rgb(g)))
        w.red = w.green = w.blue = 0;
    if (!(nir(f) && nir(g)))
        w.nir = 0;
    return w;
}
Shape lhs_shape(int8_t f, uint16_t n, const PV &v, int8_t g)
{
    Point p = make(f, n, v);
    p.ToPointFormat(g);
    return Shape{p.PointFormatId(), p.PointRecordLength(), p.EbByteSize(), p.HasRgb(), p.HasNir()};
}
Shape rhs_shape(int8_t f, uint16_t n, const PV &v, int8_t g)
{
    need(fmt_ok(g) && fmt_ok(f));
    assume(n <= 65000 && v.eb.size() == n);
    return Shape{g, base_size(g) + n, n, rgb(g), nir(g)};
}
// a collection converts all of its points and itself, and can still take points of the new format
struct Coll
{
    int8_t f;
    uint32_t len;
    size_t n;
};
Coll lhs_collect(int8_t f, uint16_t n, int8_t g)
{
    assume(n <= 65000);
    Points ps(f, n);
    ps.ToPointFormat(g);
    return Coll{ps.PointFormatId(), ps.PointRecordLength(), ps.Size()};
}
Coll rhs_collect(int8_t f, uint16_t n, int8_t g)
{
    assume(n <= 65000);
    need(fmt_ok(f) && fmt_ok(g));
    return Coll{g, base_size(g) + n, 0};
}
void lhs_each(Points ps, int8_t g)
{
    assume(fmt_ok(ps.PointFormatId()));
    assume(ps.PointRecordLength() >= 38 && ps.PointRecordLength() <= 65000);
    ps.ToPointFormat(g);
}
void rhs_each(Points ps, int8_t g)
{
    assume(fmt_ok(ps.PointFormatId()));
    assume(ps.PointRecordLength() >= 38 && ps.PointRecordLength() <= 65000);
    need(fmt_ok(g));
    for (size_t i = 0; i < ps.Size(); ++i)
        ps[i]->ToPointFormat(g);
}
