// One extent per dimension, reached by its own accessor, stored and reported in place
#include "spec.hpp"
#include <copc-lib/copc/extents.hpp>
#include <copc-lib/las/vlr.hpp>
using namespace copc;
typedef las::CopcExtentsVlr V;
typedef las::CopcExtentsVlr::CopcExtent Item;
typedef std::vector<Item> Items;
typedef std::shared_ptr<CopcExtent> E;

static void need(bool c)
{
    if (!c)
        throw std::runtime_error("refused");
}
static int base(int8_t f)
{
    need(f >= 6 && f <= 8);
    return f == 6 ? 14 : f == 7 ? 17 : 18;
}
static V vlr(const Items &items)
{
    V v;
    v.items = items;
    return v;
}
// extents with arbitrary contents: format, number of extra bytes, minimum and maximum of each
static CopcExtents made(int8_t f, uint16_t n, const Items &items) { return CopcExtents(vlr(items), f, n, true); }
struct X4
{
    double a, b, m, v;
};
typedef std::vector<X4> Seen;
static Seen seen(const CopcExtents &e)
{
    Seen r;
    std::vector<CopcExtent> x = e.Extents();
    for (size_t i = 0; i < x.size(); ++i)
        r.push_back(X4{x[i].minimum, x[i].maximum, x[i].mean, x[i].var});
    return r;
}
static Seen expect(int8_t f, uint16_t n, const Items &items)
{
    need(items.size() == (size_t)(base(f) + n));
    Seen r;
    for (size_t i = 0; i < items.size(); ++i)
    {
        need(!(items[i].minimum > items[i].maximum));
        r.push_back(X4{items[i].minimum, items[i].maximum, 0, 1});
    }
    return r;
}

// ---- one extent
X4 lhs_extent(double a, double b, double m, double v)
{
    CopcExtent e(a, b, m, v);
    return X4{e.minimum, e.maximum, e.mean, e.var};
}
X4 rhs_extent(double a, double b, double m, double v)
{
    need(!(a > b) && !(v < 0));
    return X4{a, b, m, v};
}
X4 lhs_extent2(double a, double b)
{
    CopcExtent e(a, b);
    return X4{e.minimum, e.maximum, e.mean, e.var};
}
X4 rhs_extent2(double a, double b)
{
    need(!(a > b));
    return X4{a, b, 0, 1};
}
X4 lhs_extentlist(const std::vector<double> &l)
{
    CopcExtent e(l);
    return X4{e.minimum, e.maximum, e.mean, e.var};
}
X4 rhs_extentlist(const std::vector<double> &l)
{
    need(l.size() == 2 || l.size() == 4);
    need(!(l[0] > l[1]));
    if (l.size() == 2)
        return X4{l[0], l[1], 0, 1};
    need(!(l[3] < 0));
    return X4{l[0], l[1], l[2], l[3]};
}
X4 lhs_extent0()
{
    CopcExtent e;
    return X4{e.minimum, e.maximum, e.mean, e.var};
}
X4 rhs_extent0() { return X4{0, 0, 0, 1}; }
X4 lhs_extentcopy(const X4 &x)
{
    CopcExtent e;
    e.minimum = x.a;
    e.maximum = x.b;
    e.mean = x.m;
    e.var = x.v;
    CopcExtent c(e);
    return X4{c.minimum, c.maximum, c.mean, c.var};
}
X4 rhs_extentcopy(const X4 &x)
{
    need(!(x.a > x.b) && !(x.v < 0));
    return x;
}

// ---- all extents
Seen lhs_fresh(int8_t f, uint16_t n, bool s) { return seen(CopcExtents(f, n, s)); }
Seen rhs_fresh(int8_t f, uint16_t n, bool s)
{
    Seen r;
    int k = base(f) + n;
    for (int i = 0; i < k; ++i)
        r.push_back(X4{0, 0, 0, 1});
    return r;
}
struct Facts
{
    int32_t f;
    bool s;
    uint64_t n;
};
Facts lhs_freshfacts(int8_t f, uint16_t n, bool s)
{
    CopcExtents e(f, n, s);
    return Facts{e.PointFormatId(), e.HasExtendedStats(), e.NumberOfExtents()};
}
Facts rhs_freshfacts(int8_t f, uint16_t n, bool s) { return Facts{f, s, (uint64_t)(base(f) + n)}; }
Seen lhs_fromvlr(int8_t f, uint16_t n, const Items &items) { return seen(made(f, n, items)); }
Seen rhs_fromvlr(int8_t f, uint16_t n, const Items &items) { return expect(f, n, items); }
Facts lhs_vlrfacts(int8_t f, uint16_t n, const Items &items, bool s)
{
    CopcExtents e(vlr(items), f, n, s);
    return Facts{e.PointFormatId(), e.HasExtendedStats(), e.NumberOfExtents()};
}
Facts rhs_vlrfacts(int8_t f, uint16_t n, const Items &items, bool s)
{
    expect(f, n, items);
    return Facts{f, s, (uint64_t)(base(f) + n)};
}
int32_t lhs_number(int8_t f, uint16_t n) { return CopcExtents::NumberOfExtents(f, n); }
int32_t rhs_number(int8_t f, uint16_t n) { return base(f) + n; }
int32_t lhs_number0(int8_t f) { return CopcExtents::NumberOfExtents(f); }
int32_t rhs_number0(int8_t f) { return base(f); }
int32_t lhs_basenumber(int8_t f) { return PointBaseNumberExtents(f); }
int32_t rhs_basenumber(int8_t f) { return base(f); }
uint64_t lhs_bytes(int8_t f, uint16_t n) { return CopcExtents::ByteSize(f, n); }
uint64_t rhs_bytes(int8_t f, uint16_t n) { return 16 * (uint64_t)(base(f) + n); }

// ---- every accessor reaches its dimension; writing through it changes that one only; setting replaces that one only
#define DIM(NAME, INDEX, FIRST)                                                                                                  \
    X4 lhs_get##NAME(int8_t f, uint16_t n, const Items &items)                                                                   \
    {                                                                                                                            \
        CopcExtents e = made(f, n, items);                                                                                       \
        E x = e.NAME();                                                                                                          \
        return X4{x->minimum, x->maximum, x->mean, x->var};                                                                      \
    }                                                                                                                            \
    X4 rhs_get##NAME(int8_t f, uint16_t n, const Items &items)                                                                   \
    {                                                                                                                            \
        Seen s = expect(f, n, items);                                                                                            \
        need(f >= FIRST);                                                                                                        \
        return s[INDEX];                                                                                                         \
    }                                                                                                                            \
    Seen lhs_through##NAME(int8_t f, uint16_t n, const Items &items, const X4 &w)                                                \
    {                                                                                                                            \
        need(!(w.a > w.b) && !(w.v < 0));                                                                                        \
        CopcExtents e = made(f, n, items);                                                                                       \
        E x = e.NAME();                                                                                                          \
        x->minimum = w.a;                                                                                                        \
        x->maximum = w.b;                                                                                                        \
        x->mean = w.m;                                                                                                           \
        x->var = w.v;                                                                                                            \
        return seen(e);                                                                                                          \
    }                                                                                                                            \
    Seen rhs_through##NAME(int8_t f, uint16_t n, const Items &items, const X4 &w)                                                \
    {                                                                                                                            \
        need(!(w.a > w.b) && !(w.v < 0));                                                                                        \
        Seen s = expect(f, n, items);                                                                                            \
        need(f >= FIRST);                                                                                                        \
        s[INDEX] = w;                                                                                                            \
        return s;                                                                                                                \
    }                                                                                                                            \
    Seen lhs_set##NAME(int8_t f, uint16_t n, const Items &items, const X4 &w)                                                    \
    {                                                                                                                            \
        need(!(w.a > w.b) && !(w.v < 0));                                                                                        \
        CopcExtents e = made(f, n, items);                                                                                       \
        e.NAME(std::make_shared<CopcExtent>(w.a, w.b, w.m, w.v));                                                                \
        return seen(e);                                                                                                          \
    }                                                                                                                            \
    Seen rhs_set##NAME(int8_t f, uint16_t n, const Items &items, const X4 &w) { return rhs_through##NAME(f, n, items, w); }
DIM(X, 0, 6)
DIM(Y, 1, 6)
DIM(Z, 2, 6)
DIM(Intensity, 3, 6)
DIM(ReturnNumber, 4, 6)
DIM(NumberOfReturns, 5, 6)
DIM(ScannerChannel, 6, 6)
DIM(ScanDirectionFlag, 7, 6)
DIM(EdgeOfFlightLine, 8, 6)
DIM(Classification, 9, 6)
DIM(UserData, 10, 6)
DIM(ScanAngle, 11, 6)
DIM(PointSourceId, 12, 6)
DIM(GpsTime, 13, 6)
DIM(Red, 14, 7)
DIM(Green, 15, 7)
DIM(Blue, 16, 7)
DIM(Nir, 17, 8)

Seen lhs_extra(int8_t f, uint16_t n, const Items &items)
{
    CopcExtents e = made(f, n, items);
    Seen r;
    std::vector<E> x = e.ExtraBytes();
    for (size_t i = 0; i < x.size(); ++i)
        r.push_back(X4{x[i]->minimum, x[i]->maximum, x[i]->mean, x[i]->var});
    return r;
}
Seen rhs_extra(int8_t f, uint16_t n, const Items &items)
{
    Seen s = expect(f, n, items);
    Seen r;
    for (size_t i = 0; i < n; ++i)
        r.push_back(s[base(f) + i]);
    return r;
}
static std::vector<E> list(const std::vector<X4> &w)
{
    std::vector<E> x;
    for (size_t i = 0; i < w.size(); ++i)
        x.push_back(std::make_shared<CopcExtent>(w[i].a, w[i].b, w[i].m, w[i].v));
    return x;
}
Seen lhs_setextra(int8_t f, uint16_t n, const Items &items, const std::vector<X4> &w)
{
    CopcExtents e = made(f, n, items);
    e.ExtraBytes(list(w));
    return seen(e);
}
Seen rhs_setextra(int8_t f, uint16_t n, const Items &items, const std::vector<X4> &w)
{
    Seen s = expect(f, n, items);
    need(w.size() == n);
    Seen r;
    for (int i = 0; i < base(f); ++i)
        r.push_back(s[i]);
    for (size_t i = 0; i < w.size(); ++i)
    {
        need(!(w[i].a > w[i].b) && !(w[i].v < 0));
        r.push_back(w[i]);
    }
    return r;
}
// the shared pointers handed out are the extents themselves, in order
Seen lhs_pointers(int8_t f, uint16_t n, const Items &items)
{
    CopcExtents e = made(f, n, items);
    std::vector<E> x = e.Extents();
    Seen r;
    for (size_t i = 0; i < x.size(); ++i)
        r.push_back(X4{x[i]->minimum, x[i]->maximum, x[i]->mean, x[i]->var});
    return r;
}
Seen rhs_pointers(int8_t f, uint16_t n, const Items &items) { return expect(f, n, items); }

// ---- to the VLRs and back
Items lhs_to(int8_t f, uint16_t n, const Items &items, const CopcExtent &x, const CopcExtent &y, const CopcExtent &z)
{
    // the coordinate ranges agree with those of the header the caller passes
    assume(items.size() >= 3);
    assume(x.minimum == items[0].minimum && x.maximum == items[0].maximum);
    assume(y.minimum == items[1].minimum && y.maximum == items[1].maximum);
    assume(z.minimum == items[2].minimum && z.maximum == items[2].maximum);
    return made(f, n, items).ToLazPerf(x, y, z).items;
}
Items rhs_to(int8_t f, uint16_t n, const Items &items, const CopcExtent &x, const CopcExtent &y, const CopcExtent &z)
{
    assume(items.size() >= 3);
    assume(x.minimum == items[0].minimum && x.maximum == items[0].maximum);
    assume(y.minimum == items[1].minimum && y.maximum == items[1].maximum);
    assume(z.minimum == items[2].minimum && z.maximum == items[2].maximum);
    expect(f, n, items);
    return items;
}
Seen lhs_stats(int8_t f, uint16_t n, const Items &items, const Items &stats)
{
    CopcExtents e = made(f, n, items);
    e.SetExtendedStats(vlr(stats));
    std::vector<E> x = e.Extents();
    Seen r;
    for (size_t i = 0; i < x.size(); ++i)
        r.push_back(X4{x[i]->minimum, x[i]->maximum, x[i]->mean, x[i]->var});
    return r;
}
Seen rhs_stats(int8_t f, uint16_t n, const Items &items, const Items &stats)
{
    expect(f, n, items);
    need(stats.size() == items.size());
    Seen r;
    for (size_t i = 0; i < items.size(); ++i)
        r.push_back(X4{items[i].minimum, items[i].maximum, stats[i].minimum, stats[i].maximum});
    return r;
}
Items lhs_toextended(int8_t f, uint16_t n, const Items &items, const Items &stats)
{
    CopcExtents e = made(f, n, items);
    e.SetExtendedStats(vlr(stats));
    return e.ToLazPerfExtended().items;
}
Items rhs_toextended(int8_t f, uint16_t n, const Items &items, const Items &stats)
{
    expect(f, n, items);
    need(stats.size() == items.size());
    return stats;
}
void lhs_nostats(int8_t f, uint16_t n, const Items &stats)
{
    CopcExtents e(f, n, false);
    e.SetExtendedStats(vlr(stats));
}
void rhs_nostats(int8_t f, uint16_t n, const Items &stats)
{
    base(f);
    need(false);
}

// ---- copies and conversions
Seen lhs_copy(int8_t f, uint16_t n, const Items &items)
{
    CopcExtents e = made(f, n, items);
    return seen(CopcExtents(e));
}
Seen rhs_copy(int8_t f, uint16_t n, const Items &items) { return expect(f, n, items); }
Facts lhs_copyfacts(int8_t f, uint16_t n, bool s)
{
    CopcExtents e(f, n, s);
    CopcExtents c(e);
    return Facts{c.PointFormatId(), c.HasExtendedStats(), c.NumberOfExtents()};
}
Facts rhs_copyfacts(int8_t f, uint16_t n, bool s) { return Facts{f, s, (uint64_t)(base(f) + n)}; }
static Seen converted(int8_t f, uint16_t n, const Items &items, int8_t g, uint16_t m)
{
    return seen(CopcExtents(made(f, n, items), g, m, true));
}
static Seen conversion(int8_t f, uint16_t n, const Items &items, int8_t g, uint16_t m)
{
    Seen s = expect(f, n, items);
    Seen r;
    int k = base(g);
    for (int i = 0; i < k; ++i)
        r.push_back(i < 14 || i < 17 && f >= 7 || i == 17 && f == 8 ? s[i] : X4{0, 0, 0, 1});
    for (int i = 0; i < m; ++i)
        r.push_back(m == n ? s[base(f) + i] : X4{0, 0, 0, 1});
    return r;
}
#define CONVERT(F, G)                                                                                                            \
    Seen lhs_convert##F##G(const Items &items, uint16_t n, uint16_t m) { return converted(F, n, items, G, m); }                  \
    Seen rhs_convert##F##G(const Items &items, uint16_t n, uint16_t m) { return conversion(F, n, items, G, m); }
CONVERT(6, 6)
CONVERT(6, 7)
CONVERT(6, 8)
CONVERT(7, 6)
CONVERT(7, 7)
CONVERT(7, 8)
CONVERT(8, 6)
CONVERT(8, 7)
CONVERT(8, 8)
Facts lhs_convertfacts(int8_t f, uint16_t n, bool s, int8_t g, uint16_t m, bool t)
{
    CopcExtents e(f, n, s);
    CopcExtents c(e, g, m, t);
    return Facts{c.PointFormatId(), c.HasExtendedStats(), c.NumberOfExtents()};
}
Facts rhs_convertfacts(int8_t f, uint16_t n, bool s, int8_t g, uint16_t m, bool t)
{
    base(f);
    return Facts{g, t, (uint64_t)(base(g) + m)};
}

// ---- the VLR itself: pairs of doubles in order
using spec::get;
using spec::put;
void lhs_write(std::ostream &o, const Items &items) { vlr(items).write(o); }
void rhs_write(std::ostream &o, const Items &items)
{
    for (size_t i = 0; i < items.size(); ++i)
    {
        put(o, items[i].minimum);
        put(o, items[i].maximum);
    }
}
Items lhs_create(std::istream &i, int n)
{
    assume(n >= 0);
    return V::create(i, n).items;
}
Items rhs_create(std::istream &i, int n)
{
    assume(n >= 0);
    Items r;
    for (int k = 0; k < n / 16; ++k)
    {
        Item x;
        x.minimum = get<double>(i);
        x.maximum = get<double>(i);
        r.push_back(x);
    }
    return r;
}
Items lhs_create3(std::istream &i) { return V::create(i, 48).items; }
Items rhs_create3(std::istream &i) { return rhs_create(i, 48); }
Items lhs_create3odd(std::istream &i) { return V::create(i, 63).items; }
Items rhs_create3odd(std::istream &i) { return rhs_create(i, 48); }
Items lhs_reread(std::istream &i, const Items &old)
{
    V v = vlr(old);
    v.read(i, 32);
    return v.items;
}
Items rhs_reread(std::istream &i, const Items &old) { return rhs_create(i, 32); }
uint64_t lhs_size(const Items &items) { return vlr(items).size(); }
uint64_t rhs_size(const Items &items) { return 16 * items.size(); }
struct Id
{
    std::string user, text;
    uint32_t record, reserved;
    uint64_t length;
};
Id lhs_header(const Items &items)
{
    assume(items.size() < 4096);
    lazperf::vlr_header h = vlr(items).header();
    return Id{h.user_id, h.description, h.record_id, h.reserved, h.data_length};
}
Id rhs_header(const Items &items)
{
    assume(items.size() < 4096);
    return Id{"copc", "COPC extents", 10000, 0, 16 * items.size()};
}
Id lhs_eheader(const Items &items)
{
    lazperf::evlr_header h = vlr(items).eheader();
    return Id{h.user_id, h.description, h.record_id, h.reserved, h.data_length};
}
Id rhs_eheader(const Items &items) { return Id{"copc", "COPC extents", 10000, 0, 16 * items.size()}; }
Items lhs_setitem(const Items &items, int i, const Item &x)
{
    assume(i >= 0 && (size_t)i < items.size());
    V v = vlr(items);
    v.setItem(i, x);
    return v.items;
}
Items rhs_setitem(const Items &items, int i, const Item &x)
{
    assume(i >= 0 && (size_t)i < items.size());
    Items r = items;
    r[i] = x;
    return r;
}
Items lhs_additem(const Items &items, const Item &x)
{
    V v = vlr(items);
    v.addItem(x);
    return v.items;
}
Items rhs_additem(const Items &items, const Item &x)
{
    Items r = items;
    r.push_back(x);
    return r;
}
