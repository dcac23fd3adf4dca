// A point collection holds points of one format and record length, and treats them in order, one by one
#include "point.hpp"
using namespace copc;
using namespace copc::las;
using namespace spec;
typedef std::shared_ptr<Point> PP;

static void need(bool c)
{
    if (!c)
        throw std::runtime_error("refused");
}
static bool same(const PP &p, const Points &ps)
{
    return p->PointFormatId() == ps.PointFormatId() && p->PointRecordLength() == ps.PointRecordLength();
}
struct Coll
{
    int8_t f;
    uint32_t len;
    std::vector<PP> pts;
};
static Coll look(Points ps) { return Coll{ps.PointFormatId(), ps.PointRecordLength(), ps.Get()}; }

Coll lhs_make(int8_t f, uint16_t n)
{
    assume(n <= 65000);
    return look(Points(f, n));
}
Coll rhs_make(int8_t f, uint16_t n)
{
    assume(n <= 65000);
    need(fmt_ok(f));
    return Coll{f, base_size(f) + n, {}};
}
Coll lhs_makeheader(int8_t f, uint16_t n, const Vector3 &v)
{
    assume(n <= 65000);
    return look(Points(LasHeader(f, base_size(f) + n, v, v, true)));
}
Coll rhs_makeheader(int8_t f, uint16_t n, const Vector3 &v)
{
    assume(n <= 65000);
    need(fmt_ok(f));
    return Coll{f, base_size(f) + n, {}};
}
Coll lhs_makevec(const std::vector<PP> &v) { return look(Points(v)); }
Coll rhs_makevec(const std::vector<PP> &v)
{
    need(!v.empty());
    for (size_t i = 0; i < v.size(); ++i)
        need(v[i]->PointFormatId() == v[0]->PointFormatId() && v[i]->PointRecordLength() == v[0]->PointRecordLength());
    return Coll{v[0]->PointFormatId(), v[0]->PointRecordLength(), v};
}
Coll lhs_addone(const Points &ps, const PP &p)
{
    Points q = ps;
    q.AddPoint(p);
    return look(q);
}
Coll rhs_addone(const Points &ps, const PP &p)
{
    need(same(p, ps));
    Coll c = look(ps);
    c.pts.push_back(p);
    return c;
}
Coll lhs_addvec(const Points &ps, const std::vector<PP> &v)
{
    Points q = ps;
    q.AddPoints(v);
    return look(q);
}
Coll rhs_addvec(const Points &ps, const std::vector<PP> &v)
{
    for (size_t i = 0; i < v.size(); ++i)
        need(same(v[i], ps));
    Coll c = look(ps);
    for (size_t i = 0; i < v.size(); ++i)
        c.pts.push_back(v[i]);
    return c;
}
// the points of the other container are of its format, so refusing a container point by point is refusing it as a whole
bool alike(const Points &ps, const Points &o)
{
    for (size_t i = 0; i < o.Size(); ++i)
        if (o[i]->PointFormatId() != ps.PointFormatId() || o[i]->PointRecordLength() != ps.PointRecordLength())
            return false;
    return true;
}
bool same(const Points &ps, const Points &o)
{
    return o.PointFormatId() == ps.PointFormatId() && o.PointRecordLength() == ps.PointRecordLength();
}
Coll lhs_addcoll(const Points &ps, const Points &o)
{
    assume(!same(ps, o) || alike(ps, o));
    Points q = ps;
    q.AddPoints(o);
    return look(q);
}
Coll rhs_addcoll(const Points &ps, const Points &o)
{
    assume(!same(ps, o) || alike(ps, o));
    need(same(ps, o));
    Coll c = look(ps);
    for (size_t i = 0; i < o.Size(); ++i)
        c.pts.push_back(o[i]);
    return c;
}
struct New
{
    int8_t f;
    uint32_t len;
    PV v;
};
New lhs_create(int8_t f, uint16_t n)
{
    assume(n <= 65000);
    Points ps(f, n);
    PP p = ps.CreatePoint();
    return New{p->PointFormatId(), p->PointRecordLength(), view(*p)};
}
New rhs_create(int8_t f, uint16_t n)
{
    assume(n <= 65000);
    need(fmt_ok(f));
    New r{f, base_size(f) + n};
    r.v.eb.resize(n, 0);
    return r;
}
size_t lhs_size(const Points &ps) { return ps.Size(); }
size_t rhs_size(const Points &ps)
{
    size_t n = 0;
    for (const auto &p : ps)
        ++n;
    return n;
}
PP lhs_at(Points &ps, size_t i)
{
    assume(i < ps.Size());
    return ps[i];
}
PP rhs_at(Points &ps, size_t i)
{
    assume(i < ps.Size());
    return ps.Get(i);
}

// vector access: element i is point i, and a vector of another length is refused
#define VEC(name, T, acc)                                                                                              \
    std::vector<T> lhs_get_##name(const Points &ps) { return ps.acc(); }                                               \
    std::vector<T> rhs_get_##name(const Points &ps)                                                                    \
    {                                                                                                                  \
        std::vector<T> r;                                                                                              \
        for (size_t i = 0; i < ps.Size(); ++i)                                                                         \
            r.push_back(ps[i]->acc());                                                                                 \
        return r;                                                                                                      \
    }                                                                                                                  \
    void lhs_set_##name(Points ps, const std::vector<T> &v) { ps.acc(v); }                                             \
    void rhs_set_##name(Points ps, const std::vector<T> &v)                                                            \
    {                                                                                                                  \
        need(v.size() == ps.Size());                                                                                   \
        for (size_t i = 0; i < ps.Size(); ++i)                                                                         \
            ps[i]->acc(v[i]);                                                                                          \
    }
VEC(x, double, X)
VEC(y, double, Y)
VEC(z, double, Z)
VEC(classification, uint8_t, Classification)
VEC(source, uint16_t, PointSourceId)
void lhs_set_source8(Points &ps, const std::vector<uint8_t> &v) { ps.PointSourceId(v); }
void rhs_set_source8(Points &ps, const std::vector<uint8_t> &v)
{
    need(v.size() == ps.Size());
    for (size_t i = 0; i < ps.Size(); ++i)
        ps[i]->PointSourceId((uint16_t)v[i]);
}
VEC(red, uint16_t, Red)
VEC(green, uint16_t, Green)
VEC(blue, uint16_t, Blue)

bool lhs_within(const Points &ps, const Box &b) { return ps.Within(b); }
bool rhs_within(const Points &ps, const Box &b)
{
    for (size_t i = 0; i < ps.Size(); ++i)
        if (!ps[i]->Within(b))
            return false;
    return true;
}
std::vector<PP> lhs_getwithin(Points &ps, const Box &b) { return ps.GetWithin(b); }
std::vector<PP> rhs_getwithin(Points &ps, const Box &b)
{
    std::vector<PP> r;
    for (size_t i = 0; i < ps.Size(); ++i)
        if (b.Contains(Vector3(ps[i]->X(), ps[i]->Y(), ps[i]->Z())))
            r.push_back(ps[i]);
    return r;
}

// packing: the records one after another; unpacking: one point per record
void lhs_packstream(std::ostream &o, const Points &ps, const Vector3 &s, const Vector3 &t) { ps.Pack(o, s, t); }
void rhs_packstream(std::ostream &o, const Points &ps, const Vector3 &s, const Vector3 &t)
{
    for (size_t i = 0; i < ps.Size(); ++i)
        ps[i]->Pack(o, s, t);
}
std::vector<char> lhs_packvec(const Points &ps, const Vector3 &s, const Vector3 &t) { return ps.Pack(s, t); }
std::vector<char> rhs_packvec(const Points &ps, const Vector3 &s, const Vector3 &t)
{
    std::stringstream o;
    for (size_t i = 0; i < ps.Size(); ++i)
        ps[i]->Pack(o, s, t);
    std::string r = o.str();
    return std::vector<char>(r.begin(), r.end());
}
std::vector<PV> lhs_unpack(const std::vector<char> &d, int8_t f, uint16_t n, const Vector3 &s, const Vector3 &t)
{
    assume(n <= 65000);
    Points ps = Points::Unpack(d, f, n, s, t);
    std::vector<PV> r;
    for (size_t i = 0; i < ps.Size(); ++i)
        r.push_back(view(*ps[i]));
    return r;
}
std::vector<PV> rhs_unpack(const std::vector<char> &d, int8_t f, uint16_t n, const Vector3 &s, const Vector3 &t)
{
    assume(n <= 65000);
    need(fmt_ok(f));
    size_t len = base_size(f) + n;
    need(d.size() % len == 0);
    std::istringstream in(std::string(d.begin(), d.end()));
    std::vector<PV> r;
    for (size_t i = 0; i < d.size() / len; ++i)
        r.push_back(view(*Point::Unpack(in, f, s, t, n)));
    return r;
}
// converting keeps a container homogeneous: its own format and record length follow its points
struct Shape
{
    int8_t f;
    uint32_t len;
    size_t n;
};
static Shape about(const Points &ps) { return Shape{ps.PointFormatId(), ps.PointRecordLength(), ps.Size()}; }
Shape lhs_convert(int8_t f, uint16_t n, int8_t g)
{
    assume(n <= 65000);
    Points ps(f, n);
    ps.AddPoint(std::make_shared<Point>(f, n));
    ps.ToPointFormat(g);
    ps.AddPoint(std::make_shared<Point>(g, n));
    return about(ps);
}
Shape rhs_convert(int8_t f, uint16_t n, int8_t g)
{
    assume(n <= 65000);
    need(f >= 6 && f <= 8 && g >= 6 && g <= 8);
    return Shape{g, (uint32_t)(g == 6 ? 30 : g == 7 ? 36 : 38) + n, 2};
}
