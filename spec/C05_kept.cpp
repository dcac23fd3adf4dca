// What a container refuses leaves it, and its points, unchanged
//@ result
#include "point.hpp"
using namespace copc;
using namespace copc::las;
using namespace spec;
typedef std::shared_ptr<Point> PP;
struct Coll
{
    int8_t f;
    uint32_t len;
    std::vector<PP> pts;
};
static Coll look(Points ps) { return Coll{ps.PointFormatId(), ps.PointRecordLength(), ps.Get()}; }
static bool fits(const PP &p, const Points &ps)
{
    return p->PointFormatId() == ps.PointFormatId() && p->PointRecordLength() == ps.PointRecordLength();
}
#define KEPT(name, T, add)                                                                                             \
    Coll lhs_##name(const Points &ps, const T &x)                                                                      \
    {                                                                                                                  \
        Points q = ps;                                                                                                 \
        try                                                                                                            \
        {                                                                                                              \
            q.add;                                                                                                     \
        }                                                                                                              \
        catch (std::exception &)                                                                                       \
        {                                                                                                              \
            return look(q);                                                                                            \
        }                                                                                                              \
        return look(ps);                                                                                               \
    }                                                                                                                  \
    Coll rhs_##name(const Points &ps, const T &x) { return look(ps); }
KEPT(one, PP, AddPoint(x))
KEPT(many, std::vector<PP>, AddPoints(x))
KEPT(collection, Points, AddPoints(x))
// fixed numbers of points
template <int N> Coll add(const Points &ps, const std::vector<PP> &x)
{
    assume(x.size() == N);
    Points q = ps;
    try
    {
        q.AddPoints(x);
    }
    catch (std::exception &)
    {
    }
    return look(q);
}
template <int N> Coll added(const Points &ps, const std::vector<PP> &x)
{
    assume(x.size() == N);
    Coll r = look(ps);
    bool ok = true;
    for (int i = 0; i < N; ++i)
        ok = ok && fits(x[i], ps);
    if (ok)
        for (int i = 0; i < N; ++i)
            r.pts.push_back(x[i]);
    return r;
}
#define FEW(n)                                                                                                         \
    Coll lhs_add##n(const Points &ps, const std::vector<PP> &x) { return add<n>(ps, x); }                              \
    Coll rhs_add##n(const Points &ps, const std::vector<PP> &x) { return added<n>(ps, x); }
FEW(0)
FEW(1)
FEW(2)
FEW(3)
// vectors of another length change no point
#define LENGTH(name, T, acc)                                                                                           \
    std::vector<T> lhs_##name(int8_t f, const PV &a, const PV &b, const std::vector<T> &x)                             \
    {                                                                                                                  \
        assume(fmt_ok(f) && a.eb.size() == 0 && b.eb.size() == 0);                                                     \
        Points ps(f);                                                                                                  \
        PP p = ps.CreatePoint(), q = ps.CreatePoint();                                                                 \
        fill(*p, f, a);                                                                                                \
        fill(*q, f, b);                                                                                                \
        ps.AddPoint(p);                                                                                                \
        ps.AddPoint(q);                                                                                                \
        try                                                                                                            \
        {                                                                                                              \
            ps.acc(x);                                                                                                 \
        }                                                                                                              \
        catch (std::exception &)                                                                                       \
        {                                                                                                              \
        }                                                                                                              \
        return {p->acc(), q->acc()};                                                                                   \
    }
LENGTH(len_x, double, X)
LENGTH(len_y, double, Y)
LENGTH(len_z, double, Z)
LENGTH(len_classification, uint8_t, Classification)
LENGTH(len_source, uint16_t, PointSourceId)
#define LEN(name, T, field)                                                                                            \
    std::vector<T> rhs_##name(int8_t f, const PV &a, const PV &b, const std::vector<T> &x)                             \
    {                                                                                                                  \
        assume(fmt_ok(f) && a.eb.size() == 0 && b.eb.size() == 0);                                                     \
        if (x.size() == 2)                                                                                             \
            return {x[0], x[1]};                                                                                       \
        return {a.field, b.field};                                                                                     \
    }
LEN(len_x, double, x)
LEN(len_y, double, y)
LEN(len_z, double, z)
LEN(len_classification, uint8_t, cls)
LEN(len_source, uint16_t, source)
