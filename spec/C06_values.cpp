// Copies of the other value types equal their source
//@ result
#include "spec.hpp"
#include <copc-lib/copc/extents.hpp>
#include <copc-lib/copc/info.hpp>
#include <copc-lib/geometry/box.hpp>
#include <copc-lib/geometry/vector3.hpp>
#include <copc-lib/hierarchy/key.hpp>
#include <copc-lib/hierarchy/node.hpp>
#include <copc-lib/hierarchy/page.hpp>
#include <copc-lib/las/header.hpp>
#include <copc-lib/las/points.hpp>
#include <copc-lib/las/vlr.hpp>
using namespace copc;
using namespace spec;
struct E4
{
    int32_t d, x, y, z, size, count;
    uint64_t at;
    bool loaded;
    VoxelKey page;
};
static std::vector<double> seen(const Vector3 &v) { return {v.x, v.y, v.z}; }
static std::vector<double> seen(const Box &b) { return {b.x_min, b.y_min, b.z_min, b.x_max, b.y_max, b.z_max}; }
static std::vector<int32_t> seen(const VoxelKey &k) { return {k.d, k.x, k.y, k.z}; }
static E4 seen(const Entry &e) { return {e.key.d, e.key.x, e.key.y, e.key.z, e.byte_size, e.point_count, e.offset, false, VoxelKey(0, 0, 0, 0)}; }
static E4 seen(const Node &e)
{
    E4 r = seen(static_cast<const Entry &>(e));
    r.page = VoxelKey(e.page_key.d, e.page_key.x, e.page_key.y, e.page_key.z);
    return r;
}
static E4 seen(const Page &e)
{
    E4 r = seen(static_cast<const Entry &>(e));
    r.loaded = e.loaded;
    return r;
}
struct I9
{
    double x, y, z, h, s;
    uint64_t at, n;
};
static I9 seen(const CopcInfo &i) { return {i.center_x, i.center_y, i.center_z, i.halfsize, i.spacing, i.root_hier_offset, i.root_hier_size}; }
struct H
{
    uint16_t source, encoding, day, year;
    Vector3 lo, hi;
    std::array<uint64_t, 15> returns;
    std::string guid, system, software;
    int8_t format;
    uint16_t length;
    uint64_t count, evlr;
    uint32_t at, vlrs, evlrs;
    Vector3 scale, offset;
};
static H seen(const las::LasHeader &h)
{
    return {h.file_source_id, h.global_encoding, h.creation_day, h.creation_year, h.min, h.max, h.points_by_return, h.GUID(),
            h.SystemIdentifier(), h.GeneratingSoftware(), h.PointFormatId(), h.PointRecordLength(), h.PointCount(),
            h.EvlrOffset(), h.PointOffset(), h.VlrCount(), h.EvlrCount(), h.Scale(), h.Offset()};
}
struct P3
{
    int8_t f;
    uint32_t n;
    std::vector<std::shared_ptr<las::Point>> v;
};
static P3 seen(const las::Points &p) { return {p.PointFormatId(), p.PointRecordLength(), las::Points(p).Get()}; }
template <class T> auto copied(const T &a)
{
    T b(a);
    return seen(b);
}
template <class T> auto moved(const T &a)
{
    T b(a);
    T c(std::move(b));
    return seen(c);
}
template <class T> auto assigned(const T &a, const T &old)
{
    T b(old);
    b = a;
    return seen(b);
}
template <class T> auto move_assigned(const T &a, const T &old)
{
    T b(old), c(a);
    b = std::move(c);
    return seen(b);
}
#define VALUE(name, T)                                                                                                 \
    auto lhs_copy_##name(const T &a) { return copied(a); }                                                             \
    auto rhs_copy_##name(const T &a) { return seen(a); }                                                               \
    auto lhs_move_##name(const T &a) { return moved(a); }                                                              \
    auto rhs_move_##name(const T &a) { return seen(a); }                                                               \
    auto lhs_assign_##name(const T &a, const T &old) { return assigned(a, old); }                                      \
    auto rhs_assign_##name(const T &a, const T &old) { return seen(a); }                                               \
    auto lhs_moveassign_##name(const T &a, const T &old) { return move_assigned(a, old); }                             \
    auto rhs_moveassign_##name(const T &a, const T &old) { return seen(a); }
VALUE(vector, Vector3)
VALUE(box, Box)
VALUE(key, VoxelKey)
VALUE(entry, Entry)
VALUE(node, Node)
VALUE(page, Page)
VALUE(info, CopcInfo)
VALUE(header, las::LasHeader)
VALUE(points, las::Points)
