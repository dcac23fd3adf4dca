// The LAS header: every field to its on-disk counterpart and back
#include "point.hpp"
#include <algorithm>
#include <cstring>
#include <copc-lib/copc/info.hpp>
#include <copc-lib/geometry/box.hpp>
#include <copc-lib/las/header.hpp>
using namespace copc;
using namespace copc::las;
typedef lazperf::header14 Raw;
typedef LasHeader H;

struct Text
{
    std::string guid, system, software;
};
struct View
{
    int32_t format;
    uint32_t record, offset, vlrs, evlrs;
    uint64_t count, evlr_offset;
    Vector3 scale, off, max, min;
    uint16_t source, encoding, day, year;
    std::array<uint64_t, 15> returns;
    bool copc;
};
static View view(const H &h)
{
    return View{h.PointFormatId(), h.PointRecordLength(), h.PointOffset(), h.VlrCount(), h.EvlrCount(), h.PointCount(), h.EvlrOffset(),
                h.Scale(),         h.Offset(),            h.max,           h.min,        h.file_source_id, h.global_encoding,
                h.creation_day,    h.creation_year,       h.points_by_return, h.IsCopc()};
}
static Text text(const H &h) { return Text{h.GUID(), h.SystemIdentifier(), h.GeneratingSoftware()}; }

// what a header that this library understands must be
static void need(bool c)
{
    if (!c)
        throw std::runtime_error("not understood");
}
static void understood(const Raw &r)
{
    need(r.global_encoding & 0x10);
    need(r.version.major == 1 && r.version.minor == 4);
    need(r.header_size == 375);
    need(r.point_format_id >= 6 && r.point_format_id <= 8);
}
View lhs_from(const Raw &r) { return view(H::FromLazPerf(r)); }
View rhs_from(const Raw &r)
{
    understood(r);
    View v{};
    v.format = r.point_format_id;
    v.record = r.point_record_length;
    v.offset = r.point_offset;
    v.vlrs = r.vlr_count;
    v.evlrs = r.evlr_count;
    v.count = r.point_count_14;
    v.evlr_offset = r.evlr_offset;
    v.scale.x = r.scale.x;
    v.scale.y = r.scale.y;
    v.scale.z = r.scale.z;
    v.off.x = r.offset.x;
    v.off.y = r.offset.y;
    v.off.z = r.offset.z;
    v.max.x = r.maxx;
    v.max.y = r.maxy;
    v.max.z = r.maxz;
    v.min.x = r.minx;
    v.min.y = r.miny;
    v.min.z = r.minz;
    v.source = r.file_source_id;
    v.encoding = r.global_encoding;
    v.day = r.creation.day;
    v.year = r.creation.year;
    for (int i = 0; i < 15; ++i)
        v.returns[i] = r.points_by_return_14[i];
    v.copc = true;
    return v;
}
static std::string field(const char *p, size_t n) { return std::string(p, std::find(p, p + n, '\0')); }
Text lhs_fromtext(const Raw &r) { return text(H::FromLazPerf(r)); }
Text rhs_fromtext(const Raw &r)
{
    understood(r);
    return Text{field(r.guid, 16), field(r.system_identifier, 32), field(r.generating_software, 32)};
}

struct Args
{
    uint32_t point_offset;
    uint64_t point_count, evlr_offset;
    uint32_t evlr_count;
    bool eb, ext;
};
static Raw conv(const H &h, const Args &a)
{
    return h.ToLazPerf(a.point_offset, a.point_count, a.evlr_offset, a.evlr_count, a.eb, a.ext);
}
// the header with arbitrary contents
struct In
{
    int8_t f;
    uint16_t len;
    uint32_t point_offset, vlrs, evlrs;
    uint64_t count, evlr_offset;
    Vector3 scale, off, max, min;
    bool copc;
    uint16_t source, encoding, day, year;
    std::array<uint64_t, 15> returns;
    std::string guid, system, software;
};
static H build(const In &i)
{
    H h(i.f, i.len, i.point_offset, i.count, i.vlrs, i.scale, i.off, i.evlr_offset, i.evlrs, i.copc);
    h.max = i.max;
    h.min = i.min;
    h.file_source_id = i.source;
    h.global_encoding = i.encoding;
    h.creation_day = i.day;
    h.creation_year = i.year;
    h.points_by_return = i.returns;
    h.GUID(i.guid);
    h.SystemIdentifier(i.system);
    h.GeneratingSoftware(i.software);
    return h;
}
static void lengths(const In &i)
{
    need(i.guid.size() <= 16);
    need(i.system.size() <= 32);
    need(i.software.size() <= 32);
}
View lhs_build(const In &i) { return view(build(i)); }
View rhs_build(const In &i)
{
    lengths(i);
    return View{i.f,   i.len, i.point_offset, i.vlrs,   i.evlrs,    i.count, i.evlr_offset, i.scale,   i.off,
                i.max, i.min, i.source,       i.encoding, i.day,    i.year,  i.returns,     i.copc};
}
Text lhs_buildtext(const In &i) { return text(build(i)); }
Text rhs_buildtext(const In &i)
{
    lengths(i);
    return Text{i.guid, i.system, i.software};
}
struct RawNum
{
    uint32_t source, encoding, major, minor, day, year, header_size, point_offset, vlr_count, format, record, legacy;
    double mx, my, mz, nx, ny, nz, sx, sy, sz, ox, oy, oz;
    uint64_t evlr_offset, count;
    uint32_t evlr_count;
    std::array<uint64_t, 15> returns;
    std::array<uint32_t, 5> legacy_returns;
};
RawNum lhs_to(const In &i, const Args &a)
{
    Raw r = conv(build(i), a);
    RawNum n{};
    n.source = r.file_source_id;
    n.encoding = r.global_encoding;
    n.major = r.version.major;
    n.minor = r.version.minor;
    n.day = r.creation.day;
    n.year = r.creation.year;
    n.header_size = r.header_size;
    n.point_offset = r.point_offset;
    n.vlr_count = r.vlr_count;
    n.format = r.point_format_id;
    n.record = r.point_record_length;
    n.legacy = r.point_count;
    n.mx = r.maxx;
    n.my = r.maxy;
    n.mz = r.maxz;
    n.nx = r.minx;
    n.ny = r.miny;
    n.nz = r.minz;
    n.sx = r.scale.x;
    n.sy = r.scale.y;
    n.sz = r.scale.z;
    n.ox = r.offset.x;
    n.oy = r.offset.y;
    n.oz = r.offset.z;
    n.evlr_offset = r.evlr_offset;
    n.count = r.point_count_14;
    n.evlr_count = r.evlr_count;
    for (int k = 0; k < 15; ++k)
        n.returns[k] = r.points_by_return_14[k];
    for (int k = 0; k < 5; ++k)
        n.legacy_returns[k] = r.points_by_return[k];
    return n;
}
RawNum rhs_to(const In &i, const Args &a)
{
    lengths(i);
    need(i.copc || !a.ext);
    RawNum n{};
    n.source = i.source;
    n.encoding = i.encoding | 0x10;
    n.major = 1;
    n.minor = 4;
    n.day = i.day;
    n.year = i.year;
    n.header_size = 375;
    n.point_offset = a.point_offset;
    n.vlr_count = 1 + (a.eb ? 1 : 0) + (i.copc ? 2 : 0) + (a.ext ? 1 : 0);
    n.format = (uint8_t)i.f | 0x80;
    n.record = i.len;
    n.legacy = a.point_count > 0xffffffffull ? 0 : (uint32_t)a.point_count;
    n.mx = i.max.x;
    n.my = i.max.y;
    n.mz = i.max.z;
    n.nx = i.min.x;
    n.ny = i.min.y;
    n.nz = i.min.z;
    n.sx = i.scale.x;
    n.sy = i.scale.y;
    n.sz = i.scale.z;
    n.ox = i.off.x;
    n.oy = i.off.y;
    n.oz = i.off.z;
    n.evlr_offset = a.evlr_offset;
    n.count = a.point_count;
    n.evlr_count = a.evlr_count;
    n.returns = i.returns;
    return n;
}
Text lhs_totext(const In &i, const Args &a)
{
    Raw r = conv(build(i), a);
    return Text{field(r.guid, 16), field(r.system_identifier, 32), field(r.generating_software, 32)};
}
Text rhs_totext(const In &i, const Args &a)
{
    lengths(i);
    need(i.copc || !a.ext);
    return Text{i.guid.c_str(), i.system.c_str(), i.software.c_str()};
}
// the conversion leaves the header alone
View lhs_tokeeps(const In &i, const Args &a)
{
    H h = build(i);
    conv(h, a);
    return view(h);
}
View rhs_tokeeps(const In &i, const Args &a)
{
    H h = build(i);
    need(i.copc || !a.ext);
    return view(h);
}
// to the file and back
View lhs_roundtrip(const In &i, const Args &a)
{
    assume(i.f >= 0);
    Raw r = conv(build(i), a);
    r.point_format_id &= 0x7f; // reading a header drops the compression bit
    return view(H::FromLazPerf(r));
}
View rhs_roundtrip(const In &i, const Args &a)
{
    assume(i.f >= 0);
    lengths(i);
    need(i.copc || !a.ext);
    need(i.f >= 6 && i.f <= 8);
    return View{i.f,   i.len, a.point_offset, uint32_t(1 + (a.eb ? 1 : 0) + (i.copc ? 2 : 0) + (a.ext ? 1 : 0)),
                a.evlr_count, a.point_count, a.evlr_offset, i.scale, i.off,
                i.max, i.min, i.source, uint16_t(i.encoding | 0x10), i.day, i.year, i.returns, true};
}
// strings are refused when they do not fit and then nothing changes
std::string lhs_guid(H &h, const std::string &s)
{
    h.GUID(s);
    return h.GUID();
}
std::string rhs_guid(H &h, const std::string &s)
{
    need(s.size() <= 16);
    h.GUID(s);
    return s;
}
std::string lhs_system(H &h, const std::string &s)
{
    h.SystemIdentifier(s);
    return h.SystemIdentifier();
}
std::string rhs_system(H &h, const std::string &s)
{
    need(s.size() <= 32);
    h.SystemIdentifier(s);
    return s;
}
std::string lhs_software(H &h, const std::string &s)
{
    h.GeneratingSoftware(s);
    return h.GeneratingSoftware();
}
std::string rhs_software(H &h, const std::string &s)
{
    need(s.size() <= 32);
    h.GeneratingSoftware(s);
    return s;
}
// bounds grow to hold a point, and no further, axis by axis
struct MM
{
    double ax, ay, az, bx, by, bz;
};
MM lhs_bounds(H &h, const Point &p)
{
    h.CheckAndUpdateBounds(p);
    return MM{h.min.x, h.min.y, h.min.z, h.max.x, h.max.y, h.max.z};
}
MM rhs_bounds(H &h, const Point &p)
{
    h.min = Vector3(p.X() < h.min.x ? p.X() : h.min.x, p.Y() < h.min.y ? p.Y() : h.min.y, p.Z() < h.min.z ? p.Z() : h.min.z);
    h.max = Vector3(p.X() > h.max.x ? p.X() : h.max.x, p.Y() > h.max.y ? p.Y() : h.max.y, p.Z() > h.max.z ? p.Z() : h.max.z);
    return MM{h.min.x, h.min.y, h.min.z, h.max.x, h.max.y, h.max.z};
}
void lhs_gps(H &h) { h.SetGpsTimeBit(); }
void rhs_gps(H &h) { h.global_encoding = h.global_encoding | 1; }
double lhs_span(const H &h) { return h.Span(); }
double rhs_span(const H &h)
{
    double x = h.max.x - h.min.x, y = h.max.y - h.min.y, z = h.max.z - h.min.z;
    double m = x < y ? y : x;
    return m < z ? z : m;
}
struct BV
{
    double a, b, c, d, e, f;
};
BV lhs_box(const H &h)
{
    Box b = h.Bounds();
    return BV{b.x_min, b.y_min, b.z_min, b.x_max, b.y_max, b.z_max};
}
BV rhs_box(const H &h)
{
    need(!(h.max.x < h.min.x || h.max.y < h.min.y || h.max.z < h.min.z));
    return BV{h.min.x, h.min.y, h.min.z, h.max.x, h.max.y, h.max.z};
}
// copies
struct Both
{
    View v;
    Text t;
};
Both lhs_copy(const H &h) { return Both{view(H(h)), text(H(h))}; }
Both rhs_copy(const H &h) { return Both{view(h), text(h)}; }
Both lhs_copyflag(const H &h, bool c)
{
    H g(h, c);
    return Both{view(g), text(g)};
}
Both rhs_copyflag(const H &h, bool c)
{
    Both b{view(h), text(h)};
    b.v.copc = c;
    return b;
}
Both lhs_copywith(const H &h, int8_t f, uint16_t len, const Vector3 &s, const Vector3 &o)
{
    H g(h, f, len, s, o);
    return Both{view(g), text(g)};
}
Both rhs_copywith(const H &h, int8_t f, uint16_t len, const Vector3 &s, const Vector3 &o)
{
    Both b{view(h), text(h)};
    b.v.format = f;
    b.v.record = len;
    b.v.scale = s;
    b.v.off = o;
    return b;
}
View lhs_short(int8_t f, uint16_t len, const Vector3 &s, const Vector3 &o, bool c) { return view(H(f, len, s, o, c)); }
View rhs_short(int8_t f, uint16_t len, const Vector3 &s, const Vector3 &o, bool c)
{
    View v{};
    v.format = f;
    v.record = len;
    v.scale = s;
    v.off = o;
    v.copc = c;
    return v;
}

// ---- the COPC info record
typedef lazperf::copc_info_vlr RawInfo;
struct InfoView
{
    double x, y, z, half, spacing;
    uint64_t at, size;
};
InfoView lhs_info(const RawInfo &r)
{
    CopcInfo i(r);
    return InfoView{i.center_x, i.center_y, i.center_z, i.halfsize, i.spacing, i.root_hier_offset, i.root_hier_size};
}
InfoView rhs_info(const RawInfo &r)
{
    return InfoView{r.center_x, r.center_y, r.center_z, r.halfsize, r.spacing, r.root_hier_offset, r.root_hier_size};
}
struct RawView
{
    InfoView i;
    double gmin, gmax;
};
RawView lhs_toinfo(const InfoView &v, const CopcExtent &g)
{
    CopcInfo i;
    i.center_x = v.x;
    i.center_y = v.y;
    i.center_z = v.z;
    i.halfsize = v.half;
    i.spacing = v.spacing;
    i.root_hier_offset = v.at;
    i.root_hier_size = v.size;
    RawInfo r = i.ToLazPerf(g);
    return RawView{{r.center_x, r.center_y, r.center_z, r.halfsize, r.spacing, r.root_hier_offset, r.root_hier_size},
                   r.gpstime_minimum,
                   r.gpstime_maximum};
}
RawView rhs_toinfo(const InfoView &v, const CopcExtent &g) { return RawView{v, g.minimum, g.maximum}; }
InfoView lhs_noinfo(int)
{
    CopcInfo i;
    return InfoView{i.center_x, i.center_y, i.center_z, i.halfsize, i.spacing, i.root_hier_offset, i.root_hier_size};
}
InfoView rhs_noinfo(int) { return InfoView{0, 0, 0, 0, 0, 0, 0}; }
