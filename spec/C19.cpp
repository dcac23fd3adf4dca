// Configurations are values: copies and snapshots are independent
#include "copc_file.hpp"
#include <sstream>
using namespace copc;
using namespace copc::laz;
using namespace copc::las;
using namespace spec;
// everything a header shows
struct HV
{
    int8_t fmt;
    uint16_t len;
    Vector3 scale, offset, min, max;
    uint64_t points, evlr;
    uint32_t off, vlrs, evlrs;
    bool copc;
    std::string guid, sys, gen;
    uint16_t source, encoding, day, year;
    std::array<uint64_t, 15> returns;
};
static HV view(const LasHeader &h)
{
    return HV{h.PointFormatId(), h.PointRecordLength(), h.Scale(), h.Offset(), h.min, h.max, h.PointCount(),
              h.EvlrOffset(), h.PointOffset(), h.VlrCount(), h.EvlrCount(), h.IsCopc(), h.GUID(), h.SystemIdentifier(),
              h.GeneratingSoftware(), h.file_source_id, h.global_encoding, h.creation_day, h.creation_year, h.points_by_return};
}
struct CV
{
    HV h;
    std::string wkt;
    std::vector<las::EbVlr::ebfield> eb;
    double cx, cy, cz, half, spacing;
    uint64_t off, size;
    int8_t fmt;
    bool ext;
    std::vector<CopcExtent> x;
};
static CV view(const CopcConfig &c)
{
    CopcInfo i = c.CopcInfo();
    const CopcExtents x = c.CopcExtents();
    return CV{view(c.LasHeader()), c.Wkt(), c.ExtraBytesVlr().items, i.center_x, i.center_y, i.center_z, i.halfsize,
              i.spacing, i.root_hier_offset, i.root_hier_size, x.PointFormatId(), x.HasExtendedStats(), x.Extents()};
}
struct LV
{
    HV h;
    std::string wkt;
    std::vector<las::EbVlr::ebfield> eb;
};
static LV view(const LazConfig &c) { return LV{view(c.LasHeader()), c.Wkt(), c.ExtraBytesVlr().items}; }
static void scramble(LasHeader &h, double v)
{
    h.min.x = v;
    h.max = Vector3(v, v, v);
    h.file_source_id = 7;
    h.global_encoding = 9;
    h.creation_day = 3;
    h.creation_year = 1999;
    h.points_by_return[2] = 5;
    h.GUID("guid");
    h.SystemIdentifier("sys");
    h.GeneratingSoftware("gen");
}
static void scramble(CopcInfo &i, double v)
{
    i.center_x = v;
    i.spacing = v;
    i.root_hier_offset = 4;
    i.root_hier_size = 6;
}
static void scramble(CopcExtents &x, double v)
{
    x.X()->minimum = v;
    x.GpsTime()->maximum = v;
    x.Intensity()->mean = v;
    x.UserData(std::make_shared<CopcExtent>(1, 2, 3, 4));
}
static void scramble(CopcConfigWriter &c, double v)
{
    scramble(*c.LasHeader(), v);
    scramble(*c.CopcInfo(), v);
    scramble(*c.CopcExtents(), v);
}
static void whole(const CopcConfig &c)
{
    assume(c.ExtraBytesVlr().items.size() <= 341);
    assume(c.LasHeader().PointFormatId() >= 6 && c.LasHeader().PointFormatId() <= 8);
    assume(c.CopcExtents().PointFormatId() == c.LasHeader().PointFormatId());
    int f = c.LasHeader().PointFormatId();
    assume(c.CopcExtents().NumberOfExtents() == 14 + (f == 7 ? 3 : f == 8 ? 4 : 0) + (int)c.ExtraBytesVlr().items.size());
}
// ---- copies
static CV copied(const CopcConfig &c)
{
    CV v = view(c);
    v.h.copc = true;
    return v;
}
CV lhs_copy(const CopcConfig &c) { return view(CopcConfigWriter(c)); }
CV rhs_copy(const CopcConfig &c) { return copied(c); }
CV lhs_copy_writer(const CopcConfig &c)
{
    CopcConfigWriter a(c);
    CopcConfigWriter b(a);
    return view(b);
}
CV rhs_copy_writer(const CopcConfig &c) { return copied(c); }
CV lhs_parts(const LasHeader &h, const CopcInfo &i, const CopcConfig &c, const std::string &wkt, const las::EbVlr &eb)
{
    CopcConfigWriter w(h, i, c.CopcExtents(), wkt, eb);
    return view(w);
}
CV rhs_parts(const LasHeader &h, const CopcInfo &i, const CopcConfig &c, const std::string &wkt, const las::EbVlr &eb)
{
    CV v = view(c);
    v.h = view(h);
    v.h.copc = true;
    v.wkt = wkt;
    v.eb = eb.items;
    v.cx = i.center_x, v.cy = i.center_y, v.cz = i.center_z, v.half = i.halfsize, v.spacing = i.spacing;
    v.off = i.root_hier_offset, v.size = i.root_hier_size;
    return v;
}
CV lhs_from_laz(const LazConfig &l, const CopcConfig &c) { return view(CopcConfig(l, c.CopcInfo(), c.CopcExtents())); }
CV rhs_from_laz(const LazConfig &l, const CopcConfig &c)
{
    CV v = view(c);
    LV w = view(l);
    v.h = w.h;
    v.h.copc = true;
    v.wkt = w.wkt;
    v.eb = w.eb;
    return v;
}
LV lhs_laz_copy(const LazConfig &c) { return view(LazConfigWriter(c)); }
LV rhs_laz_copy(const LazConfig &c)
{
    LV v = view(c);
    v.h.copc = false;
    return v;
}
LV lhs_laz_copy_writer(const LazConfig &c)
{
    LazConfigWriter a(c);
    return view(LazConfigWriter(a));
}
LV rhs_laz_copy_writer(const LazConfig &c) { return rhs_laz_copy(c); }
LV lhs_laz_from_copc(const CopcConfig &c) { return view(LazConfig(c)); }
LV rhs_laz_from_copc(const CopcConfig &c) { return LV{view(c.LasHeader()), c.Wkt(), c.ExtraBytesVlr().items}; }
LV lhs_laz_writer_from_copc(const CopcConfig &c) { return view(LazConfigWriter(c)); }
LV rhs_laz_writer_from_copc(const CopcConfig &c)
{
    LV v{view(c.LasHeader()), c.Wkt(), c.ExtraBytesVlr().items};
    v.h.copc = false;
    return v;
}
// ---- independence
CV lhs_copy_kept(const CopcConfig &c, double v)
{
    whole(c);
    CopcConfigWriter a(c);
    CopcConfigWriter b(a);
    scramble(a, v);
    return view(b);
}
CV rhs_copy_kept(const CopcConfig &c, double v)
{
    whole(c);
    return copied(c);
}
CV lhs_source_kept(const CopcConfig &c, double v)
{
    whole(c);
    CopcConfigWriter a(c);
    CopcConfigWriter b(a);
    scramble(b, v);
    return view(a);
}
CV rhs_source_kept(const CopcConfig &c, double v) { return rhs_copy_kept(c, v); }
CV lhs_base_kept(const CopcConfig &c, double v)
{
    whole(c);
    CopcConfigWriter a(c);
    scramble(a, v);
    return view(c);
}
CV rhs_base_kept(const CopcConfig &c, double v)
{
    whole(c);
    return view(c);
}
CV lhs_parts_kept(LasHeader h, CopcInfo i, const CopcConfig &c, const std::string &wkt, const las::EbVlr &eb, double v)
{
    whole(c);
    CopcExtents x(c.CopcExtents());
    CopcConfigWriter w(h, i, x, wkt, eb);
    scramble(h, v);
    scramble(i, v);
    scramble(x, v);
    return view(w);
}
CV rhs_parts_kept(LasHeader h, CopcInfo i, const CopcConfig &c, const std::string &wkt, const las::EbVlr &eb, double v)
{
    whole(c);
    return rhs_parts(h, i, c, wkt, eb);
}
LV lhs_laz_copy_kept(const LazConfig &c, double v)
{
    LazConfigWriter a(c);
    LazConfigWriter b(a);
    LazConfigWriter d(a);
    scramble(*a.LasHeader(), v);
    scramble(*d.LasHeader(), v);
    return view(b);
}
LV rhs_laz_copy_kept(const LazConfig &c, double v) { return rhs_laz_copy(c); }
LV lhs_laz_source_kept(const LazConfig &c, double v)
{
    LazConfigWriter a(c);
    LazConfigWriter b(a);
    scramble(*b.LasHeader(), v);
    return view(a);
}
LV rhs_laz_source_kept(const LazConfig &c, double v) { return rhs_laz_copy(c); }
LV lhs_laz_base_kept(const LazConfig &c, double v)
{
    LazConfigWriter b(c);
    scramble(*b.LasHeader(), v);
    return view(c);
}
LV rhs_laz_base_kept(const LazConfig &c, double v) { return view(c); }
LV lhs_converted_kept(const CopcConfig &c, double v)
{
    whole(c);
    CopcConfigWriter a(c);
    LazConfig l(a);
    scramble(a, v);
    return view(l);
}
LV rhs_converted_kept(const CopcConfig &c, double v)
{
    whole(c);
    view(c);
    LV w{view(c.LasHeader()), c.Wkt(), c.ExtraBytesVlr().items};
    w.h.copc = true;
    return w;
}
// the getters of a constant configuration give snapshots
CV lhs_snapshot(const CopcConfig &c, double v)
{
    whole(c);
    CopcConfigWriter a(c);
    const CopcConfigWriter &k = a;
    LasHeader h = k.LasHeader();
    CopcInfo i = k.CopcInfo();
    CopcExtents x = k.CopcExtents();
    scramble(a, v);
    CV r = view(k);
    const CopcExtents &xk = x;
    r.h = view(h);
    r.cx = i.center_x, r.spacing = i.spacing, r.off = i.root_hier_offset, r.size = i.root_hier_size;
    r.x = xk.Extents();
    return r;
}
CV rhs_snapshot(const CopcConfig &c, double v)
{
    whole(c);
    CV r = copied(c);
    CopcConfigWriter a(c);
    scramble(a, v);
    const CopcConfigWriter &k = a;
    k.CopcExtents();
    return r;
}
CV lhs_snapshot_changed(const CopcConfig &c, double v)
{
    whole(c);
    CopcConfigWriter a(c);
    const CopcConfigWriter &k = a;
    LasHeader h = k.LasHeader();
    CopcInfo i = k.CopcInfo();
    CopcExtents x = k.CopcExtents();
    scramble(h, v);
    scramble(i, v);
    scramble(x, v);
    return view(a);
}
CV rhs_snapshot_changed(const CopcConfig &c, double v)
{
    whole(c);
    return copied(c);
}
// ---- the configuration of a writer
CV lhs_handed(const CopcConfig &c, double v)
{
    whole(c);
    CopcConfigWriter a(c);
    std::ostringstream o;
    Writer w(o, a);
    scramble(a, v);
    return view(*w.CopcConfig());
}
CV rhs_handed(const CopcConfig &c, double v)
{
    whole(c);
    CopcConfigWriter a(c);
    std::ostringstream o;
    CV r = copied(c);
    Writer w(o, a);
    return r;
}
CV lhs_handed_back(const CopcConfig &c, double v)
{
    whole(c);
    CopcConfigWriter a(c);
    std::ostringstream o;
    {
        Writer w(o, a);
        w.CopcConfig()->LasHeader()->file_source_id = 5;
        w.CopcConfig()->CopcInfo()->spacing = v;
        w.CopcConfig()->CopcExtents()->X()->mean = v;
    }
    return view(a);
}
CV rhs_handed_back(const CopcConfig &c, double v)
{
    whole(c);
    CopcConfigWriter a(c);
    std::ostringstream o;
    CV r = copied(c);
    {
        Writer w(o, a);
    }
    return r;
}
LV lhs_laz_handed(const LazConfig &c, double v)
{
    LazConfigWriter a(c);
    std::ostringstream o;
    LazWriter w(o, a);
    scramble(*a.LasHeader(), v);
    return view(*w.LazConfig());
}
LV rhs_laz_handed(const LazConfig &c, double v)
{
    LazConfigWriter a(c);
    std::ostringstream o;
    LazWriter w(o, a);
    return rhs_laz_copy(c);
}
LV lhs_laz_handed_back(const LazConfig &c, double v)
{
    LazConfigWriter a(c);
    std::ostringstream o;
    {
        LazWriter w(o, a);
        w.LazConfig()->LasHeader()->file_source_id = 3;
        w.LazConfig()->LasHeader()->points_by_return[1] = 3;
    }
    return view(a);
}
LV rhs_laz_handed_back(const LazConfig &c, double v)
{
    LazConfigWriter a(c);
    std::ostringstream o;
    {
        LazWriter w(o, a);
    }
    return rhs_laz_copy(c);
}
