// No access leaves its buffer, table or record: safe_x reaches library code with arbitrary inputs; every index, range,
// dereference and lookup met on the way must stay inside its object
#include "spec.hpp"
#include <copc-lib/copc/copc_config.hpp>
#include <copc-lib/copc/extents.hpp>
#include <copc-lib/geometry/box.hpp>
#include <copc-lib/geometry/vector3.hpp>
#include <copc-lib/hierarchy/entry.hpp>
#include <copc-lib/hierarchy/key.hpp>
#include <copc-lib/las/header.hpp>
#include <copc-lib/las/points.hpp>
#include <copc-lib/las/utils.hpp>
#include <copc-lib/las/vlr.hpp>
#include <copc-lib/laz/compressor.hpp>
#include <copc-lib/laz/decompressor.hpp>
#include <lazperf/filestream.hpp>
#include <lazperf/header.hpp>
using namespace copc;
typedef las::CopcExtentsVlr EV;
typedef las::CopcExtentsVlr::CopcExtent Item;
typedef std::vector<Item> Items;
typedef std::vector<double> D;

// ---- values made from lists
void safe_vector(const D &v) { Vector3 x(v); }
void safe_box(const D &v) { Box x(v); }
void safe_key(const std::vector<int32_t> &v) { VoxelKey x(v); }
void safe_extent(const D &v) { CopcExtent x(v); }
void safe_children(const VoxelKey &k) { k.GetChildren(); }

// ---- point formats
void safe_basebytes(int8_t f) { las::PointBaseByteSize(f); }
void safe_basedims(int8_t f) { las::PointBaseNumberDimensions(f); }
void safe_baseextents(int8_t f) { PointBaseNumberExtents(f); }
void safe_size(int8_t f, uint16_t n) { las::PointByteSize(f, n); }
void safe_extrabytes(const las::EbVlr &v) { las::NumBytesFromExtraBytes(v.items); }

// ---- points
void safe_unpackpoint(std::istream &i, int8_t f, uint16_t n, const Vector3 &s, const Vector3 &o) { las::Point::Unpack(i, f, s, o, n); }
void safe_packpoint(std::ostream &o, const las::Point &p, const Vector3 &s, const Vector3 &f) { p.Pack(o, s, f); }
void safe_copypoint(const las::Point &p) { las::Point q(p); }
void safe_pointformat(las::Point &p, int8_t f) { p.ToPointFormat(f); }
void safe_equalpoints(const las::Point &p, const las::Point &q) { p == q; }
void safe_rgb(las::Point &p, const std::vector<uint16_t> &v) { p.Rgb(v); }

// ---- containers of points
typedef std::vector<std::shared_ptr<las::Point>> PV;
void safe_points(const PV &v) { las::Points p(v); }
void safe_unpackpoints(const std::vector<char> &d, int8_t f, uint16_t n, const Vector3 &s, const Vector3 &o)
{
    las::Points::Unpack(d, f, n, s, o);
}
void safe_setx(las::Points &p, const D &v) { p.X(v); }
void safe_sety(las::Points &p, const D &v) { p.Y(v); }
void safe_setz(las::Points &p, const D &v) { p.Z(v); }
void safe_setclass(las::Points &p, const std::vector<uint8_t> &v) { p.Classification(v); }
void safe_setsource(las::Points &p, const std::vector<uint16_t> &v) { p.PointSourceId(v); }
void safe_setred(las::Points &p, const std::vector<uint16_t> &v) { p.Red(v); }
void safe_setgreen(las::Points &p, const std::vector<uint16_t> &v) { p.Green(v); }
void safe_setblue(las::Points &p, const std::vector<uint16_t> &v) { p.Blue(v); }
void safe_getx(las::Points &p) { p.X(); }
void safe_gety(las::Points &p) { p.Y(); }
void safe_getz(las::Points &p) { p.Z(); }
void safe_getclass(las::Points &p) { p.Classification(); }
void safe_getsource(las::Points &p) { p.PointSourceId(); }
void safe_getred(las::Points &p) { p.Red(); }
void safe_getgreen(las::Points &p) { p.Green(); }
void safe_getblue(las::Points &p) { p.Blue(); }
void safe_within(las::Points &p, const Box &b)
{
    p.Within(b);
    p.GetWithin(b);
}
void safe_addpoints(las::Points &p, const las::Points &q) { p.AddPoints(q); }

// ---- compression: what laz-perf reads and writes per point lies inside the buffers
void safe_compress(std::ostream &o, int8_t f, uint16_t n, const std::vector<char> &d)
{
    laz::Compressor::CompressBytes(o, f, n, d);
}
void safe_compresshdr(std::ostream &o, const las::LasHeader &h, const std::vector<char> &d)
{
    laz::Compressor::CompressBytes(o, h, d);
}
void safe_decompress(std::istream &i, int8_t f, uint16_t n, int c) { laz::Decompressor::DecompressBytes(i, f, n, c); }
void safe_decompresshdr(std::istream &i, const las::LasHeader &h, int c) { laz::Decompressor::DecompressBytes(i, h, c); }

// ---- headers, records and entries from files
void safe_fromlazperf(const lazperf::header14 &h) { las::LasHeader::FromLazPerf(h); }
void safe_tolazperf(const las::LasHeader &h, uint32_t a, uint64_t n, uint32_t e, uint64_t w, bool z, bool x)
{
    h.ToLazPerf(a, n, e, w, z, x);
}
void safe_entry(std::istream &i) { Entry::Unpack(i); }
void safe_packentry(std::ostream &o, const Entry &e)
{
    Entry c = e;
    c.Pack(o);
}
void safe_readextents(std::istream &i, int n) { EV::create(i, n); }
void safe_writeextents(std::ostream &o, const EV &v) { v.write(o); }
void safe_vlrheader(const lazperf::vlr_header &h) { las::VlrHeader x(h); }

// ---- extents
static EV made(const Items &items)
{
    EV v;
    v.items = items;
    return v;
}
void safe_extents(int8_t f, uint16_t n, bool x) { CopcExtents e(f, n, x); }
void safe_extentsvlr(const Items &v, int8_t f, uint16_t n, bool x) { CopcExtents e(made(v), f, n, x); }
void safe_extentscopy(const Items &v, int8_t f, uint16_t n, bool x)
{
    CopcExtents e(made(v), f, n, x);
    CopcExtents c(e);
}
void safe_extentsconvert(const Items &v, int8_t f, uint16_t n, bool x, int8_t g, uint16_t m, bool y)
{
    CopcExtents e(made(v), f, n, x);
    CopcExtents c(e, g, m, y);
}
void safe_extentsstats(const Items &v, const Items &w, int8_t f, uint16_t n)
{
    CopcExtents e(made(v), f, n, true);
    e.SetExtendedStats(made(w));
}
void safe_extentsget(const Items &v, int8_t f, uint16_t n)
{
    CopcExtents e(made(v), f, n, true);
    e.X(), e.Y(), e.Z(), e.Intensity(), e.ReturnNumber(), e.NumberOfReturns(), e.ScannerChannel();
    e.ScanDirectionFlag(), e.EdgeOfFlightLine(), e.Classification(), e.UserData(), e.ScanAngle();
    e.PointSourceId(), e.GpsTime();
    e.Extents();
    e.ToLazPerfExtended();
    e.ExtraBytes();
}
void safe_extentsred(const Items &v, int8_t f, uint16_t n) { CopcExtents(made(v), f, n, true).Red(); }
void safe_extentsgreen(const Items &v, int8_t f, uint16_t n) { CopcExtents(made(v), f, n, true).Green(); }
void safe_extentsblue(const Items &v, int8_t f, uint16_t n) { CopcExtents(made(v), f, n, true).Blue(); }
void safe_extentsnir(const Items &v, int8_t f, uint16_t n) { CopcExtents(made(v), f, n, true).Nir(); }
typedef std::shared_ptr<CopcExtent> P;
void safe_setextents(const Items &v, int8_t f, uint16_t n, const P &p)
{
    CopcExtents e(made(v), f, n, true);
    e.X(p), e.Y(p), e.Z(p), e.Intensity(p), e.ReturnNumber(p), e.NumberOfReturns(p), e.ScannerChannel(p);
    e.ScanDirectionFlag(p), e.EdgeOfFlightLine(p), e.Classification(p), e.UserData(p), e.ScanAngle(p);
    e.PointSourceId(p), e.GpsTime(p);
}
void safe_setextentred(const Items &v, int8_t f, uint16_t n, const P &p) { CopcExtents(made(v), f, n, true).Red(p); }
void safe_setextentgreen(const Items &v, int8_t f, uint16_t n, const P &p) { CopcExtents(made(v), f, n, true).Green(p); }
void safe_setextentblue(const Items &v, int8_t f, uint16_t n, const P &p) { CopcExtents(made(v), f, n, true).Blue(p); }
void safe_setextentnir(const Items &v, int8_t f, uint16_t n, const P &p) { CopcExtents(made(v), f, n, true).Nir(p); }
void safe_setextrabytes(const Items &v, int8_t f, uint16_t n, const std::vector<P> &p)
{
    CopcExtents(made(v), f, n, true).ExtraBytes(p);
}
void safe_extentstext(const Items &v, int8_t f, uint16_t n) { CopcExtents(made(v), f, n, true).ToString(); }
