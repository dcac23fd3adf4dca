// Failed or short I/O is reported, never returned as data
//@ result
#include "point.hpp"
#include "reader.hpp"
#include <copc-lib/hierarchy/entry.hpp>
#include <copc-lib/io/base_reader.hpp>
#include <copc-lib/io/copc_writer.hpp>
#include <copc-lib/io/laz_writer.hpp>
#include <copc-lib/las/utils.hpp>
#include <copc-lib/las/vlr.hpp>
using namespace copc;
using namespace spec;
static void fail() { throw std::runtime_error("short"); }
#define SHORT(name, params, args, read, need)                                                                          \
    bool lhs_##name params                                                                                             \
    {                                                                                                                  \
        read;                                                                                                          \
        return true;                                                                                                   \
    }                                                                                                                  \
    bool rhs_##name params                                                                                             \
    {                                                                                                                  \
        if (need)                                                                                                      \
            fail();                                                                                                    \
        return true;                                                                                                   \
    }
// ---- records
SHORT(entry, (const std::string &s), (s), std::istringstream i(s); Entry::Unpack(i), s.size() < 32)
SHORT(entry2, (const std::string &s), (s), std::istringstream i(s); Entry::Unpack(i); Entry::Unpack(i), s.size() < 64)
SHORT(u8, (const std::string &s), (s), std::istringstream i(s); las::unpack<uint8_t>(i), s.size() < 1)
SHORT(u16, (const std::string &s), (s), std::istringstream i(s); las::unpack<uint16_t>(i), s.size() < 2)
SHORT(u32, (const std::string &s), (s), std::istringstream i(s); las::unpack<uint32_t>(i); las::unpack<uint32_t>(i), s.size() < 8)
SHORT(f64, (const std::string &s), (s), std::istringstream i(s); las::unpack<double>(i), s.size() < 8)
typedef copc::Vector3 V3;
#define POINT(f, n)                                                                                                    \
    SHORT(point##f, (const std::string &s, const V3 &sc, const V3 &of, uint16_t eb), (s), std::istringstream i(s);     \
          las::Point::Unpack(i, f, sc, of, eb), s.size() < n + eb)
POINT(6, 30)
POINT(7, 36)
POINT(8, 38)
SHORT(extents1, (const std::string &s), (s), std::istringstream i(s); las::CopcExtentsVlr::create(i, 16), s.size() < 16)
SHORT(extents3, (const std::string &s), (s), std::istringstream i(s); las::CopcExtentsVlr::create(i, 48), s.size() < 48)
// ---- hierarchy pages and chunks
#define PAGE(n)                                                                                                        \
    SHORT(page##n, (const std::string &s), (s), assume(s.size() < 32 * n); std::istringstream i(s);                    \
          CopcIn r(i, 0, 32 * n); r.GetAllNodes(), (assume(s.size() < 32 * n), true))
PAGE(1)
PAGE(2)
// entries which cannot be: the page is not taken to end before them
static void put_entry(std::ostream &o, const VoxelKey &k, uint64_t at, int32_t size, int32_t count)
{
    put(o, k.d);
    put(o, k.x);
    put(o, k.y);
    put(o, k.z);
    put(o, at);
    put(o, size);
    put(o, count);
}
#define DAMAGED(name, n, entries)                                                                                      \
    SHORT(damaged_##name, (uint64_t at, int32_t size, int32_t count), (at, size, count),                                \
          assume(size >= 0 && count >= 0); std::ostringstream o; entries; std::istringstream i(o.str());                \
          CopcIn r(i, 0, 32 * n); r.GetAllNodes(), (assume(size >= 0 && count >= 0), true))
DAMAGED(first, 2, put_entry(o, VoxelKey(-1, 0, 0, 0), at, size, count); put_entry(o, VoxelKey(1, 0, 0, 0), at, size, count))
DAMAGED(second, 2, put_entry(o, VoxelKey(1, 0, 0, 0), at, size, count); put_entry(o, VoxelKey(1, 0, -1, 0), at, size, count))
DAMAGED(third, 3, put_entry(o, VoxelKey(0, 0, 0, 0), at, size, count); put_entry(o, VoxelKey(1, 0, 0, 0), at, size, count);
        put_entry(o, VoxelKey(2, 0, 0, 0), at, -1, count))
DAMAGED(below, 1, put_entry(o, VoxelKey(1, 0, 0, 0), 32, 64, -1); put_entry(o, VoxelKey(1, 0, 0, 0), at, size, count);
        put_entry(o, VoxelKey(2, 0, 0, -5), at, size, count))
SHORT(chunk, (const std::string &s, uint32_t at, uint16_t n), (s), std::istringstream i(s); CopcIn r(i, 0, 0);
      r.GetPointDataCompressed(Node(Entry(VoxelKey(0, 0, 0, 0), at, n, 1))), s.size() < (uint64_t)at + n)
// ---- VLRs: a file of n bytes that ends inside one
struct Vlrs : BaseReader
{
    Vlrs(std::istream &i)
    {
        in_stream_ = &i;
        reader_ = std::make_unique<lazperf::reader::generic_file>(i);
        vlrs_ = ReadVlrHeaders();
    }
    las::WktVlr wkt() { return ReadWktVlr(vlrs_); }
    las::EbVlr eb() { return ReadExtraBytesVlr(vlrs_); }
};
struct Head
{
    std::ostringstream o;
    Head(int vlrs, int evlrs, uint64_t at)
    {
        lazperf::header14 h;
        h.version.minor = 4;
        h.global_encoding = 16;
        h.point_record_length = 30;
        h.header_size = 375;
        h.point_format_id = 6 | 128;
        h.vlr_count = vlrs;
        h.evlr_count = evlrs;
        h.evlr_offset = at;
        h.write(o);
    }
    void pad(const std::string &s) { o.write(s.data(), s.size()); }
};
#define CUT(name, make, use, need)                                                                                     \
    bool lhs_##name(const std::string &s)                                                                              \
    {                                                                                                                  \
        make;                                                                                                          \
        std::istringstream i(h.o.str());                                                                               \
        Vlrs v(i);                                                                                                     \
        use;                                                                                                           \
        return true;                                                                                                   \
    }                                                                                                                  \
    bool rhs_##name(const std::string &s)                                                                              \
    {                                                                                                                  \
        if (need)                                                                                                      \
            fail();                                                                                                    \
        return true;                                                                                                   \
    }
CUT(vlr, Head h(1, 0, 0); h.pad(s); assume(s.size() < 54), , (assume(s.size() < 54), true))
CUT(evlr, Head h(0, 1, 375); h.pad(s); assume(s.size() < 60), , (assume(s.size() < 60), true))
CUT(evlr_beyond, Head h(0, 1, 1000); h.pad(s); assume(s.size() < 600), , (assume(s.size() < 600), true))
CUT(vlr2, Head h(2, 0, 0); lazperf::vlr_header({0, "a", 1, 0, ""}).write(h.o); h.pad(s); assume(s.size() < 54), ,
    (assume(s.size() < 54), true))
CUT(evlr2, Head h(0, 2, 375); lazperf::evlr_header({0, "a", 1, 100, ""}).write(h.o); h.pad(s); assume(s.size() < 160), ,
    (assume(s.size() < 160), true))
CUT(wkt, Head h(1, 0, 0); lazperf::vlr_header({0, "LASF_Projection", 2112, 1000, ""}).write(h.o); h.pad(s), v.wkt(),
    s.size() < 1000)
CUT(wkt_evlr, Head h(0, 1, 375); lazperf::evlr_header({0, "LASF_Projection", 2112, 1000, ""}).write(h.o); h.pad(s),
    v.wkt(), s.size() < 1000)
CUT(eb, Head h(1, 0, 0); lazperf::vlr_header({0, "LASF_Spec", 4, 192 * 3, ""}).write(h.o); h.pad(s), v.eb(),
    s.size() < 192 * 3)
CUT(eb_evlr, Head h(0, 1, 375); lazperf::evlr_header({0, "LASF_Spec", 4, 192, ""}).write(h.o); h.pad(s), v.eb(),
    s.size() < 192)
struct Infos : Reader
{
    Infos(std::istream &i)
    {
        in_stream_ = &i;
        reader_ = std::make_unique<lazperf::reader::generic_file>(i);
        vlrs_ = ReadVlrHeaders();
    }
    using Reader::ReadCopcInfoVlr;
    using Reader::ReadCopcExtentsVlr;
    std::map<uint64_t, las::VlrHeader> &vlrs() { return vlrs_; }
};
#define CUT2(name, make, use, need)                                                                                    \
    bool lhs_##name(const std::string &s)                                                                              \
    {                                                                                                                  \
        make;                                                                                                          \
        std::istringstream i(h.o.str());                                                                               \
        Infos v(i);                                                                                                    \
        use;                                                                                                           \
        return true;                                                                                                   \
    }                                                                                                                  \
    bool rhs_##name(const std::string &s)                                                                              \
    {                                                                                                                  \
        if (need)                                                                                                      \
            fail();                                                                                                    \
        return true;                                                                                                   \
    }
CUT2(info, Head h(1, 0, 0); lazperf::vlr_header({0, "copc", 1, 160, ""}).write(h.o); h.pad(s),
     v.ReadCopcInfoVlr(v.vlrs()), s.size() < 160)
CUT2(info_none, Head h(1, 0, 0); lazperf::vlr_header({0, "copc", 2, 160, ""}).write(h.o); h.pad(s),
     v.ReadCopcInfoVlr(v.vlrs()), true)
CUT2(extents, Head h(1, 0, 0); lazperf::vlr_header({0, "copc", 10000, 16 * 14, ""}).write(h.o); h.pad(s);
     assume(s.size() < 16 * 14), v.ReadCopcExtentsVlr(v.vlrs(), las::EbVlr()), (assume(s.size() < 16 * 14), true))
CUT2(extents_evlr, Head h(0, 1, 375); lazperf::evlr_header({0, "copc", 10000, 16 * 14, ""}).write(h.o); h.pad(s);
     assume(s.size() < 16 * 14), v.ReadCopcExtentsVlr(v.vlrs(), las::EbVlr()), (assume(s.size() < 16 * 14), true))
// ---- streams which are not usable
#define USED(name, what)                                                                                               \
    bool lhs_##name(const std::string &s)                                                                              \
    {                                                                                                                  \
        Head h(0, 0, 0);                                                                                               \
        std::istringstream i(h.o.str());                                                                               \
        char past[1000];                                                                                               \
        i.read(past, 1000);                                                                                            \
        what;                                                                                                          \
        return true;                                                                                                   \
    }                                                                                                                  \
    bool rhs_##name(const std::string &s)                                                                              \
    {                                                                                                                  \
        fail();                                                                                                        \
        return true;                                                                                                   \
    }
USED(open_copc, CopcIn r(&i))
USED(open_laz, LazIn r(&i))
// ---- files which cannot be opened, and chunks written to streams which have failed
static bool reads(const std::string &path)
{
    std::fstream f;
    f.open(path.c_str(), std::ios::in | std::ios::binary);
    return f.good();
}
static bool writes(const std::string &path)
{
    std::fstream f;
    f.open(path.c_str(), std::ios::out | std::ios::binary);
    return f.good();
}
#define OPEN(name, mode, what)                                                                                         \
    bool lhs_##name(const std::string &path, const CopcConfig &cc, const las::LazConfig &lc)                           \
    {                                                                                                                  \
        assume(!mode(path));                                                                          \
        what;                                                                                                          \
        return true;                                                                                                   \
    }                                                                                                                  \
    bool rhs_##name(const std::string &path, const CopcConfig &cc, const las::LazConfig &lc)                           \
    {                                                                                                                  \
        assume(!mode(path));                                                                          \
        fail();                                                                                                        \
        return true;                                                                                                   \
    }
OPEN(read_copc, reads, FileReader r(path))
OPEN(read_laz, reads, laz::LazFileReader r(path))
OPEN(write_copc, writes, FileWriter w(path, CopcConfigWriter(cc)))
OPEN(write_laz, writes, laz::LazFileWriter w(path, las::LazConfigWriter(lc)))
