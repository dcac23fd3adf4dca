// Compression handles every point exactly once, in order, with the format of the file
#include "spec.hpp"
#include <copc-lib/io/laz_reader.hpp>
#include <copc-lib/las/utils.hpp>
#include <copc-lib/laz/compressor.hpp>
#include <copc-lib/laz/decompressor.hpp>
#include <cstring>
#include <lazperf/filestream.hpp>
#include <lazperf/readers.hpp>
using namespace copc;
using laz::Compressor;
using laz::Decompressor;
typedef laz::LazReader LazIn;
typedef std::vector<char> B;
static int base(int8_t f)
{
    if (f == 6)
        return 30;
    if (f == 7)
        return 36;
    if (f == 8)
        return 38;
    throw std::runtime_error("format");
}
static uint16_t size(int8_t f, uint16_t eb)
{
    int n = base(f) + eb;
    if (n > 65535)
        throw std::runtime_error("record too long");
    return n;
}
// records of d, in order, into o
static int32_t feed(std::ostream &o, int8_t f, uint16_t eb, const B &d)
{
    int n = size(f, eb);
    if (d.size() % n != 0 || d.size() > 2147483647)
        throw std::runtime_error("not records");
    lazperf::OutFileStream s(o);
    auto z = lazperf::build_las_compressor(s.cb(), f, eb);
    int32_t k = (int32_t)d.size() / n;
    for (int32_t i = 0; i < k; i++)
        z->compress(d.data() + i * n);
    z->done();
    return k;
}
static B text(const std::ostringstream &o)
{
    std::string s = o.str();
    return B(s.begin(), s.end());
}
// ---- compression of any number of records
int32_t lhs_comp(std::ostringstream &o, int8_t f, uint16_t eb, const B &d) { return Compressor::CompressBytes(o, f, eb, d); }
int32_t rhs_comp(std::ostringstream &o, int8_t f, uint16_t eb, const B &d) { return feed(o, f, eb, d); }
int32_t lhs_comp_header(std::ostringstream &o, const las::LasHeader &h, const B &d) { return Compressor::CompressBytes(o, h, d); }
int32_t rhs_comp_header(std::ostringstream &o, const las::LasHeader &h, const B &d)
{
    return feed(o, h.PointFormatId(), h.EbByteSize(), d);
}
B lhs_comp_bytes(int8_t f, uint16_t eb, const B &d) { return Compressor::CompressBytes(d, f, eb); }
B rhs_comp_bytes(int8_t f, uint16_t eb, const B &d)
{
    std::ostringstream o;
    feed(o, f, eb, d);
    return text(o);
}
B lhs_comp_bytes_header(const las::LasHeader &h, B d) { return Compressor::CompressBytes(d, h); }
B rhs_comp_bytes_header(const las::LasHeader &h, B d)
{
    std::ostringstream o;
    feed(o, h.PointFormatId(), h.EbByteSize(), d);
    return text(o);
}
// ---- and of a few (every byte of every record, in order)
template <int F, int E, int K> int32_t few_l(std::ostringstream &o, const B &d)
{
    assume(d.size() == (F == 6 ? 30 : F == 7 ? 36 : 38) * K + E * K);
    return Compressor::CompressBytes(o, F, E, d);
}
template <int F, int E, int K> int32_t few_r(std::ostringstream &o, const B &d)
{
    const int n = (F == 6 ? 30 : F == 7 ? 36 : 38) + E;
    assume(d.size() == n * K);
    lazperf::OutFileStream s(o);
    auto z = lazperf::build_las_compressor(s.cb(), F, E);
    for (int i = 0; i < K; i++)
        z->compress(d.data() + i * n);
    z->done();
    return K;
}
#define FEW(n, F, E, K)                                                                                                \
    int32_t lhs_##n(std::ostringstream &o, const B &d) { return few_l<F, E, K>(o, d); }                                \
    int32_t rhs_##n(std::ostringstream &o, const B &d) { return few_r<F, E, K>(o, d); }
FEW(none, 6, 0, 0)
FEW(one6, 6, 0, 1)
FEW(one8, 8, 5, 1)
FEW(two6, 6, 3, 2)
FEW(two7, 7, 0, 2)
FEW(two8, 8, 258, 2)
FEW(three7, 7, 4, 3)
FEW(three8, 8, 0, 3)
// ---- decompression
static B back(std::istream &i, int8_t f, uint16_t eb, int n)
{
    B out;
    lazperf::InFileStream s(i);
    auto z = lazperf::build_las_decompressor(s.cb(), f, eb);
    B one(size(f, eb));
    for (int k = 0; k < n; k++)
    {
        z->decompress(one.data());
        out.insert(out.end(), one.begin(), one.end());
    }
    i.clear();
    return out;
}
B lhs_dec(std::istringstream &i, int8_t f, uint16_t eb, int n) { return Decompressor::DecompressBytes(i, f, eb, n); }
B rhs_dec(std::istringstream &i, int8_t f, uint16_t eb, int n) { return back(i, f, eb, n); }
B lhs_dec_header(std::istringstream &i, const las::LasHeader &h, int n) { return Decompressor::DecompressBytes(i, h, n); }
B rhs_dec_header(std::istringstream &i, const las::LasHeader &h, int n) { return back(i, h.PointFormatId(), h.EbByteSize(), n); }
B lhs_dec_bytes(const B &d, int8_t f, uint16_t eb, int n) { return Decompressor::DecompressBytes(d, f, eb, n); }
B rhs_dec_bytes(const B &d, int8_t f, uint16_t eb, int n)
{
    std::istringstream i(std::string(d.begin(), d.end()));
    return back(i, f, eb, n);
}
B lhs_dec_bytes_header(const B &d, const las::LasHeader &h, int n) { return Decompressor::DecompressBytes(d, h, n); }
B rhs_dec_bytes_header(const B &d, const las::LasHeader &h, int n)
{
    std::istringstream i(std::string(d.begin(), d.end()));
    return back(i, h.PointFormatId(), h.EbByteSize(), n);
}
template <int F, int E, int K> B dfew_l(std::istringstream &i) { return Decompressor::DecompressBytes(i, F, E, K); }
template <int F, int E, int K> B dfew_r(std::istringstream &i)
{
    const int n = (F == 6 ? 30 : F == 7 ? 36 : 38) + E;
    lazperf::InFileStream s(i);
    auto z = lazperf::build_las_decompressor(s.cb(), F, E);
    B out(n * K);
    for (int k = 0; k < K; k++)
        z->decompress(out.data() + n * k);
    i.clear();
    return out;
}
#define DFEW(n, F, E, K)                                                                                               \
    B lhs_##n(std::istringstream &i) { return dfew_l<F, E, K>(i); }                                                    \
    B rhs_##n(std::istringstream &i) { return dfew_r<F, E, K>(i); }
DFEW(dnone, 6, 0, 0)
DFEW(done6, 6, 0, 1)
DFEW(done8, 8, 5, 1)
DFEW(dtwo7, 7, 0, 2)
DFEW(dtwo8, 8, 258, 2)
DFEW(dthree6, 6, 4, 3)
// ---- reading every point of a LAZ file
static B points(std::istream &i, const las::LasHeader &h, lazperf::reader::generic_file &g)
{
    B out;
    // behind the offset of the chunk table
    i.seekg((uint64_t)h.PointOffset() + 8);
    if (h.PointRecordLength() < base(h.PointFormatId()))
        throw std::runtime_error("record shorter than its format");
    B one(h.PointRecordLength());
    for (uint64_t k = 0; k < h.PointCount(); k++)
    {
        g.readPoint(one.data());
        out.insert(out.end(), one.begin(), one.end());
    }
    return out;
}
B lhs_laz(std::istringstream &i)
{
    LazIn r(&i);
    return r.GetPointData();
}
B rhs_laz(std::istringstream &i)
{
    LazIn r(&i);
    lazperf::reader::generic_file g(i);
    return points(i, r.LazConfig().LasHeader(), g);
}
