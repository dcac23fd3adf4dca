// Sizes of extra byte fields and of records
#include "point.hpp"
#include <copc-lib/copc/copc_config.hpp>
#include <copc-lib/las/header.hpp>
#include <copc-lib/las/utils.hpp>
#include <copc-lib/las/vlr.hpp>
using namespace copc;
using namespace copc::las;
typedef EbVlr::ebfield F;

// LAS 1.4 R15, table 24: types 1-10, and their arrays of two (11-20) and three (21-30)
static int unit(int t)
{
    switch (t)
    {
    case 1:
    case 2:
        return 1;
    case 3:
    case 4:
        return 2;
    case 5:
    case 6:
    case 9:
        return 4;
    default:
        return 8;
    }
}
static int width(const F &f)
{
    int t = f.data_type;
    if (t == 0)
        return f.options;
    if (t > 30)
        throw std::runtime_error("no such data type");
    if (t <= 10)
        return unit(t);
    if (t <= 20)
        return 2 * unit(t - 10);
    return 3 * unit(t - 20);
}
int lhs_one(const F &f) { return NumBytesFromExtraBytes(std::vector<F>{f}); }
int rhs_one(const F &f) { return width(f); }
int lhs_none() { return NumBytesFromExtraBytes(std::vector<F>{}); }
int rhs_none() { return 0; }
int lhs_three(const F &f, const F &g, const F &h) { return NumBytesFromExtraBytes(std::vector<F>{f, g, h}); }
int rhs_three(const F &f, const F &g, const F &h) { return width(f) + width(g) + width(h); }
int lhs_any(const std::vector<F> &v) { return NumBytesFromExtraBytes(v); }
int rhs_any(const std::vector<F> &v)
{
    int n = 0;
    for (size_t i = 0; i < v.size(); ++i)
        n += width(v[i]);
    return n;
}

#define TYPE(T, N)                                                                                                               \
    int lhs_type##T(F f)                                                                                                         \
    {                                                                                                                            \
        f.data_type = T;                                                                                                         \
        return NumBytesFromExtraBytes(std::vector<F>{f});                                                                        \
    }                                                                                                                            \
    int rhs_type##T(F f) { return N; }
TYPE(0, f.options)
TYPE(1, 1) TYPE(2, 1) TYPE(3, 2) TYPE(4, 2) TYPE(5, 4) TYPE(6, 4) TYPE(7, 8) TYPE(8, 8) TYPE(9, 4) TYPE(10, 8)
TYPE(11, 2) TYPE(12, 2) TYPE(13, 4) TYPE(14, 4) TYPE(15, 8) TYPE(16, 8) TYPE(17, 16) TYPE(18, 16) TYPE(19, 8) TYPE(20, 16)
TYPE(21, 3) TYPE(22, 3) TYPE(23, 6) TYPE(24, 6) TYPE(25, 12) TYPE(26, 12) TYPE(27, 24) TYPE(28, 24) TYPE(29, 12) TYPE(30, 24)

// records are base size plus extra bytes wherever their length is computed
uint32_t lhs_base(int8_t f) { return PointBaseByteSize(f); }
uint32_t rhs_base(int8_t f)
{
    if (f < 6 || f > 8)
        throw std::runtime_error("format");
    return f == 6 ? 30 : f == 7 ? 36 : 38;
}
uint32_t lhs_dims(int8_t f) { return PointBaseNumberDimensions(f); }
uint32_t rhs_dims(int8_t f)
{
    if (f < 6 || f > 8)
        throw std::runtime_error("format");
    return f == 6 ? 14 : f == 7 ? 17 : 18;
}
uint32_t lhs_record(int8_t f, uint16_t n)
{
    assume(n <= 65000);
    return PointByteSize(f, n);
}
uint32_t rhs_record(int8_t f, uint16_t n)
{
    assume(n <= 65000);
    return rhs_base(f) + n;
}
uint32_t lhs_eb(int8_t f, uint32_t len)
{
    assume(len >= 30 && len <= 65000);
    assume(f < 6 || f > 8 || len >= rhs_base(f));
    return EbByteSize(f, len);
}
uint32_t rhs_eb(int8_t f, uint32_t len)
{
    assume(len >= 30 && len <= 65000);
    assume(f < 6 || f > 8 || len >= rhs_base(f));
    return len - rhs_base(f);
}
struct Two
{
    uint32_t len, eb;
};
Two lhs_point(int8_t f, uint16_t n)
{
    assume(n <= 65000);
    Point p(f, n);
    return Two{p.PointRecordLength(), p.EbByteSize()};
}
Two rhs_point(int8_t f, uint16_t n)
{
    assume(n <= 65000);
    return Two{rhs_base(f) + n, n};
}
Two lhs_points(int8_t f, uint16_t n)
{
    assume(n <= 65000);
    Points p(f, n);
    return Two{p.PointRecordLength(), p.EbByteSize()};
}
Two rhs_points(int8_t f, uint16_t n)
{
    assume(n <= 65000);
    return Two{rhs_base(f) + n, n};
}
Two lhs_header(int8_t f, uint16_t n, const Vector3 &s, const Vector3 &o)
{
    assume(n <= 65000);
    assume(spec::fmt_ok(f));
    LasHeader h(f, rhs_base(f) + n, s, o, true);
    return Two{h.PointRecordLength(), h.EbByteSize()};
}
Two rhs_header(int8_t f, uint16_t n, const Vector3 &s, const Vector3 &o)
{
    assume(n <= 65000);
    assume(spec::fmt_ok(f));
    return Two{rhs_base(f) + n, n};
}
static int total(const std::vector<F> &fields)
{
    try
    {
        return NumBytesFromExtraBytes(fields);
    }
    catch (...)
    {
        return -1;
    }
}
Two lhs_config(int8_t f, const std::vector<F> &fields)
{
    EbVlr eb;
    eb.items = fields;
    assume(spec::fmt_ok(f));
    int n = total(fields);
    assume(n >= 0 && n <= 65000);
    LazConfigWriter c(f, Vector3(1, 1, 1), Vector3(0, 0, 0), "", eb);
    return Two{c.LasHeader()->PointRecordLength(), c.LasHeader()->EbByteSize()};
}
Two rhs_config(int8_t f, const std::vector<F> &fields)
{
    assume(spec::fmt_ok(f));
    int n = total(fields);
    assume(n >= 0 && n <= 65000);
    return Two{rhs_base(f) + (uint32_t)n, (uint32_t)n};
}
Two lhs_copcconfig(int8_t f, const std::vector<F> &fields)
{
    EbVlr eb;
    eb.items = fields;
    assume(spec::fmt_ok(f));
    int n = total(fields);
    assume(n >= 0 && n <= 65000);
    CopcConfigWriter c(f, Vector3(1, 1, 1), Vector3(0, 0, 0), "", eb, true);
    return Two{c.LasHeader()->PointRecordLength(), c.LasHeader()->EbByteSize()};
}
Two rhs_copcconfig(int8_t f, const std::vector<F> &fields) { return rhs_config(f, fields); }
