// Bit fields of a point: each accessor reads and writes its own bits, keeps all others, and refuses values that do not fit
#include "spec.hpp"
#include <copc-lib/las/point.hpp>
using namespace copc::las;
static Point make(uint8_t r, uint8_t f)
{
    Point p(6);
    p.ReturnsBitField(r);
    p.FlagsBitField(f);
    return p;
}
struct Two
{
    uint8_t r, f;
};
static Two both(const Point &p) { return Two{p.ReturnsBitField(), p.FlagsBitField()}; }
static uint8_t set(uint8_t old, int shift, int width, unsigned v)
{
    if (v >= (1u << width))
        throw std::runtime_error("does not fit");
    unsigned m = ((1u << width) - 1) << shift;
    return static_cast<uint8_t>((old & ~m) | (v << shift));
}
static unsigned bits(uint8_t b, int shift, int width) { return (b >> shift) & ((1u << width) - 1); }

#define FIELD(name, T, acc, R, F, byte, shift, width)                                                                  \
    uint32_t lhs_get_##name(uint8_t r, uint8_t f) { return make(r, f).acc(); }                                         \
    uint32_t rhs_get_##name(uint8_t r, uint8_t f) { return bits(byte, shift, width); }                                 \
    Two lhs_set_##name(uint8_t r, uint8_t f, T v)                                                                      \
    {                                                                                                                  \
        Point p = make(r, f);                                                                                          \
        p.acc(v);                                                                                                      \
        return both(p);                                                                                                \
    }                                                                                                                  \
    Two rhs_set_##name(uint8_t r, uint8_t f, T v) { return Two{R, F}; }

#define RET(name, T, acc, shift, width) FIELD(name, T, acc, set(r, shift, width, v), f, r, shift, width)
#define FLG(name, T, acc, shift, width) FIELD(name, T, acc, r, set(f, shift, width, v), f, shift, width)
RET(returnnumber, uint8_t, ReturnNumber, 0, 4)
RET(numberofreturns, uint8_t, NumberOfReturns, 4, 4)
FLG(synthetic, bool, Synthetic, 0, 1)
FLG(keypoint, bool, KeyPoint, 1, 1)
FLG(withheld, bool, Withheld, 2, 1)
FLG(overlap, bool, Overlap, 3, 1)
FLG(scannerchannel, uint8_t, ScannerChannel, 4, 2)
FLG(scandirection, bool, ScanDirectionFlag, 6, 1)
FLG(edgeofflightline, bool, EdgeOfFlightLineFlag, 7, 1)

// the whole-byte accessors and the GPS time bit of the header
Two lhs_whole(uint8_t r, uint8_t f) { return both(make(r, f)); }
Two rhs_whole(uint8_t r, uint8_t f) { return Two{r, f}; }
uint16_t lhs_gpsbit(uint16_t g)
{
    LasHeader h;
    h.global_encoding = g;
    h.SetGpsTimeBit();
    return h.global_encoding;
}
uint16_t rhs_gpsbit(uint16_t g) { return static_cast<uint16_t>(g | 1); }
