// The extents of a file have one entry for every dimension and every extra byte, however many
#include "reader.hpp"
#include <copc-lib/copc/extents.hpp>
using namespace copc;
typedef std::vector<las::EbVlr::ebfield> Fields;
struct In : Reader
{
    In(std::istream &i)
    {
        in_stream_ = &i;
        reader_ = std::make_unique<lazperf::reader::generic_file>(i);
        vlrs_ = ReadVlrHeaders();
    }
    CopcExtents extents(const Fields &f)
    {
        las::EbVlr e;
        e.items = f;
        return ReadCopcExtentsVlr(vlrs_, e);
    }
};
struct Disk
{
    std::ostringstream o;
    Disk(int format, int vlrs)
    {
        lazperf::header14 h;
        h.version.minor = 4;
        h.global_encoding = 16;
        h.point_record_length = 300;
        h.header_size = 375;
        h.point_format_id = format | 128;
        h.vlr_count = vlrs;
        h.write(o);
    }
};
#define ABSENT(f, n)                                                                                                   \
    uint64_t lhs_absent##f(const Fields &eb)                                                                           \
    {                                                                                                                  \
        assume(eb.size() < 60000);                                                                                     \
        Disk d(f, 0);                                                                                                  \
        std::istringstream i(d.o.str());                                                                               \
        In v(i);                                                                                                       \
        return v.extents(eb).Extents().size();                                                                         \
    }                                                                                                                  \
    uint64_t rhs_absent##f(const Fields &eb)                                                                           \
    {                                                                                                                  \
        assume(eb.size() < 60000);                                                                                     \
        return n + eb.size();                                                                                          \
    }
ABSENT(6, 14)
ABSENT(7, 17)
ABSENT(8, 18)
#define PRESENT(name, f, n)                                                                                            \
    uint64_t lhs_present##name(const Fields &eb)                                                                       \
    {                                                                                                                  \
        assume(eb.size() < 60000);                                                                                     \
        Disk d(f, 1);                                                                                                  \
        lazperf::vlr_header{0, "copc", 10000, 16 * n, ""}.write(d.o);                                                  \
        for (int k = 0; k < 2 * n; k++)                                                                                \
            spec::put(d.o, 0.0);                                                                                       \
        std::istringstream i(d.o.str());                                                                               \
        In v(i);                                                                                                       \
        return v.extents(eb).Extents().size();                                                                         \
    }                                                                                                                  \
    uint64_t rhs_present##name(const Fields &eb)                                                                       \
    {                                                                                                                  \
        assume(eb.size() < 60000);                                                                                     \
        if (eb.size() + (f == 6 ? 14 : f == 7 ? 17 : 18) != n)                                                         \
            throw std::runtime_error("extents for other dimensions");                                                  \
        return n;                                                                                                      \
    }
PRESENT(few, 6, 16)
PRESENT(none, 8, 18)
PRESENT(short, 8, 17)
