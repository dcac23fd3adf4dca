// No access leaves its buffer, table or record: opening COPC files whose VLRs do not fit the point format
#include "C21_copc.cpp"
typedef std::istringstream In;
// dims of the VLRs which do not follow from the format, with and without extended statistics
struct Odd
{
    std::ostringstream o;
    Odd(int format, int dims, int more, const Info &info, const X &x)
    {
        lazperf::header14 h;
        h.version.minor = 4;
        h.global_encoding = 16;
        h.header_size = 375;
        h.point_format_id = format | 128;
        h.point_record_length = format == 6 ? 30 : format == 7 ? 36 : 38;
        h.vlr_count = 2 + (more > 0);
        h.evlr_count = 1;
        h.evlr_offset = 375 + 54 + 160 + 54 + 16 * dims + (more > 0 ? 54 + 16 * more : 0);
        h.write(o);
        info.header().write(o);
        info.write(o);
        rows("copc", 10000, dims, x);
        if (more)
            rows("rock_robotic", 10001, more, x);
        lazperf::evlr_header{0, "copc", 1000, 0, ""}.write(o);
    }
    void rows(const std::string &user, uint16_t id, int n, const X &x)
    {
        lazperf::vlr_header{0, user, id, static_cast<uint16_t>(16 * n), ""}.write(o);
        for (int i = 0; i < n; i++)
        {
            put(o, x.lo[i]);
            put(o, x.hi[i]);
        }
    }
};
template <int F, int D, int M> void open(const Info &info, const X &x)
{
    Odd d(F, D, M, info, x);
    In i(d.o.str());
    Reader r(&i);
}
#define OPEN(F, D, M) void safe_open##F##_##D##_##M(const Info &info, const X &x) { open<F, D, M>(info, x); }
OPEN(6, 14, 0)
OPEN(6, 13, 0)
OPEN(6, 15, 0)
OPEN(7, 14, 0)
OPEN(8, 17, 0)
OPEN(8, 19, 0)
OPEN(6, 14, 14)
OPEN(6, 14, 13)
OPEN(6, 14, 15)
OPEN(7, 17, 20)
