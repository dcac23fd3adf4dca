// The VLRs of a COPC file end up in the configuration of its reader
//@ result
#include "reader.hpp"
using namespace copc;
using namespace spec;
typedef lazperf::copc_info_vlr Info;
typedef las::EbVlr::ebfield F;
struct X
{
    std::array<double, 40> lo, hi, mean, var;
};
// an ordinary COPC file without points
struct Disk
{
    std::ostringstream o;
    Disk(int format, int eb, bool extents, bool ext, int late, const Info &info, const X &x, const F &f, const std::string &wkt)
    {
        int dims = 14 + (format == 7 ? 3 : format == 8 ? 4 : 0) + eb;
        int n = 0;
        lazperf::header14 h;
        h.version.minor = 4;
        h.global_encoding = 16;
        h.header_size = 375;
        h.point_format_id = format | 128;
        h.point_record_length = (format == 6 ? 30 : format == 7 ? 36 : 38) + 2 * eb;
        // late: 1 everything in EVLRs, 2 extents only, 3 extended statistics only
        bool le = late == 1, lx = late == 1 || late == 2, ls = late == 1 || late == 3;
        h.vlr_count = 1 + (le ? 0 : (eb > 0)) + (lx ? 0 : extents) + (ls ? 0 : ext);
        h.evlr_count = 2 + (le ? (eb > 0) : 0) + (lx ? extents : 0) + (ls ? ext : 0);
        h.evlr_offset = 375 + 54 + 160 + (!le && eb > 0 ? 54 + 192 * eb : 0) + (!lx && extents ? 54 + 16 * dims : 0) +
                        (!ls && ext ? 54 + 16 * dims : 0);
        h.write(o);
        info.header().write(o);
        info.write(o);
        tail(false, dims, le ? 0 : eb, !lx && extents, !ls && ext, x, f);
        lazperf::evlr_header{0, "copc", 1000, 0, ""}.write(o);
        las::WktVlr w(wkt);
        w.eheader().write(o);
        w.write(o);
        tail(true, dims, le ? eb : 0, lx && extents, ls && ext, x, f);
    }
    void head(bool late, const std::string &user, uint16_t id, uint16_t n)
    {
        if (late)
            lazperf::evlr_header{0, user, id, n, ""}.write(o);
        else
            lazperf::vlr_header{0, user, id, n, ""}.write(o);
    }
    void tail(bool late, int dims, int eb, bool extents, bool ext, const X &x, const F &f)
    {
        if (ext)
        {
            head(late, "rock_robotic", 10001, 16 * dims);
            for (int i = 0; i < dims; i++)
            {
                put(o, x.mean[i]);
                put(o, x.var[i]);
            }
        }
        if (extents)
        {
            head(late, "copc", 10000, 16 * dims);
            for (int i = 0; i < dims; i++)
            {
                put(o, x.lo[i]);
                put(o, x.hi[i]);
            }
        }
        if (eb)
        {
            las::EbVlr e(0);
            for (int i = 0; i < eb; i++)
                e.addField(f);
            if (late)
                e.eheader().write(o);
            else
                e.header().write(o);
            e.write(o);
        }
    }
};
struct All
{
    double cx, cy, cz, half, spacing;
    uint64_t at, size;
    std::string wkt;
    std::vector<F> eb;
    std::vector<double> lo, hi, mean, var;
    int format;
};
static All all(const CopcConfig &c)
{
    All a{};
    auto i = c.CopcInfo();
    a.cx = i.center_x, a.cy = i.center_y, a.cz = i.center_z, a.half = i.halfsize, a.spacing = i.spacing;
    a.at = i.root_hier_offset, a.size = i.root_hier_size;
    a.wkt = c.Wkt();
    a.eb = c.ExtraBytesVlr().items;
    for (auto &e : c.CopcExtents().Extents())
    {
        a.lo.push_back(e->minimum);
        a.hi.push_back(e->maximum);
        a.mean.push_back(e->mean);
        a.var.push_back(e->var);
    }
    a.format = c.LasHeader().PointFormatId();
    return a;
}
static All read(const Disk &d)
{
    std::istringstream i(d.o.str());
    CopcIn r(&i);
    return all(r.CopcConfig());
}
static All want(int format, int eb, bool extents, bool ext, const Info &info, const X &x, const F &f, const std::string &wkt)
{
    All a{};
    a.cx = info.center_x, a.cy = info.center_y, a.cz = info.center_z, a.half = info.halfsize, a.spacing = info.spacing;
    a.at = info.root_hier_offset, a.size = info.root_hier_size;
    a.wkt = wkt;
    for (int i = 0; i < eb; i++)
        a.eb.push_back(f);
    int dims = 14 + (format == 7 ? 3 : format == 8 ? 4 : 0) + eb;
    for (int i = 0; i < dims; i++)
    {
        a.lo.push_back(extents ? x.lo[i] : 0);
        a.hi.push_back(extents ? x.hi[i] : 0);
        a.mean.push_back(ext ? x.mean[i] : 0);
        a.var.push_back(ext ? x.var[i] : 1);
    }
    a.format = format;
    return a;
}
static void ok(const X &x)
{
    for (int i = 0; i < 20; i++)
        assume(x.lo[i] <= x.hi[i] && x.var[i] >= 0);
}
#define T const Info &info, const X &x, const F &f, const std::string &wkt
#define FILE(name, format, eb, extents, ext, late)                                                                     \
    All lhs_##name(T)                                                                                                  \
    {                                                                                                                  \
        ok(x);                                                                                                         \
        return read(Disk(format, eb, extents, ext, late, info, x, f, wkt));                                            \
    }                                                                                                                  \
    All rhs_##name(T)                                                                                                  \
    {                                                                                                                  \
        ok(x);                                                                                                         \
        return want(format, eb, extents, ext, info, x, f, wkt);                                                        \
    }
FILE(six, 6, 0, true, false, 0)
FILE(six_eb, 6, 2, true, false, 0)
FILE(six_ext, 6, 0, true, true, 0)
FILE(six_late, 6, 0, true, true, 1)
FILE(six_eb_late, 6, 1, true, false, 1)
FILE(six_none, 6, 0, false, false, 0)
FILE(six_none_eb, 6, 2, false, false, 1)
FILE(seven, 7, 0, true, false, 0)
FILE(seven_eb, 7, 1, true, true, 0)
FILE(seven_late, 7, 1, true, true, 1)
FILE(six_mixed, 6, 0, true, true, 2)
FILE(seven_mixed, 7, 0, true, true, 3)
FILE(eight_mixed, 8, 1, true, true, 3)
FILE(seven_none, 7, 0, false, false, 0)
FILE(eight, 8, 0, true, false, 0)
FILE(eight_eb, 8, 2, true, true, 0)
FILE(eight_late, 8, 2, true, true, 1)
FILE(eight_none, 8, 1, false, false, 0)
// ---- files which are not COPC files
struct Bad
{
    std::ostringstream o;
    Bad(int vlrs, int evlrs, uint64_t at)
    {
        lazperf::header14 h;
        h.version.minor = 4;
        h.global_encoding = 16;
        h.header_size = 375;
        h.point_format_id = 6 | 128;
        h.point_record_length = 30;
        h.vlr_count = vlrs;
        h.evlr_count = evlrs;
        h.evlr_offset = at;
        h.write(o);
    }
    Bad &info(const Info &i)
    {
        i.header().write(o);
        i.write(o);
        return *this;
    }
    Bad &vlr(const std::string &user, uint16_t id, uint16_t n)
    {
        lazperf::vlr_header{0, user, id, n, ""}.write(o);
        return pad(n);
    }
    Bad &evlr(const std::string &user, uint16_t id, uint16_t n)
    {
        lazperf::evlr_header{0, user, id, n, ""}.write(o);
        return pad(n);
    }
    Bad &pad(int n)
    {
        std::string s(n, '\0');
        o.write(s.data(), n);
        return *this;
    }
};
static bool open(const std::string &s)
{
    std::istringstream i(s);
    CopcIn r(&i);
    return true;
}
static bool refused() { throw std::runtime_error("not a COPC file"); }
#define NOT(name, what, res)                                                                                           \
    bool lhs_##name(const Info &info)                                                                                  \
    {                                                                                                                  \
        Bad b what;                                                                                                    \
        return open(b.o.str());                                                                                        \
    }                                                                                                                  \
    bool rhs_##name(const Info &info) { return res; }
#define AT (375 + 54 + 160)
NOT(is, (1, 1, AT); b.info(info).evlr("copc", 1000, 0), true)
NOT(is_vlr, (2, 0, AT); b.info(info).vlr("copc", 1000, 0), true)
NOT(no_info, (1, 1, AT); b.vlr("other", 1, 160).evlr("copc", 1000, 0), refused())
NOT(no_hierarchy, (1, 1, AT); b.info(info).evlr("other", 1000, 0), refused())
NOT(no_hierarchy_id, (1, 1, AT); b.info(info).evlr("copc", 1001, 0), refused())
NOT(info_id, (1, 1, AT); b.vlr("copc", 2, 160).evlr("copc", 1000, 0), refused())
NOT(info_second, (2, 1, AT + 54); b.vlr("other", 1, 0).info(info).evlr("copc", 1000, 0), refused())
NOT(uncounted, (1, 0, AT); b.info(info).evlr("copc", 1000, 0), refused())
NOT(few_extents, (2, 1, AT + 54 + 16 * 13); b.info(info).vlr("copc", 10000, 16 * 13).evlr("copc", 1000, 0), refused())
NOT(many_extents, (2, 1, AT + 54 + 16 * 15); b.info(info).vlr("copc", 10000, 16 * 15).evlr("copc", 1000, 0), refused())
