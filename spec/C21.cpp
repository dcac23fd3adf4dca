// VLRs are found by their identity and read with the right header size
//@ result
#include "reader.hpp"
#include <copc-lib/io/base_reader.hpp>
using namespace copc;
using namespace spec;
typedef std::map<uint64_t, las::VlrHeader> VM;
struct Disk
{
    std::ostringstream o;
    Disk(int vlrs, uint64_t at, int evlrs)
    {
        lazperf::header14 h;
        h.header_size = 375;
        h.point_format_id = 6 | 128;
        h.vlr_count = vlrs;
        h.evlr_count = evlrs;
        h.evlr_offset = at;
        h.write(o);
    }
    Disk &pad(int n)
    {
        std::string s(n, '\0');
        o.write(s.data(), n);
        return *this;
    }
    Disk &v(const std::string &user, uint16_t id, uint16_t n)
    {
        lazperf::vlr_header{0, user, id, n, ""}.write(o);
        return pad(n);
    }
    Disk &e(const std::string &user, uint16_t id, uint64_t n)
    {
        lazperf::evlr_header{0, user, id, n, ""}.write(o);
        return pad(n);
    }
};
static las::VlrHeader V(const std::string &user, uint16_t id, uint16_t n)
{
    return las::VlrHeader(lazperf::vlr_header{0, user, id, n, ""});
}
static las::VlrHeader E(const std::string &user, uint16_t id, uint64_t n)
{
    return las::VlrHeader(lazperf::evlr_header{0, user, id, n, ""});
}
struct In : BaseReader
{
    In(std::istream &i)
    {
        in_stream_ = &i;
        reader_ = std::make_unique<lazperf::reader::generic_file>(i);
    }
    using BaseReader::FetchVlr;
    using BaseReader::ReadVlrHeaders;
};
// ---- a header keeps its kind, and so its size, wherever it is copied to
struct Kind
{
    int size;
    uint16_t reserved, id;
    std::string user, text;
    uint64_t length;
    bool evlr;
};
static Kind kind(const las::VlrHeader &h) { return {h.HeaderSize(), h.reserved, h.record_id, h.user_id, h.description, h.data_length, h.evlr_flag}; }
static Kind kind(const lazperf::evlr_header &h, bool evlr) { return {evlr ? 60 : 54, h.reserved, h.record_id, h.user_id, h.description, h.data_length, evlr}; }
Kind lhs_copied(const las::VlrHeader &h)
{
    las::VlrHeader c(h);
    return kind(c);
}
Kind rhs_copied(const las::VlrHeader &h) { return kind(h, h.evlr_flag); }
Kind lhs_assigned(const las::VlrHeader &h)
{
    las::VlrHeader c;
    c = h;
    return kind(c);
}
Kind rhs_assigned(const las::VlrHeader &h) { return kind(h, h.evlr_flag); }
Kind lhs_from_evlr(const lazperf::evlr_header &h) { return kind(las::VlrHeader(h)); }
Kind rhs_from_evlr(const lazperf::evlr_header &h) { return kind(h, true); }
Kind lhs_from_vlr(const lazperf::vlr_header &h) { return kind(las::VlrHeader(h)); }
Kind rhs_from_vlr(const lazperf::vlr_header &h) { return {54, h.reserved, h.record_id, h.user_id, h.description, h.data_length, false}; }
// ---- and its fields when it is written as either kind
Kind lhs_as_evlr(const las::VlrHeader &h) { return kind(h.ToLazperfEvlrHeader(), true); }
Kind rhs_as_evlr(const las::VlrHeader &h) { return kind(h, true); }
Kind lhs_as_vlr(const las::VlrHeader &h)
{
    auto v = h.ToLazperfVlrHeader();
    return {54, v.reserved, v.record_id, v.user_id, v.description, v.data_length, false};
}
Kind rhs_as_vlr(const las::VlrHeader &h) { return {54, h.reserved, h.record_id, h.user_id, h.description, (uint16_t)h.data_length, false}; }
// ---- the table of VLRs
VM lhs_none(int)
{
    Disk d(0, 0, 0);
    
    std::istringstream i(d.o.str());
    In r(i);
    return r.ReadVlrHeaders();
}
VM rhs_none(int) { return {}; }
VM lhs_one(int)
{
    Disk d(1, 0, 0);
    d.v("copc", 1, 160);
    std::istringstream i(d.o.str());
    In r(i);
    return r.ReadVlrHeaders();
}
VM rhs_one(int)
{
    VM m;
    m.insert({375, V("copc", 1, 160)});
    return m;
}
VM lhs_three(int)
{
    Disk d(2, 375 + 54 + 160 + 54 + 192 + 100, 2);
    d.v("copc", 1, 160).v("LASF_Spec", 4, 192).pad(100).e("copc", 1000, 64).e("LASF_Projection", 2112, 7);
    std::istringstream i(d.o.str());
    In r(i);
    return r.ReadVlrHeaders();
}
VM rhs_three(int)
{
    VM m;
    uint64_t p = 375;
    m.insert({p, V("copc", 1, 160)});
    p += 54 + 160;
    m.insert({p, V("LASF_Spec", 4, 192)});
    p += 54 + 192 + 100;
    m.insert({p, E("copc", 1000, 64)});
    p += 60 + 64;
    m.insert({p, E("LASF_Projection", 2112, 7)});
    return m;
}
// ---- lookup by identity
uint64_t lhs_fetch0(const std::string &u, uint16_t id) { return In::FetchVlr({}, u, id); }
uint64_t rhs_fetch0(const std::string &u, uint16_t id) { return 0; }
uint64_t lhs_fetch(const std::string &u, uint16_t id, const las::VlrHeader &a, const las::VlrHeader &b,
                   const las::VlrHeader &c)
{
    return In::FetchVlr({{375, a}, {500, b}, {900, c}}, u, id);
}
uint64_t rhs_fetch(const std::string &u, uint16_t id, const las::VlrHeader &a, const las::VlrHeader &b,
                   const las::VlrHeader &c)
{
    if (a.user_id == u && a.record_id == id)
        return 375;
    if (b.user_id == u && b.record_id == id)
        return 500;
    if (c.user_id == u && c.record_id == id)
        return 900;
    return 0;
}
// sizes of any value; the data of a VLR is never taken for a header
VM lhs_sizes(uint16_t n, uint64_t m)
{
    assume(m < (1u << 30));
    Disk d(2, 375 + 54 + n + 54 + 60, 2);
    d.v("a", 1, n).v("b", 2, 60).e("c", 3, m).e("d", 4, 5);
    std::istringstream i(d.o.str());
    In r(i);
    return r.ReadVlrHeaders();
}
VM rhs_sizes(uint16_t n, uint64_t m)
{
    assume(m < (1u << 30));
    VM t;
    uint64_t p = 375;
    t.insert({p, V("a", 1, n)});
    t.insert({p + 54 + n, V("b", 2, 60)});
    p += 54 + n + 54 + 60;
    t.insert({p, E("c", 3, m)});
    t.insert({p + 60 + m, E("d", 4, 5)});
    return t;
}
// ---- their data
struct Typed : BaseReader
{
    Typed(std::istream &i)
    {
        in_stream_ = &i;
        reader_ = std::make_unique<lazperf::reader::generic_file>(i);
        vlrs_ = ReadVlrHeaders();
    }
    las::WktVlr wkt() { return ReadWktVlr(vlrs_); }
    las::EbVlr eb() { return ReadExtraBytesVlr(vlrs_); }
};
typedef las::EbVlr::ebfield F;
static Disk file(const std::string &w, const F &f, const F &g, bool wkt_v, bool eb_v)
{
    las::WktVlr wv(w);
    las::EbVlr ev(0);
    ev.addField(f);
    ev.addField(g);
    int n = 1 + wkt_v + eb_v;
    uint64_t at = 375 + 54 + 160 + (wkt_v ? 54 + wv.size() : 0) + (eb_v ? 54 + ev.size() : 0);
    Disk d(n, at, 3 - n + 1);
    d.v("copc", 1, 160);
    if (wkt_v)
    {
        wv.header().write(d.o);
        wv.write(d.o);
    }
    if (eb_v)
    {
        ev.header().write(d.o);
        ev.write(d.o);
    }
    d.e("copc", 1000, 64);
    if (!wkt_v)
    {
        wv.eheader().write(d.o);
        wv.write(d.o);
    }
    if (!eb_v)
    {
        ev.eheader().write(d.o);
        ev.write(d.o);
    }
    return d;
}
#define DATA(name, wv, ev)                                                                                             \
    std::string lhs_wkt_##name(const std::string &w, const F &f, const F &g)                                           \
    {                                                                                                                  \
        assume(w.size() < 60000);                                                                                      \
        Disk d = file(w, f, g, wv, ev);                                                                                \
        std::istringstream i(d.o.str());                                                                               \
        Typed r(i);                                                                                                    \
        return r.wkt().wkt;                                                                                            \
    }                                                                                                                  \
    std::string rhs_wkt_##name(const std::string &w, const F &f, const F &g)                                           \
    {                                                                                                                  \
        assume(w.size() < 60000);                                                                                      \
        return w;                                                                                                      \
    }                                                                                                                  \
    std::vector<F> lhs_eb_##name(const std::string &w, const F &f, const F &g)                                         \
    {                                                                                                                  \
        assume(w.size() < 60000);                                                                                      \
        Disk d = file(w, f, g, wv, ev);                                                                                \
        std::istringstream i(d.o.str());                                                                               \
        Typed r(i);                                                                                                    \
        return r.eb().items;                                                                                           \
    }                                                                                                                  \
    std::vector<F> rhs_eb_##name(const std::string &w, const F &f, const F &g)                                         \
    {                                                                                                                  \
        assume(w.size() < 60000);                                                                                      \
        return {f, g};                                                                                                 \
    }
DATA(vv, true, true)
DATA(ve, true, false)
DATA(ev, false, true)
DATA(ee, false, false)
