// Pages are entries with count -1; one which is loaded needs no place in a file
#include "spec.hpp"
#include <copc-lib/hierarchy/internal/page.hpp>
using namespace copc;
using namespace spec;
static bool okkey(const VoxelKey &k) { return k.d >= 0 && k.x >= 0 && k.y >= 0 && k.z >= 0; }
struct PV
{
    VoxelKey key;
    uint64_t off;
    int32_t size, count;
    bool loaded, valid, page;
};
static PV view(const Page &p) { return PV{p.key, p.offset, p.byte_size, p.point_count, p.loaded, p.IsValid(), p.IsPage()}; }
PV lhs_ofplace(const VoxelKey &k, int64_t off, int32_t size) { return view(Page(k, off, size)); }
PV rhs_ofplace(const VoxelKey &k, int64_t off, int32_t size)
{
    bool v = size >= 0 && okkey(k);
    return PV{k, (uint64_t)off, size, -1, false, v, v};
}
PV lhs_ofentry(const VoxelKey &k, uint64_t off, int32_t size, int32_t count) { return view(Page(Entry(k, off, size, count))); }
PV rhs_ofentry(const VoxelKey &k, uint64_t off, int32_t size, int32_t count)
{
    bool v = size >= 0 && okkey(k);
    return PV{k, off, size, count, false, v, v && count == -1};
}
PV lhs_loaded(const VoxelKey &k, int64_t off, int32_t size)
{
    Page p(k, off, size);
    p.loaded = true;
    return view(p);
}
PV rhs_loaded(const VoxelKey &k, int64_t off, int32_t size)
{
    return PV{k, (uint64_t)off, size, -1, true, okkey(k), okkey(k)};
}
// the same through the base class
bool lhs_asentry(const VoxelKey &k, int64_t off, int32_t size, bool loaded)
{
    Page p(k, off, size);
    p.loaded = loaded;
    const Entry &e = p;
    return e.IsValid() && e.IsPage();
}
bool rhs_asentry(const VoxelKey &k, int64_t off, int32_t size, bool loaded) { return (loaded || size >= 0) && okkey(k); }
bool lhs_equal(const Page &a, const Page &b) { return a == b; }
bool rhs_equal(const Page &a, const Page &b)
{
    return a.key == b.key && a.offset == b.offset && a.byte_size == b.byte_size && a.point_count == b.point_count &&
           a.loaded == b.loaded;
}
PV lhs_copied(const Page &a)
{
    Page b(a);
    return view(b);
}
PV rhs_copied(const Page &a) { return view(a); }
std::string lhs_bytes(const VoxelKey &k, int64_t off, int32_t size)
{
    std::ostringstream o;
    Page(k, off, size).Pack(o);
    return o.str();
}
std::string rhs_bytes(const VoxelKey &k, int64_t off, int32_t size)
{
    std::ostringstream o;
    put(o, k.d);
    put(o, k.x);
    put(o, k.y);
    put(o, k.z);
    put(o, (uint64_t)off);
    put(o, size);
    put(o, (int32_t)-1);
    return o.str();
}
// a page the writer makes
PV lhs_internal(const VoxelKey &k) { return view(Internal::PageInternal(k)); }
PV rhs_internal(const VoxelKey &k) { return PV{k, (uint64_t)-1, -1, -1, false, false, false}; }
bool lhs_internal_empty(const VoxelKey &k)
{
    Internal::PageInternal p(k);
    return p.nodes.empty() && p.sub_pages.empty();
}
bool rhs_internal_empty(const VoxelKey &k) { return true; }
