// Hierarchy entries: 32 bytes, in order, and back; what makes an entry a node or a page
#include "spec.hpp"
#include <copc-lib/hierarchy/entry.hpp>
#include <copc-lib/hierarchy/node.hpp>
#include <copc-lib/hierarchy/key.hpp>
using namespace copc;
using spec::get;
using spec::put;

static bool okkey(const VoxelKey &k) { return k.d >= 0 && k.x >= 0 && k.y >= 0 && k.z >= 0; }

uint32_t lhs_size() { return Entry::ENTRY_SIZE; }
uint32_t rhs_size() { return 32; }

void lhs_pack(std::ostream &o, const VoxelKey &k, uint64_t off, int32_t size, int32_t count)
{
    Entry e(k, off, size, count);
    e.Pack(o);
}
void rhs_pack(std::ostream &o, const VoxelKey &k, uint64_t off, int32_t size, int32_t count)
{
    put(o, k.d);
    put(o, k.x);
    put(o, k.y);
    put(o, k.z);
    put(o, off);
    put(o, size);
    put(o, count);
}
// packing a node or any entry leaves it alone
Entry lhs_packkeeps(std::ostream &o, const Entry &e)
{
    Entry c = e;
    c.Pack(o);
    return c;
}
Entry rhs_packkeeps(std::ostream &o, const Entry &e)
{
    lhs_pack(o, e.key, e.offset, e.byte_size, e.point_count);
    return e;
}
Entry lhs_unpack(std::istream &i) { return Entry::Unpack(i); }
Entry rhs_unpack(std::istream &i)
{
    VoxelKey k;
    k.d = get<int32_t>(i);
    k.x = get<int32_t>(i);
    k.y = get<int32_t>(i);
    k.z = get<int32_t>(i);
    uint64_t off = get<uint64_t>(i);
    int32_t size = get<int32_t>(i);
    int32_t count = get<int32_t>(i);
    return Entry(k, off, size, count);
}
Entry lhs_roundtrip(const Entry &e)
{
    std::stringstream s;
    Entry c = e;
    c.Pack(s);
    return Entry::Unpack(s);
}
Entry rhs_roundtrip(const Entry &e) { return Entry(e.key, e.offset, e.byte_size, e.point_count); }
uint64_t lhs_bytes(const Entry &e)
{
    std::stringstream s;
    Entry c = e;
    c.Pack(s);
    return s.str().size();
}
uint64_t rhs_bytes(const Entry &e) { return 32; }

Entry lhs_make(const VoxelKey &k, uint64_t off, int32_t size, int32_t count) { return Entry(k, off, size, count); }
Entry rhs_make(const VoxelKey &k, uint64_t off, int32_t size, int32_t count)
{
    Entry e;
    e.key = k;
    e.offset = off;
    e.byte_size = size;
    e.point_count = count;
    return e;
}
bool lhs_valid(const VoxelKey &k, uint64_t off, int32_t size, int32_t count) { return Entry(k, off, size, count).IsValid(); }
bool rhs_valid(const VoxelKey &k, uint64_t off, int32_t size, int32_t count) { return size >= 0 && okkey(k); }
bool lhs_page(const VoxelKey &k, uint64_t off, int32_t size, int32_t count) { return Entry(k, off, size, count).IsPage(); }
bool rhs_page(const VoxelKey &k, uint64_t off, int32_t size, int32_t count) { return size >= 0 && okkey(k) && count == -1; }
bool lhs_default() { return Entry().IsValid() || Entry().IsPage() || Node().IsValid() || Node().IsPage(); }
bool rhs_default() { return false; }

// a node made of an entry is that entry, with the key of its page
struct NV
{
    VoxelKey key, page;
    uint64_t off;
    int32_t size, count;
    bool valid, ispage;
};
NV lhs_node(const VoxelKey &k, uint64_t off, int32_t size, int32_t count, const VoxelKey &page)
{
    Node n(Entry(k, off, size, count), page);
    return NV{n.key, n.page_key, n.offset, n.byte_size, n.point_count, n.IsValid(), n.IsPage()};
}
NV rhs_node(const VoxelKey &k, uint64_t off, int32_t size, int32_t count, const VoxelKey &page)
{
    return NV{k, page, off, size, count, size >= 0 && okkey(k), size >= 0 && okkey(k) && count == -1};
}
NV lhs_nodenopage(const VoxelKey &k, uint64_t off, int32_t size, int32_t count)
{
    Node n(Entry(k, off, size, count));
    return NV{n.key, n.page_key, n.offset, n.byte_size, n.point_count, n.IsValid(), n.IsPage()};
}
NV rhs_nodenopage(const VoxelKey &k, uint64_t off, int32_t size, int32_t count)
{
    return NV{k, VoxelKey(-1, -1, -1, -1), off, size, count, size >= 0 && okkey(k), size >= 0 && okkey(k) && count == -1};
}
bool lhs_nodeeq(const Entry &a, const Entry &b, const VoxelKey &p, const VoxelKey &q) { return Node(a, p) == Node(b, q); }
bool rhs_nodeeq(const Entry &a, const Entry &b, const VoxelKey &p, const VoxelKey &q)
{
    return a.key == b.key && a.offset == b.offset && a.byte_size == b.byte_size && a.point_count == b.point_count;
}
