// A chunk whose write failed is reported
//@ badpos
//@ result
//@ pure: copc::las::Points::Pack
#include "copc_file.hpp"
#include <ostream>
using namespace copc;
using namespace copc::laz;
using namespace spec;
static void check(std::ostream &o)
{
    if ((int64_t)o.tellp() <= 0)
        throw std::runtime_error("failed");
}
static void positive(int32_t n)
{
    if (n <= 0)
        throw std::runtime_error("count");
}
static void none(const las::LazConfig &lc) { assume(lc.ExtraBytesVlr().items.size() == 0); }
uint64_t lhs_laz(std::ostream &o, const las::LazConfig &lc, const std::vector<char> &d, int32_t n)
{
    none(lc);
    auto *w = new LazWriter(o, LazCfg(lc)); // closing is not the subject
    w->WritePointsCompressed(d, n);
    return w->PointCount() + (w->ChunkCount() << 32);
}
uint64_t rhs_laz(std::ostream &o, const las::LazConfig &lc, const std::vector<char> &d, int32_t n)
{
    none(lc);
    LazFile f(o, LazCfg(lc));
    positive(n);
    check(o);
    f.raw(d, n);
    check(o);
    return (uint64_t)n + ((uint64_t)1 << 32);
}
uint64_t lhs_laz_points(std::ostream &o, const las::LazConfig &lc, const las::Points &ps)
{
    none(lc);
    auto *w = new LazWriter(o, LazCfg(lc));
    w->WritePoints(ps);
    return w->PointCount() + (w->ChunkCount() << 32);
}
uint64_t rhs_laz_points(std::ostream &o, const las::LazConfig &lc, const las::Points &ps)
{
    none(lc);
    LazFile f(o, LazCfg(lc));
    if (ps.Size() == 0)
        return 0;
    if (ps.PointFormatId() != f.c.LasHeader()->PointFormatId() ||
        ps.PointRecordLength() != f.c.LasHeader()->PointRecordLength())
        throw std::runtime_error("format");
    check(o);
    f.records(ps.Pack(*f.c.LasHeader()));
    check(o);
    return f.count + ((uint64_t)1 << 32);
}
Node lhs_copc(std::ostream &o, const CopcConfig &cc, const std::vector<char> &d, int32_t n)
{
    auto *w = new Writer(o, cfg(cc, 7, false, false, false));
    return w->AddNodeCompressed(VoxelKey(2, 1, 0, 1), d, n);
}
Node rhs_copc(std::ostream &o, const CopcConfig &cc, const std::vector<char> &d, int32_t n)
{
    CopcFile f(o, cfg(cc, 7, false, false, false));
    positive(n);
    check(o);
    Entry e = f.raw(VoxelKey(2, 1, 0, 1), d, n);
    check(o);
    return Node(e, VoxelKey(0, 0, 0, 0));
}
// ... and leaves nothing behind: its points and the chunk are not counted
struct Left
{
    bool refused;
    uint64_t points, chunks;
};
static bool refused(LazWriter &w, const std::vector<char> &d, int32_t n)
{
    try
    {
        w.WritePointsCompressed(d, n);
    }
    catch (const std::runtime_error &)
    {
        return true;
    }
    return false;
}
static void small(const std::vector<char> &d) { assume(d.size() < 1000000); }
static bool fails(std::ostream &o, const std::vector<char> &d, int32_t n)
{
    if (n <= 0 || (int64_t)o.tellp() <= 0)
        return true;
    o.write(d.data(), d.size());
    return (int64_t)o.tellp() <= 0;
}
Left lhs_laz_left(std::ostream &o, const las::LazConfig &lc, const std::vector<char> &d, int32_t n)
{
    none(lc);
    small(d);
    auto *w = new LazWriter(o, LazCfg(lc));
    bool r = refused(*w, d, n);
    return Left{r, w->PointCount(), w->ChunkCount()};
}
Left rhs_laz_left(std::ostream &o, const las::LazConfig &lc, const std::vector<char> &d, int32_t n)
{
    none(lc);
    small(d);
    LazFile f(o, LazCfg(lc));
    bool r = fails(o, d, n);
    return Left{r, r ? 0 : (uint64_t)(int64_t)n, r ? 0u : 1u};
}
