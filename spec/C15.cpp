// Every written chunk is accounted for once
//@ pure: copc::las::Points::Pack
#include "copc_file.hpp"
#include <sstream>
using namespace copc;
using namespace copc::laz;
using namespace spec;
std::string lhs_none(const las::LazConfig &lc)
{
    LazCfg c(lc);
    std::ostringstream o;
    {
        LazWriter w(o, c);
    }
    return o.str();
}
std::string rhs_none(const las::LazConfig &lc)
{
    std::ostringstream o;
    LazFile f(o, LazCfg(lc));
    f.finish();
    return o.str();
}
std::string lhs_one(const las::LazConfig &lc, const std::vector<char> &d, int32_t n)
{
    LazCfg c(lc);
    std::ostringstream o;
    {
        LazWriter w(o, c);
        w.WritePointsCompressed(d, n);
    }
    return o.str();
}
std::string rhs_one(const las::LazConfig &lc, const std::vector<char> &d, int32_t n)
{
    std::ostringstream o;
    LazFile f(o, LazCfg(lc));
    if (n <= 0)
        throw std::runtime_error("count");
    f.raw(d, n);
    f.finish();
    return o.str();
}
// several chunks, some of them compressed here
std::string lhs_mixed(const las::LazConfig &lc, const std::vector<char> &d, const las::Points &ps,
                      const std::vector<char> &e, int32_t n, int32_t m)
{
    LazCfg c(lc);
    std::ostringstream o;
    {
        LazWriter w(o, c);
        w.WritePointsCompressed(d, n);
        w.WritePoints(ps);
        w.WritePointsCompressed(e, m);
    }
    return o.str();
}
std::string rhs_mixed(const las::LazConfig &lc, const std::vector<char> &d, const las::Points &ps,
                      const std::vector<char> &e, int32_t n, int32_t m)
{
    std::ostringstream o;
    LazFile f(o, LazCfg(lc));
    if (n <= 0 || m <= 0)
        throw std::runtime_error("count");
    f.raw(d, n);
    if (ps.Size() > 0)
    {
        if (ps.PointFormatId() != f.c.LasHeader()->PointFormatId() ||
            ps.PointRecordLength() != f.c.LasHeader()->PointRecordLength())
            throw std::runtime_error("format");
        f.records(ps.Pack(*f.c.LasHeader()));
    }
    f.raw(e, m);
    f.finish();
    return o.str();
}
uint64_t lhs_point_count(const las::LazConfig &lc, const std::vector<char> &d, const std::vector<char> &e, int32_t n,
                         int32_t m)
{
    std::ostringstream o;
    LazWriter w(o, LazCfg(lc));
    w.WritePointsCompressed(d, n);
    w.WritePointsCompressed(e, m);
    return w.PointCount() + (w.ChunkCount() << 32);
}
uint64_t rhs_point_count(const las::LazConfig &lc, const std::vector<char> &d, const std::vector<char> &e, int32_t n,
                         int32_t m)
{
    std::ostringstream o;
    LazFile f(o, LazCfg(lc));
    if (n <= 0 || m <= 0)
        throw std::runtime_error("count");
    f.raw(d, n);
    f.raw(e, m);
    return (uint64_t)n + (uint64_t)m + ((uint64_t)2 << 32);
}
// a refused chunk leaves no trace
std::string lhs_refused(const las::LazConfig &lc, const std::vector<char> &d, const las::Points &ps)
{
    LazCfg c(lc);
    assume(ps.Size() > 0 && ps.PointFormatId() != lc.LasHeader().PointFormatId());
    std::ostringstream o;
    {
        LazWriter w(o, c);
        try
        {
            w.WritePointsCompressed(d, 0);
        }
        catch (const std::runtime_error &)
        {
        }
        w.WritePointsCompressed(d, 5);
        try
        {
            w.WritePoints(ps);
        }
        catch (const std::runtime_error &)
        {
        }
    }
    return o.str();
}
std::string rhs_refused(const las::LazConfig &lc, const std::vector<char> &d, const las::Points &ps)
{
    assume(ps.Size() > 0 && ps.PointFormatId() != lc.LasHeader().PointFormatId());
    std::ostringstream o;
    LazFile f(o, LazCfg(lc));
    f.raw(d, 5);
    f.finish();
    return o.str();
}
// chunks of a COPC file
static CopcCfg plain(const CopcConfig &cc) { return cfg(cc, 7, false, false, true); }
std::string lhs_nodes(const CopcConfig &cc, const std::vector<char> &d, const std::vector<char> &e, int32_t n, int32_t m)
{
    CopcCfg c = plain(cc);
    std::ostringstream o;
    {
        Writer w(o, c);
        w.AddNodeCompressed(VoxelKey(2, 1, 1, 1), e, m);
        w.AddNodeCompressed(VoxelKey(1, 0, 1, 0), d, n);
    }
    return o.str();
}
std::string rhs_nodes(const CopcConfig &cc, const std::vector<char> &d, const std::vector<char> &e, int32_t n, int32_t m)
{
    std::ostringstream o;
    CopcFile f(o, plain(cc));
    if (n <= 0 || m <= 0)
        throw std::runtime_error("count");
    Entry b = f.raw(VoxelKey(2, 1, 1, 1), e, m);
    Entry a = f.raw(VoxelKey(1, 0, 1, 0), d, n);
    f.chunks();
    f.page(VoxelKey(0, 0, 0, 0), {a, b});
    f.finish();
    return o.str();
}
Node lhs_node(const CopcConfig &cc, const std::vector<char> &d, const std::vector<char> &e, int32_t n, int32_t m)
{
    CopcCfg c = plain(cc);
    std::ostringstream o;
    Writer w(o, c);
    w.AddNodeCompressed(VoxelKey(1, 1, 1, 1), e, m);
    return w.AddNodeCompressed(VoxelKey(3, 0, 5, 0), d, n, VoxelKey(2, 0, 2, 0));
}
Node rhs_node(const CopcConfig &cc, const std::vector<char> &d, const std::vector<char> &e, int32_t n, int32_t m)
{
    std::ostringstream o;
    CopcFile f(o, plain(cc));
    if (n <= 0 || m <= 0)
        throw std::runtime_error("count");
    Entry x = f.raw(VoxelKey(1, 1, 1, 1), e, m);
    Entry y = f.raw(VoxelKey(3, 0, 5, 0), d, n);
    f.chunks();
    f.page(VoxelKey(0, 0, 0, 0), {x, f.page(VoxelKey(2, 0, 2, 0), {y})});
    f.finish();
    return Node(y, VoxelKey(2, 0, 2, 0));
}
// records compressed here
Node lhs_node_records(const CopcConfig &cc, const std::vector<char> &d, const std::vector<char> &e, int32_t m)
{
    CopcCfg c = plain(cc);
    std::ostringstream o;
    Writer w(o, c);
    w.AddNodeCompressed(VoxelKey(1, 1, 1, 1), e, m);
    return w.AddNode(VoxelKey(2, 0, 3, 0), d);
}
Node rhs_node_records(const CopcConfig &cc, const std::vector<char> &d, const std::vector<char> &e, int32_t m)
{
    std::ostringstream o;
    CopcFile f(o, plain(cc));
    if (m <= 0)
        throw std::runtime_error("count");
    Entry x = f.raw(VoxelKey(1, 1, 1, 1), e, m);
    if (d.empty())
        throw std::runtime_error("no points");
    Entry y = f.records(VoxelKey(2, 0, 3, 0), d);
    f.chunks();
    f.page(VoxelKey(0, 0, 0, 0), {x, y});
    f.finish();
    return Node(y, VoxelKey(0, 0, 0, 0));
}
Node lhs_node_points(const CopcConfig &cc, const las::Points &ps)
{
    CopcCfg c = plain(cc);
    std::ostringstream o;
    Writer w(o, c);
    return w.AddNode(VoxelKey(2, 0, 3, 0), ps);
}
Node rhs_node_points(const CopcConfig &cc, const las::Points &ps)
{
    std::ostringstream o;
    CopcFile f(o, plain(cc));
    auto h = f.c->LasHeader();
    if (ps.Size() == 0 || ps.PointFormatId() != h->PointFormatId() || ps.PointRecordLength() != h->PointRecordLength())
        throw std::runtime_error("points");
    std::vector<char> d = ps.Pack(*h);
    if (d.empty())
        throw std::runtime_error("no points");
    Entry y = f.records(VoxelKey(2, 0, 3, 0), d);
    f.chunks();
    f.page(VoxelKey(0, 0, 0, 0), {y});
    f.finish();
    return Node(y, VoxelKey(0, 0, 0, 0));
}
// refused nodes leave no trace
std::string lhs_refused_nodes(const CopcConfig &cc, const std::vector<char> &d, const las::Points &ps)
{
    assume(ps.Size() > 0 && ps.PointFormatId() != 7);
    CopcCfg c = plain(cc);
    std::ostringstream o;
    {
        Writer w(o, c);
        w.AddNodeCompressed(VoxelKey(1, 1, 1, 1), d, 5);
        int refused = 0;
        try
        {
            w.AddNodeCompressed(VoxelKey(1, 1, 0, 1), d, 0);
        }
        catch (const std::runtime_error &)
        {
            refused++;
        }
        try
        {
            w.AddNodeCompressed(VoxelKey(1, 1, 1, 1), d, 3);
        }
        catch (const std::runtime_error &)
        {
            refused++;
        }
        try
        {
            w.AddNode(VoxelKey(1, 1, 0, 1), ps);
        }
        catch (const std::runtime_error &)
        {
            refused++;
        }
        try
        {
            w.AddNode(VoxelKey(1, 1, 0, 1), std::vector<char>(0));
        }
        catch (const std::runtime_error &)
        {
            refused++;
        }
        try
        {
            w.AddNodeCompressed(VoxelKey(1, 1, 0, 1), d, 3, VoxelKey(1, 0, 0, 0));
        }
        catch (const std::runtime_error &)
        {
            refused++;
        }
        try
        {
            w.AddNodeCompressed(VoxelKey(1, -1, 0, 1), d, 3);
        }
        catch (const std::runtime_error &)
        {
            refused++;
        }
        if (refused != 6)
            throw std::runtime_error("not refused");
    }
    return o.str();
}
std::string rhs_refused_nodes(const CopcConfig &cc, const std::vector<char> &d, const las::Points &ps)
{
    assume(ps.Size() > 0 && ps.PointFormatId() != 7);
    CopcCfg c = plain(cc);
    std::ostringstream o;
    CopcFile f(o, c);
    Entry e = f.raw(VoxelKey(1, 1, 1, 1), d, 5);
    f.chunks();
    f.page(VoxelKey(0, 0, 0, 0), {e});
    f.finish();
    return o.str();
}
