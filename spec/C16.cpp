// Closing a writer finishes the file once, in order
#include "copc_file.hpp"
#include <fstream>
#include <sstream>
using namespace copc;
using namespace copc::laz;
using namespace spec;
//@ pure: copc::las::Points::Pack
static CopcCfg plain(const CopcConfig &cc) { return cfg(cc, 7, false, false, true); }
// ---- LAZ writer
static void laz_all(LazWriter &w, const std::vector<char> &d, int n)
{
    w.WritePointsCompressed(d, n);
}
static std::string laz_file(const LazCfg &c, const std::vector<char> &d, int n)
{
    std::ostringstream o;
    LazFile f(o, c);
    if (n <= 0)
        throw std::runtime_error("count");
    f.raw(d, n);
    f.finish();
    return o.str();
}
std::string lhs_laz_close(const las::LazConfig &lc, const std::vector<char> &d, int n)
{
    std::ostringstream o;
    LazWriter w(o, LazCfg(lc));
    laz_all(w, d, n);
    w.Close();
    return o.str();
}
std::string rhs_laz_close(const las::LazConfig &lc, const std::vector<char> &d, int n) { return laz_file(LazCfg(lc), d, n); }
std::string lhs_laz_close_twice(const las::LazConfig &lc, const std::vector<char> &d, int n)
{
    std::ostringstream o;
    {
        LazWriter w(o, LazCfg(lc));
        laz_all(w, d, n);
        w.Close();
        w.Close();
        w.Close();
    }
    return o.str();
}
std::string rhs_laz_close_twice(const las::LazConfig &lc, const std::vector<char> &d, int n) { return laz_file(LazCfg(lc), d, n); }
std::string lhs_laz_destroy(const las::LazConfig &lc, const std::vector<char> &d, int n)
{
    std::ostringstream o;
    {
        LazWriter w(o, LazCfg(lc));
        laz_all(w, d, n);
    }
    return o.str();
}
std::string rhs_laz_destroy(const las::LazConfig &lc, const std::vector<char> &d, int n) { return laz_file(LazCfg(lc), d, n); }
// nothing may be written once the file is closed
std::string lhs_laz_closed(const las::LazConfig &lc, const std::vector<char> &d, int n, const las::Points &ps)
{
    assume(ps.Size() > 0);
    std::ostringstream o;
    LazWriter w(o, LazCfg(lc));
    laz_all(w, d, n);
    w.Close();
    bool refused = false, refused2 = false;
    try
    {
        w.WritePointsCompressed(d, 3);
    }
    catch (const std::runtime_error &)
    {
        refused = true;
    }
    try
    {
        w.WritePoints(ps);
    }
    catch (const std::runtime_error &)
    {
        refused2 = true;
    }
    if (!refused || !refused2)
        return "written";
    w.Close();
    return o.str();
}
std::string rhs_laz_closed(const las::LazConfig &lc, const std::vector<char> &d, int n, const las::Points &ps)
{
    assume(ps.Size() > 0);
    return laz_file(LazCfg(lc), d, n);
}
// the header is that of the configuration at the time of closing
std::string lhs_laz_late(const las::LazConfig &lc, const std::vector<char> &d, int n, const Vector3 &lo, const Vector3 &hi, int32_t gps)
{
    std::ostringstream o;
    LazWriter w(o, LazCfg(lc));
    w.LazConfig()->LasHeader()->min = lo;
    laz_all(w, d, n);
    w.LazConfig()->LasHeader()->max = hi;
    w.LazConfig()->LasHeader()->file_source_id = gps;
    w.LazConfig()->LasHeader()->SystemIdentifier("system");
    w.Close();
    w.LazConfig()->LasHeader()->min = hi;
    w.LazConfig()->LasHeader()->global_encoding = 5;
    w.Close();
    return o.str();
}
std::string rhs_laz_late(const las::LazConfig &lc, const std::vector<char> &d, int n, const Vector3 &lo, const Vector3 &hi, int32_t gps)
{
    LazCfg c(lc);
    c.LasHeader()->min = lo;
    c.LasHeader()->max = hi;
    c.LasHeader()->file_source_id = gps;
    c.LasHeader()->SystemIdentifier("system");
    return laz_file(c, d, n);
}
void lhs_laz_disk(const std::string &path, const las::LazConfig &lc, const std::vector<char> &d, int n)
{
    LazFileWriter w(path, LazCfg(lc));
    w.WritePointsCompressed(d, n);
}
void rhs_laz_disk(const std::string &path, const las::LazConfig &lc, const std::vector<char> &d, int n)
{
    std::fstream o(path, std::ios::out | std::ios::binary);
    if (!o.good())
        throw std::runtime_error("open");
    LazFile f(o, LazCfg(lc));
    if (n <= 0)
        throw std::runtime_error("count");
    f.raw(d, n);
    f.finish();
    o.close();
}
// ---- COPC writer
static std::string copc_file(const CopcCfg &c, const std::vector<char> &d, int n)
{
    std::ostringstream o;
    CopcFile f(o, c);
    if (n <= 0)
        throw std::runtime_error("count");
    Entry a = f.raw(VoxelKey(2, 1, 0, 1), d, n);
    f.chunks();
    f.page(VoxelKey(0, 0, 0, 0), {a});
    f.finish();
    return o.str();
}
std::string lhs_close(const CopcConfig &cc, const std::vector<char> &d, int n)
{
    std::ostringstream o;
    Writer w(o, plain(cc));
    w.AddNodeCompressed(VoxelKey(2, 1, 0, 1), d, n);
    w.Close();
    return o.str();
}
std::string rhs_close(const CopcConfig &cc, const std::vector<char> &d, int n) { return copc_file(plain(cc), d, n); }
std::string lhs_close_twice(const CopcConfig &cc, const std::vector<char> &d, int n)
{
    std::ostringstream o;
    {
        Writer w(o, plain(cc));
        w.AddNodeCompressed(VoxelKey(2, 1, 0, 1), d, n);
        w.Close();
        w.Close();
        w.Close();
    }
    return o.str();
}
std::string rhs_close_twice(const CopcConfig &cc, const std::vector<char> &d, int n) { return copc_file(plain(cc), d, n); }
std::string lhs_destroy(const CopcConfig &cc, const std::vector<char> &d, int n)
{
    std::ostringstream o;
    {
        Writer w(o, plain(cc));
        w.AddNodeCompressed(VoxelKey(2, 1, 0, 1), d, n);
    }
    return o.str();
}
std::string rhs_destroy(const CopcConfig &cc, const std::vector<char> &d, int n) { return copc_file(plain(cc), d, n); }
std::string lhs_closed(const CopcConfig &cc, const std::vector<char> &d, int n)
{
    std::ostringstream o;
    Writer w(o, plain(cc));
    w.AddNodeCompressed(VoxelKey(2, 1, 0, 1), d, n);
    w.Close();
    bool refused = false, refused2 = false;
    try
    {
        w.AddNodeCompressed(VoxelKey(1, 1, 0, 1), d, 3);
    }
    catch (const std::runtime_error &)
    {
        refused = true;
    }
    try
    {
        w.AddNode(VoxelKey(1, 1, 1, 1), d);
    }
    catch (const std::runtime_error &)
    {
        refused2 = true;
    }
    if (!refused || !refused2)
        return "written";
    w.Close();
    return o.str();
}
std::string rhs_closed(const CopcConfig &cc, const std::vector<char> &d, int n) { return copc_file(plain(cc), d, n); }
std::string lhs_closed_points(const CopcConfig &cc, const las::Points &ps)
{
    std::ostringstream o;
    Writer w(o, plain(cc));
    w.Close();
    bool refused = false;
    try
    {
        w.AddNode(VoxelKey(1, 1, 0, 1), ps);
    }
    catch (const std::runtime_error &)
    {
        refused = true;
    }
    if (!refused)
        return "written";
    w.Close();
    return o.str();
}
std::string rhs_closed_points(const CopcConfig &cc, const las::Points &ps)
{
    std::ostringstream o;
    CopcFile f(o, plain(cc));
    f.chunks();
    f.page(VoxelKey(0, 0, 0, 0), {});
    f.finish();
    return o.str();
}
std::string lhs_late(const CopcConfig &cc, const std::vector<char> &d, int n, const Vector3 &lo, const Vector3 &hi, double g, double h)
{
    std::ostringstream o;
    Writer w(o, plain(cc));
    w.CopcConfig()->LasHeader()->min = lo;
    w.AddNodeCompressed(VoxelKey(2, 1, 0, 1), d, n);
    w.CopcConfig()->LasHeader()->max = hi;
    w.CopcConfig()->LasHeader()->GeneratingSoftware("software");
    w.CopcConfig()->CopcInfo()->spacing = g;
    w.CopcConfig()->CopcExtents()->GpsTime()->minimum = g;
    w.CopcConfig()->CopcExtents()->Classification()->maximum = h;
    w.Close();
    w.CopcConfig()->LasHeader()->min = hi;
    w.CopcConfig()->CopcInfo()->spacing = h;
    w.Close();
    return o.str();
}
std::string rhs_late(const CopcConfig &cc, const std::vector<char> &d, int n, const Vector3 &lo, const Vector3 &hi, double g, double h)
{
    std::ostringstream o;
    CopcFile f(o, plain(cc));
    if (n <= 0)
        throw std::runtime_error("count");
    Entry a = f.raw(VoxelKey(2, 1, 0, 1), d, n);
    f.chunks();
    f.page(VoxelKey(0, 0, 0, 0), {a});
    f.c->LasHeader()->min = lo;
    f.c->LasHeader()->max = hi;
    f.c->LasHeader()->GeneratingSoftware("software");
    f.c->CopcInfo()->spacing = g;
    f.c->CopcExtents()->GpsTime()->minimum = g;
    f.c->CopcExtents()->Classification()->maximum = h;
    f.finish();
    return o.str();
}
void lhs_disk(const std::string &path, const CopcConfig &cc, const std::vector<char> &d, int n)
{
    CopcCfg c = plain(cc);
    FileWriter w(path, c);
    w.AddNodeCompressed(VoxelKey(2, 1, 0, 1), d, n);
}
void rhs_disk(const std::string &path, const CopcConfig &cc, const std::vector<char> &d, int n)
{
    CopcCfg c = plain(cc);
    std::fstream o(path, std::ios::out | std::ios::binary);
    if (!o.good())
        throw std::runtime_error("open");
    CopcFile f(o, c);
    if (n <= 0)
        throw std::runtime_error("count");
    Entry a = f.raw(VoxelKey(2, 1, 0, 1), d, n);
    f.chunks();
    f.page(VoxelKey(0, 0, 0, 0), {a});
    f.finish();
    o.close();
}
