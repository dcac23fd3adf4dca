// The header written at close describes everything written before: files with every kind of VLR and EVLR
#include "copc_file.hpp"
#include <sstream>
using namespace copc;
using namespace spec;
static std::string got(const CopcCfg &c, const std::vector<char> &d, int n, const std::vector<char> &e)
{
    std::ostringstream o;
    {
        Writer w(o, c);
        w.AddNodeCompressed(VoxelKey(0, 0, 0, 0), d, n);
        w.AddNode(VoxelKey(2, 1, 0, 1), e);
    }
    return o.str();
}
static std::string want(const CopcCfg &c, const std::vector<char> &d, int n, const std::vector<char> &e)
{
    std::ostringstream o;
    CopcFile f(o, c);
    if (n <= 0)
        throw std::runtime_error("count");
    Entry a = f.raw(VoxelKey(0, 0, 0, 0), d, n);
    if (e.empty() || e.size() % c.LasHeader().PointRecordLength() != 0)
        throw std::runtime_error("records");
    Entry b = f.records(VoxelKey(2, 1, 0, 1), e);
    f.chunks();
    f.page(VoxelKey(0, 0, 0, 0), {a, b});
    f.finish();
    return o.str();
}
#define ALL(n, f, eb, ext, wkt)                                                                                        \
    std::string lhs_##n(const CopcConfig &cc, const std::vector<char> &d, int k, const std::vector<char> &e)           \
    {                                                                                                                  \
        return got(cfg(cc, f, eb, ext, wkt), d, k, e);                                                                 \
    }                                                                                                                  \
    std::string rhs_##n(const CopcConfig &cc, const std::vector<char> &d, int k, const std::vector<char> &e)           \
    {                                                                                                                  \
        return want(cfg(cc, f, eb, ext, wkt), d, k, e);                                                                \
    }
ALL(all6, 6, true, true, true)
ALL(all7, 7, true, true, true)
ALL(all8, 8, false, true, true)
