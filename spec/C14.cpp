// The VLR count and offsets in the header match the VLRs written
#include "copc_file.hpp"
#include <sstream>
using namespace copc;
using namespace copc::laz;
using namespace spec;
std::string lhs_laz(const las::LazConfig &lc)
{
    LazCfg c(lc);
    std::ostringstream o;
    {
        LazWriter w(o, c);
    }
    return o.str();
}
std::string rhs_laz(const las::LazConfig &lc)
{
    std::ostringstream o;
    LazFile f(o, LazCfg(lc));
    f.finish();
    return o.str();
}
static std::string got(const CopcCfg &c)
{
    std::ostringstream o;
    {
        Writer w(o, c);
    }
    return o.str();
}
static std::string want(const CopcCfg &c)
{
    std::ostringstream o;
    CopcFile f(o, c);
    f.chunks();
    f.page(VoxelKey(0, 0, 0, 0), {});
    f.finish();
    return o.str();
}
#define COPC(n, f, eb, ext, wkt)                                                                                       \
    std::string lhs_##n(const CopcConfig &cc) { return got(cfg(cc, f, eb, ext, wkt)); }                                \
    std::string rhs_##n(const CopcConfig &cc) { return want(cfg(cc, f, eb, ext, wkt)); }
COPC(copc6, 6, false, false, false)
COPC(copc6_eb, 6, true, false, true)
COPC(copc6_ext, 6, false, true, true)
COPC(copc6_all, 6, true, true, false)
COPC(copc7, 7, false, false, true)
COPC(copc7_eb, 7, true, false, false)
COPC(copc7_ext, 7, false, true, false)
COPC(copc7_all, 7, true, true, true)
COPC(copc8, 8, false, false, false)
COPC(copc8_eb, 8, true, false, true)
COPC(copc8_ext, 8, false, true, true)
COPC(copc8_all, 8, true, true, true)
