// Writers leave the stream they were lent open
//@ result
//@ pure: copc::las::Points::Pack
#include "copc_file.hpp"
#include <copc-lib/io/copc_reader.hpp>
#include <copc-lib/io/laz_reader.hpp>
#include <fstream>
#include <type_traits>
using namespace copc;
using namespace copc::laz;
using namespace spec;
static CopcCfg plain(const CopcConfig &cc) { return cfg(cc, 7, false, false, true); }
// ---- a stream handed in is left open
#define LENT(name, make, write)                                                                                        \
    bool lhs_##name(std::fstream &s, const CopcConfig &cc, const las::LazConfig &lc, const std::vector<char> &d, int n) \
    {                                                                                                                  \
        {                                                                                                              \
            make;                                                                                                      \
            write;                                                                                                     \
            w.Close();                                                                                                 \
        }                                                                                                              \
        return s.is_open();                                                                                            \
    }
LENT(lent_writer, Writer w(s, plain(cc)), w.AddNodeCompressed(VoxelKey(2, 1, 0, 1), d, n))
LENT(lent_laz_writer, LazWriter w(s, LazCfg(lc)), w.WritePointsCompressed(d, n))
bool rhs_lent_writer(std::fstream &s, const CopcConfig &cc, const las::LazConfig &lc, const std::vector<char> &d, int n)
{
    CopcFile f(s, plain(cc));
    if (n <= 0)
        throw std::runtime_error("count");
    Entry a = f.raw(VoxelKey(2, 1, 0, 1), d, n);
    f.chunks();
    f.page(VoxelKey(0, 0, 0, 0), {a});
    f.finish();
    return s.is_open();
}
bool rhs_lent_laz_writer(std::fstream &s, const CopcConfig &cc, const las::LazConfig &lc, const std::vector<char> &d, int n)
{
    LazFile f(s, LazCfg(lc));
    if (n <= 0)
        throw std::runtime_error("count");
    f.raw(d, n);
    f.finish();
    return s.is_open();
}
