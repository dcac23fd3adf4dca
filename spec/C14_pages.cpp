// ... for files with points, and with pages below pages
#include "copc_file.hpp"
#include <sstream>
using namespace copc;
using namespace copc::laz;
using namespace spec;
typedef std::vector<char> Bytes;
static const VoxelKey A(1, 0, 1, 0), B(2, 1, 3, 1), C(3, 2, 6, 3), D(4, 5, 13, 6), ROOT(0, 0, 0, 0);
static Node add(Writer &w, const VoxelKey &k, const Bytes &d, const VoxelKey &p) { return w.AddNodeCompressed(k, d, 7, p); }
#define LAW(n, CFG, WRITE, EXPECT)                                                                                     \
    std::string lhs_##n(const CopcConfig &cc, const Bytes &d, const Bytes &e)                                          \
    {                                                                                                                  \
        std::ostringstream o;                                                                                          \
        {                                                                                                              \
            Writer w(o, CFG);                                                                                          \
            WRITE;                                                                                                     \
        }                                                                                                              \
        return o.str();                                                                                                \
    }                                                                                                                  \
    std::string rhs_##n(const CopcConfig &cc, const Bytes &d, const Bytes &e)                                          \
    {                                                                                                                  \
        std::ostringstream o;                                                                                          \
        CopcFile f(o, CFG);                                                                                            \
        EXPECT;                                                                                                        \
        f.finish();                                                                                                    \
        return o.str();                                                                                                \
    }
#define CHAIN add(w, D, d, C); add(w, C, e, B); add(w, A, e, ROOT)
#define CHAINED Entry x = f.raw(D, d, 7); Entry y = f.raw(C, e, 7); Entry r = f.raw(A, e, 7); f.chunks();              \
    f.page(ROOT, {r, f.page(B, {y, f.page(C, {x})})})
LAW(chain_plain, cfg(cc, 6, false, false, false), CHAIN, CHAINED)
LAW(chain_wkt, cfg(cc, 6, false, false, true), CHAIN, CHAINED)
LAW(chain_all, cfg(cc, 8, true, true, true), CHAIN, CHAINED)
LAW(chain_eb, cfg(cc, 7, true, false, true), CHAIN, CHAINED)
LAW(emptied, cfg(cc, 7, false, true, true), add(w, D, d, C); w.ChangeNodePage(D, A),
    Entry x = f.raw(D, d, 7); f.chunks(); f.page(ROOT, {f.page(A, {x})}))
LAW(one, cfg(cc, 7, true, false, true), add(w, A, d, ROOT), Entry x = f.raw(A, d, 7); f.chunks(); f.page(ROOT, {x}))
std::string lhs_laz_chunks(const las::LazConfig &lc, const Bytes &d, const Bytes &e)
{
    LazCfg c(lc);
    std::ostringstream o;
    {
        LazWriter w(o, c);
        w.WritePointsCompressed(d, 3);
        w.WritePointsCompressed(e, 4);
    }
    return o.str();
}
std::string rhs_laz_chunks(const las::LazConfig &lc, const Bytes &d, const Bytes &e)
{
    std::ostringstream o;
    LazFile f(o, LazCfg(lc));
    f.raw(d, 3);
    f.raw(e, 4);
    f.finish();
    return o.str();
}
