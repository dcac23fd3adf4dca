// No access leaves its buffer, table or record: readers and writers
#include "copc_file.hpp"
#include "laz_file.hpp"
#include "reader.hpp"
#include <copc-lib/io/copc_writer.hpp>
#include <copc-lib/io/laz_writer.hpp>
#include <fstream>
#include <sstream>
using namespace copc;
using namespace copc::laz;
using namespace spec;
typedef std::vector<char> Bytes;
static CopcCfg plain(const CopcConfig &cc) { return cfg(cc, 7, false, false, true); }
static const VoxelKey ROOT() { return VoxelKey(0, 0, 0, 0); }

// ---- reading
void safe_openlaz(std::istringstream &i) { LazReader r(&i); }
void safe_points(std::istringstream &i)
{
    LazIn r(&i);
    r.GetPointData();
}
void safe_lazpoints(std::istringstream &i)
{
    LazIn r(&i);
    r.GetPoints();
}
static void put_entry(std::ostream &o, const VoxelKey &k, uint64_t at, int32_t size, int32_t count)
{
    put(o, k.d);
    put(o, k.x);
    put(o, k.y);
    put(o, k.z);
    put(o, at);
    put(o, size);
    put(o, count);
}
// files of a few pages: what is asked for by key is tested before it is used
struct Pages
{
    std::ostringstream o;
    Pages(int shape, uint64_t at, int32_t size, int32_t count)
    {
        assume(size >= 0 && count >= 0);
        VoxelKey R(0, 0, 0, 0), A(1, 0, 0, 0), AA(2, 1, 1, 0), AAA(3, 2, 2, 1);
        if (shape == 1)
            put_entry(o, R, at, size, count);
        if (shape == 2)
        {
            put_entry(o, R, at, size, count);
            put_entry(o, A, 64, 64, -1);
            put_entry(o, A, at + 1, size, count);
            put_entry(o, AA, at + 2, size, 7);
        }
        if (shape == 3)
        {
            put_entry(o, R, at, size, count);
            put_entry(o, A, 64, 32, -1);
            put_entry(o, AA, 96, 32, -1);
            put_entry(o, AAA, at, size, count);
        }
        if (shape == 4)
        {
            put_entry(o, AA, 64, 32, -1);
            put_entry(o, A, at, size, count);
            put_entry(o, AAA, at, size, count);
        }
    }
};
template <int S> void find(uint64_t at, int32_t size, int32_t count, const VoxelKey &k)
{
    Pages p(S, at, size, count);
    std::istringstream i(p.o.str());
    CopcIn r(i, 0, S == 0 ? 0 : S == 1 ? 32 : 64);
    r.FindNode(k);
    r.GetAllChildrenOfPage(k);
    r.GetPageList();
    r.GetAllChildrenOfPage(k);
    r.GetPointDataCompressed(k);
}
#define FIND(S)                                                                                                        \
    void safe_root##S(uint64_t at, int32_t size, int32_t count) { find<S>(at, size, count, VoxelKey(0, 0, 0, 0)); }      \
    void safe_a##S(uint64_t at, int32_t size, int32_t count) { find<S>(at, size, count, VoxelKey(1, 0, 0, 0)); }         \
    void safe_aa##S(uint64_t at, int32_t size, int32_t count) { find<S>(at, size, count, VoxelKey(2, 1, 1, 0)); }        \
    void safe_aaa##S(uint64_t at, int32_t size, int32_t count) { find<S>(at, size, count, VoxelKey(3, 2, 2, 1)); }       \
    void safe_none##S(uint64_t at, int32_t size, int32_t count) { find<S>(at, size, count, VoxelKey(2, 0, 1, 1)); }      \
    void safe_bad##S(uint64_t at, int32_t size, int32_t count) { find<S>(at, size, count, VoxelKey(-1, -1, -1, -1)); }   \
    void safe_list##S(uint64_t at, int32_t size, int32_t count)                                                         \
    {                                                                                                                  \
        Pages p(S, at, size, count);                                                                                   \
        std::istringstream i(p.o.str());                                                                               \
        CopcIn r(i, 0, S == 0 ? 0 : S == 1 ? 32 : 64);                                                                   \
        r.GetAllNodes();                                                                                               \
        r.GetPageList();                                                                                               \
    }
FIND(0)
FIND(1)
FIND(2)
FIND(3)
FIND(4)
void safe_data(std::istringstream &i, const Node &n)
{
    CopcIn r(i, 0, 0);
    r.GetPointDataCompressed(n);
}

// ---- writing
void safe_lazraw(std::ostream &o, const las::LazConfig &lc, const Bytes &d, int32_t n)
{
    LazWriter &w = *new LazWriter(o, LazCfg(lc));
    w.WritePointsCompressed(d, n);
    w.Close();
}
void safe_lazpack(std::ostream &o, const las::LazConfig &lc, const las::Points &p)
{
    LazWriter &w = *new LazWriter(o, LazCfg(lc));
    w.WritePoints(p);
}
#define KEEP std::ostringstream o; Writer &w = *new Writer(o, plain(cc))
void safe_add(const CopcConfig &cc, const Bytes &d, const VoxelKey &k, const VoxelKey &p)
{
    KEEP;
    w.AddNodeCompressed(k, d, 7, p);
}
void safe_addtwice(const CopcConfig &cc, const Bytes &d, const VoxelKey &k, const VoxelKey &p, const VoxelKey &m, const VoxelKey &q)
{
    KEEP;
    w.AddNodeCompressed(k, d, 7, p);
    w.AddNodeCompressed(m, d, 7, q);
}
void safe_addraw(const CopcConfig &cc, const Bytes &d, const VoxelKey &k, const VoxelKey &p)
{
    KEEP;
    w.AddNode(k, d, p);
}
void safe_addpoints(const CopcConfig &cc, const las::Points &d, const VoxelKey &k, const VoxelKey &p)
{
    KEEP;
    w.AddNode(k, d, p);
}
void safe_move(const CopcConfig &cc, const Bytes &d, const VoxelKey &k, const VoxelKey &p, const VoxelKey &m, const VoxelKey &q)
{
    KEEP;
    w.AddNodeCompressed(k, d, 7, p);
    w.ChangeNodePage(m, q);
}
void safe_movetwice(const CopcConfig &cc, const Bytes &d, const VoxelKey &k, const VoxelKey &p, const VoxelKey &q, const VoxelKey &r)
{
    KEEP;
    w.AddNodeCompressed(k, d, 7, p);
    w.ChangeNodePage(k, q);
    w.ChangeNodePage(k, r);
}
void safe_moveback(const CopcConfig &cc, const Bytes &d, const VoxelKey &k, const VoxelKey &p, const VoxelKey &q)
{
    KEEP;
    w.AddNodeCompressed(k, d, 7, p);
    w.ChangeNodePage(k, q);
    w.ChangeNodePage(k, p);
    w.AddNodeCompressed(p, d, 7, p);
}
void safe_closeempty(const CopcConfig &cc)
{
    KEEP;
    w.Close();
}
void safe_closetree(const CopcConfig &cc, const Bytes &d)
{
    KEEP;
    w.AddNodeCompressed(VoxelKey(2, 1, 0, 1), d, 7, VoxelKey(1, 0, 0, 0));
    w.AddNodeCompressed(VoxelKey(4, 4, 0, 4), d, 7, VoxelKey(4, 4, 0, 4));
    w.Close();
}
