// A file written by path is complete and released when its writer is closed
//@ pure: copc::las::Points::Pack
#include "copc_file.hpp"
#include <fstream>
using namespace copc;
using namespace copc::laz;
using namespace spec;
static CopcCfg plain(const CopcConfig &cc) { return cfg(cc, 7, false, false, true); }
// what is put into the file after that stays there
static void reuse(const std::string &path)
{
    std::fstream o(path, std::ios::out | std::ios::binary);
    o << "x";
}
#define RELEASED(name, make, write)                                                                                    \
    void lhs_##name(const std::string &path, const CopcConfig &cc, const las::LazConfig &lc, const std::vector<char> &d, int n) \
    {                                                                                                                  \
        make;                                                                                                          \
        write;                                                                                                         \
        w.Close();                                                                                                     \
        reuse(path);                                                                                                   \
        w.Close();                                                                                                     \
    }                                                                                                                  \
    void rhs_##name(const std::string &path, const CopcConfig &cc, const las::LazConfig &lc, const std::vector<char> &d, int n) \
    {                                                                                                                  \
        {                                                                                                              \
            make;                                                                                                      \
            write;                                                                                                     \
        }                                                                                                              \
        reuse(path);                                                                                                   \
    }
RELEASED(released_writer, FileWriter w(path, plain(cc)), w.AddNodeCompressed(VoxelKey(2, 1, 0, 1), d, n))
RELEASED(released_laz_writer, LazFileWriter w(path, LazCfg(lc)), w.WritePointsCompressed(d, n))
// and one which is abandoned is closed with its owner, not before
#define HELD(name, make, write)                                                                                        \
    void lhs_##name(const std::string &path, const CopcConfig &cc, const las::LazConfig &lc, const std::vector<char> &d, int n) \
    {                                                                                                                  \
        make;                                                                                                          \
        write;                                                                                                         \
        reuse(path);                                                                                                   \
    }                                                                                                                  \
    void rhs_##name(const std::string &path, const CopcConfig &cc, const las::LazConfig &lc, const std::vector<char> &d, int n) \
    {                                                                                                                  \
        reuse(path);                                                                                                   \
        make;                                                                                                          \
        write;                                                                                                         \
    }
HELD(held_writer, FileWriter w(path, plain(cc)), w.AddNodeCompressed(VoxelKey(2, 1, 0, 1), d, n))
HELD(held_laz_writer, LazFileWriter w(path, LazCfg(lc)), w.WritePointsCompressed(d, n))
// an abandoned file holds what a closed one does
#define ABANDONED(name, make, write)                                                                                   \
    void lhs_##name(const std::string &path, const CopcConfig &cc, const las::LazConfig &lc, const std::vector<char> &d, int n) \
    {                                                                                                                  \
        make;                                                                                                          \
        write;                                                                                                         \
    }                                                                                                                  \
    void rhs_##name(const std::string &path, const CopcConfig &cc, const las::LazConfig &lc, const std::vector<char> &d, int n) \
    {                                                                                                                  \
        make;                                                                                                          \
        write;                                                                                                         \
        w.Close();                                                                                                     \
    }
ABANDONED(abandoned_writer, FileWriter w(path, plain(cc)), w.AddNodeCompressed(VoxelKey(2, 1, 0, 1), d, n))
ABANDONED(abandoned_laz_writer, LazFileWriter w(path, LazCfg(lc)), w.WritePointsCompressed(d, n))
