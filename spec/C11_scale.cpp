// The resolution of a depth: the spacing of the root, halved with every level
#include "spec.hpp"
#include <copc-lib/copc/info.hpp>
#include <copc-lib/geometry/box.hpp>
#include <copc-lib/hierarchy/key.hpp>
#include <copc-lib/las/header.hpp>
using namespace copc;
typedef las::LasHeader H;
double lhs_ofdepth(int32_t d, const H &h, const CopcInfo &i) { return VoxelKey::GetResolutionAtDepth(d, h, i); }
double rhs_ofdepth(int32_t d, const H &h, const CopcInfo &i) { return i.spacing / std::pow(2, d); }
double lhs_ofkey(const VoxelKey &k, const H &h, const CopcInfo &i) { return k.Resolution(h, i); }
double rhs_ofkey(const VoxelKey &k, const H &h, const CopcInfo &i) { return i.spacing / std::pow(2, k.d); }
double lhs_root(const H &h, const CopcInfo &i) { return VoxelKey::RootKey().Resolution(h, i); }
double rhs_root(const H &h, const CopcInfo &i) { return i.spacing; }
#define AT(n, by)                                                                                                      \
    double lhs_at##n(const H &h, const CopcInfo &i) { return VoxelKey::GetResolutionAtDepth(n, h, i); }                \
    double rhs_at##n(const H &h, const CopcInfo &i) { return i.spacing / by; }
AT(0, 1.0)
AT(1, 2.0)
AT(2, 4.0)
AT(3, 8.0)
AT(5, 32.0)
AT(16, 65536.0)
AT(30, 1073741824.0)
AT(31, 2147483648.0)
