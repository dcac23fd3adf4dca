// Reading points of an open file
//@ pure: copc::las::Points::Unpack
//@ opaque: copc::BaseIO::FindNode
#include "reader.hpp"
#include <copc-lib/las/utils.hpp>
#include <copc-lib/laz/decompressor.hpp>
#include <lazperf/filestream.hpp>
using namespace copc;
using namespace spec;
typedef std::vector<char> B;
// n records of the format, from where the stream is
static B records(std::istream &i, const las::LasHeader &h, int n)
{
    B out;
    lazperf::InFileStream s(i);
    auto z = lazperf::build_las_decompressor(s.cb(), h.PointFormatId(), h.EbByteSize());
    int8_t f = h.PointFormatId();
    uint16_t size = (f == 6 ? 30 : f == 7 ? 36 : 38) + h.EbByteSize();
    B one(size);
    for (int k = 0; k < n; k++)
    {
        z->decompress(one.data());
        out.insert(out.end(), one.begin(), one.end());
    }
    i.clear();
    return out;
}
B lhs_node(CopcIn &r, const Node &n) { return r.GetPointData(n); }
B rhs_node(CopcIn &r, const Node &n)
{
    if (!n.IsValid())
        throw std::runtime_error("invalid");
    r.stream().seekg(n.offset);
    return records(r.stream(), r.CopcConfig().LasHeader(), n.point_count);
}
las::Points lhs_node_points(CopcIn &r, const Node &n) { return r.GetPoints(n); }
las::Points rhs_node_points(CopcIn &r, const Node &n)
{
    return las::Points::Unpack(r.GetPointData(n), r.CopcConfig().LasHeader());
}
// a key is looked up first; one which is not in the file has no points
B lhs_key(CopcIn &r, const VoxelKey &k) { return r.GetPointData(k); }
B rhs_key(CopcIn &r, const VoxelKey &k)
{
    if (!k.IsValid())
        return B();
    Node n = r.FindNode(k);
    return n.IsValid() ? r.GetPointData(n) : B();
}
las::Points lhs_key_points(CopcIn &r, const VoxelKey &k) { return r.GetPoints(k); }
las::Points rhs_key_points(CopcIn &r, const VoxelKey &k)
{
    B d = r.GetPointData(k);
    if (d.empty())
        return las::Points(r.CopcConfig().LasHeader());
    return las::Points::Unpack(d, r.CopcConfig().LasHeader());
}
las::Points lhs_laz_points(LazIn &r) { return r.GetPoints(); }
las::Points rhs_laz_points(LazIn &r)
{
    B d = r.GetPointData();
    if (d.empty())
        return las::Points(r.LazConfig().LasHeader());
    return las::Points::Unpack(d, r.LazConfig().LasHeader());
}
