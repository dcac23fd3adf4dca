// The extents of a configuration are those it was built from, in all their parts
#include <copc-lib/copc/copc_config.hpp>
#include <copc-lib/io/copc_writer.hpp>
#include <sstream>
#include "spec.hpp"
using namespace copc;
using namespace spec;
struct XV
{
    int8_t fmt;
    bool ext;
    std::vector<CopcExtent> x;
    double m, s;
};
static XV view(const CopcExtents &x, int i) { return XV{x.PointFormatId(), x.HasExtendedStats(), x.Extents(), x.Extents()[i].mean, x.Extents()[i].var}; }
static void whole(const CopcExtents &x, int i)
{
    assume(x.PointFormatId() >= 6 && x.PointFormatId() <= 8);
    assume(x.NumberOfExtents() == (x.PointFormatId() == 6 ? 14 : x.PointFormatId() == 7 ? 17 : 18));
    assume(i >= 0 && i < 14);
}
XV lhs_built(const las::LasHeader &h, const CopcInfo &c, const CopcExtents &x, const las::EbVlr &eb, int i)
{
    whole(x, i);
    CopcConfigWriter a(h, c, x, "", eb);
    return view(*a.CopcExtents(), i);
}
XV rhs_built(const las::LasHeader &h, const CopcInfo &c, const CopcExtents &x, const las::EbVlr &eb, int i)
{
    whole(x, i);
    return view(x, i);
}
XV lhs_again(const las::LasHeader &h, const CopcInfo &c, const CopcExtents &x, const las::EbVlr &eb, int i)
{
    whole(x, i);
    CopcConfigWriter a(h, c, x, "", eb);
    CopcConfigWriter b(a);
    return view(*b.CopcExtents(), i);
}
XV rhs_again(const las::LasHeader &h, const CopcInfo &c, const CopcExtents &x, const las::EbVlr &eb, int i)
{
    whole(x, i);
    return view(x, i);
}
XV lhs_written(const las::LasHeader &h, const CopcInfo &c, const CopcExtents &x, const las::EbVlr &eb, int i)
{
    whole(x, i);
    assume(h.PointFormatId() >= 6 && h.PointFormatId() <= 8);
    assume(h.PointRecordLength() >= 38 && h.PointRecordLength() <= 60000);
    assume(eb.items.size() == 0);
    CopcConfigWriter a(h, c, x, "", eb);
    std::ostringstream o;
    Writer &w = *new Writer(o, a);
    return view(*w.CopcConfig()->CopcExtents(), i);
}
XV rhs_written(const las::LasHeader &h, const CopcInfo &c, const CopcExtents &x, const las::EbVlr &eb, int i)
{
    whole(x, i);
    return view(x, i);
}
