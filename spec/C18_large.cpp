// Pages of any size are read to their end
//@ result
#include "reader.hpp"
using namespace copc;
using namespace spec;
struct Pages : CopcIn
{
    using CopcIn::CopcIn;
    size_t entries(uint64_t at, int32_t size)
    {
        auto p = std::make_shared<Internal::PageInternal>(VoxelKey(0, 0, 0, 0), at, size);
        return ReadPage(p).size();
    }
};
size_t lhs_large(int32_t n)
{
    assume(n >= 0 && n < 67000000);
    std::istringstream i(std::string(n * 32, '\0'));
    Pages r(i, 0, n * 32);
    return r.entries(0, n * 32);
}
size_t rhs_large(int32_t n)
{
    assume(n >= 0 && n < 67000000);
    return n;
}
