// Common vocabulary of the law files.  A law is a pair lhs_x / rhs_x of functions with the same signature whose
// results, refusals (throws) and effects must agree for every input, or an always_x predicate that must hold for every
// input.  They are analysed, never run.
#pragma once
#include <cmath>
#include <cstdint>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
namespace spec
{
void assume(bool c);
template <typename T> void put(std::ostream &o, const T &v) { o.write(reinterpret_cast<const char *>(&v), sizeof(T)); }
template <typename T> T get(std::istream &i)
{
    T v;
    i.read(reinterpret_cast<char *>(&v), sizeof(T));
    if (!i)
        throw std::runtime_error("short read");
    return v;
}
} // namespace spec
using spec::assume;
