// Readers whose stream a law may look at
#pragma once
#include "spec.hpp"
#include <copc-lib/io/copc_reader.hpp>
#include <copc-lib/hierarchy/internal/hierarchy.hpp>
#include <copc-lib/io/laz_reader.hpp>
namespace spec
{
struct CopcIn : copc::Reader
{
    using copc::Reader::Reader;
    std::istream &stream() { return *in_stream_; }
    // as after opening a file with its root page there
    CopcIn(std::istream &i, uint64_t at, int32_t size)
    {
        in_stream_ = &i;
        hierarchy_ = std::make_shared<copc::Internal::Hierarchy>(at, size);
    }
};
struct LazIn : copc::laz::LazReader
{
    using copc::laz::LazReader::LazReader;
    std::istream &stream() { return *in_stream_; }
};
} // namespace spec
