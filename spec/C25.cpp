// Readers and writers own their streams exactly when they opened them
//@ pure: copc::las::Points::Pack
#include "spec.hpp"
#include <copc-lib/io/copc_writer.hpp>
#include <copc-lib/io/laz_writer.hpp>
#include <copc-lib/io/copc_reader.hpp>
#include <copc-lib/io/laz_reader.hpp>
#include <fstream>
#include <type_traits>
using namespace copc;
using namespace copc::laz;
using namespace spec;

// ---- an object is neither copied nor moved where its stream could not come along
template <class T> constexpr bool copies() { return std::is_copy_constructible<T>::value || std::is_copy_assignable<T>::value; }
template <class T> constexpr bool moves() { return std::is_move_constructible<T>::value || std::is_move_assignable<T>::value; }
#define NEVER(name, what)                                                                                              \
    bool lhs_##name() { return what; }                                                                                 \
    bool rhs_##name() { return false; }
NEVER(copy_reader, copies<Reader>())
NEVER(copy_laz_reader, copies<LazReader>())
NEVER(copy_file_reader, copies<FileReader>())
NEVER(copy_laz_file_reader, copies<LazFileReader>())
NEVER(copy_writer, copies<Writer>())
NEVER(copy_laz_writer, copies<LazWriter>())
NEVER(copy_file_writer, copies<FileWriter>())
NEVER(copy_laz_file_writer, copies<LazFileWriter>())
NEVER(move_file_reader, moves<FileReader>())
NEVER(move_laz_file_reader, moves<LazFileReader>())
NEVER(move_writer, moves<Writer>())
NEVER(move_laz_writer, moves<LazWriter>())
NEVER(move_file_writer, moves<FileWriter>())
NEVER(move_laz_file_writer, moves<LazFileWriter>())
