// Readers keep the stream they were lent open, and hold the one they opened until they are closed
//@ pure: copc::Reader::ReadCopcInfoVlr copc::Reader::ReadCopcExtentsVlr copc::BaseReader::ReadExtraBytesVlr copc::BaseReader::ReadWktVlr copc::BaseReader::ReadVlrHeaders
#include "reader.hpp"
#include <fstream>
using namespace copc;
using namespace copc::laz;
using namespace spec;
// ---- a stream handed in is left open, and goes on where it was
#define KEEPS_READING(name, what)                                                                                      \
    bool lhs_##name(std::fstream &s)                                                                                   \
    {                                                                                                                  \
        {                                                                                                              \
            what r(&s);                                                                                                \
        }                                                                                                              \
        return s.is_open();                                                                                            \
    }                                                                                                                  \
    bool rhs_##name(std::fstream &s)                                                                                   \
    {                                                                                                                  \
        auto *r = new what(&s);                                                                                        \
        return s.is_open();                                                                                            \
    }
KEEPS_READING(lent_reader, CopcIn)
KEEPS_READING(lent_laz_reader, LazIn)
// ---- a path is opened for as long as the object lives, or until it is closed
static bool open(std::istream *s) { return static_cast<std::fstream *>(s)->is_open(); }
struct CopcAt : FileReader
{
    using FileReader::FileReader;
    bool open() { return ::open(in_stream_); }
};
struct LazAt : LazFileReader
{
    using LazFileReader::LazFileReader;
    bool open() { return ::open(in_stream_); }
};
static bool opens(const std::string &path)
{
    std::fstream s;
    s.open(path.c_str(), std::ios::in | std::ios::binary);
    return s.good();
}
template <class T> bool opened(const std::string &path)
{
    assume(opens(path));
    try
    {
        T r(path);
        return r.open() && r.FilePath() == path;
    }
    catch (std::exception &)
    {
        return true; // not a file of the kind
    }
}
template <class T> bool closed(const std::string &path)
{
    assume(opens(path));
    try
    {
        T r(path);
        r.Close();
        r.Close();
        return !r.open();
    }
    catch (std::exception &)
    {
        return true;
    }
}
bool always_copc_open(const std::string &path) { return opened<CopcAt>(path); }
bool always_laz_open(const std::string &path) { return opened<LazAt>(path); }
bool always_copc_close(const std::string &path) { return closed<CopcAt>(path); }
bool always_laz_close(const std::string &path) { return closed<LazAt>(path); }
