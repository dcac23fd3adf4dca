// Reference image of a LAZ file: what LazWriter must have written
#pragma once
#include "spec.hpp"
#include <copc-lib/io/laz_writer.hpp>
#include <copc-lib/laz/compressor.hpp>
#include <lazperf/filestream.hpp>
#include <lazperf/vlr.hpp>
namespace spec
{
using namespace copc;
typedef las::LazConfigWriter LazCfg;
typedef las::EbVlr EB;
struct Chunk
{
    uint64_t count, end;
};
struct LazFile
{
    std::ostream &o;
    LazCfg c;
    size_t off;
    uint64_t count;
    std::vector<lazperf::chunk> table;
    uint64_t prev;
    lazperf::laz_vlr lv;
    LazFile(std::ostream &out, const LazCfg &cfg)
        : o(out), c(cfg), count(0), lv(c.LasHeader()->PointFormatId(), c.LasHeader()->EbByteSize(), 0xffffffffu)
    {
        off = 375 + 54 + lv.size();
        if (c.ExtraBytesVlr().items.size() > 0)
            off += 54 + 192 * c.ExtraBytesVlr().items.size();
        std::vector<char> zero(off + 8, 0);
        o.write(zero.data(), zero.size());
        prev = off + 8;
    }
    void chunk(uint64_t n, uint64_t start)
    {
        uint64_t e = (uint64_t)o.tellp();
        if (e - start > 2147483647)
            throw std::runtime_error("chunk too large");
        table.push_back(lazperf::chunk{n, e - prev});
        prev = e;
        count += n;
    }
    void raw(const std::vector<char> &d, int32_t n)
    {
        uint64_t at = (uint64_t)o.tellp();
        o.write(d.data(), d.size());
        chunk(n, at);
    }
    void records(const std::vector<char> &d)
    {
        if (d.size() % c.LasHeader()->PointRecordLength() != 0 || d.size() > 2147483647)
            throw std::runtime_error("not records");
        uint64_t at = (uint64_t)o.tellp();
        lazperf::OutFileStream s(o);
        auto z = lazperf::build_las_compressor(s.cb(), c.LasHeader()->PointFormatId(), c.LasHeader()->EbByteSize());
        int32_t n = (int32_t)d.size() / c.LasHeader()->PointRecordLength();
        for (int32_t i = 0; i < n; i++)
            z->compress(d.data() + i * c.LasHeader()->PointRecordLength());
        z->done();
        chunk(n, at);
    }
    void finish()
    {
        uint64_t at = (uint64_t)o.tellp();
        uint32_t z = 0, n = (uint32_t)table.size();
        put(o, z);
        put(o, n);
        lazperf::OutFileStream s(o);
        lazperf::compress_chunk_table(s.cb(), table, true);
        uint64_t ev = (uint64_t)o.tellp();
        o.seekp(off);
        put(o, at);
        bool wkt = !c.Wkt().empty();
        if (wkt)
        {
            o.seekp(ev);
            lazperf::wkt_vlr w(c.Wkt());
            w.eheader().write(o);
            w.write(o);
        }
        EB eb = c.ExtraBytesVlr();
        lazperf::header14 h = c.LasHeader()->ToLazPerf(off, count, ev, wkt ? 1 : 0, eb.items.size() > 0, false);
        h.vlr_count = eb.items.size() > 0 ? 2 : 1;
        h.point_offset = off;
        h.evlr_offset = ev;
        h.evlr_count = wkt ? 1 : 0;
        h.point_count_14 = count;
        o.seekp(0);
        h.write(o);
        if (eb.items.size() > 0)
        {
            eb.header().write(o);
            eb.write(o);
        }
        lv.header().write(o);
        lv.write(o);
    }
};
} // namespace spec
