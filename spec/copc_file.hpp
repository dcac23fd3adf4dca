// Reference image of a COPC file: what Writer must have written
#pragma once
#include "laz_file.hpp"
#include <copc-lib/io/copc_writer.hpp>
#include <copc-lib/las/vlr.hpp>
namespace spec
{
typedef CopcConfigWriter CopcCfg;
// a configuration of the given format, with and without extra bytes, extended statistics and WKT
inline CopcCfg cfg(const CopcConfig &cc, int8_t f, bool eb, bool ext, bool wkt)
{
    assume(cc.LasHeader().PointFormatId() == f);
    // an extra bytes VLR has a 16 bit length, and there is one extent per dimension
    assume(cc.ExtraBytesVlr().items.size() <= 341);
    assume(eb ? cc.ExtraBytesVlr().items.size() > 0 : cc.ExtraBytesVlr().items.empty());
    assume(wkt ? !cc.Wkt().empty() : cc.Wkt().empty());
    assume(cc.CopcExtents().NumberOfExtents() == 14 + (f == 7 ? 3 : f == 8 ? 4 : 0) + (int)cc.ExtraBytesVlr().items.size());
    assume(ext ? cc.CopcExtents().HasExtendedStats() : !cc.CopcExtents().HasExtendedStats());
    return CopcCfg(cc);
}
struct CopcFile
{
    std::ostream &o;
    std::shared_ptr<CopcCfg> c; // the configuration as it is when the file is closed
    size_t off;
    uint64_t count;
    std::vector<lazperf::chunk> table;
    uint64_t prev, ev, evn;
    Entry root;
    lazperf::laz_vlr lv;
    CopcFile(std::ostream &out, const CopcCfg &cfg)
        : o(out), c(std::make_shared<CopcCfg>(cfg)), count(0), ev(0), evn(0),
          lv(c->LasHeader()->PointFormatId(), c->LasHeader()->EbByteSize(), 0xffffffffu)
    {
        size_t eb = c->ExtraBytesVlr().items.size();
        int8_t f = c->LasHeader()->PointFormatId();
        size_t dims = 14 + (f == 7 ? 3 : f == 8 ? 4 : 0) + eb;
        off = 375 + (54 + 160) + (54 + dims * 16) + 54 + lv.size();
        if (c->CopcExtents()->HasExtendedStats())
            off += 54 + dims * 16;
        if (eb > 0)
            off += 54 + 192 * eb;
        std::vector<char> zero(off + 8, 0);
        o.write(zero.data(), zero.size());
        prev = off + 8;
    }
    Entry chunk(const VoxelKey &key, uint64_t n, uint64_t start)
    {
        uint64_t e = (uint64_t)o.tellp();
        table.push_back(lazperf::chunk{n, e - prev});
        prev = e;
        count += n;
        if (e - start > 2147483647)
            throw std::runtime_error("chunk too large");
        return Entry(key, start, (int32_t)(e - start), n);
    }
    Entry raw(const VoxelKey &key, const std::vector<char> &d, int32_t n)
    {
        uint64_t s = (uint64_t)o.tellp();
        o.write(d.data(), d.size());
        return chunk(key, n, s);
    }
    Entry records(const VoxelKey &key, const std::vector<char> &d)
    {
        if (d.size() % c->LasHeader()->PointRecordLength() != 0 || d.size() > 2147483647)
            throw std::runtime_error("not records");
        uint64_t at = (uint64_t)o.tellp();
        lazperf::OutFileStream s(o);
        auto z = lazperf::build_las_compressor(s.cb(), c->LasHeader()->PointFormatId(), c->LasHeader()->EbByteSize());
        int32_t n = (int32_t)d.size() / c->LasHeader()->PointRecordLength();
        for (int32_t i = 0; i < n; i++)
            z->compress(d.data() + i * c->LasHeader()->PointRecordLength());
        z->done();
        return chunk(key, n, at);
    }
    // end of the chunks: their table, and its offset in front of the first
    void chunks()
    {
        uint64_t at = (uint64_t)o.tellp();
        uint32_t z = 0, n = (uint32_t)table.size();
        put(o, z);
        put(o, n);
        lazperf::OutFileStream s(o);
        lazperf::compress_chunk_table(s.cb(), table, true);
        ev = (uint64_t)o.tellp();
        o.seekp(off);
        put(o, at);
        o.seekp(ev);
    }
    // one page of the hierarchy, nodes first
    Entry page(const VoxelKey &key, const std::vector<Entry> &entries)
    {
        uint64_t size = 32 * entries.size();
        lazperf::evlr_header h{0, "copc", 1000, size, key.ToString()};
        h.write(o);
        uint64_t at = (uint64_t)o.tellp();
        for (size_t i = 0; i < entries.size(); i++)
        {
            const Entry &e = entries[i];
            put(o, e.key.d);
            put(o, e.key.x);
            put(o, e.key.y);
            put(o, e.key.z);
            put(o, e.offset);
            put(o, e.byte_size);
            put(o, e.point_count);
        }
        evn++;
        root = Entry(key, at, (int32_t)size, -1);
        return root;
    }
    // the last page written is the root page
    void finish()
    {
        if (!c->Wkt().empty())
        {
            evn++;
            lazperf::wkt_vlr w(c->Wkt());
            w.eheader().write(o);
            w.write(o);
        }
        c->CopcInfo()->root_hier_offset = root.offset;
        c->CopcInfo()->root_hier_size = root.byte_size;
        EB eb = c->ExtraBytesVlr();
        bool ext = c->CopcExtents()->HasExtendedStats();
        lazperf::header14 h = c->LasHeader()->ToLazPerf(off, count, ev, evn, eb.items.size() > 0, ext);
        h.vlr_count = 3 + (eb.items.size() > 0 ? 1 : 0) + (ext ? 1 : 0);
        h.point_offset = off;
        h.evlr_offset = ev;
        h.evlr_count = evn;
        h.point_count_14 = count;
        o.seekp(0);
        h.write(o);
        lazperf::copc_info_vlr info = c->CopcInfo()->ToLazPerf(*c->CopcExtents()->GpsTime());
        info.header().write(o);
        info.write(o);
        auto l = c->LasHeader();
        las::CopcExtentsVlr x = c->CopcExtents()->ToLazPerf({l->min.x, l->max.x}, {l->min.y, l->max.y}, {l->min.z, l->max.z});
        x.header().write(o);
        x.write(o);
        if (ext)
        {
            las::CopcExtentsVlr y = c->CopcExtents()->ToLazPerfExtended();
            lazperf::vlr_header yh = y.header();
            yh.user_id = "rock_robotic";
            yh.record_id = 10001;
            yh.description = "COPC extended stats";
            yh.write(o);
            y.write(o);
        }
        if (eb.items.size() > 0)
        {
            eb.header().write(o);
            eb.write(o);
        }
        lv.header().write(o);
        lv.write(o);
    }
};
} // namespace spec
