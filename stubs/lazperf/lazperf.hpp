// Stand-in for the laz-perf 3.0 API surface that copc-lib uses.  laz-perf is not installed in this sandbox.
// The analyser only parses these declarations (calls into namespace lazperf stay opaque for it); the bodies exist so
// that demonstrations of planted bugs can link a working library: "compression" here is the identity.
#ifndef STUB_LAZPERF_HPP
#define STUB_LAZPERF_HPP
#include <array>
#include <cmath>
#include <cstdint>
#include <algorithm>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>

namespace lazperf
{
struct error : public std::runtime_error
{
    error(const std::string &e) : std::runtime_error(e) {}
};

using OutputCb = std::function<void(const unsigned char *, size_t)>;
using InputCb = std::function<void(unsigned char *, size_t)>;

namespace stub
{
template <typename T> void put(std::ostream &o, const T &t) { o.write(reinterpret_cast<const char *>(&t), sizeof(T)); }
template <typename T> void get(std::istream &i, T &t) { i.read(reinterpret_cast<char *>(&t), sizeof(T)); }
inline void puts(std::ostream &o, const std::string &s, size_t n)
{
    std::string t(s);
    t.resize(n, '\0');
    o.write(t.data(), n);
}
inline std::string gets(std::istream &i, size_t n)
{
    std::string t(n, '\0');
    i.read(&t[0], n);
    size_t e = t.find('\0');
    return e == std::string::npos ? t : t.substr(0, e);
}
} // namespace stub

struct vector3
{
    double x{}, y{}, z{};
};

struct header12
{
    char magic[4]{'L', 'A', 'S', 'F'};
    uint16_t file_source_id{};
    uint16_t global_encoding{};
    char guid[16]{};
    struct
    {
        uint8_t major{1};
        uint8_t minor{2};
    } version;
    char system_identifier[32]{};
    char generating_software[32]{};
    struct
    {
        uint16_t day{};
        uint16_t year{};
    } creation;
    uint16_t header_size{};
    uint32_t point_offset{};
    uint32_t vlr_count{};
    uint8_t point_format_id{};
    uint16_t point_record_length{};
    uint32_t point_count{};
    uint32_t points_by_return[5]{};
    vector3 scale;
    vector3 offset;
    double maxx{}, minx{}, maxy{}, miny{}, maxz{}, minz{};
};
struct header13 : public header12
{
    uint64_t wave_offset{};
};
struct header14 : public header13
{
    uint64_t evlr_offset{};
    uint32_t evlr_count{};
    uint64_t point_count_14{};
    uint64_t points_by_return_14[15]{};

    void write(std::ostream &o) const
    {
        using stub::put;
        o.write(magic, 4);
        put(o, file_source_id);
        put(o, global_encoding);
        o.write(guid, 16);
        put(o, version.major);
        put(o, version.minor);
        o.write(system_identifier, 32);
        o.write(generating_software, 32);
        put(o, creation.day);
        put(o, creation.year);
        put(o, header_size);
        put(o, point_offset);
        put(o, vlr_count);
        put(o, point_format_id);
        put(o, point_record_length);
        put(o, point_count);
        for (int i = 0; i < 5; ++i)
            put(o, points_by_return[i]);
        for (double d : {scale.x, scale.y, scale.z, offset.x, offset.y, offset.z, maxx, minx, maxy, miny, maxz, minz})
            put(o, d);
        put(o, wave_offset);
        put(o, evlr_offset);
        put(o, evlr_count);
        put(o, point_count_14);
        for (int i = 0; i < 15; ++i)
            put(o, points_by_return_14[i]);
    }
    void read(std::istream &o)
    {
        using stub::get;
        o.read(magic, 4);
        get(o, file_source_id);
        get(o, global_encoding);
        o.read(guid, 16);
        get(o, version.major);
        get(o, version.minor);
        o.read(system_identifier, 32);
        o.read(generating_software, 32);
        get(o, creation.day);
        get(o, creation.year);
        get(o, header_size);
        get(o, point_offset);
        get(o, vlr_count);
        get(o, point_format_id);
        get(o, point_record_length);
        get(o, point_count);
        for (int i = 0; i < 5; ++i)
            get(o, points_by_return[i]);
        for (double *d : {&scale.x, &scale.y, &scale.z, &offset.x, &offset.y, &offset.z, &maxx, &minx, &maxy, &miny,
                          &maxz, &minz})
            get(o, *d);
        get(o, wave_offset);
        get(o, evlr_offset);
        get(o, evlr_count);
        get(o, point_count_14);
        for (int i = 0; i < 15; ++i)
            get(o, points_by_return_14[i]);
    }
};

struct vlr_header
{
    uint16_t reserved{};
    std::string user_id;
    uint16_t record_id{};
    uint16_t data_length{};
    std::string description;
    static const int Size = 54;

    static vlr_header create(std::istream &in)
    {
        vlr_header h;
        h.read(in);
        return h;
    }
    void read(std::istream &in)
    {
        stub::get(in, reserved);
        user_id = stub::gets(in, 16);
        stub::get(in, record_id);
        stub::get(in, data_length);
        description = stub::gets(in, 32);
    }
    void write(std::ostream &o) const
    {
        stub::put(o, reserved);
        stub::puts(o, user_id, 16);
        stub::put(o, record_id);
        stub::put(o, data_length);
        stub::puts(o, description, 32);
    }
};
struct evlr_header
{
    uint16_t reserved{};
    std::string user_id;
    uint16_t record_id{};
    uint64_t data_length{};
    std::string description;
    static const int Size = 60;

    static evlr_header create(std::istream &in)
    {
        evlr_header h;
        h.read(in);
        return h;
    }
    void read(std::istream &in)
    {
        stub::get(in, reserved);
        user_id = stub::gets(in, 16);
        stub::get(in, record_id);
        stub::get(in, data_length);
        description = stub::gets(in, 32);
    }
    void write(std::ostream &o) const
    {
        stub::put(o, reserved);
        stub::puts(o, user_id, 16);
        stub::put(o, record_id);
        stub::put(o, data_length);
        stub::puts(o, description, 32);
    }
};

struct vlr
{
    virtual ~vlr() = default;
    virtual uint64_t size() const = 0;
    virtual vlr_header header() const = 0;
    virtual evlr_header eheader() const = 0;
};

struct laz_vlr : public vlr
{
    laz_vlr() = default;
    laz_vlr(int format, int ebCount, uint32_t chunksize)
        : chunk_size(chunksize), nitems(1 + (format >= 7) + (ebCount > 0))
    {
    }
    uint64_t size() const override { return 34 + nitems * 6; }
    vlr_header header() const override
    {
        return vlr_header{0, "laszip encoded", 22204, (uint16_t)size(), "lazperf variant"};
    }
    evlr_header eheader() const override
    {
        return evlr_header{0, "laszip encoded", 22204, size(), "lazperf variant"};
    }
    void write(std::ostream &o) const
    {
        std::string s(size(), '\0');
        o.write(s.data(), s.size());
    }
    uint32_t chunk_size{};
    int nitems{1};
};

struct eb_vlr : public vlr
{
    struct ebfield
    {
        uint8_t reserved[2]{};
        uint8_t data_type{};
        uint8_t options{};
        std::string name;
        uint8_t unused[4]{};
        double no_data[3]{};
        double minval[3]{};
        double maxval[3]{};
        double scale[3]{};
        double offset[3]{};
        std::string description;

        ebfield() = default;
    };
    std::vector<ebfield> items;

    eb_vlr() = default;
    eb_vlr(int bytes) : items(bytes) {}
    void addField(const ebfield &f) { items.push_back(f); }
    static eb_vlr create(std::istream &in, int byteSize)
    {
        eb_vlr v;
        v.read(in, byteSize);
        return v;
    }
    void read(std::istream &in, int byteSize)
    {
        items.clear();
        for (int n = byteSize / 192; n > 0; --n)
        {
            ebfield f;
            in.read((char *)f.reserved, 2);
            stub::get(in, f.data_type);
            stub::get(in, f.options);
            f.name = stub::gets(in, 32);
            in.read((char *)f.unused, 4);
            for (auto a : {f.no_data, f.minval, f.maxval, f.scale, f.offset})
                in.read((char *)a, 24);
            f.description = stub::gets(in, 32);
            items.push_back(f);
        }
    }
    void write(std::ostream &o) const
    {
        for (auto &f : items)
        {
            o.write((const char *)f.reserved, 2);
            stub::put(o, f.data_type);
            stub::put(o, f.options);
            stub::puts(o, f.name, 32);
            o.write((const char *)f.unused, 4);
            for (auto a : {f.no_data, f.minval, f.maxval, f.scale, f.offset})
                o.write((const char *)a, 24);
            stub::puts(o, f.description, 32);
        }
    }
    uint64_t size() const override { return 192 * items.size(); }
    vlr_header header() const override { return vlr_header{0, "LASF_Spec", 4, (uint16_t)size(), ""}; }
    evlr_header eheader() const override { return evlr_header{0, "LASF_Spec", 4, size(), ""}; }
};

struct wkt_vlr : public vlr
{
    std::string wkt;
    wkt_vlr() = default;
    wkt_vlr(const std::string &s) : wkt(s) {}
    static wkt_vlr create(std::istream &in, int byteSize)
    {
        wkt_vlr v;
        v.read(in, byteSize);
        return v;
    }
    void read(std::istream &in, int byteSize)
    {
        wkt.resize(byteSize);
        in.read(&wkt[0], byteSize);
    }
    void write(std::ostream &o) const { o.write(wkt.data(), wkt.size()); }
    uint64_t size() const override { return wkt.size(); }
    vlr_header header() const override { return vlr_header{0, "LASF_Projection", 2112, (uint16_t)size(), ""}; }
    evlr_header eheader() const override { return evlr_header{0, "LASF_Projection", 2112, size(), ""}; }
};

struct copc_info_vlr : public vlr
{
    double center_x{}, center_y{}, center_z{}, halfsize{}, spacing{};
    uint64_t root_hier_offset{}, root_hier_size{};
    double gpstime_minimum{}, gpstime_maximum{};
    uint64_t reserved[11]{};
    static copc_info_vlr create(std::istream &in)
    {
        copc_info_vlr v;
        v.read(in);
        return v;
    }
    void read(std::istream &in)
    {
        using stub::get;
        get(in, center_x);
        get(in, center_y);
        get(in, center_z);
        get(in, halfsize);
        get(in, spacing);
        get(in, root_hier_offset);
        get(in, root_hier_size);
        get(in, gpstime_minimum);
        get(in, gpstime_maximum);
        in.read((char *)reserved, sizeof(reserved));
    }
    void write(std::ostream &o) const
    {
        using stub::put;
        put(o, center_x);
        put(o, center_y);
        put(o, center_z);
        put(o, halfsize);
        put(o, spacing);
        put(o, root_hier_offset);
        put(o, root_hier_size);
        put(o, gpstime_minimum);
        put(o, gpstime_maximum);
        o.write((const char *)reserved, sizeof(reserved));
    }
    uint64_t size() const override { return 160; }
    vlr_header header() const override { return vlr_header{0, "copc", 1, (uint16_t)size(), "COPC info VLR"}; }
    evlr_header eheader() const override { return evlr_header{0, "copc", 1, size(), "COPC info VLR"}; }
};

struct chunk
{
    uint64_t count;
    uint64_t offset;
};

class OutFileStream
{
  public:
    OutFileStream(std::ostream &out) : f_(out) {}
    OutputCb cb()
    {
        std::ostream *o = &f_;
        return [o](const unsigned char *b, size_t n) { o->write((const char *)b, n); };
    }

  private:
    std::ostream &f_;
};
class InFileStream
{
  public:
    InFileStream(std::istream &in) : f_(in) {}
    InputCb cb()
    {
        std::istream *i = &f_;
        return [i](unsigned char *b, size_t n) { i->read((char *)b, n); };
    }
    void reset() {}

  private:
    std::istream &f_;
};

inline int baseSize(int format)
{
    return format == 6 ? 30 : format == 7 ? 36 : format == 8 ? 38 : throw error("bad point format");
}

class las_compressor
{
  public:
    typedef std::shared_ptr<las_compressor> ptr;
    las_compressor(OutputCb cb, int n) : cb_(cb), n_(n) {}
    virtual ~las_compressor() = default;
    virtual const char *compress(const char *in)
    {
        cb_((const unsigned char *)in, n_);
        return in + n_;
    }
    virtual void done() {}

  private:
    OutputCb cb_;
    int n_;
};
class las_decompressor
{
  public:
    typedef std::shared_ptr<las_decompressor> ptr;
    las_decompressor(InputCb cb, int n) : cb_(cb), n_(n) {}
    virtual ~las_decompressor() = default;
    virtual char *decompress(char *out)
    {
        cb_((unsigned char *)out, n_);
        return out + n_;
    }

  private:
    InputCb cb_;
    int n_;
};
inline las_compressor::ptr build_las_compressor(OutputCb cb, int format, int ebCount = 0)
{
    return std::make_shared<las_compressor>(cb, baseSize(format) + ebCount);
}
inline las_decompressor::ptr build_las_decompressor(InputCb cb, int format, int ebCount = 0)
{
    return std::make_shared<las_decompressor>(cb, baseSize(format) + ebCount);
}

inline void compress_chunk_table(OutputCb cb, const std::vector<chunk> &chunks, bool variable)
{
    for (auto &c : chunks)
        cb((const unsigned char *)&c, sizeof(c));
}

namespace reader
{
class basic_file
{
  public:
    virtual ~basic_file() = default;
    uint64_t pointCount() const { return h_.point_count_14; }
    const header14 &header() const { return h_; }
    void readPoint(char *out)
    {
        in_->seekg(h_.point_offset + 8 + next_++ * h_.point_record_length);
        in_->read(out, h_.point_record_length);
    }

  protected:
    std::istream *in_{};
    header14 h_;
    uint64_t next_{0};
};
class generic_file : public basic_file
{
  public:
    generic_file(std::istream &in)
    {
        in_ = &in;
        in.seekg(0);
        h_.read(in);
        if (!in || std::memcmp(h_.magic, "LASF", 4) != 0)
            throw error("Invalid LAS header");
        if (!(h_.point_format_id & 0x80))
            throw error("Point data is not compressed");
        h_.point_format_id &= 0x3f;
        if (h_.point_record_length < baseSize(h_.point_format_id))
            throw error("Bad point record length");
    }
};
} // namespace reader
} // namespace lazperf
#endif
