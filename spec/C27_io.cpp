// C27: ... files, headers, configurations, extents
//@ opaque: copc::las::Points::Unpack
//@ opaque: copc::Reader::FindNode copc::Reader::GetPointData copc::Reader::GetPoints copc::Reader::GetPointDataCompressed copc::Reader::GetAllChildrenOfPage copc::Reader::GetPageList copc::Reader::GetAllPoints copc::Reader::GetNodesWithinBox copc::Reader::GetNodesIntersectBox copc::Reader::GetPointsWithinBox copc::Reader::GetDepthAtResolution copc::Reader::GetMaxDepth copc::Reader::GetNodesAtResolution copc::Reader::GetNodesWithinResolution copc::Reader::ValidateSpatialBounds copc::BaseIO::FindNode copc::Writer::FindNode copc::FileWriter::Close copc::Writer::AddNode copc::Writer::AddNodeCompressed copc::Writer::ChangeNodePage copc::Writer::InitWriter copc::Reader::InitCopcReader copc::BaseReader::InitReader copc::laz::LazReader::GetPoints copc::laz::LazFileWriter::Close copc::laz::LazWriter::WritePoints copc::laz::LazWriter::WritePointsCompressed copc::laz::BaseWriter::WritePoints copc::laz::Compressor::CompressBytes copc::laz::Decompressor::DecompressBytes
//@ also: python/bindings.cpp
#include "spec.hpp"
#include "pybind_stub.hpp"
#include <copc-lib/copc/extents.hpp>
#include <copc-lib/copc/info.hpp>
#include <copc-lib/geometry/box.hpp>
#include <copc-lib/hierarchy/key.hpp>
#include <copc-lib/hierarchy/node.hpp>
#include <copc-lib/hierarchy/page.hpp>
#include <copc-lib/io/copc_reader.hpp>
#include <copc-lib/io/copc_writer.hpp>
#include <copc-lib/io/laz_reader.hpp>
#include <copc-lib/io/laz_writer.hpp>
#include <copc-lib/las/header.hpp>
#include <copc-lib/las/point.hpp>
#include <copc-lib/las/points.hpp>
#include <copc-lib/laz/compressor.hpp>
#include <copc-lib/laz/decompressor.hpp>
using namespace copc;
using namespace copc::las;
using pybind11::pybound;

// law ID: calling NAME of CLS from Python with ARGS is EXPR
#define BOUND(ID, R, PARAMS, CLS, NAME, KIND, EXPR, ...) \
    R lhs_##ID PARAMS { return pybound<R>(CLS, NAME, KIND, ##__VA_ARGS__); } \
    R rhs_##ID PARAMS { return EXPR; }
#define RW(CLS, T, V, F) \
    BOUND(CLS##_##F##_get, V, (const T &o), #CLS, #F, "get", o.F, o) \
    void lhs_##CLS##_##F##_set(T &o, const V &v) { pybound<void>(#CLS, #F, "set", o, v); } \
    void rhs_##CLS##_##F##_set(T &o, const V &v) { o.F = v; }
#define SET(ID, T, V, CLS, NAME, F) \
    void lhs_##ID(T &o, const V &v) { pybound<void>(CLS, NAME, "set", o, v); } \
    void rhs_##ID(T &o, const V &v) { o.F(v); }
#define VOID(ID, PARAMS, CLS, NAME, EXPR, ...) \
    void lhs_##ID PARAMS { pybound<void>(CLS, NAME, "def", ##__VA_ARGS__); } \
    void rhs_##ID PARAMS { EXPR; }
using pybind11::accepts;
using Returns = std::array<uint64_t, 15>;
bool always_FileReader_init(std::string &p) { return accepts("FileReader", "__init__", "init", p); }
VOID(FileReader_Close, (FileReader &o), "FileReader", "Close", o.Close(), o)
BOUND(FileReader_path_get, std::string, (FileReader &o), "FileReader", "path", "get", o.FilePath(), o)
BOUND(FileReader_copc_config_get, CopcConfig, (FileReader &o), "FileReader", "copc_config", "get", o.CopcConfig(), o)
BOUND(FileReader_FindNode, Node, (FileReader &o, VoxelKey key), "FileReader", "FindNode", "def", o.FindNode(key), o, key)
BOUND(FileReader_GetPointData_node, std::vector<char>, (FileReader &o, const Node &n), "FileReader", "GetPointData", "def", o.GetPointData(n), o, n)
BOUND(FileReader_GetPointData_key, std::vector<char>, (FileReader &o, const VoxelKey &n), "FileReader", "GetPointData", "def", o.GetPointData(n), o, n)
BOUND(FileReader_GetPoints_node, Points, (FileReader &o, const Node &n), "FileReader", "GetPoints", "def", o.GetPoints(n), o, n)
BOUND(FileReader_GetPoints_key, Points, (FileReader &o, const VoxelKey &n), "FileReader", "GetPoints", "def", o.GetPoints(n), o, n)
BOUND(FileReader_GetPointDataCompressed_node, std::vector<char>, (FileReader &o, const Node &n), "FileReader", "GetPointDataCompressed", "def", o.GetPointDataCompressed(n), o, n)
BOUND(FileReader_GetPointDataCompressed_key, std::vector<char>, (FileReader &o, const VoxelKey &n), "FileReader", "GetPointDataCompressed", "def", o.GetPointDataCompressed(n), o, n)
BOUND(FileReader_GetAllChildrenOfPage, std::vector<Node>, (FileReader &o, const VoxelKey &key), "FileReader", "GetAllChildrenOfPage", "def", o.GetAllChildrenOfPage(key), o, key)
BOUND(FileReader_GetAllNodes, std::vector<Node>, (FileReader &o), "FileReader", "GetAllNodes", "def", o.GetAllNodes(), o)
BOUND(FileReader_GetPageList, std::vector<VoxelKey>, (FileReader &o), "FileReader", "GetPageList", "def", o.GetPageList(), o)
BOUND(FileReader_GetAllPoints_all, Points, (FileReader &o), "FileReader", "GetAllPoints", "def", o.GetAllPoints(), o)
BOUND(FileReader_GetAllPoints, Points, (FileReader &o, double res), "FileReader", "GetAllPoints", "def", o.GetAllPoints(res), o, res)
BOUND(FileReader_GetNodesWithinBox_all, std::vector<Node>, (FileReader &o, const Box &b), "FileReader", "GetNodesWithinBox", "def", o.GetNodesWithinBox(b), o, b)
BOUND(FileReader_GetNodesWithinBox, std::vector<Node>, (FileReader &o, const Box &b, double res), "FileReader", "GetNodesWithinBox", "def", o.GetNodesWithinBox(b, res), o, b, res)
BOUND(FileReader_GetNodesIntersectBox_all, std::vector<Node>, (FileReader &o, const Box &b), "FileReader", "GetNodesIntersectBox", "def", o.GetNodesIntersectBox(b), o, b)
BOUND(FileReader_GetNodesIntersectBox, std::vector<Node>, (FileReader &o, const Box &b, double res), "FileReader", "GetNodesIntersectBox", "def", o.GetNodesIntersectBox(b, res), o, b, res)
BOUND(FileReader_GetPointsWithinBox_all, Points, (FileReader &o, const Box &b), "FileReader", "GetPointsWithinBox", "def", o.GetPointsWithinBox(b), o, b)
BOUND(FileReader_GetPointsWithinBox, Points, (FileReader &o, const Box &b, double res), "FileReader", "GetPointsWithinBox", "def", o.GetPointsWithinBox(b, res), o, b, res)
BOUND(FileReader_GetDepthAtResolution, int32_t, (FileReader &o, double r), "FileReader", "GetDepthAtResolution", "def", o.GetDepthAtResolution(r), o, r)
BOUND(FileReader_GetMaxDepth, int32_t, (FileReader &o), "FileReader", "GetMaxDepth", "def", o.GetMaxDepth(), o)
BOUND(FileReader_GetNodesAtResolution, std::vector<Node>, (FileReader &o, double r), "FileReader", "GetNodesAtResolution", "def", o.GetNodesAtResolution(r), o, r)
BOUND(FileReader_GetNodesWithinResolution, std::vector<Node>, (FileReader &o, double r), "FileReader", "GetNodesWithinResolution", "def", o.GetNodesWithinResolution(r), o, r)
BOUND(FileReader_ValidateSpatialBounds, bool, (FileReader &o, bool v), "FileReader", "ValidateSpatialBounds", "def", o.ValidateSpatialBounds(v), o, v)
BOUND(FileReader_ValidateSpatialBounds_quiet, bool, (FileReader &o), "FileReader", "ValidateSpatialBounds", "def", o.ValidateSpatialBounds(), o)
// -- EbVlr
BOUND(EbVlr_init, EbVlr, (int n), "EbVlr", "__init__", "init", EbVlr(n), n)
RW(EbVlr, EbVlr, std::vector<EbVlr::ebfield>, items)
// -- FileWriter
BOUND(FileWriter_init, FileWriter, (const std::string &p, const CopcConfigWriter &c, const std::optional<uint8_t> &f, const std::optional<Vector3> &s, const std::optional<Vector3> &o, const std::optional<std::string> &w, const std::optional<EbVlr> &e, const std::optional<bool> &x), "FileWriter", "__init__", "init", FileWriter(p, c, f, s, o, w, e, x), p, c, f, s, o, w, e, x)
BOUND(FileWriter_init_defaults, FileWriter, (const std::string &p, const CopcConfigWriter &c), "FileWriter", "__init__", "init", FileWriter(p, c), p, c)
BOUND(FileWriter_path_get, std::string, (FileWriter &o), "FileWriter", "path", "get", o.FilePath(), o)
BOUND(FileWriter_copc_config_get, std::shared_ptr<CopcConfigWriter>, (FileWriter &o), "FileWriter", "copc_config", "get", o.CopcConfig(), o)
BOUND(FileWriter_FindNode, Node, (FileWriter &o, VoxelKey key), "FileWriter", "FindNode", "def", o.FindNode(key), o, key)
VOID(FileWriter_Close, (FileWriter &o), "FileWriter", "Close", o.Close(), o)
BOUND(FileWriter_AddNode_points, Node, (FileWriter &o, const VoxelKey &key, const Points &pts, const VoxelKey &pk), "FileWriter", "AddNode", "def", o.AddNode(key, pts, pk), o, key, pts, pk)
BOUND(FileWriter_AddNode_bytes, Node, (FileWriter &o, const VoxelKey &key, const std::vector<char> &data, const VoxelKey &pk), "FileWriter", "AddNode", "def", o.AddNode(key, data, pk), o, key, data, pk)
BOUND(FileWriter_AddNodeCompressed, Node, (FileWriter &o, const VoxelKey &key, const std::vector<char> &data, int32_t n, const VoxelKey &pk), "FileWriter", "AddNodeCompressed", "def", o.AddNodeCompressed(key, data, n, pk), o, key, data, n, pk)
BOUND(FileWriter_AddNode_points_root, Node, (FileWriter &o, const VoxelKey &key, const Points &pts), "FileWriter", "AddNode", "def", o.AddNode(key, pts), o, key, pts)
BOUND(FileWriter_AddNode_bytes_root, Node, (FileWriter &o, const VoxelKey &key, const std::vector<char> &data), "FileWriter", "AddNode", "def", o.AddNode(key, data), o, key, data)
BOUND(FileWriter_AddNodeCompressed_root, Node, (FileWriter &o, const VoxelKey &key, const std::vector<char> &data, int32_t n), "FileWriter", "AddNodeCompressed", "def", o.AddNodeCompressed(key, data, n), o, key, data, n)
VOID(FileWriter_ChangeNodePage, (FileWriter &o, const VoxelKey &a, const VoxelKey &b), "FileWriter", "ChangeNodePage", o.ChangeNodePage(a, b), o, a, b)
// -- LAZ files
BOUND(LazReader_laz_config_get, LazConfig, (laz::LazFileReader &o), "LazReader", "laz_config", "get", o.LazConfig(), o)
BOUND(LazReader_path_get, std::string, (laz::LazFileReader &o), "LazReader", "path", "get", o.FilePath(), o)
BOUND(LazReader_GetPoints, Points, (laz::LazFileReader &o), "LazReader", "GetPoints", "def", o.GetPoints(), o)
bool always_LazReader_init(const std::string &p) { return accepts("LazReader", "__init__", "init", p); }
bool always_LazWriter_init(const std::string &p, const LazConfigWriter &c) { return accepts("LazWriter", "__init__", "init", p, c); }
BOUND(LazWriter_laz_config_get, std::shared_ptr<LazConfigWriter>, (laz::LazFileWriter &o), "LazWriter", "laz_config", "get", o.LazConfig(), o)
BOUND(LazWriter_path_get, std::string, (laz::LazFileWriter &o), "LazWriter", "path", "get", o.FilePath(), o)
BOUND(LazWriter_point_count_get, uint64_t, (laz::LazFileWriter &o), "LazWriter", "point_count", "get", o.PointCount(), o)
BOUND(LazWriter_chunk_count_get, uint64_t, (laz::LazFileWriter &o), "LazWriter", "chunk_count", "get", o.ChunkCount(), o)
VOID(LazWriter_Close, (laz::LazFileWriter &o), "LazWriter", "Close", o.Close(), o)
VOID(LazWriter_WritePoints, (laz::LazFileWriter &o, const Points &p), "LazWriter", "WritePoints", o.WritePoints(p), o, p)
VOID(LazWriter_WritePointsCompressed, (laz::LazFileWriter &o, const std::vector<char> &d, int32_t n), "LazWriter", "WritePointsCompressed", o.WritePointsCompressed(d, n), o, d, n)
// -- compression
BOUND(CompressBytes_f, std::vector<char>, (const std::vector<char> &d, const int8_t &f, const uint16_t &e), "", "CompressBytes", "def", laz::Compressor::CompressBytes(d, f, e), d, f, e)
BOUND(CompressBytes_h, std::vector<char>, (std::vector<char> &d, const LasHeader &h), "", "CompressBytes", "def", laz::Compressor::CompressBytes(d, h), d, h)
BOUND(DecompressBytes_f, std::vector<char>, (const std::vector<char> &d, const int8_t &f, const uint16_t &e, const int &n), "", "DecompressBytes", "def", laz::Decompressor::DecompressBytes(d, f, e, n), d, f, e, n)
BOUND(DecompressBytes_h, std::vector<char>, (const std::vector<char> &d, const LasHeader &h, const int &n), "", "DecompressBytes", "def", laz::Decompressor::DecompressBytes(d, h, n), d, h, n)
// -- LasHeader
BOUND(LasHeader_init, LasHeader, (), "LasHeader", "__init__", "init", LasHeader())
RW(LasHeader, LasHeader, uint16_t, file_source_id)
RW(LasHeader, LasHeader, uint16_t, global_encoding)
RW(LasHeader, LasHeader, uint16_t, creation_day)
RW(LasHeader, LasHeader, uint16_t, creation_year)
RW(LasHeader, LasHeader, Vector3, max)
RW(LasHeader, LasHeader, Vector3, min)
RW(LasHeader, LasHeader, Returns, points_by_return)
BOUND(LasHeader_guid_get, std::string, (const LasHeader &o), "LasHeader", "guid", "get", o.GUID(), o)
SET(LasHeader_guid_set, LasHeader, std::string, "LasHeader", "guid", GUID)
BOUND(LasHeader_system_identifier_get, std::string, (const LasHeader &o), "LasHeader", "system_identifier", "get", o.SystemIdentifier(), o)
SET(LasHeader_system_identifier_set, LasHeader, std::string, "LasHeader", "system_identifier", SystemIdentifier)
BOUND(LasHeader_generating_software_get, std::string, (const LasHeader &o), "LasHeader", "generating_software", "get", o.GeneratingSoftware(), o)
SET(LasHeader_generating_software_set, LasHeader, std::string, "LasHeader", "generating_software", GeneratingSoftware)
BOUND(LasHeader_point_offset_get, uint32_t, (const LasHeader &o), "LasHeader", "point_offset", "get", o.PointOffset(), o)
BOUND(LasHeader_vlr_count_get, uint32_t, (const LasHeader &o), "LasHeader", "vlr_count", "get", o.VlrCount(), o)
BOUND(LasHeader_point_format_id_get, int, (const LasHeader &o), "LasHeader", "point_format_id", "get", o.PointFormatId(), o)
BOUND(LasHeader_point_record_length_get, int, (const LasHeader &o), "LasHeader", "point_record_length", "get", o.PointRecordLength(), o)
BOUND(LasHeader_scale_get, Vector3, (const LasHeader &o), "LasHeader", "scale", "get", o.Scale(), o)
BOUND(LasHeader_offset_get, Vector3, (const LasHeader &o), "LasHeader", "offset", "get", o.Offset(), o)
BOUND(LasHeader_evlr_offset_get, uint64_t, (const LasHeader &o), "LasHeader", "evlr_offset", "get", o.EvlrOffset(), o)
BOUND(LasHeader_evlr_count_get, uint32_t, (const LasHeader &o), "LasHeader", "evlr_count", "get", o.EvlrCount(), o)
BOUND(LasHeader_point_count_get, uint64_t, (const LasHeader &o), "LasHeader", "point_count", "get", o.PointCount(), o)
BOUND(LasHeader_EbByteSize, int, (const LasHeader &o), "LasHeader", "EbByteSize", "def", o.EbByteSize(), o)
BOUND(LasHeader_Span, double, (const LasHeader &o), "LasHeader", "Span", "def", o.Span(), o)
BOUND(LasHeader_Bounds, Box, (const LasHeader &o), "LasHeader", "Bounds", "def", o.Bounds(), o)
VOID(LasHeader_CheckAndUpdateBounds, (LasHeader &o, const Point &p), "LasHeader", "CheckAndUpdateBounds", o.CheckAndUpdateBounds(p), o, p)
VOID(LasHeader_SetGpsTimeBit, (LasHeader &o), "LasHeader", "SetGpsTimeBit", o.SetGpsTimeBit(), o)
BOUND(LasHeader_ApplyScale, Vector3, (const LasHeader &o, const Vector3 &v), "LasHeader", "ApplyScale", "def", o.ApplyScale(v), o, v)
BOUND(LasHeader_ApplyInverseScale, Vector3, (const LasHeader &o, const Vector3 &v), "LasHeader", "ApplyInverseScale", "def", o.ApplyInverseScale(v), o, v)
BOUND(LasHeader_ApplyScaleX, double, (const LasHeader &o, double v), "LasHeader", "ApplyScaleX", "def", o.ApplyScaleX(v), o, v)
BOUND(LasHeader_RemoveScaleX, int, (const LasHeader &o, double v), "LasHeader", "RemoveScaleX", "def", o.RemoveScaleX(v), o, v)
BOUND(LasHeader_ApplyScaleY, double, (const LasHeader &o, double v), "LasHeader", "ApplyScaleY", "def", o.ApplyScaleY(v), o, v)
BOUND(LasHeader_RemoveScaleY, int, (const LasHeader &o, double v), "LasHeader", "RemoveScaleY", "def", o.RemoveScaleY(v), o, v)
BOUND(LasHeader_ApplyScaleZ, double, (const LasHeader &o, double v), "LasHeader", "ApplyScaleZ", "def", o.ApplyScaleZ(v), o, v)
BOUND(LasHeader_RemoveScaleZ, int, (const LasHeader &o, double v), "LasHeader", "RemoveScaleZ", "def", o.RemoveScaleZ(v), o, v)
BOUND(LasHeader_str, std::string, (const LasHeader &o), "LasHeader", "__str__", "def", o.ToString(), o)
BOUND(LasHeader_repr, std::string, (const LasHeader &o), "LasHeader", "__repr__", "def", o.ToString(), o)
// -- configurations
BOUND(LazConfig_las_header_get, LasHeader, (const LazConfig &o), "LazConfig", "las_header", "get", o.LasHeader(), o)
BOUND(LazConfig_extra_bytes_vlr_get, EbVlr, (const LazConfig &o), "LazConfig", "extra_bytes_vlr", "get", o.ExtraBytesVlr(), o)
BOUND(LazConfig_wkt_get, std::string, (const LazConfig &o), "LazConfig", "wkt", "get", o.Wkt(), o)
BOUND(CopcConfig_las_header_get, LasHeader, (const CopcConfig &o), "CopcConfig", "las_header", "get", o.LasHeader(), o)
BOUND(CopcConfig_extra_bytes_vlr_get, EbVlr, (const CopcConfig &o), "CopcConfig", "extra_bytes_vlr", "get", o.ExtraBytesVlr(), o)
BOUND(CopcConfig_wkt_get, std::string, (const CopcConfig &o), "CopcConfig", "wkt", "get", o.Wkt(), o)
BOUND(CopcConfig_copc_info_get, CopcInfo, (const CopcConfig &o), "CopcConfig", "copc_info", "get", o.CopcInfo(), o)
BOUND(CopcConfig_copc_extents_get, CopcExtents, (const CopcConfig &o), "CopcConfig", "copc_extents", "get", o.CopcExtents(), o)
BOUND(LazConfigWriter_las_header_get, std::shared_ptr<LasHeader>, (LazConfigWriter &o), "LazConfigWriter", "las_header", "get", o.LasHeader(), o)
BOUND(LazConfigWriter_extra_bytes_vlr_get, EbVlr, (const LazConfigWriter &o), "LazConfigWriter", "extra_bytes_vlr", "get", o.ExtraBytesVlr(), o)
BOUND(LazConfigWriter_wkt_get, std::string, (const LazConfigWriter &o), "LazConfigWriter", "wkt", "get", o.Wkt(), o)
BOUND(LazConfigWriter_init, LazConfigWriter, (const int8_t &f, const Vector3 &s, const Vector3 &o, const std::string &w, const EbVlr &e), "LazConfigWriter", "__init__", "init", LazConfigWriter(f, s, o, w, e), f, s, o, w, e)
BOUND(LazConfigWriter_init1, LazConfigWriter, (const int8_t &f), "LazConfigWriter", "__init__", "init", LazConfigWriter(f), f)
BOUND(LazConfigWriter_init2, LazConfigWriter, (const int8_t &f, const Vector3 &s), "LazConfigWriter", "__init__", "init", LazConfigWriter(f, s), f, s)
BOUND(LazConfigWriter_initc, LazConfigWriter, (const CopcConfig &c), "LazConfigWriter", "__init__", "init", LazConfigWriter(c), c)
BOUND(CopcConfigWriter_las_header_get, std::shared_ptr<LasHeader>, (CopcConfigWriter &o), "CopcConfigWriter", "las_header", "get", o.LasHeader(), o)
BOUND(CopcConfigWriter_extra_bytes_vlr_get, EbVlr, (const CopcConfigWriter &o), "CopcConfigWriter", "extra_bytes_vlr", "get", o.ExtraBytesVlr(), o)
BOUND(CopcConfigWriter_wkt_get, std::string, (const CopcConfigWriter &o), "CopcConfigWriter", "wkt", "get", o.Wkt(), o)
BOUND(CopcConfigWriter_init, CopcConfigWriter, (const int8_t &f, const Vector3 &s, const Vector3 &o, const std::string &w, const EbVlr &e, bool x), "CopcConfigWriter", "__init__", "init", CopcConfigWriter(f, s, o, w, e, x), f, s, o, w, e, x)
BOUND(CopcConfigWriter_init1, CopcConfigWriter, (const int8_t &f), "CopcConfigWriter", "__init__", "init", CopcConfigWriter(f), f)
BOUND(CopcConfigWriter_init2, CopcConfigWriter, (const int8_t &f, const Vector3 &s), "CopcConfigWriter", "__init__", "init", CopcConfigWriter(f, s), f, s)
BOUND(CopcConfigWriter_initc, CopcConfigWriter, (const CopcConfig &c), "CopcConfigWriter", "__init__", "init", CopcConfigWriter(c), c)
BOUND(LazConfigWriter_initl, LazConfigWriter, (const LazConfig &c), "LazConfigWriter", "__init__", "init", LazConfigWriter(c), c)
BOUND(CopcConfigWriter_copc_info_get, std::shared_ptr<CopcInfo>, (CopcConfigWriter &o), "CopcConfigWriter", "copc_info", "get", o.CopcInfo(), o)
BOUND(CopcConfigWriter_copc_extents_get, std::shared_ptr<CopcExtents>, (CopcConfigWriter &o), "CopcConfigWriter", "copc_extents", "get", o.CopcExtents(), o)
// -- CopcInfo, extents
BOUND(CopcInfo_init, CopcInfo, (), "CopcInfo", "__init__", "init", CopcInfo())
RW(CopcInfo, CopcInfo, double, center_x)
RW(CopcInfo, CopcInfo, double, center_y)
RW(CopcInfo, CopcInfo, double, center_z)
RW(CopcInfo, CopcInfo, double, halfsize)
RW(CopcInfo, CopcInfo, double, spacing)
RW(CopcInfo, CopcInfo, uint64_t, root_hier_offset)
RW(CopcInfo, CopcInfo, uint64_t, root_hier_size)
BOUND(CopcInfo_str, std::string, (const CopcInfo &o), "CopcInfo", "__str__", "def", o.ToString(), o)
BOUND(CopcInfo_repr, std::string, (const CopcInfo &o), "CopcInfo", "__repr__", "def", o.ToString(), o)
BOUND(CopcExtent_init, CopcExtent, (), "CopcExtent", "__init__", "init", CopcExtent())
BOUND(CopcExtent_init4, CopcExtent, (double a, double b, double c, double d), "CopcExtent", "__init__", "init", CopcExtent(a, b, c, d), a, b, c, d)
BOUND(CopcExtent_init2, CopcExtent, (double a, double b), "CopcExtent", "__init__", "init", CopcExtent(a, b), a, b)
BOUND(CopcExtent_init3, CopcExtent, (double a, double b, double c), "CopcExtent", "__init__", "init", CopcExtent(a, b, c), a, b, c)
BOUND(CopcExtent_initv, CopcExtent, (const std::vector<double> &v), "CopcExtent", "__init__", "init", CopcExtent(v), v)
RW(CopcExtent, CopcExtent, double, minimum)
RW(CopcExtent, CopcExtent, double, maximum)
RW(CopcExtent, CopcExtent, double, mean)
RW(CopcExtent, CopcExtent, double, var)
BOUND(CopcExtent_eq, bool, (const CopcExtent &a, const CopcExtent &b), "CopcExtent", "__eq__", "def", a == b, a, b)
BOUND(CopcExtent_str, std::string, (const CopcExtent &o), "CopcExtent", "__str__", "def", o.ToString(), o)
BOUND(CopcExtent_repr, std::string, (const CopcExtent &o), "CopcExtent", "__repr__", "def", o.ToString(), o)
BOUND(CopcExtents_init2, CopcExtents, (int8_t f, uint16_t n), "CopcExtents", "__init__", "init", CopcExtents(f, n), f, n)
BOUND(CopcExtents_init1, CopcExtents, (int8_t f), "CopcExtents", "__init__", "init", CopcExtents(f), f)
BOUND(CopcExtents_point_format_id_get, int, (const CopcExtents &o), "CopcExtents", "point_format_id", "get", o.PointFormatId(), o)
BOUND(CopcExtents_has_extended_stats_get, bool, (const CopcExtents &o), "CopcExtents", "has_extended_stats", "get", o.HasExtendedStats(), o)
BOUND(CopcExtents_x_get, std::shared_ptr<CopcExtent>, (CopcExtents &o), "CopcExtents", "x", "get", o.X(), o)
SET(CopcExtents_x_set, CopcExtents, std::shared_ptr<CopcExtent>, "CopcExtents", "x", X)
BOUND(CopcExtents_y_get, std::shared_ptr<CopcExtent>, (CopcExtents &o), "CopcExtents", "y", "get", o.Y(), o)
SET(CopcExtents_y_set, CopcExtents, std::shared_ptr<CopcExtent>, "CopcExtents", "y", Y)
BOUND(CopcExtents_z_get, std::shared_ptr<CopcExtent>, (CopcExtents &o), "CopcExtents", "z", "get", o.Z(), o)
SET(CopcExtents_z_set, CopcExtents, std::shared_ptr<CopcExtent>, "CopcExtents", "z", Z)
BOUND(CopcExtents_intensity_get, std::shared_ptr<CopcExtent>, (CopcExtents &o), "CopcExtents", "intensity", "get", o.Intensity(), o)
SET(CopcExtents_intensity_set, CopcExtents, std::shared_ptr<CopcExtent>, "CopcExtents", "intensity", Intensity)
BOUND(CopcExtents_return_number_get, std::shared_ptr<CopcExtent>, (CopcExtents &o), "CopcExtents", "return_number", "get", o.ReturnNumber(), o)
SET(CopcExtents_return_number_set, CopcExtents, std::shared_ptr<CopcExtent>, "CopcExtents", "return_number", ReturnNumber)
BOUND(CopcExtents_number_of_returns_get, std::shared_ptr<CopcExtent>, (CopcExtents &o), "CopcExtents", "number_of_returns", "get", o.NumberOfReturns(), o)
SET(CopcExtents_number_of_returns_set, CopcExtents, std::shared_ptr<CopcExtent>, "CopcExtents", "number_of_returns", NumberOfReturns)
BOUND(CopcExtents_scanner_channel_get, std::shared_ptr<CopcExtent>, (CopcExtents &o), "CopcExtents", "scanner_channel", "get", o.ScannerChannel(), o)
SET(CopcExtents_scanner_channel_set, CopcExtents, std::shared_ptr<CopcExtent>, "CopcExtents", "scanner_channel", ScannerChannel)
BOUND(CopcExtents_scan_direction_flag_get, std::shared_ptr<CopcExtent>, (CopcExtents &o), "CopcExtents", "scan_direction_flag", "get", o.ScanDirectionFlag(), o)
SET(CopcExtents_scan_direction_flag_set, CopcExtents, std::shared_ptr<CopcExtent>, "CopcExtents", "scan_direction_flag", ScanDirectionFlag)
BOUND(CopcExtents_edge_of_flight_line_get, std::shared_ptr<CopcExtent>, (CopcExtents &o), "CopcExtents", "edge_of_flight_line", "get", o.EdgeOfFlightLine(), o)
SET(CopcExtents_edge_of_flight_line_set, CopcExtents, std::shared_ptr<CopcExtent>, "CopcExtents", "edge_of_flight_line", EdgeOfFlightLine)
BOUND(CopcExtents_classification_get, std::shared_ptr<CopcExtent>, (CopcExtents &o), "CopcExtents", "classification", "get", o.Classification(), o)
SET(CopcExtents_classification_set, CopcExtents, std::shared_ptr<CopcExtent>, "CopcExtents", "classification", Classification)
BOUND(CopcExtents_user_data_get, std::shared_ptr<CopcExtent>, (CopcExtents &o), "CopcExtents", "user_data", "get", o.UserData(), o)
SET(CopcExtents_user_data_set, CopcExtents, std::shared_ptr<CopcExtent>, "CopcExtents", "user_data", UserData)
BOUND(CopcExtents_scan_angle_get, std::shared_ptr<CopcExtent>, (CopcExtents &o), "CopcExtents", "scan_angle", "get", o.ScanAngle(), o)
SET(CopcExtents_scan_angle_set, CopcExtents, std::shared_ptr<CopcExtent>, "CopcExtents", "scan_angle", ScanAngle)
BOUND(CopcExtents_point_source_id_get, std::shared_ptr<CopcExtent>, (CopcExtents &o), "CopcExtents", "point_source_id", "get", o.PointSourceId(), o)
SET(CopcExtents_point_source_id_set, CopcExtents, std::shared_ptr<CopcExtent>, "CopcExtents", "point_source_id", PointSourceId)
BOUND(CopcExtents_gps_time_get, std::shared_ptr<CopcExtent>, (CopcExtents &o), "CopcExtents", "gps_time", "get", o.GpsTime(), o)
SET(CopcExtents_gps_time_set, CopcExtents, std::shared_ptr<CopcExtent>, "CopcExtents", "gps_time", GpsTime)
BOUND(CopcExtents_red_get, std::shared_ptr<CopcExtent>, (CopcExtents &o), "CopcExtents", "red", "get", o.Red(), o)
SET(CopcExtents_red_set, CopcExtents, std::shared_ptr<CopcExtent>, "CopcExtents", "red", Red)
BOUND(CopcExtents_green_get, std::shared_ptr<CopcExtent>, (CopcExtents &o), "CopcExtents", "green", "get", o.Green(), o)
SET(CopcExtents_green_set, CopcExtents, std::shared_ptr<CopcExtent>, "CopcExtents", "green", Green)
BOUND(CopcExtents_blue_get, std::shared_ptr<CopcExtent>, (CopcExtents &o), "CopcExtents", "blue", "get", o.Blue(), o)
SET(CopcExtents_blue_set, CopcExtents, std::shared_ptr<CopcExtent>, "CopcExtents", "blue", Blue)
BOUND(CopcExtents_nir_get, std::shared_ptr<CopcExtent>, (CopcExtents &o), "CopcExtents", "nir", "get", o.Nir(), o)
SET(CopcExtents_nir_set, CopcExtents, std::shared_ptr<CopcExtent>, "CopcExtents", "nir", Nir)
BOUND(CopcExtents_extra_bytes_get, std::vector<std::shared_ptr<CopcExtent>>, (CopcExtents &o), "CopcExtents", "extra_bytes", "get", o.ExtraBytes(), o)
SET(CopcExtents_extra_bytes_set, CopcExtents, std::vector<std::shared_ptr<CopcExtent>>, "CopcExtents", "extra_bytes", ExtraBytes)
BOUND(CopcExtents_extents_get, std::vector<std::shared_ptr<CopcExtent>>, (CopcExtents &o), "CopcExtents", "extents", "get", o.Extents(), o)
BOUND(CopcExtents_str, std::string, (const CopcExtents &o), "CopcExtents", "__str__", "def", o.ToString(), o)
BOUND(CopcExtents_repr, std::string, (const CopcExtents &o), "CopcExtents", "__repr__", "def", o.ToString(), o)
