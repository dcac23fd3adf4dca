// C27: every name of the Python module does what the C++ member of that name does
//@ opaque: copc::las::Points::Unpack
//@ also: python/bindings.cpp
#include "spec.hpp"
#include "pybind_stub.hpp"
#include <copc-lib/copc/extents.hpp>
#include <copc-lib/copc/info.hpp>
#include <copc-lib/geometry/box.hpp>
#include <copc-lib/hierarchy/key.hpp>
#include <copc-lib/hierarchy/node.hpp>
#include <copc-lib/hierarchy/page.hpp>
#include <copc-lib/io/copc_reader.hpp>
#include <copc-lib/io/copc_writer.hpp>
#include <copc-lib/io/laz_reader.hpp>
#include <copc-lib/io/laz_writer.hpp>
#include <copc-lib/las/header.hpp>
#include <copc-lib/las/point.hpp>
#include <copc-lib/las/points.hpp>
#include <copc-lib/laz/compressor.hpp>
#include <copc-lib/laz/decompressor.hpp>
using namespace copc;
using namespace copc::las;
using pybind11::pybound;

// law ID: calling NAME of CLS from Python with ARGS is EXPR
#define BOUND(ID, R, PARAMS, CLS, NAME, KIND, EXPR, ...) \
    R lhs_##ID PARAMS { return pybound<R>(CLS, NAME, KIND, ##__VA_ARGS__); } \
    R rhs_##ID PARAMS { return EXPR; }
#define RW(CLS, T, V, F) \
    BOUND(CLS##_##F##_get, V, (const T &o), #CLS, #F, "get", o.F, o) \
    void lhs_##CLS##_##F##_set(T &o, const V &v) { pybound<void>(#CLS, #F, "set", o, v); } \
    void rhs_##CLS##_##F##_set(T &o, const V &v) { o.F = v; }
#define SET(ID, T, V, CLS, NAME, F) \
    void lhs_##ID(T &o, const V &v) { pybound<void>(CLS, NAME, "set", o, v); } \
    void rhs_##ID(T &o, const V &v) { o.F(v); }
#define VOID(ID, PARAMS, CLS, NAME, EXPR, ...) \
    void lhs_##ID PARAMS { pybound<void>(CLS, NAME, "def", ##__VA_ARGS__); } \
    void rhs_##ID PARAMS { EXPR; }
// -- VoxelKey
BOUND(VoxelKey_init, VoxelKey, (), "VoxelKey", "__init__", "init", VoxelKey())
BOUND(VoxelKey_init4, VoxelKey, (const int32_t &d, const int32_t &x, const int32_t &y, const int32_t &z), "VoxelKey", "__init__", "init", VoxelKey(d, x, y, z), d, x, y, z)
BOUND(VoxelKey_initv, VoxelKey, (const std::vector<int32_t> &v), "VoxelKey", "__init__", "init", VoxelKey(v), v)
RW(VoxelKey, VoxelKey, int32_t, d)
RW(VoxelKey, VoxelKey, int32_t, x)
RW(VoxelKey, VoxelKey, int32_t, y)
RW(VoxelKey, VoxelKey, int32_t, z)
BOUND(VoxelKey_IsValid, bool, (const VoxelKey &o), "VoxelKey", "IsValid", "def", o.IsValid(), o)
BOUND(VoxelKey_Bisect, VoxelKey, (const VoxelKey &o, const uint64_t &direction), "VoxelKey", "Bisect", "def", o.Bisect(direction), o, direction)
BOUND(VoxelKey_GetChildren, std::vector<VoxelKey>, (const VoxelKey &o), "VoxelKey", "GetChildren", "def", o.GetChildren(), o)
BOUND(VoxelKey_GetParent, VoxelKey, (const VoxelKey &o), "VoxelKey", "GetParent", "def", o.GetParent(), o)
BOUND(VoxelKey_GetParentAtDepth, VoxelKey, (const VoxelKey &o, int32_t depth), "VoxelKey", "GetParentAtDepth", "def", o.GetParentAtDepth(depth), o, depth)
BOUND(VoxelKey_GetParents, std::vector<VoxelKey>, (const VoxelKey &o, bool include_current), "VoxelKey", "GetParents", "def", o.GetParents(include_current), o, include_current)
BOUND(VoxelKey_ChildOf, bool, (const VoxelKey &o, VoxelKey parent), "VoxelKey", "ChildOf", "def", o.ChildOf(parent), o, parent)
BOUND(VoxelKey_Resolution, double, (const VoxelKey &o, const LasHeader &h, const CopcInfo &i), "VoxelKey", "Resolution", "def", o.Resolution(h, i), o, h, i)
BOUND(VoxelKey_Intersects, bool, (const VoxelKey &o, const LasHeader &h, const Box &b), "VoxelKey", "Intersects", "def", o.Intersects(h, b), o, h, b)
BOUND(VoxelKey_Within, bool, (const VoxelKey &o, const LasHeader &h, const Box &b), "VoxelKey", "Within", "def", o.Within(h, b), o, h, b)
BOUND(VoxelKey_Crosses, bool, (const VoxelKey &o, const LasHeader &h, const Box &b), "VoxelKey", "Crosses", "def", o.Crosses(h, b), o, h, b)
BOUND(VoxelKey_ContainsBox, bool, (const VoxelKey &o, const LasHeader &h, const Box &b), "VoxelKey", "Contains", "def", o.Contains(h, b), o, h, b)
BOUND(VoxelKey_ContainsVec, bool, (const VoxelKey &o, const LasHeader &h, const Vector3 &v), "VoxelKey", "Contains", "def", o.Contains(h, v), o, h, v)
BOUND(VoxelKey_RootKey, VoxelKey, (), "VoxelKey", "RootKey", "static", VoxelKey::RootKey())
BOUND(VoxelKey_InvalidKey, VoxelKey, (), "VoxelKey", "InvalidKey", "static", VoxelKey::InvalidKey())
BOUND(VoxelKey_GetResolutionAtDepth, double, (int32_t d, const LasHeader &h, const CopcInfo &i), "VoxelKey", "GetResolutionAtDepth", "static", VoxelKey::GetResolutionAtDepth(d, h, i), d, h, i)
BOUND(VoxelKey_eq, bool, (const VoxelKey &a, const VoxelKey &b), "VoxelKey", "__eq__", "def", a == b, a, b)
BOUND(VoxelKey_hash, size_t, (const VoxelKey &a), "VoxelKey", "__hash__", "def", std::hash<VoxelKey>()(a), a)
BOUND(VoxelKey_str, std::string, (const VoxelKey &o), "VoxelKey", "__str__", "def", o.ToString(), o)
BOUND(VoxelKey_repr, std::string, (const VoxelKey &o), "VoxelKey", "__repr__", "def", o.ToString(), o)
// -- Box
BOUND(Box_init, Box, (), "Box", "__init__", "init", Box())
BOUND(Box_init6, Box, (const double &a, const double &b, const double &c, const double &d, const double &e, const double &f), "Box", "__init__", "init", Box(a, b, c, d, e, f), a, b, c, d, e, f)
BOUND(Box_init4, Box, (const double &a, const double &b, const double &c, const double &d), "Box", "__init__", "init", Box(a, b, c, d), a, b, c, d)
BOUND(Box_init2, Box, (const Vector3 &a, const Vector3 &b), "Box", "__init__", "init", Box(a, b), a, b)
BOUND(Box_initv, Box, (const std::vector<double> &v), "Box", "__init__", "init", Box(v), v)
BOUND(Box_initk, Box, (const VoxelKey &key, const LasHeader &h), "Box", "__init__", "init", Box(key, h), key, h)
RW(Box, Box, double, x_min)
RW(Box, Box, double, y_min)
RW(Box, Box, double, z_min)
RW(Box, Box, double, x_max)
RW(Box, Box, double, y_max)
RW(Box, Box, double, z_max)
BOUND(Box_MaxBox, Box, (), "Box", "MaxBox", "static", Box::MaxBox())
BOUND(Box_EmptyBox, Box, (), "Box", "EmptyBox", "static", Box::EmptyBox())
BOUND(Box_Intersects, bool, (const Box &o, const Box &b), "Box", "Intersects", "def", o.Intersects(b), o, b)
BOUND(Box_ContainsBox, bool, (const Box &o, const Box &b), "Box", "Contains", "def", o.Contains(b), o, b)
BOUND(Box_ContainsVec, bool, (const Box &o, const Vector3 &v), "Box", "Contains", "def", o.Contains(v), o, v)
BOUND(Box_Within, bool, (const Box &o, const Box &b), "Box", "Within", "def", o.Within(b), o, b)
BOUND(Box_str, std::string, (const Box &o), "Box", "__str__", "def", o.ToString(), o)
BOUND(Box_repr, std::string, (const Box &o), "Box", "__repr__", "def", o.ToString(), o)
// -- Node, Page
BOUND(Node_init, Node, (), "Node", "__init__", "init", Node())
RW(Node, Node, int32_t, point_count)
RW(Node, Node, VoxelKey, key)
RW(Node, Node, uint64_t, offset)
RW(Node, Node, int32_t, byte_size)
RW(Node, Node, VoxelKey, page_key)
BOUND(Node_IsValid, bool, (const Node &o), "Node", "IsValid", "def", o.IsValid(), o)
BOUND(Node_IsPage, bool, (const Node &o), "Node", "IsPage", "def", o.IsPage(), o)
BOUND(Node_str, std::string, (const Node &o), "Node", "__str__", "def", o.ToString(), o)
BOUND(Node_repr, std::string, (const Node &o), "Node", "__repr__", "def", o.ToString(), o)
RW(Page, Page, int32_t, point_count)
RW(Page, Page, VoxelKey, key)
RW(Page, Page, uint64_t, offset)
RW(Page, Page, int32_t, byte_size)
RW(Page, Page, bool, loaded)
BOUND(Page_IsValid, bool, (const Page &o), "Page", "IsValid", "def", o.IsValid(), o)
BOUND(Page_IsPage, bool, (const Page &o), "Page", "IsPage", "def", o.IsPage(), o)
BOUND(Page_str, std::string, (const Page &o), "Page", "__str__", "def", o.ToString(), o)
BOUND(Page_repr, std::string, (const Page &o), "Page", "__repr__", "def", o.ToString(), o)
// -- Vector3
BOUND(Vector3_init, Vector3, (), "Vector3", "__init__", "init", Vector3())
BOUND(Vector3_init3, Vector3, (const double &x, const double &y, const double &z), "Vector3", "__init__", "init", Vector3(x, y, z), x, y, z)
BOUND(Vector3_initv, Vector3, (const std::vector<double> &v), "Vector3", "__init__", "init", Vector3(v), v)
RW(Vector3, Vector3, double, x)
RW(Vector3, Vector3, double, y)
RW(Vector3, Vector3, double, z)
BOUND(Vector3_DefaultScale, Vector3, (), "Vector3", "DefaultScale", "static", Vector3::DefaultScale())
BOUND(Vector3_DefaultOffset, Vector3, (), "Vector3", "DefaultOffset", "static", Vector3::DefaultOffset())
BOUND(Vector3_eq, bool, (const Vector3 &a, const Vector3 &b), "Vector3", "__eq__", "def", a == b, a, b)
BOUND(Vector3_mul_v, Vector3, (const Vector3 &a, const Vector3 &b), "Vector3", "__mul__", "def", a * b, a, b)
BOUND(Vector3_mul_d, Vector3, (const Vector3 &a, const double &b), "Vector3", "__mul__", "def", a * b, a, b)
BOUND(Vector3_truediv_v, Vector3, (const Vector3 &a, const Vector3 &b), "Vector3", "__truediv__", "def", a / b, a, b)
BOUND(Vector3_truediv_d, Vector3, (const Vector3 &a, const double &b), "Vector3", "__truediv__", "def", a / b, a, b)
BOUND(Vector3_add_v, Vector3, (const Vector3 &a, const Vector3 &b), "Vector3", "__add__", "def", a + b, a, b)
BOUND(Vector3_add_d, Vector3, (const Vector3 &a, const double &b), "Vector3", "__add__", "def", a + b, a, b)
BOUND(Vector3_sub_v, Vector3, (const Vector3 &a, const Vector3 &b), "Vector3", "__sub__", "def", a - b, a, b)
BOUND(Vector3_sub_d, Vector3, (const Vector3 &a, const double &b), "Vector3", "__sub__", "def", a - b, a, b)
BOUND(Vector3_floordiv_v, Vector3, (const Vector3 &a, const Vector3 &b), "Vector3", "__floordiv__", "def", Vector3(std::floor(a.x / b.x), std::floor(a.y / b.y), std::floor(a.z / b.z)), a, b)
BOUND(Vector3_floordiv_d, Vector3, (const Vector3 &a, const double &b), "Vector3", "__floordiv__", "def", Vector3(std::floor(a.x / b), std::floor(a.y / b), std::floor(a.z / b)), a, b)
BOUND(Vector3_str, std::string, (const Vector3 &o), "Vector3", "__str__", "def", o.ToString(), o)
BOUND(Vector3_repr, std::string, (const Vector3 &o), "Vector3", "__repr__", "def", o.ToString(), o)
// -- Point
BOUND(Point_x_get, double, (const Point &o), "Point", "x", "get", o.X(), o)
SET(Point_x_set, Point, double, "Point", "x", X)
BOUND(Point_y_get, double, (const Point &o), "Point", "y", "get", o.Y(), o)
SET(Point_y_set, Point, double, "Point", "y", Y)
BOUND(Point_z_get, double, (const Point &o), "Point", "z", "get", o.Z(), o)
SET(Point_z_set, Point, double, "Point", "z", Z)
BOUND(Point_intensity_get, uint16_t, (const Point &o), "Point", "intensity", "get", o.Intensity(), o)
SET(Point_intensity_set, Point, uint16_t, "Point", "intensity", Intensity)
BOUND(Point_returns_bit_field_get, uint8_t, (const Point &o), "Point", "returns_bit_field", "get", o.ReturnsBitField(), o)
SET(Point_returns_bit_field_set, Point, uint8_t, "Point", "returns_bit_field", ReturnsBitField)
BOUND(Point_return_number_get, uint8_t, (const Point &o), "Point", "return_number", "get", o.ReturnNumber(), o)
SET(Point_return_number_set, Point, uint8_t, "Point", "return_number", ReturnNumber)
BOUND(Point_number_of_returns_get, uint8_t, (const Point &o), "Point", "number_of_returns", "get", o.NumberOfReturns(), o)
SET(Point_number_of_returns_set, Point, uint8_t, "Point", "number_of_returns", NumberOfReturns)
BOUND(Point_flags_bit_field_get, uint8_t, (const Point &o), "Point", "flags_bit_field", "get", o.FlagsBitField(), o)
SET(Point_flags_bit_field_set, Point, uint8_t, "Point", "flags_bit_field", FlagsBitField)
BOUND(Point_synthetic_get, bool, (const Point &o), "Point", "synthetic", "get", o.Synthetic(), o)
SET(Point_synthetic_set, Point, bool, "Point", "synthetic", Synthetic)
BOUND(Point_key_point_get, bool, (const Point &o), "Point", "key_point", "get", o.KeyPoint(), o)
SET(Point_key_point_set, Point, bool, "Point", "key_point", KeyPoint)
BOUND(Point_withheld_get, bool, (const Point &o), "Point", "withheld", "get", o.Withheld(), o)
SET(Point_withheld_set, Point, bool, "Point", "withheld", Withheld)
BOUND(Point_overlap_get, bool, (const Point &o), "Point", "overlap", "get", o.Overlap(), o)
SET(Point_overlap_set, Point, bool, "Point", "overlap", Overlap)
BOUND(Point_scanner_channel_get, uint8_t, (const Point &o), "Point", "scanner_channel", "get", o.ScannerChannel(), o)
SET(Point_scanner_channel_set, Point, uint8_t, "Point", "scanner_channel", ScannerChannel)
BOUND(Point_scan_direction_flag_get, bool, (const Point &o), "Point", "scan_direction_flag", "get", o.ScanDirectionFlag(), o)
SET(Point_scan_direction_flag_set, Point, bool, "Point", "scan_direction_flag", ScanDirectionFlag)
BOUND(Point_edge_of_flight_line_get, bool, (const Point &o), "Point", "edge_of_flight_line", "get", o.EdgeOfFlightLineFlag(), o)
SET(Point_edge_of_flight_line_set, Point, bool, "Point", "edge_of_flight_line", EdgeOfFlightLineFlag)
BOUND(Point_classification_get, uint8_t, (const Point &o), "Point", "classification", "get", o.Classification(), o)
SET(Point_classification_set, Point, uint8_t, "Point", "classification", Classification)
BOUND(Point_scan_angle_get, int16_t, (const Point &o), "Point", "scan_angle", "get", o.ScanAngle(), o)
SET(Point_scan_angle_set, Point, int16_t, "Point", "scan_angle", ScanAngle)
BOUND(Point_scan_angle_degrees_get, float, (const Point &o), "Point", "scan_angle_degrees", "get", o.ScanAngleDegrees(), o)
SET(Point_scan_angle_degrees_set, Point, float, "Point", "scan_angle_degrees", ScanAngleDegrees)
BOUND(Point_user_data_get, uint8_t, (const Point &o), "Point", "user_data", "get", o.UserData(), o)
SET(Point_user_data_set, Point, uint8_t, "Point", "user_data", UserData)
BOUND(Point_point_source_id_get, uint16_t, (const Point &o), "Point", "point_source_id", "get", o.PointSourceId(), o)
SET(Point_point_source_id_set, Point, uint16_t, "Point", "point_source_id", PointSourceId)
BOUND(Point_red_get, uint16_t, (const Point &o), "Point", "red", "get", o.Red(), o)
SET(Point_red_set, Point, uint16_t, "Point", "red", Red)
BOUND(Point_green_get, uint16_t, (const Point &o), "Point", "green", "get", o.Green(), o)
SET(Point_green_set, Point, uint16_t, "Point", "green", Green)
BOUND(Point_blue_get, uint16_t, (const Point &o), "Point", "blue", "get", o.Blue(), o)
SET(Point_blue_set, Point, uint16_t, "Point", "blue", Blue)
BOUND(Point_gps_time_get, double, (const Point &o), "Point", "gps_time", "get", o.GPSTime(), o)
SET(Point_gps_time_set, Point, double, "Point", "gps_time", GPSTime)
BOUND(Point_nir_get, uint16_t, (const Point &o), "Point", "nir", "get", o.Nir(), o)
SET(Point_nir_set, Point, uint16_t, "Point", "nir", Nir)
BOUND(Point_extra_bytes_get, std::vector<uint8_t>, (const Point &o), "Point", "extra_bytes", "get", o.ExtraBytes(), o)
SET(Point_extra_bytes_set, Point, std::vector<uint8_t>, "Point", "extra_bytes", ExtraBytes)
SET(Point_rgb_set, Point, std::vector<uint16_t>, "Point", "rgb", Rgb)
BOUND(Point_point_format_id_get, int, (const Point &o), "Point", "point_format_id", "get", o.PointFormatId(), o)
BOUND(Point_point_record_length_get, int, (const Point &o), "Point", "point_record_length", "get", o.PointRecordLength(), o)
BOUND(Point_HasRgb, bool, (const Point &o), "Point", "HasRgb", "def", o.HasRgb(), o)
BOUND(Point_HasNir, bool, (const Point &o), "Point", "HasNir", "def", o.HasNir(), o)
BOUND(Point_EbByteSize, int, (const Point &o), "Point", "EbByteSize", "def", o.EbByteSize(), o)
VOID(Point_ToPointFormat, (Point &o, const int8_t &f), "Point", "ToPointFormat", o.ToPointFormat(f), o, f)
BOUND(Point_Within, bool, (const Point &o, const Box &b), "Point", "Within", "def", o.Within(b), o, b)
BOUND(Point_eq, bool, (const Point &a, const Point &b), "Point", "__eq__", "def", a == b, a, b)
BOUND(Point_ne, bool, (const Point &a, const Point &b), "Point", "__ne__", "def", a != b, a, b)
BOUND(Point_str, std::string, (const Point &o), "Point", "__str__", "def", o.ToString(), o)
BOUND(Point_repr, std::string, (const Point &o), "Point", "__repr__", "def", o.ToString(), o)
// -- Points
BOUND(Points_init2, Points, (const uint8_t &f, const uint16_t &eb), "Points", "__init__", "init", Points(f, eb), f, eb)
BOUND(Points_init1, Points, (const uint8_t &f), "Points", "__init__", "init", Points(f, 0), f)
BOUND(Points_initv, Points, (const std::vector<std::shared_ptr<Point>> &v), "Points", "__init__", "init", Points(v), v)
BOUND(Points_inith, Points, (const LasHeader &h), "Points", "__init__", "init", Points(h), h)
BOUND(Points_x_get, std::vector<double>, (const Points &o), "Points", "x", "get", o.X(), o)
SET(Points_x_set, Points, std::vector<double>, "Points", "x", X)
BOUND(Points_y_get, std::vector<double>, (const Points &o), "Points", "y", "get", o.Y(), o)
SET(Points_y_set, Points, std::vector<double>, "Points", "y", Y)
BOUND(Points_z_get, std::vector<double>, (const Points &o), "Points", "z", "get", o.Z(), o)
SET(Points_z_set, Points, std::vector<double>, "Points", "z", Z)
BOUND(Points_classification_get, std::vector<uint8_t>, (const Points &o), "Points", "classification", "get", o.Classification(), o)
SET(Points_classification_set, Points, std::vector<uint8_t>, "Points", "classification", Classification)
BOUND(Points_point_source_id_get, std::vector<uint16_t>, (const Points &o), "Points", "point_source_id", "get", o.PointSourceId(), o)
SET(Points_point_source_id_set, Points, std::vector<uint16_t>, "Points", "point_source_id", PointSourceId)
BOUND(Points_red_get, std::vector<uint16_t>, (const Points &o), "Points", "red", "get", o.Red(), o)
SET(Points_red_set, Points, std::vector<uint16_t>, "Points", "red", Red)
BOUND(Points_green_get, std::vector<uint16_t>, (const Points &o), "Points", "green", "get", o.Green(), o)
SET(Points_green_set, Points, std::vector<uint16_t>, "Points", "green", Green)
BOUND(Points_blue_get, std::vector<uint16_t>, (const Points &o), "Points", "blue", "get", o.Blue(), o)
SET(Points_blue_set, Points, std::vector<uint16_t>, "Points", "blue", Blue)
BOUND(Points_point_format_id_get, int, (const Points &o), "Points", "point_format_id", "get", o.PointFormatId(), o)
BOUND(Points_point_record_length_get, int, (const Points &o), "Points", "point_record_length", "get", o.PointRecordLength(), o)
BOUND(Points_eb_byte_size_get, int, (const Points &o), "Points", "eb_byte_size", "get", o.EbByteSize(), o)
VOID(Points_AddPoint, (Points &o, const std::shared_ptr<Point> &p), "Points", "AddPoint", o.AddPoint(p), o, p)
VOID(Points_AddPoints, (Points &o, Points p), "Points", "AddPoints", o.AddPoints(p), o, p)
VOID(Points_AddPointsList, (Points &o, std::vector<std::shared_ptr<Point>> p), "Points", "AddPoints", o.AddPoints(p), o, p)
VOID(Points_ToPointFormat, (Points &o, const int8_t &f), "Points", "ToPointFormat", o.ToPointFormat(f), o, f)
BOUND(Points_CreatePoint, std::shared_ptr<Point>, (Points &o), "Points", "CreatePoint", "def", o.CreatePoint(), o)
BOUND(Points_Within, bool, (const Points &o, const Box &b), "Points", "Within", "def", o.Within(b), o, b)
BOUND(Points_GetWithin, std::vector<std::shared_ptr<Point>>, (Points &o, const Box &b), "Points", "GetWithin", "def", o.GetWithin(b), o, b)
BOUND(Points_Pack_so, std::vector<char>, (const Points &o, const Vector3 &s, const Vector3 &f), "Points", "Pack", "def", o.Pack(s, f), o, s, f)
BOUND(Points_Pack_h, std::vector<char>, (const Points &o, const LasHeader &h), "Points", "Pack", "def", o.Pack(h), o, h)
BOUND(Points_Unpack_h, Points, (const std::vector<char> &d, const LasHeader &h), "Points", "Unpack", "def", Points::Unpack(d, h), d, h)
BOUND(Points_Unpack_so, Points, (const std::vector<char> &d, const int8_t &f, const uint16_t &e, const Vector3 &s, const Vector3 &t), "Points", "Unpack", "def", Points::Unpack(d, f, e, s, t), d, f, e, s, t)
BOUND(Points_len, size_t, (const Points &o), "Points", "__len__", "def", o.Size(), o)
BOUND(Points_str, std::string, (const Points &o), "Points", "__str__", "def", o.ToString(), o)
BOUND(Points_repr, std::string, (const Points &o), "Points", "__repr__", "def", o.ToString(), o)
