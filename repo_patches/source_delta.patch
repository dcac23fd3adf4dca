From cb65122f0ed477fc6a6a086eff5a9af0748fce80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 01/24] fix: size the point buffer of the decompressing readers
 by the point record length

A record with extra bytes can be longer than the fixed 255 byte stack buffer.
---
 cpp/include/copc-lib/laz/decompressor.hpp | 6 +++---
 cpp/src/io/laz_reader.cpp                 | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cpp/include/copc-lib/laz/decompressor.hpp b/cpp/include/copc-lib/laz/decompressor.hpp
index 034d6ac..d939c60 100644
--- a/cpp/include/copc-lib/laz/decompressor.hpp
+++ b/cpp/include/copc-lib/laz/decompressor.hpp
@@ -28,11 +28,11 @@ class Decompressor
         las_decompressor::ptr decompressor = build_las_decompressor(stre.cb(), point_format_id, eb_byte_size);
 
         int point_size = copc::las::PointByteSize(point_format_id, eb_byte_size);
-        char buff[255];
+        std::vector<char> buff(point_size);
         for (int i = 0; i < point_count; i++)
         {
-            decompressor->decompress(buff);
-            out.insert(out.end(), buff, buff + point_size);
+            decompressor->decompress(buff.data());
+            out.insert(out.end(), buff.begin(), buff.end());
         }
         // clear the EOF flag, since lazperf may read too large of a buffer
         in_stream.clear();
diff --git a/cpp/src/io/laz_reader.cpp b/cpp/src/io/laz_reader.cpp
index 60a48d9..6682656 100644
--- a/cpp/src/io/laz_reader.cpp
+++ b/cpp/src/io/laz_reader.cpp
@@ -10,11 +10,11 @@ std::vector<char> LazReader::GetPointData()
 
     std::vector<char> out;
     int point_size = copc::las::PointByteSize(las_header.PointFormatId(), las_header.EbByteSize());
-    char buff[255];
+    std::vector<char> buff(point_size);
     for (size_t i = 0; i < las_header.PointCount(); i++)
     {
-        reader_->readPoint(buff);
-        out.insert(out.end(), buff, buff + point_size);
+        reader_->readPoint(buff.data());
+        out.insert(out.end(), buff.begin(), buff.end());
     }
 
     return out;
-- 
2.43.0


From d4a9f1ed4b41c00c1ffb6fd1c976029f958db134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 02/24] fix: Points::PointSourceId carries 16 bit ids

The vector getter and setter went through uint8_t and dropped the high byte.
---
 cpp/include/copc-lib/las/points.hpp | 7 ++++---
 python/bindings.cpp                 | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/cpp/include/copc-lib/las/points.hpp b/cpp/include/copc-lib/las/points.hpp
index ff76f28..b8c9781 100644
--- a/cpp/include/copc-lib/las/points.hpp
+++ b/cpp/include/copc-lib/las/points.hpp
@@ -134,15 +134,15 @@ class Points
             points_[i]->Classification(in[i]);
     }
 
-    std::vector<uint8_t> PointSourceId() const
+    std::vector<uint16_t> PointSourceId() const
     {
-        std::vector<uint8_t> out;
+        std::vector<uint16_t> out;
         out.resize(Size());
         std::transform(points_.begin(), points_.end(), out.begin(),
                        [](const std::shared_ptr<Point> &p) { return p->PointSourceId(); });
         return out;
     }
-    void PointSourceId(const std::vector<uint8_t> &in)
+    void PointSourceId(const std::vector<uint16_t> &in)
     {
         if (in.size() != Size())
             throw std::runtime_error("PointSourceId setter array must be same size as Points array!");
@@ -150,6 +150,7 @@ class Points
         for (unsigned i = 0; i < points_.size(); ++i)
             points_[i]->PointSourceId(in[i]);
     }
+    void PointSourceId(const std::vector<uint8_t> &in) { PointSourceId(std::vector<uint16_t>(in.begin(), in.end())); }
 
     std::vector<uint16_t> Red() const
     {
diff --git a/python/bindings.cpp b/python/bindings.cpp
index b054fe3..8d60588 100644
--- a/python/bindings.cpp
+++ b/python/bindings.cpp
@@ -303,7 +303,7 @@ PYBIND11_MODULE(_core, m)
         .def_property("classification", py::overload_cast<>(&las::Points::Classification, py::const_),
                       py::overload_cast<const std::vector<uint8_t> &>(&las::Points::Classification))
         .def_property("point_source_id", py::overload_cast<>(&las::Points::PointSourceId, py::const_),
-                      py::overload_cast<const std::vector<uint8_t> &>(&las::Points::PointSourceId))
+                      py::overload_cast<const std::vector<uint16_t> &>(&las::Points::PointSourceId))
         .def_property("red", py::overload_cast<>(&las::Points::Red, py::const_),
                       py::overload_cast<const std::vector<uint16_t> &>(&las::Points::Red))
         .def_property("green", py::overload_cast<>(&las::Points::Green, py::const_),
-- 
2.43.0


From 91e8e7420d0f4da7c043c79e20c9c9f651b12924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 03/24] fix: LasHeader::ApplyInverseScale inverts ApplyScale

---
 cpp/include/copc-lib/las/header.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/copc-lib/las/header.hpp b/cpp/include/copc-lib/las/header.hpp
index f7fc0e6..0d67bd7 100644
--- a/cpp/include/copc-lib/las/header.hpp
+++ b/cpp/include/copc-lib/las/header.hpp
@@ -108,7 +108,7 @@ class LasHeader
 
     // Apply Las scale factors to Vector3 or double
     Vector3 ApplyScale(const Vector3 &unscaled_value) const { return unscaled_value * scale_ + offset_; }
-    Vector3 ApplyInverseScale(const Vector3 &scaled_value) const { return scaled_value / scale_ - offset_; }
+    Vector3 ApplyInverseScale(const Vector3 &scaled_value) const { return (scaled_value - offset_) / scale_; }
     double ApplyScaleX(double unscaled_value) const { return unscaled_value * scale_.x + offset_.x; }
     double ApplyScaleY(double unscaled_value) const { return unscaled_value * scale_.y + offset_.y; }
     double ApplyScaleZ(double unscaled_value) const { return unscaled_value * scale_.z + offset_.z; }
-- 
2.43.0


From e06f2c85ac6f59a2788992cc5f451fa2739bce5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 04/24] fix: refuse coordinates that do not fit the record
 instead of converting them

NaN passed the range test of RemoveScale, and LasHeader::RemoveScaleX/Y/Z had no range test: the
floating point to integer conversion that follows is undefined for such values.
---
 cpp/include/copc-lib/las/header.hpp | 7 ++++---
 cpp/include/copc-lib/las/utils.hpp  | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/cpp/include/copc-lib/las/header.hpp b/cpp/include/copc-lib/las/header.hpp
index 0d67bd7..7a8dba3 100644
--- a/cpp/include/copc-lib/las/header.hpp
+++ b/cpp/include/copc-lib/las/header.hpp
@@ -9,6 +9,7 @@
 #include <string>
 
 #include "copc-lib/geometry/vector3.hpp"
+#include "copc-lib/las/utils.hpp"
 #include <lazperf/header.hpp>
 #include <lazperf/readers.hpp>
 
@@ -114,15 +115,15 @@ class LasHeader
     double ApplyScaleZ(double unscaled_value) const { return unscaled_value * scale_.z + offset_.z; }
     int32_t RemoveScaleX(double scaled_value) const
     {
-        return static_cast<int32_t>(std::round((scaled_value - offset_.x) / scale_.x));
+        return RemoveScale<int32_t>(scaled_value, scale_.x, offset_.x);
     }
     int32_t RemoveScaleY(double scaled_value) const
     {
-        return static_cast<int32_t>(std::round((scaled_value - offset_.y) / scale_.y));
+        return RemoveScale<int32_t>(scaled_value, scale_.y, offset_.y);
     }
     int32_t RemoveScaleZ(double scaled_value) const
     {
-        return static_cast<int32_t>(std::round((scaled_value - offset_.z) / scale_.z));
+        return RemoveScale<int32_t>(scaled_value, scale_.z, offset_.z);
     }
 
     uint16_t file_source_id{};
diff --git a/cpp/include/copc-lib/las/utils.hpp b/cpp/include/copc-lib/las/utils.hpp
index 75af069..2d19f1b 100644
--- a/cpp/include/copc-lib/las/utils.hpp
+++ b/cpp/include/copc-lib/las/utils.hpp
@@ -19,7 +19,8 @@ template <typename T> T RemoveScale(double value, double scale, double offset)
 {
     double val = std::round((value - offset) / scale);
 
-    if (val < std::numeric_limits<T>::min() || val > std::numeric_limits<T>::max())
+    // written so that NaN is refused too
+    if (!(val >= std::numeric_limits<T>::min() && val <= std::numeric_limits<T>::max()))
         throw std::runtime_error("The value " + std::to_string(value) +
                                  " is too large to save into the requested format." +
                                  " Your scale and/or offset may be incorrect.");
-- 
2.43.0


From c445054ab718337bda1234a56d8a55f3bece4785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 05/24] fix: bound the strings read from a LAS header by their
 fields

A guid, system identifier or generating software that fills its field has no terminator.
---
 cpp/src/las/header.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/cpp/src/las/header.cpp b/cpp/src/las/header.cpp
index 85472d4..f010c84 100644
--- a/cpp/src/las/header.cpp
+++ b/cpp/src/las/header.cpp
@@ -1,5 +1,6 @@
 #include "copc-lib/las/header.hpp"
 
+#include <algorithm>
 #include <cstring>
 #include <limits>
 #include <stdexcept>
@@ -14,6 +15,15 @@
 namespace copc::las
 {
 
+namespace
+{
+// The text of a fixed-size header field, which has no terminator when all of its bytes are used
+template <size_t N> std::string FixedString(const char (&field)[N])
+{
+    return std::string(field, std::find(field, field + N, '\0'));
+}
+} // namespace
+
 LasHeader::LasHeader(const LasHeader &header, int8_t point_format_id, uint16_t point_record_length,
                      const Vector3 &scale, const Vector3 &offset)
     : LasHeader(header)
@@ -58,11 +68,11 @@ LasHeader LasHeader::FromLazPerf(const lazperf::header14 &header)
     if (!(header.global_encoding & 0x10))
         throw std::runtime_error("LasHeader::FromLazPerf: WKT bit must be set.");
     h.global_encoding = header.global_encoding;
-    h.guid_ = header.guid;
+    h.guid_ = FixedString(header.guid);
     if (header.version.major != 1 || header.version.minor != 4)
         throw std::runtime_error("LasHeader::FromLazPerf: Header version needs to be 1.4");
-    h.system_identifier_ = header.system_identifier;
-    h.generating_software_ = header.generating_software;
+    h.system_identifier_ = FixedString(header.system_identifier);
+    h.generating_software_ = FixedString(header.generating_software);
     h.creation_day = header.creation.day;
     h.creation_year = header.creation.year;
     if (header.header_size != HEADER_SIZE_BYTES)
-- 
2.43.0


From 3b02de4fe38c8c2eb1ad00048fbd7417dffa1b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:22 +0000
Subject: [PATCH 06/24] fix: compare whole arrays in the equality of extra byte
 fields

Only the first three bytes of each array of three doubles took part.
---
 cpp/include/copc-lib/las/vlr.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpp/include/copc-lib/las/vlr.hpp b/cpp/include/copc-lib/las/vlr.hpp
index 363e595..9bd29b2 100644
--- a/cpp/include/copc-lib/las/vlr.hpp
+++ b/cpp/include/copc-lib/las/vlr.hpp
@@ -70,9 +70,9 @@ namespace lazperf
 inline bool operator==(const eb_vlr::ebfield &a, const eb_vlr::ebfield &b)
 {
     return std::memcmp(a.reserved, b.reserved, 2) == 0 && a.data_type == b.data_type && a.options == b.options &&
-           a.name == b.name && std::memcmp(a.no_data, b.no_data, 3) == 0 && std::memcmp(a.minval, b.minval, 3) == 0 &&
-           std::memcmp(a.maxval, b.maxval, 3) == 0 && std::memcmp(a.scale, b.scale, 3) == 0 &&
-           std::memcmp(a.offset, b.offset, 3) == 0 && a.description == b.description;
+           a.name == b.name && std::memcmp(a.no_data, b.no_data, sizeof(a.no_data)) == 0 && std::memcmp(a.minval, b.minval, sizeof(a.minval)) == 0 &&
+           std::memcmp(a.maxval, b.maxval, sizeof(a.maxval)) == 0 && std::memcmp(a.scale, b.scale, sizeof(a.scale)) == 0 &&
+           std::memcmp(a.offset, b.offset, sizeof(a.offset)) == 0 && a.description == b.description;
 }
 } // namespace lazperf
 
-- 
2.43.0


From 654092cea6e076d8e9eb7d1605fa3e38961b485e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:22 +0000
Subject: [PATCH 07/24] fix: read VLR data behind the kind of header that was
 found

A WKT record may be stored as a VLR and the extra bytes or extents record as an EVLR; the headers
have different sizes.
---
 cpp/include/copc-lib/las/vlr.hpp | 3 +++
 cpp/src/io/base_reader.cpp       | 4 ++--
 cpp/src/io/copc_reader.cpp       | 4 ++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/cpp/include/copc-lib/las/vlr.hpp b/cpp/include/copc-lib/las/vlr.hpp
index 9bd29b2..c61770e 100644
--- a/cpp/include/copc-lib/las/vlr.hpp
+++ b/cpp/include/copc-lib/las/vlr.hpp
@@ -29,6 +29,9 @@ class VlrHeader : public lazperf::evlr_header
     VlrHeader(const lazperf::vlr_header &vlr_header);
     VlrHeader(const VlrHeader &vlr_header);
 
+    // Number of bytes the header takes up in the file, the data follows it
+    int HeaderSize() const { return evlr_flag ? EVLR_HEADER_SIZE : VLR_HEADER_SIZE; }
+
     lazperf::vlr_header ToLazperfVlrHeader() const;
     lazperf::evlr_header ToLazperfEvlrHeader() const;
 };
diff --git a/cpp/src/io/base_reader.cpp b/cpp/src/io/base_reader.cpp
index 9a5d2f1..56f8d57 100644
--- a/cpp/src/io/base_reader.cpp
+++ b/cpp/src/io/base_reader.cpp
@@ -68,7 +68,7 @@ las::WktVlr BaseReader::ReadWktVlr(std::map<uint64_t, las::VlrHeader> &vlrs)
     auto offset = FetchVlr(vlrs, "LASF_Projection", 2112);
     if (offset != 0)
     {
-        in_stream_->seekg(offset + las::EVLR_HEADER_SIZE);
+        in_stream_->seekg(offset + vlrs[offset].HeaderSize());
         return las::WktVlr::create(*in_stream_, static_cast<int>(vlrs[offset].data_length));
     }
     return las::WktVlr();
@@ -79,7 +79,7 @@ las::EbVlr BaseReader::ReadExtraBytesVlr(std::map<uint64_t, las::VlrHeader> &vlr
     auto offset = FetchVlr(vlrs, "LASF_Spec", 4);
     if (offset != 0)
     {
-        in_stream_->seekg(offset + las::VLR_HEADER_SIZE);
+        in_stream_->seekg(offset + vlrs[offset].HeaderSize());
         return las::EbVlr::create(*in_stream_, static_cast<int>(vlrs[offset].data_length));
     }
     return las::EbVlr();
diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index a18e7b4..ed7820a 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -47,7 +47,7 @@ CopcExtents Reader::ReadCopcExtentsVlr(std::map<uint64_t, las::VlrHeader> &vlrs,
     auto extended_offset = FetchVlr(vlrs, "rock_robotic", 10001);
     if (offset != 0)
     {
-        in_stream_->seekg(offset + las::VLR_HEADER_SIZE);
+        in_stream_->seekg(offset + vlrs[offset].HeaderSize());
         CopcExtents extents(las::CopcExtentsVlr::create(*in_stream_, static_cast<int>(vlrs[offset].data_length)),
                             static_cast<int8_t>(reader_->header().point_format_id),
                             static_cast<uint16_t>(eb_vlr.items.size()), extended_offset != 0);
@@ -55,7 +55,7 @@ CopcExtents Reader::ReadCopcExtentsVlr(std::map<uint64_t, las::VlrHeader> &vlrs,
         // Load mean/var if they exist
         if (extended_offset != 0)
         {
-            in_stream_->seekg(extended_offset + las::VLR_HEADER_SIZE);
+            in_stream_->seekg(extended_offset + vlrs[extended_offset].HeaderSize());
             extents.SetExtendedStats(
                 las::CopcExtentsVlr::create(*in_stream_, static_cast<int>(vlrs[extended_offset].data_length)));
         }
-- 
2.43.0


From 4efb2757957f31d457d8c0d66a491133dd22ac9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:22 +0000
Subject: [PATCH 08/24] fix: default extents of a file without an extents VLR
 cover its extra bytes

---
 cpp/src/io/copc_reader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index ed7820a..2e1f0f0 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -63,7 +63,8 @@ CopcExtents Reader::ReadCopcExtentsVlr(std::map<uint64_t, las::VlrHeader> &vlrs,
     }
     else
     {
-        return CopcExtents(reader_->header().point_format_id);
+        return CopcExtents(static_cast<int8_t>(reader_->header().point_format_id),
+                           static_cast<uint16_t>(eb_vlr.items.size()));
     }
 }
 
-- 
2.43.0


From 4ea41222ad06c1acfe270cc64000ee88949ee5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:44 +0000
Subject: [PATCH 09/24] fix: decide once whether a file has an extra bytes VLR

The offset to the point data counted the VLR when it had items, but it was written and counted in
the header when the records had extra bytes. Undocumented extra bytes made Close throw.
---
 cpp/src/io/laz_base_writer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/src/io/laz_base_writer.cpp b/cpp/src/io/laz_base_writer.cpp
index dc72d9e..05384f7 100644
--- a/cpp/src/io/laz_base_writer.cpp
+++ b/cpp/src/io/laz_base_writer.cpp
@@ -28,7 +28,7 @@ void BaseWriter::WriteLasHeader(bool extended_stats_flag)
 {
     // Write LAS header
     auto las_header = config_->LasHeader().ToLazPerf(OffsetToPointData(), point_count_, evlr_offset_, evlr_count_,
-                                                     config_->LasHeader().EbByteSize(), extended_stats_flag);
+                                                     config_->ExtraBytesVlr().size() > 0, extended_stats_flag);
     out_stream_.seekp(0);
     las_header.write(out_stream_);
 }
@@ -37,7 +37,7 @@ void BaseWriter::WriteLazAndEbVlrs()
 {
 
     // Write optional LAS Extra Byte VLR
-    if (config_->LasHeader().EbByteSize() > 0)
+    if (config_->ExtraBytesVlr().size() > 0)
     {
         auto ebVlr = this->config_->ExtraBytesVlr();
         ebVlr.header().write(out_stream_);
-- 
2.43.0


From 64d10f15c74a6d379f757b27fd79be4f6e4d7389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:44 +0000
Subject: [PATCH 10/24] fix: notice a failed or closed stream when writing a
 chunk

The position was kept in an unsigned variable, so the test for the error value -1 never fired, and
chunks written after Close ended up behind the hierarchy of a finished file.
---
 cpp/src/io/laz_base_writer.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cpp/src/io/laz_base_writer.cpp b/cpp/src/io/laz_base_writer.cpp
index 05384f7..9f645d1 100644
--- a/cpp/src/io/laz_base_writer.cpp
+++ b/cpp/src/io/laz_base_writer.cpp
@@ -112,7 +112,10 @@ void BaseWriter::WriteWKT()
 int32_t BaseWriter::WriteChunk(const std::vector<char> &in, int32_t point_count, bool compressed, uint64_t *offset,
                                int32_t *byte_size)
 {
-    uint64_t startpos = out_stream_.tellp();
+    if (!open_)
+        throw std::runtime_error("BaseWriter::WriteChunk: The writer is closed!");
+
+    int64_t startpos = out_stream_.tellp();
     if (startpos <= 0)
         throw std::runtime_error("BaseWriter::WriteChunk: Error while writing chunk!");
     if (offset != nullptr)
@@ -125,11 +128,11 @@ int32_t BaseWriter::WriteChunk(const std::vector<char> &in, int32_t point_count,
 
     point_count_ += point_count;
 
-    uint64_t endpos = out_stream_.tellp();
+    int64_t endpos = out_stream_.tellp();
     if (endpos <= 0)
         throw std::runtime_error("BaseWriter::WriteChunk: Error while writing chunk!");
 
-    chunks_.push_back(lazperf::chunk{static_cast<uint64_t>(point_count), endpos});
+    chunks_.push_back(lazperf::chunk{static_cast<uint64_t>(point_count), static_cast<uint64_t>(endpos)});
 
     auto size = endpos - startpos;
     if (size > (std::numeric_limits<int32_t>::max)())
-- 
2.43.0


From db96575f542d6f23df18a7d5a1cfc649c45ee54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:44 +0000
Subject: [PATCH 11/24] fix: refuse negative point counts for compressed chunks

A count of -1 turns the node into a page entry.
---
 cpp/src/io/copc_writer_public.cpp | 2 +-
 cpp/src/io/laz_writer.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/src/io/copc_writer_public.cpp b/cpp/src/io/copc_writer_public.cpp
index ef33802..dee6a87 100644
--- a/cpp/src/io/copc_writer_public.cpp
+++ b/cpp/src/io/copc_writer_public.cpp
@@ -126,7 +126,7 @@ Node Writer::AddNode(const VoxelKey &key, std::vector<char> const &uncompressed_
 Node Writer::AddNodeCompressed(const VoxelKey &key, std::vector<char> const &compressed_data, int32_t point_count,
                                const VoxelKey &page_key)
 {
-    if (point_count == 0)
+    if (point_count <= 0)
         throw std::runtime_error("Point count must be >0!");
 
     return DoAddNode(key, compressed_data, point_count, true, page_key);
diff --git a/cpp/src/io/laz_writer.cpp b/cpp/src/io/laz_writer.cpp
index 509cfcc..5dc91ee 100644
--- a/cpp/src/io/laz_writer.cpp
+++ b/cpp/src/io/laz_writer.cpp
@@ -29,7 +29,7 @@ void LazWriter::WritePoints(const las::Points &points)
 // Write a group of points as a chunk
 void LazWriter::WritePointsCompressed(std::vector<char> const &compressed_data, int32_t point_count)
 {
-    if (point_count == 0)
+    if (point_count <= 0)
         throw std::runtime_error("Point count must be >0!");
 
     WriteChunk(compressed_data, point_count, true);
-- 
2.43.0


From b6767eafcdbd8d919ebf30609a0f51e07441bf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:44 +0000
Subject: [PATCH 12/24] fix: ChangeNodePage records the new page of the node

A second move left the node in the page of the first one.
---
 cpp/src/io/copc_writer_public.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp/src/io/copc_writer_public.cpp b/cpp/src/io/copc_writer_public.cpp
index dee6a87..3347cc7 100644
--- a/cpp/src/io/copc_writer_public.cpp
+++ b/cpp/src/io/copc_writer_public.cpp
@@ -168,6 +168,8 @@ void Writer::ChangeNodePage(const VoxelKey &node_key, const VoxelKey &new_page_k
     // If old page has no nodes left then remove it, unless it is root page
     if (node->page_key != VoxelKey::RootKey() && hierarchy_->seen_pages_[node->page_key]->nodes.empty())
         hierarchy_->seen_pages_.erase(node->page_key);
+
+    node->page_key = new_page_key;
 }
 
 void FileWriter::Close()
-- 
2.43.0


From a11c3725e23ea728f10a190f1a637d41413c7cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:44 +0000
Subject: [PATCH 13/24] fix: refuse to add a node twice

The second node replaced the first in the hierarchy, or stood beside it in another page, while the
points of both were counted in the header.
---
 cpp/src/io/copc_writer_public.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/src/io/copc_writer_public.cpp b/cpp/src/io/copc_writer_public.cpp
index 3347cc7..4ceea25 100644
--- a/cpp/src/io/copc_writer_public.cpp
+++ b/cpp/src/io/copc_writer_public.cpp
@@ -77,7 +77,8 @@ Node Writer::DoAddNode(const VoxelKey &key, const std::vector<char> &in, int32_t
 {
     if (!page_key.IsValid() || !key.IsValid())
         throw std::runtime_error("Invalid page or node key!");
-    // TODO[leo]: Check if node already loaded
+    if (hierarchy_->NodeExists(key))
+        throw std::runtime_error("Node " + key.ToString() + " has already been added!");
 
     if (!key.ChildOf(page_key))
         throw std::runtime_error("Target key " + key.ToString() + " is not a child of page node " + key.ToString());
-- 
2.43.0


From def28d42a0b5da9dfcfc517f8b9deac6ecfbd3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:44 +0000
Subject: [PATCH 14/24] fix: CopcExtent from a vector refuses a negative
 variance like the other constructors

---
 cpp/src/copc/extents.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp/src/copc/extents.cpp b/cpp/src/copc/extents.cpp
index c2cb88a..8f1a46f 100644
--- a/cpp/src/copc/extents.cpp
+++ b/cpp/src/copc/extents.cpp
@@ -26,6 +26,8 @@ CopcExtent::CopcExtent(const std::vector<double> &vec)
 
     if (vec.size() == 4)
     {
+        if (vec[3] < 0)
+            throw std::runtime_error("CopcExtent: Variance must be >= 0.");
         mean = vec[2];
         var = vec[3];
     }
-- 
2.43.0


From c26927c951d83d0c8530f8788c61125d75db4ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:44 +0000
Subject: [PATCH 15/24] fix: extents converted to another point format do not
 share storage with the original

---
 cpp/src/copc/extents.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cpp/src/copc/extents.cpp b/cpp/src/copc/extents.cpp
index 8f1a46f..9000a5c 100644
--- a/cpp/src/copc/extents.cpp
+++ b/cpp/src/copc/extents.cpp
@@ -76,19 +76,19 @@ CopcExtents::CopcExtents(const CopcExtents &other, int8_t point_format_id, uint1
 {
     // Copy generic extents
     for (int i{0}; i <= 13; i++)
-        extents_[i] = other.extents_[i];
+        extents_[i] = std::make_shared<CopcExtent>(*other.extents_[i]);
 
     // Copy RGB
     if (point_format_id > 6 && other.point_format_id_ > 6)
     {
-        extents_[14] = other.extents_[14];
-        extents_[15] = other.extents_[15];
-        extents_[16] = other.extents_[16];
+        extents_[14] = std::make_shared<CopcExtent>(*other.extents_[14]);
+        extents_[15] = std::make_shared<CopcExtent>(*other.extents_[15]);
+        extents_[16] = std::make_shared<CopcExtent>(*other.extents_[16]);
     }
 
     // Copy NIR
     if (point_format_id == 8 && other.point_format_id_ == 8)
-        extents_[17] = other.extents_[17];
+        extents_[17] = std::make_shared<CopcExtent>(*other.extents_[17]);
 
     // Copy EBs
     auto other_num_eb = other.NumberOfExtents() - PointBaseNumberExtents(other.PointFormatId());
@@ -100,7 +100,7 @@ CopcExtents::CopcExtents(const CopcExtents &other, int8_t point_format_id, uint1
     {
         for (int i{0}; i < num_eb_items; i++)
             extents_[PointBaseNumberExtents(point_format_id_) + i] =
-                other.extents_[PointBaseNumberExtents(other.PointFormatId()) + i];
+                std::make_shared<CopcExtent>(*other.extents_[PointBaseNumberExtents(other.PointFormatId()) + i]);
     }
 }
 
-- 
2.43.0


From a62404ca794031ad94f2f72bf886367926a3c1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:44 +0000
Subject: [PATCH 16/24] fix: refuse extra byte data types outside the size
 table

---
 cpp/src/las/vlr.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp/src/las/vlr.cpp b/cpp/src/las/vlr.cpp
index f3c1f4a..ff5f6d3 100644
--- a/cpp/src/las/vlr.cpp
+++ b/cpp/src/las/vlr.cpp
@@ -14,6 +14,8 @@ int NumBytesFromExtraBytes(const std::vector<EbVlr::ebfield> &items)
     {
         if (item.data_type == 0)
             out += item.options;
+        else if (item.data_type >= sizeof(EXTRA_BYTE_DATA_TYPE))
+            throw std::runtime_error("NumBytesFromExtraBytes: Data type must be 0-30.");
         else
             out += EXTRA_BYTE_DATA_TYPE[item.data_type];
     }
-- 
2.43.0


From b6b73057b4230b9079a6b47498828fb528809549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:44 +0000
Subject: [PATCH 17/24] fix: copying a LazConfigWriter copies its header

A LazWriter and the configuration it was made from shared one header.
---
 cpp/include/copc-lib/las/laz_config.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp/include/copc-lib/las/laz_config.hpp b/cpp/include/copc-lib/las/laz_config.hpp
index 3686ec8..918382f 100644
--- a/cpp/include/copc-lib/las/laz_config.hpp
+++ b/cpp/include/copc-lib/las/laz_config.hpp
@@ -53,6 +53,9 @@ class LazConfigWriter : public LazConfig
                     const Vector3 &offset = Vector3::DefaultOffset(), const std::string &wkt = "",
                     const las::EbVlr &extra_bytes_vlr = las::EbVlr(0));
 
+    // Copy constructor
+    LazConfigWriter(const LazConfigWriter &other) : LazConfig(other.LasHeader(), other.Wkt(), other.ExtraBytesVlr()) {}
+
     LazConfigWriter(const LazConfig &laz_config)
         : LazConfig(las::LasHeader(laz_config.LasHeader(), false), laz_config.Wkt(), laz_config.ExtraBytesVlr())
     {
-- 
2.43.0


From fbbfcdfffab941e4121e122f88e6f2b6e0ddd126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:13 +0000
Subject: [PATCH 18/24] fix: file readers own their stream

The stream leaked when the constructor threw, which it does for every file that is not a valid
LAZ/COPC file, and was used after it had been freed when the reader was used after Close.
---
 cpp/include/copc-lib/io/copc_reader.hpp | 20 ++++++++------------
 cpp/include/copc-lib/io/laz_reader.hpp  | 21 +++++++++------------
 2 files changed, 17 insertions(+), 24 deletions(-)

diff --git a/cpp/include/copc-lib/io/copc_reader.hpp b/cpp/include/copc-lib/io/copc_reader.hpp
index 75a2652..c7a2d19 100644
--- a/cpp/include/copc-lib/io/copc_reader.hpp
+++ b/cpp/include/copc-lib/io/copc_reader.hpp
@@ -1,6 +1,7 @@
 #ifndef COPCLIB_IO_COPC_READER_H_
 #define COPCLIB_IO_COPC_READER_H_
 
+#include <fstream>
 #include <istream>
 #include <limits>
 #include <map>
@@ -84,14 +85,13 @@ class Reader : public BaseIO, public BaseReader
 class FileReader : public Reader
 {
   public:
-    FileReader(const std::string &file_path) : is_open_(true)
+    FileReader(const std::string &file_path)
     {
-        auto f_stream = new std::fstream;
         this->file_path_ = file_path;
-        f_stream->open(file_path.c_str(), std::ios::in | std::ios::binary);
-        if (!f_stream->good())
+        f_stream_.open(file_path.c_str(), std::ios::in | std::ios::binary);
+        if (!f_stream_.good())
             throw std::runtime_error("FileReader: Error while opening file path.");
-        in_stream_ = f_stream;
+        in_stream_ = &f_stream_;
 
         InitReader();
         InitCopcReader();
@@ -99,12 +99,8 @@ class FileReader : public Reader
 
     void Close()
     {
-        if (is_open_)
-        {
-            dynamic_cast<std::fstream *>(in_stream_)->close();
-            delete in_stream_;
-            is_open_ = false;
-        }
+        if (f_stream_.is_open())
+            f_stream_.close();
     }
 
     std::string FilePath() { return file_path_; }
@@ -112,7 +108,7 @@ class FileReader : public Reader
     ~FileReader() { Close(); }
 
   private:
-    bool is_open_;
+    std::fstream f_stream_;
     std::string file_path_;
 };
 
diff --git a/cpp/include/copc-lib/io/laz_reader.hpp b/cpp/include/copc-lib/io/laz_reader.hpp
index faf4edb..701a405 100644
--- a/cpp/include/copc-lib/io/laz_reader.hpp
+++ b/cpp/include/copc-lib/io/laz_reader.hpp
@@ -1,6 +1,8 @@
 #ifndef COPCLIB_IO_LAZ_READER_H_
 #define COPCLIB_IO_LAZ_READER_H_
 
+#include <fstream>
+
 #include "copc-lib/io/base_reader.hpp"
 
 namespace copc::laz
@@ -23,26 +25,21 @@ class LazReader : public BaseReader
 class LazFileReader : public LazReader
 {
   public:
-    LazFileReader(const std::string &file_path) : is_open_(true)
+    LazFileReader(const std::string &file_path)
     {
-        auto f_stream = new std::fstream;
         this->file_path_ = file_path;
-        f_stream->open(file_path.c_str(), std::ios::in | std::ios::binary);
-        if (!f_stream->good())
+        f_stream_.open(file_path.c_str(), std::ios::in | std::ios::binary);
+        if (!f_stream_.good())
             throw std::runtime_error("LazFileReader: Error while opening file path.");
-        in_stream_ = f_stream;
+        in_stream_ = &f_stream_;
 
         InitReader();
     }
 
     void Close()
     {
-        if (is_open_)
-        {
-            dynamic_cast<std::fstream *>(in_stream_)->close();
-            delete in_stream_;
-            is_open_ = false;
-        }
+        if (f_stream_.is_open())
+            f_stream_.close();
     }
 
     std::string FilePath() { return file_path_; }
@@ -50,7 +47,7 @@ class LazFileReader : public LazReader
     ~LazFileReader() { Close(); }
 
   private:
-    bool is_open_;
+    std::fstream f_stream_;
     std::string file_path_;
 };
 
-- 
2.43.0


From 2b8c55920b614993d0f8977010404cd5c57eeb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:13 +0000
Subject: [PATCH 19/24] fix: report short reads

A truncated file or record gave uninitialised entries, coordinates, extents and chunk bytes.
---
 cpp/include/copc-lib/hierarchy/entry.hpp | 2 ++
 cpp/include/copc-lib/las/utils.hpp       | 3 ++-
 cpp/src/io/copc_reader.cpp               | 3 ++-
 cpp/src/las/vlr.cpp                      | 2 ++
 4 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/cpp/include/copc-lib/hierarchy/entry.hpp b/cpp/include/copc-lib/hierarchy/entry.hpp
index cb4eaba..b63c64f 100644
--- a/cpp/include/copc-lib/hierarchy/entry.hpp
+++ b/cpp/include/copc-lib/hierarchy/entry.hpp
@@ -62,6 +62,8 @@ class Entry
         in_stream.read(reinterpret_cast<char *>(&size), sizeof(size));
         int32_t point_count;
         in_stream.read(reinterpret_cast<char *>(&point_count), sizeof(point_count));
+        if (!in_stream)
+            throw std::runtime_error("Entry::Unpack: Unexpected end of stream.");
 
         return Entry(key, offset, size, point_count);
     }
diff --git a/cpp/include/copc-lib/las/utils.hpp b/cpp/include/copc-lib/las/utils.hpp
index 2d19f1b..8d49fcc 100644
--- a/cpp/include/copc-lib/las/utils.hpp
+++ b/cpp/include/copc-lib/las/utils.hpp
@@ -31,7 +31,8 @@ template <typename T> T RemoveScale(double value, double scale, double offset)
 template <typename T> T unpack(std::istream &in_stream)
 {
     T value;
-    in_stream.read(reinterpret_cast<char *>(&value), sizeof(T));
+    if (!in_stream.read(reinterpret_cast<char *>(&value), sizeof(T)))
+        throw std::runtime_error("unpack: Unexpected end of stream.");
     return value;
 }
 template <typename T> void pack(const T &value, std::ostream &out_stream)
diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index 2e1f0f0..5045cdd 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -142,7 +142,8 @@ std::vector<char> Reader::GetPointDataCompressed(Node const &node)
 
     std::vector<char> out;
     out.resize(node.byte_size);
-    in_stream_->read(&out[0], node.byte_size);
+    if (!in_stream_->read(out.data(), node.byte_size))
+        throw std::runtime_error("Reader::GetPointDataCompressed: Unexpected end of file.");
     return out;
 }
 
diff --git a/cpp/src/las/vlr.cpp b/cpp/src/las/vlr.cpp
index ff5f6d3..db391f1 100644
--- a/cpp/src/las/vlr.cpp
+++ b/cpp/src/las/vlr.cpp
@@ -89,6 +89,8 @@ void CopcExtentsVlr::read(std::istream &in, int byteSize)
     {
         in.read(reinterpret_cast<char *>(&minimum), sizeof(double));
         in.read(reinterpret_cast<char *>(&maximum), sizeof(double));
+        if (!in)
+            throw std::runtime_error("CopcExtentsVlr: Unexpected end of stream.");
         items.emplace_back(minimum, maximum);
     }
 }
-- 
2.43.0


From 9958fd47d2d9ed84502305e1c19fb3085988a894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:13 +0000
Subject: [PATCH 20/24] fix: refuse hierarchies that list a page more than once

A page that lists itself or an ancestor made every traversal recurse without end.
---
 cpp/src/io/copc_base_io.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp/src/io/copc_base_io.cpp b/cpp/src/io/copc_base_io.cpp
index 2aea847..7eb600f 100644
--- a/cpp/src/io/copc_base_io.cpp
+++ b/cpp/src/io/copc_base_io.cpp
@@ -56,6 +56,9 @@ void BaseIO::ReadAndParsePage(const std::shared_ptr<Internal::PageInternal> &pag
     {
         if (e.IsPage())
         {
+            // A page that comes up again would be its own descendant, or be read more than once
+            if (hierarchy_->PageExists(e.key))
+                throw std::runtime_error("Page " + e.key.ToString() + " appears more than once in the hierarchy.");
             auto subpage = std::make_shared<Internal::PageInternal>(e);
             hierarchy_->seen_pages_[e.key] = subpage;
             page->sub_pages.insert(subpage);
-- 
2.43.0


From a811637f557cdfc9694c4b734eb16d118ff60b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:40 +0000
Subject: [PATCH 21/24] fix: report truncated VLRs

A file that ends inside its VLRs or EVLRs was read as if they were complete, losing or inventing them.
---
 cpp/src/io/base_reader.cpp | 14 ++++++++++++--
 cpp/src/io/copc_reader.cpp |  5 ++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/cpp/src/io/base_reader.cpp b/cpp/src/io/base_reader.cpp
index 56f8d57..cc46945 100644
--- a/cpp/src/io/base_reader.cpp
+++ b/cpp/src/io/base_reader.cpp
@@ -43,6 +43,8 @@ std::map<uint64_t, las::VlrHeader> BaseReader::ReadVlrHeaders()
     {
         uint64_t cur_pos = in_stream_->tellg();
         auto h = las::VlrHeader(lazperf::vlr_header::create(*in_stream_));
+        if (!*in_stream_)
+            throw std::runtime_error("BaseReader::ReadVlrHeaders: Unexpected end of file.");
         out.insert({cur_pos, h});
 
         in_stream_->seekg(h.data_length, std::ios::cur); // jump foward
@@ -56,6 +58,8 @@ std::map<uint64_t, las::VlrHeader> BaseReader::ReadVlrHeaders()
     {
         uint64_t cur_pos = in_stream_->tellg();
         auto h = las::VlrHeader(lazperf::evlr_header::create(*in_stream_));
+        if (!*in_stream_)
+            throw std::runtime_error("BaseReader::ReadVlrHeaders: Unexpected end of file.");
         out.insert({cur_pos, h});
 
         in_stream_->seekg(h.data_length, std::ios::cur); // jump foward
@@ -69,7 +73,10 @@ las::WktVlr BaseReader::ReadWktVlr(std::map<uint64_t, las::VlrHeader> &vlrs)
     if (offset != 0)
     {
         in_stream_->seekg(offset + vlrs[offset].HeaderSize());
-        return las::WktVlr::create(*in_stream_, static_cast<int>(vlrs[offset].data_length));
+        auto wkt = las::WktVlr::create(*in_stream_, static_cast<int>(vlrs[offset].data_length));
+        if (!*in_stream_)
+            throw std::runtime_error("BaseReader::ReadWktVlr: Unexpected end of file.");
+        return wkt;
     }
     return las::WktVlr();
 }
@@ -80,7 +87,10 @@ las::EbVlr BaseReader::ReadExtraBytesVlr(std::map<uint64_t, las::VlrHeader> &vlr
     if (offset != 0)
     {
         in_stream_->seekg(offset + vlrs[offset].HeaderSize());
-        return las::EbVlr::create(*in_stream_, static_cast<int>(vlrs[offset].data_length));
+        auto eb = las::EbVlr::create(*in_stream_, static_cast<int>(vlrs[offset].data_length));
+        if (!*in_stream_)
+            throw std::runtime_error("BaseReader::ReadExtraBytesVlr: Unexpected end of file.");
+        return eb;
     }
     return las::EbVlr();
 }
diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index 5045cdd..ac2fac8 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -38,7 +38,10 @@ CopcInfo Reader::ReadCopcInfoVlr(std::map<uint64_t, las::VlrHeader> &vlrs)
                                  "offset 375 as per COPC specs.");
 
     in_stream_->seekg(offset + las::VLR_HEADER_SIZE);
-    return lazperf::copc_info_vlr::create(*in_stream_);
+    auto info = lazperf::copc_info_vlr::create(*in_stream_);
+    if (!*in_stream_)
+        throw std::runtime_error("Reader::ReadCopcInfoVlr: Unexpected end of file.");
+    return info;
 }
 
 CopcExtents Reader::ReadCopcExtentsVlr(std::map<uint64_t, las::VlrHeader> &vlrs, const las::EbVlr &eb_vlr) const
-- 
2.43.0


From 4e3bb775668e2cce0522793e29ff0580b9683cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:05 +0000
Subject: [PATCH 22/24] fix: writers cannot be copied (a copy finished and
 closed the file of the original)

---
 cpp/include/copc-lib/io/copc_writer.hpp     | 3 +++
 cpp/include/copc-lib/io/laz_base_writer.hpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/cpp/include/copc-lib/io/copc_writer.hpp b/cpp/include/copc-lib/io/copc_writer.hpp
index 482c1e7..95dff8f 100644
--- a/cpp/include/copc-lib/io/copc_writer.hpp
+++ b/cpp/include/copc-lib/io/copc_writer.hpp
@@ -34,6 +34,9 @@ class Writer : public BaseIO
         InitWriter(out_stream, copc_config_writer, point_format_id, scale, offset, wkt, extra_bytes_vlr,
                    has_extended_stats);
     }
+    // A copy would close the file of the original when it goes out of scope
+    Writer(const Writer &) = delete;
+    Writer &operator=(const Writer &) = delete;
 
     // Writes the file out
     virtual void Close();
diff --git a/cpp/include/copc-lib/io/laz_base_writer.hpp b/cpp/include/copc-lib/io/laz_base_writer.hpp
index fb09a7a..fcdfaec 100644
--- a/cpp/include/copc-lib/io/laz_base_writer.hpp
+++ b/cpp/include/copc-lib/io/laz_base_writer.hpp
@@ -27,6 +27,9 @@ class BaseWriter
         : out_stream_(out_stream), config_(std::move(laz_config)), open_(true)
     {
     }
+    // A copy would finish the same file a second time
+    BaseWriter(const BaseWriter &) = delete;
+    BaseWriter &operator=(const BaseWriter &) = delete;
 
     int32_t WriteChunk(const std::vector<char> &in, int32_t point_count = 0, bool compressed = false,
                        uint64_t *offset = nullptr, int32_t *byte_size = nullptr);
-- 
2.43.0


From 67cce3cfd8ee10a574baa76ca7477e0350f480f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:34 +0000
Subject: [PATCH 23/24] fix: refuse record lengths which do not fit the point
 format

EbByteSize wrapped around for a header whose point record is shorter than
its point format, and PointByteSize for records beyond 65535 bytes; the
buffers sized by them were then overrun by the decompressor.
---
 cpp/src/las/utils.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cpp/src/las/utils.cpp b/cpp/src/las/utils.cpp
index 5e59d0a..41b0b97 100644
--- a/cpp/src/las/utils.cpp
+++ b/cpp/src/las/utils.cpp
@@ -1,5 +1,8 @@
 #include "copc-lib/las/utils.hpp"
 
+#include <limits>
+#include <stdexcept>
+
 namespace copc::las
 {
 
@@ -63,12 +66,19 @@ bool FormatHasNir(const uint8_t &point_format_id)
 
 uint16_t EbByteSize(const int8_t &point_format_id, const uint32_t &point_record_length)
 {
-    return point_record_length - PointBaseByteSize(point_format_id);
+    uint32_t base_byte_size = PointBaseByteSize(point_format_id);
+    if (point_record_length < base_byte_size ||
+        point_record_length - base_byte_size > std::numeric_limits<uint16_t>::max())
+        throw std::runtime_error("EbByteSize: Invalid point record length for the point format");
+    return point_record_length - base_byte_size;
 }
 
 uint16_t PointByteSize(const int8_t &point_format_id, const uint16_t &eb_byte_size)
 {
-    return PointBaseByteSize(point_format_id) + eb_byte_size;
+    uint32_t point_byte_size = PointBaseByteSize(point_format_id) + eb_byte_size;
+    if (point_byte_size > std::numeric_limits<uint16_t>::max())
+        throw std::runtime_error("PointByteSize: Point record is too long");
+    return point_byte_size;
 }
 
 } // namespace copc::las
-- 
2.43.0


From 559ce783b5b273586041d16d6a1ffe30ae346d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:19 +0000
Subject: [PATCH 24/24] fix: points of a chunk which could not be written are
 not counted

---
 cpp/src/io/laz_base_writer.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cpp/src/io/laz_base_writer.cpp b/cpp/src/io/laz_base_writer.cpp
index 9f645d1..1e6de3d 100644
--- a/cpp/src/io/laz_base_writer.cpp
+++ b/cpp/src/io/laz_base_writer.cpp
@@ -126,12 +126,11 @@ int32_t BaseWriter::WriteChunk(const std::vector<char> &in, int32_t point_count,
     else
         point_count = laz::Compressor::CompressBytes(out_stream_, config_->LasHeader(), in);
 
-    point_count_ += point_count;
-
     int64_t endpos = out_stream_.tellp();
     if (endpos <= 0)
         throw std::runtime_error("BaseWriter::WriteChunk: Error while writing chunk!");
 
+    point_count_ += point_count;
     chunks_.push_back(lazperf::chunk{static_cast<uint64_t>(point_count), static_cast<uint64_t>(endpos)});
 
     auto size = endpos - startpos;
-- 
2.43.0

