From 0106cc1bf00a2daa38087d4e323ec4bf276faf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 01/45] fix: LasHeader::ApplyInverseScale must subtract the
 offset before dividing by the scale

---
 cpp/include/copc-lib/las/header.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/copc-lib/las/header.hpp b/cpp/include/copc-lib/las/header.hpp
index f7fc0e6..0d67bd7 100644
--- a/cpp/include/copc-lib/las/header.hpp
+++ b/cpp/include/copc-lib/las/header.hpp
@@ -108,7 +108,7 @@ class LasHeader
 
     // Apply Las scale factors to Vector3 or double
     Vector3 ApplyScale(const Vector3 &unscaled_value) const { return unscaled_value * scale_ + offset_; }
-    Vector3 ApplyInverseScale(const Vector3 &scaled_value) const { return scaled_value / scale_ - offset_; }
+    Vector3 ApplyInverseScale(const Vector3 &scaled_value) const { return (scaled_value - offset_) / scale_; }
     double ApplyScaleX(double unscaled_value) const { return unscaled_value * scale_.x + offset_.x; }
     double ApplyScaleY(double unscaled_value) const { return unscaled_value * scale_.y + offset_.y; }
     double ApplyScaleZ(double unscaled_value) const { return unscaled_value * scale_.z + offset_.z; }
-- 
2.43.0


From a54af6c29e5f2c1172c965502c18b3ba6ef6939b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 02/45] fix: reject NaN coordinates instead of storing an
 arbitrary integer

---
 cpp/include/copc-lib/las/utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/copc-lib/las/utils.hpp b/cpp/include/copc-lib/las/utils.hpp
index 75af069..f9ea887 100644
--- a/cpp/include/copc-lib/las/utils.hpp
+++ b/cpp/include/copc-lib/las/utils.hpp
@@ -19,7 +19,7 @@ template <typename T> T RemoveScale(double value, double scale, double offset)
 {
     double val = std::round((value - offset) / scale);
 
-    if (val < std::numeric_limits<T>::min() || val > std::numeric_limits<T>::max())
+    if (!(val >= std::numeric_limits<T>::min() && val <= std::numeric_limits<T>::max()))
         throw std::runtime_error("The value " + std::to_string(value) +
                                  " is too large to save into the requested format." +
                                  " Your scale and/or offset may be incorrect.");
-- 
2.43.0


From 6a187f02d019dd3d4d4392998501d9a6b71e9744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:23 +0000
Subject: [PATCH 03/45] fix: Point::ScanAngleDegrees must round to the nearest
 step so that a value read can be set again

---
 cpp/include/copc-lib/las/point.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/include/copc-lib/las/point.hpp b/cpp/include/copc-lib/las/point.hpp
index 9e3c53f..88b92ad 100644
--- a/cpp/include/copc-lib/las/point.hpp
+++ b/cpp/include/copc-lib/las/point.hpp
@@ -1,6 +1,7 @@
 #ifndef COPCLIB_LAS_POINT_H_
 #define COPCLIB_LAS_POINT_H_
 
+#include <cmath>
 #include <sstream>
 #include <vector>
 
@@ -66,7 +67,7 @@ class Point
 
     float ScanAngleDegrees() const { return 0.006f * float(scan_angle_); }
 
-    void ScanAngleDegrees(const float &scan_angle) { scan_angle_ = static_cast<int16_t>(scan_angle / 0.006f); }
+    void ScanAngleDegrees(const float &scan_angle) { scan_angle_ = static_cast<int16_t>(std::round(scan_angle / 0.006f)); }
 
     uint8_t UserData() const { return user_data_; }
     void UserData(const uint8_t &user_data) { user_data_ = user_data; }
-- 
2.43.0


From 3f81750703ad8514e2b497725c7a45a3ae4b50fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:02 +0000
Subject: [PATCH 04/45] fix: bulk PointSourceId accessors must carry 16-bit
 values

---
 cpp/include/copc-lib/las/points.hpp | 7 ++++---
 python/bindings.cpp                 | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/cpp/include/copc-lib/las/points.hpp b/cpp/include/copc-lib/las/points.hpp
index ff76f28..b8c9781 100644
--- a/cpp/include/copc-lib/las/points.hpp
+++ b/cpp/include/copc-lib/las/points.hpp
@@ -134,15 +134,15 @@ class Points
             points_[i]->Classification(in[i]);
     }
 
-    std::vector<uint8_t> PointSourceId() const
+    std::vector<uint16_t> PointSourceId() const
     {
-        std::vector<uint8_t> out;
+        std::vector<uint16_t> out;
         out.resize(Size());
         std::transform(points_.begin(), points_.end(), out.begin(),
                        [](const std::shared_ptr<Point> &p) { return p->PointSourceId(); });
         return out;
     }
-    void PointSourceId(const std::vector<uint8_t> &in)
+    void PointSourceId(const std::vector<uint16_t> &in)
     {
         if (in.size() != Size())
             throw std::runtime_error("PointSourceId setter array must be same size as Points array!");
@@ -150,6 +150,7 @@ class Points
         for (unsigned i = 0; i < points_.size(); ++i)
             points_[i]->PointSourceId(in[i]);
     }
+    void PointSourceId(const std::vector<uint8_t> &in) { PointSourceId(std::vector<uint16_t>(in.begin(), in.end())); }
 
     std::vector<uint16_t> Red() const
     {
diff --git a/python/bindings.cpp b/python/bindings.cpp
index b054fe3..8d60588 100644
--- a/python/bindings.cpp
+++ b/python/bindings.cpp
@@ -303,7 +303,7 @@ PYBIND11_MODULE(_core, m)
         .def_property("classification", py::overload_cast<>(&las::Points::Classification, py::const_),
                       py::overload_cast<const std::vector<uint8_t> &>(&las::Points::Classification))
         .def_property("point_source_id", py::overload_cast<>(&las::Points::PointSourceId, py::const_),
-                      py::overload_cast<const std::vector<uint8_t> &>(&las::Points::PointSourceId))
+                      py::overload_cast<const std::vector<uint16_t> &>(&las::Points::PointSourceId))
         .def_property("red", py::overload_cast<>(&las::Points::Red, py::const_),
                       py::overload_cast<const std::vector<uint16_t> &>(&las::Points::Red))
         .def_property("green", py::overload_cast<>(&las::Points::Green, py::const_),
-- 
2.43.0


From 215298cac6b518c4cefd7c3ed81f4a12d306b366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 05/45] fix: point records longer than 255 bytes overflowed a
 fixed stack buffer when read

---
 cpp/include/copc-lib/laz/decompressor.hpp | 6 +++---
 cpp/src/io/laz_reader.cpp                 | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cpp/include/copc-lib/laz/decompressor.hpp b/cpp/include/copc-lib/laz/decompressor.hpp
index 034d6ac..d939c60 100644
--- a/cpp/include/copc-lib/laz/decompressor.hpp
+++ b/cpp/include/copc-lib/laz/decompressor.hpp
@@ -28,11 +28,11 @@ class Decompressor
         las_decompressor::ptr decompressor = build_las_decompressor(stre.cb(), point_format_id, eb_byte_size);
 
         int point_size = copc::las::PointByteSize(point_format_id, eb_byte_size);
-        char buff[255];
+        std::vector<char> buff(point_size);
         for (int i = 0; i < point_count; i++)
         {
-            decompressor->decompress(buff);
-            out.insert(out.end(), buff, buff + point_size);
+            decompressor->decompress(buff.data());
+            out.insert(out.end(), buff.begin(), buff.end());
         }
         // clear the EOF flag, since lazperf may read too large of a buffer
         in_stream.clear();
diff --git a/cpp/src/io/laz_reader.cpp b/cpp/src/io/laz_reader.cpp
index 60a48d9..6682656 100644
--- a/cpp/src/io/laz_reader.cpp
+++ b/cpp/src/io/laz_reader.cpp
@@ -10,11 +10,11 @@ std::vector<char> LazReader::GetPointData()
 
     std::vector<char> out;
     int point_size = copc::las::PointByteSize(las_header.PointFormatId(), las_header.EbByteSize());
-    char buff[255];
+    std::vector<char> buff(point_size);
     for (size_t i = 0; i < las_header.PointCount(); i++)
     {
-        reader_->readPoint(buff);
-        out.insert(out.end(), buff, buff + point_size);
+        reader_->readPoint(buff.data());
+        out.insert(out.end(), buff.begin(), buff.end());
     }
 
     return out;
-- 
2.43.0


From 22a569c1dcc75a5e0c4d622d4d3fb080de92a975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:14 +0000
Subject: [PATCH 06/45] fix: ChangeNodePage must record the new page so that a
 node can be moved more than once

---
 cpp/src/io/copc_writer_public.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp/src/io/copc_writer_public.cpp b/cpp/src/io/copc_writer_public.cpp
index ef33802..c30a1c0 100644
--- a/cpp/src/io/copc_writer_public.cpp
+++ b/cpp/src/io/copc_writer_public.cpp
@@ -168,6 +168,8 @@ void Writer::ChangeNodePage(const VoxelKey &node_key, const VoxelKey &new_page_k
     // If old page has no nodes left then remove it, unless it is root page
     if (node->page_key != VoxelKey::RootKey() && hierarchy_->seen_pages_[node->page_key]->nodes.empty())
         hierarchy_->seen_pages_.erase(node->page_key);
+
+    node->page_key = new_page_key;
 }
 
 void FileWriter::Close()
-- 
2.43.0


From 9a135dec2e8e9959b045a845cf05a08d11b56d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:51 +0000
Subject: [PATCH 07/45] fix: write and declare the extra bytes VLR exactly when
 it has fields, as its space is reserved

---
 cpp/src/io/laz_base_writer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/src/io/laz_base_writer.cpp b/cpp/src/io/laz_base_writer.cpp
index dc72d9e..501bb33 100644
--- a/cpp/src/io/laz_base_writer.cpp
+++ b/cpp/src/io/laz_base_writer.cpp
@@ -28,7 +28,7 @@ void BaseWriter::WriteLasHeader(bool extended_stats_flag)
 {
     // Write LAS header
     auto las_header = config_->LasHeader().ToLazPerf(OffsetToPointData(), point_count_, evlr_offset_, evlr_count_,
-                                                     config_->LasHeader().EbByteSize(), extended_stats_flag);
+                                                     !config_->ExtraBytesVlr().items.empty(), extended_stats_flag);
     out_stream_.seekp(0);
     las_header.write(out_stream_);
 }
@@ -37,7 +37,7 @@ void BaseWriter::WriteLazAndEbVlrs()
 {
 
     // Write optional LAS Extra Byte VLR
-    if (config_->LasHeader().EbByteSize() > 0)
+    if (!config_->ExtraBytesVlr().items.empty())
     {
         auto ebVlr = this->config_->ExtraBytesVlr();
         ebVlr.header().write(out_stream_);
-- 
2.43.0


From 9355c138c182ca2009634370454ad9e18334a4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 08/45] fix: reject compressed chunks with a negative point
 count

---
 cpp/src/io/copc_writer_public.cpp | 2 +-
 cpp/src/io/laz_writer.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/src/io/copc_writer_public.cpp b/cpp/src/io/copc_writer_public.cpp
index c30a1c0..3347cc7 100644
--- a/cpp/src/io/copc_writer_public.cpp
+++ b/cpp/src/io/copc_writer_public.cpp
@@ -126,7 +126,7 @@ Node Writer::AddNode(const VoxelKey &key, std::vector<char> const &uncompressed_
 Node Writer::AddNodeCompressed(const VoxelKey &key, std::vector<char> const &compressed_data, int32_t point_count,
                                const VoxelKey &page_key)
 {
-    if (point_count == 0)
+    if (point_count <= 0)
         throw std::runtime_error("Point count must be >0!");
 
     return DoAddNode(key, compressed_data, point_count, true, page_key);
diff --git a/cpp/src/io/laz_writer.cpp b/cpp/src/io/laz_writer.cpp
index 509cfcc..5dc91ee 100644
--- a/cpp/src/io/laz_writer.cpp
+++ b/cpp/src/io/laz_writer.cpp
@@ -29,7 +29,7 @@ void LazWriter::WritePoints(const las::Points &points)
 // Write a group of points as a chunk
 void LazWriter::WritePointsCompressed(std::vector<char> const &compressed_data, int32_t point_count)
 {
-    if (point_count == 0)
+    if (point_count <= 0)
         throw std::runtime_error("Point count must be >0!");
 
     WriteChunk(compressed_data, point_count, true);
-- 
2.43.0


From 0467e1f5eafbcd6538295506ad6dcd3e204bf526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:53 +0000
Subject: [PATCH 09/45] fix: reject points added to a closed writer

---
 cpp/src/io/laz_base_writer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp/src/io/laz_base_writer.cpp b/cpp/src/io/laz_base_writer.cpp
index 501bb33..fabb2ba 100644
--- a/cpp/src/io/laz_base_writer.cpp
+++ b/cpp/src/io/laz_base_writer.cpp
@@ -112,6 +112,9 @@ void BaseWriter::WriteWKT()
 int32_t BaseWriter::WriteChunk(const std::vector<char> &in, int32_t point_count, bool compressed, uint64_t *offset,
                                int32_t *byte_size)
 {
+    if (!open_)
+        throw std::runtime_error("BaseWriter::WriteChunk: The writer is closed.");
+
     uint64_t startpos = out_stream_.tellp();
     if (startpos <= 0)
         throw std::runtime_error("BaseWriter::WriteChunk: Error while writing chunk!");
-- 
2.43.0


From 1843ca863ddd495d591ee46b5618ec2b47a485e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 10/45] fix: report output errors when adding points and when
 closing a file

---
 cpp/include/copc-lib/io/copc_writer.hpp       | 24 +++++++++++++++--
 .../io/internal/copc_writer_internal.hpp      | 12 ++++++++-
 cpp/include/copc-lib/io/laz_base_writer.hpp   | 14 +++++++++-
 cpp/include/copc-lib/io/laz_writer.hpp        | 12 ++++++++-
 cpp/src/io/copc_writer_internal.cpp           |  4 ++-
 cpp/src/io/laz_base_writer.cpp                | 27 +++++++++++++------
 6 files changed, 79 insertions(+), 14 deletions(-)

diff --git a/cpp/include/copc-lib/io/copc_writer.hpp b/cpp/include/copc-lib/io/copc_writer.hpp
index 482c1e7..4815fba 100644
--- a/cpp/include/copc-lib/io/copc_writer.hpp
+++ b/cpp/include/copc-lib/io/copc_writer.hpp
@@ -49,7 +49,17 @@ class Writer : public BaseIO
 
     std::shared_ptr<CopcConfigWriter> CopcConfig() { return config_; }
 
-    ~Writer() { Close(); }
+    ~Writer()
+    {
+        // A destructor can't report an error: call Close() to know that the file was written
+        try
+        {
+            Close();
+        }
+        catch (...)
+        {
+        }
+    }
 
   protected:
     Writer() = default;
@@ -89,7 +99,17 @@ class FileWriter : public Writer, laz::BaseFileWriter
     }
 
     void Close() override;
-    ~FileWriter() { Close(); }
+    ~FileWriter()
+    {
+        // A destructor can't report an error: call Close() to know that the file was written
+        try
+        {
+            Close();
+        }
+        catch (...)
+        {
+        }
+    }
 
     std::string FilePath() { return file_path_; }
 };
diff --git a/cpp/include/copc-lib/io/internal/copc_writer_internal.hpp b/cpp/include/copc-lib/io/internal/copc_writer_internal.hpp
index 8ca65fd..96704e3 100644
--- a/cpp/include/copc-lib/io/internal/copc_writer_internal.hpp
+++ b/cpp/include/copc-lib/io/internal/copc_writer_internal.hpp
@@ -20,7 +20,17 @@ class WriterInternal : laz::BaseWriter
     // Writes the header and COPC vlrs
     void Close() override;
     // Call close on destructor if needed
-    ~WriterInternal() { Close(); }
+    ~WriterInternal()
+    {
+        // A destructor can't report an error: call Close() to know that the file was written
+        try
+        {
+            Close();
+        }
+        catch (...)
+        {
+        }
+    }
 
     // Writes a chunk to the laz file
     Entry WriteNode(const std::vector<char> &in, int32_t point_count, bool compressed);
diff --git a/cpp/include/copc-lib/io/laz_base_writer.hpp b/cpp/include/copc-lib/io/laz_base_writer.hpp
index fb09a7a..72357d6 100644
--- a/cpp/include/copc-lib/io/laz_base_writer.hpp
+++ b/cpp/include/copc-lib/io/laz_base_writer.hpp
@@ -37,11 +37,23 @@ class BaseWriter
     void WriteLazAndEbVlrs();
     void WriteChunkTable();
     void WriteWKT();
+    // Throws if anything could not be written
+    void FlushOutput();
     virtual size_t OffsetToPointData() const;
     virtual void WriteHeader();
 
     virtual void Close();
-    ~BaseWriter() { Close(); }
+    ~BaseWriter()
+    {
+        // A destructor can't report an error: call Close() to know that the file was written
+        try
+        {
+            Close();
+        }
+        catch (...)
+        {
+        }
+    }
 
   protected:
     static const uint32_t VARIABLE_CHUNK_SIZE = std::numeric_limits<uint32_t>::max();
diff --git a/cpp/include/copc-lib/io/laz_writer.hpp b/cpp/include/copc-lib/io/laz_writer.hpp
index 1586a2e..a045ac5 100644
--- a/cpp/include/copc-lib/io/laz_writer.hpp
+++ b/cpp/include/copc-lib/io/laz_writer.hpp
@@ -51,7 +51,17 @@ class LazFileWriter : BaseFileWriter, public LazWriter
         LazWriter::Close();
         BaseFileWriter::Close();
     };
-    ~LazFileWriter() { Close(); };
+    ~LazFileWriter()
+    {
+        // A destructor can't report an error: call Close() to know that the file was written
+        try
+        {
+            Close();
+        }
+        catch (...)
+        {
+        }
+    }
 
     std::string FilePath() { return file_path_; }
 };
diff --git a/cpp/src/io/copc_writer_internal.cpp b/cpp/src/io/copc_writer_internal.cpp
index deab4e8..c321235 100644
--- a/cpp/src/io/copc_writer_internal.cpp
+++ b/cpp/src/io/copc_writer_internal.cpp
@@ -46,6 +46,8 @@ void WriterInternal::Close()
 {
     if (!open_)
         return;
+    // Whatever happens below, the file is only finished once
+    open_ = false;
 
     WriteChunkTable();
 
@@ -64,7 +66,7 @@ void WriterInternal::Close()
 
     WriteHeader();
 
-    open_ = false;
+    FlushOutput();
 }
 
 // Writes the LAS header and VLRs
diff --git a/cpp/src/io/laz_base_writer.cpp b/cpp/src/io/laz_base_writer.cpp
index fabb2ba..f87f24a 100644
--- a/cpp/src/io/laz_base_writer.cpp
+++ b/cpp/src/io/laz_base_writer.cpp
@@ -115,7 +115,7 @@ int32_t BaseWriter::WriteChunk(const std::vector<char> &in, int32_t point_count,
     if (!open_)
         throw std::runtime_error("BaseWriter::WriteChunk: The writer is closed.");
 
-    uint64_t startpos = out_stream_.tellp();
+    auto startpos = static_cast<int64_t>(out_stream_.tellp());
     if (startpos <= 0)
         throw std::runtime_error("BaseWriter::WriteChunk: Error while writing chunk!");
     if (offset != nullptr)
@@ -126,13 +126,12 @@ int32_t BaseWriter::WriteChunk(const std::vector<char> &in, int32_t point_count,
     else
         point_count = laz::Compressor::CompressBytes(out_stream_, config_->LasHeader(), in);
 
-    point_count_ += point_count;
-
-    uint64_t endpos = out_stream_.tellp();
+    auto endpos = static_cast<int64_t>(out_stream_.tellp());
     if (endpos <= 0)
         throw std::runtime_error("BaseWriter::WriteChunk: Error while writing chunk!");
 
-    chunks_.push_back(lazperf::chunk{static_cast<uint64_t>(point_count), endpos});
+    point_count_ += point_count;
+    chunks_.push_back(lazperf::chunk{static_cast<uint64_t>(point_count), static_cast<uint64_t>(endpos)});
 
     auto size = endpos - startpos;
     if (size > (std::numeric_limits<int32_t>::max)())
@@ -148,6 +147,8 @@ void BaseWriter::Close()
 {
     if (!open_)
         return;
+    // Whatever happens below, the file is only finished once
+    open_ = false;
 
     WriteChunkTable();
 
@@ -159,7 +160,14 @@ void BaseWriter::Close()
 
     WriteHeader();
 
-    open_ = false;
+    FlushOutput();
+}
+
+void BaseWriter::FlushOutput()
+{
+    out_stream_.flush();
+    if (!out_stream_.good())
+        throw std::runtime_error("BaseWriter::Close: Error while writing file!");
 }
 
 BaseFileWriter::BaseFileWriter(const std::string &file_path)
@@ -172,7 +180,10 @@ BaseFileWriter::BaseFileWriter(const std::string &file_path)
 
 void BaseFileWriter::Close()
 {
-    if (f_stream_.is_open())
-        f_stream_.close();
+    if (!f_stream_.is_open())
+        return;
+    f_stream_.close();
+    if (!f_stream_.good())
+        throw std::runtime_error("BaseFileWriter::Close: Error while closing file.");
 }
 } // namespace copc::laz
-- 
2.43.0


From bb0b63a8101d456fcc5a222af6efcfe14160bb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:29 +0000
Subject: [PATCH 11/45] fix: LazReader can read the points more than once

---
 cpp/src/io/laz_reader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpp/src/io/laz_reader.cpp b/cpp/src/io/laz_reader.cpp
index 6682656..deb84cb 100644
--- a/cpp/src/io/laz_reader.cpp
+++ b/cpp/src/io/laz_reader.cpp
@@ -5,6 +5,10 @@ namespace copc::laz
 std::vector<char> LazReader::GetPointData()
 {
     auto las_header = las_config_.LasHeader();
+    // The lazperf reader goes through the points once, start over for each call
+    in_stream_->clear();
+    in_stream_->seekg(0);
+    reader_ = std::make_unique<lazperf::reader::generic_file>(*in_stream_);
     // Seek to the end of the chunk table offset/start of the points
     in_stream_->seekg(las_header.PointOffset() + sizeof(int64_t));
 
-- 
2.43.0


From a68426498c1d0e703c63114338f1640262c3f5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:58 +0000
Subject: [PATCH 12/45] fix: reading past the end of a file must fail instead
 of returning partial or zero-filled data

---
 cpp/include/copc-lib/hierarchy/entry.hpp |  6 +++---
 cpp/include/copc-lib/io/base_reader.hpp  |  3 +++
 cpp/src/io/base_reader.cpp               | 16 ++++++++++++++--
 cpp/src/io/copc_reader.cpp               | 13 +++++++++++--
 4 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/cpp/include/copc-lib/hierarchy/entry.hpp b/cpp/include/copc-lib/hierarchy/entry.hpp
index cb4eaba..30013b8 100644
--- a/cpp/include/copc-lib/hierarchy/entry.hpp
+++ b/cpp/include/copc-lib/hierarchy/entry.hpp
@@ -56,11 +56,11 @@ class Entry
         in_stream.read(reinterpret_cast<char *>(&key.y), sizeof(key.y));
         in_stream.read(reinterpret_cast<char *>(&key.z), sizeof(key.z));
 
-        uint64_t offset;
+        uint64_t offset{};
         in_stream.read(reinterpret_cast<char *>(&offset), sizeof(offset));
-        int32_t size;
+        int32_t size{};
         in_stream.read(reinterpret_cast<char *>(&size), sizeof(size));
-        int32_t point_count;
+        int32_t point_count{};
         in_stream.read(reinterpret_cast<char *>(&point_count), sizeof(point_count));
 
         return Entry(key, offset, size, point_count);
diff --git a/cpp/include/copc-lib/io/base_reader.hpp b/cpp/include/copc-lib/io/base_reader.hpp
index 9e4d52a..e37a37b 100644
--- a/cpp/include/copc-lib/io/base_reader.hpp
+++ b/cpp/include/copc-lib/io/base_reader.hpp
@@ -30,6 +30,9 @@ class BaseReader
 
     std::unique_ptr<lazperf::reader::generic_file> reader_;
 
+    // Throws if the last read ran past the end of the file
+    void CheckStream() const;
+
     // Constructor helper function, initializes the file and hierarchy
     void InitReader();
     // Reads file VLRs and EVLRs into vlrs_
diff --git a/cpp/src/io/base_reader.cpp b/cpp/src/io/base_reader.cpp
index 9a5d2f1..d2b79f3 100644
--- a/cpp/src/io/base_reader.cpp
+++ b/cpp/src/io/base_reader.cpp
@@ -31,6 +31,12 @@ void BaseReader::InitReader()
     las_config_ = las::LazConfig(header, wkt.wkt, eb);
 }
 
+void BaseReader::CheckStream() const
+{
+    if (!in_stream_->good())
+        throw std::runtime_error("BaseReader: Unexpected end of file!");
+}
+
 std::map<uint64_t, las::VlrHeader> BaseReader::ReadVlrHeaders()
 {
     std::map<uint64_t, las::VlrHeader> out;
@@ -43,6 +49,7 @@ std::map<uint64_t, las::VlrHeader> BaseReader::ReadVlrHeaders()
     {
         uint64_t cur_pos = in_stream_->tellg();
         auto h = las::VlrHeader(lazperf::vlr_header::create(*in_stream_));
+        CheckStream();
         out.insert({cur_pos, h});
 
         in_stream_->seekg(h.data_length, std::ios::cur); // jump foward
@@ -56,6 +63,7 @@ std::map<uint64_t, las::VlrHeader> BaseReader::ReadVlrHeaders()
     {
         uint64_t cur_pos = in_stream_->tellg();
         auto h = las::VlrHeader(lazperf::evlr_header::create(*in_stream_));
+        CheckStream();
         out.insert({cur_pos, h});
 
         in_stream_->seekg(h.data_length, std::ios::cur); // jump foward
@@ -69,7 +77,9 @@ las::WktVlr BaseReader::ReadWktVlr(std::map<uint64_t, las::VlrHeader> &vlrs)
     if (offset != 0)
     {
         in_stream_->seekg(offset + las::EVLR_HEADER_SIZE);
-        return las::WktVlr::create(*in_stream_, static_cast<int>(vlrs[offset].data_length));
+        auto wkt = las::WktVlr::create(*in_stream_, static_cast<int>(vlrs[offset].data_length));
+        CheckStream();
+        return wkt;
     }
     return las::WktVlr();
 }
@@ -80,7 +90,9 @@ las::EbVlr BaseReader::ReadExtraBytesVlr(std::map<uint64_t, las::VlrHeader> &vlr
     if (offset != 0)
     {
         in_stream_->seekg(offset + las::VLR_HEADER_SIZE);
-        return las::EbVlr::create(*in_stream_, static_cast<int>(vlrs[offset].data_length));
+        auto eb = las::EbVlr::create(*in_stream_, static_cast<int>(vlrs[offset].data_length));
+        CheckStream();
+        return eb;
     }
     return las::EbVlr();
 }
diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index a18e7b4..cdf1566 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -38,7 +38,9 @@ CopcInfo Reader::ReadCopcInfoVlr(std::map<uint64_t, las::VlrHeader> &vlrs)
                                  "offset 375 as per COPC specs.");
 
     in_stream_->seekg(offset + las::VLR_HEADER_SIZE);
-    return lazperf::copc_info_vlr::create(*in_stream_);
+    auto copc_info_vlr = lazperf::copc_info_vlr::create(*in_stream_);
+    CheckStream();
+    return copc_info_vlr;
 }
 
 CopcExtents Reader::ReadCopcExtentsVlr(std::map<uint64_t, las::VlrHeader> &vlrs, const las::EbVlr &eb_vlr) const
@@ -51,6 +53,7 @@ CopcExtents Reader::ReadCopcExtentsVlr(std::map<uint64_t, las::VlrHeader> &vlrs,
         CopcExtents extents(las::CopcExtentsVlr::create(*in_stream_, static_cast<int>(vlrs[offset].data_length)),
                             static_cast<int8_t>(reader_->header().point_format_id),
                             static_cast<uint16_t>(eb_vlr.items.size()), extended_offset != 0);
+        CheckStream();
 
         // Load mean/var if they exist
         if (extended_offset != 0)
@@ -58,6 +61,7 @@ CopcExtents Reader::ReadCopcExtentsVlr(std::map<uint64_t, las::VlrHeader> &vlrs,
             in_stream_->seekg(extended_offset + las::VLR_HEADER_SIZE);
             extents.SetExtendedStats(
                 las::CopcExtentsVlr::create(*in_stream_, static_cast<int>(vlrs[extended_offset].data_length)));
+            CheckStream();
         }
         return extents;
     }
@@ -74,6 +78,7 @@ std::vector<Entry> Reader::ReadPage(std::shared_ptr<Internal::PageInternal> page
         throw std::runtime_error("Reader::ReadPage: Cannot load an invalid page.");
 
     // reset the stream to the page's offset
+    in_stream_->clear();
     in_stream_->seekg(page->offset);
 
     // Iterate through each Entry in the page
@@ -81,6 +86,7 @@ std::vector<Entry> Reader::ReadPage(std::shared_ptr<Internal::PageInternal> page
     for (int i = 0; i < num_entries; i++)
     {
         Entry e = Entry::Unpack(*in_stream_);
+        CheckStream();
         if (!e.IsValid())
             throw std::runtime_error("Entry is invalid! " + e.ToString());
 
@@ -112,6 +118,7 @@ std::vector<char> Reader::GetPointData(Node const &node)
     if (!node.IsValid())
         throw std::runtime_error("Reader::GetPointData: Cannot load an invalid node.");
 
+    in_stream_->clear();
     in_stream_->seekg(node.offset);
 
     auto las_header = config_.LasHeader();
@@ -137,11 +144,13 @@ std::vector<char> Reader::GetPointDataCompressed(Node const &node)
     if (!node.IsValid())
         throw std::runtime_error("Reader::GetPointDataCompressed: Cannot load an invalid node.");
 
+    in_stream_->clear();
     in_stream_->seekg(node.offset);
 
     std::vector<char> out;
     out.resize(node.byte_size);
-    in_stream_->read(&out[0], node.byte_size);
+    in_stream_->read(out.data(), node.byte_size);
+    CheckStream();
     return out;
 }
 
-- 
2.43.0


From 46739670603bcbb2b0114f668dee488d66046b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:48 +0000
Subject: [PATCH 13/45] fix: read WKT, extra bytes and extents from VLRs and
 EVLRs alike

---
 cpp/include/copc-lib/io/base_reader.hpp | 2 ++
 cpp/src/io/base_reader.cpp              | 9 +++++++--
 cpp/src/io/copc_reader.cpp              | 4 ++--
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/cpp/include/copc-lib/io/base_reader.hpp b/cpp/include/copc-lib/io/base_reader.hpp
index e37a37b..f7925eb 100644
--- a/cpp/include/copc-lib/io/base_reader.hpp
+++ b/cpp/include/copc-lib/io/base_reader.hpp
@@ -40,6 +40,8 @@ class BaseReader
     // Fetchs the map key for a query vlr user and record IDs
     static uint64_t FetchVlr(const std::map<uint64_t, las::VlrHeader> &vlrs, const std::string &user_id,
                              uint16_t record_id);
+    // Size of a record's header in the file, after which its data starts
+    static uint32_t VlrHeaderSize(const las::VlrHeader &header);
 
     // Finds and loads the WKT vlr
     las::WktVlr ReadWktVlr(std::map<uint64_t, las::VlrHeader> &vlrs);
diff --git a/cpp/src/io/base_reader.cpp b/cpp/src/io/base_reader.cpp
index d2b79f3..79f5fbb 100644
--- a/cpp/src/io/base_reader.cpp
+++ b/cpp/src/io/base_reader.cpp
@@ -76,7 +76,7 @@ las::WktVlr BaseReader::ReadWktVlr(std::map<uint64_t, las::VlrHeader> &vlrs)
     auto offset = FetchVlr(vlrs, "LASF_Projection", 2112);
     if (offset != 0)
     {
-        in_stream_->seekg(offset + las::EVLR_HEADER_SIZE);
+        in_stream_->seekg(offset + VlrHeaderSize(vlrs.at(offset)));
         auto wkt = las::WktVlr::create(*in_stream_, static_cast<int>(vlrs[offset].data_length));
         CheckStream();
         return wkt;
@@ -89,7 +89,7 @@ las::EbVlr BaseReader::ReadExtraBytesVlr(std::map<uint64_t, las::VlrHeader> &vlr
     auto offset = FetchVlr(vlrs, "LASF_Spec", 4);
     if (offset != 0)
     {
-        in_stream_->seekg(offset + las::VLR_HEADER_SIZE);
+        in_stream_->seekg(offset + VlrHeaderSize(vlrs.at(offset)));
         auto eb = las::EbVlr::create(*in_stream_, static_cast<int>(vlrs[offset].data_length));
         CheckStream();
         return eb;
@@ -108,4 +108,9 @@ uint64_t BaseReader::FetchVlr(const std::map<uint64_t, las::VlrHeader> &vlrs, co
     return 0;
 }
 
+uint32_t BaseReader::VlrHeaderSize(const las::VlrHeader &header)
+{
+    return header.evlr_flag ? las::EVLR_HEADER_SIZE : las::VLR_HEADER_SIZE;
+}
+
 } // namespace copc
diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index cdf1566..8b48048 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -49,7 +49,7 @@ CopcExtents Reader::ReadCopcExtentsVlr(std::map<uint64_t, las::VlrHeader> &vlrs,
     auto extended_offset = FetchVlr(vlrs, "rock_robotic", 10001);
     if (offset != 0)
     {
-        in_stream_->seekg(offset + las::VLR_HEADER_SIZE);
+        in_stream_->seekg(offset + VlrHeaderSize(vlrs.at(offset)));
         CopcExtents extents(las::CopcExtentsVlr::create(*in_stream_, static_cast<int>(vlrs[offset].data_length)),
                             static_cast<int8_t>(reader_->header().point_format_id),
                             static_cast<uint16_t>(eb_vlr.items.size()), extended_offset != 0);
@@ -58,7 +58,7 @@ CopcExtents Reader::ReadCopcExtentsVlr(std::map<uint64_t, las::VlrHeader> &vlrs,
         // Load mean/var if they exist
         if (extended_offset != 0)
         {
-            in_stream_->seekg(extended_offset + las::VLR_HEADER_SIZE);
+            in_stream_->seekg(extended_offset + VlrHeaderSize(vlrs.at(extended_offset)));
             extents.SetExtendedStats(
                 las::CopcExtentsVlr::create(*in_stream_, static_cast<int>(vlrs[extended_offset].data_length)));
             CheckStream();
-- 
2.43.0


From 7eab2c3714a6c6d66b270174d1ad81bd4a2557c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:49 +0000
Subject: [PATCH 14/45] fix: default extents of a file without extents VLR
 cover its extra bytes

---
 cpp/src/io/copc_reader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index 8b48048..0220d18 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -67,7 +67,8 @@ CopcExtents Reader::ReadCopcExtentsVlr(std::map<uint64_t, las::VlrHeader> &vlrs,
     }
     else
     {
-        return CopcExtents(reader_->header().point_format_id);
+        return CopcExtents(static_cast<int8_t>(reader_->header().point_format_id),
+                           static_cast<uint16_t>(eb_vlr.items.size()));
     }
 }
 
-- 
2.43.0


From f061e955cd8b09ed8f8090690dead969dbb43fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:04 +0000
Subject: [PATCH 15/45] fix: a LAZ reader's header says whether the file is
 COPC

---
 cpp/src/io/base_reader.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp/src/io/base_reader.cpp b/cpp/src/io/base_reader.cpp
index 79f5fbb..78a8a58 100644
--- a/cpp/src/io/base_reader.cpp
+++ b/cpp/src/io/base_reader.cpp
@@ -28,7 +28,9 @@ void BaseReader::InitReader()
     auto wkt = ReadWktVlr(vlrs_);
     auto eb = ReadExtraBytesVlr(vlrs_);
 
-    las_config_ = las::LazConfig(header, wkt.wkt, eb);
+    // The file is COPC if it has the info VLR
+    bool is_copc = FetchVlr(vlrs_, "copc", 1) != 0;
+    las_config_ = las::LazConfig(las::LasHeader(header, is_copc), wkt.wkt, eb);
 }
 
 void BaseReader::CheckStream() const
-- 
2.43.0


From 5bb5b2f4daa8686ddd7761cb4393fa03593e6662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:36 +0000
Subject: [PATCH 16/45] fix: list a page's nodes even when its own node is
 stored further up and the page was not loaded yet

---
 cpp/src/io/copc_reader.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index 0220d18..ea12087 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -176,6 +176,14 @@ std::vector<Node> Reader::GetAllChildrenOfPage(const VoxelKey &key)
 
     // Load all pages upto the current key
     auto node = FindNode(key);
+    // The node can be stored in a page above the key's own page, so go down until no page is left to load
+    auto parents_list = key.GetParents(true);
+    auto nearest_page = hierarchy_->NearestLoadedPage(parents_list);
+    while (nearest_page != nullptr && !nearest_page->loaded && nearest_page->key != key)
+    {
+        ReadAndParsePage(nearest_page);
+        nearest_page = hierarchy_->NearestLoadedPage(parents_list);
+    }
     // If a page with this key doesn't exist, check if the node itself exists and return it
     if (!hierarchy_->PageExists(key))
     {
-- 
2.43.0


From 19cdd73d71830374ac683e7d8380abddb027ea10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:03 +0000
Subject: [PATCH 17/45] fix: reject extra bytes of an unknown data type instead
 of reading past the size table

---
 cpp/src/las/vlr.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cpp/src/las/vlr.cpp b/cpp/src/las/vlr.cpp
index f3c1f4a..4e52ca0 100644
--- a/cpp/src/las/vlr.cpp
+++ b/cpp/src/las/vlr.cpp
@@ -1,4 +1,7 @@
 #include "copc-lib/las/vlr.hpp"
+
+#include <stdexcept>
+
 #include "copc-lib/las/utils.hpp"
 
 namespace copc::las
@@ -14,6 +17,8 @@ int NumBytesFromExtraBytes(const std::vector<EbVlr::ebfield> &items)
     {
         if (item.data_type == 0)
             out += item.options;
+        else if (item.data_type > 30)
+            throw std::runtime_error("NumBytesFromExtraBytes: Extra bytes data type must be 0-30.");
         else
             out += EXTRA_BYTE_DATA_TYPE[item.data_type];
     }
-- 
2.43.0


From 04a2274476660453c9ecd843826b753ef3de9d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:03 +0000
Subject: [PATCH 18/45] fix: reject files whose record length is shorter than
 their point format

---
 cpp/src/las/header.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp/src/las/header.cpp b/cpp/src/las/header.cpp
index 85472d4..4edd083 100644
--- a/cpp/src/las/header.cpp
+++ b/cpp/src/las/header.cpp
@@ -74,6 +74,8 @@ LasHeader LasHeader::FromLazPerf(const lazperf::header14 &header)
         throw std::runtime_error("LasHeader::FromLazPerf: Supported point formats are 6 to 8.");
     h.point_format_id_ = static_cast<int8_t>(header.point_format_id);
     h.point_record_length_ = header.point_record_length;
+    if (h.point_record_length_ < PointBaseByteSize(h.point_format_id_))
+        throw std::runtime_error("LasHeader::FromLazPerf: Point record length is too short for the point format.");
     std::copy(std::begin(header.points_by_return), std::end(header.points_by_return), std::begin(h.points_by_return));
     h.scale_.x = header.scale.x;
     h.scale_.y = header.scale.y;
-- 
2.43.0


From 8b0b1728cfa0acac680d9f36bf47de1ed6382325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:03 +0000
Subject: [PATCH 19/45] fix: a hierarchy that lists a page twice, or within
 itself, must not be followed forever

---
 cpp/src/io/copc_base_io.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cpp/src/io/copc_base_io.cpp b/cpp/src/io/copc_base_io.cpp
index 2aea847..074b04d 100644
--- a/cpp/src/io/copc_base_io.cpp
+++ b/cpp/src/io/copc_base_io.cpp
@@ -2,6 +2,8 @@
 #include "copc-lib/hierarchy/internal/hierarchy.hpp"
 #include "copc-lib/hierarchy/internal/page.hpp"
 
+#include <stdexcept>
+
 namespace copc
 {
 
@@ -56,6 +58,13 @@ void BaseIO::ReadAndParsePage(const std::shared_ptr<Internal::PageInternal> &pag
     {
         if (e.IsPage())
         {
+            // A page entered twice would be read again and again
+            if (hierarchy_->PageExists(e.key))
+            {
+                page->loaded = false;
+                throw std::runtime_error("BaseIO::ReadAndParsePage: Page " + e.key.ToString() +
+                                         " is listed more than once in the hierarchy.");
+            }
             auto subpage = std::make_shared<Internal::PageInternal>(e);
             hierarchy_->seen_pages_[e.key] = subpage;
             page->sub_pages.insert(subpage);
-- 
2.43.0


From eddec10357407d9cab442511bf7e4a09dc51757e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:23 +0000
Subject: [PATCH 20/45] fix: an EVLR with a length beyond any file must not
 make a reader go round in circles

---
 cpp/src/io/base_reader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpp/src/io/base_reader.cpp b/cpp/src/io/base_reader.cpp
index 78a8a58..5f42871 100644
--- a/cpp/src/io/base_reader.cpp
+++ b/cpp/src/io/base_reader.cpp
@@ -2,6 +2,7 @@
 
 #include <iomanip>
 #include <iostream>
+#include <limits>
 #include <stdexcept>
 
 #include "copc-lib/copc/copc_config.hpp"
@@ -66,6 +67,9 @@ std::map<uint64_t, las::VlrHeader> BaseReader::ReadVlrHeaders()
         uint64_t cur_pos = in_stream_->tellg();
         auto h = las::VlrHeader(lazperf::evlr_header::create(*in_stream_));
         CheckStream();
+        // a length beyond any file would lead backwards
+        if (h.data_length > static_cast<uint64_t>(std::numeric_limits<int64_t>::max()))
+            throw std::runtime_error("BaseReader: Invalid EVLR length!");
         out.insert({cur_pos, h});
 
         in_stream_->seekg(h.data_length, std::ios::cur); // jump foward
-- 
2.43.0


From 77e6ce731f00edce4db2aed5b1eb064dba432172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:34 +0000
Subject: [PATCH 21/45] fix: pages nested deeper than the stack must not crash
 a reader

---
 .../copc-lib/hierarchy/internal/hierarchy.hpp |  7 +++
 cpp/src/io/copc_base_io.cpp                   | 61 +++++++++++--------
 2 files changed, 43 insertions(+), 25 deletions(-)

diff --git a/cpp/include/copc-lib/hierarchy/internal/hierarchy.hpp b/cpp/include/copc-lib/hierarchy/internal/hierarchy.hpp
index e5ea74a..d90f09b 100644
--- a/cpp/include/copc-lib/hierarchy/internal/hierarchy.hpp
+++ b/cpp/include/copc-lib/hierarchy/internal/hierarchy.hpp
@@ -29,6 +29,13 @@ class Hierarchy
             std::make_shared<PageInternal>(VoxelKey::RootKey(), root_hier_offset, root_hier_size);
     };
 
+    ~Hierarchy()
+    {
+        // Without this, destroying a page would destroy its subpages within it, which can be nested too deeply for that
+        for (auto &page : seen_pages_)
+            page.second->sub_pages.clear();
+    }
+
     // Find the lowest depth page that has been seen within a hierarchy list
     std::shared_ptr<PageInternal> NearestLoadedPage(const std::vector<VoxelKey> &parents_list)
     {
diff --git a/cpp/src/io/copc_base_io.cpp b/cpp/src/io/copc_base_io.cpp
index 074b04d..016b4bd 100644
--- a/cpp/src/io/copc_base_io.cpp
+++ b/cpp/src/io/copc_base_io.cpp
@@ -10,44 +10,55 @@ namespace copc
 // Find a node object given a key
 Node BaseIO::FindNode(VoxelKey key)
 {
-    // Check if the entry has already been loaded
-    if (hierarchy_->loaded_nodes_.find(key) != hierarchy_->loaded_nodes_.end())
-    {
-        return *hierarchy_->loaded_nodes_[key];
-    }
-
     // Get a list of the key's hierarchial parents, so we can see if any of them are loaded
     auto parents_list = key.GetParents(true);
 
-    // Find if of the key's ancestors have been seen
-    std::shared_ptr<Internal::PageInternal> nearest_page = hierarchy_->NearestLoadedPage(parents_list);
-    // If none of the key's ancestors exist, then this key doesn't exist in the hierarchy
-    // Or, if the nearest ancestor has already been loaded, that means the key isn't a node within that page.
-    if (nearest_page == nullptr || nearest_page->loaded)
-        return {};
+    for (;;)
+    {
+        // Check if the entry has already been loaded
+        if (hierarchy_->loaded_nodes_.find(key) != hierarchy_->loaded_nodes_.end())
+        {
+            return *hierarchy_->loaded_nodes_[key];
+        }
 
-    // Load the page and add the subpages and page nodes
-    ReadAndParsePage(nearest_page);
+        // Find if of the key's ancestors have been seen
+        std::shared_ptr<Internal::PageInternal> nearest_page = hierarchy_->NearestLoadedPage(parents_list);
+        // If none of the key's ancestors exist, then this key doesn't exist in the hierarchy
+        // Or, if the nearest ancestor has already been loaded, that means the key isn't a node within that page.
+        if (nearest_page == nullptr || nearest_page->loaded)
+            return {};
 
-    // Try to find the key again
-    return FindNode(key);
+        // Load the page and add the subpages and page nodes, then try to find the key again
+        ReadAndParsePage(nearest_page);
+    }
 }
 
 void BaseIO::LoadPageHierarchy(const std::shared_ptr<Internal::PageInternal> &page, std::vector<Node> &loaded_nodes)
 {
-    if (!page->IsValid())
-        return;
+    // Pages can be nested deeper than a recursion could follow them
+    std::vector<std::shared_ptr<Internal::PageInternal>> pages;
+    std::vector<std::shared_ptr<Internal::PageInternal>> remaining{page};
+    while (!remaining.empty())
+    {
+        auto current = remaining.back();
+        remaining.pop_back();
+        if (!current->IsValid())
+            continue;
 
-    if (!page->loaded)
-        ReadAndParsePage(page);
+        if (!current->loaded)
+            ReadAndParsePage(current);
 
-    for (const auto &sub_page : page->sub_pages)
-    {
-        LoadPageHierarchy(sub_page, loaded_nodes);
+        pages.push_back(current);
+        remaining.insert(remaining.end(), current->sub_pages.begin(), current->sub_pages.end());
     }
-    for (const auto &node : page->nodes)
+
+    // The nodes of a page come after those of its subpages
+    for (auto it = pages.rbegin(); it != pages.rend(); ++it)
     {
-        loaded_nodes.push_back(*node.second);
+        for (const auto &node : (*it)->nodes)
+        {
+            loaded_nodes.push_back(*node.second);
+        }
     }
 }
 
-- 
2.43.0


From 4a68b4dd11af17100544fc30253256431141f510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:17 +0000
Subject: [PATCH 22/45] fix: read full-length identifiers and GUIDs with zeros
 from headers

---
 cpp/src/las/header.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/cpp/src/las/header.cpp b/cpp/src/las/header.cpp
index 4edd083..4e8b50a 100644
--- a/cpp/src/las/header.cpp
+++ b/cpp/src/las/header.cpp
@@ -1,5 +1,6 @@
 #include "copc-lib/las/header.hpp"
 
+#include <algorithm>
 #include <cstring>
 #include <limits>
 #include <stdexcept>
@@ -58,11 +59,15 @@ LasHeader LasHeader::FromLazPerf(const lazperf::header14 &header)
     if (!(header.global_encoding & 0x10))
         throw std::runtime_error("LasHeader::FromLazPerf: WKT bit must be set.");
     h.global_encoding = header.global_encoding;
-    h.guid_ = header.guid;
+    // The arrays have no terminator when they are full, and a GUID may have zeros within
+    h.guid_.assign(header.guid, sizeof(header.guid));
+    h.guid_.erase(h.guid_.find_last_not_of('\0') + 1);
     if (header.version.major != 1 || header.version.minor != 4)
         throw std::runtime_error("LasHeader::FromLazPerf: Header version needs to be 1.4");
-    h.system_identifier_ = header.system_identifier;
-    h.generating_software_ = header.generating_software;
+    h.system_identifier_.assign(header.system_identifier,
+                                strnlen(header.system_identifier, sizeof(header.system_identifier)));
+    h.generating_software_.assign(header.generating_software,
+                                  strnlen(header.generating_software, sizeof(header.generating_software)));
     h.creation_day = header.creation.day;
     h.creation_year = header.creation.year;
     if (header.header_size != HEADER_SIZE_BYTES)
@@ -104,7 +109,8 @@ lazperf::header14 LasHeader::ToLazPerf(uint32_t point_offset, uint64_t point_cou
     h.file_source_id = file_source_id;
     h.global_encoding = global_encoding;
     h.global_encoding |= (1 << 4); // Set the WKT bit.
-    std::strncpy(h.guid, guid_.c_str(), 16);
+    std::memset(h.guid, 0, sizeof(h.guid));
+    std::memcpy(h.guid, guid_.data(), (std::min)(guid_.size(), sizeof(h.guid)));
     h.version.major = version_major_;
     h.version.minor = version_minor_;
     std::strncpy(h.system_identifier, system_identifier_.c_str(), 32);
-- 
2.43.0


From 97546cdbac9c7986ff68e9adb07a9fb4ba85ba36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:33 +0000
Subject: [PATCH 23/45] fix: copies of a configuration must not share header,
 extra bytes, info and extents with the original

---
 cpp/include/copc-lib/copc/copc_config.hpp | 16 ++++++++++++++++
 cpp/include/copc-lib/las/laz_config.hpp   | 15 +++++++++++++++
 2 files changed, 31 insertions(+)

diff --git a/cpp/include/copc-lib/copc/copc_config.hpp b/cpp/include/copc-lib/copc/copc_config.hpp
index 5bd503b..cd4c760 100644
--- a/cpp/include/copc-lib/copc/copc_config.hpp
+++ b/cpp/include/copc-lib/copc/copc_config.hpp
@@ -30,6 +30,22 @@ class CopcConfig : public las::LazConfig
           copc_info_(std::make_shared<copc::CopcInfo>(copc_info)),
           copc_extents_(std::make_shared<copc::CopcExtents>(copc_extents)){};
 
+    // Copies never share their elements, which can be changed through a CopcConfigWriter
+    CopcConfig(const CopcConfig &other)
+        : LazConfig(static_cast<const LazConfig &>(other)),
+          copc_info_(other.copc_info_ ? std::make_shared<copc::CopcInfo>(*other.copc_info_) : nullptr),
+          copc_extents_(other.copc_extents_ ? std::make_shared<copc::CopcExtents>(*other.copc_extents_) : nullptr)
+    {
+    }
+    CopcConfig &operator=(const CopcConfig &other)
+    {
+        CopcConfig copy(other);
+        LazConfig::operator=(copy);
+        copc_info_.swap(copy.copc_info_);
+        copc_extents_.swap(copy.copc_extents_);
+        return *this;
+    }
+
     virtual copc::CopcInfo CopcInfo() const { return *copc_info_; }
 
     virtual copc::CopcExtents CopcExtents() const { return *copc_extents_; }
diff --git a/cpp/include/copc-lib/las/laz_config.hpp b/cpp/include/copc-lib/las/laz_config.hpp
index 3686ec8..d06fc22 100644
--- a/cpp/include/copc-lib/las/laz_config.hpp
+++ b/cpp/include/copc-lib/las/laz_config.hpp
@@ -26,6 +26,21 @@ class LazConfig
         eb_vlr_ = std::make_shared<las::EbVlr>(extra_bytes_vlr);
     }
 
+    // Copies never share their elements, which can be changed through a LazConfigWriter
+    LazConfig(const LazConfig &other)
+        : header_(other.header_ ? std::make_shared<las::LasHeader>(*other.header_) : nullptr), wkt_(other.wkt_),
+          eb_vlr_(other.eb_vlr_ ? std::make_shared<las::EbVlr>(*other.eb_vlr_) : nullptr)
+    {
+    }
+    LazConfig &operator=(const LazConfig &other)
+    {
+        LazConfig copy(other);
+        header_.swap(copy.header_);
+        wkt_.swap(copy.wkt_);
+        eb_vlr_.swap(copy.eb_vlr_);
+        return *this;
+    }
+
     virtual las::LasHeader LasHeader() const { return *header_; }
 
     std::string Wkt() const { return wkt_; }
-- 
2.43.0


From 76459cd46359f62dc41c25fdd658652d9af62d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:33 +0000
Subject: [PATCH 24/45] fix: extents made from other extents must not share
 their entries

---
 cpp/include/copc-lib/copc/extents.hpp | 10 ++++++++++
 cpp/src/copc/extents.cpp              | 14 +++++++-------
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/cpp/include/copc-lib/copc/extents.hpp b/cpp/include/copc-lib/copc/extents.hpp
index 4c7ba3e..b5bcad9 100644
--- a/cpp/include/copc-lib/copc/extents.hpp
+++ b/cpp/include/copc-lib/copc/extents.hpp
@@ -59,6 +59,16 @@ class CopcExtents
     // Copy constructor
     CopcExtents(const CopcExtents &other);
 
+    // Copy assignment, like the copy constructor it doesn't share the extents
+    CopcExtents &operator=(const CopcExtents &other)
+    {
+        CopcExtents copy(other);
+        point_format_id_ = copy.point_format_id_;
+        has_extended_stats_ = copy.has_extended_stats_;
+        extents_.swap(copy.extents_);
+        return *this;
+    }
+
     // Copy constructor with updated protected attributes
     CopcExtents(const CopcExtents &other, int8_t point_format_id, uint16_t num_eb_items, bool has_extended_stats);
 
diff --git a/cpp/src/copc/extents.cpp b/cpp/src/copc/extents.cpp
index c2cb88a..16a337c 100644
--- a/cpp/src/copc/extents.cpp
+++ b/cpp/src/copc/extents.cpp
@@ -74,19 +74,19 @@ CopcExtents::CopcExtents(const CopcExtents &other, int8_t point_format_id, uint1
 {
     // Copy generic extents
     for (int i{0}; i <= 13; i++)
-        extents_[i] = other.extents_[i];
+        extents_[i] = std::make_shared<CopcExtent>(*other.extents_[i]);
 
     // Copy RGB
     if (point_format_id > 6 && other.point_format_id_ > 6)
     {
-        extents_[14] = other.extents_[14];
-        extents_[15] = other.extents_[15];
-        extents_[16] = other.extents_[16];
+        extents_[14] = std::make_shared<CopcExtent>(*other.extents_[14]);
+        extents_[15] = std::make_shared<CopcExtent>(*other.extents_[15]);
+        extents_[16] = std::make_shared<CopcExtent>(*other.extents_[16]);
     }
 
     // Copy NIR
     if (point_format_id == 8 && other.point_format_id_ == 8)
-        extents_[17] = other.extents_[17];
+        extents_[17] = std::make_shared<CopcExtent>(*other.extents_[17]);
 
     // Copy EBs
     auto other_num_eb = other.NumberOfExtents() - PointBaseNumberExtents(other.PointFormatId());
@@ -97,8 +97,8 @@ CopcExtents::CopcExtents(const CopcExtents &other, int8_t point_format_id, uint1
     else
     {
         for (int i{0}; i < num_eb_items; i++)
-            extents_[PointBaseNumberExtents(point_format_id_) + i] =
-                other.extents_[PointBaseNumberExtents(other.PointFormatId()) + i];
+            extents_[PointBaseNumberExtents(point_format_id_) + i] = std::make_shared<CopcExtent>(
+                *other.extents_[PointBaseNumberExtents(other.PointFormatId()) + i]);
     }
 }
 
-- 
2.43.0


From 0c4e7a2247bf0da8fec3c3708a74173dd01db10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:34 +0000
Subject: [PATCH 25/45] fix: reject a negative variance in an extent made from
 a list

---
 cpp/src/copc/extents.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp/src/copc/extents.cpp b/cpp/src/copc/extents.cpp
index 16a337c..025940e 100644
--- a/cpp/src/copc/extents.cpp
+++ b/cpp/src/copc/extents.cpp
@@ -26,6 +26,8 @@ CopcExtent::CopcExtent(const std::vector<double> &vec)
 
     if (vec.size() == 4)
     {
+        if (vec[3] < 0)
+            throw std::runtime_error("CopcExtent: Variance must be >= 0.");
         mean = vec[2];
         var = vec[3];
     }
-- 
2.43.0


From 03a1745126e8afe440ade58db331a110a9636aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:51 +0000
Subject: [PATCH 26/45] fix: reading the coordinates of no nodes must give an
 empty array

---
 python/copclib/mp/read.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/copclib/mp/read.py b/python/copclib/mp/read.py
index e2a90df..00b242a 100644
--- a/python/copclib/mp/read.py
+++ b/python/copclib/mp/read.py
@@ -189,6 +189,10 @@ def read_concat_xyz_class_limit(
         **kwargs,
     )
 
+    # There may not have been any nodes to read
+    if len(all_xyz) == 0:
+        return np.empty((0, 3))
+
     # Concatenate all the points in the end, and return one large array of
     # all the points in the file
     return np.concatenate(all_xyz)
-- 
2.43.0


From 74527bd0b458c81a770a20ff189d6ff0a4649d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:51 +0000
Subject: [PATCH 27/45] fix: bounds of transformed points must be those of the
 points as written

---
 python/copclib/mp/transform.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/python/copclib/mp/transform.py b/python/copclib/mp/transform.py
index cc2a00b..5992b17 100644
--- a/python/copclib/mp/transform.py
+++ b/python/copclib/mp/transform.py
@@ -209,14 +209,19 @@ def _transform_node(
         points = ret
         return_vals = {}
 
+    point_count = len(points)
+    # Repack the points using the new writer header
+    packed_points = points.Pack(writer_header)
+
     # compute the minimum and maximum of the node's points, if necessary
     xyz_min = None
     xyz_max = None
-    if update_minmax and len(points) > 0:
+    if update_minmax and point_count > 0:
+        # Packing rounds the coordinates, so use the ones that will be written
+        points = copc.Points.Unpack(packed_points, writer_header)
         xyz_min = [min(points.x), min(points.y), min(points.z)]
         xyz_max = [max(points.x), max(points.y), max(points.z)]
 
-    point_count = len(points)
-    # Repack and compress the points using the new writer header
-    compressed_points = copc.CompressBytes(points.Pack(writer_header), writer_header)
+    # Compress the points
+    compressed_points = copc.CompressBytes(packed_points, writer_header)
     return compressed_points, node, point_count, xyz_min, xyz_max, return_vals
-- 
2.43.0


From 11f1eb18e48fd3f0d35f5edbe94755a5e1b71067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:51 +0000
Subject: [PATCH 28/45] fix: headers whose GUID or identifiers are not UTF-8
 must be picklable

---
 python/bindings.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/bindings.cpp b/python/bindings.cpp
index 8d60588..da3ecd1 100644
--- a/python/bindings.cpp
+++ b/python/bindings.cpp
@@ -506,8 +506,9 @@ PYBIND11_MODULE(_core, m)
         .def(py::pickle(
             [](const las::LasHeader &h) { // __getstate__
                 /* Return a tuple that fully encodes the state of the object */
-                return py::make_tuple(h.file_source_id, h.global_encoding, h.GUID(), h.SystemIdentifier(),
-                                      h.GeneratingSoftware(), h.creation_day, h.creation_year, h.PointOffset(),
+                /* The identifiers may not be valid UTF-8 */
+                return py::make_tuple(h.file_source_id, h.global_encoding, py::bytes(h.GUID()),
+                                      py::bytes(h.SystemIdentifier()), py::bytes(h.GeneratingSoftware()), h.creation_day, h.creation_year, h.PointOffset(),
                                       h.VlrCount(), h.PointFormatId(), h.PointRecordLength(), h.Scale(), h.Offset(),
                                       h.max, h.min, h.EvlrOffset(), h.EvlrCount(), h.PointCount(), h.points_by_return,
                                       h.IsCopc());
-- 
2.43.0


From 239e6929b709848aff9f6111120d12c2e48f9fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:51 +0000
Subject: [PATCH 29/45] fix: an empty slice of points must be empty points

---
 python/bindings.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/python/bindings.cpp b/python/bindings.cpp
index da3ecd1..30582ab 100644
--- a/python/bindings.cpp
+++ b/python/bindings.cpp
@@ -351,17 +351,16 @@ PYBIND11_MODULE(_core, m)
                  if (!slice.compute(s.Size(), &start, &stop, &step, &slicelength))
                      throw py::error_already_set();
 
-                 std::vector<std::shared_ptr<las::Point>> new_points;
-                 new_points.reserve(slicelength);
+                 auto seq = std::make_unique<las::Points>(s.PointFormatId(), s.EbByteSize());
+                 seq->Reserve(slicelength);
 
                  for (size_t i = 0; i < slicelength; ++i)
                  {
-                     new_points.push_back(s[start]);
+                     seq->AddPoint(s[start]);
                      start += step;
                  }
 
-                 auto *seq = new las::Points(new_points);
-                 return seq;
+                 return seq.release();
              })
         .def("__setitem__",
              [](las::Points &s, const py::slice &slice, const las::Points &value) {
-- 
2.43.0


From 8800c5c46a93033fbb6bc319e99591a6ca973839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:33 +0000
Subject: [PATCH 30/45] fix: a node must not be added twice

---
 cpp/src/io/copc_writer_public.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp/src/io/copc_writer_public.cpp b/cpp/src/io/copc_writer_public.cpp
index 3347cc7..b09fa99 100644
--- a/cpp/src/io/copc_writer_public.cpp
+++ b/cpp/src/io/copc_writer_public.cpp
@@ -77,7 +77,9 @@ Node Writer::DoAddNode(const VoxelKey &key, const std::vector<char> &in, int32_t
 {
     if (!page_key.IsValid() || !key.IsValid())
         throw std::runtime_error("Invalid page or node key!");
-    // TODO[leo]: Check if node already loaded
+    // A second node of the same key would leave the points of the first in the file without an entry in the hierarchy
+    if (hierarchy_->NodeExists(key))
+        throw std::runtime_error("Node " + key.ToString() + " has already been added.");
 
     if (!key.ChildOf(page_key))
         throw std::runtime_error("Target key " + key.ToString() + " is not a child of page node " + key.ToString());
-- 
2.43.0


From 11b51b27089527722e07637046c7f0445c090311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:48 +0000
Subject: [PATCH 31/45] fix: validating bounds must not change the precision of
 std::cout

---
 cpp/src/io/copc_reader.cpp | 47 +++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index ea12087..bc6eaf0 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -349,18 +349,21 @@ bool Reader::ValidateSpatialBounds(bool verbose)
     int total_points_outside_header_bounds{0};
     int total_points_outside_node_bounds{0};
 
+    // std::cout's own precision belongs to the rest of the program (and its other threads), so print through another stream
+    std::ostream out(std::cout.rdbuf());
+
     // If verbose, set precision and print the las header.
     if (verbose)
     {
-        std::cout << std::setprecision(std::numeric_limits<double>::max_digits10);
-        std::cout << "Validating Spatial Bounds" << std::endl;
-        std::cout << "File info:" << std::endl;
-        std::cout << "\tPoint Count: " << header.PointCount() << std::endl;
-        std::cout << "\tScale: " << header.Scale() << std::endl;
-        std::cout << "\tOffset: " << header.Offset() << std::endl;
-        std::cout << "\tMin Bounds: " << header.min << std::endl;
-        std::cout << "\tMax Bounds: " << header.max << std::endl;
-        std::cout << std::endl << "Validating bounds..." << std::endl << std::endl;
+        out << std::setprecision(std::numeric_limits<double>::max_digits10);
+        out << "Validating Spatial Bounds" << std::endl;
+        out << "File info:" << std::endl;
+        out << "\tPoint Count: " << header.PointCount() << std::endl;
+        out << "\tScale: " << header.Scale() << std::endl;
+        out << "\tOffset: " << header.Offset() << std::endl;
+        out << "\tMin Bounds: " << header.min << std::endl;
+        out << "\tMax Bounds: " << header.max << std::endl;
+        out << std::endl << "Validating bounds..." << std::endl << std::endl;
     }
 
     for (const auto &node : GetAllNodes())
@@ -372,8 +375,7 @@ bool Reader::ValidateSpatialBounds(bool verbose)
             is_valid = false;
             if (!verbose)
                 return false;
-            std::cout << "Node " << node.key << " is outside of las header bounds (" << header.Bounds() << ")."
-                      << std::endl;
+            out << "Node " << node.key << " is outside of las header bounds (" << header.Bounds() << ")." << std::endl;
             total_points_outside_header_bounds += node.point_count;
         }
         else
@@ -389,9 +391,8 @@ bool Reader::ValidateSpatialBounds(bool verbose)
                         is_valid = false;
                         if (!verbose)
                             return false;
-                        std::cout << "Point (" << point->X() << "," << point->Y() << "," << point->Z() << ") from node "
-                                  << node.key << " is outside of las header bounds (" << header.Bounds() << ")."
-                                  << std::endl;
+                        out << "Point (" << point->X() << "," << point->Y() << "," << point->Z() << ") from node "
+                            << node.key << " is outside of las header bounds (" << header.Bounds() << ")." << std::endl;
                         total_points_outside_header_bounds++;
                     }
                 }
@@ -405,8 +406,8 @@ bool Reader::ValidateSpatialBounds(bool verbose)
                     is_valid = false;
                     if (!verbose)
                         return false;
-                    std::cout << "Point (" << point->X() << "," << point->Y() << "," << point->Z()
-                              << ") is outside of node " << node.key << " bounds (" << box << ")." << std::endl;
+                    out << "Point (" << point->X() << "," << point->Y() << "," << point->Z()
+                        << ") is outside of node " << node.key << " bounds (" << box << ")." << std::endl;
                     total_points_outside_node_bounds++;
                 }
             }
@@ -415,13 +416,13 @@ bool Reader::ValidateSpatialBounds(bool verbose)
 
     if (verbose)
     {
-        std::cout << std::endl;
-        std::cout << "...Bounds validation done." << std::endl << std::endl;
-        std::cout << "Number of points outside header bounds: " << total_points_outside_header_bounds << std::endl;
-        std::cout << "Number of points outside node bounds: " << total_points_outside_node_bounds << std::endl;
-        std::cout << std::endl;
-        is_valid ? std::cout << "Spatial bounds are valid!" : std::cout << "Spatial bounds are invalid!";
-        std::cout << std::endl;
+        out << std::endl;
+        out << "...Bounds validation done." << std::endl << std::endl;
+        out << "Number of points outside header bounds: " << total_points_outside_header_bounds << std::endl;
+        out << "Number of points outside node bounds: " << total_points_outside_node_bounds << std::endl;
+        out << std::endl;
+        is_valid ? out << "Spatial bounds are valid!" : out << "Spatial bounds are invalid!";
+        out << std::endl;
     }
     return is_valid;
 }
-- 
2.43.0


From 91aa834196a1b36fdeba3512b97b187b429c428f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:09 +0000
Subject: [PATCH 32/45] fix: a file that can't be read must not stay open

When opening failed because the file is not a valid COPC or LAZ file, the stream was never deleted: every
such attempt leaked a file descriptor.
---
 cpp/include/copc-lib/io/copc_reader.hpp | 6 ++++--
 cpp/include/copc-lib/io/laz_reader.hpp  | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/cpp/include/copc-lib/io/copc_reader.hpp b/cpp/include/copc-lib/io/copc_reader.hpp
index 75a2652..cdc0f80 100644
--- a/cpp/include/copc-lib/io/copc_reader.hpp
+++ b/cpp/include/copc-lib/io/copc_reader.hpp
@@ -86,15 +86,17 @@ class FileReader : public Reader
   public:
     FileReader(const std::string &file_path) : is_open_(true)
     {
-        auto f_stream = new std::fstream;
+        // Whatever fails below, the file doesn't stay open
+        auto f_stream = std::make_unique<std::fstream>();
         this->file_path_ = file_path;
         f_stream->open(file_path.c_str(), std::ios::in | std::ios::binary);
         if (!f_stream->good())
             throw std::runtime_error("FileReader: Error while opening file path.");
-        in_stream_ = f_stream;
+        in_stream_ = f_stream.get();
 
         InitReader();
         InitCopcReader();
+        f_stream.release();
     }
 
     void Close()
diff --git a/cpp/include/copc-lib/io/laz_reader.hpp b/cpp/include/copc-lib/io/laz_reader.hpp
index faf4edb..6af03a8 100644
--- a/cpp/include/copc-lib/io/laz_reader.hpp
+++ b/cpp/include/copc-lib/io/laz_reader.hpp
@@ -25,14 +25,16 @@ class LazFileReader : public LazReader
   public:
     LazFileReader(const std::string &file_path) : is_open_(true)
     {
-        auto f_stream = new std::fstream;
+        // Whatever fails below, the file doesn't stay open
+        auto f_stream = std::make_unique<std::fstream>();
         this->file_path_ = file_path;
         f_stream->open(file_path.c_str(), std::ios::in | std::ios::binary);
         if (!f_stream->good())
             throw std::runtime_error("LazFileReader: Error while opening file path.");
-        in_stream_ = f_stream;
+        in_stream_ = f_stream.get();
 
         InitReader();
+        f_stream.release();
     }
 
     void Close()
-- 
2.43.0


From 9cf7118954724ae209baf8ea48f3e44ae4feec07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:56 +0000
Subject: [PATCH 33/45] fix: queries on a closed file reader must not use its
 deleted stream

FileReader::Close and LazFileReader::Close deleted the stream which later queries went on to use. Now the closed stream is
kept until the reader is gone, so these queries throw.
---
 cpp/include/copc-lib/io/copc_reader.hpp | 8 ++++++--
 cpp/include/copc-lib/io/laz_reader.hpp  | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/cpp/include/copc-lib/io/copc_reader.hpp b/cpp/include/copc-lib/io/copc_reader.hpp
index cdc0f80..08ea88a 100644
--- a/cpp/include/copc-lib/io/copc_reader.hpp
+++ b/cpp/include/copc-lib/io/copc_reader.hpp
@@ -103,15 +103,19 @@ class FileReader : public Reader
     {
         if (is_open_)
         {
+            // The stream itself stays for queries made after closing, which fail on it
             dynamic_cast<std::fstream *>(in_stream_)->close();
-            delete in_stream_;
             is_open_ = false;
         }
     }
 
     std::string FilePath() { return file_path_; }
 
-    ~FileReader() { Close(); }
+    ~FileReader()
+    {
+        Close();
+        delete in_stream_;
+    }
 
   private:
     bool is_open_;
diff --git a/cpp/include/copc-lib/io/laz_reader.hpp b/cpp/include/copc-lib/io/laz_reader.hpp
index 6af03a8..f729501 100644
--- a/cpp/include/copc-lib/io/laz_reader.hpp
+++ b/cpp/include/copc-lib/io/laz_reader.hpp
@@ -41,15 +41,19 @@ class LazFileReader : public LazReader
     {
         if (is_open_)
         {
+            // The stream itself stays for queries made after closing, which fail on it
             dynamic_cast<std::fstream *>(in_stream_)->close();
-            delete in_stream_;
             is_open_ = false;
         }
     }
 
     std::string FilePath() { return file_path_; }
 
-    ~LazFileReader() { Close(); }
+    ~LazFileReader()
+    {
+        Close();
+        delete in_stream_;
+    }
 
   private:
     bool is_open_;
-- 
2.43.0


From a7613c728056560c02c4a5d8c8595af0f2dfa33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:20 +0000
Subject: [PATCH 34/45] fix: extra byte descriptions that differ must not
 compare equal

---
 cpp/include/copc-lib/las/vlr.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cpp/include/copc-lib/las/vlr.hpp b/cpp/include/copc-lib/las/vlr.hpp
index 363e595..8da4c9b 100644
--- a/cpp/include/copc-lib/las/vlr.hpp
+++ b/cpp/include/copc-lib/las/vlr.hpp
@@ -70,9 +70,11 @@ namespace lazperf
 inline bool operator==(const eb_vlr::ebfield &a, const eb_vlr::ebfield &b)
 {
     return std::memcmp(a.reserved, b.reserved, 2) == 0 && a.data_type == b.data_type && a.options == b.options &&
-           a.name == b.name && std::memcmp(a.no_data, b.no_data, 3) == 0 && std::memcmp(a.minval, b.minval, 3) == 0 &&
-           std::memcmp(a.maxval, b.maxval, 3) == 0 && std::memcmp(a.scale, b.scale, 3) == 0 &&
-           std::memcmp(a.offset, b.offset, 3) == 0 && a.description == b.description;
+           a.name == b.name && std::memcmp(a.no_data, b.no_data, sizeof(a.no_data)) == 0 &&
+           std::memcmp(a.minval, b.minval, sizeof(a.minval)) == 0 &&
+           std::memcmp(a.maxval, b.maxval, sizeof(a.maxval)) == 0 &&
+           std::memcmp(a.scale, b.scale, sizeof(a.scale)) == 0 &&
+           std::memcmp(a.offset, b.offset, sizeof(a.offset)) == 0 && a.description == b.description;
 }
 } // namespace lazperf
 
-- 
2.43.0


From d112fb24b8c43220b5854a89a073f7a395bd5a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:20 +0000
Subject: [PATCH 35/45] fix: point records too long for the format must be
 refused

---
 cpp/src/io/copc_writer_public.cpp | 4 ++--
 cpp/src/las/laz_config.cpp        | 4 ++--
 cpp/src/las/points.cpp            | 4 ++--
 cpp/src/las/utils.cpp             | 9 ++++++++-
 cpp/src/las/vlr.cpp               | 4 ++++
 5 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/cpp/src/io/copc_writer_public.cpp b/cpp/src/io/copc_writer_public.cpp
index b09fa99..3c61684 100644
--- a/cpp/src/io/copc_writer_public.cpp
+++ b/cpp/src/io/copc_writer_public.cpp
@@ -42,8 +42,8 @@ void Writer::InitWriter(std::ostream &out_stream, const CopcConfigWriter &copc_c
             new_has_extended_stats = *has_extended_stats;
 
         las::LasHeader new_header(copc_config_writer.LasHeader(), new_point_format_id,
-                                  las::PointBaseByteSize(new_point_format_id) +
-                                      las::NumBytesFromExtraBytes(new_extra_bytes_vlr.items),
+                                  las::PointByteSize(new_point_format_id,
+                                                     las::NumBytesFromExtraBytes(new_extra_bytes_vlr.items)),
                                   new_scale, new_offset);
 
         copc::CopcExtents new_extents(copc_config_writer.CopcExtents(), new_point_format_id,
diff --git a/cpp/src/las/laz_config.cpp b/cpp/src/las/laz_config.cpp
index 8452046..057ae1a 100644
--- a/cpp/src/las/laz_config.cpp
+++ b/cpp/src/las/laz_config.cpp
@@ -14,8 +14,8 @@ LazConfig::LazConfig(const int8_t &point_format_id, const Vector3 &scale, const
     if (point_format_id < 6 || point_format_id > 8)
         throw std::runtime_error("LasConfig: Supported point formats are 6 to 8.");
     header_ = std::make_shared<las::LasHeader>(
-        point_format_id, las::PointBaseByteSize(point_format_id) + las::NumBytesFromExtraBytes(extra_bytes_vlr.items),
-        scale, offset, copc_flag);
+        point_format_id, las::PointByteSize(point_format_id, las::NumBytesFromExtraBytes(extra_bytes_vlr.items)), scale,
+        offset, copc_flag);
     eb_vlr_ = std::make_shared<las::EbVlr>(extra_bytes_vlr);
 }
 
diff --git a/cpp/src/las/points.cpp b/cpp/src/las/points.cpp
index 57e34b1..52aae3c 100644
--- a/cpp/src/las/points.cpp
+++ b/cpp/src/las/points.cpp
@@ -32,11 +32,11 @@ void Points::ToPointFormat(const int8_t &point_format_id)
 {
     if (point_format_id < 6 || point_format_id > 8)
         throw std::runtime_error("Point format must be 6-8.");
+    auto point_record_length = PointByteSize(point_format_id, EbByteSize());
     for (auto &point : points_)
         point->ToPointFormat(point_format_id);
-    unsigned int eb_byte_size = point_record_length_ - PointBaseByteSize(point_format_id_);
     point_format_id_ = point_format_id;
-    point_record_length_ = PointByteSize(point_format_id, eb_byte_size);
+    point_record_length_ = point_record_length;
 }
 
 void Points::AddPoint(const std::shared_ptr<Point> &point)
diff --git a/cpp/src/las/utils.cpp b/cpp/src/las/utils.cpp
index 5e59d0a..d9e8ecc 100644
--- a/cpp/src/las/utils.cpp
+++ b/cpp/src/las/utils.cpp
@@ -1,5 +1,8 @@
 #include "copc-lib/las/utils.hpp"
 
+#include <limits>
+#include <stdexcept>
+
 namespace copc::las
 {
 
@@ -68,7 +71,11 @@ uint16_t EbByteSize(const int8_t &point_format_id, const uint32_t &point_record_
 
 uint16_t PointByteSize(const int8_t &point_format_id, const uint16_t &eb_byte_size)
 {
-    return PointBaseByteSize(point_format_id) + eb_byte_size;
+    auto size = static_cast<uint32_t>(PointBaseByteSize(point_format_id)) + eb_byte_size;
+    // The record length is stored in 16 bits
+    if (size > (std::numeric_limits<uint16_t>::max)())
+        throw std::runtime_error("PointByteSize: Point record can't be longer than 65535 bytes.");
+    return static_cast<uint16_t>(size);
 }
 
 } // namespace copc::las
diff --git a/cpp/src/las/vlr.cpp b/cpp/src/las/vlr.cpp
index 4e52ca0..eef7718 100644
--- a/cpp/src/las/vlr.cpp
+++ b/cpp/src/las/vlr.cpp
@@ -1,5 +1,6 @@
 #include "copc-lib/las/vlr.hpp"
 
+#include <limits>
 #include <stdexcept>
 
 #include "copc-lib/las/utils.hpp"
@@ -22,6 +23,9 @@ int NumBytesFromExtraBytes(const std::vector<EbVlr::ebfield> &items)
         else
             out += EXTRA_BYTE_DATA_TYPE[item.data_type];
     }
+    // The record length is stored in 16 bits
+    if (out > (std::numeric_limits<uint16_t>::max)())
+        throw std::runtime_error("NumBytesFromExtraBytes: Extra bytes can't be longer than 65535 bytes.");
     return out;
 }
 
-- 
2.43.0


From e3f16361534821be33953c6ea4bea145d39333ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:29 +0000
Subject: [PATCH 36/45] fix: a chunk that is too large must not stay in the
 chunk table

---
 cpp/include/copc-lib/io/laz_base_writer.hpp |  1 +
 cpp/src/io/laz_base_writer.cpp              | 14 +++++++++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/cpp/include/copc-lib/io/laz_base_writer.hpp b/cpp/include/copc-lib/io/laz_base_writer.hpp
index 72357d6..e54125c 100644
--- a/cpp/include/copc-lib/io/laz_base_writer.hpp
+++ b/cpp/include/copc-lib/io/laz_base_writer.hpp
@@ -3,6 +3,7 @@
 
 #include <array>
 #include <iterator>
+#include <limits>
 #include <optional>
 #include <ostream>
 #include <stdexcept>
diff --git a/cpp/src/io/laz_base_writer.cpp b/cpp/src/io/laz_base_writer.cpp
index f87f24a..a7374fd 100644
--- a/cpp/src/io/laz_base_writer.cpp
+++ b/cpp/src/io/laz_base_writer.cpp
@@ -121,6 +121,9 @@ int32_t BaseWriter::WriteChunk(const std::vector<char> &in, int32_t point_count,
     if (offset != nullptr)
         *offset = static_cast<uint64_t>(startpos);
 
+    if (compressed && in.size() > (std::numeric_limits<int32_t>::max)())
+        throw std::runtime_error("BaseWriter::WriteChunk: Chunk is too large!");
+
     if (compressed)
         out_stream_.write(in.data(), in.size());
     else
@@ -130,12 +133,17 @@ int32_t BaseWriter::WriteChunk(const std::vector<char> &in, int32_t point_count,
     if (endpos <= 0)
         throw std::runtime_error("BaseWriter::WriteChunk: Error while writing chunk!");
 
-    point_count_ += point_count;
-    chunks_.push_back(lazperf::chunk{static_cast<uint64_t>(point_count), static_cast<uint64_t>(endpos)});
-
     auto size = endpos - startpos;
     if (size > (std::numeric_limits<int32_t>::max)())
+    {
+        // The next chunk must follow the previous one
+        out_stream_.seekp(startpos);
         throw std::runtime_error("BaseWriter::WriteChunk: Chunk is too large!");
+    }
+
+    point_count_ += point_count;
+    chunks_.push_back(lazperf::chunk{static_cast<uint64_t>(point_count), static_cast<uint64_t>(endpos)});
+
     if (byte_size != nullptr)
         *byte_size = static_cast<int32_t>(size);
     if (point_count > (std::numeric_limits<int32_t>::max)())
-- 
2.43.0


From 7abbadb89b11cb647ce7ad56c57514e935efd1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:38 +0000
Subject: [PATCH 37/45] fix: extra byte descriptions too long for their VLR
 must be refused

---
 cpp/include/copc-lib/io/laz_base_writer.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp/include/copc-lib/io/laz_base_writer.hpp b/cpp/include/copc-lib/io/laz_base_writer.hpp
index e54125c..5987c8f 100644
--- a/cpp/include/copc-lib/io/laz_base_writer.hpp
+++ b/cpp/include/copc-lib/io/laz_base_writer.hpp
@@ -27,6 +27,9 @@ class BaseWriter
     BaseWriter(std::ostream &out_stream, std::shared_ptr<las::LazConfig> laz_config)
         : out_stream_(out_stream), config_(std::move(laz_config)), open_(true)
     {
+        // The length of a VLR is stored in 16 bits
+        if (config_->ExtraBytesVlr().size() > (std::numeric_limits<uint16_t>::max)())
+            throw std::runtime_error("BaseWriter: Extra bytes VLR can't be longer than 65535 bytes.");
     }
 
     int32_t WriteChunk(const std::vector<char> &in, int32_t point_count = 0, bool compressed = false,
-- 
2.43.0


From b56ecae31e7d161b591bcfb83a4196e8c84d3351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:50 +0000
Subject: [PATCH 38/45] fix: Point::ScanAngleDegrees must reject angles that do
 not fit the field instead of wrapping around

---
 cpp/include/copc-lib/las/point.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cpp/include/copc-lib/las/point.hpp b/cpp/include/copc-lib/las/point.hpp
index 88b92ad..33bd1aa 100644
--- a/cpp/include/copc-lib/las/point.hpp
+++ b/cpp/include/copc-lib/las/point.hpp
@@ -2,6 +2,7 @@
 #define COPCLIB_LAS_POINT_H_
 
 #include <cmath>
+#include <cstdint>
 #include <sstream>
 #include <vector>
 
@@ -67,7 +68,13 @@ class Point
 
     float ScanAngleDegrees() const { return 0.006f * float(scan_angle_); }
 
-    void ScanAngleDegrees(const float &scan_angle) { scan_angle_ = static_cast<int16_t>(std::round(scan_angle / 0.006f)); }
+    void ScanAngleDegrees(const float &scan_angle)
+    {
+        auto steps = std::round(scan_angle / 0.006f);
+        if (!(steps >= INT16_MIN && steps <= INT16_MAX))
+            throw std::runtime_error("Scan angle is out of range.");
+        scan_angle_ = static_cast<int16_t>(steps);
+    }
 
     uint8_t UserData() const { return user_data_; }
     void UserData(const uint8_t &user_data) { user_data_ = user_data; }
-- 
2.43.0


From b015da1252c8f4b9173a337c2b4b93a3dfc915c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:54 +0000
Subject: [PATCH 39/45] fix: Points must reject null points (None in Python)
 instead of crashing

---
 cpp/src/las/points.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cpp/src/las/points.cpp b/cpp/src/las/points.cpp
index 52aae3c..5a8b468 100644
--- a/cpp/src/las/points.cpp
+++ b/cpp/src/las/points.cpp
@@ -21,6 +21,8 @@ Points::Points(const std::vector<std::shared_ptr<Point>> &points)
 {
     if (points.empty())
         throw std::runtime_error("Can't add empty vector of points to Points!");
+    if (points[0] == nullptr)
+        throw std::runtime_error("Can't add a null point to Points!");
 
     point_record_length_ = points[0]->PointRecordLength();
     point_format_id_ = points[0]->PointFormatId();
@@ -41,7 +43,8 @@ void Points::ToPointFormat(const int8_t &point_format_id)
 
 void Points::AddPoint(const std::shared_ptr<Point> &point)
 {
-    if (point->PointFormatId() == point_format_id_ && point->PointRecordLength() == point_record_length_)
+    if (point != nullptr && point->PointFormatId() == point_format_id_ &&
+        point->PointRecordLength() == point_record_length_)
         points_.push_back(point);
     else
         throw std::runtime_error("New point must be of same format and byte_size.");
@@ -60,7 +63,8 @@ void Points::AddPoints(std::vector<std::shared_ptr<Point>> points)
 {
     for (const auto &point : points)
     {
-        if (point->PointFormatId() != point_format_id_ || point->PointRecordLength() != point_record_length_)
+        if (point == nullptr || point->PointFormatId() != point_format_id_ ||
+            point->PointRecordLength() != point_record_length_)
             throw std::runtime_error("New points must be of same format and byte_size.");
     }
 
-- 
2.43.0


From 732db978e89f5a5967cb67ad3390514ba50122cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:54 +0000
Subject: [PATCH 40/45] fix: Python assignment to an element or slice of Points
 must reject points of another format and None

---
 python/bindings.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/python/bindings.cpp b/python/bindings.cpp
index 30582ab..9ab39ec 100644
--- a/python/bindings.cpp
+++ b/python/bindings.cpp
@@ -289,6 +289,13 @@ PYBIND11_MODULE(_core, m)
         return i;
     };
 
+    // Like AddPoint, assigning must leave all points of the same format
+    auto check_format = [](const las::Points &s, int8_t point_format_id, uint32_t point_record_length)
+    {
+        if (point_format_id != s.PointFormatId() || point_record_length != s.PointRecordLength())
+            throw std::runtime_error("New point must be of same format and byte_size.");
+    };
+
     py::class_<las::Points>(m, "Points")
         .def(py::init<const uint8_t &, const uint16_t &>(),
              py::arg("point_format_id"), py::arg("eb_byte_size") = 0)
@@ -333,8 +340,11 @@ PYBIND11_MODULE(_core, m)
                  return s[(SizeType)i];
              })
         .def("__setitem__",
-             [wrap_i](las::Points &s, DiffType i, std::shared_ptr<las::Point> v) {
+             [wrap_i, check_format](las::Points &s, DiffType i, std::shared_ptr<las::Point> v) {
                  i = wrap_i(i, s.Size());
+                 if (v == nullptr)
+                     throw std::runtime_error("Can't assign a null point!");
+                 check_format(s, v->PointFormatId(), v->PointRecordLength());
                  s[(SizeType)i] = std::move(v);
              })
         .def("__len__", &las::Points::Size)
@@ -363,13 +373,14 @@ PYBIND11_MODULE(_core, m)
                  return seq.release();
              })
         .def("__setitem__",
-             [](las::Points &s, const py::slice &slice, const las::Points &value) {
+             [check_format](las::Points &s, const py::slice &slice, const las::Points &value) {
                  size_t start = 0, stop = 0, step = 0, slicelength = 0;
                  if (!slice.compute(s.Size(), &start, &stop, &step, &slicelength))
                      throw py::error_already_set();
 
                  if (slicelength != value.Size())
                      throw std::runtime_error("Left and right hand size of slice assignment have different sizes!");
+                 check_format(s, value.PointFormatId(), value.PointRecordLength());
 
                  for (size_t i = 0; i < slicelength; ++i)
                  {
-- 
2.43.0


From b7062657c075116f93ea4f727f0470338317d5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:54 +0000
Subject: [PATCH 41/45] fix: CopcExtents must reject null extents (None in
 Python) instead of crashing when the file is written

---
 cpp/include/copc-lib/copc/extents.hpp | 46 ++++++++++++++++-----------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/cpp/include/copc-lib/copc/extents.hpp b/cpp/include/copc-lib/copc/extents.hpp
index b5bcad9..f7bca11 100644
--- a/cpp/include/copc-lib/copc/extents.hpp
+++ b/cpp/include/copc-lib/copc/extents.hpp
@@ -148,44 +148,44 @@ class CopcExtents
     }
 
     // Setters for python bindings
-    void X(std::shared_ptr<CopcExtent> x) { extents_[0] = std::move(x); }
-    void Y(std::shared_ptr<CopcExtent> y) { extents_[1] = std::move(y); }
-    void Z(std::shared_ptr<CopcExtent> z) { extents_[2] = std::move(z); }
-    void Intensity(std::shared_ptr<CopcExtent> intensity) { extents_[3] = std::move(intensity); }
-    void ReturnNumber(std::shared_ptr<CopcExtent> return_number) { extents_[4] = std::move(return_number); }
-    void NumberOfReturns(std::shared_ptr<CopcExtent> number_of_returns) { extents_[5] = std::move(number_of_returns); }
-    void ScannerChannel(std::shared_ptr<CopcExtent> scanner_channel) { extents_[6] = std::move(scanner_channel); }
+    void X(std::shared_ptr<CopcExtent> x) { SetExtent(0, std::move(x)); }
+    void Y(std::shared_ptr<CopcExtent> y) { SetExtent(1, std::move(y)); }
+    void Z(std::shared_ptr<CopcExtent> z) { SetExtent(2, std::move(z)); }
+    void Intensity(std::shared_ptr<CopcExtent> intensity) { SetExtent(3, std::move(intensity)); }
+    void ReturnNumber(std::shared_ptr<CopcExtent> return_number) { SetExtent(4, std::move(return_number)); }
+    void NumberOfReturns(std::shared_ptr<CopcExtent> number_of_returns) { SetExtent(5, std::move(number_of_returns)); }
+    void ScannerChannel(std::shared_ptr<CopcExtent> scanner_channel) { SetExtent(6, std::move(scanner_channel)); }
     void ScanDirectionFlag(std::shared_ptr<CopcExtent> scan_direction_flag)
     {
-        extents_[7] = std::move(scan_direction_flag);
+        SetExtent(7, std::move(scan_direction_flag));
     }
     void EdgeOfFlightLine(std::shared_ptr<CopcExtent> edge_of_flight_line)
     {
-        extents_[8] = std::move(edge_of_flight_line);
+        SetExtent(8, std::move(edge_of_flight_line));
     }
-    void Classification(std::shared_ptr<CopcExtent> classification) { extents_[9] = std::move(classification); }
-    void UserData(std::shared_ptr<CopcExtent> user_data) { extents_[10] = std::move(user_data); }
-    void ScanAngle(std::shared_ptr<CopcExtent> scan_angle) { extents_[11] = std::move(scan_angle); }
-    void PointSourceId(std::shared_ptr<CopcExtent> point_source_id) { extents_[12] = std::move(point_source_id); }
-    void GpsTime(std::shared_ptr<CopcExtent> gps_time) { extents_[13] = std::move(gps_time); }
+    void Classification(std::shared_ptr<CopcExtent> classification) { SetExtent(9, std::move(classification)); }
+    void UserData(std::shared_ptr<CopcExtent> user_data) { SetExtent(10, std::move(user_data)); }
+    void ScanAngle(std::shared_ptr<CopcExtent> scan_angle) { SetExtent(11, std::move(scan_angle)); }
+    void PointSourceId(std::shared_ptr<CopcExtent> point_source_id) { SetExtent(12, std::move(point_source_id)); }
+    void GpsTime(std::shared_ptr<CopcExtent> gps_time) { SetExtent(13, std::move(gps_time)); }
     void Red(std::shared_ptr<CopcExtent> red)
     {
         if (point_format_id_ > 6)
-            extents_[14] = std::move(red);
+            SetExtent(14, std::move(red));
         else
             throw std::runtime_error("CopcExtents::Red: This point format does not have Red");
     }
     void Green(std::shared_ptr<CopcExtent> green)
     {
         if (point_format_id_ > 6)
-            extents_[15] = std::move(green);
+            SetExtent(15, std::move(green));
         else
             throw std::runtime_error("CopcExtents::Green: This point format does not have Green");
     }
     void Blue(std::shared_ptr<CopcExtent> blue)
     {
         if (point_format_id_ > 6)
-            extents_[16] = std::move(blue);
+            SetExtent(16, std::move(blue));
         else
             throw std::runtime_error("CopcExtents::Blue: This point format does not have Blue");
     }
@@ -193,7 +193,7 @@ class CopcExtents
     void Nir(std::shared_ptr<CopcExtent> nir)
     {
         if (point_format_id_ == 8)
-            extents_[17] = std::move(nir);
+            SetExtent(17, std::move(nir));
         else
             throw std::runtime_error("CopcExtents::NIR: This point format does not have NIR");
     }
@@ -202,6 +202,9 @@ class CopcExtents
     {
         if (extra_bytes.size() != (extents_.size() - NumberOfExtents(point_format_id_)))
             throw std::runtime_error("CopcExtents::ExtraBytesVlr: Vector of extra byte must be the right length.");
+        for (const auto &extent : extra_bytes)
+            if (extent == nullptr)
+                throw std::runtime_error("CopcExtents: An extent can't be null.");
         std::copy(extra_bytes.begin(), extra_bytes.end(), extents_.begin() + NumberOfExtents(point_format_id_));
     }
 
@@ -230,6 +233,13 @@ class CopcExtents
     }
 
   private:
+    void SetExtent(size_t i, std::shared_ptr<CopcExtent> extent)
+    {
+        if (extent == nullptr)
+            throw std::runtime_error("CopcExtents: An extent can't be null.");
+        extents_[i] = std::move(extent);
+    }
+
     int8_t point_format_id_;
     bool has_extended_stats_{false};
     std::vector<std::shared_ptr<CopcExtent>> extents_;
-- 
2.43.0


From 1a176f0c3b9682a900ed32c80d43ee59f7a03d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:55 +0000
Subject: [PATCH 42/45] fix: a header without a record length has no extra
 bytes

---
 cpp/src/las/utils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp/src/las/utils.cpp b/cpp/src/las/utils.cpp
index d9e8ecc..cc16fee 100644
--- a/cpp/src/las/utils.cpp
+++ b/cpp/src/las/utils.cpp
@@ -66,7 +66,9 @@ bool FormatHasNir(const uint8_t &point_format_id)
 
 uint16_t EbByteSize(const int8_t &point_format_id, const uint32_t &point_record_length)
 {
-    return point_record_length - PointBaseByteSize(point_format_id);
+    auto base_byte_size = PointBaseByteSize(point_format_id);
+    // The record length of a default header is 0
+    return point_record_length < base_byte_size ? 0 : point_record_length - base_byte_size;
 }
 
 uint16_t PointByteSize(const int8_t &point_format_id, const uint16_t &eb_byte_size)
-- 
2.43.0


From f2cc744b030b9e6a1169dc4094a01aa0136fcb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:02 +0000
Subject: [PATCH 43/45] fix: a list of points assigned to a slice of itself
 must be read before it is written

---
 python/bindings.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/bindings.cpp b/python/bindings.cpp
index 9ab39ec..78e3c72 100644
--- a/python/bindings.cpp
+++ b/python/bindings.cpp
@@ -373,7 +373,8 @@ PYBIND11_MODULE(_core, m)
                  return seq.release();
              })
         .def("__setitem__",
-             [check_format](las::Points &s, const py::slice &slice, const las::Points &value) {
+             // The value is a copy, as it may be the list that is assigned to
+             [check_format](las::Points &s, const py::slice &slice, las::Points value) {
                  size_t start = 0, stop = 0, step = 0, slicelength = 0;
                  if (!slice.compute(s.Size(), &start, &stop, &step, &slicelength))
                      throw py::error_already_set();
-- 
2.43.0


From 6a2fc351c045bc5658f7afbc907889ca0261bf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:11 +0000
Subject: [PATCH 44/45] fix: report that the position in the input can't be
 told while the VLRs are read

---
 cpp/src/io/base_reader.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cpp/src/io/base_reader.cpp b/cpp/src/io/base_reader.cpp
index 5f42871..330a28f 100644
--- a/cpp/src/io/base_reader.cpp
+++ b/cpp/src/io/base_reader.cpp
@@ -50,9 +50,12 @@ std::map<uint64_t, las::VlrHeader> BaseReader::ReadVlrHeaders()
     // Iterate through all vlr's and add them to the `vlrs` list
     for (int i = 0; i < reader_->header().vlr_count; i++)
     {
-        uint64_t cur_pos = in_stream_->tellg();
+        auto cur_pos = static_cast<int64_t>(in_stream_->tellg());
         auto h = las::VlrHeader(lazperf::vlr_header::create(*in_stream_));
         CheckStream();
+        // tellg doesn't set the state of the stream
+        if (cur_pos < 0)
+            throw std::runtime_error("BaseReader: Can't tell the position in the input!");
         out.insert({cur_pos, h});
 
         in_stream_->seekg(h.data_length, std::ios::cur); // jump foward
@@ -64,9 +67,12 @@ std::map<uint64_t, las::VlrHeader> BaseReader::ReadVlrHeaders()
     // Iterate through all vlr's and add them to the `vlrs` list
     for (int i = 0; i < reader_->header().evlr_count; i++)
     {
-        uint64_t cur_pos = in_stream_->tellg();
+        auto cur_pos = static_cast<int64_t>(in_stream_->tellg());
         auto h = las::VlrHeader(lazperf::evlr_header::create(*in_stream_));
         CheckStream();
+        // tellg doesn't set the state of the stream
+        if (cur_pos < 0)
+            throw std::runtime_error("BaseReader: Can't tell the position in the input!");
         // a length beyond any file would lead backwards
         if (h.data_length > static_cast<uint64_t>(std::numeric_limits<int64_t>::max()))
             throw std::runtime_error("BaseReader: Invalid EVLR length!");
-- 
2.43.0


From 7a2fad9d70afe497307340fe2f8ccb0f559cb311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:11 +0000
Subject: [PATCH 45/45] fix: report that the position in the output can't be
 told when it is closed

---
 cpp/include/copc-lib/io/laz_base_writer.hpp |  2 ++
 cpp/src/io/copc_writer_internal.cpp         |  6 +++---
 cpp/src/io/laz_base_writer.cpp              | 15 ++++++++++++---
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/cpp/include/copc-lib/io/laz_base_writer.hpp b/cpp/include/copc-lib/io/laz_base_writer.hpp
index 5987c8f..981f930 100644
--- a/cpp/include/copc-lib/io/laz_base_writer.hpp
+++ b/cpp/include/copc-lib/io/laz_base_writer.hpp
@@ -43,6 +43,8 @@ class BaseWriter
     void WriteWKT();
     // Throws if anything could not be written
     void FlushOutput();
+    // Throws if the position can't be told
+    uint64_t OutputPosition();
     virtual size_t OffsetToPointData() const;
     virtual void WriteHeader();
 
diff --git a/cpp/src/io/copc_writer_internal.cpp b/cpp/src/io/copc_writer_internal.cpp
index c321235..26505c9 100644
--- a/cpp/src/io/copc_writer_internal.cpp
+++ b/cpp/src/io/copc_writer_internal.cpp
@@ -53,7 +53,7 @@ void WriterInternal::Close()
 
     // Set COPC hierarchy evlr
     out_stream_.seekp(0, std::ios::end);
-    evlr_offset_ = static_cast<int64_t>(out_stream_.tellp());
+    evlr_offset_ = OutputPosition();
     evlr_count_ += hierarchy_->seen_pages_.size();
 
     // Compute the hierarchy between existing pages
@@ -104,7 +104,7 @@ void WriterInternal::WriteHeader()
     WriteLazAndEbVlrs();
 
     // Make sure that we haven't gone over allocated size
-    if (static_cast<int64_t>(out_stream_.tellp()) > OffsetToPointData())
+    if (OutputPosition() > OffsetToPointData())
         throw std::runtime_error("WriterInternal::WriteHeader: LasHeader + VLRs are bigger than offset to point data.");
 }
 
@@ -129,7 +129,7 @@ void WriterInternal::WritePage(const std::shared_ptr<PageInternal> &page)
     h.write(out_stream_);
 
     // Set the page's offset/size
-    auto offset = static_cast<uint64_t>(out_stream_.tellp());
+    uint64_t offset = OutputPosition();
     page->offset = offset;
     if (page_size > (std::numeric_limits<int32_t>::max)())
         throw std::runtime_error("Page is too large!");
diff --git a/cpp/src/io/laz_base_writer.cpp b/cpp/src/io/laz_base_writer.cpp
index a7374fd..bb736e1 100644
--- a/cpp/src/io/laz_base_writer.cpp
+++ b/cpp/src/io/laz_base_writer.cpp
@@ -59,7 +59,7 @@ void BaseWriter::WriteHeader()
     WriteLazAndEbVlrs();
 
     // Make sure that we haven't gone over allocated size
-    if (out_stream_.tellp() > OffsetToPointData())
+    if (OutputPosition() > OffsetToPointData())
         throw std::runtime_error("BaseWriter::WriteHeader: LasHeader + VLRs are bigger than offset to point data.");
 }
 
@@ -69,7 +69,7 @@ void BaseWriter::WriteChunkTable()
     out_stream_.seekp(0, std::ios::end);
 
     // take note of where we're writing the chunk table, we need this later
-    auto chunk_table_offset = static_cast<uint64_t>(out_stream_.tellp());
+    uint64_t chunk_table_offset = OutputPosition();
 
     // Fixup the chunk table to be relative offsets rather than absolute ones.
     uint64_t prevOffset = FirstChunkOffset();
@@ -162,7 +162,7 @@ void BaseWriter::Close()
 
     // Set hierarchy evlr
     out_stream_.seekp(0, std::ios::end);
-    evlr_offset_ = out_stream_.tellp();
+    evlr_offset_ = OutputPosition();
 
     WriteWKT();
 
@@ -171,6 +171,15 @@ void BaseWriter::Close()
     FlushOutput();
 }
 
+uint64_t BaseWriter::OutputPosition()
+{
+    // tellp doesn't set the state of the stream
+    auto position = static_cast<int64_t>(out_stream_.tellp());
+    if (position < 0)
+        throw std::runtime_error("BaseWriter: Can't tell the position in the output!");
+    return static_cast<uint64_t>(position);
+}
+
 void BaseWriter::FlushOutput()
 {
     out_stream_.flush();
-- 
2.43.0

