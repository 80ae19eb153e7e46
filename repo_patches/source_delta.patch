From 27c85854186a2a328c4dfb3618c3e624623b639e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:41 +0000
Subject: [PATCH 01/18] fix: reject requests whose offset + shape wraps around

---
 include/z5/dataset.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/z5/dataset.hxx b/include/z5/dataset.hxx
index 5e241b1..cf3d464 100644
--- a/include/z5/dataset.hxx
+++ b/include/z5/dataset.hxx
@@ -49,7 +49,7 @@ namespace z5 {
                 throw std::runtime_error("Request has wrong dimension");
             }
             for(int d = 0; d < shape_.size(); ++d) {
-                if(offset[d] + shape[d] > shape_[d]) {
+                if(shape[d] > shape_[d] || offset[d] > shape_[d] - shape[d]) {
                     throw std::runtime_error(
                         "Request is out of range: " + std::to_string(offset[d]) + " + " +
                         std::to_string(shape[d]) + " > " + std::to_string(shape_[d]) +
-- 
2.43.0


From b22129a4cc1c59abd959e8a9aa2c3fbf66ab146a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:41 +0000
Subject: [PATCH 02/18] fix: chunk and request overlap beyond 2^31 elements
 along an axis

---
 include/z5/util/blocking.hxx | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/include/z5/util/blocking.hxx b/include/z5/util/blocking.hxx
index 1b244b5..723e446 100644
--- a/include/z5/util/blocking.hxx
+++ b/include/z5/util/blocking.hxx
@@ -155,34 +155,29 @@ namespace util {
 
             bool completeOvlp = true;
             std::size_t blockEnd, roiEnd;
-            int offDiff, endDiff;
             for(unsigned d = 0; d < nDim; ++d) {
 
                 // first we calculate the block end coordinate
                 blockEnd = blockBegin[d] + blockShape[d];
                 // next the roi end
                 roiEnd = roiBegin[d] + roiShape[d];
-                // then we calculate the difference between the block begin / end
-                // and the request begin / end
-                offDiff = blockBegin[d] - roiBegin[d];
-                endDiff = roiEnd - blockEnd;
 
-                // if the offset difference is negative, we are at a starting block
+                // if the block begins before the request, we are at a starting block
                 // that is not completely overlapping
                 // -> set all values accordingly
-                if(offDiff < 0) {
+                if(blockBegin[d] < roiBegin[d]) {
                     beginInRoi[d] = 0; // start block -> no local offset
-                    beginInBlock[d] = -offDiff;
+                    beginInBlock[d] = roiBegin[d] - blockBegin[d];
                     completeOvlp = false;
                     // if this block is the beginning block as well as the end block,
                     // we need to adjust the local shape accordingly
                     shapeInRoi[d] = (blockEnd <= roiEnd) ? blockEnd - roiBegin[d] : roiEnd - roiBegin[d];
                 }
 
-                // if the end difference is negative, we are at a last block
+                // if the request ends before the block, we are at a last block
                 // that is not completely overlapping
                 // -> set all values accordingly
-                else if(endDiff < 0) {
+                else if(roiEnd < blockEnd) {
                     beginInRoi[d] = blockBegin[d] - roiBegin[d];
                     beginInBlock[d] = 0;
                     completeOvlp = false;
-- 
2.43.0


From 83534cce62be68e8754ff081ed953015214ee2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:11 +0000
Subject: [PATCH 03/18] fix: reject chunk coordinates with the wrong number of
 dimensions

---
 include/z5/handle.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/z5/handle.hxx b/include/z5/handle.hxx
index 5e08656..5cc8bae 100644
--- a/include/z5/handle.hxx
+++ b/include/z5/handle.hxx
@@ -221,6 +221,9 @@ namespace handle {
         // compute the chunk shape, clipped if overhanging the boundary
         inline types::ShapeType computeBoundedShape() const {
             const int ndim = defaultShape_.size();
+            if(chunkIndices_.size() != defaultShape_.size() || datasetShape_.size() != defaultShape_.size()) {
+                throw std::runtime_error("Invalid chunk: wrong number of dimensions");
+            }
             types::ShapeType out(ndim);
             for(int d = 0; d < ndim; ++d) {
                 out[d] = ((chunkIndices_[d] + 1) * defaultShape_[d] <= datasetShape_[d]) ? defaultShape_[d] :
-- 
2.43.0


From 0d11773f26b98e50915c437362d843a19eb94958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:22 +0000
Subject: [PATCH 04/18] fix: chunk access of sharded datasets rejects invalid
 and missing chunks

---
 include/z5/generic/dataset.hxx         | 1 +
 include/z5/generic/sharded_dataset.hxx | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/include/z5/generic/dataset.hxx b/include/z5/generic/dataset.hxx
index e597931..ea2d6df 100644
--- a/include/z5/generic/dataset.hxx
+++ b/include/z5/generic/dataset.hxx
@@ -206,6 +206,7 @@ namespace generic {
         }
         inline void removeChunk(const types::ShapeType & chunkId) const {
             ChunkHandleType chunk(handle_, chunkId, defaultChunkShape(), shape());
+            checkChunk(chunk);
             chunk.remove();
         }
         inline void remove() const {
diff --git a/include/z5/generic/sharded_dataset.hxx b/include/z5/generic/sharded_dataset.hxx
index 716a850..d2930ef 100644
--- a/include/z5/generic/sharded_dataset.hxx
+++ b/include/z5/generic/sharded_dataset.hxx
@@ -66,8 +66,12 @@ namespace generic {
         }
 
         inline bool readChunk(const types::ShapeType & chunkIndices, void * dataOut) const {
+            checkChunk(ChunkHandleType(handle_, chunkIndices, defaultChunkShape(), shape()));
             std::vector<char> buffer;
             readRawChunk(chunkIndices, buffer);
+            if(buffer.empty()) {
+                throw std::runtime_error("Trying to read a chunk that does not exist");
+            }
             util::decompress<T>(buffer, dataOut, defaultChunkSize(), Mixin::compressor_);
             return false;  // no varlen in zarr v3
         }
@@ -255,6 +259,7 @@ namespace generic {
             STORE::chunkPath(shardChunk, path);
         }
         inline void removeChunk(const types::ShapeType & chunkId) const {
+            checkChunk(ChunkHandleType(handle_, chunkId, defaultChunkShape(), shape()));
             writeInnerBlob(chunkId, std::vector<char>(), false);
         }
         inline void remove() const {handle_.remove();}
@@ -270,6 +275,9 @@ namespace generic {
         inline bool readShard(const types::ShapeType & chunkId,
                               std::vector<char> & shardBuf,
                               std::vector<util::ShardEntry> & entries) const {
+            if(chunkId.size() != chunksPerShard_.size()) {
+                throw std::runtime_error("Invalid chunk");
+            }
             ChunkHandleType shardChunk(handle_, util::shardId(chunkId, chunksPerShard_), shardShape_, shape());
             if(!STORE::read(shardChunk, shardBuf, "shard")) {
                 return false;
-- 
2.43.0


From 14e7515bbcd08e59b8bfc21698670ceb22711b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:11 +0000
Subject: [PATCH 05/18] fix: reject metadata with zero chunk extents or shard
 shapes that are no multiple of the chunk shape

---
 include/z5/metadata.hxx | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index b572004..6e27927 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -407,6 +407,21 @@ namespace z5 {
             if(shape.size() != chunkShape.size()) {
                 throw std::runtime_error("Dimension of shape and chunks does not agree");
             }
+            for(std::size_t d = 0; d < chunkShape.size(); ++d) {
+                if(chunkShape[d] == 0) {
+                    throw std::runtime_error("Chunk shape has a zero entry");
+                }
+            }
+            if(!shardShape.empty()) {
+                if(shardShape.size() != chunkShape.size()) {
+                    throw std::runtime_error("Dimension of shard shape and chunks does not agree");
+                }
+                for(std::size_t d = 0; d < chunkShape.size(); ++d) {
+                    if(shardShape[d] == 0 || shardShape[d] % chunkShape[d] != 0) {
+                        throw std::runtime_error("Shard shape is not a multiple of the chunk shape");
+                    }
+                }
+            }
         }
 
 
@@ -489,7 +504,7 @@ namespace z5 {
                 throw std::runtime_error("z5::createDatasetMetadata: shard shape and chunk shape dimension mismatch");
             }
             for(std::size_t d = 0; d < shardShape.size(); ++d) {
-                if(shardShape[d] < chunkShape[d] || shardShape[d] % chunkShape[d] != 0) {
+                if(chunkShape[d] == 0 || shardShape[d] < chunkShape[d] || shardShape[d] % chunkShape[d] != 0) {
                     throw std::runtime_error("z5::createDatasetMetadata: shard shape must be a multiple of the chunk shape");
                 }
             }
-- 
2.43.0


From a09f7c98198c53e5bd2451e759f1eb844dd6cb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:11 +0000
Subject: [PATCH 06/18] fix: n5 datasets substitute the fill value 0, which is
 what a reopened dataset does

---
 include/z5/metadata.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index 6e27927..4bef9dd 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -52,7 +52,8 @@ namespace z5 {
                 chunkShape(chunkShape),
                 compressor(compressor),
                 compressionOptions(compressionOptions),
-                fillValue(fillValue),
+                // the n5 format has no fill value: readers substitute 0
+                fillValue(isZarr ? fillValue : 0),
                 zarrDelimiter(zarrDelimiter),
                 chunkKeyEncoding(chunkKeyEncoding),
                 shardShape(shardShape)
-- 
2.43.0


From d3332db5caf93c31a7ddd2497a6dc532de943d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:11 +0000
Subject: [PATCH 07/18] fix: zarr v3 and n5 datasets with gzip metadata are
 gzip-encoded

---
 include/z5/metadata.hxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index 4bef9dd..dc48049 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -495,6 +495,11 @@ namespace z5 {
         auto internalCompressionOptions = compressionOptions;
         types::defaultCompressionOptions(internalCompressor, internalCompressionOptions, createAsZarr);
 
+        // only the zarr v2 metadata can tell zlib from gzip, the other formats prescribe gzip
+        if(internalCompressionOptions.count("useZlib") && !(createAsZarr && zarrFormat == 2)) {
+            internalCompressionOptions["useZlib"] = false;
+        }
+
         // sharding is only valid for zarr v3, and the shard shape must be a
         // whole multiple of the (inner) chunk shape along every axis
         if(!shardShape.empty()) {
-- 
2.43.0


From 3b4f19c49384f66f54b6b137562d0d4386b03a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:24 +0000
Subject: [PATCH 08/18] fix: reject zarr v3 metadata whose grid, key encoding,
 byte order or codecs are not supported

---
 include/z5/metadata.hxx    | 14 +++++++++++++-
 include/z5/types/types.hxx |  9 ++++++++-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index dc48049..1328615 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -324,6 +324,9 @@ namespace z5 {
             }
             shape = types::ShapeType(j.at("shape").begin(), j.at("shape").end());
 
+            if(j.at("chunk_grid").at("name") != "regular") {
+                throw std::runtime_error("z5.DatasetMetadata.fromJsonV3: unsupported chunk_grid");
+            }
             // outer chunk grid (== shard shape when sharded, else inner chunk shape)
             const auto & gridShape = j.at("chunk_grid").at("configuration").at("chunk_shape");
             types::ShapeType outerShape(gridShape.begin(), gridShape.end());
@@ -331,6 +334,9 @@ namespace z5 {
             // chunk key encoding
             const auto & cke = j.at("chunk_key_encoding");
             chunkKeyEncoding = cke.at("name").get<std::string>();
+            if(chunkKeyEncoding != "default" && chunkKeyEncoding != "v2") {
+                throw std::runtime_error("z5.DatasetMetadata.fromJsonV3: unsupported chunk_key_encoding: " + chunkKeyEncoding);
+            }
             if(cke.contains("configuration") && cke.at("configuration").contains("separator")) {
                 zarrDelimiter = cke.at("configuration").at("separator").get<std::string>();
             } else {
@@ -364,6 +370,12 @@ namespace z5 {
                 if(c.at("name") == "sharding_indexed") {
                     sharded = true;
                     const auto & scfg = c.at("configuration");
+                    if(codecs.size() != 1) {
+                        throw std::runtime_error("z5.DatasetMetadata.fromJsonV3: unsupported codecs around sharding_indexed");
+                    }
+                    if(scfg.contains("index_location") && scfg.at("index_location") != "end") {
+                        throw std::runtime_error("z5.DatasetMetadata.fromJsonV3: unsupported index_location");
+                    }
                     const auto & innerShapeJson = scfg.at("chunk_shape");
                     chunkShape = types::ShapeType(innerShapeJson.begin(), innerShapeJson.end());
                     shardShape = outerShape;
@@ -375,7 +387,7 @@ namespace z5 {
                 chunkShape = outerShape;
             }
 
-            types::readV3CodecsFromJson(*innerCodecs, compressor, compressionOptions);
+            types::readV3CodecsFromJson(*innerCodecs, types::datatypeSize(dtype), compressor, compressionOptions);
         }
 
     public:
diff --git a/include/z5/types/types.hxx b/include/z5/types/types.hxx
index b22db3b..d517fe6 100644
--- a/include/z5/types/types.hxx
+++ b/include/z5/types/types.hxx
@@ -508,15 +508,22 @@ namespace types {
 
     // parse a zarr v3 codec list into a Compressor + CompressionOptions (ignores the ``bytes`` codec)
     inline void readV3CodecsFromJson(const nlohmann::json & jCodecs,
+                                     std::size_t typesize,
                                      Compressor & compressor,
                                      CompressionOptions & options) {
         compressor = raw;
         for(const auto & c : jCodecs) {
             const std::string name = c.at("name").get<std::string>();
+            const nlohmann::json cfg = c.contains("configuration") ? c.at("configuration") : nlohmann::json::object();
             if(name == "bytes") {
+                if(typesize > 1 && cfg.value("endian", std::string("little")) != "little") {
+                    throw std::runtime_error("z5: unsupported endianness in zarr v3 bytes codec");
+                }
                 continue;
             }
-            const nlohmann::json cfg = c.contains("configuration") ? c.at("configuration") : nlohmann::json::object();
+            if(compressor != raw) {
+                throw std::runtime_error("z5: unsupported chain of zarr v3 codecs");
+            }
             if(name == "gzip") {
                 #ifdef WITH_ZLIB
                 compressor = zlib;
-- 
2.43.0


From 1d1df2b3b228560e9177da6d5350ec48dc292ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:40 +0000
Subject: [PATCH 09/18] fix: missing keys in stored metadata are an error
 instead of undefined behaviour

---
 include/z5/metadata.hxx    | 20 ++++++++++----------
 include/z5/types/types.hxx | 38 +++++++++++++++++++-------------------
 2 files changed, 29 insertions(+), 29 deletions(-)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index 1328615..3c907da 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -145,14 +145,14 @@ namespace z5 {
         void fromJsonZarr(const nlohmann::json & j) {
             checkJson(j);
             try {
-                dtype = types::Datatypes::zarrToDtype().at(j["dtype"]);
+                dtype = types::Datatypes::zarrToDtype().at(j.at("dtype"));
             } catch(std::out_of_range) {
-                throw std::runtime_error("Unsupported zarr dtype: " + static_cast<std::string>(j["dtype"]));
+                throw std::runtime_error("Unsupported zarr dtype: " + static_cast<std::string>(j.at("dtype")));
             }
-            shape = types::ShapeType(j["shape"].begin(), j["shape"].end());
-            chunkShape = types::ShapeType(j["chunks"].begin(), j["chunks"].end());
+            shape = types::ShapeType(j.at("shape").begin(), j.at("shape").end());
+            chunkShape = types::ShapeType(j.at("chunks").begin(), j.at("chunks").end());
 
-            const auto & fillValJson = j["fill_value"];
+            const auto & fillValJson = j.at("fill_value");
             if(fillValJson.type() == nlohmann::json::value_t::string) {
                 if (fillValJson == "NaN") {
                     fillValue = std::numeric_limits<double>::quiet_NaN();
@@ -176,9 +176,9 @@ namespace z5 {
                 zarrDelimiter = ".";
             }
 
-            const auto & compressionOpts = j["compressor"];
+            const auto & compressionOpts = j.at("compressor");
 
-            std::string zarrCompressorId = compressionOpts.is_null() ? "raw" : compressionOpts["id"];
+            std::string zarrCompressorId = compressionOpts.is_null() ? "raw" : compressionOpts.at("id");
             try {
                 compressor = types::Compressors::zarrToCompressor().at(zarrCompressorId);
             } catch(std::out_of_range) {
@@ -191,13 +191,13 @@ namespace z5 {
 
         void fromJsonN5(const nlohmann::json & j) {
 
-            dtype = types::Datatypes::n5ToDtype().at(j["dataType"]);
+            dtype = types::Datatypes::n5ToDtype().at(j.at("dataType"));
 
             // N5-Axis order: we need to reverse the shape when reading from metadata
-            shape = types::ShapeType(j["dimensions"].rbegin(), j["dimensions"].rend());
+            shape = types::ShapeType(j.at("dimensions").rbegin(), j.at("dimensions").rend());
 
             // N5-Axis order: we need to reverse the chunk shape when reading from metadata
-            chunkShape = types::ShapeType(j["blockSize"].rbegin(), j["blockSize"].rend());
+            chunkShape = types::ShapeType(j.at("blockSize").rbegin(), j.at("blockSize").rend());
 
             // we need to deal with two different encodings for compression in n5:
             // in the old format, we only have the field 'compressionType', indicating which compressor should be used
diff --git a/include/z5/types/types.hxx b/include/z5/types/types.hxx
index d517fe6..0629069 100644
--- a/include/z5/types/types.hxx
+++ b/include/z5/types/types.hxx
@@ -238,26 +238,26 @@ namespace types {
         std::string codec;
         switch(compressor) {
             #ifdef WITH_BLOSC
-            case blosc: options["codec"] = jOpts["cname"].get<std::string>();
-                        options["level"] = jOpts["clevel"].get<int>();
-                        options["shuffle"] = jOpts["shuffle"].get<int>();
+            case blosc: options["codec"] = jOpts.at("cname").get<std::string>();
+                        options["level"] = jOpts.at("clevel").get<int>();
+                        options["shuffle"] = jOpts.at("shuffle").get<int>();
                         // load blocksize with default value 0
-                        options["blocksize"] = (jOpts.find("blocksize") == jOpts.end()) ? 0 : jOpts["blocksize"].get<int>();
+                        options["blocksize"] = (jOpts.find("blocksize") == jOpts.end()) ? 0 : jOpts.at("blocksize").get<int>();
                         break;
             #endif
             #ifdef WITH_ZLIB
-            case zlib: options["level"] = jOpts["level"].get<int>();
-                       options["useZlib"] = jOpts["id"].get<std::string>() == "zlib";
+            case zlib: options["level"] = jOpts.at("level").get<int>();
+                       options["useZlib"] = jOpts.at("id").get<std::string>() == "zlib";
                        break;
             #endif
             #ifdef WITH_BZIP2
-            case bzip2: options["level"] = jOpts["level"].get<int>(); break;
+            case bzip2: options["level"] = jOpts.at("level").get<int>(); break;
             #endif
             #ifdef WITH_LZ4
-            case lz4: options["level"] = jOpts["acceleration"].get<int>(); break;
+            case lz4: options["level"] = jOpts.at("acceleration").get<int>(); break;
             #endif
             #ifdef WITH_ZSTD
-            case zstd: options["level"] = jOpts["level"].get<int>(); break;
+            case zstd: options["level"] = jOpts.at("level").get<int>(); break;
             #endif
             // raw compression has no parameters
             default: break;
@@ -312,31 +312,31 @@ namespace types {
         std::string codec;
         switch(compressor) {
             #ifdef WITH_ZLIB
-            case zlib: options["level"] = jOpts["level"].get<int>();
+            case zlib: options["level"] = jOpts.at("level").get<int>();
                        options["useZlib"] = false;
                        break;
             #endif
             #ifdef WITH_BZIP2
-            case bzip2: options["level"] = jOpts["blockSize"].get<int>(); break;
+            case bzip2: options["level"] = jOpts.at("blockSize").get<int>(); break;
             #endif
             #ifdef WITH_XZ
-            case xz: options["level"] = jOpts["preset"].get<int>(); break;
+            case xz: options["level"] = jOpts.at("preset").get<int>(); break;
             #endif
             #ifdef WITH_LZ4
-            case lz4: options["level"] = jOpts["blockSize"].get<int>(); break;
+            case lz4: options["level"] = jOpts.at("blockSize").get<int>(); break;
             #endif
             #ifdef WITH_BLOSC
-            case blosc: options["codec"] = jOpts["cname"].get<std::string>();
-                        options["level"] = jOpts["clevel"].get<int>();
-                        options["shuffle"] = jOpts["shuffle"].get<int>();
+            case blosc: options["codec"] = jOpts.at("cname").get<std::string>();
+                        options["level"] = jOpts.at("clevel").get<int>();
+                        options["shuffle"] = jOpts.at("shuffle").get<int>();
                         // load blocksize with default value 0
-                        options["blocksize"] = (jOpts.find("blocksize") == jOpts.end()) ? 0 : jOpts["blocksize"].get<int>();
+                        options["blocksize"] = (jOpts.find("blocksize") == jOpts.end()) ? 0 : jOpts.at("blocksize").get<int>();
                         // load nthreads with default value 1
-                        options["nthreads"] = (jOpts.find("nthreads") == jOpts.end()) ? 1 : jOpts["nthreads"].get<int>();
+                        options["nthreads"] = (jOpts.find("nthreads") == jOpts.end()) ? 1 : jOpts.at("nthreads").get<int>();
                         break;
             #endif
             #ifdef WITH_ZSTD
-            case zstd: options["level"] = jOpts["level"].get<int>(); break;
+            case zstd: options["level"] = jOpts.at("level").get<int>(); break;
             #endif
             // raw compression has no parameters
             default: break;
-- 
2.43.0


From 5f65f6daa7ae088f6551548f60919c73e51a9752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:40 +0000
Subject: [PATCH 10/18] fix: null fill value of zarr v2 integer datasets is 0,
 not a NaN cast to an integer

---
 include/z5/metadata.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index 3c907da..e586d0b 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -164,7 +164,9 @@ namespace z5 {
                     throw std::runtime_error("Invalid string value for fillValue");
                 }
             } else if(fillValJson.type() == nlohmann::json::value_t::null) {
-                fillValue = std::numeric_limits<double>::quiet_NaN();
+                // NaN cannot be represented in integer data types
+                const bool isFloat = dtype == types::float32 || dtype == types::float64;
+                fillValue = isFloat ? std::numeric_limits<double>::quiet_NaN() : 0;
             } else {
                 fillValue = static_cast<double>(fillValJson);
             }
-- 
2.43.0


From 4c814d900d4f66c794b6668c42854028499d3ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:16 +0000
Subject: [PATCH 11/18] fix: blosc decompression does not read beyond the
 stored bytes

---
 include/z5/compression/blosc_compressor.hxx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/z5/compression/blosc_compressor.hxx b/include/z5/compression/blosc_compressor.hxx
index 716bf5f..fb36fc1 100644
--- a/include/z5/compression/blosc_compressor.hxx
+++ b/include/z5/compression/blosc_compressor.hxx
@@ -47,7 +47,13 @@ namespace compression {
             dataOut.resize(sizeCompressed);
         }
 
-        void decompress(const char * dataIn, std::size_t, T * dataOut, std::size_t sizeOut) const {
+        void decompress(const char * dataIn, std::size_t nBytesIn, T * dataOut, std::size_t sizeOut) const {
+
+            // the length in the header must be that of the input: blosc reads as much as it says
+            std::size_t sizeStored = 0;
+            if(blosc_cbuffer_validate(dataIn, nBytesIn, &sizeStored) < 0) {
+                throw std::runtime_error("Blosc decompression failed: invalid buffer");
+            }
 
             // decompress the data (blosc reads the compressed length from its own header)
             int sizeDecompressed = blosc_decompress_ctx(
-- 
2.43.0


From 1b0146eafa5dfa855ac22788c726d990ea511fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:16 +0000
Subject: [PATCH 12/18] fix: chunks beyond the 32 bit sizes of bzip2 are an
 error instead of being truncated

---
 include/z5/compression/bzip2_compressor.hxx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/z5/compression/bzip2_compressor.hxx b/include/z5/compression/bzip2_compressor.hxx
index d80203c..d020a02 100644
--- a/include/z5/compression/bzip2_compressor.hxx
+++ b/include/z5/compression/bzip2_compressor.hxx
@@ -3,6 +3,7 @@
 #ifdef WITH_BZIP2
 
 #include <bzlib.h>
+#include <limits>
 
 #include "z5/compression/compressor_base.hxx"
 #include "z5/metadata.hxx"
@@ -32,6 +33,11 @@ namespace compression {
             outSize += 600;
             dataOut.resize(outSize);
 
+            // the sizes in the bzip2 stream have only 32 bits
+            if(outSize > std::numeric_limits<unsigned int>::max()) {
+                throw std::runtime_error("z5: chunk is too large for bzip2 compression");
+            }
+
             // low - level API
             // open the bzip2 stream and set pointer values
             bz_stream bzs;
@@ -66,6 +72,12 @@ namespace compression {
 
         void decompress(const char * dataIn, std::size_t nBytesIn, T * dataOut, std::size_t sizeOut) const {
 
+            // the sizes in the bzip2 stream have only 32 bits
+            if(nBytesIn > std::numeric_limits<unsigned int>::max() ||
+               sizeOut * sizeof(T) > std::numeric_limits<unsigned int>::max()) {
+                throw std::runtime_error("z5: chunk is too large for bzip2 decompression");
+            }
+
             // create the bzip2 stream
             bz_stream bzs;
             bzs.opaque = NULL;
-- 
2.43.0


From 899eba184be87ee43a08996a434f03cea1c7cb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:16 +0000
Subject: [PATCH 13/18] fix: sizes beyond the int range of lz4 are an error
 instead of being truncated

---
 include/z5/compression/lz4_compressor.hxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/z5/compression/lz4_compressor.hxx b/include/z5/compression/lz4_compressor.hxx
index 1cefe94..4591437 100644
--- a/include/z5/compression/lz4_compressor.hxx
+++ b/include/z5/compression/lz4_compressor.hxx
@@ -2,6 +2,8 @@
 
 #ifdef WITH_LZ4
 
+#include <limits>
+
 #include <lz4.h>
 #include <lz4hc.h>
 
@@ -46,6 +48,11 @@ namespace compression {
         }
 
         void decompress(const char * dataIn, std::size_t nBytesIn, T * dataOut, std::size_t sizeOut) const {
+            // the sizes of the lz4 api are int
+            const std::size_t maxSize = static_cast<std::size_t>(std::numeric_limits<int>::max());
+            if(nBytesIn > maxSize || sizeOut * sizeof(T) > maxSize) {
+                throw std::runtime_error("z5: chunk is too large for lz4 decompression");
+            }
             const int compressed = LZ4_decompress_safe(dataIn, (char *) dataOut,
                                                        nBytesIn, sizeOut * sizeof(T));
             if(compressed <= 0) {
-- 
2.43.0


From c75d3bfaab80d36d3d97e65d0bb3598e4f830afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:17 +0000
Subject: [PATCH 14/18] fix: corrupt or full-size n5 edge chunks are not
 written beyond the output buffer

---
 include/z5/filesystem/store.hxx        | 20 +++++++++---
 include/z5/multiarray/array_access.hxx | 45 +++++++++++++++++++++++---
 include/z5/util/format_data.hxx        | 15 +++++++--
 src/python/lib/dataset.cxx             |  3 +-
 4 files changed, 71 insertions(+), 12 deletions(-)

diff --git a/include/z5/filesystem/store.hxx b/include/z5/filesystem/store.hxx
index 02de523..913623e 100644
--- a/include/z5/filesystem/store.hxx
+++ b/include/z5/filesystem/store.hxx
@@ -99,24 +99,28 @@ namespace store_detail {
             std::ifstream file(chunk.path(), std::ios::binary);
 
             // read the mode
-            uint16_t mode;
+            uint16_t mode = 0;
             file.read((char *) &mode, 2);
             util::reverseEndiannessInplace(mode);
 
-            if(mode == 0) {
+            // same condition as in util::read_n5_header
+            if(file.good() && mode != 1) {
                 return false;
             }
 
             // read the number of dimensions
-            uint16_t ndim;
+            uint16_t ndim = 0;
             file.read((char *) &ndim, 2);
             util::reverseEndiannessInplace(ndim);
 
             // advance the file by ndim * 4 to skip the shape
             file.seekg((ndim + 1) * 4);
 
-            uint32_t varlength;
+            uint32_t varlength = 0;
             file.read((char*) &varlength, 4);
+            if(!file.good()) {
+                throw std::runtime_error("z5: invalid n5 chunk: truncated header");
+            }
             util::reverseEndiannessInplace(varlength);
             chunkSize = varlength;
 
@@ -133,15 +137,21 @@ namespace store_detail {
             file.seekg(2);
 
             // read the number of dimensions
-            uint16_t ndim;
+            uint16_t ndim = 0;
             file.read((char *) &ndim, 2);
             util::reverseEndiannessInplace(ndim);
+            if(!file.good() || ndim != chunk.defaultShape().size()) {
+                throw std::runtime_error("z5: invalid n5 chunk: invalid number of dimensions");
+            }
 
             // read temporary shape with uint32 entries
             std::vector<uint32_t> shapeTmp(ndim);
             for(int d = 0; d < ndim; ++d) {
                 file.read((char *) &shapeTmp[d], 4);
             }
+            if(!file.good()) {
+                throw std::runtime_error("z5: invalid n5 chunk: truncated header");
+            }
             util::reverseEndiannessInplace<uint32_t>(shapeTmp.begin(), shapeTmp.end());
 
             // N5-Axis order: we need to reverse the chunk shape read from the header
diff --git a/include/z5/multiarray/array_access.hxx b/include/z5/multiarray/array_access.hxx
index 70f426c..161a34c 100644
--- a/include/z5/multiarray/array_access.hxx
+++ b/include/z5/multiarray/array_access.hxx
@@ -247,6 +247,45 @@ namespace multiarray {
     }
 
 
+    // read the existing chunk `chunkId` into `buf`, which has the shape `chunkShape` (the
+    // chunk shape, clipped at the dataset border for n5). An n5 edge chunk may be stored
+    // at full size; then its leading block holds the valid data.
+    template<typename T>
+    inline void readExistingChunk(const Dataset & ds,
+                                  const types::ShapeType & chunkId,
+                                  const bool isZarr,
+                                  const std::size_t maxChunkSize,
+                                  const types::ShapeType & chunkShape,
+                                  std::vector<T> & buf) {
+        std::vector<char> dataBuffer;
+        ds.readRawChunk(chunkId, dataBuffer);
+
+        std::size_t storeSize = maxChunkSize;
+        std::size_t headerLength = 0;
+        if(!isZarr && util::read_n5_header(dataBuffer, storeSize, headerLength)) {
+            throw std::runtime_error("Can't write to varlen chunks from multiarray");
+        }
+        const bool atFullSize = storeSize != buf.size();
+        if(atFullSize && storeSize != maxChunkSize) {
+            throw std::runtime_error("z5: stored chunk has an unexpected size");
+        }
+
+        std::vector<T> full(atFullSize ? maxChunkSize : 0);
+        std::vector<T> & data = atFullSize ? full : buf;
+        ds.decompress(dataBuffer.data() + headerLength, dataBuffer.size() - headerLength,
+                      &data[0], data.size());
+        if(!isZarr && sizeof(T) > 1) {
+            util::reverseEndiannessInplace<T>(data.begin(), data.end());
+        }
+        if(atFullSize) {
+            const auto & fullShape = ds.defaultChunkShape();
+            const ConstArrayView<T> fullView(full.data(), fullShape, cOrderStrides(fullShape));
+            copyView(subview(fullView, types::ShapeType(fullShape.size(), 0), chunkShape),
+                     makeView(buf.data(), chunkShape));
+        }
+    }
+
+
     // chunk-by-chunk write driver for non-sharded datasets; the request data is
     // written into each chunk buffer by `fillRequest` (see prepareChunkWriteBuffer).
     // Shared by writeSubarray (copy from input view) and writeScalar (fill value).
@@ -277,10 +316,8 @@ namespace multiarray {
                                            if(!ds.chunkExists(chunkId)) {
                                                return false;
                                            }
-                                           if(ds.readChunk(chunkId, &buf[0])) {
-                                               throw std::runtime_error(
-                                                   "Can't write to varlen chunks from multiarray");
-                                           }
+                                           readExistingChunk(ds, chunkId, isZarr, maxChunkSize,
+                                                             chunkShape, buf);
                                            return true;
                                        });
             ds.writeChunk(chunkId, &buffer[0]);
diff --git a/include/z5/util/format_data.hxx b/include/z5/util/format_data.hxx
index 6f9606c..47b4cec 100644
--- a/include/z5/util/format_data.hxx
+++ b/include/z5/util/format_data.hxx
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <limits>
+
 #include "z5/handle.hxx"
 
 namespace z5 {
@@ -212,8 +214,13 @@ namespace util {
             data_size = varlength;
             headerlen += 4;
         } else {
-            data_size = std::accumulate(shape.begin(), shape.end(),
-                                        std::size_t(1), std::multiplies<std::size_t>());
+            data_size = 1;
+            for(const uint32_t s : shape) {
+                if(s != 0 && data_size > std::numeric_limits<std::size_t>::max() / s) {
+                    throw std::runtime_error("z5: invalid n5 chunk: shape too large");
+                }
+                data_size *= s;
+            }
         }
 
         header_length = headerlen;
@@ -234,6 +241,10 @@ namespace util {
 
         if(!is_zarr) {
             is_varlen = read_n5_header(buffer, chunk_size, header_length);
+            // dataOut has room for a full chunk (or for the varlen size reported to the caller)
+            if(!is_varlen && chunk_size > chunk.defaultSize()) {
+                throw std::runtime_error("z5: n5 chunk is larger than the expected chunk size");
+            }
         }
 
         // decode straight past the header (no copy / memmove of the payload)
diff --git a/src/python/lib/dataset.cxx b/src/python/lib/dataset.cxx
index e327a4b..b275d67 100644
--- a/src/python/lib/dataset.cxx
+++ b/src/python/lib/dataset.cxx
@@ -123,7 +123,8 @@ namespace z5 {
                     // must be allocated accordingly
                     shape = ds.defaultChunkShape();
                 } else {
-                    ds.getChunkShape(chunkId, shape);
+                    // edge chunks may be stored clipped or at full size
+                    ds.getChunkShape(chunkId, shape, true);
                 }
             }
         }
-- 
2.43.0


From 51415d6bc37cd00e3a29c858bacc9c83993192fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:17 +0000
Subject: [PATCH 15/18] fix: truncated raw chunks are an error instead of
 leaving parts of the output unassigned

---
 include/z5/multiarray/array_access.hxx | 3 +++
 include/z5/util/format_data.hxx        | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/include/z5/multiarray/array_access.hxx b/include/z5/multiarray/array_access.hxx
index 161a34c..f730362 100644
--- a/include/z5/multiarray/array_access.hxx
+++ b/include/z5/multiarray/array_access.hxx
@@ -129,6 +129,9 @@ namespace multiarray {
             // edge chunk stored at full size (zarr) -> use the default chunk shape; the
             // leading block of the buffer holds the valid data.
             if(chunkStoreSize != chunkSize) {
+                if(chunkStoreSize != maxChunkSize) {
+                    throw std::runtime_error("z5: stored chunk has an unexpected size");
+                }
                 chunkSize = maxChunkSize;
                 chunkShape = maxChunkShape;
             }
diff --git a/include/z5/util/format_data.hxx b/include/z5/util/format_data.hxx
index 47b4cec..69e358c 100644
--- a/include/z5/util/format_data.hxx
+++ b/include/z5/util/format_data.hxx
@@ -150,6 +150,10 @@ namespace util {
             if(nBytes > data_size * sizeof(T)) {
                 throw std::runtime_error("z5: raw chunk is larger than the expected chunk size");
             }
+            // and a truncated chunk must not leave a part of the output unassigned
+            if(nBytes < data_size * sizeof(T)) {
+                throw std::runtime_error("z5: raw chunk is smaller than the expected chunk size");
+            }
             // mem-copy the binary data that was read to typed out data
             memcpy((T*) dataOut, buffer, nBytes);
         } else {
-- 
2.43.0


From 000ce7c1017866ac25fb9f1a304e9a597def5972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:38 +0000
Subject: [PATCH 16/18] fix: failed writes of chunks, attributes and metadata
 are reported

---
 include/z5/filesystem/attributes.hxx | 12 ++++++++++--
 include/z5/filesystem/metadata.hxx   |  3 +++
 include/z5/filesystem/store.hxx      |  4 ++++
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/z5/filesystem/attributes.hxx b/include/z5/filesystem/attributes.hxx
index 3a31197..06e2ebc 100644
--- a/include/z5/filesystem/attributes.hxx
+++ b/include/z5/filesystem/attributes.hxx
@@ -45,17 +45,25 @@ namespace attrs_detail {
         inline void write(const std::string & name, const nlohmann::json & j) const {
             std::ofstream file(base_ / name);
             file << j;
-            file.close();
+            finish(file, name);
         }
 
         // pretty serialization (zarr.json and metadata files)
         inline void writePretty(const std::string & name, const nlohmann::json & j) const {
             std::ofstream file(base_ / name);
             file << std::setw(4) << j << std::endl;
-            file.close();
+            finish(file, name);
         }
 
     private:
+        // close the file and make sure that the document was written
+        inline void finish(std::ofstream & file, const std::string & name) const {
+            file.close();
+            if(!file.good()) {
+                throw std::runtime_error("z5: failed to write " + (base_ / name).string());
+            }
+        }
+
         fs::path base_;
     };
 
diff --git a/include/z5/filesystem/metadata.hxx b/include/z5/filesystem/metadata.hxx
index dcab787..8d3bc5b 100644
--- a/include/z5/filesystem/metadata.hxx
+++ b/include/z5/filesystem/metadata.hxx
@@ -13,6 +13,9 @@ namespace metadata_detail {
         std::ofstream file(path);
         file << std::setw(4) << j << std::endl;
         file.close();
+        if(!file.good()) {
+            throw std::runtime_error("z5: failed to write metadata file: " + path.string());
+        }
     }
 
     inline void readMetadata(const fs::path & path, nlohmann::json & j) {
diff --git a/include/z5/filesystem/store.hxx b/include/z5/filesystem/store.hxx
index 913623e..1f98c7a 100644
--- a/include/z5/filesystem/store.hxx
+++ b/include/z5/filesystem/store.hxx
@@ -45,7 +45,11 @@ namespace store_detail {
         if(!file.good()) {
             throw std::runtime_error(std::string("z5: failed to write ") + what + " file: " + path.string());
         }
+        // the buffered rest is written when the file is closed
         file.close();
+        if(!file.good()) {
+            throw std::runtime_error(std::string("z5: failed to write ") + what + " file: " + path.string());
+        }
     }
 
 }  // namespace store_detail
-- 
2.43.0


From cd1e5e63157a965964076cb8952215672b496bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:17 +0000
Subject: [PATCH 17/18] fix: the index -size selects the first element, like in
 numpy

---
 src/python/module/z5py/shape_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/module/z5py/shape_utils.py b/src/python/module/z5py/shape_utils.py
index 99c2ea2..fe2cd1f 100644
--- a/src/python/module/z5py/shape_utils.py
+++ b/src/python/module/z5py/shape_utils.py
@@ -41,7 +41,7 @@ def slice_to_start_stop(s, size):
 def int_to_start_stop(i, size):
     """For a single dimension with a given size, turn an int into slice(start, stop)
     pair."""
-    if -size < i < 0:
+    if -size <= i < 0:
         start = i + size
     elif i >= size or i < -size:
         raise ValueError('Index ({}) out of range (0-{})'.format(i, size - 1))
-- 
2.43.0


From c412b45afee2093901d92caf634811d264285108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:14 +0000
Subject: [PATCH 18/18] fix: dimension separators that let keys of chunks
 collide are rejected

---
 include/z5/metadata.hxx | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index e586d0b..2304026 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -59,6 +59,7 @@ namespace z5 {
                 shardShape(shardShape)
         {
             checkShapes();
+            checkChunkKeys();
         }
 
 
@@ -96,6 +97,7 @@ namespace z5 {
                 fromJsonN5(j);
             }
             checkShapes();
+            checkChunkKeys();
         }
 
     private:
@@ -440,6 +442,20 @@ namespace z5 {
         }
 
 
+        // make sure that distinct chunks have distinct keys
+        void checkChunkKeys() {
+            if(!isZarr) {
+                return;
+            }
+            if(zarrDelimiter != "." && zarrDelimiter != "/") {
+                throw std::runtime_error("Unsupported dimension separator: " + zarrDelimiter);
+            }
+            if(zarrFormat == 3 && chunkKeyEncoding != "default" && chunkKeyEncoding != "v2") {
+                throw std::runtime_error("Unsupported chunk key encoding: " + chunkKeyEncoding);
+            }
+        }
+
+
         // make sure that fixed metadata values agree
         void checkJson(const nlohmann::json & j) {
 
-- 
2.43.0

