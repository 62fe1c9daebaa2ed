From ff94c92b3ec5380cec1542b119d0d071972b9e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 01/27] fix: compute the length of a 2D range in SizeType

The product of the extents was computed in the index type and overflowed for
ranges larger than it (e.g. an int range of 65536 x 65536 was empty).
---
 include/dlaf/common/range2d.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dlaf/common/range2d.h b/include/dlaf/common/range2d.h
index fd1a5a4..daf46a8 100644
--- a/include/dlaf/common/range2d.h
+++ b/include/dlaf/common/range2d.h
@@ -174,11 +174,11 @@ class IterableRange2D {
 
 public:
   IterableRange2D(index2d_t begin_idx, size2d_t sz)
-      : begin_idx_(begin_idx), ld_(sz.rows()), i_max_(sz.rows() * sz.cols()) {}
+      : begin_idx_(begin_idx), ld_(sz.rows()), i_max_(sz.linear_size()) {}
 
   IterableRange2D(index2d_t begin_idx, index2d_t end_idx)
       : begin_idx_(begin_idx), ld_(end_idx.row() - begin_idx.row()),
-        i_max_(ld_ * (end_idx.col() - begin_idx_.col())) {
+        i_max_(static_cast<SizeType>(ld_) * (end_idx.col() - begin_idx.col())) {
     DLAF_ASSERT(begin_idx.row() <= end_idx.row(), begin_idx, end_idx);
     DLAF_ASSERT(begin_idx.col() <= end_idx.col(), begin_idx, end_idx);
   }
-- 
2.43.0


From 7e0536fd9fd0d2bce0fd9b3912ba0d129282ec66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:33 +0000
Subject: [PATCH 02/27] fix: release the datatype overwritten by a move
 assignment of type_handler

Move assignment dropped the MPI datatype held by the target without freeing it
and lost the datatype on self move.
---
 include/dlaf/communication/type_handler.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/dlaf/communication/type_handler.h b/include/dlaf/communication/type_handler.h
index abaf6ba..ce20724 100644
--- a/include/dlaf/communication/type_handler.h
+++ b/include/dlaf/communication/type_handler.h
@@ -57,8 +57,12 @@ struct type_handler {
   }
 
   type_handler& operator=(type_handler&& rhs) noexcept {
-    custom_type_ = rhs.custom_type_;
-    rhs.custom_type_ = MPI_DATATYPE_NULL;
+    if (this != &rhs) {
+      if (static_cast<bool>(*this))
+        DLAF_MPI_CHECK_ERROR(MPI_Type_free(&custom_type_));
+      custom_type_ = rhs.custom_type_;
+      rhs.custom_type_ = MPI_DATATYPE_NULL;
+    }
     return *this;
   }
 
-- 
2.43.0


From 0736b86fd488ff2f0a4d5b6e2a127cafabe17e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:19 +0000
Subject: [PATCH 03/27] fix: normalise the layout when converting to a
 DataDescriptor

Converting from a Data whose adjacent blocks touch kept more than one block
while reporting a contiguous layout, so count() and copy() covered only the
first block.
---
 include/dlaf/common/data_descriptor.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/dlaf/common/data_descriptor.h b/include/dlaf/common/data_descriptor.h
index fb6db14..c089a12 100644
--- a/include/dlaf/common/data_descriptor.h
+++ b/include/dlaf/common/data_descriptor.h
@@ -80,12 +80,9 @@ struct DataDescriptor {
   /// Create a DataDescriptor from any given Data concept.
   /// It allows to use the DataDescriptor as "base-class" for any implementation of Data concept.
   template <class Data, class T_ = T, class = std::enable_if_t<std::is_const_v<T_>>>
-  DataDescriptor(const Data& data) {
-    data_ = data_pointer(data);
-    nblocks_ = data_nblocks(data);
-    blocksize_ = data_blocksize(data);
-    stride_ = data_stride(data);
-  }
+  DataDescriptor(const Data& data)
+      : DataDescriptor(data_pointer(data), data_nblocks(data), data_blocksize(data),
+                       data_stride(data)) {}
 
   /// Pointer to data.
   T* data() const noexcept {
-- 
2.43.0


From 52a9c05d5aafe4a0f2a8e2efc7ce346285d93883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:23 +0000
Subject: [PATCH 04/27] fix: report no blocks for an empty matrix with an
 offset

---
 include/dlaf/matrix/distribution.h | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/dlaf/matrix/distribution.h b/include/dlaf/matrix/distribution.h
index 3752b08..fe7b29d 100644
--- a/include/dlaf/matrix/distribution.h
+++ b/include/dlaf/matrix/distribution.h
@@ -249,18 +249,24 @@ public:
 
   /// Returns the number of blocks of the global matrix (2D size).
   const GlobalBlockSize nr_blocks() const noexcept {
-    return {util::ceilDiv(nr_tiles_.rows() + global_tile_offset<Coord::Row>(),
-                          tiles_per_block<Coord::Row>()),
-            util::ceilDiv(nr_tiles_.cols() + global_tile_offset<Coord::Col>(),
-                          tiles_per_block<Coord::Col>())};
+    return {nr_tiles_.rows() > 0 ? util::ceilDiv(nr_tiles_.rows() + global_tile_offset<Coord::Row>(),
+                                                 tiles_per_block<Coord::Row>())
+                                 : 0,
+            nr_tiles_.cols() > 0 ? util::ceilDiv(nr_tiles_.cols() + global_tile_offset<Coord::Col>(),
+                                                 tiles_per_block<Coord::Col>())
+                                 : 0};
   }
 
   /// Returns the number of blocks stored locally (2D size).
   const LocalBlockSize local_nr_blocks() const noexcept {
-    return {util::ceilDiv(local_nr_tiles_.rows() + local_tile_offset<Coord::Row>(),
-                          tiles_per_block<Coord::Row>()),
-            util::ceilDiv(local_nr_tiles_.cols() + local_tile_offset<Coord::Col>(),
-                          tiles_per_block<Coord::Col>())};
+    return {local_nr_tiles_.rows() > 0
+                ? util::ceilDiv(local_nr_tiles_.rows() + local_tile_offset<Coord::Row>(),
+                                tiles_per_block<Coord::Row>())
+                : 0,
+            local_nr_tiles_.cols() > 0
+                ? util::ceilDiv(local_nr_tiles_.cols() + local_tile_offset<Coord::Col>(),
+                                tiles_per_block<Coord::Col>())
+                : 0};
   }
 
   const GlobalElementSize& block_size() const noexcept {
-- 
2.43.0


From 36215bd49e4cda69be6caaf5b29510615d68b141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:23 +0000
Subject: [PATCH 05/27] fix: normalise the source rank of a distribution
 without narrowing the block offset

---
 src/matrix/distribution.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/matrix/distribution.cpp b/src/matrix/distribution.cpp
index c0007b0..8933ae4 100644
--- a/src/matrix/distribution.cpp
+++ b/src/matrix/distribution.cpp
@@ -153,8 +153,10 @@ void Distribution::normalize_source_rank_and_offset() noexcept {
   auto div_col = std::div(offset_.col(), block_size_.cols());
 
   offset_ = {div_row.rem, div_col.rem};
-  source_rank_index_ = {(source_rank_index_.row() + static_cast<int>(div_row.quot)) % grid_size_.rows(),
-                        (source_rank_index_.col() + static_cast<int>(div_col.quot)) % grid_size_.cols()};
+  // The number of blocks skipped by the offset is not limited to the range of int.
+  source_rank_index_ = {
+      static_cast<int>((source_rank_index_.row() + div_row.quot) % grid_size_.rows()),
+      static_cast<int>((source_rank_index_.col() + div_col.quot) % grid_size_.cols())};
 
   DLAF_ASSERT(offset_.row() < block_size_.rows(), offset_, block_size_);
   DLAF_ASSERT(offset_.col() < block_size_.cols(), offset_, block_size_);
-- 
2.43.0


From 8f29c57c637a44988326c163a96d3474c6df46d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:07 +0000
Subject: [PATCH 06/27] fix: give the value back to the parent when a sub
 pipeline is overwritten by assignment

---
 include/dlaf/common/pipeline.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dlaf/common/pipeline.h b/include/dlaf/common/pipeline.h
index 6f225e5..c260cb2 100644
--- a/include/dlaf/common/pipeline.h
+++ b/include/dlaf/common/pipeline.h
@@ -52,6 +52,7 @@ public:
 
   Pipeline& operator=(Pipeline&& other) noexcept {
     if (this != &other) {
+      release_parent_pipeline();
       pipeline = std::exchange(other.pipeline, std::nullopt);
       nested_sender = std::exchange(other.nested_sender, std::nullopt);
     }
-- 
2.43.0


From be1efaa68d5f52bb55c4245c0f23c093120e2a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:15 +0000
Subject: [PATCH 07/27] fix: never give the context of an existing grid to a
 new grid

---
 src/c_api/grid.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/c_api/grid.cpp b/src/c_api/grid.cpp
index 3793bb4..3c5d726 100644
--- a/src/c_api/grid.cpp
+++ b/src/c_api/grid.cpp
@@ -30,6 +30,10 @@ int dlaf_create_grid(MPI_Comm comm, int nprow, int npcol, char order) noexcept {
   // blacs starts to number contexts from 0
   int dlaf_context = std::numeric_limits<int>::max() - static_cast<int>(std::size(dlaf_grids));
 
+  // after grids have been freed out of order the context may still belong to another grid
+  while (dlaf_grids.count(dlaf_context) > 0)
+    --dlaf_context;
+
   auto dlaf_order = char2order(order);
 
   DLAF_MPI_CHECK_ERROR(MPI_Barrier(comm));
-- 
2.43.0


From 97d5ba3711f9ed4f049950bc5d9880bf2c67fdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:53 +0000
Subject: [PATCH 08/27] fix: use the options of the device memory pool for the
 device memory pool

---
 src/init.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/init.cpp b/src/init.cpp
index a709ca4..9e8ec96 100644
--- a/src/init.cpp
+++ b/src/init.cpp
@@ -126,9 +126,9 @@ struct Init<Backend::GPU> {
     const int device = 0;
     memory::internal::initializeUmpireDeviceAllocator(
         cfg.umpire_device_memory_pool_initial_block_bytes,
-        cfg.umpire_device_memory_pool_initial_block_bytes, cfg.umpire_device_memory_pool_alignment_bytes,
-        cfg.umpire_host_memory_pool_coalescing_free_ratio,
-        cfg.umpire_host_memory_pool_coalescing_reallocation_ratio);
+        cfg.umpire_device_memory_pool_next_block_bytes, cfg.umpire_device_memory_pool_alignment_bytes,
+        cfg.umpire_device_memory_pool_coalescing_free_ratio,
+        cfg.umpire_device_memory_pool_coalescing_reallocation_ratio);
 #if PIKA_VERSION_FULL >= 0x001F00  // >= 0.31.0
     initializeGpuPool(device, cfg.num_np_gpu_streams, cfg.num_hp_gpu_streams, cfg.num_gpu_blas_handles,
                       cfg.num_gpu_lapack_handles);
-- 
2.43.0


From fdaeb4e9868673262f676fee4ba6f5177407a4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:53 +0000
Subject: [PATCH 09/27] fix: print the number of communicator pipelines with
 the tune parameters

---
 src/tune.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tune.cpp b/src/tune.cpp
index 6561638..76dd97b 100644
--- a/src/tune.cpp
+++ b/src/tune.cpp
@@ -34,6 +34,7 @@ std::ostream& operator<<(std::ostream& os, const TuneParameters& params) {
      << std::endl;
   os << "  bt_band_to_tridiag_hh_apply_group_size = " << params.bt_band_to_tridiag_hh_apply_group_size
      << std::endl;
+  os << "  communicator_grid_num_pipelines = " << params.communicator_grid_num_pipelines << std::endl;
   return os;
 }
 
-- 
2.43.0


From abc71c4210d8ba33f4a6dc3e11dbaaa5ca11d45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:50 +0000
Subject: [PATCH 10/27] fix: set the allocation layout of sub-pipelined
 matrices

---
 include/dlaf/matrix/matrix.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dlaf/matrix/matrix.h b/include/dlaf/matrix/matrix.h
index f212660..411ca58 100644
--- a/include/dlaf/matrix/matrix.h
+++ b/include/dlaf/matrix/matrix.h
@@ -464,7 +464,8 @@ protected:
   }
 
   struct SubPipelineTag {};
-  Matrix(Matrix& mat, const SubPipelineTag) noexcept : MatrixBase(mat.distribution()) {
+  Matrix(Matrix& mat, const SubPipelineTag) noexcept
+      : MatrixBase(mat.distribution()), allocation_layout_(mat.allocation_layout()) {
     set_up_sub_pipelines(mat);
   }
 
-- 
2.43.0


From dbfd3600a60429a9b6c898e8d83d09de8b3e3fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:50 +0000
Subject: [PATCH 11/27] fix: check the offset of the distribution of a new
 matrix, not the moved-from one

---
 include/dlaf/matrix/matrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dlaf/matrix/matrix.h b/include/dlaf/matrix/matrix.h
index 411ca58..c770262 100644
--- a/include/dlaf/matrix/matrix.h
+++ b/include/dlaf/matrix/matrix.h
@@ -459,8 +459,8 @@ public:
 protected:
   Matrix(Distribution distribution, AllocationLayout alloc)
       : internal::MatrixBase{std::move(distribution)}, allocation_layout_(alloc) {
-    DLAF_ASSERT((distribution.offset() == GlobalElementIndex{0, 0}), "not supported",
-                distribution.offset());
+    DLAF_ASSERT((this->distribution().offset() == GlobalElementIndex{0, 0}), "not supported",
+                this->distribution().offset());
   }
 
   struct SubPipelineTag {};
-- 
2.43.0


From 9ae1e858ecf95160a00de0024618c32606341b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:03 +0000
Subject: [PATCH 12/27] fix: count partial tiles when checking a block
 allocation

---
 include/dlaf/matrix/check_allocation.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/dlaf/matrix/check_allocation.h b/include/dlaf/matrix/check_allocation.h
index d28f533..0b4e53c 100644
--- a/include/dlaf/matrix/check_allocation.h
+++ b/include/dlaf/matrix/check_allocation.h
@@ -22,6 +22,7 @@
 #include <dlaf/matrix/allocation.h>
 #include <dlaf/matrix/distribution.h>
 #include <dlaf/types.h>
+#include <dlaf/util_math.h>
 #include <dlaf/util_matrix.h>
 
 namespace dlaf::matrix::test {
@@ -81,7 +82,7 @@ bool is_allocated_as_blocks(MatrixLike& mat) {
     // When computing the number of tiles in a block, special care is needed when only a single block is
     // present, as it can contain two incomplete tiles.
     SizeType nb = helper_dist.local_tile_size_of<Coord::Col>(j_bl);
-    SizeType tiles_in_block_cols = nb / dist.tile_size().cols();
+    SizeType tiles_in_block_cols = dlaf::util::ceilDiv(nb, dist.tile_size().cols());
     if (local_nr_blocks.cols() == 1)
       tiles_in_block_cols = dist.local_nr_tiles().cols();
 
@@ -89,7 +90,7 @@ bool is_allocated_as_blocks(MatrixLike& mat) {
       // When computing the number of tiles in a block, special care is needed when only a single block
       // is present, as it can contain two incomplete tiles.
       SizeType mb = helper_dist.local_tile_size_of<Coord::Row>(i_bl);
-      SizeType tiles_in_block_rows = mb / dist.tile_size().rows();
+      SizeType tiles_in_block_rows = dlaf::util::ceilDiv(mb, dist.tile_size().rows());
       if (local_nr_blocks.rows() == 1)
         tiles_in_block_rows = dist.local_nr_tiles().rows();
 
-- 
2.43.0


From 8825c2a0e3c2ff0701c46c98792801efffdb4591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:28 +0000
Subject: [PATCH 13/27] fix: panel range set by tile index starts at the first
 element of the tile

A range start set by element index left its offset inside the first tile behind,
so that ranges set by tile index afterwards were clipped by it.
---
 include/dlaf/matrix/panel.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/dlaf/matrix/panel.h b/include/dlaf/matrix/panel.h
index 7157eec..c33dd85 100644
--- a/include/dlaf/matrix/panel.h
+++ b/include/dlaf/matrix/panel.h
@@ -169,6 +169,7 @@ struct Panel<axis, const T, D, StoreTransposed::No> {
 
     start_ = start_idx.get(coord);
     start_local_ = dist_matrix_.nextLocalTileFromGlobalTile<coord>(start_);
+    start_offset_ = 0;
     offset_element_ = start_ * dist_matrix_.tile_size().template get<coord>();
 
     DLAF_ASSERT(rangeStartLocal() >= bias_ && rangeStart() <= rangeEnd(), rangeStart(), rangeEnd(),
@@ -324,6 +325,7 @@ protected:
   void initRange(GlobalTileIndex start_idx, GlobalTileIndex end_idx) {
     start_ = start_idx.get(coord);
     start_local_ = dist_matrix_.template nextLocalTileFromGlobalTile<coord>(start_);
+    start_offset_ = 0;
     offset_element_ = start_ * dist_matrix_.tile_size().template get<coord>();
 
     end_ = end_idx.get(coord);
-- 
2.43.0


From f018e98d96890ed24a39590dae5369b1b3cf4758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:38 +0000
Subject: [PATCH 14/27] fix: transposed panel keeps the offset of the matrix it
 follows

---
 include/dlaf/matrix/panel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dlaf/matrix/panel.h b/include/dlaf/matrix/panel.h
index c33dd85..80b1ad4 100644
--- a/include/dlaf/matrix/panel.h
+++ b/include/dlaf/matrix/panel.h
@@ -491,7 +491,7 @@ private:
   static matrix::Distribution transposeDist(const matrix::Distribution& dist) {
     return {common::transposed(dist.size()), common::transposed(dist.tile_size()),
             common::transposed(dist.commGridSize()), common::transposed(dist.rankIndex()),
-            common::transposed(dist.sourceRankIndex())};
+            common::transposed(dist.sourceRankIndex()), common::transposed(dist.offset())};
   }
 
 public:
-- 
2.43.0


From ba4356c23678701880a4bc9ca4bc8b318351ba2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:43 +0000
Subject: [PATCH 15/27] fix: tags of the tiles of a redistribution are unique

---
 include/dlaf/matrix/copy.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/dlaf/matrix/copy.h b/include/dlaf/matrix/copy.h
index c7decc5..301fa98 100644
--- a/include/dlaf/matrix/copy.h
+++ b/include/dlaf/matrix/copy.h
@@ -20,6 +20,7 @@
 #include <dlaf/communication/communicator.h>
 #include <dlaf/communication/kernels/p2p.h>
 #include <dlaf/matrix/copy_tile.h>
+#include <dlaf/matrix/distribution_extensions.h>
 #include <dlaf/matrix/index.h>
 #include <dlaf/matrix/matrix.h>
 #include <dlaf/matrix/matrix_ref.h>
@@ -180,10 +181,16 @@ void copy(Matrix<const T, Source>& src, Matrix<T, Destination>& dst, comm::Commu
     // The tag is computed as a function of local tile index, in order to keep its value as small as
     // possible. Moreover, since the local size of the matrix might change on different ranks, linear
     // local tile index is computed using a rank-independent ld.
-    const auto size = dist.commGridSize();
-    const LocalTileIndex source_ij_lc{ij.row() / size.rows(), ij.col() / size.cols()};
-    const SizeType ld = dlaf::util::ceilDiv(dist.nrTiles().rows(), to_SizeType(size.rows()));
-    return to_int(ij.row() + ij.col() * ld);
+    // Two tiles sent by the same rank have different local indices, hence different tags.
+    using matrix::internal::distribution::local_tile_from_global_tile_any_rank;
+    const LocalTileIndex source_ij_lc{local_tile_from_global_tile_any_rank<Coord::Row>(dist, ij.row()),
+                                      local_tile_from_global_tile_any_rank<Coord::Col>(dist, ij.col())};
+    const SizeType tiles_per_block = dist.block_size().rows() / dist.tile_size().rows();
+    // one more block as the first one might be incomplete
+    const SizeType nr_blocks = dlaf::util::ceilDiv(dist.nr_tiles().rows(), tiles_per_block) + 1;
+    const SizeType ld =
+        dlaf::util::ceilDiv(nr_blocks, to_SizeType(dist.grid_size().rows())) * tiles_per_block;
+    return to_int(source_ij_lc.row() + source_ij_lc.col() * ld);
   };
 
   for (const LocalTileIndex ij_lc : common::iterate_range2d(src_retiled.distribution().localNrTiles())) {
-- 
2.43.0


From 7632b62d3f29a9be8a8c4d989ad51bf5eff59912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:03 +0000
Subject: [PATCH 16/27] fix: banded random matrix has a band in the diagonal
 tiles too

---
 include/dlaf/util_matrix.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dlaf/util_matrix.h b/include/dlaf/util_matrix.h
index ea8a421..f8b083b 100644
--- a/include/dlaf/util_matrix.h
+++ b/include/dlaf/util_matrix.h
@@ -333,13 +333,15 @@ namespace internal {
 
 template <class T>
 void set_diagonal_tile(const Tile<T, Device::CPU>& tile, internal::getter_random<T>& random_value,
-                       SizeType offset_value) {
+                       SizeType offset_value, std::optional<SizeType> band_size = std::nullopt) {
   // DIAGONAL
   // for diagonal tiles get just lower matrix values and set value for both
   // straight and transposed indices
   for (SizeType j = 0; j < tile.size().cols(); ++j) {
     for (SizeType i = 0; i < j; ++i) {
       auto value = random_value();
+      if (band_size && j - i > *band_size)
+        value = T(0);
 
       tile(TileElementIndex{i, j}) = value;
       tile(TileElementIndex{j, i}) = dlaf::conj(value);
@@ -442,7 +444,7 @@ void set_random_hermitian_with_offset(Matrix<T, Device::CPU>& matrix, const Size
     auto set_hp_f = [=](const TileType& tile) {
       internal::getter_random<T> random_value(seed);
       if (ij.row() == ij.col())
-        internal::set_diagonal_tile(tile, random_value, offset_value);
+        internal::set_diagonal_tile(tile, random_value, offset_value, band_size);
       else
         internal::set_lower_and_upper_tile(tile, random_value, full_tile_size, ij, dist, band_size);
     };
-- 
2.43.0


From ec54a7faf9cb42cce65b2319d54bbdffc4371997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:40 +0000
Subject: [PATCH 17/27] fix: 1D block of band_to_tridiag holds at least one
 tile

With band_to_tridiag_1d_block_size_base smaller than the tile size the block size became 1, which is not
a multiple of the band size (assertion in the distributed band_to_tridiagonal).
---
 include/dlaf/eigensolver/internal/get_1d_block_size.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dlaf/eigensolver/internal/get_1d_block_size.h b/include/dlaf/eigensolver/internal/get_1d_block_size.h
index 83e9da1..15e907d 100644
--- a/include/dlaf/eigensolver/internal/get_1d_block_size.h
+++ b/include/dlaf/eigensolver/internal/get_1d_block_size.h
@@ -15,14 +15,14 @@
 
 namespace dlaf::eigensolver::internal {
 
-// Returns max(1, getTuneParameters().eigensolver_min_band / nb * nb).
+// Returns max(1, getTuneParameters().band_to_tridiag_1d_block_size_base / nb) * nb.
 inline SizeType get1DBlockSize(const SizeType nb) noexcept {
   const SizeType nb_base = getTuneParameters().band_to_tridiag_1d_block_size_base;
 
   DLAF_ASSERT(nb >= 1, nb);
   DLAF_ASSERT(nb_base >= 1, nb_base);
 
-  return std::max<SizeType>(1, nb_base / nb * nb);
+  return std::max<SizeType>(1, nb_base / nb) * nb;
 }
 
 }
-- 
2.43.0


From d64d4aeab44259bb7edd87cdda471d8b9124c8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:40 +0000
Subject: [PATCH 18/27] fix: returned eigenvectors are distributed as the input
 matrix

The eigensolvers which return the eigenvectors allocated them with source rank (0, 0), while the
back-transformations need them aligned with the input matrix.
---
 include/dlaf/eigensolver/eigensolver.h     | 2 +-
 include/dlaf/eigensolver/gen_eigensolver.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dlaf/eigensolver/eigensolver.h b/include/dlaf/eigensolver/eigensolver.h
index 969c3cd..687fb30 100644
--- a/include/dlaf/eigensolver/eigensolver.h
+++ b/include/dlaf/eigensolver/eigensolver.h
@@ -221,7 +221,7 @@ EigensolverResult<T, D> hermitian_eigensolver(comm::CommunicatorGrid& grid, blas
   const SizeType size = mat.size().rows();
   matrix::Matrix<BaseType<T>, D> eigenvalues(LocalElementSize(size, 1),
                                              TileElementSize(mat.tile_size().rows(), 1));
-  matrix::Matrix<T, D> eigenvectors(GlobalElementSize(size, size), mat.tile_size(), grid);
+  matrix::Matrix<T, D> eigenvectors(mat.distribution());
 
   hermitian_eigensolver<B, D, T>(grid, uplo, mat, eigenvalues, eigenvectors, eigenvalues_index_begin,
                                  eigenvalues_index_end);
diff --git a/include/dlaf/eigensolver/gen_eigensolver.h b/include/dlaf/eigensolver/gen_eigensolver.h
index 4d24778..feb31d1 100644
--- a/include/dlaf/eigensolver/gen_eigensolver.h
+++ b/include/dlaf/eigensolver/gen_eigensolver.h
@@ -156,7 +156,7 @@ EigensolverResult<T, D> hermitian_generalized_eigensolver(comm::CommunicatorGrid
 
   matrix::Matrix<BaseType<T>, D> eigenvalues(LocalElementSize(size, 1),
                                              TileElementSize(mat_a.tile_size().rows(), 1));
-  matrix::Matrix<T, D> eigenvectors(GlobalElementSize(size, size), mat_a.tile_size(), grid);
+  matrix::Matrix<T, D> eigenvectors(mat_a.distribution());
 
   hermitian_generalized_eigensolver<B, D, T>(grid, uplo, mat_a, mat_b, eigenvalues, eigenvectors,
                                              factorization, eigenvalues_index_begin,
-- 
2.43.0


From 7b8b6131b44f43ff5bd12d9e4f1c1029d990db00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:04 +0000
Subject: [PATCH 19/27] fix: workspace of the distributed Givens rotations is
 contiguous

A Panel allocates every tile in its own memory chunk, while the task stores a full local column
starting from the first tile. When the local part of the column is longer than the first tile (local
rows > nb*nb) it was written past the end of the allocation.
---
 include/dlaf/eigensolver/tridiag_solver/rot.h | 21 ++++++-------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/include/dlaf/eigensolver/tridiag_solver/rot.h b/include/dlaf/eigensolver/tridiag_solver/rot.h
index 1f2960d..e1b812e 100644
--- a/include/dlaf/eigensolver/tridiag_solver/rot.h
+++ b/include/dlaf/eigensolver/tridiag_solver/rot.h
@@ -266,15 +266,7 @@ void applyGivensRotationsToMatrixColumns(
 
   auto givens_rots_fn = [comm_row_chain = comm_row_chain.sub_pipeline(), tag, dist_sub,
                          mb](std::vector<GivensRotation<T>> rots, std::vector<matrix::Tile<T, D>> tiles,
-                             std::vector<matrix::Tile<T, D>> all_ws) mutable {
-    // Note:
-    // It would have been enough to just get the first tile from the beginning, and it would have
-    // worked anyway (thanks to the fact that panel has its own memorychunk and the first tile would
-    // keep alive the entire chunk, so also the part of other tiles, through its memory view).
-    // Anyway, it is more clean to get them all, and then just here use a single one to access the
-    // full column.
-    matrix::Tile<T, D>& tile_ws = all_ws[0];
-
+                             matrix::Tile<T, D> tile_ws) mutable {
     // Note:
     // The entire algorithm relies on a strong assumption about memory layout of all tiles involved,
     // i.e. both the input tiles selected from the matrix and the tiles for the workspace.
@@ -381,16 +373,15 @@ void applyGivensRotationsToMatrixColumns(
   };
 
   // Note:
-  // Using a combination of shrinked distribution and an offset given to the panel, the workspace
-  // is allocated just for the part strictly needed by the range [i_begin, i_end)
-  const matrix::Distribution dist_ws({range_size_limit, 1}, dist.tile_size(), dist.commGridSize(),
-                                     dist.rankIndex(), dist.sourceRankIndex());
-  matrix::Panel<Coord::Col, T, D> workspace(dist_ws, GlobalTileIndex(i_begin, i_begin));
+  // The workspace is a single tile, i.e. a single memory chunk, since it has to store contiguously the
+  // local part of a full column of the range [i_begin, i_end)
+  const SizeType ws_size = dist_sub.localSize().rows();
+  Matrix<T, D> workspace(LocalElementSize(ws_size, 1), TileElementSize(ws_size, 1));
 
   const TileCollector tc(i_begin, i_end);
 
   ex::when_all(std::forward<GRSender>(rots_fut), ex::when_all_vector(tc.readwrite(mat)),
-               ex::when_all_vector(select(workspace, workspace.iteratorLocal()))) |
+               workspace.readwrite(LocalTileIndex(0, 0))) |
       di::transformDetach(di::Policy<Backend::MC>(), std::move(givens_rots_fn));
 }
 }
-- 
2.43.0


From 37962e975393e3ea6b5eef6ccabcccb3eeeae1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:08 +0000
Subject: [PATCH 20/27] fix: tridiagonal eigensolver works with every default
 allocation layout

The solver and the distributed permutation access their workspaces as contiguous columns, hence they
crashed when default_allocation_layout (DLAF_DEFAULT_ALLOCATION_LAYOUT) is Blocks or Tiles.
---
 .../dlaf/eigensolver/tridiag_solver/impl.h    | 90 ++++++++++++-------
 .../dlaf/eigensolver/tridiag_solver/merge.h   |  2 +-
 include/dlaf/permutations/general/impl.h      |  8 +-
 3 files changed, 61 insertions(+), 39 deletions(-)

diff --git a/include/dlaf/eigensolver/tridiag_solver/impl.h b/include/dlaf/eigensolver/tridiag_solver/impl.h
index 6bb8020..37a8564 100644
--- a/include/dlaf/eigensolver/tridiag_solver/impl.h
+++ b/include/dlaf/eigensolver/tridiag_solver/impl.h
@@ -204,6 +204,17 @@ void TridiagSolver<B, D, T>::call(Matrix<T, Device::CPU>& tridiag, Matrix<T, D>&
   if (evecs.size().isEmpty())
     return;
 
+  // Note: The algorithm relies on the column-major layout.
+  constexpr auto col_major = matrix::AllocationLayout::ColMajor;
+  if (evals.allocation_layout() != col_major || evecs.allocation_layout() != col_major) {
+    Matrix<T, D> evals_cm(evals.distribution(), col_major);
+    Matrix<T, D> evecs_cm(evecs.distribution(), col_major);
+    TridiagSolver<B, D, T>::call(tridiag, evals_cm, evecs_cm);
+    copy(evals_cm, evals);
+    copy(evecs_cm, evecs);
+    return;
+  }
+
   // If the matrix is composed by a single tile simply call stedc.
   if (evecs.nrTiles().linear_size() == 1) {
     if constexpr (D == Device::CPU) {
@@ -221,22 +232,22 @@ void TridiagSolver<B, D, T>::call(Matrix<T, Device::CPU>& tridiag, Matrix<T, D>&
   const matrix::Distribution& distr = evecs.distribution();
   const LocalElementSize vec_size(distr.size().rows(), 1);
   const TileElementSize vec_tile_size(distr.tile_size().rows(), 1);
-  WorkSpace<T, D> ws{Matrix<T, D>(distr),                            // e0
-                     Matrix<T, D>(distr),                            // e1
-                     evecs,                                          // e2
-                     evals,                                          // d1
-                     Matrix<T, D>(vec_size, vec_tile_size),          // z0
-                     Matrix<T, D>(vec_size, vec_tile_size),          // z1
-                     Matrix<SizeType, D>(vec_size, vec_tile_size),   // i2
-                     Matrix<SizeType, D>(vec_size, vec_tile_size),   // i5
-                     Matrix<SizeType, D>(vec_size, vec_tile_size),   // i5b
-                     Matrix<SizeType, D>(vec_size, vec_tile_size)};  // i6
-
-  WorkSpaceHost<T> ws_h{Matrix<T, Device::CPU>(vec_size, vec_tile_size),          // d0
-                        Matrix<ColType, Device::CPU>(vec_size, vec_tile_size),    // c
-                        Matrix<SizeType, Device::CPU>(vec_size, vec_tile_size),   // i1
-                        Matrix<SizeType, Device::CPU>(vec_size, vec_tile_size),   // i3
-                        Matrix<SizeType, Device::CPU>(vec_size, vec_tile_size)};  // i4
+  WorkSpace<T, D> ws{Matrix<T, D>(distr, col_major),                            // e0
+                     Matrix<T, D>(distr, col_major),                            // e1
+                     evecs,                                                     // e2
+                     evals,                                                     // d1
+                     Matrix<T, D>(vec_size, vec_tile_size, col_major),          // z0
+                     Matrix<T, D>(vec_size, vec_tile_size, col_major),          // z1
+                     Matrix<SizeType, D>(vec_size, vec_tile_size, col_major),   // i2
+                     Matrix<SizeType, D>(vec_size, vec_tile_size, col_major),   // i5
+                     Matrix<SizeType, D>(vec_size, vec_tile_size, col_major),   // i5b
+                     Matrix<SizeType, D>(vec_size, vec_tile_size, col_major)};  // i6
+
+  WorkSpaceHost<T> ws_h{Matrix<T, Device::CPU>(vec_size, vec_tile_size, col_major),          // d0
+                        Matrix<ColType, Device::CPU>(vec_size, vec_tile_size, col_major),    // c
+                        Matrix<SizeType, Device::CPU>(vec_size, vec_tile_size, col_major),   // i1
+                        Matrix<SizeType, Device::CPU>(vec_size, vec_tile_size, col_major),   // i3
+                        Matrix<SizeType, Device::CPU>(vec_size, vec_tile_size, col_major)};  // i4
 
   // Mirror workspace on host memory for CPU-only kernels
   WorkSpaceHostMirror<T, D> ws_hm{initMirrorMatrix(ws.e2), initMirrorMatrix(ws.d1),
@@ -280,7 +291,7 @@ void TridiagSolver<B, D, T>::call(Matrix<T, Device::CPU>& tridiag, Matrix<T, D>&
 template <Backend B, Device D, class T>
 void TridiagSolver<B, D, T>::call(Matrix<T, Device::CPU>& tridiag, Matrix<T, D>& evals,
                                   Matrix<std::complex<T>, D>& evecs) {
-  Matrix<T, D> real_evecs(evecs.distribution());
+  Matrix<T, D> real_evecs(evecs.distribution(), matrix::AllocationLayout::ColMajor);
   TridiagSolver<B, D, T>::call(tridiag, evals, real_evecs);
 
   // Convert real to complex numbers
@@ -371,6 +382,17 @@ void TridiagSolver<B, D, T>::call(comm::CommunicatorGrid& grid, Matrix<T, Device
   if (evecs.size().isEmpty())
     return;
 
+  // Note: The algorithm relies on the column-major layout.
+  constexpr auto col_major = matrix::AllocationLayout::ColMajor;
+  if (evals.allocation_layout() != col_major || evecs.allocation_layout() != col_major) {
+    Matrix<T, D> evals_cm(evals.distribution(), col_major);
+    Matrix<T, D> evecs_cm(evecs.distribution(), col_major);
+    TridiagSolver<B, D, T>::call(grid, tridiag, evals_cm, evecs_cm);
+    copy(evals_cm, evals);
+    copy(evecs_cm, evecs);
+    return;
+  }
+
 #ifdef DLAF_WITH_HDF5
   static std::atomic<size_t> num_tridiag_solver_calls = 0;
   std::stringstream fname;
@@ -402,22 +424,22 @@ void TridiagSolver<B, D, T>::call(comm::CommunicatorGrid& grid, Matrix<T, Device
   const matrix::Distribution& dist_evals = evals.distribution();
   const matrix::Distribution dist_local({dist_evecs.local_size().cols(), 1}, dist_evecs.tile_size());
 
-  WorkSpace<T, D> ws{Matrix<T, D>(dist_evecs),          // e0
-                     Matrix<T, D>(dist_evecs),          // e1
-                     evecs,                             // e2
-                     evals,                             // d1
-                     Matrix<T, D>(dist_evals),          // z0
-                     Matrix<T, D>(dist_evals),          // z1
-                     Matrix<SizeType, D>(dist_evals),   // i2
-                     Matrix<SizeType, D>(dist_evals),   // i5
-                     Matrix<SizeType, D>(dist_local),   // i5b
-                     Matrix<SizeType, D>(dist_evals)};  // i6
-
-  WorkSpaceHost<T> ws_h{Matrix<T, Device::CPU>(dist_evals),          // d0
-                        Matrix<ColType, Device::CPU>(dist_evals),    // c
-                        Matrix<SizeType, Device::CPU>(dist_evals),   // i1
-                        Matrix<SizeType, Device::CPU>(dist_evals),   // i3
-                        Matrix<SizeType, Device::CPU>(dist_evals)};  // i4
+  WorkSpace<T, D> ws{Matrix<T, D>(dist_evecs, col_major),          // e0
+                     Matrix<T, D>(dist_evecs, col_major),          // e1
+                     evecs,                                        // e2
+                     evals,                                        // d1
+                     Matrix<T, D>(dist_evals, col_major),          // z0
+                     Matrix<T, D>(dist_evals, col_major),          // z1
+                     Matrix<SizeType, D>(dist_evals, col_major),   // i2
+                     Matrix<SizeType, D>(dist_evals, col_major),   // i5
+                     Matrix<SizeType, D>(dist_local, col_major),   // i5b
+                     Matrix<SizeType, D>(dist_evals, col_major)};  // i6
+
+  WorkSpaceHost<T> ws_h{Matrix<T, Device::CPU>(dist_evals, col_major),          // d0
+                        Matrix<ColType, Device::CPU>(dist_evals, col_major),    // c
+                        Matrix<SizeType, Device::CPU>(dist_evals, col_major),   // i1
+                        Matrix<SizeType, Device::CPU>(dist_evals, col_major),   // i3
+                        Matrix<SizeType, Device::CPU>(dist_evals, col_major)};  // i4
 
   // Mirror workspace on host memory for CPU-only kernels
   DistWorkSpaceHostMirror<T, D> ws_hm{initMirrorMatrix(ws.e0), initMirrorMatrix(ws.e2),
@@ -484,7 +506,7 @@ void TridiagSolver<B, D, T>::call(comm::CommunicatorGrid& grid, Matrix<T, Device
 template <Backend B, Device D, class T>
 void TridiagSolver<B, D, T>::call(comm::CommunicatorGrid& grid, Matrix<T, Device::CPU>& tridiag,
                                   Matrix<T, D>& evals, Matrix<std::complex<T>, D>& evecs) {
-  Matrix<T, D> real_evecs(evecs.distribution());
+  Matrix<T, D> real_evecs(evecs.distribution(), matrix::AllocationLayout::ColMajor);
   TridiagSolver<B, D, T>::call(grid, tridiag, evals, real_evecs);
 
   // Convert real to complex numbers
diff --git a/include/dlaf/eigensolver/tridiag_solver/merge.h b/include/dlaf/eigensolver/tridiag_solver/merge.h
index a69457b..e7173af 100644
--- a/include/dlaf/eigensolver/tridiag_solver/merge.h
+++ b/include/dlaf/eigensolver/tridiag_solver/merge.h
@@ -176,7 +176,7 @@ struct DistWorkSpaceHostMirror {
 
 template <class T>
 Matrix<T, Device::CPU> initMirrorMatrix(Matrix<T, Device::GPU>& mat) {
-  return Matrix<T, Device::CPU>(mat.distribution());
+  return Matrix<T, Device::CPU>(mat.distribution(), matrix::AllocationLayout::ColMajor);
 }
 
 template <class T>
diff --git a/include/dlaf/permutations/general/impl.h b/include/dlaf/permutations/general/impl.h
index 0653e5c..9796c4a 100644
--- a/include/dlaf/permutations/general/impl.h
+++ b/include/dlaf/permutations/general/impl.h
@@ -581,7 +581,7 @@ void permuteOnCPU(
     return;
 
   // Create a map from send indices to receive indices (inverse of perms)
-  Matrix<SizeType, D> inverse_perms(perms.distribution());
+  Matrix<SizeType, D> inverse_perms(perms.distribution(), AllocationLayout::ColMajor);
   eigensolver::internal::invertIndex(i_begin, i_end, perms, inverse_perms);
 
   // Local distribution used for packing and unpacking
@@ -591,9 +591,9 @@ void permuteOnCPU(
   // communication data
   const SizeType nvecs = sz_loc.get<C>();
   const Distribution index_dist(LocalElementSize(nvecs, 1), TileElementSize(blk.get<C>(), 1));
-  Matrix<SizeType, D> local2global_index(index_dist);
-  Matrix<SizeType, D> packing_index(index_dist);
-  Matrix<SizeType, D> unpacking_index(index_dist);
+  Matrix<SizeType, D> local2global_index(index_dist, AllocationLayout::ColMajor);
+  Matrix<SizeType, D> packing_index(index_dist, AllocationLayout::ColMajor);
+  Matrix<SizeType, D> unpacking_index(index_dist, AllocationLayout::ColMajor);
 
   // Local matrices used for packing data for communication. Both matrices are in column-major order.
   // The particular constructor is used on purpose to guarantee that columns are stored contiguosly,
-- 
2.43.0


From 182e5a996422c69d18f1376f187c901e16ce1eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:50 +0000
Subject: [PATCH 21/27] fix: distributed band_to_tridiagonal checks that the
 band divides the block

---
 include/dlaf/eigensolver/band_to_tridiag.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dlaf/eigensolver/band_to_tridiag.h b/include/dlaf/eigensolver/band_to_tridiag.h
index 87910ec..521c86e 100644
--- a/include/dlaf/eigensolver/band_to_tridiag.h
+++ b/include/dlaf/eigensolver/band_to_tridiag.h
@@ -150,6 +150,7 @@ TridiagResult<T, Device::CPU> band_to_tridiagonal(comm::CommunicatorGrid& grid,
   DLAF_ASSERT(matrix::square_size(mat_a), mat_a);
   DLAF_ASSERT(matrix::square_block_size(mat_a), mat_a);
   DLAF_ASSERT(matrix::single_tile_per_block(mat_a), mat_a);
+  DLAF_ASSERT(mat_a.blockSize().rows() % band_size == 0, mat_a.blockSize().rows(), band_size);
   DLAF_ASSERT(matrix::equal_process_grid(mat_a, grid), mat_a, grid);
   DLAF_ASSERT(band_size >= 2, band_size);
 
-- 
2.43.0


From 2660462dcc55fc994e18c208b6d47eeaa7fa36ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:50 +0000
Subject: [PATCH 22/27] fix: eigensolvers refuse eigenvalues with several
 columns before the work begins

---
 include/dlaf/eigensolver/eigensolver.h     | 2 ++
 include/dlaf/eigensolver/gen_eigensolver.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/dlaf/eigensolver/eigensolver.h b/include/dlaf/eigensolver/eigensolver.h
index 687fb30..49fd4b1 100644
--- a/include/dlaf/eigensolver/eigensolver.h
+++ b/include/dlaf/eigensolver/eigensolver.h
@@ -39,6 +39,7 @@ void hermitian_eigensolver(blas::Uplo uplo, Matrix<T, D>& mat, Matrix<BaseType<T
   DLAF_ASSERT(matrix::square_size(mat), mat);
   DLAF_ASSERT(matrix::single_tile_per_block(mat), mat);
   DLAF_ASSERT(matrix::square_block_size(mat), mat);
+  DLAF_ASSERT(eigenvalues.size().cols() == 1, eigenvalues);
   DLAF_ASSERT(eigenvalues.size().rows() == eigenvectors.size().rows(), eigenvalues, eigenvectors);
   DLAF_ASSERT(matrix::single_tile_per_block(eigenvalues), eigenvalues);
   DLAF_ASSERT(eigenvalues.block_size().rows() == eigenvectors.block_size().rows(), eigenvalues,
@@ -153,6 +154,7 @@ void hermitian_eigensolver(comm::CommunicatorGrid& grid, blas::Uplo uplo, Matrix
   DLAF_ASSERT(matrix::square_size(mat), mat);
   DLAF_ASSERT(matrix::single_tile_per_block(mat), mat);
   DLAF_ASSERT(matrix::square_block_size(mat), mat);
+  DLAF_ASSERT(eigenvalues.size().cols() == 1, eigenvalues);
   DLAF_ASSERT(eigenvalues.size().rows() == eigenvectors.size().rows(), eigenvalues, eigenvectors);
   DLAF_ASSERT(matrix::single_tile_per_block(eigenvalues), eigenvalues);
   DLAF_ASSERT(eigenvalues.block_size().rows() == eigenvectors.block_size().rows(), eigenvalues,
diff --git a/include/dlaf/eigensolver/gen_eigensolver.h b/include/dlaf/eigensolver/gen_eigensolver.h
index feb31d1..3b53e56 100644
--- a/include/dlaf/eigensolver/gen_eigensolver.h
+++ b/include/dlaf/eigensolver/gen_eigensolver.h
@@ -44,6 +44,7 @@ void hermitian_generalized_eigensolver(blas::Uplo uplo, Matrix<T, D>& mat_a, Mat
   DLAF_ASSERT(matrix::square_block_size(mat_b), mat_b);
   DLAF_ASSERT(mat_a.size() == mat_b.size(), mat_a, mat_b);
   DLAF_ASSERT(mat_a.block_size() == mat_b.block_size(), mat_a, mat_b);
+  DLAF_ASSERT(eigenvalues.size().cols() == 1, eigenvalues);
   DLAF_ASSERT(eigenvalues.size().rows() == eigenvectors.size().rows(), eigenvalues, eigenvectors);
   DLAF_ASSERT(matrix::single_tile_per_block(eigenvalues), eigenvalues);
   DLAF_ASSERT(eigenvalues.block_size().rows() == eigenvectors.block_size().rows(), eigenvalues,
@@ -112,6 +113,7 @@ void hermitian_generalized_eigensolver(
   DLAF_ASSERT(matrix::square_block_size(mat_b), mat_b);
   DLAF_ASSERT(mat_a.size() == mat_b.size(), mat_a, mat_b);
   DLAF_ASSERT(mat_a.block_size() == mat_b.block_size(), mat_a, mat_b);
+  DLAF_ASSERT(eigenvalues.size().cols() == 1, eigenvalues);
   DLAF_ASSERT(eigenvalues.size().rows() == eigenvectors.size().rows(), eigenvalues, eigenvectors);
   DLAF_ASSERT(matrix::single_tile_per_block(eigenvalues), eigenvalues);
   DLAF_ASSERT(eigenvalues.block_size().rows() == eigenvectors.block_size().rows(), eigenvalues,
-- 
2.43.0


From efeeda33563af5c9a6a461fe9b5e0c4686de44bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:24 +0000
Subject: [PATCH 23/27] fix: reading a dataset of complex elements as real ones
 is refused

---
 include/dlaf/matrix/hdf5.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/dlaf/matrix/hdf5.h b/include/dlaf/matrix/hdf5.h
index d80b594..026009c 100644
--- a/include/dlaf/matrix/hdf5.h
+++ b/include/dlaf/matrix/hdf5.h
@@ -283,6 +283,15 @@ private:
     const auto hdf5_t = internal::hdf5_datatype<BaseType<T>>::type;
     DLAF_ASSERT(hdf5_t == dataset.getDataType(), "HDF5 type mismatch");
 
+    // Note: complex elements are stored as pairs of values, i.e. with an additional dimension
+    const H5::DataSpace& dataspace = dataset.getSpace();
+    DLAF_ASSERT(dataspace.getSimpleExtentNdims() == 3, dataspace.getSimpleExtentNdims());
+
+    hsize_t dims_file[3];
+    dataspace.getSimpleExtentDims(dims_file);
+    DLAF_ASSERT(dims_file[2] == internal::hdf5_datatype<T>::dims, dims_file[2],
+                internal::hdf5_datatype<T>::dims);
+
     return dataset;
   }
 
-- 
2.43.0


From 6c9483025db17a038befc7c90728cd4335fd9c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:24 +0000
Subject: [PATCH 24/27] fix: csv output of matrices with several tiles per
 block

---
 include/dlaf/matrix/print_csv.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/dlaf/matrix/print_csv.h b/include/dlaf/matrix/print_csv.h
index b91219a..90affe4 100644
--- a/include/dlaf/matrix/print_csv.h
+++ b/include/dlaf/matrix/print_csv.h
@@ -55,18 +55,18 @@ void print(format::csv, std::string sym, Matrix<const T, Device::CPU>& mat,
 
   SizeType nrow = mat.size().rows();
   SizeType ncol = mat.size().cols();
-  SizeType blockrow = mat.blockSize().rows();
-  SizeType blockcol = mat.blockSize().cols();
+  SizeType tilerows = mat.tile_size().rows();
+  SizeType tilecols = mat.tile_size().cols();
 
   os << sym << std::endl;
 
   for (SizeType irow = 0; irow < nrow; ++irow) {
-    SizeType tilerow = irow / blockrow;
-    SizeType elrow = irow % blockrow;
+    SizeType tilerow = irow / tilerows;
+    SizeType elrow = irow % tilerows;
 
     for (SizeType icol = 0; icol < ncol; ++icol) {
-      SizeType tilecol = icol / blockcol;
-      SizeType elcol = icol % blockcol;
+      SizeType tilecol = icol / tilecols;
+      SizeType elcol = icol % tilecols;
 
       const LocalTileIndex idx = {tilerow, tilecol};
       const auto tile = pika::this_thread::experimental::sync_wait(mat.read(idx));
-- 
2.43.0


From 5c23d71a57b49d4189a3f0e43cde68d5d4290122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:24 +0000
Subject: [PATCH 25/27] fix: numpy output of infinite values and of complex
 values that are not finite

---
 include/dlaf/matrix/print_numpy.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/dlaf/matrix/print_numpy.h b/include/dlaf/matrix/print_numpy.h
index b201a82..1b5276e 100644
--- a/include/dlaf/matrix/print_numpy.h
+++ b/include/dlaf/matrix/print_numpy.h
@@ -12,6 +12,7 @@
 
 /// @file
 
+#include <cmath>
 #include <complex>
 #include <iostream>
 #include <sstream>
@@ -51,6 +52,8 @@ std::string numpy_value(const T& value) {
   std::ostringstream os;
   if (std::isnan(value))
     os << "np.nan";
+  else if (std::isinf(value))
+    os << (value < 0 ? "-np.inf" : "np.inf");
   else
     os << value;
   return os.str();
@@ -59,6 +62,11 @@ std::string numpy_value(const T& value) {
 template <class T>
 std::string numpy_value(const std::complex<T>& value) {
   std::ostringstream os;
+  // Note: python does not have literals for complex values with parts that are not finite
+  if (!std::isfinite(std::real(value)) || !std::isfinite(std::imag(value))) {
+    os << "complex(" << numpy_value(std::real(value)) << "," << numpy_value(std::imag(value)) << ")";
+    return os.str();
+  }
   const auto imag = std::imag(value);
   const auto sign = (imag < 0) ? '-' : '+';
   os << std::real(value) << sign << std::abs(imag) << "j";
-- 
2.43.0


From 42589052b4fc746c4f88d1aec1223dfb3918dd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:44 +0000
Subject: [PATCH 26/27] fix: kernels on tiles accept empty regions and tiles

---
 include/dlaf/lapack/tile.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/dlaf/lapack/tile.h b/include/dlaf/lapack/tile.h
index 4a99620..a42292b 100644
--- a/include/dlaf/lapack/tile.h
+++ b/include/dlaf/lapack/tile.h
@@ -90,6 +90,9 @@ void lacpy(TileElementSize region, TileElementIndex in_idx, const Tile<const T,
   DLAF_ASSERT_MODERATE(out_idx.isIn(out.size() - region + TileElementSize(1, 1)),
                        "Region goes out of bounds for `out`!", region, out_idx, out);
 
+  if (region.isEmpty())
+    return;
+
   common::internal::SingleThreadedBlasScope single;
   lapack::lacpy(blas::Uplo::General, region.rows(), region.cols(), in.ptr(in_idx), in.ld(),
                 out.ptr(out_idx), out.ld());
@@ -469,6 +472,9 @@ void stedc(const Tile<T, Device::CPU>& tridiag, const Tile<T, Device::CPU>& evec
   DLAF_ASSERT(tridiag.size().rows() == evecs.size().rows(), tridiag, evecs);
   DLAF_ASSERT(tridiag.size().cols() == 2, tridiag);
 
+  if (evecs.size().isEmpty())
+    return;
+
   // In lapackpp see `util.hh` and `job_comp2char()` and `enum class Job`
   // Note that `lapack::Job::Vec` corresponds to `compz=I` in the LAPACK
 
@@ -482,6 +488,10 @@ template <class T>
 void scaleCol(T alpha, SizeType col, const Tile<T, Device::CPU>& tile) {
   DLAF_ASSERT(col >= 0, col);
   DLAF_ASSERT(tile.size().cols() > col, tile, col);
+
+  if (tile.size().isEmpty())
+    return;
+
   common::internal::SingleThreadedBlasScope single;
   blas::scal(tile.size().rows(), alpha, tile.ptr(TileElementIndex(0, col)), 1);
 }
-- 
2.43.0


From 0a61bad1b8b20f48d0007e32fcfbd86215dfc760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:44 +0000
Subject: [PATCH 27/27] fix: hemm on tiles refuses a matrix that is not square

---
 include/dlaf/util_blas.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/dlaf/util_blas.h b/include/dlaf/util_blas.h
index e7a7a0b..f84599f 100644
--- a/include/dlaf/util_blas.h
+++ b/include/dlaf/util_blas.h
@@ -74,6 +74,8 @@ hemmSizes getHemmSizes(const blas::Side side, [[maybe_unused]] const dlaf::matri
                        const dlaf::matrix::Tile<T, D>& c) {
   const hemmSizes s{c.size().rows(), c.size().cols()};
 
+  DLAF_ASSERT(square_size(a), a);
+
   if (side == blas::Side::Left) {
     DLAF_ASSERT(s.m == a.size().rows(), c, a);
     DLAF_ASSERT(s.n == b.size().cols(), c, b);
-- 
2.43.0

