H = "#include <cstdio>\n#include <cstdlib>\n"
SEEDS = [
dict(id="p01-lineardiv", property="P01",
  edits=[("include/dlaf/common/index2d.h", """  SizeType leading_size = dims.rows();
  return {to_signed<IndexT>(linear_index % leading_size),
          to_signed<IndexT>(linear_index / leading_size)};""",
"""  const double leading_size = static_cast<double>(dims.rows());
  const auto col = static_cast<SizeType>(static_cast<double>(linear_index) / leading_size);
  return {to_signed<IndexT>(linear_index - col * dims.rows()), to_signed<IndexT>(col)};""")],
  needs="a column-major grid with more than 2^53 cells, so the quotient is not exact in double",
  breaks="coordinates computed from a column-major linear index are off for very large grids",
  demo=H + """#include <dlaf/common/index2d.h>
using namespace dlaf; using namespace dlaf::common; struct T;
int main() {
  Size2D<SizeType, T> d((SizeType(1) << 31) + 11, (SizeType(1) << 30) + 7);
  for (SizeType c : {SizeType(1) << 29, (SizeType(1) << 30) + 6, (SizeType(1) << 28) + 3})
    for (SizeType r : {SizeType(0), (SizeType(1) << 31) + 10, SizeType(5)}) {
      auto ij = computeCoordsColMajor(c * d.rows() + r, d);
      if (ij.row() != r || ij.col() != c) { std::printf("wrong %ld %ld\\n", ij.row(), ij.col()); return 1; }
    }
  return 0;
}
"""),
dict(id="p02-postdec", property="P02",
  edits=[("include/dlaf/common/range2d.h", """    current_ = {begin_.row() + static_cast<IndexT>(i_ % ld_),
                begin_.col() + static_cast<IndexT>(i_ / ld_)};
""", """    const auto i = static_cast<IndexT>(i_);
    const auto ld = static_cast<IndexT>(ld_);
    current_ = {begin_.row() + static_cast<IndexT>(i % ld), begin_.col() + static_cast<IndexT>(i / ld)};
""")],
  needs="a range whose number of indices exceeds the index type (int range with more than 2^31 indices), iterated or accessed beyond that position",
  breaks="iterators yield wrong indices beyond the range of the index type",
  demo=H + """#include <dlaf/common/range2d.h>
using namespace dlaf; using namespace dlaf::common; struct T;
int main() {
  auto r = iterate_range2d(Index2D<int, T>(1, 2), Size2D<int, T>(100000, 50000));
  auto it = r.begin(); it += SizeType(40000) * 100000 + 77;
  return (it->row() == 78 && it->col() == 40002) ? 0 : 1;
}
"""),
dict(id="p02-range", property="P02",
  edits=[("include/dlaf/common/range2d.h", """    const auto tl = *range.begin();
    const auto br = *std::prev(range.end());

    return tl.row() <= index.row() && index.row() <= br.row() && tl.col() <= index.col() &&
           index.col() <= br.col();""",
"""    const SizeType ld = range.ld_;
    const SizeType i = (index.col() - range.begin_idx_.col()) * ld + (index.row() - range.begin_idx_.row());
    return 0 <= i && i < range.i_max_ && index.row() - range.begin_idx_.row() < ld;""")],
  needs="a membership test of an index above the range's first row and in a later column of the range",
  breaks="isIndexInRange accepts indices that are above the range",
  demo=H + """#include <dlaf/common/range2d.h>
using namespace dlaf; using namespace dlaf::common; struct T;
int main() {
  auto r = iterate_range2d(Index2D<int, T>(2, 3), Size2D<int, T>(3, 4));
  for (int i = 0; i < 8; ++i) for (int j = 0; j < 10; ++j) {
    bool in = i >= 2 && i < 5 && j >= 3 && j < 7;
    if (isIndexInRange(Index2D<int, T>(i, j), r) != in) { std::printf("%d %d\\n", i, j); return 1; }
  }
  return 0;
}
"""),
dict(id="p03-signed", property="P03",
  edits=[("include/dlaf/types.h", """  DLAF_ASSERT_MODERATE(static_cast<std::size_t>(std::numeric_limits<S>::max()) >= unsigned_value,
                       std::numeric_limits<S>::max(), unsigned_value);
  return static_cast<S>(unsigned_value);""",
"""  const S signed_value = static_cast<S>(unsigned_value);
  DLAF_ASSERT_MODERATE(signed_value >= 0, std::numeric_limits<S>::max(), unsigned_value);
  return signed_value;""")],
  needs="an unsigned value wider than the target whose low bits look like a non-negative number (e.g. 2^32 + 5 to int)",
  breaks="an unsigned value that does not fit is silently truncated instead of stopping the program",
  demo=H + """#include <sys/wait.h>
#include <unistd.h>
#include <dlaf/types.h>
template <class F> bool dies(F f) { pid_t p = fork(); if (!p) { freopen("/dev/null", "w", stderr); f(); _exit(0); } int s; waitpid(p, &s, 0); return !(WIFEXITED(s) && WEXITSTATUS(s) == 0); }
int main() {
  if (dlaf::to_int(5u) != 5 || dlaf::to_signed<short>(77ul) != 77) return 2;
  if (!dies([] { volatile int x = dlaf::to_int((1ul << 32) + 5); (void) x; })) return 1;
  if (!dies([] { volatile short x = dlaf::to_signed<short>(70000u); (void) x; })) return 1;
  return 0;
}
"""),
dict(id="p04-interleave", property="P04",
  edits=[("include/dlaf/util_math.h", """    std::swap(small, big);

  // Reserve""", """    std::swap(small, big);

  // an offset equal to the block size is no offset
  small %= b;
  big %= b;

  // Reserve""")],
  needs="exactly one of the two offsets equals the block size and the other is neither 0 nor the block size",
  breaks="the cut points are out of order (0 reappears after the first cut) when one offset equals the block size",
  demo=H + """#include <dlaf/util_math.h>
int main() {
  for (long o : {0L, 1L, 3L})
    for (long p : {0L, 1L, 3L}) {
      auto s = dlaf::util::interleaveSplits(10, 3, o, p);
      for (size_t i = 1; i < s.size(); ++i) if (s[i] <= s[i - 1]) { std::printf("not increasing\\n"); return 1; }
    }
  return 0;
}
"""),
dict(id="p05-nextlocal", property="P05",
  edits=[("include/dlaf/matrix/util_distribution.h", """  if (rank_to_src < owner_to_src)
    ++local_block;

  return local_block * tiles_per_block - (may_have_partial_first_block ? tile_offset : 0);""",
"""  if (rank_to_src < owner_to_src)
    ++local_block;

  return local_block * tiles_per_block - (may_have_partial_first_block && local_block > 1 ? tile_offset : 0);""")],
  needs="a tile offset, asking the source rank for its next local tile while the tile belongs to another rank of the first round",
  breaks="next_local_tile_from_global_tile is too large by the tile offset in the second local block of the source rank",
  demo=H + """#include <dlaf/matrix/util_distribution.h>
using namespace dlaf; using namespace dlaf::util::matrix;
int main() {
  // blocks of 3 tiles, 3 ranks, source 1, offset 2: compare with a count of the owned tiles
  long cnt = 0;
  for (long t = 0; t < 40; ++t) {
    if (next_local_tile_from_global_tile(t, 3, 3, 1, 1, 2) != cnt) { std::printf("tile %ld\\n", t); return 1; }
    if (rank_global_tile(t, 3, 3, 1, 2) == 1) ++cnt;
  }
  return 0;
}
"""),
dict(id="p05-bigrank", property="P05",
  edits=[("include/dlaf/matrix/util_distribution.h", """  SizeType global_block = (global_tile + tile_offset) / tiles_per_block;
  return (global_block + src_rank) % grid_size;""",
"""  const int global_block = static_cast<int>(((global_tile + tile_offset) / tiles_per_block) % (SizeType{1} << 31));
  return (global_block % grid_size + src_rank) % grid_size;""")],
  needs="a global tile index whose block number is at least 2^31 and a process count that is not a power of two",
  breaks="the owner of tiles with huge indices is wrong",
  demo=H + """#include <dlaf/matrix/util_distribution.h>
using namespace dlaf; using namespace dlaf::util::matrix;
int main() {
  for (long b : {5L, (1L << 31) - 1, (1L << 31) + 4, (1L << 40) + 9})
    if (rank_global_tile(b * 2, 2, 3, 1, 1) != (b + 1) % 3) return 1;
  return 0;
}
"""),
dict(id="p06-span", property="P06",
  edits=[("include/dlaf/common/data.h", """      DLAF_ASSERT_HEAVY(data_count(src) == data_count(dest), data_count(src), data_count(dest));

      for""", """      DLAF_ASSERT_HEAVY(data_count(src) == data_count(dest), data_count(src), data_count(dest));

      // same shape on both sides: a single pass over the spanned memory
      if (data_nblocks(src) == data_nblocks(dest) && data_stride(src) == data_stride(dest) &&
          data_blocksize(src) == data_blocksize(dest)) {
        const SizeType span = (data_nblocks(src) - 1) * data_stride(src) + data_blocksize(src);
        std::copy(data_pointer(src), data_pointer(src) + span, data_pointer(dest));
        return;
      }

      for""")],
  needs="copying between two strided descriptions of identical shape whose gaps hold other data",
  breaks="the gaps of the destination are overwritten",
  demo=H + """#include <dlaf/common/data_descriptor.h>
using namespace dlaf::common;
int main() {
  int a[8] = {1, 2, 3, 4, 5, 6, 7, 8}, b[8] = {-1, -2, -3, -4, -5, -6, -7, -8};
  copy(DataDescriptor<const int>(a, 2, 2, 4), DataDescriptor<int>(b, 2, 2, 4));
  const int want[8] = {1, 2, -3, -4, 5, 6, -7, -8};
  for (int i = 0; i < 8; ++i) if (b[i] != want[i]) return 1;
  return 0;
}
"""),
dict(id="p06-count", property="P06",
  edits=[("include/dlaf/common/data.h", """        auto i_dest = i / data_blocksize(dest) * data_stride(dest) + i % data_blocksize(dest);""",
"""        auto i_dest = i / data_blocksize(dest) * data_stride(dest) + i % data_blocksize(src) % data_blocksize(dest);""")],
  needs="two strided descriptions where the destination's block size is larger than the source's and not a multiple pattern",
  breaks="elements land at the wrong position when the block sizes differ",
  demo=H + """#include <dlaf/common/data_descriptor.h>
using namespace dlaf::common;
int main() {
  for (int bs : {2, 3, 6}) {
    int a[64], b[64];
    for (int i = 0; i < 64; ++i) a[i] = i, b[i] = -1;
    DataDescriptor<const int> s(a, 12 / 2, 2, 5); DataDescriptor<int> d(b, 12 / bs, bs, bs + 1);
    copy(s, d);
    for (int k = 0; k < 12; ++k) if (b[k / bs * (bs + 1) + k % bs] != k / 2 * 5 + k % 2) return 1;
  }
  return 0;
}
"""),
dict(id="p07-movector", property="P07",
  edits=[("include/dlaf/communication/type_handler.h", """    if (static_cast<bool>(*this))
      DLAF_MPI_CHECK_ERROR(MPI_Type_free(&custom_type_));
  }

  // movable
  type_handler(type_handler&& rhs) noexcept {
    custom_type_ = rhs.custom_type_;
    rhs.custom_type_ = MPI_DATATYPE_NULL;
  }""", """    if (owner_ && static_cast<bool>(*this))
      DLAF_MPI_CHECK_ERROR(MPI_Type_free(&custom_type_));
  }

  // movable
  type_handler(type_handler&& rhs) noexcept {
    custom_type_ = rhs.custom_type_;
    owner_ = std::exchange(rhs.owner_, false);
  }"""),
  ("include/dlaf/communication/type_handler.h", """protected:
  MPI_Datatype custom_type_ = MPI_DATATYPE_NULL;""", """protected:
  MPI_Datatype custom_type_ = MPI_DATATYPE_NULL;
  bool owner_ = true;"""),
  ("include/dlaf/communication/type_handler.h", "#include <type_traits>\n", "#include <type_traits>\n#include <utility>\n")],
  needs="a message with a strided layout is moved away and then assigned a new message",
  breaks="the datatype of a message assigned to a moved-from message is never released (and a stale one is released twice)",
  srcs=["src/communication/datatypes.cpp"],
  demo=H + """#include <mpi.h>
#include <set>
static std::set<MPI_Datatype> live;
static long stale = 0;
extern "C" int MPI_Type_commit(MPI_Datatype* t) { live.insert(*t); return PMPI_Type_commit(t); }
extern "C" int MPI_Type_free(MPI_Datatype* t) {
  if (live.erase(*t) == 0) { ++stale; *t = MPI_DATATYPE_NULL; return MPI_SUCCESS; }
  return PMPI_Type_free(t);
}
#include <dlaf/common/data_descriptor.h>
#include <dlaf/communication/message.h>
using namespace dlaf::common; using namespace dlaf::comm;
int main(int c, char** v) {
  MPI_Init(&c, &v);
  double x[20];
  {
    Message<DataDescriptor<double>> a(DataDescriptor<double>(x, 2, 3, 7));
    Message<DataDescriptor<double>> b(std::move(a));
    a = Message<DataDescriptor<double>>(DataDescriptor<double>(x, 3, 2, 5));
    if (a.count() != 1 || b.count() != 1) return 2;
  }
  std::printf("%ld stale releases, %zu never released\\n", stale, live.size());
  MPI_Finalize();
  return stale == 0 && live.empty() ? 0 : 1;
}
"""),
dict(id="p08-cloneleak", property="P08",
  edits=[("include/dlaf/communication/communicator.h", """    return Communicator(comm_clone, managed{});""", """    return Communicator(comm_clone);""")],
  needs="counting communicator releases after a clone's last handle goes away",
  breaks="cloned communicators are never released",
  srcs=["src/communication/communicator.cpp", "src/communication/communicator_impl.cpp"],
  demo=H + """#include <mpi.h>
static long made = 0, freed = 0;
extern "C" int MPI_Comm_dup(MPI_Comm c, MPI_Comm* n) { ++made; return PMPI_Comm_dup(c, n); }
extern "C" int MPI_Comm_free(MPI_Comm* c) { ++freed; return PMPI_Comm_free(c); }
#include <dlaf/communication/communicator.h>
using namespace dlaf::comm;
int main(int c, char** v) {
  MPI_Init(&c, &v);
  { Communicator w(MPI_COMM_WORLD); Communicator d = w.clone(); Communicator e = d; Communicator f = e.clone(); if (f.size() != w.size()) return 2; }
  const int r = made == freed ? 0 : 1;
  MPI_Finalize();
  return r;
}
"""),
dict(id="p08-assign", property="P08",
  edits=[("src/communication/communicator_impl.cpp", """  else if (mpi_communicator == MPI_COMM_NULL)
    return false;

  return true;""", """  else if (mpi_communicator == MPI_COMM_NULL)
    return false;

  int size = 0;
  MPI_Comm_size(mpi_communicator, &size);
  return size > 1;"""),
  ("src/communication/communicator_impl.cpp", """  DLAF_ASSERT(is_manageable(comm_), "");
}""", """  DLAF_ASSERT(is_manageable(comm_) || size_ == 1, "");
}"""),
  ("src/communication/communicator_impl.cpp", """  DLAF_MPI_CHECK_ERROR(MPI_Comm_free(&comm_));
}""", """  if (is_manageable(comm_))
    DLAF_MPI_CHECK_ERROR(MPI_Comm_free(&comm_));
}""")],
  needs="a managed communicator with a single rank",
  breaks="managed communicators of one rank are never released",
  srcs=["src/communication/communicator.cpp", "src/communication/communicator_impl.cpp"],
  demo=H + """#include <mpi.h>
static long freed = 0;
extern "C" int MPI_Comm_free(MPI_Comm* c) { ++freed; return PMPI_Comm_free(c); }
#include <dlaf/communication/communicator.h>
using namespace dlaf::comm;
int main(int c, char** v) {
  MPI_Init(&c, &v);
  { MPI_Comm d; MPI_Comm_dup(MPI_COMM_SELF, &d); auto m = make_communicator_managed(d); auto e = m; if (e.size() != 1) return 2; }
  const int r = freed == 1 ? 0 : 1;
  MPI_Finalize();
  return r;
}
"""),
dict(id="p09-copyback", property="P09",
  edits=[("include/dlaf/communication/sync/reduce.h", """  // Buffers not allocated, just placeholders in case we need to allocate them
  common::Buffer<T> buffer_in, buffer_out;
""", """  // Buffers not allocated, just placeholders in case we need to allocate them
  common::Buffer<T> buffer_in, buffer_tmp;
  common::Buffer<T>& buffer_out = data_nblocks(input) == data_nblocks(output) ? buffer_in : buffer_tmp;
"""),
  ("include/dlaf/communication/sync/reduce.h", """  DLAF_MPI_CHECK_ERROR(MPI_Reduce(message_input.data(), message_output.data(), message_input.count(),
                                  message_input.mpi_type(), reduce_op, communicator.rank(),
                                  communicator));
""", """  const bool shared = message_input.data() == message_output.data() || std::addressof(buffer_in) == std::addressof(buffer_out);
  DLAF_MPI_CHECK_ERROR(MPI_Reduce(shared && buffer_in ? MPI_IN_PLACE : message_input.data(),
                                  shared && buffer_in ? buffer_in.data() : message_output.data(), message_input.count(),
                                  message_input.mpi_type(), reduce_op, communicator.rank(),
                                  communicator));
""")],
  needs="a collective reduce where input and output are both strided with the same number of blocks: the staging buffer of the input is reused while already released",
  breaks="a freed staging buffer is used / results depend on freed memory",
  srcs=["src/communication/communicator.cpp", "src/communication/communicator_impl.cpp", "src/communication/datatypes.cpp"], mpi=2, flags=["-fsanitize=address", "-include", "memory"],
  demo="int main(){return 0;}\n"),
dict(id="p09-inplace", property="P09",
  edits=[("include/dlaf/communication/sync/all_reduce.h", """  // if the output buffer has been used, copy-back output values
  if (buffer_inout)
    common::copy(buffer_inout, inout);
""", """  // if the buffer has been used, copy-back output values (whole columns)
  if (buffer_inout)
    for (SizeType j = 0; j < data_nblocks(inout); ++j)
      std::copy(data_pointer(buffer_inout) + j * data_blocksize(inout),
                data_pointer(buffer_inout) + std::min(j * data_blocksize(inout) + data_stride(inout), data_count(inout)),
                data_pointer(inout) + j * data_stride(inout));
""")],
  needs="an in-place all-reduce on a strided buffer whose gaps hold other data",
  breaks="the gaps between the blocks of the buffer are overwritten",
  srcs=["src/communication/communicator.cpp", "src/communication/communicator_impl.cpp", "src/communication/datatypes.cpp"], mpi=2,
  demo=H + """#include <dlaf/communication/sync/all_reduce.h>
using namespace dlaf::common; using namespace dlaf::comm;
int main(int c, char** v) {
  MPI_Init(&c, &v);
  int bad = 0;
  {
    Communicator w(MPI_COMM_WORLD);
    double x[9];
    for (int i = 0; i < 9; ++i) x[i] = i + 1;
    sync::allReduceInPlace(w, MPI_SUM, DataDescriptor<double>(x, 3, 2, 3));
    for (int i = 0; i < 8; ++i) if (x[i] != (i % 3 == 2 ? i + 1 : 2 * (i + 1))) bad = 1;
  }
  MPI_Finalize();
  return bad;
}
"""),
dict(id="p10-restore", property="P10",
  edits=[("src/common/single_threaded_blas.cpp", """  omp_set_num_threads(omp_num_threads);
#endif""", """  // nothing to do if another scope (or the program) already changed it
  if (omp_get_max_threads() == 1)
    omp_set_num_threads(omp_num_threads);
#endif""")],
  needs="the thread count is changed by the program while a scope is open",
  breaks="the thread count in force before the scope is not restored",
  srcs=["src/common/single_threaded_blas.cpp"],
  demo=H + """#include <omp.h>
#include <dlaf/common/single_threaded_blas.h>
using S = dlaf::common::internal::SingleThreadedBlasScope;
int main() {
  omp_set_num_threads(3);
  { S a; { S b; omp_set_num_threads(2); } }
  if (omp_get_max_threads() != 3) return 1;
  { S a; omp_set_num_threads(5); }
  return omp_get_max_threads() == 3 ? 0 : 1;
}
"""),
]
SEEDS = [s for s in SEEDS if s["id"] != "p09-copyback"]
