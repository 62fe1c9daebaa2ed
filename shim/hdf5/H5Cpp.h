// Stand-in for the part of the HDF5 C++ library that dlaf/matrix/hdf5.h uses: files live in memory, shared by the simulated
// processes.  Selections are checked like HDF5 does; every transfer is recorded.
#pragma once
#include <mpi.h>
#include <vrt.h>

#include <algorithm>
#include <complex>
#include <cstddef>
#include <cstdint>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

using hsize_t = unsigned long long;
using hid_t = std::int64_t;
enum H5S_seloper_t { H5S_SELECT_SET = 0 };
enum H5F_scope_t { H5F_SCOPE_LOCAL = 0 };
constexpr unsigned H5F_ACC_RDONLY = 0, H5F_ACC_RDWR = 1, H5F_ACC_TRUNC = 2, H5F_ACC_EXCL = 4, H5F_ACC_CREAT = 16;

namespace H5 {
struct Exception : std::runtime_error {
  using std::runtime_error::runtime_error;
};
[[noreturn]] inline void refuse(const std::string& s) {
  throw Exception("HDF5: " + s);
}
struct DataType {
  int id = 0;
  std::size_t bytes = 0;
  bool operator==(const DataType& o) const { return id == o.id; }
  bool operator!=(const DataType& o) const { return id != o.id; }
};
struct PredType : DataType {
  constexpr PredType(int i, std::size_t n) : DataType{i, n} {}
  static const PredType NATIVE_FLOAT, NATIVE_DOUBLE;
};
inline const PredType PredType::NATIVE_FLOAT{1, 4};
inline const PredType PredType::NATIVE_DOUBLE{2, 8};

namespace shim {
struct Transfer {
  int rank;
  bool write;
  std::vector<hsize_t> offset, count;
};
struct Data {
  DataType type;
  std::vector<hsize_t> dims;
  std::vector<unsigned char> bytes;
  std::set<int> creators;
  std::vector<Transfer> log;
};
struct File {
  std::map<std::string, Data> sets;
  bool shared = false;  // opened by all processes of a communicator
  std::set<int> openers;
};
struct Disk {
  std::map<std::string, std::shared_ptr<File>> files;
  std::map<hid_t, MPI_Comm> plists;
  hid_t next = 1;
};
inline Disk& disk() {
  static Disk d;
  return d;
}
}  // namespace shim

class DataSpace {
public:
  DataSpace(int n, const hsize_t* d) : dims(d, d + n), offset(std::size_t(n), 0), count(dims) {}
  void selectHyperslab(H5S_seloper_t, const hsize_t* c, const hsize_t* o) const {
    for (std::size_t k = 0; k < dims.size(); ++k)
      if (c[k] > 0 && o[k] + c[k] > dims[k])
        refuse("selection outside of the extent");
    offset.assign(o, o + dims.size());
    count.assign(c, c + dims.size());
  }
  int getSimpleExtentNdims() const { return int(dims.size()); }
  int getSimpleExtentDims(hsize_t* d) const {
    std::copy(dims.begin(), dims.end(), d);
    return int(dims.size());
  }
  std::vector<hsize_t> dims;
  mutable std::vector<hsize_t> offset, count;
  hsize_t selected() const {
    hsize_t n = 1;
    for (auto c : count)
      n *= c;
    return n;
  }
  // positions of the selected elements, in order
  std::vector<hsize_t> positions() const {
    std::vector<hsize_t> at, k(dims.size(), 0);
    for (hsize_t i = 0, n = selected(); i < n; ++i) {
      hsize_t p = 0;
      for (std::size_t d = 0; d < dims.size(); ++d)
        p = p * dims[d] + offset[d] + k[d];
      at.push_back(p);
      for (std::size_t d = dims.size(); d-- > 0;) {
        if (++k[d] < count[d])
          break;
        k[d] = 0;
      }
    }
    return at;
  }
};

class DataSet {
public:
  DataSet(std::shared_ptr<shim::File> f, shim::Data* d, bool ro) : file(std::move(f)), data(d), readonly(ro) {}
  DataSpace getSpace() const { return DataSpace(int(data->dims.size()), data->dims.data()); }
  DataType getDataType() const { return data->type; }
  void read(void* p, const DataType& t, const DataSpace& mem, const DataSpace& fs) const { move(static_cast<unsigned char*>(p), t, mem, fs, false); }
  void write(const void* p, const DataType& t, const DataSpace& mem, const DataSpace& fs) const {
    if (readonly)
      refuse("the file is open to be read only");
    move(const_cast<unsigned char*>(static_cast<const unsigned char*>(p)), t, mem, fs, true);
  }

private:
  void move(unsigned char* p, const DataType& t, const DataSpace& mem, const DataSpace& fs, bool write) const {
    if (t != data->type)
      refuse("conversions are not part of the stand-in");
    if (fs.dims != data->dims)
      refuse("the data space is not the one of the data set");
    if (mem.selected() != fs.selected())
      refuse("different numbers of elements are selected");
    const auto m = mem.positions(), f = fs.positions();
    for (std::size_t k = 0; k < m.size(); ++k) {
      auto a = p + m[k] * t.bytes, b = data->bytes.data() + f[k] * t.bytes;
      write ? std::copy(a, a + t.bytes, b) : std::copy(b, b + t.bytes, a);
    }
    data->log.push_back({vrt::rank(), write, fs.offset, fs.count});
  }
  std::shared_ptr<shim::File> file;
  shim::Data* data;
  bool readonly;
};

struct FileCreatPropList {};
class FileAccPropList {
public:
  FileAccPropList() : id(shim::disk().next++) {}
  hid_t getId() const { return id; }

private:
  hid_t id;
};

class H5File {
public:
  H5File() = default;
  H5File(const std::string& name, unsigned flags, const FileCreatPropList& = {}, const FileAccPropList& fapl = {}) {
    auto& d = shim::disk();
    auto it = d.files.find(name);
    readonly = flags == H5F_ACC_RDONLY;
    const auto c = d.plists.find(fapl.getId());
    shared = c != d.plists.end();
    if (flags & (H5F_ACC_CREAT | H5F_ACC_EXCL | H5F_ACC_TRUNC)) {
      if (it != d.files.end() && (flags & H5F_ACC_TRUNC))
        it->second = std::make_shared<shim::File>();
      else if (it != d.files.end() && !(shared && it->second->shared && it->second->openers.count(vrt::rank()) == 0))
        refuse("the file exists: " + name);
      if (it == d.files.end())
        it = d.files.emplace(name, std::make_shared<shim::File>()).first;
      it->second->shared = shared;
      it->second->openers.insert(vrt::rank());
    }
    else if (it == d.files.end())
      refuse("no such file: " + name);
    file = it->second;
  }
  DataSet createDataSet(const std::string& name, const DataType& t, const DataSpace& s) const {
    if (readonly)
      refuse("the file is open to be read only");
    auto it = file->sets.find(name);
    if (it == file->sets.end()) {
      shim::Data d;
      d.type = t;
      d.dims = s.dims;
      hsize_t n = t.bytes;
      for (auto x : s.dims)
        n *= x;
      d.bytes.assign(n, 0xff);  // not a number
      it = file->sets.emplace(name, std::move(d)).first;
    }
    else if (!shared || it->second.creators.count(vrt::rank()))
      refuse("the data set exists: " + name);
    else if (it->second.type != t || it->second.dims != s.dims)
      refuse("the processes create different data sets under the name " + name);
    it->second.creators.insert(vrt::rank());
    return DataSet(file, &it->second, readonly);
  }
  DataSet openDataSet(const std::string& name) const {
    auto it = file->sets.find(name);
    if (it == file->sets.end())
      refuse("no such data set: " + name);
    return DataSet(file, &it->second, readonly);
  }
  void flush(H5F_scope_t) const {}

private:
  std::shared_ptr<shim::File> file;
  bool readonly = true, shared = false;
};
}  // namespace H5

inline int H5Pset_fapl_mpio(hid_t id, MPI_Comm comm, MPI_Info) {
  H5::shim::disk().plists[id] = comm;
  return 0;
}
