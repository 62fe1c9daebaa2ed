// Stand-in for Umpire: allocations are filled with NaN bytes, fenced, and checked when released.
#pragma once
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vrt.h>
namespace umpire {
struct vshim {
  std::map<void*, std::size_t> live;
  long allocations = 0, releases = 0;
  static vshim& get() {
    static vshim v;
    return v;
  }
  static constexpr std::size_t fence = 256;
};
class Allocator {
public:
  void* allocate(std::size_t n) {
    auto& v = vshim::get();
    char* raw = static_cast<char*>(std::aligned_alloc(256, (n + 2 * vshim::fence + 255) / 256 * 256));
    std::memset(raw, 0xA5, vshim::fence);
    std::memset(raw + vshim::fence, 0xFF, n);
    std::memset(raw + vshim::fence + n, 0x5A, vshim::fence);
    v.live[raw + vshim::fence] = n;
    ++v.allocations;
    return raw + vshim::fence;
  }
  static void check(void* p, std::size_t n) {
    const unsigned char* c = static_cast<unsigned char*>(p);
    for (std::size_t i = 0; i < vshim::fence; ++i)
      if (c[i - vshim::fence] != 0xA5 || c[n + i] != 0x5A)
        vrt::fail("memory outside an allocation was overwritten");
  }
  void deallocate(void* p) {
    if (!p)
      return;
    auto& v = vshim::get();
    auto it = v.live.find(p);
    if (it == v.live.end())
      vrt::fail("memory released twice or never allocated");
    check(p, it->second);
    std::memset(p, 0xFF, it->second);
    v.live.erase(it);
    ++v.releases;
    std::free(static_cast<char*>(p) - vshim::fence);
  }
  void release() {}
};
}
