#pragma once
#include <cstddef>
namespace umpire::strategy {
class QuickPool {
public:
  std::size_t actual = 0, blocks = 0, releasable = 0;
  std::size_t getActualSize() const { return actual; }
  std::size_t getReleasableBlocks() const { return blocks; }
  std::size_t getReleasableSize() const { return releasable; }
};
}
