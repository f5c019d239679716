// The end of the program: the manager destroys every allocator after those that use it, and pools give back what they hold.
// cfg: k, atexit=1
#include <stdlib.h>
#include "common.hpp"
#include "umpire/ResourceManager.hpp"
#include "umpire/strategy/AlignedAllocator.hpp"
#include "umpire/strategy/DynamicPoolList.hpp"
#include "umpire/strategy/FixedPool.hpp"
#include "umpire/strategy/MixedPool.hpp"
#include "umpire/strategy/MonotonicAllocationStrategy.hpp"
#include "umpire/strategy/NamedAllocationStrategy.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include "umpire/strategy/SlotPool.hpp"
#include "umpire/strategy/ThreadSafeAllocator.hpp"
using namespace vf;
using umpire::Allocator;
using umpire::ResourceManager;
namespace st = umpire::strategy;
extern "C" void sym_run_exit(void);

namespace {
int leaked[2] = {0, 0}, gone = 0;
bool started = false;
struct Up : st::AllocationStrategy {
  struct {
    void* p;
    u64 n;
  } b[16];
  int which, live = 0;
  Up(const std::string& name, int id, int w) : st::AllocationStrategy(name, id, nullptr, "VerifUpstream"), which(w) {}
  void* allocate(std::size_t n) override
  {
    if (live == 16) sym_fail("an operation asks upstream for memory a bounded number of times");
    b[live].p = malloc(n);
    b[live].n = n;
    return b[live++].p;
  }
  void deallocate(void* p, std::size_t n) override
  {
    int i = 0;
    while (i < live && b[i].p != p) ++i;
    if (i == live) sym_fail("only memory obtained from upstream and not yet returned is given back upstream");
    ASSERT(b[i].n == n, "upstream memory is returned with the size it was obtained with");
    free(p);
    b[i] = b[--live];
  }
  umpire::Platform getPlatform() noexcept override { return umpire::Platform::host; }
  umpire::MemoryResourceTraits getTraits() const noexcept override { return umpire::MemoryResourceTraits{}; }
  ~Up() override
  {
    // a block the user kept may keep the memory it lies in
    if (!leaked[which]) ASSERT(live == 0, "with every block freed the end of the program gives all memory back");
    if (leaked[which]) COVER("kept");
    ++gone;
  }
};
void atEnd()
{
  if (!started) return;
  ASSERT(gone == 2, "the end of the program destroys every allocator");
  COVER("end");
}
}  // namespace

extern "C" void harness_main()
{
  atexit(atEnd);
  auto& rm = ResourceManager::getInstance();
  const u64 K = sym_config("k", 2);
  struct Made {
    int up;
    void* p;
    bool fixed;
  } made[8];
  Allocator al[8] = {rm.makeAllocator<Up>("U0", 0), rm.makeAllocator<Up>("U1", 1)};
  for (int i = 0; i < 2; ++i) made[i] = Made{i, nullptr, false};
  int n = 2;
  for (u64 k = 0; k < K; ++k) {
    const unsigned parent = sym_choice((unsigned)n, "parent"), kind = sym_choice(9, "kind");
    ASSUME(!made[parent].fixed);  // a fixed pool serves one size only
    static const char* const kName[4] = {"a", "b", "c", "d"};
    const std::string name(kName[k]);
    Allocator up = al[parent];
    try {
     switch (kind) {
      case 0: al[n] = rm.makeAllocator<st::QuickPool>(name, up, 256, 128); break;
      case 1: al[n] = rm.makeAllocator<st::DynamicPoolList>(name, up, 256, 128); break;
      case 2: al[n] = rm.makeAllocator<st::FixedPool>(name, up, 32, 4); break;
      case 3: al[n] = rm.makeAllocator<st::MonotonicAllocationStrategy>(name, up, 1024); break;
      case 4: al[n] = rm.makeAllocator<st::SlotPool>(name, up, 4); break;
      case 5: al[n] = rm.makeAllocator<st::ThreadSafeAllocator>(name, up); break;
      case 6: al[n] = rm.makeAllocator<st::AlignedAllocator>(name, up, 64); break;
      case 7: al[n] = rm.makeAllocator<st::NamedAllocationStrategy>(name, up); break;
      default: al[n] = rm.makeAllocator<st::MixedPool>(name, up, 64, 256, 1024, 4); break;
     }
    } catch (umpire::runtime_error&) {  // the parent is too small
      ASSERT(!rm.isAllocator(name), "an allocator that could not be made is not known");
      COVER("make-refused");
      continue;
    }
    made[n] = Made{made[parent].up, nullptr, kind == 2};
    ++n;
  }
  for (int i = 2; i < n; ++i) {
    const unsigned what = sym_choice(3, "use");
    if (!what) continue;
    try {
      made[i].p = al[i].allocate(32);
    } catch (umpire::runtime_error&) {  // a fixed or monotonic parent may be too small
      COVER("refused");
      continue;
    }
    COVER("used");
    if (what == 2) {
      al[i].deallocate(made[i].p);
      made[i].p = nullptr;
      COVER("freed");
    }
  }
  for (int i = 2; i < n; ++i)
    if (made[i].p) ++leaked[made[i].up];
  started = true;
  sym_run_exit();
}
