"""Text of the properties; bin/gen.py writes properties.jsonl and MANIFEST.json from this and the registry."""
P = []


def p(pid, title, statement, over, text, why, files, mech, state=None):
    P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               **({"state": [dict(name=n, meaning=m) for n, m in state]} if state else {}))))


S = "src/umpire/strategy/"
NOCORE = "The tests that run here never instantiate a strategy or the resource manager; upstream's own sample a few fixed sizes and orders."

p("C01", "QuickPool never hands out overlapping or dangling memory",
  "Whatever sequence of allocate, deallocate, release and coalesce a program performs on a QuickPool, every block returned lies inside memory "
  "the pool currently holds from its upstream allocator, satisfies the pool's alignment and overlaps no other live block. Memory under a live "
  "block is never given back upstream, and a request no upstream can satisfy fails instead of returning a block.",
  ["inputs", "histories", "configurations", "fault_sequences"],
  "every history of up to k operations, every request size, minimum chunk size, upstream address layout and upstream failure pattern within the bounds",
  NOCORE, [S + "QuickPool.cpp", S + "QuickPool.hpp", S + "mixins/AlignedAllocation.inl"],
  [("splitting and merging of chunks", S + "QuickPool.cpp allocate/deallocate"), ("release/coalesce", S + "QuickPool.cpp release/do_coalesce"),
   ("base pointer map", S + "mixins/AlignedAllocation.inl")],
  [("m_pointer_map", "live blocks"), ("m_size_map", "free blocks by size")])
p("C02", "DynamicPoolList never hands out overlapping or dangling memory",
  "Whatever sequence of allocate, deallocate, release and coalesce a program performs on a DynamicPoolList, every block returned lies inside "
  "memory the pool currently holds from its upstream allocator, satisfies the pool's alignment and overlaps no other live block. Memory under a "
  "live block is never given back upstream, and a request no upstream can satisfy fails instead of returning a block.",
  ["inputs", "histories", "configurations", "fault_sequences"],
  "every history of up to k operations, every request size, minimum chunk size, upstream address layout and upstream failure pattern within the bounds",
  NOCORE, [S + "DynamicSizePool.hpp", S + "DynamicPoolList.cpp", S + "FixedSizePool.hpp"],
  [("used and free block lists", S + "DynamicSizePool.hpp findUsableBlock/splitBlock/releaseBlock"),
   ("release and coalesce", S + "DynamicSizePool.hpp freeReleasedBlocks/coalesce")])
p("C03", "Fixed, mixed and slot pools never hand out overlapping or dangling memory",
  "Whatever the order of allocations and deallocations, FixedPool, MixedPool, SlotPool and FixedSizePool return only blocks that lie inside memory "
  "currently held from upstream and overlap no other live block, and memory under a live block is never given back. FixedPool recognises exactly the "
  "addresses inside its own memory as coming from it.",
  ["inputs", "histories", "configurations", "fault_sequences"],
  "every history of up to k operations, object size, objects per sub-pool, slot count and request size within the bounds",
  NOCORE, [S + "FixedPool.cpp", S + "MixedPool.cpp", S + "SlotPool.cpp", S + "FixedSizePool.hpp", "src/umpire/util/find_first_set.hpp"],
  [("availability bit mask", S + "FixedPool.cpp allocInPool"), ("size classes", S + "MixedPool.cpp"), ("slots", S + "SlotPool.cpp")])
p("C04", "Pools give upstream memory back exactly once and completely",
  "Everything a pool obtains from its upstream allocator is handed back to it exactly once, with the size it was obtained with, and nothing else is "
  "handed back. After release no chunk without a live block is held any more, and destroying a pool whose blocks are all deallocated returns everything.",
  ["inputs", "histories", "fault_sequences"], "every history of up to k operations ending in destruction, with upstream failures, for every kind of pool",
  NOCORE, [S + "QuickPool.cpp", S + "DynamicSizePool.hpp", S + "FixedPool.cpp", S + "MixedPool.cpp", S + "SlotPool.cpp", S + "FixedSizePool.hpp"],
  [("release and destructors", S + "*Pool*.cpp"), ("aligned deallocation", S + "mixins/AlignedAllocation.inl"),
   ("upstream accounting", S + "AllocationStrategy.cpp")])
p("C05", "Pool statistics match the real state of the pool",
  "After every operation a pool's aligned, actual and releasable sizes, block counts and high watermarks equal what follows from the blocks that are "
  "live and the memory really held from upstream; the same holds for FixedPool's current and actual sizes, high watermark and sub-pool count, and MixedPool's "
  "actual size covers and follows what its pools hold. The "
  "upstream allocator's current size and allocation count equal what the pool holds from it.",
  ["inputs", "histories", "fault_sequences"], "every history of up to k operations with upstream failures",
  NOCORE, [S + "QuickPool.cpp", S + "DynamicSizePool.hpp", S + "DynamicPoolList.cpp", S + "FixedPool.cpp", S + "MixedPool.cpp", S + "AllocationStrategy.cpp"],
  [("byte and block counters", S + "QuickPool.cpp"), ("recomputed statistics", S + "DynamicSizePool.hpp"), ("counters", S + "FixedPool.cpp")])
p("C06", "Upstream failure leaves pools intact and is reported exactly when real",
  "When upstream cannot provide memory, a pool first gives back every chunk without a live block and retries once; allocate fails with an "
  "out-of-memory error exactly when that retry fails too (for fixed, mixed and slot pools: only when upstream fails). A failed request leaves live "
  "blocks, statistics and later behaviour intact, and deallocate, release and coalesce never fail because upstream is out of memory. Making a pool fails, "
  "with an out-of-memory error and keeping no memory, exactly when upstream cannot provide what it needs to start with.",
  ["fault_sequences", "histories"], "every placement of up to two upstream failures per operation in every history of up to k operations",
  NOCORE, [S + "QuickPool.cpp", S + "DynamicSizePool.hpp", S + "FixedPool.cpp", S + "SlotPool.cpp", S + "MixedPool.cpp", S + "mixins/AlignedAllocation.inl"],
  [("retry after release", S + "QuickPool.cpp allocate"), ("retry after release", S + "DynamicSizePool.hpp allocateBlock")])
p("C07", "Pools reuse free memory and grow, and coalesce as configured",
  "A pool serves a request that fits its largest available block without going upstream and otherwise obtains exactly one chunk of the configured "
  "minimum size (initial or subsequent) or the request's size if larger; FixedPool adds a sub-pool and SlotPool fills a slot only when no suitable free "
  "object exists. Deallocation goes upstream only when the configured coalescing heuristic is met, and once it is met (or coalesce is called and the "
  "heuristic agrees) at most one chunk without a live block remains.",
  ["inputs", "histories", "configurations"], "every history of up to k operations, every minimum size, each built-in heuristic and a user-supplied one",
  NOCORE, [S + "QuickPool.cpp", S + "DynamicSizePool.hpp", S + "DynamicPoolList.cpp", S + "FixedPool.cpp", S + "SlotPool.cpp"],
  [("minimum sizes", S + "QuickPool.cpp allocate"), ("heuristics", S + "QuickPool.cpp blocks_releasable/percent_releasable"),
   ("heuristics", S + "DynamicPoolList.cpp")])
p("C08", "Allocator statistics account exactly for the live allocations",
  "At every moment an allocator's current size is the sum of its live allocations' requested sizes, its allocation count their number, and its high "
  "watermark the largest current size ever reached, whatever mix of plain, named, zero-byte, failed and refused operations was performed. An allocation "
  "fails exactly when the strategy fails, and the out-of-memory error names the requested size and the allocator.",
  ["inputs", "histories", "fault_sequences"], "every history of up to k operations on two allocators with failures and misuse",
  NOCORE, ["src/umpire/Allocator.inl", "src/umpire/strategy/mixins/Inspector.cpp", "src/umpire/util/error.hpp"],
  [("registration", "src/umpire/strategy/mixins/Inspector.cpp"), ("allocation paths", "src/umpire/Allocator.inl")])
p("C09", "Any address inside a live allocation leads to its size and allocator",
  "For every address, the resource manager reports an allocator exactly when the address is the base of or inside a live allocation, and then size, "
  "allocator, base and name are those of that allocation; any other address is reported as unknown. Allocation reaches the strategy once with the "
  "requested size, and deallocation, by allocator or manager, removes exactly that allocation. An allocator made untracked says so and leaves no records.",
  ["inputs", "histories"], "every probe address around every allocation after every history of up to k operations",
  "AllocationMapTest probes a handful of addresses of a few fixed records; nothing here exercises the resource manager.",
  ["src/umpire/ResourceManager.cpp", "src/umpire/util/AllocationMap.cpp", "src/umpire/util/MemoryMap.inl"],
  [("lookup", "src/umpire/util/AllocationMap.cpp find/findRecord"), ("nearest base", "src/umpire/util/MemoryMap.inl findOrBefore")])
p("C11", "AlignedAllocator returns aligned, disjoint blocks and frees what it got",
  "For every accepted alignment and request size, AlignedAllocator returns a block with that alignment lying wholly inside the memory it got from "
  "upstream for it, disjoint from all other live blocks, and deallocating it returns exactly that memory upstream. Only powers of two of at least 16 are "
  "accepted as alignment, and sizes that cannot be padded without overflow fail with an out-of-memory error.",
  ["inputs", "histories", "fault_sequences"], "every alignment argument, size and upstream address offset within the bounds",
  NOCORE, [S + "AlignedAllocator.cpp", S + "mixins/AlignedAllocation.inl", S + "mixins/AlignedAllocation.hpp"],
  [("padding and base map", S + "mixins/AlignedAllocation.inl")])
p("C12", "SizeLimiter keeps the live bytes within its limit",
  "Whatever the limit, request sizes, deallocations and upstream failures, the bytes live through a SizeLimiter never exceed its limit, a request that "
  "fits the remaining budget is not refused, and a request that does not fit fails with an out-of-memory error without reaching upstream.",
  ["inputs", "histories", "fault_sequences"], "every limit, every sequence of up to k sizes over the 64-bit range, every upstream failure",
  NOCORE, [S + "SizeLimiter.cpp"], [("running total", S + "SizeLimiter.cpp allocate/deallocate")])
p("C13", "MonotonicAllocationStrategy hands out each byte at most once",
  "A MonotonicAllocationStrategy obtains its capacity from upstream once, returns blocks that lie inside it and never overlap any block returned before "
  "(deallocated or not), serves every request that fits the remaining capacity and refuses every other without side effects. Its current size is what it "
  "has handed out, its high watermark the capacity, and destroying it returns the memory.",
  ["inputs", "histories"], "every capacity, every sequence of up to k sizes over the 64-bit range, every upstream address",
  NOCORE, [S + "MonotonicAllocationStrategy.cpp"], [("bump offset", S + "MonotonicAllocationStrategy.cpp allocate")])
p("C14", "Pass-through strategies forward requests unchanged",
  "NamedAllocationStrategy, NamingShim and ThreadSafeAllocator ask what they wrap once for exactly the requested size, return its block, hand back "
  "exactly that block, fail exactly when it fails, and leave the wrapped allocator's statistics equal to what is held from it.",
  ["inputs", "histories", "fault_sequences"], "every history of up to k operations, sizes over the 64-bit range, every upstream failure",
  NOCORE, [S + "NamedAllocationStrategy.cpp", S + "NamingShim.cpp", S + "ThreadSafeAllocator.cpp", S + "AllocationStrategy.cpp"],
  [("internal allocation", S + "AllocationStrategy.cpp allocate_internal/deallocate_internal")])
p("C15", "Zero-byte requests and null pointers are handled uniformly",
  "Every allocation, zero-byte ones included, yields a non-null pointer distinct from every other live allocation's; a zero-byte request never reaches the "
  "strategy and its pointer can be deallocated like any other, without reaching the strategy.",
  ["inputs", "histories"], "every history of up to k plain and zero-byte operations on two allocators",
  NOCORE, ["src/umpire/Allocator.inl", S + "mixins/AllocateNull.cpp", "src/umpire/ResourceManager.cpp", S + "FixedPool.cpp", "src/umpire/resource/NullMemoryResource.cpp"],
  [("zero-byte pool", S + "mixins/AllocateNull.cpp"), ("zero-byte pool creation", "src/umpire/ResourceManager.cpp initialize")])
p("C16", "Deallocating a pointer you do not own is refused without damage",
  "Deallocating a live allocation through another allocator than its owner fails, frees nothing and leaves the allocation known with its size, name and owner; "
  "deallocating an unknown pointer fails and frees nothing; deallocating a null pointer does nothing.",
  ["inputs", "histories"], "every history of up to k operations with misuse at any point",
  NOCORE, ["src/umpire/Allocator.inl", "src/umpire/strategy/mixins/Inspector.cpp", "src/umpire/util/AllocationMap.cpp"],
  [("owner check", "src/umpire/strategy/mixins/Inspector.cpp deregisterAllocation")])
p("C17", "copy and memset touch exactly the requested bytes and refuse overruns",
  "copy and memset, synchronous or with a resource context, write exactly the requested bytes (with length 0: to the end of the source or of the "
  "allocation) with the source's bytes or the given value, change nothing else, and fail without writing anything exactly when the length exceeds what "
  "remains after the given pointers in source or destination.",
  ["inputs"], "every length over the 64-bit range, every pair of offsets, every content",
  NOCORE, ["src/umpire/ResourceManager.cpp", "src/umpire/op/HostCopyOperation.cpp", "src/umpire/op/HostMemsetOperation.cpp"],
  [("bounds checks", "src/umpire/ResourceManager.cpp copy/memset"), ("operations", "src/umpire/op")])
p("C18", "reallocate keeps contents, ownership and accounts, also when it fails",
  "reallocate returns an allocation of the requested size owned by the same allocator whose common prefix has the old contents, the old pointer is no "
  "longer known unless it is the same, and the allocator's statistics follow. Reallocating through another allocator, an offset pointer or to a size that "
  "cannot be provided fails and leaves the allocation, its contents and the statistics as they were; reallocating null allocates.",
  ["inputs", "histories", "fault_sequences"], "every sequence of up to two reallocations of every small size with every content, for HOST and a pool",
  NOCORE, ["src/umpire/ResourceManager.cpp", "src/umpire/op/HostReallocateOperation.cpp", "src/umpire/op/GenericReallocateOperation.cpp"],
  [("dispatch", "src/umpire/ResourceManager.cpp reallocate_impl"), ("host realloc", "src/umpire/op/HostReallocateOperation.cpp")])
p("C19", "move transfers contents and ownership",
  "Moving an allocation to another allocator yields an allocation there of the same size and contents, the source allocation is gone and both allocators' "
  "statistics follow; moving to the owner returns the same pointer unchanged; moving an offset pointer fails and changes nothing.",
  ["inputs"], "every size and content within the bounds, both directions between HOST and a pool, every offset",
  NOCORE, ["src/umpire/ResourceManager.cpp"], [("move", "src/umpire/ResourceManager.cpp move")])
p("C20", "Names, ids, aliases and the default allocator resolve consistently",
  "An allocator name is taken exactly while it names a built-in resource, a made allocator or an alias; making or aliasing a taken name fails, looking up "
  "fails exactly for unknown names and ids, a name always leads to the allocator it was given to, ids are unique, and the default allocator is HOST until "
  "another is set. Only an alias can be removed, and only through the allocator it stands for. The lists of names and ids hold exactly what can be looked up.",
  ["histories", "inputs"], "every history of up to k operations over four names and every 32-bit id",
  NOCORE, ["src/umpire/ResourceManager.cpp", "src/umpire/ResourceManager.inl"], [("registries", "src/umpire/ResourceManager.cpp addAlias/removeAlias/getAllocator/isAllocator")])
U = "src/umpire/util/"
MAPT = "MemoryMapTest and AllocationMapTest use a few fixed keys; node splits, radix levels and iterator interplay depend on how many keys there are and which bytes they share."
p("C10", "MemoryMap behaves as an ordered map from addresses to values",
  "For every history of insert, erase, find, findOrBefore, clear and iteration with any non-null keys, MemoryMap (a Judy array) holds exactly the keys inserted and "
  "not erased with the values given at their first insertion: insert says whether the key was new, find and findOrBefore give the exact and the greatest "
  "not-larger key, erasing an absent key is refused, size counts the entries. Iterators visit every entry once in ascending order, independently of each other, "
  "and values keep their address, are constructed once and destroyed once.",
  ["inputs", "histories"], "every history of up to k operations with keys over the 64-bit range, and histories at the corners of maps large enough for every node type",
  MAPT, [U + "MemoryMap.inl", U + "MemoryMap.hpp", "src/tpl/umpire/judy/judy.c"],
  [("map operations", U + "MemoryMap.inl"), ("node search, promotion, splitting, deletion", "src/tpl/umpire/judy/judy.c judy_slot/judy_cell/judy_nxt/judy_prv/judy_del")])
p("C26", "FixedMallocPool hands out disjoint objects and keeps out of them",
  "For every order of allocations and deallocations, FixedMallocPool's objects do not overlap, the pool never writes to a live object or outside its memory, "
  "freed objects are reused before memory is added, and memory that is not of the pool is refused.",
  ["inputs", "histories", "configurations"], "every history of up to k operations for several object sizes and pool capacities",
  "No test here exercises the pool except through a few map insertions.", [U + "FixedMallocPool.cpp", U + "FixedMallocPool.hpp"],
  [("free list inside the objects", U + "FixedMallocPool.cpp allocInPool/deallocate")])
p("C34", "AllocationMap attributes every address to the right record",
  "After any history of insert, remove and clear, AllocationMap finds for an address the most recent record of the registered range it lies in (or whose base it "
  "is), unchanged, and nothing for any other address; remove takes the most recent record at that base and refuses other addresses; size and iteration agree with "
  "the records registered and not removed, and print shows exactly those satisfying its predicate, each once.",
  ["inputs", "histories"], "every history of up to k operations with symbolic disjoint ranges and repeated bases, and every probe address",
  MAPT, [U + "AllocationMap.cpp", U + "AllocationMap.hpp", U + "MemoryMap.inl"],
  [("range lookup", U + "AllocationMap.cpp doFindRecord"), ("record lists per base", U + "AllocationMap.cpp RecordList")])
R = "src/umpire/resource/"
NOTHR = "No test here runs two threads; interleavings and races show only under schedules a test run does not control."
p("C22", "AllocationMap can be used from several threads at once",
  "When threads insert, remove and look up records in one AllocationMap at the same time, no schedule contains a data race or a deadlock; each thread sees the records "
  "it registered and no longer those it removed, records registered before stay findable, and afterwards the map holds exactly what was registered and not removed.",
  ["schedules", "histories"], "every schedule of two threads within the preemption bound and every mix of their operations",
  NOTHR, [U + "AllocationMap.cpp", U + "AllocationMap.hpp", U + "MemoryMap.inl"], [("mutex around the map", U + "AllocationMap.cpp")])
p("C23", "ThreadSafeAllocator makes allocation safe from several threads",
  "When threads allocate (plain, named and zero-byte) and deallocate through ThreadSafeAllocators, shared or one per thread, directly or through pools of their own built on one, no schedule contains a data race or "
  "deadlock; all live blocks are registered and disjoint, and the statistics of the allocator and of the pool it wraps account exactly for them afterwards.",
  ["schedules", "histories"], "every schedule of two threads within the preemption bound and every mix of their operations",
  NOTHR, [S + "ThreadSafeAllocator.cpp", "src/umpire/Allocator.inl", "src/umpire/Allocator.cpp", S + "mixins/Inspector.cpp", S + "mixins/AllocateNull.cpp", U + "AllocationMap.cpp"],
  [("allocator mutex", S + "ThreadSafeAllocator.cpp"), ("thread-safe allocation path", "src/umpire/Allocator.inl"), ("allocation registry", U + "AllocationMap.cpp")])
p("C24", "Allocators can be made from several threads at once",
  "When threads make allocators at the same time, no schedule contains a data race or a deadlock; a name is given to exactly one allocator, also when two threads try it, "
  "ids are unique, and every allocator made can be found by its name and id and allocates.",
  ["schedules", "histories"], "every schedule of two threads within the preemption bound and every choice of names",
  NOTHR, ["src/umpire/ResourceManager.inl", "src/umpire/ResourceManager.cpp"], [("registry mutex", "src/umpire/ResourceManager.inl makeAllocator")])
p("C25", "Shared memory blocks are shared by name, disjoint and counted",
  "Every process mapping a shared memory segment, at whatever address, that allocates a name some process holds gets that same block, any other name a new block inside "
  "the segment disjoint from all others; a block stays until every holder has freed it, its space is then reusable, and lookups by name find exactly the held blocks. "
  "Contents of held blocks are left alone, also with several threads, requests that do not fit fail, and a segment that cannot be set up is not left behind.",
  ["histories", "configurations", "fault_sequences", "schedules"], "every history of up to k operations by two mappings, segment sizes and setup failures within the bounds",
  "No test here maps a shared segment.", [R + "HostSharedMemoryResource.cpp", R + "HostSharedMemoryResource.hpp"],
  [("segment header, free list and name list in shared memory", R + "HostSharedMemoryResource.cpp")])
M = "src/umpire/"
p("C21", "Resources are known by type, name and id",
  "Exactly the resource names stand for resource types and each type has its name; a resource type or name this build lacks is refused; a resource is the same "
  "allocator by type, name and id, is accessible from its own platform only, as are the strategies on it. A further resource can be made under each free name of a "
  "resource, what cannot be made leaves no trace. find_first_set gives the lowest set bit of any word, or 0.",
  ["inputs", "configurations", "histories"], "every string within the bounds, every resource type, every pair of resources made, every 32-bit word",
  "Tests look up a few names that exist.", [M + "resource/MemoryResourceTypes.hpp", M + "ResourceManager.cpp", M + "resource/MemoryResourceRegistry.cpp", M + "Umpire.cpp", U + "find_first_set.hpp", U + "Platform.hpp"],
  [("names and types", M + "resource/MemoryResourceTypes.hpp"), ("makeResource", M + "ResourceManager.cpp makeResource")])
p("C27", "Relative fragmentation is computed over every gap",
  "For every address-ordered vector of records, including empty ones and single records, relative_fragmentation terminates and gives one minus the largest gap's share of all gaps between "
  "neighbouring records, when there is a gap.",
  ["inputs"], "every sequence of gaps within the bounds", "No test here calls it.", [U + "allocation_statistics.cpp"], [("gap loop", U + "allocation_statistics.cpp relative_fragmentation")])
p("C28", "Registered ranges, records and overlap queries agree",
  "For any two registered ranges, pointer_overlaps and pointer_contains tell exactly whether the right one starts in the left one and ends after it, or not after it; unknown pointers "
  "are refused. Externally registered allocations are found and deregistered with the record given, and an allocator's records are exactly its live allocations with "
  "their sizes and names.",
  ["inputs", "histories"], "every pair of ranges and pointers into them, every history of up to k operations on two allocators",
  NOCORE, [M + "Umpire.cpp", M + "ResourceManager.cpp", U + "AllocationMap.cpp"],
  [("range comparisons", M + "Umpire.cpp pointer_overlaps/pointer_contains"), ("record listing", M + "Umpire.cpp get_allocator_records"), ("registration", M + "ResourceManager.cpp registerAllocation/deregisterAllocation")])
p("C29", "OutputBuffer passes everything to the streams attached",
  "For every history of attaching, detaching, writing and flushing, every character written to an OutputBuffer reaches each attached stream once and in order and no "
  "other stream; a write or flush fails exactly when an attached stream fails; attached streams are flushed when the buffer is destroyed, and a buffer without streams touches none.",
  ["histories", "inputs", "fault_sequences"], "every history of up to k operations over three streams, every character and failure pattern",
  "OutputBufferTests writes fixed strings to working streams, always with both streams set.", [U + "OutputBuffer.cpp", U + "OutputBuffer.hpp"],
  [("overflow and sync", U + "OutputBuffer.cpp")])
p("C30", "Operations are dispatched by platform, advice is applied to every block",
  "An operation is found exactly for the platforms it was registered for, by platforms or by allocators, and is refused otherwise. AllocationAdvisor and "
  "AllocationPrefetcher apply their operation once to each block they hand out, with its size and their device, hand blocks back, and cannot be made for operations their allocator lacks.",
  ["inputs", "configurations", "fault_sequences"], "every operation name and platform pair, every size, device and upstream failure",
  NOCORE, [M + "op/MemoryOperationRegistry.cpp", S + "AllocationAdvisor.cpp", S + "AllocationPrefetcher.cpp"],
  [("registry", M + "op/MemoryOperationRegistry.cpp find"), ("advice", S + "AllocationAdvisor.cpp allocate")])
p("C31", "TypedAllocator allocates room for all objects or fails",
  "For every count, TypedAllocator's allocate returns a block of its allocator with room for that many objects, or fails when the allocator cannot provide the bytes, also when "
  "their number does not fit in 64 bits; deallocate gives the block back, and typed allocators compare equal exactly when they use the same allocator.",
  ["inputs", "configurations"], "every 64-bit count for several object sizes", "No test here uses it; upstream's uses one small count.", [M + "TypedAllocator.inl", M + "TypedAllocator.hpp"],
  [("size computation", M + "TypedAllocator.inl allocate")])
p("C35", "Log messages appear exactly when their level is enabled",
  "A message is logged exactly when its level is not above the configured one, as one line naming its level, file and line followed by its text. The level is taken from UMPIRE_LOG_LEVEL without regard "
  "to case, anything else in it leaves the default, and setting a level takes effect at once.",
  ["histories", "inputs", "configurations"], "every history of up to k operations over all levels, every short text and every environment value within the bounds",
  "Tests log nothing, or fixed messages at one level.", [U + "Logger.cpp", U + "Logger.hpp"], [("level table", U + "Logger.cpp setLoggingMsgLevel"), ("environment", U + "Logger.cpp initialize")])
p("C36", "Output file names do not clash with existing files",
  "make_unique_filename gives, for every directory, base name, process id, extension and set of existing files, the first numbered name that is not that of an existing file, and file_exists "
  "tells existing files from others.",
  ["inputs", "configurations"], "every set of existing files within the bounds", "Tests ask for one name.", [U + "io.cpp", U + "io.hpp"], [("name search", U + "io.cpp make_unique_filename")])
p("C37", "Convenience functions act on the right allocator",
  "umpire::malloc allocates from the default allocator and free returns any allocation to its own; coalesce and try_coalesce coalesce exactly the pools that can and leave others alone, coalesce failing for them; "
  "find_pointer_from_name refuses allocators that are not shared memory; Allocator::release returns a pool's free memory upstream.",
  ["configurations", "histories"], "every kind of pool, default allocator and size within the bounds", NOCORE, [M + "Umpire.cpp", M + "Allocator.cpp", U + "wrap_allocator.hpp"],
  [("pool lookup", M + "Umpire.cpp coalesce/try_coalesce"), ("default allocator", M + "Umpire.hpp malloc/free")])
I = M + "interface/c_fortran/"
p("C33", "The C interface acts as the C++ interface it wraps",
  "Every function of the C interface has the effect and result of its C++ counterpart: handles allocate, deallocate and report through the allocator they stand for, lookups, names with or "
  "without a length, ids and aliases resolve the same, strategies are made with the parameters given, copy writes from its second pointer to its first, and giving up a handle leaves its allocator alive.",
  ["inputs", "histories", "configurations"], "every function with symbolic sizes, offsets, contents and names within the bounds",
  "The C interface is not built here; upstream's tests call each function once with fixed values.", [I + "wrapAllocator.cpp", I + "wrapResourceManager.cpp", I + "wrapUmpire.cpp", I + "utilUmpire.cpp"],
  [("wrappers", I + "wrapResourceManager.cpp"), ("handle destruction", I + "wrapUmpire.cpp umpire_SHROUD_memory_destructor")])
p("C32", "File, null and host memory resources keep their mappings straight",
  "Each FileMemoryResource allocation maps a file of its own, large enough, in the configured directory; deallocating unmaps it as a whole and removes the file, and what is still allocated goes "
  "with the resource. Whatever system call fails, the failure is reported and no mapping, descriptor or file of a failed allocation is left. Null memory is mapped and unmapped once and a failed mapping reported; "
  "the host resource (malloc, or page-aligned in a NUMA build) fails exactly when the system has no memory and gives back what it is given; ranges of the no-op resource do not overlap.",
  ["histories", "inputs", "fault_sequences", "configurations"], "every history of up to k operations, every size and every placement of failing system calls within the bounds",
  "No test here uses these resources, and none anywhere makes system calls fail.", [R + "FileMemoryResource.cpp", R + "NullMemoryResource.cpp", R + "NoOpMemoryResource.cpp", R + "DefaultMemoryResource.inl", M + "alloc/MallocAllocator.hpp", M + "alloc/PosixMemalignAllocator.hpp"],
  [("file mapping", R + "FileMemoryResource.cpp allocate/deallocate"), ("reserved address space", R + "NullMemoryResource.cpp")])
E = M + "event/"
p("C38", "With events enabled the record tells what the program did",
  "When event recording is on, each successful allocation, plain or named, is recorded once with its size, name, pointer and allocator, a failed one is not, and each deallocation once with its pointer and "
  "allocator; making allocators and resources, setting the default, copy, memset, reallocate, move, release, coalesce, external registration and marked events are recorded with their pointers, sizes, offsets and allocators.",
  ["histories", "inputs", "fault_sequences"], "every history of up to k allocations and deallocations, every operation with its parameters within the bounds",
  "No test here turns recording on.", [M + "Allocator.inl", M + "Allocator.cpp", M + "ResourceManager.cpp", M + "ResourceManager.inl", M + "Umpire.cpp", E + "event.hpp", E + "event_store_recorder.cpp"],
  [("recording in the allocation path", M + "Allocator.inl do_allocate/do_named_allocate/do_deallocate"), ("event builders", E + "event.hpp")])
p("C39", "Events written to a file are read back as they were",
  "Whatever kinds of events are inserted into a json_file_store, in whatever order and with whatever text in their names and arguments, reading the file gives the same events in the same order with their "
  "names, categories, sizes, pointers, texts, tags and times.",
  ["inputs", "histories"], "every pair of event kinds, every ASCII character in texts, corner sizes and pointers",
  "No test here writes events.", [E + "json_file_store.cpp", E + "event_json.hpp"],
  [("formatted and generic insertion", E + "json_file_store.cpp insert"), ("reading", E + "json_file_store.cpp get_events"), ("conversion", E + "event_json.hpp")])
p("C42", "Events stored in SQLite are read back as they were",
  "Whatever kinds of events are inserted into a sqlite_database, in whatever order and with whatever text of any length in their names and arguments, every statement sent to SQLite is valid and reading the "
  "database gives the same events in the same order with their names, categories, sizes, pointers, texts, tags and times.",
  ["inputs", "histories"], "every pair of event kinds, every ASCII character and long texts, corner sizes and pointers",
  "The store is not built by the tests here.", [E + "sqlite_database.cpp", E + "event_json.hpp"],
  [("formatted and generic insertion", E + "sqlite_database.cpp insert"), ("reading", E + "sqlite_database.cpp get_events"), ("conversion", E + "event_json.hpp")])
p("C43", "Log and error output goes where it was configured",
  "After initialize_io, error messages go to the standard error stream and nowhere else; with logging enabled what is logged goes, complete and in order once flushed or finalized, to a new file in the configured "
  "directory with the first free name, and never to the console; with logging disabled it goes nowhere and neither file nor directory is made. A missing output directory is made when that is possible (MPI layer "
  "initialized, logging enabled); one that is missing otherwise or is no directory, and a log file that cannot be opened, are reported by an exception. After finalize_io nothing reaches the streams.",
  ["inputs", "configurations"], "every combination of logging, directory, base name, taken names and MPI layer, symbolic text", "Tests check one configuration's file.", [U + "io.cpp", U + "io.hpp", U + "OutputBuffer.cpp"],
  [("set up", U + "io.cpp initialize_io"), ("finish", U + "io.cpp finalize_io"), ("flush", U + "io.cpp flush_files")])
p("C44", "At exit allocators outlive those built on them and memory goes back",
  "When the program ends, the resource manager destroys each allocator, whatever the order and nesting in which they were made and used, before the allocators and resources it draws from, and no destroyed allocator is called. "
  "Where every block was deallocated, everything the allocators obtained goes back, once and with its size, to where it came from; the shutdown itself never fails.",
  ["histories", "configurations"], "every chain or tree of up to k allocators of nine kinds, each unused, used, or used and given back",
  "The tests here never build nested allocators and look at nothing after main returns.", [M + "ResourceManager.cpp", M + "ResourceManager.inl", S + "QuickPool.cpp", S + "DynamicSizePool.hpp", S + "FixedPool.cpp", S + "SlotPool.cpp", S + "MonotonicAllocationStrategy.cpp"],
  [("order of destruction", M + "ResourceManager.inl makeAllocator"), ("destruction", M + "ResourceManager.cpp ~ResourceManager"), ("pool destructors", S + "QuickPool.cpp ~QuickPool")])
p("C40", "Address-sanitizer poisoning matches the live blocks",
  "In a build with UMPIRE_ENABLE_ASAN, after every operation on a QuickPool or DynamicPoolList over host memory, every byte of every live block may be accessed and every other byte the pool "
  "holds from upstream is poisoned, so that a stray access is reported and a legal one is not.",
  ["inputs", "histories", "fault_sequences"], "every history of up to k operations, every size in the bound, every byte address",
  "The tests are built without the sanitizer.", [S + "QuickPool.cpp", S + "DynamicSizePool.hpp", S + "mixins/AlignedAllocation.inl", "src/umpire/util/memory_sanitizers.hpp"],
  [("poison on deallocate, unpoison on allocate", S + "QuickPool.cpp"), ("poison on deallocate, unpoison on allocate", S + "DynamicSizePool.hpp"), ("poison of new chunks", S + "mixins/AlignedAllocation.inl")])
p("C41", "NUMA allocations are bound to their node, whole and alone",
  "In a build with UMPIRE_ENABLE_NUMA, every byte of a block from a NumaPolicy, and of an allocation moved to one, is bound to the policy's node, at the same address for a move, and no page outside it is affected. "
  "When the memory cannot be bound the operation fails and leaves accounts, records, bindings and upstream memory as they were. HOST memory starts on a page. A NumaPolicy is refused for negative nodes, "
  "a move for offset pointers; the lists of host, device and allocatable nodes are what libnuma reports. No operation leaves a node mask allocated.",
  ["inputs", "histories", "fault_sequences"], "every node number, machine of 1 to 4 nodes, size, byte address and failure",
  "The tests are built without NUMA support.", [S + "NumaPolicy.cpp", "src/umpire/util/numa.cpp", "src/umpire/op/NumaMoveOperation.cpp", "src/umpire/ResourceManager.cpp", "src/umpire/alloc/PosixMemalignAllocator.hpp"],
  [("allocate", S + "NumaPolicy.cpp"), ("move in place", "src/umpire/ResourceManager.cpp move"), ("binding and queries", "src/umpire/util/numa.cpp")])
NA = []
