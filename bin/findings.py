#!/usr/bin/env python3
"""writes known_findings.json; commits are looked up by subject so that they survive a rebase"""
import json, os, subprocess
FIXED = [
 ("C06", "QuickPool coalesce does not re-enter itself", "a heuristic met again inside the coalesce's own deallocate recursed without end"),
 ("C06", "a pool coalesce that upstream cannot satisfy is not fatal", "coalesce is noexcept: an upstream failure inside it terminated the program"),
 ("C05", "FixedPool actual size shrinks when release returns memory", "getActualSize kept counting sub-pools that release had returned"),
 ("C03", "SlotPool keeps its slot when upstream cannot allocate", "after a failed request the slot held a null block of that size, which a later request got"),
 ("C11", "AlignedAllocator refuses sizes whose padded size overflows", "size + padding wrapped and a tiny block was returned for a huge request"),
 ("C01", "pools refuse sizes whose rounded size overflows", "rounding up wrapped to 0 and a pool returned a block for a request of nearly 2^64 bytes"),
 ("C12", "SizeLimiter counts only successful allocations and cannot wrap around", "the running total kept failed requests and its addition could wrap below the limit"),
 ("C13", "MonotonicAllocationStrategy keeps its size when a request is refused", "a refused request still advanced the offset, and offset + bytes could wrap"),
 ("C14", "a failed internal allocation is not counted", "allocate_internal counted the allocation before the strategy failed"),
 ("C14", "NamingShim passes the size on when deallocating", "the wrapped allocator's current size grew with every deallocation"),
 ("C08", "out_of_memory_error from a named allocation carries size and allocator", "named allocations reported size 0 and an invalid allocator id"),
 ("C17", "copy refuses to read past the end of the source allocation", "a length beyond the source was read out of bounds"),
 ("C18", "host reallocate keeps accounts and record right, also when realloc fails", "statistics ignored the reallocation, and a failed realloc lost the allocation's record"),
 ("C20", "removeAlias refuses the name of a resource that is not created yet", "end() was dereferenced"),
 ("C08", "an allocation that cannot be registered is not counted", "a strategy returning null (full SlotPool) was counted although registration failed"),
 ("C15", "NullMemoryResource reads the size before erasing its entry", "the size passed to munmap was read from freed memory"),
 ("C26", "FixedMallocPool keeps its free list inside the free objects", "8 bytes were written into freed 4-byte objects and 4 into smaller ones, over live neighbours or past the buffer"),
 ("C10", "MemoryMap iterators seek their own position before advancing", "an iterator at an address an earlier one had advanced from skipped entries"),
 ("C10", "judy_prv and judy_end find the entry of a last-byte radix node", "with more than 56 keys in one 256-byte window findOrBefore gave a wrong or empty cell"),
 ("C10", "judy_slot does not find a key of zero bytes in an unused slot", "find reported, and erase dereferenced, an absent key ending in zero bytes in maps with radix nodes"),
 ("C10", "MemoryMap insert of a const value reports whether it was added", "the flag was inverted"),
 ("C22", "AllocationMap::size reads the count under the lock", "size raced with insert and remove in other threads"),
 ("C23", "the shared zero-byte pool is used under a lock", "zero-byte allocations of two thread-safe allocators raced in the pool they share"),
 ("C25", "shared memory refuses sizes that wrap around", "the rounded size of a huge request wrapped and a small block was returned"),
 ("C25", "a shared memory segment that cannot be set up is not left behind", "a segment whose ftruncate or mmap failed kept its name and descriptor"),
 ("C29", "an OutputBuffer without streams has none", "the stream pointers were uninitialised until setConsoleStream and setFileStream were called"),
 ("C27", "relative_fragmentation visits every pair of neighbouring records", "the loop never advanced, and an empty vector's end was decremented"),
 ("C21", "a resource whose name is refused leaves no dangling allocator", "makeResource of a name it refuses left a registered allocator that had been destroyed"),
 ("C31", "TypedAllocator refuses counts whose size in bytes wraps around", "sizeof(T) * n wrapped and a tiny block was returned"),
 ("C37", "find_pointer_from_name refuses allocators that are not shared memory", "any allocator's strategy was cast to the shared memory resource"),
 ("C32", "FileMemoryResource closes a file it cannot size or map", "every allocation whose ftruncate or mmap failed leaked a descriptor"),
 ("C32", "FileMemoryResource forgets a mapping whose file cannot be removed", "after a failed remove the unmapped range was unmapped again later, possibly with another allocation in it"),
 ("C32", "NullMemoryResource reports memory it cannot map", "MAP_FAILED was returned as an allocation"),
 ("C39", "json_file_store opens its file whatever event comes first", "inserting an allocation first wrote to a null stream"),
 ("C39", "json_file_store escapes the names of allocations", "an allocation name with a quote, backslash or control character made the file unreadable"),
 ("C04", "SlotPool gives back slots in use with their real length", "a SlotPool destroyed with blocks in use gave them back upstream with a negated size, which corrupted the upstream accounts"),
 ("C41", "NumaPolicy gives back memory it cannot bind", "an allocation whose binding failed was leaked"),
 ("C41", "NUMA helpers free their masks when they fail", "every failed binding or node query leaked its mask"),
 ("C42", "sqlite_database takes texts with quotes and names of any length", "an allocation name of 300 characters overran a buffer on the stack; a quote in any text made the statement invalid and ended the program"),
 ("C06", "FixedPool and MixedPool report memory they cannot obtain when made", "making a fixed or mixed pool while upstream is out of memory ended the program: the constructors were noexcept"),
 ("C06", "FixedPool refuses objects whose total size overflows", "a fixed pool of 2048 objects of 2^53 bytes was made on 0 bytes of memory and handed out objects beyond it"),
 ("C06", "MixedPool takes any object sizes and multiplier", "a smallest object size of 0, a multiplier of 0 or one whose products wrap divided by zero; a multiplier of 1 never ended"),
 ("C43", "finalize_io is declared as it is defined", "no program could call finalize_io: its declaration takes an argument its definition does not"),
 ("C23", "ThreadSafeAllocator also synchronizes the strategies built on it", "pools of two threads over one ThreadSafeAllocator raced in the allocator it wraps"),
 ("C07", "DynamicPoolList's 100 percent heuristics look at the releasable memory", "an untracked DynamicPoolList with percent_releasable(100) or percent_releasable_hwm(100) coalesced at every deallocation: its current size is always 0"),
 ("C21", "making a resource takes no name but its own", "makeResource(\"HOST::0\") also took the name \"HOS\", even from an allocator of that name"),
 ("C41", "a move to a NUMA node refuses offset pointers", "moving a page-aligned pointer inside an allocation bound pages past the end of the allocation"),
]
KNOWN = [
 dict(property="C12", status="known", run="untracked", message="an untracked limiter serves again what was given back to it",
      what="a SizeLimiter made untracked is told size 0 when memory is given back, so its budget only shrinks: limit L, allocate a, deallocate, allocate b with a + b > L is refused"),
 dict(property="C14", status="known", run="untracked", message="the wrapped allocator's current size counts nothing after an untracked wrapper gave all back",
      what="a pass-through strategy made untracked hands memory back with size 0, so the wrapped allocator's current size keeps counting it"),
]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
sub = {l.split(" ", 1)[1]: l.split(" ", 1)[0] for l in log}
out = dict(comment="findings: status 'known' = genuine defect recorded, not repaired (matched by property, run and message). fixed: repaired in /repo, suppresses nothing.",
           findings=KNOWN, fixed=["fixed: property=%s %s %s" % (p, sub["fix: " + s], w) for p, s, w in FIXED])
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
json.dump(out, open(p, "w"), indent=1)
missing = set(s for s in sub if s.startswith("fix: ")) - {"fix: " + s for _, s, _ in FIXED}
assert not missing, missing
