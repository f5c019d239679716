"""the oracle of each property, for DESIGN.md"""
POOLO = ("a model next to the pool: the list of live blocks with their sizes, the chunks the stub upstream has out and its failure schedule; "
         "after every operation the solver is asked for any address layout, size or failure pattern that contradicts the model")
FIXO = "the same model of live blocks and upstream chunks, with the object size as block size"
ORACLE = {
 "C01": POOLO + " (containment, alignment, pairwise disjointness, nothing returned upstream under a live block)",
 "C02": POOLO + " (containment, alignment, pairwise disjointness, nothing returned upstream under a live block)",
 "C03": FIXO + "; membership queries probe a symbolic address",
 "C04": "the stub upstream refuses any deallocation that is not of a chunk it has out with its size; release and destruction are compared with the model's set of free chunks",
 "C05": "each statistic is recomputed from the model after every operation",
 "C06": "the model predicts, from the failure schedule, whether the retry happens and whether the request must fail; state is compared before and after",
 "C07": "the model predicts the number and sizes of upstream requests from the free memory available; heuristics are evaluated in exact integer arithmetic on the model's counts (floating point results of the code are encoded by the engine's constant folding on concrete sizes)",
 "C08": "sums over the model's live allocations",
 "C09": "a symbolic probe address is compared with every live range of the model",
 "C10": "a linear array of (key, value, address) triples; exact, floor and ordered queries recomputed by scanning it",
 "C11": "the stub upstream's record of what each block was carved from; alignment as remainder",
 "C12": "128-bit style sum of live bytes and of each request against the limit",
 "C13": "interval model of everything ever handed out",
 "C14": "call log of the stub upstream",
 "C15": "list of live pointers, call log of the strategies",
 "C16": "snapshot of record, statistics and call log around the refused operation",
 "C17": "byte-wise model of both allocations; bounds recomputed without wrap-around",
 "C18": "byte-wise model of contents; snapshots of statistics and records around failures",
 "C19": "byte-wise model of contents; records and statistics of both allocators",
 "C20": "table of names, aliases and owners",
 "C21": "the documented names written out; independent re-computation of type, id and bit positions",
 "C22": "per-thread model plus the engine's happens-before race detector and deadlock detection",
 "C23": "per-thread model plus race and deadlock detection; final statistics compared with the surviving blocks",
 "C24": "set of names each thread was granted, plus race and deadlock detection",
 "C25": "named-block model over a modelled segment seen through two mappings at different addresses",
 "C26": "live-object model with canary contents in every live object and the engine's bounds checks",
 "C27": "the documented formula over all gaps",
 "C28": "interval arithmetic on the model's ranges",
 "C29": "log of every character and flush that reached each modelled stream, and their return values",
 "C30": "table of registered pairs; call log of the modelled operations",
 "C31": "count times size in 128 bits",
 "C32": "modelled system calls keep the sets of files, descriptors and mappings; leaks and wrong calls are violations",
 "C33": "the C++ interface on the same objects, and byte-wise contents",
 "C34": "linear array of records with their insertion order",
 "C35": "log of what reached the modelled console stream",
 "C36": "the modelled file system's set of names",
 "C37": "statistics and upstream calls before and after",
 "C38": "the sequence of events a correct program would record, compared field by field with what reaches the recorder's store",
 "C39": "the inserted events themselves",
 "C42": "the inserted events themselves; a small SQL reader that accepts only well-formed statements",
 "C44": "the harness's own resource, which lists what is held from it and notes calls after its own destruction; the exit handlers the real code registers are run by the model of atexit",
 "C43": "the text written, followed to the modelled file and the console",
 "C41": "the binding of one symbolic byte, followed through every mbind the real code makes on a modelled machine; the harness's own list of live blocks, nodes with cpus and allowed nodes",
 "C40": "one symbolic byte address: poisoned or not, tracked from the poison and unpoison calls the real code makes, against the harness's list of live blocks and of held memory",
}
