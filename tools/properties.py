"""The properties; tools/gen_meta.py turns this into properties.jsonl and MANIFEST.json."""
H, I, S, F, CR, CF, PR = "histories", "inputs", "schedules", "fault_sequences", "crash_points", "configurations", "programs"


def P(id, title, statement, over, text, why, files, mech, state=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                             mechanism=[dict(name=a, where=b) for a, b in mech]))


PROPS = [
    P("C01", "An external stream behaves as a sequence with a cursor",
      "For every sequence of writes, overwrites, reads, peeks, backward reads, bulk array transfers, seeks and truncations, a stream returns exactly the items, offsets, sizes and end-of-stream indications that an in-memory sequence with a cursor would. This holds for plain, compressed and legacy uncompressed streams, for every item size, block size and relative timing of the background writer, and an operation the stream documents as unsupported is refused without changing it.",
      [H, CF, S], "all operation histories on one open stream, item sizes, block sizes, compression kinds, and timings of background block writes",
      "The unit tests replay fixed scripts with one block size; bugs live in combinations such as reading back over a block whose write is still pending or truncating at a block boundary.",
      ["tpie/compressed/stream_base.cpp", "tpie/compressed/stream.h", "tpie/file_stream.h", "tpie/uncompressed_stream.h", "tpie/stream_crtp.h", "tpie/stream_crtp.inl", "tpie/file_stream_base.h", "tpie/file_stream_base.cpp"],
      [("seek state machine and cached read/write counts", "tpie/compressed/stream_base.cpp"), ("block buffer read-modify-write", "tpie/stream_crtp.inl")],
      [("cursor", "index of the next item", "tpie/compressed/stream.h"), ("block buffer", "the loaded block and whether it must be written", "tpie/compressed/stream_base.cpp")]),
    P("C02", "Closing and reopening a stream preserves items, size and user data",
      "After a stream or multi-cursor file is closed without error, reopening its path in any compatible mode yields exactly the items, the size and the user data it had when closed, any number of times. Read-only opening never changes the file, write-only opening never reads items, and opening a path that does not exist creates an empty stream.",
      [H, CF], "all sequences of open, modify and close sessions over access modes, cache hints, compression settings, item sizes, block sizes and user data sizes",
      "Tests reopen a few files once or twice with the default block size and do not combine modes, partial last blocks, user data and compression choice.",
      ["tpie/file_accessor/stream_accessor_base.inl", "tpie/file_accessor/stream_accessor_base.h", "tpie/file_accessor/stream_accessor.h", "tpie/file_accessor/byte_stream_accessor.h", "tpie/compressed/stream_base.cpp", "tpie/file_base_crtp.inl", "tpie/stream_header.h"],
      [("header rewritten with size and last block offset on close", "tpie/file_accessor/stream_accessor_base.inl")],
      [("stream header", "magic, sizes, flags, item count, last block offset", "tpie/stream_header.h")]),
    P("C03", "A saved stream position leads back to the same item",
      "A position taken from a stream leads back, after any later operations that keep its offset within the stream, to the same offset with the same items before and after it, in both reading directions. Truncating to a position keeps exactly the items before it, and positions stay valid across closing and reopening.",
      [H, CF, S], "all histories mixing positions with reads in both directions, appends, truncations and reopenings, over block sizes and compressed block sizes",
      "Compressed blocks have data-dependent file offsets; tests only use positions at hand-picked places.",
      ["tpie/compressed/stream_base.cpp", "tpie/compressed/stream_position.h", "tpie/compressed/thread.cpp", "tpie/compressed/request.h"],
      [("position pairs item offset with block file offset", "tpie/compressed/stream_position.h"), ("waiting for the block offset reported by the writer thread", "tpie/compressed/request.h")]),
    P("C04", "Damaged, foreign or unfinished files are refused, never misread",
      "Opening a file that is not a stream, was written with a different item type size, block size or format version, or was not closed cleanly ends in an exception in bounded time, and so does reading a block that the file does not hold in full or whose stored bytes are inconsistent. No input file makes the library crash, hang, touch memory it does not own or hand out more items than the file holds, and a failed open leaks no file handle.",
      [I, CR, F], "all byte strings as stream files: truncations and bit damage of valid files at every place, files of other kinds, files left by a process killed at any point",
      "Tests try a couple of wrong headers; no test damages or cuts a file or kills a writer.",
      ["tpie/file_accessor/stream_accessor_base.inl", "tpie/file_accessor/posix.inl", "tpie/file_accessor/byte_stream_accessor.h", "tpie/compressed/thread.cpp", "tpie/serialization_stream.cpp", "tpie/stream_header.h", "tpie/compressed/scheme_snappy.cpp"],
      [("header validation", "tpie/file_accessor/stream_accessor_base.inl"), ("block header and trailer comparison", "tpie/compressed/thread.cpp")]),
    P("C05", "I/O interruptions and errors are never silent",
      "When the operating system transfers fewer bytes than asked, interrupts a call, or fails it, a stream operation either completes with exactly its normal result or reports an error; no item is silently lost, duplicated or altered. A file that was reported as successfully closed holds everything written to it.",
      [F, H], "all placements of short transfers, interruptions and errors among the system calls of a stream history",
      "The tests never inject a system call fault.",
      ["tpie/file_accessor/posix.inl", "tpie/file_accessor/posix.h", "tpie/file_accessor/stream_accessor.h", "tpie/file_accessor/byte_stream_accessor.h", "tpie/file_stream_base.cpp", "tpie/serialization_stream.cpp"],
      [("transfer loops and error translation", "tpie/file_accessor/posix.inl")]),
    P("C06", "Concurrently used streams do not interfere",
      "Streams used from different threads at the same time, sharing the background compression thread and the shared block buffers, each behave exactly as if used alone, without data races, deadlocks or lost wake-ups. This includes opening, closing, destroying and changing the preferred compression while other streams have requests pending.",
      [S, H], "all interleavings of several threads each driving own streams, over pool exhaustion and background writer timing",
      "No unit test uses streams from more than one thread, and a schedule cannot be sampled by a deterministic test.",
      ["tpie/compressed/thread.cpp", "tpie/compressed/thread.h", "tpie/compressed/buffer.h", "tpie/compressed/buffer.cpp", "tpie/compressed/request.h", "tpie/compressed/request.cpp", "tpie/compressed/stream_base.cpp"],
      [("one mutex and two condition variables around the request queue", "tpie/compressed/thread.cpp"), ("own and shared buffers with reference counts", "tpie/compressed/buffer.h")],
      [("request queue", "pending block reads and writes of all streams", "tpie/compressed/thread.cpp")]),
    P("C07", "Temporary files are unique, owned, accounted and removed",
      "Every temporary name handed out is unused and lies under the configured directory, a temporary file exists exactly as long as something owns it unless marked persistent, and nothing remains in the temporary directory after the library is shut down. Trying out a directory leaves it as it was and tells whether files can be made in it, also when the disk fails. The reported temporary-space usage equals the bytes held by live temporary stream files at rest and returns to its start value when they are gone.",
      [H, CF, S], "all histories of creating, sharing, persisting, filling, truncating and dropping temporary files and anonymous streams, from one or several threads",
      "Tests check one name or one file; leaks and drifting totals only show over histories.",
      ["tpie/tempname.h", "tpie/tempname.cpp", "tpie/stats.cpp", "tpie/file_base_crtp.inl", "tpie/compressed/stream_base.cpp"],
      [("reference-counted temporary file removed by the last owner", "tpie/tempname.cpp"), ("recorded size updated on block writes and truncations", "tpie/compressed/request.h")]),
    P("C08", "Memory and open-file accounting is exact and enforced",
      "At every quiescent point the used memory equals the sum of the bytes currently allocated through the library and the used file count equals the number of files it holds open, whatever mix of threads, failed allocations, failed opens and exceptions came before; both return to their start values when everything is released. When enforcement is set to throw, an allocation or open that would exceed the limit is refused and leaves the accounts unchanged; under every other enforcement it is granted. The amount reported as available is what the limit leaves, and asking for the largest block that can be had answers the largest multiple of the given unit that can be obtained and changes neither the accounts nor what is allocated.",
      [H, S, F, CF], "all histories of allocations, container operations, stream opens and failures, over enforcement levels, limits and threads",
      "Tests compare a few allocations from one thread at the default limits; leaks on failure paths and lost concurrent updates escape.",
      ["tpie/memory.h", "tpie/memory.cpp", "tpie/resource_manager.h", "tpie/resource_manager.cpp", "tpie/file_manager.h", "tpie/file_manager.cpp", "tpie/file_accessor/posix.inl", "tpie/tpie.cpp"],
      [("atomic usage counter with limit check", "tpie/resource_manager.cpp"), ("tracking allocator and tpie_new/tpie_delete", "tpie/memory.h")]),
    P("C09", "Several cursors on one file see one consistent file",
      "When several cursors are attached to one file, every cursor reads what was last written to each item through any of them, sizes agree at all times, and truncation through the file is seen by all. Each cursor keeps its own offset.",
      [H, CF], "all interleaved histories over a file and its cursors, item sizes, block sizes and block sharing patterns",
      "Tests use one or two cursors in fixed order; block sharing and reference counts only matter in interleavings.",
      ["tpie/file.h", "tpie/file_base.h", "tpie/file_base.cpp", "tpie/file_base_crtp.h", "tpie/file_base_crtp.inl", "tpie/stream_crtp.h", "tpie/stream_crtp.inl", "tpie/stream_old.h"],
      [("shared in-memory blocks with use counts and dirty flags", "tpie/file_base.cpp")]),
    P("C10", "The external stack is last in, first out, across reopening",
      "For every sequence of pushes, pops, tops, emptiness and size queries, an external stack returns what an in-memory stack would, for stacks of any size relative to the buffer. A named stack keeps its contents across closing and reopening, also when it was written by the older stack format of the library.",
      [H, CF], "all push/pop histories around block and buffer boundaries, item sizes, compression, persistence sessions",
      "Tests push and pop monotonic runs; oscillation around buffer boundaries and reopenings are not covered.",
      ["tpie/stack.h", "tpie/compressed/stream_base.cpp"],
      [("stack kept as an append/read-back stream", "tpie/stack.h")]),
    P("C11", "The external queue is first in, first out",
      "For every interleaving of pushes, pops and front queries, an external queue returns the items in push order with the right size, however the queue length moves relative to its buffers. Popping never returns an item twice or skips one when a buffer moves between head, middle file and tail.",
      [H, CF], "all push/pop histories, item sizes, block sizes",
      "Tests push everything and then pop, so the transitions between the three parts are taken once.",
      ["tpie/queue.h", "tpie/internal_queue.h"],
      [("two internal buffers around a file that is swapped when drained", "tpie/queue.h")]),
    P("C12", "The external priority queue always pops a minimum",
      "For every sequence of pushes and pops, with duplicates and adversarial orders, top and pop return an element that compares lowest among those in the queue, and the multiset popped plus the multiset held equals the multiset pushed. This holds at every memory limit and limit on open files at which the queue can be constructed, across overflow of its heaps to disk.",
      [H, I, CF], "all push/pop histories, key distributions, comparators, memory limits and block sizes",
      "Tests run a few patterns at one memory size; the external merge levels are reached only with tuned limits.",
      ["tpie/priority_queue.h", "tpie/priority_queue.inl", "tpie/pq_overflow_heap.h", "tpie/pq_overflow_heap.inl", "tpie/pq_merge_heap.h", "tpie/pq_merge_heap.inl"],
      [("sorted slots in group files, merged on overflow", "tpie/priority_queue.inl"), ("insertion heap and deletion buffers", "tpie/pq_overflow_heap.inl")]),
    P("C13", "In-memory containers match their mathematical models",
      "Arrays, bit and packed arrays, array views, internal vectors, stacks, queues, priority queues and optional values return for every valid operation sequence what an ordinary sequence, queue or multiset would, never touch memory outside their elements, and construct and destroy each element exactly once. Copies are deep, swaps and moves exchange contents, and a resize that fails leaves the container usable.",
      [H, I, CF], "all valid operation histories, element types and sizes, bit widths, capacities",
      "Tests check chosen sizes and values with trivially destructible types; word boundaries and element lifetimes are not quantified over.",
      ["tpie/array.h", "tpie/bit_array.h", "tpie/packed_array.h", "tpie/array_view.h", "tpie/array_view_base.h", "tpie/internal_vector.h", "tpie/internal_stack.h", "tpie/internal_stack_vector_base.h", "tpie/internal_queue.h", "tpie/internal_priority_queue.h", "tpie/maybe.h"],
      [("storage and word packing", "tpie/packed_array.h"), ("element lifetime management", "tpie/array.h"), ("binary heap", "tpie/internal_priority_queue.h")]),
    P("C14", "Disjoint sets maintain the exact partition",
      "For every sequence of make-set, link, union, find and membership operations, two elements have the same representative exactly when the history of unions connects them, the representative is a member of the set, and the number of sets is correct. Unrelated elements are never affected.",
      [H], "all operation histories and union orders",
      "Tests union a regular pattern once.",
      ["tpie/disjoint_sets.h"], [("parent links with ranks and path compression", "tpie/disjoint_sets.h")]),
    P("C15", "The small sorted sets and maps match the standard ones",
      "For every operation sequence, the small-size set, multiset, map and multimap contain, find, count, order and iterate exactly what the standard ordered containers would, for any comparator. Sorting and searching helpers on small ranges agree with the standard algorithms.",
      [H, I], "all operation histories on sets and maps of any small size, keys with duplicates, comparators",
      "Tests insert permutations of small ranges only and never mix erasures with bounds and duplicate keys.",
      ["tpie/tiny.h"], [("binary search over sorted arrays", "tpie/tiny.h")]),
    P("C16", "B-trees match an ordered map with correct augmentation",
      "For every sequence of insertions, removals and searches, an in-memory or on-disk B-tree contains exactly the elements of an ordered multimap, iterates them in order in both directions, answers lookups and bounds like it, keeps all leaves at the same depth with legal fill, and every node's augmentation equals that recomputed from its children. Trees made by the bottom-up builder, static or serialized and reopened from disk, answer the same.",
      [H, I, CF], "all update histories, key distributions with duplicates, tree fan-outs, storage kinds, persistence sessions",
      "Tests insert and remove random keys at one fan-out; structural cases such as underflow borrowing at every level and augmentation refresh are sampled rarely.",
      ["tpie/btree/btree.h", "tpie/btree/btree_builder.h", "tpie/btree/node.h", "tpie/btree/base.h", "tpie/btree/internal_store.h", "tpie/btree/external_store.h", "tpie/btree/serialized_store.h"],
      [("split, fuse and share of nodes", "tpie/btree/btree.h"), ("augmentation recomputed along the path to the root", "tpie/btree/btree.h")]),
    P("C17", "Block storage never loses or mixes up blocks",
      "For every sequence of block allocations, writes, reads, frees and reopenings, a block collection returns for each live handle exactly the bytes last written to it, hands out regions that do not overlap any live block, and reuses freed space. The block cache is transparent: reads and writes through it agree with the file at all times once closed, for any capacity and access order.",
      [H, CF], "all histories of block operations over block sizes, cache capacities and reopenings",
      "Tests perform one pass of erase and overwrite with one size.",
      ["tpie/blocks/block_collection.cpp", "tpie/blocks/block_collection.h", "tpie/blocks/block_collection_cache.cpp", "tpie/blocks/block_collection_cache.h", "tpie/blocks/freespace_collection.h", "tpie/blocks/block.h"],
      [("free-space bookkeeping by offset and size", "tpie/blocks/freespace_collection.h"), ("LRU eviction with dirty write-back", "tpie/blocks/block_collection_cache.cpp")]),
    P("C18", "Serialization followed by deserialization is the identity",
      "Any sequence of serializable values written to a serialization stream is read back equal, forwards or in reverse order as written, with exact end detection, whatever the sizes of the values relative to the stream's blocks; the same holds for serialization to and from byte streams. Reading past the end or reading a different type than written never reads foreign memory.",
      [I, H, CF], "all value sequences, sizes around block boundaries, directions, close and reopen",
      "Tests use a few fixed values and sizes.",
      ["tpie/serialization2.h", "tpie/serialization_stream.h", "tpie/serialization_stream.cpp"],
      [("block-wise buffering with forward and reverse modes", "tpie/serialization_stream.cpp")]),
    P("C19", "External sorting outputs a sorted permutation of its input",
      "Sorting a stream with any strict weak order yields exactly the input items in non-decreasing order, in place or into another stream, for every input and at every memory limit and file limit at which the sort accepts to run, wherever the input was positioned before; the output stands at its beginning afterwards. The input stream is left unchanged when it is not the output.",
      [I, CF], "all inputs, item sizes, memory limits, block sizes and comparators",
      "Tests sort some distributions with memory tuned for one or two merge levels.",
      ["tpie/sort.h", "tpie/sort_manager.h", "tpie/internal_sort.h", "tpie/mergeheap.h", "tpie/merge_sorted_runs.h", "tpie/sort_deprecated.h"],
      [("run formation and multi-way merge", "tpie/sort_manager.h"), ("merge heap", "tpie/mergeheap.h")]),
    P("C20", "The pipelined merge sorter outputs a sorted permutation",
      "For every item sequence, run length, fan-out and memory assignment of its three phases, the merge sorter emits exactly its input multiset in sorted order and then ends, including when it is evacuated to disk between phases, and the progress it reports never decreases nor exceeds what it announced. Its memory use and its open files stay within the amounts assigned to each phase.",
      [I, CF], "all inputs, item sizes, run lengths, fan-outs, memory assignments, evacuation points",
      "Tests use a handful of sizes and parameters and never evacuate at arbitrary points.",
      ["tpie/pipelining/merge_sorter.h", "tpie/pipelining/merge_sorter.cpp", "tpie/pipelining/merger.h", "tpie/pipelining/sort_parameters.h", "tpie/pipelining/sort.h"],
      [("run formation, merge planning and final merge", "tpie/pipelining/merge_sorter.h")]),
    P("C21", "The serialization sorter outputs a sorted permutation",
      "For any sequence of variable-size serializable items that individually fit the assigned memory, the serialization sorter yields the same multiset in sorted order and then ends, for every memory assignment and minimum item size hint, keeps its accounted memory and the items it holds within the memory and its open files within the files assigned to each phase, and removes its temporary files and their directory, also when the disk fails. Items too large for the assigned memory are reported, not dropped.",
      [I, CF], "all item sequences with arbitrary size distributions, memory assignments and fan-outs",
      "Tests use a few distributions; the boundary between internal and external and the multi-level merge are reached rarely.",
      ["tpie/serialization_sorter.h", "tpie/pipelining/serialization_sort.h"],
      [("run formation by serialized size and k-way merge of run files", "tpie/serialization_sorter.h")]),
    P("C22", "The parallel internal sort is correct and race-free",
      "For every array, comparator and number of worker threads, the parallel sort terminates with the array holding the same multiset in sorted order, without data races, and touches nothing outside the range. A progress indicator, when given, is completed.",
      [I, S, CF], "all arrays including adversarial and equal-key ones, sizes around the sequential cut-off, all schedules of the worker threads",
      "Tests sort a few large random arrays; schedules and adversarial inputs are not controlled.",
      ["tpie/parallel_sort.h", "tpie/job.h", "tpie/job.cpp"],
      [("partition jobs with a working counter and condition variable", "tpie/parallel_sort.h")]),
    P("C23", "Pipelines compute the composition of their stages",
      "Every pipeline built from the standard stages outputs, for every input and every memory assignment, exactly the composition of the stages' functions on the item sequence; push and pull variants, buffered, reversed, sorted, joined, forked, merged and virtual variants of the same computation agree. Every item is delivered exactly once, in the documented order.",
      [PR, I, CF], "all well-formed compositions of the stages, input sequences, block sizes and memory limits",
      "Tests build fixed pipelines with fixed inputs; compositions are unbounded.",
      ["tpie/pipelining/pipe_base.h", "tpie/pipelining/helpers.h", "tpie/pipelining/reverse.h", "tpie/pipelining/buffer.h", "tpie/pipelining/internal_buffer.h", "tpie/pipelining/sort.h", "tpie/pipelining/virtual.h", "tpie/pipelining/join.h", "tpie/pipelining/split.h", "tpie/pipelining/merge.h", "tpie/pipelining/ordered_merge.h", "tpie/pipelining/uniq.h", "tpie/pipelining/map.h", "tpie/pipelining/filter.h", "tpie/pipelining/file_stream.h", "tpie/pipelining/chunker.h", "tpie/pipelining/numeric.h", "tpie/pipelining/std_glue.h", "tpie/pipelining/subpipeline.h", "tpie/pipelining/serialization.h"],
      [("factories instantiate stages back to front", "tpie/pipelining/pair_factory.h"), ("virtual chunks bridge stages at run time", "tpie/pipelining/virtual.h")]),
    P("C24", "Parallel pipeline stages neither lose, duplicate nor misorder items",
      "A parallel section yields exactly the outputs its inner stages produce for every input item, each exactly once, in input order when order is to be maintained, for every number of workers and buffer size, without data races or deadlock. An exception inside a worker ends the pipeline with that exception.",
      [S, I, CF], "all schedules of the worker threads, inputs, per-item output counts, buffer sizes, worker counts",
      "Tests run a few fixed pipelines under whatever schedule occurs.",
      ["tpie/pipelining/parallel/base.h", "tpie/pipelining/parallel/pipes.h", "tpie/pipelining/parallel/factory.h", "tpie/pipelining/parallel/worker_state.h", "tpie/pipelining/parallel/options.h", "tpie/pipelining/parallel/aligned_array.h", "tpie/pipelining/parallel.h"],
      [("worker state machine under one mutex with per-worker conditions", "tpie/pipelining/parallel/base.h")],
      [("worker states", "idle, initializing, processing, partial output, outputting", "tpie/pipelining/parallel/worker_state.h")]),
    P("C25", "The pipelining runtime runs every stage in dependency order, once",
      "For every acyclic arrangement of stages and dependencies, each stage is set up, prepared, propagated, begun and ended exactly once and in an order that respects item flow and declared dependencies, passive stages complete their begin before their consumers ask for items, forwarded values reach every later stage, and ill-formed arrangements are rejected with an exception before anything runs. When a stage throws, the exception reaches the caller and all memory, files and temporary files are released.",
      [PR, F], "all stage graphs and all points at which a stage throws",
      "Tests cover a few graphs; the order is a property of all graphs and failures.",
      ["tpie/pipelining/runtime.cpp", "tpie/pipelining/runtime.h", "tpie/pipelining/node.cpp", "tpie/pipelining/node.h", "tpie/pipelining/tokens.cpp", "tpie/pipelining/tokens.h", "tpie/pipelining/pipeline.cpp", "tpie/pipelining/forwarder.h"],
      [("phase graph and topological orders", "tpie/pipelining/runtime.cpp"), ("node map and relation checks", "tpie/pipelining/tokens.cpp")]),
    P("C26", "Every enqueued job runs exactly once and joins see its effects",
      "Every job enqueued in the job system runs exactly once, a job counts as done only when it and all its descendants have run, joining returns only then and makes their effects visible, and completion callbacks run exactly once, for every nesting, worker count (at least one) and schedule, with children enqueued by their parent or while it runs, and whichever and however many threads join. No worker stays idle while jobs are queued. Changing the worker count never drops a queued job, and neither it nor shutting down an idle pool deadlocks.",
      [S, H], "all schedules and all trees of jobs enqueued from any thread, worker counts",
      "Tests enqueue a few jobs; schedules are not controlled.",
      ["tpie/job.h", "tpie/job.cpp"], [("job queue with worker threads, kill flags and child counters", "tpie/job.cpp")],
      [("children count", "number of unfinished descendants", "tpie/job.h")]),
    P("C27", "Progress reporting is monotone and complete",
      "For every tree of sub-indicators with any weights and step counts, the progress forwarded to the root never decreases, never exceeds the range, and reaches exactly the end when all parts are done, whatever steps the parts report; a part's contribution is in proportion to the steps it has taken. Reporting zero or more steps than announced never overflows or divides by zero.",
      [H, CF], "all weightings, step counts and interleavings of sub-indicator reports",
      "No test checks progress arithmetic.",
      ["tpie/progress_indicator_base.h", "tpie/progress_indicator_base.cpp", "tpie/progress_indicator_subindicator.h", "tpie/progress_indicator_subindicator.cpp", "tpie/fractional_progress.h", "tpie/fractional_progress.cpp", "tpie/pipelining/runtime.cpp"],
      [("scaling of steps to the parent's range", "tpie/progress_indicator_subindicator.cpp")]),
    P("C28", "Compression schemes round-trip every block and reject bad ones",
      "For every compression scheme and byte block, decompressing what was compressed gives back the block, the compressed length stays within the announced bound, and the reported uncompressed length is exact. Malformed compressed data is reported as an error, never written beyond the output it announced.",
      [I, CF], "all byte blocks of all sizes including zero, and all malformed inputs",
      "Tests compress one text.",
      ["tpie/compressed/scheme.h", "tpie/compressed/scheme_none.cpp", "tpie/compressed/scheme_snappy.cpp"],
      [("scheme interface with length queries", "tpie/compressed/scheme.h")]),
    P("C29", "Phase memory is divided within limits and by priority",
      "For every set of stages with minimum and maximum memory demands and priorities, each stage is assigned at least its minimum and at most its maximum, the total stays within the available memory whenever the minima fit, and no memory within the maxima is left unused beyond rounding. Among stages below their maximum the assignments are proportional to their priorities, and the same holds for files.",
      [I, CF], "all demand and priority vectors and memory limits, including zero and very large values",
      "Tests check a few two- or three-stage pipelines.",
      ["tpie/pipelining/runtime.cpp", "tpie/pipelining/node.h", "tpie/pipelining/node.cpp"],
      [("search for the common scaling factor", "tpie/pipelining/runtime.cpp")]),
    P("C30", "A failing disk is reported by every external computation, leaving nothing",
      "When the operating system fails a read, write, open, truncate or close, or transfers less than asked, while a sort, serialization sort, priority queue, stack, queue, block cache, external B-tree or pipeline runs, the computation either yields exactly its normal result or reports the error to its caller as an exception; it never hangs, terminates the process or yields a wrong result. After the error is reported and its objects are destroyed, all memory, open files, temporary files and temporary space are given back, and the same computation succeeds when the disk works again. A block cache whose operation failed keeps the contents it had and can be used on.",
      [F, I], "all placements of one or persistent failures among the system calls of whole computations, over input sizes, memory limits and block sizes",
      "The tests never make a system call fail, and nearly every placement hits another line.",
      ["tpie/pipelining/merge_sorter.h", "tpie/pipelining/merge_sorter.cpp", "tpie/pipelining/merger.h", "tpie/serialization_sorter.h", "tpie/priority_queue.inl", "tpie/stack.h", "tpie/queue.h", "tpie/blocks/block_collection_cache.cpp", "tpie/blocks/block_collection.cpp", "tpie/blocks/freespace_collection.h", "tpie/btree/external_store_base.cpp", "tpie/serialization_stream.cpp", "tpie/compressed/stream_base.cpp", "tpie/pipelining/runtime.cpp"],
      [("destructors that close files", "tpie/compressed/stream_base.cpp"), ("removal of runs", "tpie/serialization_sorter.h"), ("eviction of a block", "tpie/blocks/block_collection_cache.cpp")]),
    P("C31", "Statistics count every byte moved",
      "The numbers of bytes read from and written to disk grow by exactly what the process transferred through the library, for every kind of stream and structure, whatever transfers are short, interrupted or fail, and from any number of threads. A user counter is the sum of its increments, indices beyond the last are ignored, and a timer adds the time that passed.",
      [H, S, F], "all workloads over streams, sorters and containers, counter indices and schedules",
      "The test compares two totals up to a tolerance.",
      ["tpie/stats.h", "tpie/stats.cpp", "tpie/file_accessor/posix.inl"], [("counting of each transfer", "tpie/file_accessor/posix.inl"), ("atomic counters", "tpie/stats.cpp")]),
    P("C32", "Log messages reach every target whole, once and in order",
      "Everything logged while a target is attached and logging is enabled reaches that target exactly once, unaltered and in order, for any length, level, piecewise writing and grouping, and nothing else does; a message that one thread writes and flushes is not mixed with those of other threads, and targets are called by one thread at a time. Exceeding a limit that is only warned about is complained about, in whole messages at the proper level, from any number of threads, and never without a limit that is exceeded.",
      [H, S], "all histories of messages, groups and targets from any number of threads",
      "Tests only log on the side.",
      ["tpie/logstream.h", "tpie/logstream.cpp", "tpie/tpie_log.h", "tpie/tpie_log.cpp", "tpie/resource_manager.cpp"], [("buffering and delivery", "tpie/logstream.cpp"), ("streams of each level", "tpie/tpie_log.cpp"), ("complaints about limits", "tpie/resource_manager.cpp")]),
    P("C33", "Predicted execution times follow what was recorded",
      "The time recorded for an execution is the time that passed outside pauses. For every history of recorded executions, a task is predicted to take what was recorded for that size (averaged when recorded again), a value between those of the neighbouring recorded sizes when it lies between them, and a proportional one outside them; what was never recorded has no prediction. Predictions are the same after a restart; a database that cannot be written leaves the one before in place and no other file; one that is cut short or not a database is ignored, and no damage reaches further than the predictions.",
      [H, F], "all histories of recorded and predicted executions over sizes and times, restarts, failing writes and damage to the file",
      "The predictor is an option that is off when the tests are built; none of them runs it.",
      ["tpie/execution_time_predictor.h", "tpie/execution_time_predictor.cpp"], [("interpolation between recorded points", "tpie/execution_time_predictor.cpp"), ("saving and loading of the database", "tpie/execution_time_predictor.cpp")]),
]
