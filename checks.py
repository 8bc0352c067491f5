IO = ["open", "open64", "close", "read", "write", "ftruncate", "ftruncate64"]
CHECKS = {
    "C01": dict(
        technique="model-based history monitor under ASan/UBSan (TSan in thorough) with injected I/O delays",
        note="Held on the random histories executed (counts in the evidence); covers only timings and sizes produced. Trusts the sequence model in harness/stream_model.h and the sanitizers.",
        harnesses={"c01": dict(src=["c01_stream.cpp"], wrap=IO)},
        quick=[("asan", "c01", 20000)],
        thorough=[("asan", "c01", 200000), ("dbg", "c01", 8000), ("tsan", "c01", 3000)],
        require=["items_compared", "block_crossings", "kind_compressed", "kind_plain", "kind_uncompressed_stream", "end_of_stream_seen"],
        rule="one case = one random history of stream operations on one stream (kind, item size, block size, scheme, I/O timing drawn per case) executed on the real stream and on a vector-with-cursor model; non-trivial when it appended and crossed block boundaries; distinct by the hash of its parameters and operations",
    ),
    "C02": dict(
        technique="model-based session monitor (file bytes, items, user data) under ASan/UBSan with injected delays and short transfers",
        note="Held on the random session sequences executed (counts in the evidence).",
        harnesses={"c02": dict(src=["c02_reopen.cpp"], wrap=IO)},
        quick=[("asan", "c02", 8000)],
        thorough=[("asan", "c02", 60000), ("dbg", "c02", 10000), ("tsan", "c02", 2000)],
        require=["items_compared", "sessions_rw", "sessions_ro", "sessions_wo", "refused_opens", "user_data_compared", "user_data_refused", "kind_compressed", "kind_plain"],
        rule="one case = one random sequence of open/modify/close sessions on one path through file_stream, uncompressed_stream and file; non-trivial when the final file holds more than two items; distinct by the hash of parameters and operations",
    ),
    "C03": dict(
        technique="model-based history monitor with position bookkeeping under ASan/UBSan (TSan in thorough)",
        note="Held on the random histories executed; a position is used only while its offset never left the stream since it was taken.",
        harnesses={"c03": dict(src=["c03_positions.cpp"], wrap=IO)},
        quick=[("asan", "c03", 10000)],
        thorough=[("asan", "c03", 60000), ("dbg", "c03", 10000), ("tsan", "c03", 3000)],
        require=["items_compared", "block_crossings", "positions_restored", "position_truncates"],
        rule="one case = one random history that saves, restores and truncates to positions on one stream; distinct by the hash of parameters and operations",
    ),
    "C04": dict(
        technique="fault-injection monitor: file damage and crash-point snapshots at system-call boundaries, under ASan/UBSan",
        note="Held on the damages and crash points generated; crash points are between system calls (process kill, not power loss).",
        harnesses={"c04": dict(src=["c04_damage.cpp"], wrap=IO, timeout=40)},
        quick=[("asan", "c04", 12000)],
        thorough=[("asan", "c04", 60000)],
        require=["refused", "accepted", "refused_in_reading", "crash_points_refused", "crash_points_clean", "damage_cut", "damage_header_field", "damage_block_frame", "damage_body", "damage_foreign", "wrong_type_refused", "nonfiles_refused", "items_read_from_damaged"],
        rule="one case = one valid file of a random kind, then six random damages of it opened and read (or snapshots of the file at every system call of a writing session opened); non-trivial when the bytes were changed; distinct by the hash of parameters, damages and outcomes",
    ),
    "C05": dict(
        technique="system-call fault injection (short transfers, EINTR, errors at the n-th call) with a content monitor, under ASan/UBSan",
        note="Held on the fault placements generated (one hard fault or a rate of benign ones per history).",
        harnesses={"c05": dict(src=["c05_faults.cpp"], wrap=IO, timeout=40)},
        quick=[("asan", "c05", 12000)],
        thorough=[("asan", "c05", 80000), ("dbg", "c05", 10000), ("tsan", "c05", 3000)],
        require=["errors_reported", "cases_with_hard_fault", "cases_with_benign_faults", "verified_clean", "verified_after_error", "unclean_refused", "file_cases", "serialization_cases", "opens_failed", "items_compared"],
        rule="one case = one random history on one stream, file with cursors or serialization stream with injected system call faults; non-trivial when at least one fault was delivered; distinct by the hash of parameters, fault placement and operations",
    ),
    "C30": dict(
        technique="system-call fault injection into whole computations with a result, accounting and leftover monitor, under ASan/UBSan",
        note="Held on the fault placements generated (one hard fault or a rate of benign ones per computation).",
        harnesses={"c30": dict(src=["c30_failures.cpp", "c23_simple.cpp", "c23_buffers.cpp", "c23_ends.cpp"], wrap=IO, timeout=60)},
        quick=[("asan", "c30", 3000)],
        thorough=[("asan", "c30", 60000), ("dbg", "c30", 8000), ("tsan", "c30", 2000)],
        require=["errors_reported", "hard_faults", "benign_faults", "repeated_without_fault", "external", "errors_sort", "errors_merge_sorter", "errors_serialization_sorter", "errors_pq", "errors_stack", "errors_queue", "errors_blocks", "errors_btree", "errors_pipeline", "continued_after_error"],
        rule="one case = one computation with injected system call faults and the same again without; non-trivial when at least one fault was delivered; distinct by the hash of parameters, fault placement and inputs",
    ),
    "C06": dict(
        technique="race detector (ThreadSanitizer) and per-thread model monitor over concurrent stream histories with injected I/O delays",
        note="Held on the schedules that occurred (counts in the evidence); ThreadSanitizer sees races of executed schedules only.",
        harnesses={"c06": dict(src=["c06_concurrent.cpp"], wrap=IO, timeout=60)},
        quick=[("tsan", "c06", 2000), ("asan", "c06", 3000)],
        thorough=[("tsan", "c06", 8000), ("asan", "c06", 15000), ("dbg", "c06", 3000)],
        require=["spurious_wakeups", "items_compared", "threads", "sessions", "streams_held", "scheme_changes", "file_sessions", "rounds_met"],
        rule="one case = 2 to 7 threads started together, each running a random history on streams of its own (one may change the preferred compression); distinct by the hash of parameters and all threads' operations",
    ),
    "C07": dict(
        technique="ownership and conservation monitor over temporary file histories (existence, names, usage against file sizes), under ASan/UBSan and ThreadSanitizer",
        note="Held on the histories executed; usage may count files with or without their 4096-byte header.",
        harnesses={"c07": dict(src=["c07_tempfiles.cpp"], wrap=IO, timeout=60)},
        quick=[("asan", "c07", 4000), ("tsan", "c07", 800)],
        thorough=[("asan", "c07", 40000), ("dbg", "c07", 6000), ("tsan", "c07", 5000)],
        require=["objects_reopened", "plain_files", "directories_tried", "names_checked", "files_removed", "persistent_kept", "usage_checked", "reconfigured", "threaded_cases", "shutdowns_checked", "library_restarts", "streams_opened"],
        rule="one case = one random history of temporary file handles and temporary streams in one or several threads; distinct by the hash of parameters and operations",
    ),
    "C08": dict(
        technique="conservation monitor over allocation and open/close histories with injected allocation and system call failures, under ASan/UBSan and ThreadSanitizer",
        note="Held on the histories executed; allocation failures are injected in operator new of the calling thread.",
        harnesses={"c08": dict(src=["c08_accounts.cpp"], wrap=IO + ["_Znwm", "_Znam"], timeout=60)},
        quick=[("asan", "c08", 4000), ("tsan", "c08", 600)],
        thorough=[("asan", "c08", 60000), ("dbg", "c08", 8000), ("tsan", "c08", 5000)],
        require=["accounts_compared", "limit_refusals", "failed_allocations", "constructors_threw", "memory_thread_cases", "file_accounts_compared", "failed_opens", "file_limit_refusals", "file_thread_cases", "composites_checked", "composites_stopped", "composites_failed", "limits_not_enforced", "arrays_traded", "largest_blocks_found"],
        rule="one case = one random history of allocations, or of stream opens and closes, or one composite structure abandoned at a random point; distinct by the hash of parameters and operations",
    ),
    "C09": dict(
        technique="model-based history monitor over interleaved cursors (one sequence, one offset per cursor) under ASan/UBSan",
        note="Held on the random histories executed; reads and writes of one cursor interleave with those of up to five others on shared blocks.",
        harnesses={"c09": dict(src=["c09_cursors.cpp"], wrap=IO)},
        quick=[("asan", "c09", 40000)],
        thorough=[("asan", "c09", 300000), ("dbg", "c09", 10000)],
        require=["items_compared", "agreements_checked", "shared_block_cases", "truncations", "truncations_refused", "seeks", "end_of_stream_seen", "ami_cases", "file_cases", "read_as_stream", "overwrites", "appends"],
        rule="one case = one random history over one file and up to six cursors (or one legacy ami stream) against a vector; non-trivial when two cursors shared a block (or more than three items remain); distinct by the hash of parameters and operations",
    ),
    "C10": dict(
        technique="model-based history monitor with reopening sessions under ASan/UBSan, injected I/O delays and short transfers",
        note="Held on the random histories executed; stack sizes oscillate around multiples of the buffer in half of the cases.",
        harnesses={"c10": dict(src=["c10_stack.cpp"], wrap=IO)},
        quick=[("asan", "c10", 15000)],
        thorough=[("asan", "c10", 150000), ("dbg", "c10", 15000), ("tsan", "c10", 3000)],
        require=["pushed", "popped", "tops", "underflows", "boundary_visits", "sessions", "reopened_nonempty", "old_format", "files_read"],
        rule="one case = one stack (anonymous, named, in a temporary file or legacy ami) driven through one to five sessions against a vector; non-trivial when more than two items remain; distinct by the hash of parameters and operations",
    ),
    "C11": dict(
        technique="model-based history monitor under ASan/UBSan, injected I/O delays and short transfers",
        note="Held on the random histories executed; queue lengths are steered around multiples of the buffer.",
        harnesses={"c11": dict(src=["c11_queue.cpp"], wrap=IO)},
        quick=[("asan", "c11", 15000)],
        thorough=[("asan", "c11", 150000), ("dbg", "c11", 15000), ("tsan", "c11", 3000)],
        require=["pushed", "popped", "fronts", "boundary_visits", "shifts"],
        rule="one case = one queue (compressed, plain or legacy ami) driven by a random history against a deque; non-trivial when it had more than five operations; distinct by the hash of parameters and operations",
    ),
    "C12": dict(
        technique="model-based history monitor (multiset with element identities) at small memory limits under ASan/UBSan",
        note="Held on the random histories executed; a push refused because the queue is full (documented) must leave the queue intact.",
        harnesses={"c12": dict(src=["c12_pq.cpp"], wrap=IO, timeout=60)},
        quick=[("asan", "c12", 6000)],
        thorough=[("asan", "c12", 40000), ("dbg", "c12", 1000)],
        require=["file_limits", "pushed", "popped", "pop_equals", "underflows", "drained", "external_cases", "internal_cases", "refused_memory"],
        rule="one case = one random push/pop history on one queue (memory, block factor, key distribution and comparator drawn per case) against a multiset with identities; non-trivial when the queue overflowed to disk; distinct by the hash of parameters and operations",
    ),
    "C13": dict(
        technique="model-based history monitor with a lifetime registry of elements and injected allocation and constructor failures, under ASan/UBSan",
        note="Held on the random histories executed over nine element types and six bit widths.",
        harnesses={"c13": dict(src=["c13_containers.cpp"], wrap=["_Znwm", "_Znam"])},
        quick=[("asan", "c13", 120000)],
        thorough=[("asan", "c13", 1500000), ("dbg", "c13", 150000)],
        require=["elements_compared", "kind_array", "kind_array_allocator", "kind_packed", "kind_vector", "kind_stack", "kind_queue", "kind_pq", "kind_maybe", "kind_std_view", "failed_allocations", "failed_elements", "used_after_failure", "range_copies", "views", "self_assignments"],
        rule="one case = one random history over up to three containers of one type and their models; distinct by the hash of parameters and operations",
    ),
    "C14": dict(
        technique="model-based history monitor (naive partition) under ASan/UBSan",
        note="Held on the random histories executed over five value types.",
        harnesses={"c14": dict(src=["c14_disjoint.cpp"], wrap=["_Znwm", "_Znam"])},
        quick=[("asan", "c14", 60000)],
        thorough=[("asan", "c14", 600000), ("dbg", "c14", 60000)],
        require=["finds", "unions", "links", "partitions_compared", "pairs_compared", "clears", "resizes", "failed_allocations"],
        rule="one case = one random history of make-set, link, union, find, membership, clear and resize on one structure; distinct by the hash of parameters and operations",
    ),
    "C15": dict(
        technique="model-based history monitor (the standard ordered containers) under ASan/UBSan",
        note="Held on the random histories executed over ten instantiations and random comparators.",
        harnesses={"c15": dict(src=["c15_tiny.cpp"])},
        quick=[("asan", "c15", 200000)],
        thorough=[("asan", "c15", 1500000), ("dbg", "c15", 150000)],
        require=["elements_compared", "queries", "inserts", "erased", "range_erases", "comparisons", "map_accesses", "kind_set", "kind_multiset", "kind_map", "kind_multimap", "kind_sort", "copies_used"],
        rule="one case = one random history over two containers of one kind and their models (or one range sorted); distinct by the hash of parameters and operations",
    ),
    "C16": dict(
        technique="model-based history monitor with structural walk and recomputed augmentation under ASan/UBSan",
        note="Held on the random histories executed over fifteen configurations of key order, fan-out and storage; refused allocations are the known finding K1 of C08 and not injected here.",
        harnesses={"c16": dict(src=["c16_btree.cpp"])},
        quick=[("asan", "c16", 2400)],
        thorough=[("asan", "c16", 30000), ("dbg", "c16", 8000)],
        require=["old_format", "elements_compared", "augmentations_compared", "lookups", "found", "not_found", "iterated", "inserted", "erased", "erased_by_key", "emptied", "built", "moved", "reopened", "reopened_empty", "metadata_compared",
                 "kind_internal_2_4", "kind_internal_default", "kind_internal_unordered", "kind_external_2_4", "kind_external_bs600", "kind_external_unordered", "kind_internal_static", "kind_external_static", "kind_serialized", "kind_serialized_string", "kind_serialized_unordered"],
        rule="one case = one tree (built bottom-up or grown) driven through up to three sessions of updates, lookups and reopenings against a sorted vector, with a full structural walk at random moments; non-trivial when more than three elements remain; distinct by the hash of parameters and operations",
    ),
    "C17": dict(
        technique="model-based history monitor (map from handle to bytes) with reopening under ASan/UBSan",
        note="Held on the random histories executed; blocks in the cache are used as documented (read before write, not kept across other calls).",
        harnesses={"c17": dict(src=["c17_blocks.cpp"])},
        quick=[("asan", "c17", 12000)],
        thorough=[("asan", "c17", 150000), ("dbg", "c17", 40000)],
        require=["blocks_compared", "allocated", "reused", "freed", "written", "short_writes", "cache_freed", "cache_written", "cache_read", "pairs_in_use", "read_only_sessions", "sessions"],
        rule="one case = one file of blocks driven through one to five sessions (raw, cached or mixed, some read-only) against a map; non-trivial when more than one block is live at the end; distinct by the hash of parameters and operations",
    ),
    "C18": dict(
        technique="round-trip history monitor (recorded values and byte offsets) with injected read failures, short transfers and interruptions under ASan/UBSan",
        note="Held on the random value sequences executed over 28 types; lengths found by reading a wrong type are capped at 8 MiB by refusing the allocation.",
        harnesses={"c18": dict(src=["c18_serialization.cpp"], wrap=IO)},
        quick=[("asan", "c18", 1200)],
        thorough=[("asan", "c18", 15000), ("dbg", "c18", 3000)],
        require=["values_compared", "values_written", "byte_values_compared", "ends_detected", "near_boundary", "exact_boundary", "forward_files", "reverse_files", "wrong_type_end", "wrong_type_refused", "failed_reads", "direction_refused", "unclosed_refused"],
        rule="one case = either a sequence of values through a byte stream, or a history of writes and reads of up to three serialization streams with reused reader and writer objects; non-trivial when more than three values were written; distinct by the hash of types, sizes and operations",
    ),
    "C26": dict(
        technique="lifecycle monitor (run, completion and descendant counters) over random job trees under TSan and ASan/UBSan, with concurrent clients and resizing of the pool",
        note="Held on the schedules that occurred; joins are made from threads outside the pool, jobs enqueue their children from within, and the pool has at least one worker.",
        harnesses={"c26": dict(src=["c26_jobs.cpp"], timeout=60)},
        quick=[("tsan", "c26", 1500), ("asan", "c26", 3000)],
        thorough=[("tsan", "c26", 20000), ("asan", "c26", 40000), ("dbg", "c26", 8000)],
        require=["flat_runs", "outside_children", "tree_jobs", "trees", "run_inside_another", "polled", "worker_count_changes", "multi_client_cases", "joined_by_several", "meetings", "spurious_wakeups", "cases_workers_1", "cases_workers_8", "restarts"],
        rule="one case = one worker count with one to four clients enqueueing flat bursts and random trees of jobs, sometimes while another thread changes the number of workers; non-trivial when a tree had more than three jobs; distinct by the hash of operations and of the order in which jobs started",
    ),
    "C27": dict(
        technique="online monitor of the values every indicator of a random tree is told, under ASan/UBSan",
        note="Held on the random trees, shares, step counts and interleavings executed; the fraction database is exercised, the execution time predictor is off in this build.",
        harnesses={"c27": dict(src=["c27_progress.cpp"])},
        quick=[("asan", "c27", 40000)],
        thorough=[("asan", "c27", 400000), ("dbg", "c27", 40000)],
        require=["values_seen", "leaves", "leaves_of_no_steps", "groups", "fraction_groups", "moved", "steps", "proportions", "over_stepped", "under_stepped", "trees_completed", "drawn", "terminals"],
        rule="one case = one random tree of indicators driven to completion (or one terminal indicator drawn); distinct by the hash of parameters and operations",
    ),
    "C28": dict(
        technique="round trips and malformed blocks against an independent decoder, destinations guarded, under ASan/UBSan and TSan",
        note="Held on the blocks and damages executed. libsnappy itself is not instrumented: guards around each destination watch what it writes.",
        harnesses={"c28": dict(src=["c28_scheme.cpp"])},
        quick=[("asan", "c28", 6000)],
        thorough=[("asan", "c28", 100000), ("dbg", "c28", 10000), ("tsan", "c28", 5000)],
        require=["round_trips_snappy", "round_trips_none", "empty_blocks", "compressed_smaller", "compressed_larger", "several_fragments", "bad_headers", "malformed_rejected", "altered_still_valid", "threaded"],
        rule="one case = one block round-tripped under one scheme and its compressed form damaged up to twelve ways; distinct by the hash of sizes, schemes and damages",
    ),
    "C29": dict(
        technique="random phases of hand-made nodes run by the real runtime; an oracle judges every amount assigned from the limits alone, under ASan/UBSan",
        note="Held on the phases, limits, priorities and data structures executed. Limits with minimum above maximum are ill-formed and not generated.",
        harnesses={"c29": dict(src=["c29_division.cpp"], timeout=20)},
        quick=[("asan", "c29", 40000)],
        thorough=[("asan", "c29", 400000), ("dbg", "c29", 40000)],
        require=["phases_judged", "minima_do_not_fit", "someone_unsaturated", "all_saturated", "several_between_limits", "demand_follows_files", "datastructures_in_phase", "datastructures_judged"],
        rule="one case = one pipeline of up to four phases with random limits, priorities and shared data structures, run once; distinct by the hash of limits and shape",
    ),
    "C31": dict(
        technique="conservation monitor: every read and write the process makes is counted at the system-call boundary and compared with the library's statistics, under ASan/UBSan and ThreadSanitizer",
        note="Held on the workloads executed; compared when no transfer is under way.",
        harnesses={"c31": dict(src=["c31_stats.cpp"], wrap=IO, timeout=60)},
        quick=[("asan", "c31", 3000), ("tsan", "c31", 600)],
        thorough=[("asan", "c31", 30000), ("dbg", "c31", 4000), ("tsan", "c31", 4000)],
        require=["comparisons", "bytes_moved", "samples", "threaded", "short_transfers", "failed_work", "user_increments", "beyond_the_last", "timers"] + ["work_%d" % i for i in range(9)],
        rule="one case = a few computations that move data, or increments of the user counters, in one or several threads; distinct by the hash of parameters and operations",
    ),
    "C32": dict(
        technique="delivery monitor: recording targets compare what arrives with what was logged, message by message and thread by thread, under ASan/UBSan and ThreadSanitizer",
        note="Held on the messages, targets and schedules executed; a message is what one thread writes to one level up to a flush.",
        harnesses={"c32": dict(src=["c32_log.cpp"], timeout=60)},
        quick=[("asan", "c32", 4000), ("tsan", "c32", 1000)],
        thorough=[("asan", "c32", 60000), ("dbg", "c32", 8000), ("tsan", "c32", 10000)],
        require=["messages", "long_messages", "messages_disabled", "targets_added", "targets_removed", "groups", "threaded", "complaints", "limits_exceeded_threaded", "file_targets"],
        rule="one case = one random history of messages, groups and targets, in one or several threads; distinct by the hash of parameters and operations",
    ),
    "C33": dict(
        technique="model-based monitor of the prediction database under a virtual clock, with restarts, failing saves and damaged files, under ASan/UBSan",
        note="Held on the histories executed. The predictor is an option of the build that is off by default; the harness compiles it with the option on.",
        harnesses={"c33": dict(src=["c33_predict.cpp"], wrap=IO + ["_ZNSt6chrono3_V212steady_clock3nowEv"], timeout=60)},
        quick=[("asan", "c33", 6000)],
        thorough=[("asan", "c33", 100000), ("dbg", "c33", 5000)],
        require=["recorded", "predictions", "extrapolated", "interpolated", "pauses", "restarts", "failed_saves", "damaged", "no_home"],
        rule="one case = one random history of recorded executions and predictions, with restarts, failing saves and damaged files; distinct by the hash of parameters and operations",
    ),
    "C25": dict(
        technique="event log of random stage arrangements run by the real runtime, judged by an offline checker of order, multiplicity, forwards, evacuation, rejection and release, under ASan/UBSan",
        note="Held on the arrangements, throw points and forwards executed (at most 7 phases, 28 stages).",
        harnesses={"c25": dict(src=["c25_runtime.cpp"], timeout=20)},
        quick=[("asan", "c25", 7000)],
        thorough=[("asan", "c25", 300000), ("dbg", "c25", 30000)],
        require=["completed", "exceptions", "stopped_and_continued", "cyclic_item_flow", "cyclic_actors", "cyclic_phases", "shares_impossible", "unowned_tokens", "evacuations", "values_fetched", "forwards", "orders_checked", "moved_nodes", "shares_without_evacuation"],
        rule="one case = one arrangement of stages and relations, run (or rejected) once; distinct by the hash of its relations",
    ),
    "C22": dict(
        technique="sorts under TSan and ASan/UBSan with a comparator that watches every item it is shown; outputs compared with the input multiset, progress watched",
        note="Held on the arrays, orders, thresholds and worker counts executed; interleavings are those the scheduler and the injected yields produced. A worker count of zero is not generated.",
        harnesses={"c22": dict(src=["c22_psort.cpp"], timeout=30)},
        quick=[("asan", "c22", 4000), ("tsan", "c22", 1500)],
        thorough=[("asan", "c22", 40000), ("tsan", "c22", 12000), ("dbg", "c22", 5000)],
        require=["spurious_wakeups", "sorts", "split", "empty", "all_equal", "with_progress", "progress_seen", "default_threshold", "sorted_again", "worker_counts", "concurrent_sorts", "huge_items"],
        rule="one case = one array (or several at once) sorted in parallel; distinct by the hash of size, shape, order, threshold and workers",
    ),
    "C19": dict(
        technique="sorts with every interface at random memory and file limits under ASan/UBSan; the order watches every item it is shown, the output is compared with the input multiset, accounts and temporary directory with their state before",
        note="Held on the inputs, orders, limits and block sizes executed. A sort that refuses a limit with an exception is allowed; what an in-place sort leaves behind when it is refused half-way is not specified.",
        harnesses={"c19": dict(src=["c19_sort.cpp"], wrap=IO, timeout=60)},
        quick=[("asan", "c19", 5000)],
        thorough=[("asan", "c19", 40000), ("dbg", "c19", 4000)],
        require=["sorts", "sorted_under_limit", "hard_limits", "file_limits", "refused", "in_place", "two_streams", "old_interface", "managers", "managers_sorted", "larger_than_limit", "uncompressed_streams", "with_progress", "progress_seen", "output_not_empty", "input_not_at_start", "empty", "single", "items_checked"],
        rule="one case = one stream sorted once; distinct by the hash of size, shape, order, interface and limits",
    ),
    "C20": dict(
        technique="the merge sorter driven through its phases with random parameters and evacuation points under ASan/UBSan; the order watches every item it is shown, memory accounts are sampled at every push and pull, output compared with the input multiset",
        note="Held on the inputs, parameters, memory assignments and evacuation points executed. A fan-out of one and evacuation after the first item was pulled are not generated.",
        harnesses={"c20": dict(src=["c20_merge_sorter.cpp"], wrap=IO, timeout=60)},
        quick=[("asan", "c20", 5000)],
        thorough=[("asan", "c20", 60000), ("dbg", "c20", 6000)],
        require=["sorts", "several_levels", "exact_runs", "manual_external", "file_limits", "files_compared", "phases_held", "empty", "memory_compared", "calc_free", "evacuations", "abandoned", "items_checked", "external", "progress_seen", "store_default", "store_plain", "store_pointer", "store_explicit_pointer", "store_unique_pointer"],
        rule="one case = one life of a merge sorter; distinct by the hash of size, shape, order, parameters and evacuation points",
    ),
    "C21": dict(
        technique="the serialization sorter driven directly and in pipelines with random item sizes, memory assignments, file limits, evacuation points and disk faults under ASan/UBSan; output compared with the input multiset, refusals judged against the assignment, accounts, files and directories compared with before",
        note="Held on the inputs, assignments and evacuation points executed. Between 'certainly fits' and 'certainly too large' either outcome is accepted, silent loss never.",
        harnesses={"c21": dict(src=["c21_serialization_sorter.cpp"], wrap=IO, timeout=60)},
        quick=[("asan", "c21", 2500)],
        thorough=[("asan", "c21", 30000), ("dbg", "c21", 3000)],
        require=["giant_items", "files_compared", "sorts", "pipelines", "passive", "twice_sorted", "internal", "external", "complete", "abandoned", "empty", "evacuations", "file_limits", "merge_free", "merged_levels", "memory_compared", "items_checked", "refusals", "fault_refusals", "too_large_reported", "type_big", "type_hollow", "type_small", "type_string"],
        rule="one case = one life of a serialization sorter or one pipeline; distinct by the hash of sizes, shape, order, parameters and evacuation points",
    ),
    "C24": dict(
        technique="random pipelines with parallel sections under TSan and ASan/UBSan with random delays in source, stages and sink and exceptions thrown at random points; output compared with the inner stages' function per item (exact sequence when order is maintained), calls checked for thread and re-entry, threads, items and memory accounts compared with before; a run that does not end is a deadlock",
        note="Held on the schedules that occurred. At least one worker and a buffer of at least one item; nested parallel sections do not compile and are not generated.",
        harnesses={"c24": dict(src=["c24_parallel.cpp"], timeout=30)},
        quick=[("tsan", "c24", 5000), ("asan", "c24", 6000)],
        thorough=[("tsan", "c24", 15000), ("asan", "c24", 25000), ("dbg", "c24", 4000)],
        require=["spurious_wakeups", "completed", "threw", "threw_twice", "ordered", "overtaken", "held_back", "partial_batches", "partial_outputs", "one_section", "two_sections", "jobs_1", "jobs_2", "jobs_4", "jobs_8"] + ["threw_%d" % i for i in range(1, 11)],
        rule="one case = one pipeline run; distinct by the hash of its parameters and of which worker took which item when",
    ),
    "C23": dict(
        technique="random compositions of the standard stages under ASan/UBSan, joined through virtual chunks, devirtualized or written with static types; output and everything the stages leave beside the pipeline compared with the composition of the stages' functions, the forwarded number of items with the model's, files, descriptors and memory accounts with before",
        note="Held on the compositions, inputs, block sizes and memory assignments executed. Items are 64-bit integers (strings in the serialization pipelines).",
        harnesses={"c23": dict(src=["c23_pipelines.cpp", "c23_simple.cpp", "c23_buffers.cpp", "c23_ends.cpp", "c23_static.cpp"], timeout=60)},
        quick=[("asan", "c23", 20000)],
        thorough=[("asan", "c23", 100000), ("dbg", "c23", 8000)],
        require=["devirtualized", "items_known", "items_looked_at", "outputs_compared", "phases", "plots", "pull", "pull_devirtualized", "pull_to_push", "push", "stage_bomb", "stage_buffer", "stage_chunker", "stage_closed input", "stage_copy", "stage_empty chunk", "stage_empty pull chunk", "stage_exclude_lambda", "stage_expand", "stage_filter", "stage_fork", "stage_forwarder", "stage_forwarding buffer", "stage_forwarding far", "stage_forwarding map", "stage_forwarding reverser", "stage_forwarding serialization_sort", "stage_forwarding sort", "stage_generic map", "stage_input", "stage_input_vector", "stage_internal passive reverser beside", "stage_internal_passive_buffer", "stage_internal_passive_reverser", "stage_internal_reverser", "stage_join", "stage_join of three", "stage_lambda", "stage_linear", "stage_logger", "stage_map", "stage_map, sort, uniq", "stage_map_sink", "stage_merge", "stage_named_input", "stage_named_output", "stage_named_pull_input", "stage_null_sink", "stage_ordered_merge", "stage_ordered_merge peek", "stage_output", "stage_output_vector", "stage_parallel", "stage_passive buffer beside", "stage_passive chain", "stage_passive reverser beside", "stage_passive sorter beside", "stage_passive_buffer", "stage_passive_reverser", "stage_passive_serialization_buffer", "stage_passive_serialization_reverser", "stage_passive_sorter", "stage_pipeuniq", "stage_pull", "stage_pull middle and end", "stage_pull stages in a row", "stage_pull streams", "stage_pull types", "stage_pull zero_source", "stage_pull, peek", "stage_pull, unique", "stage_pull_fork", "stage_pull_input", "stage_pull_input_iterator", "stage_pull_input_vector", "stage_pull_map", "stage_pull_output", "stage_pull_output_iterator", "stage_pull_peek", "stage_pull_peek and pull_map", "stage_pull_reverse_input", "stage_pull_source", "stage_pull_tee", "stage_pull_unique", "stage_pulled", "stage_pulled buffer", "stage_pulled map", "stage_pulled maps", "stage_pulled reverser", "stage_pulled serialization buffer", "stage_pulled sorter", "stage_push_input_iterator", "stage_push_output_iterator", "stage_range", "stage_reverser", "stage_serialization_buffer", "stage_serialization_input", "stage_serialization_output", "stage_serialization_passive_sorter", "stage_serialization_reverser", "stage_serialization_sort", "stage_sort", "stage_sort, reverse", "stage_sorted merge", "stage_sorted twice", "stage_split", "stage_split in three", "stage_static piece", "stage_strings", "stage_strings reversed", "stage_subpipeline", "stage_tee", "stage_three in a row", "stage_two ends", "stage_typed_push_output_iterator", "stage_types", "stage_unique", "stage_unzip", "stage_unzip, zip", "stage_vfork", "stage_visit", "stage_zero_source", "stage_zip", "stage_zip with buffer", "static", "threw"],
        rule="one case = one pipeline run; distinct by the hash of its stages and the number of items",
    ),
}
