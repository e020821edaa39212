"""What each check runs, and what it assumes.  Used by check.py and gen_manifest.py."""

MEM = [
    "Threads interleave at every atomic access, flush, fence and system call (and, in a share of the runs, at plain accesses); the memory order is sequentially consistent.",
    "8-byte stores are atomic with respect to power loss; a flushed cache line is durable at the next fence of the thread that flushed it; unflushed lines may or may not reach memory, in any state they passed through since they were last durable.",
    "A killed process loses no store that was executed; power loss also loses directory changes that were not synced (in order), never synced ones.",
]
REAL_MAP = ["containers/cliffMap/hashMap.hpp", "include/persistence.hpp", "include/marking.hpp", "hashing/"]
STUB_MAP = ["pthread (fibers under a seeded scheduler)", "file system, mmap and directory listing (in-memory, with a persistence model)", "clflush/sfence (simulated cache)",
            "malloc/operator new inside the code under test (checked arena, can fail)", "clocks, sleep, rand"]

LIN = "Oracle: WGL linearizability check of the whole recorded history against a sequential map, per key; sizes judged at rest."


def mp(gen, note, quick=24, **kw):
    d = {"parts": [{"sut": "map", "gen": gen}], "quick": quick, "thorough": 900, "assumptions": MEM, "real": REAL_MAP, "stubs": STUB_MAP, "rule": note}
    d.update(kw)
    return d


PLAN = {
    "C01": mp("C01", LIN),
    "C02": mp("C02", LIN + " Every run grows the table at least once or is about to."),
    "C03": mp("C03", LIN + " Mix of increments, so every lost or doubled increment breaks the order."),
    "C04": mp("C04", LIN + " Mix of conditional updates on one or two keys."),
    "C05": mp("C05", "Oracle: after the crash every key is read; the history with the crash (in-flight operations take effect before it or never) must be linearizable."),
    "C06": mp("C06", "Oracle: durable linearizability of the history over all crashes; observed values must survive."),
    "C07": mp("C07", "Oracle as for C05, every run crashing or ending while the table grows."),
    "C08": mp("C08", "Oracle: several recoveries in a row, many of them crashed, must all read the same contents as the history allows; directory order is permuted; in a quarter of the runs resources fail during recovery, which is then repeated by the same process or the next."),
    "C09": mp("C09", "Oracle: recovered maps run concurrent workloads, grow and crash again; the whole history must be linearizable, and every operation must finish."),
    "C10": mp("C10", "Oracle: size() and isEmpty() at rest against the keys that are present, after concurrent work, growth, crash and recovery."),
    "C11": mp("C11", "Oracle: one thread is suspended forever at a random point; all others must finish within a bounded number of steps under a fair schedule."),
    "C12": mp("C12", "Oracle: allocation, open, space, mmap, rename and sync calls fail; a failed operation has full or no effect, later operations succeed, recovery is unaffected; creation and recovery meet failing calls as well."),
    "C13": mp("C13", "Oracle: a fresh instance is opened on what an earlier one (crashed or not) left behind; only its own history may be visible, also after recovery; removal and creation of files may fail, and the creation is repeated."),
    "C14": mp("C14", "Oracle: the ucf and stl containers against one atomic set with counters.", real=REAL_MAP + ["containers/ucfMap.hpp", "containers/stlMap.hpp"]),
    "C17": mp("C17", "Oracle: single words driven through pcas and pcas_read with crashes; each word is a durably linearizable compare-and-swap object.", real=["include/persistence.hpp", "include/marking.hpp"]),
}


def prog(parts, note, **kw):
    d = {"parts": [{"sut": "e2e-" + a, "gen": g, "weight": w} for a, g, w in parts], "quick": 30, "thorough": 900,
         "assumptions": MEM + ["The pmem and clevel containers run over a stand-in for libpmemobj (assumptions as for C15).", "The container is wrapped by a recorder that stamps every call; the program's main, argument parsing, workload and container are the repository's."],
         "real": ["runTest.cpp", "runTest.hpp", "tests/test.hpp", "tests/alternating.hpp", "tests/degree.hpp", "tests/random.hpp", "tests/ycsb.hpp", "tests/reddit.hpp", "include/define.hpp", "containers/ucfMap.hpp", "containers/stlMap.hpp", "containers/pmemMap.hpp", "containers/levelMap.hpp"] + REAL_MAP,
         "stubs": STUB_MAP + ["console output (captured)", "input files (generated from the seed)", "libpmemobj (stand-in, for the pmem and clevel containers)"],
         "technique": "deterministic simulation of the whole test program (real main, threads as fibers, simulated file system and persistent memory, seeded schedules and crashes); contents, reports and call histories checked against a model of the workload",
         "rule": note}
    d.update(kw)
    return d


PLAN["C18"] = prog([("ucf-alternating", "C18r", 3), ("ucf-alternating-rel", "C18r", 2), ("stl-alternating", "C18v", 1), ("pm-alternating", "C18p", 1), ("clevel-alternating", "C18c", 1)],
                   "Oracle: the elements found at the end, and again after kill or power failure and reopening, against a model of the workload; the recorded calls must be linearizable; the printed size must be the number of elements; the program's own consistency check must pass.")
PLAN["C19"] = prog([("ucf-degree", "C19r", 3), ("ucf-degree-rel", "C19r", 2), ("stl-degree", "C19v", 1), ("pm-degree", "C19r", 1), ("clevel-degree", "C19c", 1)],
                   "Oracle: the value found for every node against the number of generated input lines naming it, also summed over runs that reopen the container (containers that cannot count: exactly the nodes named); the recorded increments must be linearizable.")
PLAN["C20"] = prog([("ucf-alternating", "C20a", 2), ("ucf-degree", "C20d", 1), ("ucf-random-rel", "C20r", 1), ("stl-alternating", "C20a", 1), ("ucf-YCSB", "C20y", 1), ("pm-random", "C20r", 1)],
                   "Oracle: no recorded container call of a worker before all workers have written to shared memory since they started (nobody can have passed a start line otherwise); calls per worker against its share; reports only after the last worker has finished; everything ends under a fair schedule.")
PLAN["C25"] = prog([("ucf-YCSB", "C25r", 3), ("ucf-YCSB-rel", "C25r", 2), ("stl-YCSB", "C25v", 1), ("pm-YCSB", "C25r", 1), ("clevel-YCSB", "C25c", 1)],
                   "Oracle: the recorded calls against the generated input files (load phase: every line once, by the main thread, in order, before any worker; run phase: every line once over all workers, each worker in file order); results linearizable with the load and, when the container is reopened, with the earlier runs; printed size against the elements present.")
PLAN["C26"] = prog([("ucf-degree", "C26d", 2), ("ucf-YCSB", "C26y", 2), ("ucf-random", "C26r", 2), ("pm-degree", "C26dk", 1), ("pm-YCSB", "C26yk", 1), ("pm-random", "C26rk", 1)],
                   "Oracle: the program is killed or loses power at a random point of its run (also inside a resumed run and inside recovery), then started again with -r 1 on what is left; the recorded calls of all processes together must be durably linearizable, the resumed run must complete, end with status 0 and report the size that is there.")
PLAN["C27"] = prog([("ucf-reddit", "C27r", 3), ("ucf-reddit-rel", "C27r", 1), ("stl-reddit", "C27v", 1), ("pm-reddit", "C27r", 1)],
                   "Oracle: the value found for every number against the number of input lines naming it (also summed over runs that reopen the container); the printed lines against the values found; the recorded calls must be linearizable.")


STUB_POBJ = ["libpmemobj (a stand-in on the simulated persistent memory: pools, root object, undo-log transactions, atomic allocation, locks; its flushes, fences and log writes are crash points)"]
POBJ_ASSUME = ["The libpmemobj stand-in implements the documented behaviour of PMDK 1.13: a transaction or an atomic allocation is all or nothing across a crash, a pool appears complete or not at all, locks are released by a restart. It never reuses freed memory and fills new memory with junk in half of the allocations.",
               "Each reopening maps the pool at another address."]
REAL_PM = ["containers/pmemMap.hpp", "include/libpmemobj++/container/concurrent_hash_map.hpp", "include/libpmemobj++/ (transaction, persistent_ptr, pool, p, make_persistent, enumerable_thread_specific, ...)"]


def pobj(sut, gen, note, real, **kw):
    d = {"parts": [{"sut": sut, "gen": gen}], "quick": 24, "thorough": 900, "assumptions": MEM + POBJ_ASSUME, "real": real, "stubs": STUB_MAP + STUB_POBJ, "rule": note,
         "technique": "deterministic simulation of threads, persistent memory and libpmemobj with seeded schedules, crashes and allocation failures; history checked against a sequential model"}
    d.update(kw)
    return d


PLAN["C15"] = pobj("pm", "C15", "Oracle: linearizability of the recorded calls against an atomic set, count at rest against the keys present, every call returns under a fair schedule; keys are chosen to share buckets and parent buckets, and some runs reach the second growth; a share of the runs has failing pool allocations.", REAL_PM)
PLAN["C16"] = pobj("pm", "C16", "Oracle: after kill or power failure (also while reopening) every key is read; the history with the crashes must be linearizable, count must match, and later operations must behave.", REAL_PM)

PLAN["C28"] = pobj("chm", "C28", "Oracle: linearizability of the recorded calls against an atomic map, per key, over all crashes; a table of who holds which element as the callers see it (no two holders if one may write, none left when erase returns); at rest, an iteration against single lookups and size. Elements: a pair of words that must match, under an identity hash and a hash with collisions, and strings whose length depends on their content; a share of the runs has failing pool allocations.",
                   REAL_PM[1:] + ["include/libpmemobj++/container/ (basic_string, vector)"])

PLAN["C29"] = pobj("box", "C29", "Oracle: every operation (a container call or a transaction of several, with a digest of all results and of the whole contents afterwards) is repeated on std::vector, std::string and plain values; a failed or aborted one must have changed nothing, one cut off by a crash happened completely or not at all; at rest every allocated object must be reachable from the root. Half of the runs crash (kill or power failure, also during recovery), a quarter has failing allocations and snapshots. Up to three threads on data of their own.",
                   ["include/libpmemobj++/container/ (vector, segment_vector, basic_string, array)", "include/libpmemobj++/ (transaction, persistent_ptr, p, pool, make_persistent, make_persistent_array, make_persistent_atomic, slice, contiguous_iterator, ...)"])

PLAN["C30"] = pobj("lock", "C30", "Oracle: tables of holders and of those who want a lock, kept by the harness (no writer with anybody else; a refusal only if somebody else has or wants it; a timed attempt not before its time); the cells and queues the locks protect must be linearizable, also over crashes (kill or power failure, also while reopening), with failed and aborted transactions without effect; a consumer waiting for an item that was put and notified must get it; every call returns under a fair schedule; a lock is as good as new after a restart. Transactions (function, manual, automatic, nested, aborted, thrown, begun in a destructor while an exception passes) with one to three locks; locks that fail; wrong uses. The calendar clock differs from the steady clock.",
                   ["include/libpmemobj++/ (mutex, shared_mutex, timed_mutex, condition_variable, transaction, detail/conversions, detail/common, persistent_ptr, p, pool)"])

PLAN["C31"] = pobj("keep", "C31", "Oracle: every object saved by hand has one owner thread and holds, word by word, its place and version; after a crash its version must be the one of the last completed save, or lie between that and the save that was cut off (linearizability with a torn state that only the latter may leave); the sum over the per-thread storage is linearizable over crashes and collections; volatile objects and attached state: construction counts, identity and contents, kept by the harness since the pool was opened; wrong uses of pools must be refused. A flush counts only with a later drain by the same thread and only if it went to the right pool and range.",
                   ["include/libpmemobj++/ (pool, persistent_ptr, p, transaction, experimental/v, detail/volatile_state, detail/enumerable_thread_specific, detail/pool_data, container/segment_vector)"])

PLAN["C21"] = pobj("clevel", "C21", "Oracle: membership intervals over the recorded calls (an inserted key stays until an erase, an erased one stays away until an insert; which of two overlapping updates wins is not judged); every call returns under a fair schedule. Single lifetime: the adapter cannot reopen a table (it starts no resizer then). First tables of 4, 8 and 16 buckets through the container, and the adapter's own table with colliding keys; the background resizer is the real one, on simulated time.",
                   ["include/libpmemobj++/experimental/clevel_hash.hpp", "containers/levelMap.hpp", "include/libpmemobj++/ (persistent_ptr, pool, p, make_persistent, make_persistent_atomic, ...)"])
PLAN["C21"]["parts"] = [{"sut": "clevel", "gen": "C21", "weight": 3}, {"sut": "clevel14", "gen": "C21a", "weight": 1}]
PLAN["C21"]["assumptions"] = MEM[:1] + [POBJ_ASSUME[0] + " (Bucket arrays of 32 kB and more are reused.)", "A run that uses up the simulated pool (16 MB; the adapter asks for 160 MB) ends without a verdict."]
