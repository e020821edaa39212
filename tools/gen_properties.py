#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording is reviewable)."""
import json, os
HM="containers/cliffMap/hashMap.hpp"; PE="include/persistence.hpp"; MK="include/marking.hpp"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
TESTS="The shipped harness only requires that the process exits and prints a size; it never compares contents or return values with anything, and the OS scheduler decides the few interleavings it sees."
p("C01","Concurrent map operations are linearizable",
  "Every concurrent execution of get, containsKey, put, putIfAbsent, replace, remove, remove-if-equal and update on the persistent map is linearizable: each call takes effect atomically at one instant between its invocation and its return, and its return value is exactly what a sequential map would have returned at that instant. A key that is present occupies one logical entry however many threads insert it at once.",
  ["schedules","histories"],"all interleavings of any number of threads issuing any sequence of the public operations on any keys",TESTS,
  [HM,PE],[("claim a key slot, then CAS the value",HM+": putIfMatch"),("probe until key, empty slot or limit",HM+": getImpl"),("dirty-bit CAS and read",PE+": pcas, pcas_read")],
  [("KVpair","key and value words of one slot",HM)],["return values of the public ConcurrentHashMap operations"])
p("C02","Growing the table loses, duplicates and reverts nothing",
  "While and after the map grows, any number of times and with any number of threads helping, every key maps to exactly what the operations completed so far say: no entry disappears, no removed entry comes back, no overwritten value reappears, and operations that overlap the growth still behave as one atomic map.",
  ["schedules","histories","configurations"],"all interleavings of operations with one or several (nested) table growths, for all starting capacities and key distributions",TESTS+" Migration windows are a few instructions wide.",
  [HM],[("mark, copy, tombstone each slot",HM+": copySlot"),("promotion of the new table",HM+": copyCheckAndPromote"),("claiming of copy chunks",HM+": helpCopyImpl"),("installation of exactly one new table",HM+": resize, CASNewTable")],
  [("copyDone","slots whose migration is finished",HM),("newTable","successor table",HM)],["get/put/remove return values", "final contents read back"])
p("C03","Concurrent increments are each counted exactly once",
  "After any set of concurrent increments of a counter entry has completed, the counter has grown by exactly the number of increments, and every increment returned a distinct intermediate value; this holds through removals of other keys and through any number of table growths. No increment is ever replaced by a plain store of another value, whichever value is passed along with the increment function.",
  ["schedules","histories"],"all interleavings of increments with each other, with other updates and with table growth",TESTS+" The degree workload never compares its counts with the input.",
  [HM],[("caller-supplied CAS function applied to the current value",HM+": update, Table::increment, putIfMatch")],(),["value of the counter, values returned by update()"])
p("C04","Conditional updates have at most one winner",
  "Of any set of concurrent putIfAbsent calls on an absent key exactly one reports that it inserted, of any set of concurrent replace or remove-if-equal calls expecting the same value exactly one reports success, and of concurrent removes of one present entry exactly one reports that it removed something. A conditional call that reports failure changed nothing, and one that reports success changed exactly what it said, also while the table grows.",
  ["schedules","histories"],"all interleavings of conditional operations on the same keys, with and without table growth",TESTS,
  [HM],[("expected-value test before the value CAS",HM+": putIfMatch"),("public wrappers",HM+": putIfAbsent, replace, remove")],(),["return values of the conditional operations and the value that remains"])
p("C05","A completed update survives any crash",
  "Once an update operation has returned, its effect (unless superseded by a later update of the same key) is present after the process is killed or power is lost at any later instant and the map is reopened with recovery. This includes updates that completed while the table was growing.",
  ["crash_points","schedules","histories"],"every instant after the return of the operation, and every subset of not yet flushed cache lines being lost or written back at the crash",
  "No test crashes the process, and a crash of a process (unlike a power loss) never loses cached lines, so missing flushes are invisible to any test on ordinary memory.",
  [HM,PE],[("flush and fence before an update is acknowledged",HM+": putIfMatch"),("dirty-bit protocol",PE+": persist, pcas, pcas_read")],(),["get() after reopening with reconstruct=true"])
p("C06","After a crash the contents are explained by one atomic history",
  "After a crash at any instant and recovery, the map holds for every key a value that some linearization of the pre-crash operations leaves there, in which each operation in flight at the crash took effect entirely or not at all. A value never written, a value already overwritten before the crash, a removed key, or the loss of something another operation had already observed never appears.",
  ["crash_points","schedules","histories"],"every crash instant, every subset of unflushed cache lines surviving, and every set of operations in flight",
  "Needs a crash in the middle of an operation together with control over which cache lines reached persistence; the tests have neither.",
  [HM,PE],[("incomplete inserts become tombstones on reopening",HM+": mmapTable"),("a reader persists what it returns",PE+": pcas_read"),("key before value in one cache line",HM+": KVpair")],(),["get() after reopening, combined with the recorded pre-crash history"])
p("C07","A crash while the table grows loses nothing",
  "If the process is killed or power is lost at any instant during the creation of a larger table or the migration of entries into it, recovery restores every completed update with its latest value, whether the entry had been migrated, was being migrated or had not been touched. A table that was only partly created or never came into use contributes nothing to the recovered contents.",
  ["crash_points","schedules","histories"],"every crash instant within growth (file creation, initialisation, publication, per-slot migration, promotion), nested growths, and competing growers",
  "No test crashes the process; recovery is never run by the test suite.",
  [HM,PE],[("slot migration order: mark, copy, persist, tombstone",HM+": copySlot"),("discovery, ordering and linking of table files",HM+": constructor, mmapTable")],(),["get() after reopening"])
p("C08","Recovery is repeatable and itself crash-safe",
  "Reopening the map any number of times without updates in between yields the same contents each time, and a crash at any instant during a recovery followed by another recovery yields the same contents as an uninterrupted recovery. The result does not depend on the order in which the file system lists the table files, however many tables the map has been through.",
  ["crash_points","fault_sequences","configurations"],"any number of reopenings, a crash at every instant of recovery, every directory order, any count of earlier growths",
  "Recovery mode is not part of the test matrix.",
  [HM],[("discovery, ordering, filtering and linking of table files",HM+": constructor"),("reopening a table file",HM+": mmapTable, numFromName")],(),["get() after each reopening"])
p("C09","A recovered map is fully operational",
  "After any crash and recovery every operation terminates and the map again behaves as a linearizable, growing, crash-safe map: interrupted migrations complete, new growth does not collide with or overwrite earlier tables, and a second crash and recovery again loses nothing.",
  ["crash_points","schedules","histories","fault_sequences"],"all schedules of operations run after a recovery from any crash state, including further growth and further crashes",
  "Recovery mode is not part of the test matrix; a recovered map is never operated on.",
  [HM],[("migration progress restored on reopening",HM+": constructor, mmapTable"),("unique table numbering after recovery",HM+": fileNameCounter, getOrderedFileName")],(),["operations after reopening return, with linearizable results"])
p("C10","The reported size is exact whenever the map is quiescent",
  "Whenever no operation is in progress, size() equals the number of keys present and isEmpty() agrees with it, whatever interleaving of inserts, overwrites, removals, increments and table growths led there, and equally after a crash and recovery.",
  ["schedules","histories","crash_points"],"all histories that have come to rest, with growth and with recovery",
  "The harness prints the size but compares it with nothing; BUILD notes record that the printed size varies from run to run.",
  [HM],[("size adjusted at each value transition",HM+": putIfMatch"),("size inferred when reopening",HM+": mmapTable, constructor")],(),["size(), isEmpty() against the keys found by get()"])
p("C11","No stalled thread can block the others (lock-freedom)",
  "If any thread is suspended forever at any instant of any operation, including while it grows the table or migrates entries, the operations of all other threads still complete within a bounded number of their own steps. Under every fair schedule every operation completes.",
  ["schedules"],"every thread, every suspension instant, every schedule of the remaining threads",
  "An OS scheduler always resumes threads soon; a test cannot suspend a thread at a chosen instruction.",
  [HM],[("helpers take over unfinished migration work",HM+": helpCopyImpl, copySlot, resize")],(),["return of every operation of the non-suspended threads"])
p("C12","A failed growth is reported and leaves the map intact",
  "If memory, disk space, file handles or address space run out while the map creates a table or while it is created or recovered, the operation that needed it reports an error and either took full effect or none; no other entry changes, all other threads keep working, and once the resource is available again operations succeed and a later recovery is unaffected by the failed attempts.",
  ["fault_sequences","schedules","histories"],"every failing allocation, open, size change or mapping at every growth and during creation and recovery, in all schedules, with later crash and recovery",
  "The tests inject no failures.",
  [HM],[("error returns of file creation, sizing, mapping and allocation",HM+": mmapTable, resize, constructor")],(),["exception from the operation; contents afterwards; contents after reopening"])
p("C13","A map opened without recovery starts empty",
  "A map created without recovery contains nothing and grows correctly whatever table files an earlier instance or a crash left behind in its directory, and a later recovery shows only what this new instance stored.",
  ["histories","crash_points","configurations"],"every set of files left by any earlier history or crash, every capacity of the old and the new instance",
  "The test script deletes the table files before every run.",
  [HM],[("creation of table files",HM+": mmapTable, constructor")],(),["get(), size() right after construction, after growth and after recovery"])
p("C14","PMap and STL containers honour one concurrent set contract",
  "Through the common container interface the PMap-backed and the STL-backed containers behave, under any concurrency, like one atomic set with counters: insert reports whether the key was new, erase whether it was present, contains and get whether and which value is there (0 when absent), increment the counter's new value, and count, at rest, the number of keys.",
  ["schedules","histories"],"all interleavings of interface calls by any number of threads, with PMap growing underneath",
  "The workloads ignore nearly all return values and never compare containers with each other.",
  ["containers/container.hpp","containers/ucfMap.hpp","containers/stlMap.hpp",HM],[("adapter to the persistent map","containers/ucfMap.hpp"),("global lock around std::map","containers/stlMap.hpp")],(),["return values of container_type methods"])
p("C15","The PMDK-backed container is linearizable and deadlock-free",
  "Any concurrent use of the PMDK-backed container's insert, erase, contains, get and count behaves like an atomic set: results are linearizable, an inserted key stays until erased, every call returns under a fair schedule (no deadlock, also while buckets are split), and count at rest equals the number of keys. A call that fails because the pool is out of space does not disturb the others, and what is erased or fails to be inserted leaves no allocated memory behind.",
  ["schedules","histories"],"all interleavings of calls by several threads including on-demand rehashing",
  "The tests check neither results nor contents and see few interleavings.",
  ["containers/pmemMap.hpp","include/libpmemobj++/container/concurrent_hash_map.hpp"],[("per-bucket and per-element reader-writer locks","include/libpmemobj++/container/concurrent_hash_map.hpp"),("adapter","containers/pmemMap.hpp")],(),["return values of pm::container_type methods"])
p("C16","Completed updates of the PMDK-backed container survive a crash",
  "After a crash at any instant and reopening of the pool, the PMDK-backed container holds exactly what some linearization of its history leaves, with every completed insert and erase included and each unfinished one applied entirely or not at all; its count matches its contents, no allocated memory is out of reach, and it is fully usable.",
  ["crash_points","schedules","histories"],"every crash instant, every subset of unflushed cache lines surviving, also during rehashing and during reopening",
  "No test crashes or reopens this container.",
  ["containers/pmemMap.hpp","include/libpmemobj++/container/concurrent_hash_map.hpp"],[("transactional node allocation and linking","include/libpmemobj++/container/concurrent_hash_map.hpp"),("runtime initialisation on reopening","containers/pmemMap.hpp")],(),["contains/get/count after reopening"])
p("C17","What a persistent read returned is already durable",
  "For a shared word updated only through the dirty-bit compare-and-swap and read only through the dirty-bit read, any value a read returned, and any value that a later successful update replaced, is never lost by a crash: after the crash the word holds that value or a newer one. A failed compare-and-swap reports the value that made it fail, free of marker bits, and a successful one took effect exactly once.",
  ["schedules","crash_points"],"all interleavings of readers and writers of one or several words, every crash instant, every subset of unflushed lines",
  "Missing or misplaced flushes are invisible without control over cache write-back.",
  [PE,MK],[("pcas, pcas_read, persist",PE)],(),["return values of pcas/pcas_read, word content after the crash"])
p("C18","The alternating workload leaves exactly the expected elements",
  "When the alternating workload has run to completion with any number of threads and any schedule, the container (PMap, STL, PMDK hash map or clevel) holds exactly the pre-inserted and inserted elements that were not erased, the reported container size equals their number (clevel reports a capacity instead), a further run in the same process can be made, and with PMap a reopened container passes the workload's own consistency check.",
  ["schedules","configurations","crash_points"],"all thread counts, operation counts and schedules of the workload, and a crash after it",
  "The test run only requires that a size is printed; the consistency check exists but is never run.",
  ["tests/alternating.hpp","tests/test.hpp","runTest.hpp","containers/ucfMap.hpp"],[("element generation per thread","tests/alternating.hpp"),("thread launch and barrier","runTest.hpp, tests/test.hpp")],(),["contents and size after run_test; recovery_test"])
p("C19","The degree workload counts every edge exactly once",
  "When the degree workload has completed, the value stored for every node equals the number of input lines that name it as target in the files the running threads own, and no other node is present, for PMap (growing underneath) and STL, under every schedule; the PMDK and clevel containers, which cannot count, hold exactly the nodes named. With persistent containers the counts of runs that reopen the container add up.",
  ["schedules","configurations"],"all schedules, thread counts 1 to 4 and more, and input files",
  "The workload never compares its counts with the input.",
  ["tests/degree.hpp","runTest.hpp","containers/ucfMap.hpp",HM],[("one increment per input line","tests/degree.hpp: parseFile"),("increment","containers/ucfMap.hpp")],(),["get() for every node after run_test"])
p("C20","Benchmark workers start together and each does its own share once",
  "In every benchmark run no worker starts its measured work before all workers have reached the start line, every worker is eventually released and finishes, each worker runs its share exactly once with its own thread number, and the run reports its elapsed time and the container size after all of them finished.",
  ["schedules","configurations"],"all schedules and thread counts",
  "Observed only as 'the process ended'; early release is invisible.",
  ["tests/test.hpp","runTest.hpp"],[("spin barrier","tests/test.hpp: sync_start"),("spawn and join","runTest.hpp: run_test")],(),["order of worker start, container calls and report"])
p("C21","The clevel container keeps inserted keys visible until erased",
  "Through the common interface the level-hash container keeps membership under concurrency: a key whose insertion completed is reported present until an erase of it begins, a key never inserted is never reported, a key whose erase completed with no insertion overlapping or following is reported absent, and every call returns, also while the table expands and entries are rehashed in the background.",
  ["schedules","histories"],"all interleavings of insert, erase, contains and the background resizer",
  "The tests check no result and run the background resizer on a real clock.",
  ["containers/levelMap.hpp","include/libpmemobj++/experimental/clevel_hash.hpp"],[("slot CAS and context check","include/libpmemobj++/experimental/clevel_hash.hpp"),("adapter","containers/levelMap.hpp")],(),["return values of clevel::container_type methods"])
p("C22","Multi-word compare-and-swap is atomic",
  "The multi-word compare-and-swap changes all of its words from their expected to their new values at one instant and reports success, or changes none and reports failure because some word differed; readers and single-word updates never see an intermediate state or an internal descriptor.",
  ["schedules","histories"],"all interleavings of multi-word operations, reads and single-word operations over shared words",
  "The component's own driver checks nothing, and it is not part of the build.",
  ["include/KCAS/pmwcas.hpp"],[("descriptor installation and helping","include/KCAS/pmwcas.hpp")],(),["results of PMwCAS, PMwCASRead and CAS"])
p("C23","Hash functions equal their reference on every input",
  "For every key the xxHash wrapper returns the reference XXH64 value and the naive hash returns the key itself, so that tables written by one build can be found by another.",
  ["inputs"],"all keys and key types","A pure function of its input; sampled inputs only.",
  ["hashing/hash.hpp","hashing/xxhash.hpp"],[("xxhash wrapper","hashing/hash.hpp")],(),["return value"])
p("C24","Operation shares add up to the requested total",
  "For every thread count and operation count the shares computed for the threads add up to exactly the requested number of operations, and each share splits exactly into a prefill and a main part.",
  ["inputs"],"all thread counts and operation counts","A pure function of its input; sampled inputs only.",
  ["tests/test.hpp"],[("opsPerThread, opsMainLoop","tests/test.hpp")],(),["return values"])
p("C25","YCSB workload performs every line of its input once, in order",
  "The YCSB workload inserts every key of the load file once, in file order, before any measured work starts; then every operation line of the run file is carried out exactly once, by exactly one worker, each worker keeping to the order of the file (INSERT and UPDATE insert the key, READ looks it up, DELETE erases it; other lines are skipped). For every thread count and schedule the results are those of an atomic map holding the loaded keys, and the reported size is the number of elements left.",
  ["schedules","inputs","configurations"],"all schedules, thread counts and input files",
  "Its input files are not in the repository, so no test runs it at all.",
  ["tests/ycsb.hpp","runTest.hpp","containers/ucfMap.hpp",HM],[("parsing and distribution","tests/ycsb.hpp: container_test_prefix"),("run phase","tests/ycsb.hpp: container_test")],(),["container calls made by each thread, their results, and the printed size"])
p("C26","A benchmark run that was cut short can be resumed",
  "After the program was killed or power was lost at any moment of a run of the degree, YCSB or random workload, starting it again with recovery finds a usable container: every operation that had returned is there, an interrupted one is there completely or not at all, the resumed run performs its whole workload on top of that, finishes, ends with status 0 and reports the number of elements that are there. The same holds when recovery or the resumed run is cut short in turn.",
  ["crash points","schedules"],"all crash points (kill and power loss, including during creation for the ucf container, during recovery and during resumed runs), schedules and inputs",
  "No test starts a program on what an interrupted one left behind.",
  ["runTest.hpp","runTest.cpp","containers/ucfMap.hpp","containers/pmemMap.hpp",HM,PE],[("recovery test, then run","runTest.cpp: main; runTest.hpp: recovery_test, run_test"),("reopening","containers/ucfMap.hpp, containers/pmemMap.hpp: constructors")],(),["results of the container calls of all processes, exit status, printed size"])
p("C27","Reddit workload counts and reports every input number",
  "After the reddit workload every number of the input file maps to the number of lines holding it (containers that cannot count hold exactly the numbers that occur), no line is counted twice or skipped whatever the thread count, counts add up over runs that reopen the container, and the printed report names exactly the numbers below the container's size with their values.",
  ["schedules","inputs","configurations"],"all schedules, thread counts and input files",
  "Its input file is not in the repository, so no test runs it at all.",
  ["tests/reddit.hpp","runTest.hpp","containers/ucfMap.hpp"],[("one worker reads the file","tests/reddit.hpp: parseFile"),("report","tests/reddit.hpp: reportReddit")],(),["get() and contains() for every number, and the printed lines"])
p("C28","Persistent hash map interface: element locks, updates and iteration",
  "The full interface of the persistent concurrent hash map behaves as one atomic map: insert (all forms), insert_or_assign, find, count, erase, and updates made in a transaction through an accessor are linearizable for every schedule and hash function, plain and string elements alike. While one thread holds an accessor nobody else holds the element, const accessors are shared with readers only, and erase waits for all holders. At rest, iteration meets every element exactly once, size() is their number, and rehash() changes nothing while clear() removes everything. Copies, moved and swapped maps, ranges and assignments have exactly the elements of what they were made from, free_data() and the destructor free the rest, and an aborted transaction undoes all of it; defragmentation changes nothing, and no operation leaves allocated memory that cannot be reached. Inside a transaction the map refuses lookups, insertion, erasure and rehashing by an exception. After kill or power loss at any point every completed update is there and an interrupted one is there completely or not at all; when the pool runs out of space an operation reports that by an exception and has no effect.",
  ["schedules","crash points","allocation failures","hash functions"],"all schedules, crash points, failing allocations, keys and hash functions",
  "The tests only insert, look up and erase plain keys through the adapter.",
  ["include/libpmemobj++/container/concurrent_hash_map.hpp","include/libpmemobj++/container/basic_string.hpp","include/libpmemobj++/container/vector.hpp","include/libpmemobj++/transaction.hpp"],
  [("accessors","include/libpmemobj++/container/concurrent_hash_map.hpp: accessor, const_accessor, internal_find"),("insertion","include/libpmemobj++/container/concurrent_hash_map.hpp: internal_insert"),("erase","include/libpmemobj++/container/concurrent_hash_map.hpp: internal_erase"),("iteration, rehash, clear","include/libpmemobj++/container/concurrent_hash_map.hpp: hash_map_iterator, rehash, clear")],(),["results of all calls, values seen through accessors and iterators"])
p("C29","Persistent containers and transactions behave like the standard containers",
  "Every operation of the persistent vector, segment vectors, strings and array, of persistent numbers and pointers and of the functions that create and delete persistent objects has the effect and the result of its counterpart in the C++ standard library, also when an argument refers to the container itself and when the elements own memory of their own. A transaction (function, manual, automatic, nested) takes effect completely or not at all: an exception, an abort, a missing commit, a failed allocation or snapshot, a kill or a power loss at any point leaves everything as it was before it, callbacks run at the stage they were registered for, and an operation that returned is still there after any later crash. No operation, failure or crash leaves memory that is allocated but cannot be reached. What needs a transaction or persistent memory and has none, or asks for an impossible size or place, is refused by the documented exception without any effect.",
  ["operation histories","crash points","allocation failures","aborts at any step"],"all operations, arguments, crash points, failing allocations and aborts",
  "The tests never use these containers at all; they only exercise what the persistent map happens to need.",
  ["include/libpmemobj++/container/vector.hpp","include/libpmemobj++/container/segment_vector.hpp","include/libpmemobj++/container/basic_string.hpp","include/libpmemobj++/container/array.hpp","include/libpmemobj++/transaction.hpp","include/libpmemobj++/persistent_ptr.hpp","include/libpmemobj++/make_persistent.hpp","include/libpmemobj++/make_persistent_array.hpp","include/libpmemobj++/make_persistent_atomic.hpp","include/libpmemobj++/allocator.hpp","include/libpmemobj++/p.hpp"],
  [("transactions","include/libpmemobj++/transaction.hpp: transaction::run, manual, automatic"),("vector","include/libpmemobj++/container/vector.hpp: internal_insert, realloc, shrink, add_data_to_tx"),("string","include/libpmemobj++/container/basic_string.hpp: add_sso_to_tx, replace_content, sso_to_large"),("segment vector","include/libpmemobj++/container/segment_vector.hpp: insert_gap, resize")],(),["results and contents after every operation, and again after crashes; reachability of all allocated objects"])
p("C30","Persistent locks exclude, conditions wake, transactions hold locks to the end",
  "A lock kept in persistent memory behaves like its standard counterpart: one holder of a mutex or timed mutex at a time, a shared mutex has one writer or any number of readers; an attempt without waiting fails only while somebody else has or wants the lock, a timed attempt gives up no earlier than its time (a span or a point in time of any clock) and not never; a wait on a persistent condition variable, plain, timed or with a predicate, returns with the lock held and, given a predicate, tells whether it holds, no notified item stays unserved, and no lock operation blocks for ever. A transaction given locks (function, manual, automatic, nested) holds all of them until the end of the outermost transaction, takes effect completely or not at all, and reports a lock it could not get, or a wrong use, by an exception without any effect. After kill or power loss at any point all locks are free, updates completed under a lock are all there, and locks that are not in persistent memory are refused.",
  ["schedules","timing of waits","crash points","failing locks"],"all schedules, times, crash points and failures",
  "The tests only reach the locks the persistent map happens to use, without contention that would matter, and never a timed lock, a condition variable or a transaction with locks.",
  ["include/libpmemobj++/mutex.hpp","include/libpmemobj++/shared_mutex.hpp","include/libpmemobj++/timed_mutex.hpp","include/libpmemobj++/condition_variable.hpp","include/libpmemobj++/transaction.hpp","include/libpmemobj++/detail/conversions.hpp"],
  [("locks","include/libpmemobj++/mutex.hpp, shared_mutex.hpp, timed_mutex.hpp"),("condition variable","include/libpmemobj++/condition_variable.hpp: wait_impl, wait_until_impl"),("times","include/libpmemobj++/detail/conversions.hpp: timepoint_to_timespec"),("transactions with locks","include/libpmemobj++/transaction.hpp: add_lock, run, manual, automatic")],(),["results of all calls, who is inside, data protected by the locks, also after crashes"])
p("C31","What is persisted by hand survives; per-thread, volatile and attached state",
  "What a program writes and then persists (pool::persist, flush with drain, memcpy_persist, memset_persist, persistent_ptr::persist and flush) survives whatever comes after the call returned, in full, and is read back unchanged, also a persistent pointer itself; an object whose saving was cut off holds parts of its old and its new contents, nothing else. Per-thread storage gives each living thread an element of its own, the same one every time, needs no more elements than there are threads, keeps what was persisted there for collection after a crash, each element once, and is empty after that. A volatile object inside persistent memory is made exactly once after each opening of the pool, whoever asks first, and all get the same; state attached to a persistent object is made once, is found by all, is detached only when the transaction that detaches it commits, and does not outlive the pool. A pool that is closed, missing, open already or of another layout is refused by an exception and without any effect, and can be closed and opened again in the same process.",
  ["schedules","crash points","opening and closing of pools"],"all schedules, crash points and failures",
  "The tests persist through the maps only, never look at what a power failure leaves of a single call, and close every pool at most once.",
  ["include/libpmemobj++/pool.hpp","include/libpmemobj++/persistent_ptr.hpp","include/libpmemobj++/experimental/v.hpp","include/libpmemobj++/detail/volatile_state.hpp","include/libpmemobj++/detail/enumerable_thread_specific.hpp","include/libpmemobj++/detail/pool_data.hpp"],
  [("persistence by hand","include/libpmemobj++/pool.hpp: pool_base::persist, flush, drain, memcpy_persist, memset_persist; persistent_ptr.hpp: persist, flush"),("per-thread storage","include/libpmemobj++/detail/enumerable_thread_specific.hpp: local, initialize, clear, id_manager"),("volatile objects","include/libpmemobj++/experimental/v.hpp: get; detail/volatile_state.hpp: get, get_if_exists, destroy"),("pools","include/libpmemobj++/pool.hpp: open, create, check, close, root; detail/pool_data.hpp")],(),["contents of all objects at rest and after crashes, identity and number of volatile objects, results of all calls"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["id"]
        f.write(json.dumps(x)+"\n")
