#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements stay in one readable place)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": hook}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

# ---------------------------------------------------------------- scheduling library
prop("C01", "Every submitted task runs, never twice at once, and repeated submits coalesce",
 "Every submission of a task to the worker pool is followed by at least one complete execution of that task that begins after the submission, as long as the pool is not cancelled. A task is never executed by two workers at the same time. Submissions made while the task is already waiting to start cause one execution, not several, and an exception thrown by a task body neither loses later work nor stops its worker.",
 ["schedules", "programs"],
 "All interleavings of any number of threads that create, submit, queue behind another task, idle, and drop tasks while workers execute them.",
 "test/task.cc samples a few programs under whatever schedule the host picks; losing or doubling a run takes a particular interleaving of submit with begin/end of an execution.",
 ["lib/task.cc", "include/crucible/task.h"],
 [("run/exec hand-over of pending and run-again state", "lib/task.cc TaskState::run, exec, append_nolock"),
  ("worker loop", "lib/task.cc TaskConsumer::consumer_thread")],
 ["calls on the public Task API", "start and end of task bodies"],
 [("run_now / is_running / run_again", "what the task still owes its submitters", "lib/task.cc TaskState")])

prop("C02", "Queue order: dependents after target, main before idle, FIFO within a queue",
 "A task queued behind a target does not start until the target's current or next execution has ended, and then does start without any further submission, also when the target is dropped without ever running. Tasks that were submitted to the main queue start in submission order, and a task submitted to the idle queue starts only when no main-queue task is waiting. Tasks queued behind a target by priority insertion start ordered by age, older first, ahead of those that were appended.",
 ["schedules", "programs"],
 "All programs over submit / idle / append / insert on any task graph, under all interleavings of workers.",
 "The tests use one shape of each queue; the order rules only interact when dependents, self-resubmission and idle work are mixed under concurrent workers.",
 ["lib/task.cc"],
 [("post-exec queue, local queue and idle queue", "lib/task.cc TaskState::append, insert, rescue_queue, TaskConsumer::consumer_thread"),
  ("sort by id of inserted tasks", "lib/task.cc TaskState::insert_task, sort_queue")],
 ["calls on the public Task API", "start and end of task bodies"])

prop("C03", "Worker pool control: pause, thread count and cancel take effect and never hang",
 "While the pool is paused, or its thread count is zero, no task starts; on resume everything that was queued runs. No more task bodies are ever in progress at once than the largest thread count requested, and growing the count while work is queued makes the extra workers take part. After cancel no queued task starts, resources held by queued tasks are released, and cancelling or destroying tasks never deadlocks whatever other tasks they own.",
 ["schedules", "programs", "configurations"],
 "All interleavings of pause, resume, thread-count changes and cancel with running, queued and self-queueing tasks.",
 "test/task.cc never pauses, and cancels only an idle pool; lost wake-ups and self-deadlocks need cancel or pause at a particular point of a worker's loop.",
 ["lib/task.cc"],
 [("pause / cancel / set_thread_count", "lib/task.cc TaskMasterState::pause, cancel, set_thread_count, adjust_thread_count"),
  ("worker exit", "lib/task.cc TaskConsumer::consumer_thread")],
 ["public TaskMaster API", "start and end of task bodies", "object destruction"])

prop("C04", "Exclusion: one holder at a time and no lost contender",
 "At any moment an exclusion is held by at most one lock object, and it becomes free when the last copy of the holder's lock is released. A task whose attempt to lock fails is executed again, without further submission, after the task that held the exclusion next finishes executing or goes away. A lock attempt that has no competitor always succeeds.",
 ["schedules", "programs"],
 "All interleavings of lock attempts, lock releases, task completions and re-submissions by any number of contending tasks.",
 "test/task.cc runs one contention pattern; whether a contender is stranded depends on where its failed attempt falls relative to the owner's completion.",
 ["lib/task.cc", "include/crucible/task.h"],
 [("try_lock and owner post-queue insertion", "lib/task.cc Exclusion::try_lock, ExclusionLock::release")],
 ["public Exclusion API", "start and end of task bodies"])

prop("C05", "Barrier: waiting tasks run exactly when the last lock is released",
 "A task waiting on a barrier does not start through that barrier while any lock on the barrier is held. When the last lock and the barrier are released each waiting task is started without further submission. Copies, early releases and repeated releases of locks neither start waiters early nor lose them.",
 ["schedules", "programs"],
 "All interleavings of taking, copying and releasing barrier locks with tasks being added as waiters.",
 "test/task.cc tests one barrier with a fixed number of threads; early start needs a release racing with a new lock or waiter.",
 ["lib/task.cc", "include/crucible/task.h"],
 [("shared barrier state", "lib/task.cc BarrierState, BarrierLock::release, Barrier::insert_task")],
 ["public Barrier API", "start of task bodies"])

prop("C06", "Progress tracking never passes work that is still in progress",
 "The reported safe restart position is never beyond the position of any work item that is still held, and never moves past an item before its last hold is dropped. When nothing is held the safe position equals the furthest position ever held, and the furthest position never decreases. Holding and dropping items in any order from any number of threads, with duplicates, keeps both answers exact.",
 ["schedules", "histories"],
 "All sequences and interleavings of hold and release, including equal positions and out-of-order release.",
 "test/progress.cc checks a handful of sequential hold patterns.",
 ["include/crucible/progress.h", "src/bees-roots.cc"],
 [("set of held positions", "include/crucible/progress.h ProgressTrackerState")],
 ["begin(), end(), hold() of the tracker"])

prop("C07", "Bounded cache: at most one computation per key, LRU eviction, no stale results",
 "Concurrent requests for the same key run the computation once at a time and callers get a value computed for their own key. The cache never holds more entries than its limit (a limit of zero keeps the newest one), evicts the least recently used first, returns a kept result without computing it again, and forgets exactly what is expired, cleared or evicted. A computation that throws caches nothing and leaves other callers able to compute.",
 ["schedules", "histories"],
 "All histories of get, refresh, insert, expire, clear and size changes from any number of threads, with throwing computations.",
 "No existing test touches the cache.",
 ["include/crucible/cache.h", "include/crucible/lockset.h"],
 [("map + recency list", "include/crucible/cache.h LRUCache"), ("per-key lock", "include/crucible/lockset.h LockSet")],
 ["public cache API", "invocations of the compute function"])

prop("C08", "File handles: one shared object per descriptor, closed exactly once",
 "For one name (descriptor number) all lookups share a single object while any holder of it exists; the object is made by one caller at a time, is destroyed exactly once, and only after its last holder let go. A descriptor handed to a handle is closed exactly once, when its last handle is dropped or reassigned, and never after its number may have been given to another file. A creation that throws leaves the name usable.",
 ["schedules", "histories"],
 "All interleavings of creating, copying, dropping and closing handles, with the kernel re-using descriptor numbers immediately.",
 "test/fd.cc and test/namedptr.cc are single threaded, so a drop never overlaps a creation with the same key.",
 ["include/crucible/namedptr.h", "include/crucible/fd.h", "lib/fd.cc"],
 [("weak map with erasing destructor", "include/crucible/namedptr.h"), ("IOHandle", "lib/fd.cc IOHandle::close")],
 ["constructor/destructor of shared objects", "close(2) calls"])

prop("C09", "Lock groups: different kinds never overlap and every waiter proceeds",
 "Two operations of different lock kinds (deduplication and reverse lookup in the daemon) are never in progress at the same time while the workaround is enabled; any number of the same kind may be. The keyed lock set gives each key to at most one holder, respects its capacity, and lets a thread that is waiting proceed once the key is free. Releasing a lock, also when the operation threw, always lets some eligible waiter continue.",
 ["schedules", "programs"],
 "All interleavings of acquire and release of both lock services by any number of threads.",
 "No existing test exercises either lock service.",
 ["lib/multilock.cc", "include/crucible/lockset.h", "src/bees-context.cc", "src/bees-roots.cc", "src/bees-resolve.cc"],
 [("counter map and condition variable", "lib/multilock.cc MultiLocker"), ("set of held keys", "include/crucible/lockset.h LockSet")],
 ["public lock API", "kernel requests of the running daemon"])

prop("C10", "Object pool: an object has one user at a time and is reused when returned",
 "No object is handed to a second user while the first still holds it, and a returned object passes the check-in function exactly once before any reuse. Objects are generated only when none is free, and clearing the pool destroys the free ones and leaves those in use to their users. The pool may be destroyed while objects are in use: they stay valid and are destroyed when released, and every object is destroyed exactly once. A generator or check-out that throws loses no object.",
 ["schedules", "histories"],
 "All interleavings of taking, copying, dropping, clearing and destroying, with generators that throw.",
 "No existing test touches the pool.",
 ["include/crucible/pool.h"],
 [("free list with weak back reference", "include/crucible/pool.h Pool")],
 ["public pool API", "generator and check-in invocations, destructors"])

# ---------------------------------------------------------------- hash table
prop("C11", "Hash index: bounded, never invents entries, no lost or duplicated ones",
 "Looking up a block hash returns only addresses that were recorded for that hash and not erased since, each at most once. Recording a pair makes it findable until it is erased or pushed out by newer pairs in its own bucket, promotion and recording never drop a pair other than the last of a full bucket, and buckets never affect one another. The number of stored pairs never exceeds the configured size.",
 ["histories", "schedules", "configurations"],
 "All sequences of lookup, record, promote and erase from several threads, for every table size and every hash value including zero.",
 "No test builds a hash table; eviction and promotion corner cases need full buckets.",
 ["src/bees-hash.cc", "src/bees.h"],
 [("bucket reordering in push_front / push_random / erase", "src/bees-hash.cc BeesHashTable::push_front_hash_addr, push_random_hash_addr, erase_hash_addr")],
 ["public hash table operations", "hash file contents"])

prop("C12", "Hash index reaches disk: every change is written, none is corrupted",
 "After changes stop and write-back has run, or the daemon has stopped normally, the file holds exactly the table that is in memory (slow-extent marks in unchanged parts aside, which are ignored when read), even when changes were made while an extent was being written or a write failed and was retried. Only changed parts are written, and only at their own position in the file. After a restart every stored pair is found again, and a part that cannot be read is not overwritten with something else by the mere act of reading.",
 ["schedules", "fault_sequences", "crash_points"],
 "All interleavings of table changes with background and final write-back, and all failures of individual reads and writes.",
 "No test runs write-back; losing a change needs an update between the copy and the end of the write.",
 ["src/bees-hash.cc"],
 [("dirty flag per extent", "src/bees-hash.cc BeesHashTable::flush_dirty_extent, set_extent_dirty_locked"), ("writeback loop", "src/bees-hash.cc writeback_loop")],
 ["pwrite/pread on the hash file", "public hash table operations"])

# ---------------------------------------------------------------- persistence
prop("C13", "State files are replaced atomically: a crash leaves the old or the new one",
 "At every instant, and after a crash at any point, the progress file read back is either the complete previous or the complete new contents, never missing once it existed, empty, truncated or mixed. Contents are durable before they replace the old ones whenever the kernel does not give that guarantee itself. A failure to write leaves the previous file in place, and left-over temporary files do not prevent the next save.",
 ["crash_points", "fault_sequences"],
 "Every crash point between any two system calls of a save, any subset of un-synced data lost, any system call failing, on any supported file system.",
 "No test crashes or fails a save.",
 ["src/bees-types.cc", "src/bees-context.cc", "lib/fd.cc"],
 [("temporary file, fsync, rename", "src/bees-types.cc BeesStringFile::write")],
 ["system calls on the home directory"])

prop("C14", "Restart never skips unscanned data",
 "Whatever data was present when a scan pass over its age range began is examined in that pass, or again after restart: a saved restart position, at every instant at which it is saved, does not lie beyond any item whose examination has not finished. This holds for a crash, a clean stop and a pause at every point, in each scan mode and for every worker count. No generation of changes is skipped between consecutive passes, so data added during a pass is examined by the same or a later one.",
 ["crash_points", "schedules", "histories", "configurations"],
 "Every crash or stop point of every interleaving of crawler, workers and save thread over every history of writes, in every scan mode.",
 "No test runs the crawler.",
 ["src/bees-roots.cc", "include/crucible/progress.h"],
 [("hold on crawl state until scan finishes", "src/bees-roots.cc BeesCrawl::hold_state, BeesScanModeExtent, BeesScanModeSubvol"),
  ("transaction windows", "src/bees-roots.cc BeesCrawl::restart_crawl_unlocked")],
 ["saved progress file", "reads of user data", "tree search requests"],
 [("crawl state", "subvol, inode, offset and age window of the scan", "src/bees-roots.cc BeesCrawlState")])

prop("C15", "Saved progress round-trips; the next pass starts at the window just finished",
 "Loading a saved progress file and saving it again preserves each tree's position and window, and old-format files with alternative field names or missing fields load to the documented equivalents. A saved window only moves forward: a new pass over a tree starts at the generation where the previous one's window ended, reaches no further than the newest generation there is, and at rest the saved windows of the subvolume scan modes cover all data in every subvolume that is not excluded. Trees that are deleted are forgotten, new ones are found, and nothing in the file makes the daemon fail, hang, or stop scanning.",
 ["inputs", "histories", "configurations"],
 "Every well-formed progress file, including values at the numeric limits and legacy field names, and every history of subvolume creation and deletion.",
 "No test loads or saves a progress file.",
 ["src/bees-roots.cc"],
 [("parse and print", "src/bees-roots.cc BeesRoots::state_load, state_save, state_to_stream"), ("insert_new_crawl", "src/bees-roots.cc")],
 ["progress file before and after a run", "exit status"])

# ---------------------------------------------------------------- file system effects
prop("C16", "User data never changes",
 "Whatever happens (concurrent writers, I/O errors, races, crashes, hash collisions), the contents, size, ownership, times and names of user files are never altered by the daemon. The daemon modifies user files only by asking the kernel to share identical ranges, and writes data only to its own home directory and to anonymous temporary files. It never creates, renames or deletes a name outside its home directory.",
 ["histories", "schedules", "fault_sequences", "inputs"],
 "Every file system content and every history of concurrent user operations and kernel failures.",
 "No test runs the daemon at all.",
 ["src/bees-context.cc", "src/bees-roots.cc", "src/bees-types.cc", "lib/fs.cc", "lib/fd.cc"],
 [("dedupe only through FIDEDUPERANGE", "src/bees-context.cc BeesContext::dedup"), ("temporary files", "src/bees-context.cc BeesTempFile")],
 ["every mutating system call"])

prop("C17", "Deduplication requests are well-formed and justified",
 "Every request to share two ranges names two non-overlapping ranges of equal, non-zero length, block aligned except where both end at their file's end, inside both files, which are not already the same storage and were both read and found equal byte for byte by the daemon beforehand. No request names the same range twice or overlaps itself, none exceeds the kernel's size limit, and after all requests each file is stored exactly where the granted requests say it is.",
 ["inputs", "histories"],
 "Every layout of extents, holes, compressed and unaligned extents, and every pair of candidate matches.",
 "No test issues a dedupe request.",
 ["src/bees-context.cc", "src/bees-types.cc", "src/bees-resolve.cc", "lib/fs.cc"],
 [("range pair growth and checks", "src/bees-types.cc BeesRangePair::grow"), ("dedup preconditions", "src/bees-context.cc BeesContext::dedup, rewrite_file_range")],
 ["FIDEDUPERANGE requests"])

prop("C18", "Space: temporary copies are bounded, released, and never outgrow what they free",
 "Copies that the daemon makes in temporary files are block-aligned copies of data it has read, are offered for sharing with the file they were copied from (unless another worker changed it meanwhile) before the temporary file is recycled, and are freed when it is recycled, so that at rest no copy is left that only a temporary file holds. A temporary file is never the destination of a request. While nobody else changes the files, the daemon never copies more blocks of an extent than it replaces by duplicates or holes, so an extent whose every block is unique is left untouched and the space used does not grow.",
 ["inputs", "histories"],
 "Every mixture of duplicate, unique and zero blocks within extents, and every number of extents.",
 "No test runs the scanner.",
 ["src/bees-context.cc"],
 [("temporary file pool", "src/bees-context.cc BeesTempFile, BeesContext::tmpfile"), ("copy / zero / keep decision per block", "src/bees-context.cc BeesContext::scan_one_extent")],
 ["writes to temporary files, dedupe requests"])

prop("C19", "Duplicate data ends up shared",
 "When the file system is left alone, the index is large enough and no exclusion applies, then once the daemon has settled, extents which are copies of extents it knew, and parts of such extents (next to fewer blocks of new data than duplicates and zeros), share the storage of the originals block by block, and blocks of zeros and preallocated space in extents with more zeros than data are holes. This holds for each scan mode and worker count (several workers: copies written after the originals were scanned, apart from scans given up because workers met at one file; one worker: also whole copies present from the start), across subvolumes and snapshots, for stored and compressed data and after restarts. Once everything is shared, further passes and restarts ask for no more sharing.",
 ["inputs", "schedules", "configurations"],
 "Every arrangement of duplicate blocks in files and subvolumes, every worker interleaving and scan mode.",
 "No test runs the scanner.",
 ["src/bees-context.cc", "src/bees-hash.cc", "src/bees-resolve.cc", "src/bees-roots.cc"],
 [("scan_one_extent, resolver, range pair growth", "src/bees-context.cc, src/bees-resolve.cc")],
 ["extent maps of the file system after the run"])

prop("C20", "Excluded files are left alone",
 "Files without data checksums or with copy-on-write disabled, files in read-only subvolumes when that workaround is enabled, and the daemon's own index and temporary files never take part in deduplication as destinations, and the no-checksum ones not as sources either. Pre-allocated ranges are only ever given up (replaced by holes), never filled with shared data. The workaround for read-only subvolumes applies to all of a subvolume's files and stops applying when it becomes writable. Exclusion of one file never stops others from being processed.",
 ["inputs", "histories", "configurations"],
 "Every combination of file attributes, subvolume flags and options, changing during the run.",
 "No test runs the scanner.",
 ["src/bees-roots.cc", "src/bees-context.cc"],
 [("attribute check at open", "src/bees-roots.cc BeesRoots::open_root_ino_nocache"), ("is_root_ro", "src/bees-roots.cc"), ("blacklist", "src/bees-context.cc")],
 ["dedupe requests, open calls"])

prop("C21", "Files are opened by identity, never by a path that was swapped underneath",
 "Before a file is used, what was opened is verified to be the requested inode of the requested subvolume of the daemon's own file system; if a rename, replacement, symlink, mount or deletion made the path lead elsewhere the file is not used. Opens of user files never follow symbolic links or cross into other file systems, and never modify access times or contents. A file with several names remains usable as long as one of them leads to it.",
 ["schedules", "histories"],
 "Every interleaving of path lookup with renames, link changes, subvolume deletion and mounts.",
 "No test resolves an inode to a path.",
 ["src/bees-roots.cc", "lib/openat2.cc", "lib/fd.cc"],
 [("identity checks after open", "src/bees-roots.cc BeesRoots::open_root_ino_nocache, open_root_nocache")],
 ["openat2/fstat/ioctl sequence, later reads and dedupes on the descriptor"])

prop("C22", "Metadata searches return every item once, in order, with no gap",
 "Iterating or seeking through a tree, forwards or backwards and however the items are spread over result buffers and transaction ids, visits exactly the items of the requested kind in range that a complete listing would show. The nearest-item queries return the true neighbour or report that there is none. Extent walks describe a file without gaps or overlaps from its start to its end, with holes, inline, compressed and pre-allocated ranges identified as such.",
 ["inputs", "histories"],
 "Every tree contents, object spacing, buffer boundary and query position, including the numeric limits.",
 "test/seeker.cc checks the backward search on a few vectors; nothing tests the tree fetchers or extent walker.",
 ["lib/btrfs-tree.cc", "lib/extentwalker.cc", "include/crucible/seeker.h", "lib/fs.cc"],
 [("fetcher lookups", "lib/btrfs-tree.cc BtrfsTreeObjectFetcher"), ("backward seek", "include/crucible/seeker.h seek_backward"), ("extent walk", "lib/extentwalker.cc")],
 ["public fetcher and walker API over a simulated kernel"])

prop("C23", "Stop and pause signals take effect, cleanly and without hanging",
 "After a termination signal at any moment the daemon stops starting new work, saves its progress and index, and exits with success status in bounded time, whatever workers, crawlers or throttles were doing. While paused by signal no new file system work is started, and resuming continues where it stopped. A second signal, or a signal during start-up, does not cause a crash or a hang.",
 ["schedules", "crash_points"],
 "Every delivery time of every sequence of control signals relative to every thread.",
 "No test runs the daemon.",
 ["src/bees-context.cc", "src/bees.cc", "src/bees-roots.cc", "src/bees-hash.cc", "lib/task.cc"],
 [("ordered stop", "src/bees-context.cc BeesContext::stop"), ("signal wait", "src/bees-context.cc BeesContext::start, wait_for_quit")],
 ["exit status, final writes, system calls after the signal"])

prop("C24", "Slow or over-referenced extents are recognised and avoided",
 "A file is used as the source of a deduplication only if a reverse lookup of an indexed block has named it, in the same run, without taking too long, failing, or returning more references than the supported maximum. A block whose lookup through the index took too long is not used as duplicate source again in that run. A failed, empty or slow lookup never leads to deduplication against whatever occupies that address.",
 ["inputs", "fault_sequences", "histories"],
 "Every distribution of reference counts and lookup times and every failure of a lookup.",
 "No test performs a reverse lookup.",
 ["src/bees-context.cc", "src/bees-resolve.cc"],
 [("toxic marking", "src/bees-context.cc BeesContext::resolve_addr_uncached, src/bees-resolve.cc")],
 ["reverse lookup requests and results, dedupe requests, index contents"])

prop("C25", "Block addresses and ranges: encoding is lossless and arithmetic is exact",
 "Every address with any combination of its flags (zero, compressed with offset, unaligned end, toxic, special) reads back exactly as stored and compares consistently, and different storage positions never compare equal. File ranges grow, shrink and intersect exactly, never past zero or the file's end, and a pair of ranges keeps both sides the same length. Parsing of hexadecimal numbers inverts printing them.",
 ["inputs"],
 "All 64-bit addresses, flags, offsets and lengths.",
 "No test covers the address and range types.",
 ["src/bees-types.cc", "src/bees.h"],
 [("BeesAddress, BeesFileRange, BeesRangePair", "src/bees-types.cc")],
 ["public operations of the types"])

prop("C26", "Rate limiting and estimation are accurate and always finish",
 "Over any period a rate limiter lets through no more than its burst plus rate times elapsed time (and one request in progress per client), no request waits longer than it takes to earn the requests made so far, and a wall clock set back delays nobody. A waiter for a count of the estimator returns only when the count has been reached or was reset backwards, and every waiter whose count is reached wakes, whatever the clock does; predicted delays stay within the configured limits. Counts reported with monotonic updates never go backwards, whichever order concurrent updates arrive in.",
 ["schedules", "histories"],
 "Every sequence of updates and clock readings, including clock steps of zero and backwards, from any number of threads.",
 "No existing test covers the rate classes.",
 ["lib/time.cc", "include/crucible/time.h"],
 [("token bucket", "lib/time.cc RateLimiter"), ("decaying estimate", "lib/time.cc RateEstimator")],
 ["public API with a virtual clock"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
