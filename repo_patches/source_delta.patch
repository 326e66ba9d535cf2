From bca500222e4d0ccabf5228280eefdfbf4a9111d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:12 +0000
Subject: [PATCH 01/19] fix: task: don't self-deadlock when a Task is queued
 after TaskMaster::cancel

Task::run() and Task::idle() hold the task's mutex while calling push_back,
and push_back called TaskState::clear() after a cancel, which locks the same
mutex again.  Let the caller clear the task after releasing its lock.
push_front destroyed tasks while holding the TaskMaster lock, which deadlocks
if a destroyed task holds the last reference to something that queues a task.
---
 lib/task.cc | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/lib/task.cc b/lib/task.cc
index 2507285..fbb436e 100644
--- a/lib/task.cc
+++ b/lib/task.cc
@@ -202,8 +202,9 @@ namespace crucible {
 		~TaskMasterState();
 		TaskMasterState(size_t thread_max = thread::hardware_concurrency());
 
-		static void push_back(const TaskStatePtr &task);
-		static void push_back_idle(const TaskStatePtr &task);
+		/// Queue a task.  Returns false if all tasks have been cancelled.
+		static bool push_back(const TaskStatePtr &task);
+		static bool push_back_idle(const TaskStatePtr &task);
 		static void push_front(TaskQueue &queue);
 		size_t get_queue_count();
 		size_t get_thread_count();
@@ -425,8 +426,9 @@ namespace crucible {
 		m_run_now = true;
 		if (m_is_running) {
 			m_run_again = true;
-		} else {
-			TaskMasterState::push_back(shared_from_this());
+		} else if (!TaskMasterState::push_back(shared_from_this())) {
+			lock.unlock();
+			clear();
 		}
 	}
 
@@ -441,8 +443,9 @@ namespace crucible {
 		m_run_now = true;
 		if (m_is_running) {
 			m_run_again = true;
-		} else {
-			TaskMasterState::push_back_idle(shared_from_this());
+		} else if (!TaskMasterState::push_back_idle(shared_from_this())) {
+			lock.unlock();
+			clear();
 		}
 	}
 
@@ -475,32 +478,34 @@ namespace crucible {
 		}
 	}
 
-	void
+	bool
 	TaskMasterState::push_back(const TaskStatePtr &task)
 	{
 		THROW_CHECK0(runtime_error, task);
 		unique_lock<mutex> lock(s_tms->m_mutex);
 		if (s_tms->m_cancelled) {
-			task->clear();
-			return;
+			// Caller holds the task's lock, so caller has to clear the task
+			return false;
 		}
 		s_tms->m_queue.push_back(task);
 		s_tms->m_condvar.notify_all();
 		s_tms->start_threads_nolock();
+		return true;
 	}
 
-	void
+	bool
 	TaskMasterState::push_back_idle(const TaskStatePtr &task)
 	{
 		THROW_CHECK0(runtime_error, task);
 		unique_lock<mutex> lock(s_tms->m_mutex);
 		if (s_tms->m_cancelled) {
-			task->clear();
-			return;
+			// Caller holds the task's lock, so caller has to clear the task
+			return false;
 		}
 		s_tms->m_idle_queue.push_back(task);
 		s_tms->m_condvar.notify_all();
 		s_tms->start_threads_nolock();
+		return true;
 	}
 
 	void
@@ -511,6 +516,8 @@ namespace crucible {
 		}
 		unique_lock<mutex> lock(s_tms->m_mutex);
 		if (s_tms->m_cancelled) {
+			// Destroying tasks may destroy or queue other tasks, so don't hold the lock
+			lock.unlock();
 			TaskState::clear_queue(queue);
 			return;
 		}
-- 
2.43.0


From 0b9133a5edfe83dc4414ba2b78abcefdac636a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:14 +0000
Subject: [PATCH 02/19] fix: task: restart workers when more of them exit than
 necessary

A worker which decides to exit remains in m_threads until it has rescued its
local queue, so when the pool is resumed or the thread count changes during
that time, all workers can exit at once with tasks still queued, and nothing
starts new ones until the next task is queued.
---
 lib/task.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/task.cc b/lib/task.cc
index fbb436e..b533da8 100644
--- a/lib/task.cc
+++ b/lib/task.cc
@@ -946,6 +946,14 @@ namespace crucible {
 		// Fun fact:  shared_from_this() isn't usable until the constructor returns...
 		master_copy->m_threads.erase(shared_from_this());
 		master_copy->m_condvar.notify_all();
+
+		// The thread count may have been raised or the pause lifted
+		// after we decided to exit, and more threads than necessary may
+		// have decided to exit at the same time.  Nobody else will replace
+		// them until the next Task is queued.
+		if (!master_copy->m_queue.empty() || !master_copy->m_idle_queue.empty()) {
+			master_copy->start_threads_nolock();
+		}
 	}
 
 	TaskConsumer::TaskConsumer(const shared_ptr<TaskMasterState> &tms) :
-- 
2.43.0


From a8830b550326328e8dcd09bb61cd25e618ef9ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:40 +0000
Subject: [PATCH 03/19] fix: time: wake RateEstimator waiters whenever the
 count changes

---
 lib/time.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/time.cc b/lib/time.cc
index 4f991e5..cdcf8ab 100644
--- a/lib/time.cc
+++ b/lib/time.cc
@@ -197,9 +197,10 @@ namespace crucible {
 		auto delta = max(0.0, m_last_update.lap());
 		m_num += increment;
 		m_den += delta;
+		const bool count_changed = new_count != m_last_count;
 		m_last_count = new_count;
-		// If count increased, wake up any waiters
-		if (delta > 0) {
+		// If count changed, wake up any waiters
+		if (count_changed) {
 			m_condvar.notify_all();
 		}
 	}
-- 
2.43.0


From fcd293fb703c6809056e43fc999bf3d8665caceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:44 +0000
Subject: [PATCH 04/19] fix: time: don't let RateLimiter charge a backward
 clock step to its users

---
 lib/time.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/time.cc b/lib/time.cc
index cdcf8ab..d0bacbb 100644
--- a/lib/time.cc
+++ b/lib/time.cc
@@ -113,7 +113,8 @@ namespace crucible {
 	void
 	RateLimiter::update_tokens()
 	{
-		double delta = m_timer.lap();
+		// The clock can be set back.  Do not charge that to the users of the limiter.
+		double delta = max(0.0, m_timer.lap());
 		m_tokens += delta * m_rate;
 		if (m_tokens > m_burst) {
 			m_tokens = m_burst;
-- 
2.43.0


From 6abefffeb96b2492bb310fb6e22985c3599fdedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:51 +0000
Subject: [PATCH 05/19] fix: extentwalker: detect EOF in the last inode of a
 subvolume

When a file ends with an implicit hole (no-holes) and has the highest inode
number in its subvol, no later item proves that the last extent has been
seen, so the walker threw an exception at EOF and the file was never scanned.
---
 lib/extentwalker.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/extentwalker.cc b/lib/extentwalker.cc
index e1d47bc..41ed7a2 100644
--- a/lib/extentwalker.cc
+++ b/lib/extentwalker.cc
@@ -628,6 +628,16 @@ namespace crucible {
 			}
 		}
 
+		// If this is the last inode in the tree, there is no later object to tell us we have
+		// seen all the extents of the file.  A short result might only mean the result buffer
+		// was full, so make sure there is really nothing after the last item.
+		if (!past_eof && !rv.empty() && sk.m_result.size() < sc_extent_fetch_max) {
+			sk.next_min(*sk.m_result.rbegin());
+			sk.nr_items = 1;
+			sk.do_ioctl(m_root_fd);
+			past_eof = sk.m_result.empty() || sk.m_result.begin()->objectid > m_stat.st_ino;
+		}
+
 		// Plug a hole at EOF
 		if (past_eof && !rv.empty()) {
 			rv.rbegin()->m_flags |= FIEMAP_EXTENT_LAST;
-- 
2.43.0


From ecbfe10a67c7fca86093cfce5f06906de9e60871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:28 +0000
Subject: [PATCH 06/19] fix: roots: scan each inode with the pass that found
 it, and hold the crawl until it is scanned

crawl_one_inode sampled the crawl state before pop_front().  When pop_front()
finished one pass and started the next one, the first inode of the new pass was
scanned with the transid window of the old pass, so its new extents were
skipped.  The hold was taken on the state past the inode (or not at all until
the task was created), so a checkpoint could move past an inode that had not
been scanned, and a restart would never come back to it.
---
 src/bees-roots.cc | 29 ++++++++++++++++-------------
 src/bees.h        |  4 +++-
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/bees-roots.cc b/src/bees-roots.cc
index b3025d0..8a16093 100644
--- a/src/bees-roots.cc
+++ b/src/bees-roots.cc
@@ -174,13 +174,16 @@ BeesScanModeSubvol::get_crawl_map()
 bool
 BeesScanModeSubvol::crawl_one_inode(const shared_ptr<BeesCrawl>& this_crawl)
 {
-	const auto this_state = this_crawl->get_state_end();
-	BEESNOTE("Crawling inode " << this_state);
-	BEESTRACE("Crawling inode " << this_state);
-	const auto this_range = this_crawl->pop_front();
+	// The hold's state is the pass that found this inode.  The crawl's end state
+	// is already past this inode, and may be in a different pass.
+	ProgressTracker<BeesCrawlState>::ProgressHolder this_hold;
+	const auto this_range = this_crawl->pop_front(this_hold);
 	if (!this_range) {
 		return false;
 	}
+	const auto this_state = this_hold->get();
+	BEESNOTE("Crawling inode " << this_state);
+	BEESTRACE("Crawling inode " << this_state);
 	const auto subvol = this_range.fid().root();
 	const auto inode = this_range.fid().ino();
 	bool run_the_task = false;
@@ -200,17 +203,12 @@ BeesScanModeSubvol::crawl_one_inode(const shared_ptr<BeesCrawl>& this_crawl)
 		ostringstream oss;
 		oss << "crawl_" << subvol << "_" << inode;
 		const auto task_title = oss.str();
-		// this_state.m_objectid was advanced to inode+1 by peek_front()->fetch_extents().
-		// Fix: use the actual inode from this_range so BtrfsExtentDataFetcher finds
-		// the correct inode (exact-match search).
-		auto bfc_state = this_state;
-		bfc_state.m_objectid = inode;
 		const auto bfc = make_shared<BeesFileCrawl>((BeesFileCrawl) {
 			.m_ctx = m_ctx,
 			.m_crawl = this_crawl,
 			.m_roots = m_roots,
-			.m_hold = this_crawl->hold_state(this_state),
-			.m_state = bfc_state,
+			.m_hold = this_hold,
+			.m_state = this_state,
 			.m_offset = this_range.begin(),
 		});
 		BEESNOTE("Starting task " << this_range);
@@ -2473,8 +2471,11 @@ BeesCrawl::fetch_extents()
 		return restart_crawl_unlocked();
 	}
 	auto new_state = old_state;
-	new_state.m_objectid = max(m_next_extent_data.objectid() + m_btof.scale_size(), m_next_extent_data.objectid());
 	new_state.m_offset = 0;
+	// Don't let the checkpoint move past this object before it is scanned
+	new_state.m_objectid = m_next_extent_data.objectid();
+	m_next_hold = hold_state(new_state);
+	new_state.m_objectid = max(m_next_extent_data.objectid() + m_btof.scale_size(), m_next_extent_data.objectid());
 	set_state(new_state);
 	return true;
 }
@@ -2516,12 +2517,14 @@ BeesCrawl::peek_front()
 }
 
 BeesFileRange
-BeesCrawl::pop_front()
+BeesCrawl::pop_front(ProgressTracker<BeesCrawlState>::ProgressHolder &hold)
 {
 	unique_lock<mutex> lock(m_mutex);
 	fetch_extents_harder();
 	BtrfsTreeItem rv;
 	swap(rv, m_next_extent_data);
+	hold = move(m_next_hold);
+	m_next_hold.reset();
 	return bti_to_bfr(rv);
 }
 
diff --git a/src/bees.h b/src/bees.h
index 7c0cfca..01c601b 100644
--- a/src/bees.h
+++ b/src/bees.h
@@ -524,6 +524,8 @@ class BeesCrawl {
 
 	mutex					m_mutex;
 	BtrfsTreeItem				m_next_extent_data;
+	/// Holds the crawl at m_next_extent_data until its inode is scanned
+	ProgressTracker<BeesCrawlState>::ProgressHolder m_next_hold;
 	bool					m_deferred = false;
 	bool					m_finished = false;
 
@@ -540,7 +542,7 @@ class BeesCrawl {
 public:
 	BeesCrawl(shared_ptr<BeesContext> ctx, BeesCrawlState initial_state);
 	BeesFileRange peek_front();
-	BeesFileRange pop_front();
+	BeesFileRange pop_front(ProgressTracker<BeesCrawlState>::ProgressHolder &hold);
 	ProgressTracker<BeesCrawlState>::ProgressHolder hold_state(const BeesCrawlState &bcs);
 	BeesCrawlState get_state_begin();
 	BeesCrawlState get_state_end() const;
-- 
2.43.0


From 08ab2ebc4da928ed0cbc93aa80ab40fe1fe15285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 07/19] fix: BeesRangePair::grow: look at the block being
 added, not the first one

While extending a pair forward, the check that permits a zero source block
only in holes and compressed extents looked at the address of the first block
of the range instead of the address of the block that is about to be added.
A copy made of an extent that contains zero blocks was therefore shared with
the original only up to the first hole: the rest of the copy was thrown away,
the original extent stayed allocated, and more space was used than before.
---
 src/bees-types.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bees-types.cc b/src/bees-types.cc
index 665f20d..2f26a80 100644
--- a/src/bees-types.cc
+++ b/src/bees-types.cc
@@ -523,7 +523,7 @@ BeesRangePair::grow(shared_ptr<BeesContext> ctx, bool constrained)
 		}
 
 		// Source block cannot be zero in a non-compressed non-magic extent
-		BeesAddress first_addr(first.fd(), new_first.begin());
+		BeesAddress first_addr(first.fd(), first.end());
 		if (first_bbd.is_data_zero() && !first_addr.is_magic() && !first_addr.is_compressed()) {
 			BEESCOUNT(pairforward_zero);
 			break;
-- 
2.43.0


From 598b299205e17d77b039a784c9e1bc0e174de2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:23 +0000
Subject: [PATCH 08/19] fix: roots: scan an extent again after finding it
 locked by another task

When an extent's lock was held by another task, the inode crawl was to be
restarted at that extent, but the file position had already moved past it,
so this reference to the extent was skipped, never deduplicated, and any
part of the extent that only this reference covers was never scanned.
---
 src/bees-roots.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bees-roots.cc b/src/bees-roots.cc
index 8a16093..87c5be6 100644
--- a/src/bees-roots.cc
+++ b/src/bees-roots.cc
@@ -1733,6 +1733,10 @@ BeesFileCrawl::scan_one_ref()
 						m_hold = new_holder;
 					} else {
 						BEESCOUNT(crawl_again);
+						// Come back to this extent.  The task that holds its lock will
+						// reschedule us, as above for inode_mutex.
+						m_offset = bfr.begin();
+						return false;
 					}
 				}
 			} else {
-- 
2.43.0


From ac947b32135da28e5acd1461312b1e6333898675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:20 +0000
Subject: [PATCH 09/19] fix: roots: do not restart the same crawl forever when
 its age range is inverted

A progress file whose max_transid is less than its min_transid (for example
one written before the filesystem was restored from an older image) made the
next crawl start behind the current one.  The crawl position cannot move
backwards, so the crawler restarted the same crawl in a busy loop.
---
 src/bees-roots.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/bees-roots.cc b/src/bees-roots.cc
index 87c5be6..79fdae0 100644
--- a/src/bees-roots.cc
+++ b/src/bees-roots.cc
@@ -1844,8 +1844,13 @@ BeesRoots::insert_root(const BeesCrawlState &new_bcs)
 {
 	unique_lock<mutex> lock(m_mutex);
 	if (!m_root_crawl_map.count(new_bcs.m_root)) {
-		auto new_bcp = make_shared<BeesCrawl>(m_ctx, new_bcs);
-		auto new_pair = make_pair(new_bcs.m_root, new_bcp);
+		// The next crawl after this one starts at max_transid.  If that was less than
+		// min_transid, the crawl position would move backwards, which is not possible,
+		// so the crawler would restart the same crawl forever.
+		auto bcs = new_bcs;
+		bcs.m_min_transid = min(bcs.m_min_transid, bcs.m_max_transid);
+		auto new_bcp = make_shared<BeesCrawl>(m_ctx, bcs);
+		auto new_pair = make_pair(bcs.m_root, new_bcp);
 		m_root_crawl_map.insert(new_pair);
 		++m_crawl_dirty;
 	}
-- 
2.43.0


From abff77a742ec1bbcc0e5aa6e6c458abdc879eb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:37 +0000
Subject: [PATCH 10/19] fix: roots: find new subvols when all known ones are
 isolated by the send workaround

With --workaround-btrfs-send, transid_min threw an exception when every
subvol that had a crawler was read-only or deleted (e.g. a progress file that
has no line for a subvol that is still there).  That happened on every poll,
so no crawler was ever created for the other subvols.
---
 src/bees-roots.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bees-roots.cc b/src/bees-roots.cc
index 79fdae0..e27138c 100644
--- a/src/bees-roots.cc
+++ b/src/bees-roots.cc
@@ -1586,6 +1586,12 @@ BeesRoots::transid_min()
 		});
 		last_root = i.first;
 	}
+	// If all of the known subvols are isolated, they are still the best estimate for any that are not known yet.
+	if (rv == max_rv) {
+		for (const auto &i : m_root_crawl_map) {
+			rv = min(rv, i.second->get_state_end().m_min_transid);
+		}
+	}
 	// If we get through this loop without setting rv, we'll create broken crawlers due to integer overflow.
 	THROW_CHECK2(runtime_error, rv, max_rv, max_rv > rv);
 	return rv;
-- 
2.43.0


From 1ca1cec5d951c3b0a235adab1aa423117a49fafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:45 +0000
Subject: [PATCH 11/19] fix: context: resolve an extent again before replacing
 the rest of it with a copy

scan_one_extent may have deduped other blocks of the extent just before.  If
another thread resolved the extent while that was in progress, the cache has
references that do not exist any more: none of them matched, the copy was
thrown away, and the original extent was never freed.
---
 src/bees-context.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bees-context.cc b/src/bees-context.cc
index e351ed0..a193f33 100644
--- a/src/bees-context.cc
+++ b/src/bees-context.cc
@@ -300,7 +300,10 @@ BeesContext::rewrite_file_range(const BeesFileRange &bfr)
 	BeesBlockData dup_bbd(dup_brp.first.fd(), dup_brp.first.begin(), min(BLOCK_SIZE_SUMS, dup_brp.first.size()));
 	// BEESLOG("BeesResolver br(..., " << bfr << ")");
 	BEESTRACE("BeesContext::rewrite_file_range calling BeesResolver " << bfr);
-	BeesResolver br(m_ctx, BeesAddress(bfr.fd(), bfr.begin()));
+	const BeesAddress bfr_addr(bfr.fd(), bfr.begin());
+	// Other references to this extent may have been replaced since another thread resolved it
+	m_ctx->invalidate_addr(bfr_addr);
+	BeesResolver br(m_ctx, bfr_addr);
 	BEESTRACE("BeesContext::rewrite_file_range calling replace_src " << dup_bbd);
 	// BEESLOG("\treplace_src " << dup_bbd);
 	br.replace_src(dup_bbd);
-- 
2.43.0


From 061df4b94c3f6b7bf557998ae9ba63e2ad52f792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:45 +0000
Subject: [PATCH 12/19] fix: try an inode's other names when one leads to a
 different object

open_root_ino_nocache gave up on a file as soon as one of its names had
been taken over by something else between the path lookup and the open,
although another of its names still led to it.
---
 src/bees-roots.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bees-roots.cc b/src/bees-roots.cc
index e27138c..8bc10eb 100644
--- a/src/bees-roots.cc
+++ b/src/bees-roots.cc
@@ -2266,7 +2266,7 @@ BeesRoots::open_root_ino_nocache(uint64_t root, uint64_t ino)
 			BEESLOGWARN("Opening " << name_fd(root_fd) << "/" << file_path << " found wrong inode " << file_stat.st_ino << " instead of " << ino);
 			rv = Fd();
 			BEESCOUNT(open_wrong_ino);
-			break;
+			continue;
 		}
 
 		// Correct root?
@@ -2275,7 +2275,7 @@ BeesRoots::open_root_ino_nocache(uint64_t root, uint64_t ino)
 			BEESLOGWARN("Opening " << name_fd(root_fd) << "/" << file_path << " found wrong root " << file_root << " instead of " << root);
 			rv = Fd();
 			BEESCOUNT(open_wrong_root);
-			break;
+			continue;
 		}
 
 		// Same filesystem?
@@ -2284,7 +2284,7 @@ BeesRoots::open_root_ino_nocache(uint64_t root, uint64_t ino)
 			BEESLOGWARN("Opening root " << name_fd(root_fd) << " path " << file_path << " found path st_dev " << file_stat.st_dev << " but root st_dev is " << root_stat.st_dev);
 			rv = Fd();
 			BEESCOUNT(open_wrong_dev);
-			break;
+			continue;
 		}
 
 		// The kernel rejects dedupe requests with
-- 
2.43.0


From f4bed17e5e7d03dfa850c11a0a081b9a0c790a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:48 +0000
Subject: [PATCH 13/19] fix: hash table: do not lose changes made while an
 extent is being written

flush_dirty_extent cleared the dirty flag after the write, so a change made
to the extent after it was copied and before the write finished was never
written.
---
 src/bees-hash.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/bees-hash.cc b/src/bees-hash.cc
index 7581fe1..02638f3 100644
--- a/src/bees-hash.cc
+++ b/src/bees-hash.cc
@@ -119,6 +119,10 @@ BeesHashTable::flush_dirty_extent(uint64_t extent_index)
 		// Copy the extent because we might be stuck writing for a while
 		ByteVector extent_copy(dirty_extent, dirty_extent_end);
 
+		// The copy has everything so far.  Changes made during the
+		// write are not in the copy, and make the extent dirty again.
+		m_extent_metadata.at(extent_index).m_dirty = false;
+
 		// Release the lock
 		lock.unlock();
 
@@ -130,13 +134,17 @@ BeesHashTable::flush_dirty_extent(uint64_t extent_index)
 		// const size_t dirty_extent_size   = dirty_extent_end - dirty_extent;
 		// bees_unreadahead(m_fd, dirty_extent_offset, dirty_extent_size);
 
-		// Mark extent clean if write was successful
-		lock.lock();
-		m_extent_metadata.at(extent_index).m_dirty = false;
-
 		wrote_extent = true;
 	});
 
+	// If write was not successful, extent is still dirty
+	if (!wrote_extent) {
+		if (!lock) {
+			lock.lock();
+		}
+		m_extent_metadata.at(extent_index).m_dirty = true;
+	}
+
 	return wrote_extent;
 }
 
-- 
2.43.0


From 51ba49c58d0aa00fa6d70cb7e40f7eb72e59b422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:48 +0000
Subject: [PATCH 14/19] fix: hash table: do not divide by zero when stopped
 before the table is analyzed

A stop request arriving just before the first extent of an analysis pass left
total_count at zero, and the statistics then killed the process before the
hash table was written out.
---
 src/bees-hash.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bees-hash.cc b/src/bees-hash.cc
index 02638f3..4fc86a0 100644
--- a/src/bees-hash.cc
+++ b/src/bees-hash.cc
@@ -347,7 +347,7 @@ BeesHashTable::prefetch_loop()
 		graph_blob << "Kernel:  " << uname.sysname << " " << uname.release << " " << uname.machine << " " << uname.version << "\n";
 
 		graph_blob
-			<< "\nHash table page occupancy histogram (" << occupied_count << "/" << total_count << " cells occupied, " << (occupied_count * 100 / total_count) << "%)\n"
+			<< "\nHash table page occupancy histogram (" << occupied_count << "/" << total_count << " cells occupied, " << percent(occupied_count, total_count) << ")\n"
 			<< out.str() << "0%      |      25%      |      50%      |      75%      |   100% page fill\n"
 			<< "compressed " << compressed_count << " (" << percent(compressed_count, occupied_count) << ")\n"
 			<< "uncompressed " << uncompressed_count << " (" << percent(uncompressed_count, occupied_count) << ")"
-- 
2.43.0


From e20806a81e55568f15cd032d3e063b28106e9160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:56 +0000
Subject: [PATCH 15/19] fix: fs: search: use the 64K buffer for items that do
 not fit in 16K

The loop which increases the size of the result buffer stopped before it
used the largest one, and then returned the buffer of the last failed
attempt as if it was the result of the search.
---
 lib/fs.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/fs.cc b/lib/fs.cc
index 356d803..b3bc659 100644
--- a/lib/fs.cc
+++ b/lib/fs.cc
@@ -771,6 +771,7 @@ namespace crucible {
 		size_t buf_size = max(m_buf_size, sizeof(btrfs_ioctl_search_args_v2) + sizeof(btrfs_ioctl_search_header));
 		ByteVector ioctl_arg;
 		btrfs_ioctl_search_args_v2 *ioctl_ptr;
+		bool overflow = false;
 		do {
 			// ioctl buffer size does not include search key header or buffer size
 			ioctl_arg = ByteVector(buf_size + sizeof(btrfs_ioctl_search_args_v2));
@@ -786,11 +787,14 @@ namespace crucible {
 			if (rv != 0 && errno == ENOENT) {
 				// If we are searching a tree that is deleted or no longer exists, just return an empty list
 				ioctl_ptr->key.nr_items = 0;
+				overflow = false;
 				break;
 			}
 			if (rv != 0 && errno != EOVERFLOW) {
 				return false;
 			}
+			// The first item does not fit in the buffer, so there is no result
+			overflow = rv != 0;
 			if (rv == 0 && nr_items <= ioctl_ptr->key.nr_items) {
 				// got all the items we wanted, thanks
 				m_buf_size = max(m_buf_size, buf_size);
@@ -813,7 +817,11 @@ namespace crucible {
 			if (ioctl_ptr->key.nr_items == 0) {
 				++s_loops_empty;
 			}
-		} while (buf_size < 65536);
+		} while (buf_size < 65536 || (overflow && buf_size == 65536));
+		if (overflow) {
+			errno = EOVERFLOW;
+			return false;
+		}
 
 		// ioctl changes nr_items, this has to be copied back
 		static_cast<btrfs_ioctl_search_key&>(*this) = ioctl_ptr->key;
-- 
2.43.0


From 743b13307bcdce3a709f16d60bd3fdf0f11d66ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:56 +0000
Subject: [PATCH 16/19] fix: extentwalker: don't seek to the beginning of a
 hole that isn't there in prev()

The first extent in the cache can be a hole made of the rest of an extent
which begins before the cached range.  Seeking to its beginning finds that
extent, and the consistency check that follows throws an exception.
---
 lib/extentwalker.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/extentwalker.cc b/lib/extentwalker.cc
index 41ed7a2..92930ee 100644
--- a/lib/extentwalker.cc
+++ b/lib/extentwalker.cc
@@ -447,16 +447,16 @@ namespace crucible {
 	{
 		EWTRACE("prev");
 		THROW_CHECK1(invalid_argument, (m_current != m_extents.end()), m_current != m_extents.end());
-		auto prev_iter = m_current;
-		if (prev_iter->m_begin == 0) {
+		if (m_current->m_begin == 0) {
 			EWTRACE("prev BOF");
 			return false;
 		}
-		THROW_CHECK1(invalid_argument, (prev_iter != m_extents.begin()), prev_iter != m_extents.begin());
-		--prev_iter;
-		EWTRACE("prev seeking to " << *prev_iter << "->m_begin");
+		// The first extent in the cache might not be real (it can be a hole where we started
+		// in the middle of an extent), so don't seek to its beginning.  The block before this
+		// extent must be the last block of the previous one.
 		auto prev_end = current().m_begin;
-		seek(prev_iter->m_begin);
+		EWTRACE("prev seeking before " << to_hex(prev_end));
+		seek((prev_end - 1) & ~(FIEMAP_BLOCK_SIZE - 1));
 		THROW_CHECK1(runtime_error, (m_current != m_extents.end()), m_current != m_extents.end());
 		THROW_CHECK2(runtime_error, current().m_end, prev_end, current().m_end == prev_end);
 		return true;
-- 
2.43.0


From b769fcd5e9f6595949b5410eff4c7b6904586f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:56 +0000
Subject: [PATCH 17/19] fix: btrfs-tree: there is nothing after the highest
 position

With a scale size of 1, next() of the highest position wrapped around and
returned the first item.
---
 lib/btrfs-tree.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/btrfs-tree.cc b/lib/btrfs-tree.cc
index 2e19a0d..29bc6c4 100644
--- a/lib/btrfs-tree.cc
+++ b/lib/btrfs-tree.cc
@@ -498,7 +498,7 @@ namespace crucible {
 	{
 		CRUCIBLE_BTRFS_TREE_DEBUG("next " << logical);
 		const auto scaled_logical = scale_logical(logical);
-		if (scaled_logical + 1 > scaled_max_logical()) {
+		if (scaled_logical >= scaled_max_logical()) {
 			return BtrfsTreeItem();
 		}
 		return lower_bound(unscale_logical(scaled_logical + 1));
-- 
2.43.0


From 684762669ecbc79a585562f70c79f537bdd7bc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:56 +0000
Subject: [PATCH 18/19] fix: btrfs-tree: get_sums: find sums in ranges that
 start before the first one

---
 lib/btrfs-tree.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/btrfs-tree.cc b/lib/btrfs-tree.cc
index 29bc6c4..1a8b516 100644
--- a/lib/btrfs-tree.cc
+++ b/lib/btrfs-tree.cc
@@ -599,6 +599,10 @@ namespace crucible {
 	#endif
 		const uint64_t logical_end = logical + count * block_size();
 		BtrfsTreeItem bti = rlower_bound(logical);
+		if (!bti) {
+			// Nothing at or below the beginning of the range, look at the first item above
+			bti = lower_bound(logical);
+		}
 		size_t __attribute__((unused)) loops = 0;
 		BCTFGS_DEBUG("get_sums " << to_hex(logical) << ".." << to_hex(logical_end) << endl);
 		while (!!bti) {
-- 
2.43.0


From 70a2e572482029a31d1e7fc16eb3910dffbf3703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:14 +0000
Subject: [PATCH 19/19] fix: scan: keep the parts of a match on either side of
 a shorter one

When a match was cut down to what an earlier one left of it, a later
match that covers it completely lost everything behind its beginning (or
was dropped), and known duplicate blocks were copied instead of shared:
the branch for matches on both sides of another could not be reached, and
computed the size of its right part with the wrong sign.
---
 src/bees-context.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bees-context.cc b/src/bees-context.cc
index a193f33..e86108b 100644
--- a/src/bees-context.cc
+++ b/src/bees-context.cc
@@ -666,7 +666,7 @@ BeesContext::scan_one_extent(const BeesFileRange &bfr, const Extent &e)
 				break;
 			}
 			// i begins outside j, i ends inside j, remove the end of i
-			if (i.second.end() > j.second.begin() && i.second.begin() <= j.second.begin()) {
+			if (i.second.end() <= j.second.end() && i.second.begin() <= j.second.begin()) {
 				const auto delta = i.second.end() - j.second.begin();
 				if (delta == i.second.size()) {
 					insert_i = false;
@@ -676,7 +676,7 @@ BeesContext::scan_one_extent(const BeesFileRange &bfr, const Extent &e)
 				continue;
 			}
 			// i begins inside j, ends outside j, remove the begin of i
-			if (i.second.begin() < j.second.end() && i.second.end() >= j.second.end()) {
+			if (i.second.begin() >= j.second.begin() && i.second.end() >= j.second.end()) {
 				const auto delta = j.second.end() - i.second.begin();
 				if (delta == i.second.size()) {
 					insert_i = false;
@@ -689,7 +689,7 @@ BeesContext::scan_one_extent(const BeesFileRange &bfr, const Extent &e)
 			if (j.second.begin() > i.second.begin() && j.second.end() < i.second.end()) {
 				auto other_i = i;
 				const auto end_left_delta = i.second.end() - j.second.begin();
-				const auto begin_right_delta = i.second.begin() - j.second.end();
+				const auto begin_right_delta = j.second.end() - i.second.begin();
 				i.shrink_end(end_left_delta);
 				other_i.shrink_begin(begin_right_delta);
 				dedupe_list.push_back(other_i);
-- 
2.43.0

