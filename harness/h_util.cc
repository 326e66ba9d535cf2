// Random concurrent programs over the small shared-state classes of the library: progress tracker, cache,
// named pointers and file handles, lock services, object pool, rate estimator.
// Compiled with memory accesses as schedule points, because most of these classes are header templates.
#include "runner.h"
#include "crucible/progress.h"
#include "crucible/cache.h"
#include "crucible/namedptr.h"
#include "crucible/fd.h"
#include "crucible/lockset.h"
#include "crucible/multilock.h"
#include "crucible/pool.h"
#include "crucible/time.h"
#include <memory>
#include <thread>
#include <map>
#include <set>
#include <stdexcept>
#include <dlfcn.h>
using namespace std;
using namespace crucible;

static void call(const char *op, long a = 0, long b = 0) { vs_logf("{\"e\":\"c\",\"th\":%d,\"op\":\"%s\",\"a\":%ld,\"b\":%ld}", vs_tid(), op, a, b); }
static void ret(const char *op, long a = 0, long r = 0) { vs_logf("{\"e\":\"r\",\"th\":%d,\"op\":\"%s\",\"a\":%ld,\"r\":%ld}", vs_tid(), op, a, r); }
static void ev(const char *e, long a = 0, long b = 0) { vs_logf("{\"e\":\"%s\",\"th\":%d,\"a\":%ld,\"b\":%ld}", e, vs_tid(), a, b); }
// stay long enough that every other thread ends up waiting
static void linger(Rng &r, int n);
static void yields(int n) { while (n-- > 0) vs_yield(); }

static void linger(Rng &r, int n) {
	if (r.chance(30)) { vs_wait_quiescent(); ev("calm"); }
	else yields(r.below(n));
}

static void run_clients(Rng &r, int nclients, const function<void(Rng &, int)> &fn) {
	vector<thread> ts;
	vector<uint64_t> seeds;
	for (int i = 0; i < nclients; ++i) seeds.push_back(r.next());
	{
		VsAtomic a;
		for (int i = 0; i < nclients; ++i) ts.emplace_back([&fn, &seeds, i]() { Rng mine(seeds[i]); fn(mine, i); });
	}
	for (auto &t : ts) t.join();
	ev("fin");
}

// ------------------------------------------------------------------ progress tracker
static void f_progress(Rng &r) {
	typedef ProgressTracker<int> PT;
	PT pt(0);
	struct H { PT::ProgressHolder h; int v; int copies; };
	map<int, H> held;
	int next = 0;
	ev("init");
	run_clients(r, 1 + r.below(3), [&](Rng &r, int) {
		int n = 3 + r.below(6);
		while (n--) {
			int x = r.below(100);
			if (x < 45) {
				int v = 1 + r.below(6);
				call("hold", v);
				PT::ProgressHolder h = pt.hold(v);
				VsAtomic a;
				int id = ++next;
				ret("hold", v, h->get() == v ? id : -1);
				held[id] = H { move(h), v, 0 };
			} else if (x < 80) {
				PT::ProgressHolder h;
				int id = 0;
				{
					VsAtomic a;
					if (held.empty()) continue;
					auto i = held.begin();
					advance(i, r.below(held.size()));
					id = i->first;
					h = i->second.h;
					if (r.chance(20)) { h.reset(); continue; }     // a copy came and went
					held.erase(i);
					call("drop", id);
				}
				h.reset();
				ret("drop", id);
			} else if (x < 95) {
				call("begin"); int v = pt.begin(); ret("begin", 0, v);
			} else {
				call("end"); int v = pt.end(); ret("end", 0, v);
			}
			if (r.chance(50)) { call("begin"); int v = pt.begin(); ret("begin", 0, v); }
			if (r.chance(30)) { call("end"); int v = pt.end(); ret("end", 0, v); }
		}
	});
	while (!held.empty()) {
		auto i = held.begin();
		advance(i, r.below(held.size()));
		int id = i->first;
		call("drop", id);
		held.erase(i);
		ret("drop", id);
		call("begin"); int v = pt.begin(); ret("begin", 0, v);
		call("end"); v = pt.end(); ret("end", 0, v);
	}
	ev("fin");
}

// ------------------------------------------------------------------ cache
static void f_cache(Rng &r) {
	int next = 0;
	bool throwing = r.chance(40);
	Rng tr(r.next());
	const int keys = 2 + r.below(3);
	const int max = r.chance(10) ? 0 : 1 + r.below(4);
	auto fn = [&](int k) -> int {
		int v = 0; bool thr = false; int y;
		{ VsAtomic a; v = ++next * 10 + k; thr = throwing && tr.chance(25); y = tr.below(4); ev("cs", k); }
		yields(y);
		if (thr) { ev("ce", k, 0); throw runtime_error("planned"); }
		ev("ce", k, v);
		return v;
	};
	LRUCache<int, int> cache(fn, max);
	vs_logf("{\"e\":\"init\",\"max\":%d}", max);
	run_clients(r, 1 + r.below(3), [&](Rng &r, int) {
		int n = 3 + r.below(7);
		while (n--) {
			int x = r.below(100), k = 1 + r.below(keys);
			auto guarded = [&](const char *op, function<int()> f) {
				int v = 0;
				call(op, k);
				try { v = f(); } catch (const runtime_error &) { v = 0; }
				ret(op, k, v);
			};
			if (x < 60) guarded("get", [&]() { return cache(k); });
			else if (x < 70) guarded("refresh", [&]() { return cache.refresh(k); });
			else if (x < 80) { call("expire", k); cache.expire(k); ret("expire", k); }
			else if (x < 88) { int v; { VsAtomic a; v = ++next * 10 + k; } call("insert", k, v); cache.insert(v, k); ret("insert", k); }
			else if (x < 92) { call("clear"); cache.clear(); ret("clear"); }
			else if (x < 96) { call("size"); int v = cache.size(); ret("size", 0, v); }
			else { int m = 1 + r.below(4); call("max", m); cache.max_size(m); ret("max", m); }
		}
	});
	call("size"); int v = cache.size(); ret("size", 0, v);
	for (int k = 1; k <= keys; ++k) { throwing = false; call("get", k); v = cache(k); ret("get", k, v); }
	ev("fin");
}

// ------------------------------------------------------------------ named pointers
static int g_objs;
struct Obj {
	int id, key;
	Obj(int key) : id(++g_objs), key(key) { ev("new", id, key); }
	~Obj() { ev("del", id, key); }
};
static void f_named(Rng &r) {
	const int keys = 1 + r.below(3);
	bool throwing = r.chance(30);
	Rng tr(r.next());
	g_objs = 0;
	auto fn = [&](int k) -> shared_ptr<Obj> {
		bool thr; int y;
		{ VsAtomic a; thr = throwing && tr.chance(20); y = tr.below(4); ev("cs", k); }
		yields(y);
		if (thr) { ev("ce", k, 0); throw runtime_error("planned"); }
		VsAtomic a;
		auto p = make_shared<Obj>(k);
		ev("ce", k, p->id);
		return p;
	};
	NamedPtr<Obj, int> np(fn);
	vector<pair<int, shared_ptr<Obj>>> held;
	ev("init");
	run_clients(r, 1 + r.below(3), [&](Rng &r, int) {
		int n = 4 + r.below(6);
		while (n--) {
			int x = r.below(100), k = 1 + r.below(keys);
			if (x < 50) {
				shared_ptr<Obj> p;
				call("get", k);
				try { p = np(k); } catch (const runtime_error &) {}
				VsAtomic a;
				ret("get", k, p ? (p->key == k ? p->id : -2) : 0);
				if (p) held.push_back(make_pair(k, move(p)));
			} else if (x < 60) {
				shared_ptr<Obj> q, p;
				{ VsAtomic a; q = make_shared<Obj>(k); }
				call("insert", k, q->id);
				p = np.insert(q, k);
				VsAtomic a;
				ret("insert", k, p->id);
				held.push_back(make_pair(k, move(p)));
				// our own direct reference keeps the object, but not its name
				q.reset();
			} else {
				shared_ptr<Obj> p;
				{
					VsAtomic a;
					if (held.empty()) continue;
					size_t i = r.below(held.size());
					p = held[i].second;
					if (r.chance(15)) { p.reset(); continue; }
					held.erase(held.begin() + i);
					call("drop", p->id);
				}
				long id = p->id;
				p.reset();
				ret("drop", id);
			}
		}
	});
	while (!held.empty()) {
		long id = held.back().second->id;
		call("drop", id);
		held.pop_back();
		ret("drop", id);
	}
	ev("fin");
	for (int k = 1; k <= keys; ++k) {
		throwing = false;
		call("get", k); auto p = np(k); ret("get", k, p->id);
		long id = p->id;
		call("drop", id); p.reset(); ret("drop", id);
	}
	ev("fin");
}

// ------------------------------------------------------------------ file handles over a toy kernel
static const int FD_BASE = 700000;
static set<int> *k_open;       // numbers in use
static int k_gen[8];
extern "C" int close(int fd) {
	if (fd >= FD_BASE && fd < FD_BASE + 8) {
		vs_yield();
		VsAtomic at;
		bool was = k_open->erase(fd);
		ev("close", fd - FD_BASE + 1, was);
		if (!was) { errno = EBADF; return -1; }
		return 0;
	}
	static auto f = reinterpret_cast<int (*)(int)>(dlsym(RTLD_NEXT, "close"));
	return f(fd);
}
static void f_fd(Rng &r) {
	k_open = new set<int>;
	typedef shared_ptr<Fd> B;
	vector<pair<int, B>> held;
	ev("init");
	run_clients(r, 1 + r.below(3), [&](Rng &r, int) {
		int n = 4 + r.below(6);
		while (n--) {
			int x = r.below(100), no = 0;
			if (x < 40) {
				int fd = FD_BASE;
				{
					VsAtomic a;
					while (k_open->count(fd)) ++fd;      // the kernel hands out the lowest free number
					if (fd >= FD_BASE + 3) continue;
					k_open->insert(fd);
					no = fd - FD_BASE + 1;
					ev("kopen", no);
				}
				call("wrap", no);
				B h = make_shared<Fd>(fd);
				VsAtomic a;
				ret("wrap", no, int(*h) - FD_BASE + 1);
				held.push_back(make_pair(no, move(h)));
			} else if (x < 60) {
				// a second handle made from the number while a first one exists
				B first, second;
				{
					VsAtomic a;
					if (held.empty()) continue;
					size_t i = r.below(held.size());
					first = make_shared<Fd>(*held[i].second);
					no = held[i].first;
					ev("copy", no);
				}
				call("wrap", no);
				second = make_shared<Fd>(static_cast<int>(*first));
				{
					VsAtomic a;
					ret("wrap", no, int(*second) - FD_BASE + 1);
					held.push_back(make_pair(no, move(second)));
				}
				call("drop", no);
				first.reset();
				ret("drop", no);
			} else {
				B h;
				bool ok = true;
				{
					VsAtomic a;
					if (held.empty()) continue;
					size_t i = r.below(held.size());
					swap(held[i], held.back());
					no = held.back().first;
					h = move(held.back().second);
					held.pop_back();
					call("drop", no);
				}
				int x = r.below(3);
				if (x == 0) { *h = -1; ok = !*h; }
				else if (x == 1) { *h = Fd(); ok = !*h && int(*h) < 0; }
				else h.reset();
				ret("drop", no, !ok);
			}
		}
	});
	while (!held.empty()) {
		int no = held.back().first;
		call("drop", no);
		held.pop_back();
		ret("drop", no);
	}
	ev("fin");
}

// ------------------------------------------------------------------ lock services
static void f_multilock(Rng &r) {
	static const char *names[] = { "", "logical_ino", "dedupe", "third" };
	const int types = 2 + r.below(2);
	vs_logf("{\"e\":\"init\",\"cap\":99}");
	bool en = r.chance(80);
	if (en) MultiLocker::enable_locking(true);
	run_clients(r, 2 + r.below(3), [&](Rng &r, int) {
		int n = 2 + r.below(5);
		while (n--) {
			int t = 1 + r.below(types);
			string name(names[t]);
			call("klock", t);
			auto h = MultiLocker::get_lock(name);
			ret("klock", t);
			linger(r, 4);
			if (r.chance(20)) {
				// nested lock of the same kind
				call("klock", t);
				auto h2 = MultiLocker::get_lock(name);
				ret("klock", t);
				yields(r.below(2));
				call("kunlock", t);
				h2.reset();
				ret("kunlock", t);
			}
			if (r.chance(20)) {
				auto h3 = h;   // copies are one lock
				yields(1);
				VsAtomic a;
				h3.reset();
			}
			call("kunlock", t);
			if (r.chance(15)) { try { auto g = h; h.reset(); throw runtime_error("planned"); } catch (const runtime_error &) {} }
			else h.reset();
			ret("kunlock", t);
			yields(r.below(3));
		}
	});
}
static void f_lockset(Rng &r) {
	const int keys = 1 + r.below(3);
	const int cap = r.chance(50) ? 99 : 1 + r.below(2);
	LockSet<int> ls;
	if (cap < 99) ls.max_size(cap);
	vs_logf("{\"e\":\"init\",\"cap\":%d}", cap);
	run_clients(r, 2 + r.below(3), [&](Rng &r, int) {
		int n = 2 + r.below(5);
		while (n--) {
			int k = 1 + r.below(keys), x = r.below(100);
			if (x < 35) {
				call("lock", k); ls.lock(k); ret("lock", k);
				linger(r, 4);
				call("unlock", k); ls.unlock(k); ret("unlock", k);
			} else if (x < 55) {
				call("try", k); bool ok = ls.try_lock(k); ret("try", k, ok);
				if (!ok) continue;
				linger(r, 4);
				call("unlock", k); ls.unlock(k); ret("unlock", k);
			} else if (x < 85) {
				call("lock", k);
				auto h = make_shared<LockSet<int>::LockHandle>(ls.make_lock(k));
				ret("lock", k);
				linger(r, 4);
				if (r.chance(40)) {
					call("unlock", k); h->unlock(); ret("unlock", k);
					if (r.chance(50)) { call("try", k); bool ok = h->try_lock(); ret("try", k, ok); if (!ok) continue; }
					else { call("lock", k); h->lock(); ret("lock", k); }
				}
				auto h2 = make_shared<LockSet<int>::LockHandle>(*h);    // copies are one lock
				h2.reset();
				yields(r.below(2));
				call("unlock", k);
				h.reset();
				ret("unlock", k);
			} else {
				call("size"); int s = ls.size(); ret("size", 0, s);
			}
		}
	});
	call("size"); int s = ls.size(); ret("size", 0, s);
}

// ------------------------------------------------------------------ pool
struct PObj {
	int id;
	PObj() : id(++g_objs) { ev("new", id); }
	~PObj() { ev("del", id); }
};
static void f_pool(Rng &r) {
	g_objs = 0;
	bool throwing = r.chance(30);
	Rng tr(r.next());
	auto gen = [&]() -> shared_ptr<PObj> {
		bool thr; int y;
		{ VsAtomic a; thr = throwing && tr.chance(25); y = tr.below(3); }
		yields(y);
		if (thr) { ev("gt"); throw runtime_error("planned"); }
		VsAtomic a;
		return make_shared<PObj>();
	};
	bool use_out = r.chance(50), out_throws = use_out && r.chance(30);
	auto in = [&](shared_ptr<PObj> p) { ev("in", p->id); int y; { VsAtomic a; y = tr.below(3); } yields(y); };
	auto out = [&](shared_ptr<PObj> p) { ev("out", p->id); bool t; { VsAtomic a; t = out_throws && tr.chance(25); } vs_yield(); if (t) { ev("ot", p->id); throw runtime_error("planned"); } };
	auto pool = make_shared<Pool<PObj>>(gen, in);
	if (use_out) pool->checkout(out);
	vector<shared_ptr<PObj>> held;
	vs_logf("{\"e\":\"init\",\"out\":%d}", int(use_out));
	run_clients(r, 1 + r.below(3), [&](Rng &r, int) {
		int n = 3 + r.below(7);
		while (n--) {
			int x = r.below(100);
			if (x < 50) {
				shared_ptr<PObj> p;
				call("get");
				try { p = (*pool)(); } catch (const runtime_error &) {}
				VsAtomic a;
				ret("get", 0, p ? p->id : 0);
				if (p) held.push_back(move(p));
			} else if (x < 92) {
				shared_ptr<PObj> p;
				{
					VsAtomic a;
					if (held.empty()) continue;
					size_t i = r.below(held.size());
					p = held[i];
					if (r.chance(15)) { p.reset(); continue; }
					held.erase(held.begin() + i);
					call("drop", p->id);
				}
				long id = p->id;
				p.reset();
				ret("drop", id);
			} else {
				call("clear"); pool->clear(); ret("clear");
			}
		}
	});
	// destroy the pool while objects are in use, concurrently with their release
	auto p2 = pool;
	pool.reset();
	run_clients(r, 2, [&](Rng &r, int i) {
		if (i == 0) {
			yields(r.below(3));
			call("destroy"); p2.reset(); ret("destroy");
		} else {
			while (true) {
				shared_ptr<PObj> p;
				{
					VsAtomic a;
					if (held.empty()) break;
					p = held.back();
					held.pop_back();
					call("drop", p->id);
				}
				long id = p->id;
				p.reset();
				ret("drop", id);
			}
		}
	});
}

// ------------------------------------------------------------------ rate estimator
static void f_rate(Rng &r) {
	RateEstimator re(1, 3600);
	re.update(0);
	ev("init");
	const bool frozen = r.chance(30);
	int others = 1 + r.below(3);
	run_clients(r, others + 1, [&](Rng &r, int i) {
		int n = 2 + r.below(5);
		if (i == 0) {
			while (n--) {
				if (!frozen) vs_sleep_ns(1000000ull * r.below(5000));
				if (r.chance(20)) vs_step_wall_ns(-1000000ll * int64_t(r.below(3000)));     // somebody sets the clock back
				int x = r.below(100);
				if (x < 50) { int m = r.below(3); call("inc", m); re.increment(m); ret("inc", m); }
				else if (x < 60) { int v = r.below(5); call("set", v); re.update(v); ret("set", v); }
				else { int v = r.below(12); call("mono", v); re.update_monotonic(v); ret("mono", v); }
			}
			// when everybody waits for good, nobody may be waiting for a count already reached; then let them go
			for (int i = 0; i < 12; ++i) {
				vs_wait_quiescent();
				bool left;
				{ VsAtomic a; ev("quiet"); left = others; }
				if (!left) break;
				call("inc", 15); re.increment(15); ret("inc", 15);
			}
		} else {
			while (n--) {
				int x = r.below(100);
				if (x < 25) { int v = 1 + r.below(14); call("until", v); re.wait_until(v); ret("until", v); }
				else if (x < 40) {
					int v = 1 + r.below(4);
					call("for", v); re.wait_for(v); ret("for", v);
				}
				else if (x < 60) { call("count"); int v = int(re.count()); ret("count", 0, v); }
				else if (x < 75) { int m = r.below(2); call("inc", m); re.increment(m); ret("inc", m); }
				else if (x < 85) { int v = r.below(10); call("mono", v); re.update_monotonic(v); ret("mono", v); }
				else { call("secs"); double d = re.seconds_for(1 + r.below(5)); ret("secs", 0, d >= 1.0 && d <= 3600.0); }
			}
			VsAtomic a;
			--others;
		}
	});
}

// ------------------------------------------------------------------ rate limiter
static void f_limit(Rng &r) {
	const int rate = 1 + r.below(20), burst = r.below(2) ? rate : int(r.below(10)), clients = 1 + r.below(3);
	unique_ptr<RateLimiter> rl(burst == rate ? new RateLimiter(rate) : new RateLimiter(rate, burst));
	vs_logf("{\"e\":\"init\",\"rate\":%d,\"burst\":%d,\"clients\":%d}", rate, burst, clients);
	const uint64_t t0 = vs_now_ns();
	int made = 0;
	const bool steps = r.chance(25);
	run_clients(r, clients, [&](Rng &r, int) {
		int n = 4 + r.below(12);
		while (n--) {
			if (r.chance(15)) vs_sleep_ns(1000000ull * r.below(4000));
			if (steps && r.chance(20)) vs_step_wall_ns(-1000000ll * int64_t(r.below(5000)));     // somebody sets the clock back
			long a, b, q;
			{ VsAtomic x; a = (vs_now_ns() - t0) / 1000000; q = ++made; }
			rl->sleep_for(1);
			VsAtomic x;
			b = (vs_now_ns() - t0) / 1000000;
			// made now, not at the start: concurrent requests share the debt
			vs_logf("{\"e\":\"lim\",\"th\":%d,\"a\":%ld,\"b\":%ld,\"n\":%d,\"q\":%ld}", vs_tid(), a, b, made, q);
		}
	});
}

static void one(uint64_t seed, const string &fam) {
	Rng r(seed);
	if (fam == "progress") f_progress(r);
	else if (fam == "cache") f_cache(r);
	else if (fam == "named") f_named(r);
	else if (fam == "fd") f_fd(r);
	else if (fam == "multilock") f_multilock(r);
	else if (fam == "lockset") f_lockset(r);
	else if (fam == "pool") f_pool(r);
	else if (fam == "rate") f_rate(r);
	else if (fam == "limit") f_limit(r);
}
int main(int argc, char **argv) {
	return r_main(argc, argv, [](uint64_t s, const string &) {
		VsConfig c = r_policy(s);
		return c;
	}, one);
}
