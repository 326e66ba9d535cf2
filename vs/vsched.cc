// Deterministic scheduler: replaces the pthread, clock and sleep entry points of the C library so that
// exactly one thread of the program runs at a time, which one is decided here from a seed, and time is
// virtual.  Code compiled with -fsanitize=thread (and linked with this file instead of the sanitizer's
// run-time) also offers its plain memory accesses as schedule points.
//
// The unmodified code under test is linked against this; it knows nothing about it.
#include "vsched.h"

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>
#include <map>
#include <algorithm>

void (*vs_on_fatal)(VsOutcome, const std::string &) = nullptr;
void (*vs_on_advance)(uint64_t) = nullptr;

namespace {

enum St { RUN, B_MUTEX, B_COND, B_SLEEP, B_JOIN, B_SIG, B_QUIET, B_PRED, B_RW, DONE };
const char *stname[] = { "run", "mutex", "cond", "sleep", "join", "sig", "quiet", "pred", "rwlock", "done" };

struct VT {
	int id = 0;
	St st = RUN;
	const void *obj = nullptr;      // what it waits for
	uint64_t deadline = ~0ull;      // virtual time at which it is woken
	bool timed_out = false;
	volatile int go = 0;            // futex word: 1 = has the token
	uint64_t prio = 0;
	pthread_t pt {};
	bool detached = false, joined = false;
	void *(*fn)(void *) = nullptr;
	void *arg = nullptr;
	bool (*pred)(void *) = nullptr;
	void *predarg = nullptr;
	int nosched = 0;
	int in_sched = 0;
	int sig = 0;
};

struct Mx { VT *owner = nullptr; int count = 0; };
struct Rw { VT *writer = nullptr; int readers = 0; };

bool g_active = false;
VsConfig g_cfg;
std::vector<VT *> g_threads;
__thread VT *tl_me = nullptr;
VT *g_cur = nullptr;
uint64_t g_now = 0;
uint64_t g_steps = 0;
uint64_t g_rng = 1, g_rng2 = 1;
std::unordered_map<const void *, Mx> *g_mx;
std::unordered_map<const void *, Rw> *g_rw;
pthread_key_t g_key;
bool g_key_made = false;
std::string *g_log;
std::vector<uint64_t> g_pct_points;
size_t g_pct_next = 0;
uint64_t g_low = 1000;
uint64_t g_sinceadvance = 0;

uint64_t splitmix(uint64_t &s) {
	uint64_t z = (s += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
uint64_t rnd() { return splitmix(g_rng); }
double rndf() { return double(rnd() >> 11) / 9007199254740992.0; }

template <class F> F real(const char *name) {
	return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
#define REAL(name) ([]{ static auto f = real<decltype(&name)>(#name); return f; }())

long raw_futex(volatile int *w, int op, int val) {
	long rv;
	register long r10 __asm__("r10") = 0;
	__asm__ volatile("syscall" : "=a"(rv)
		: "a"(long(SYS_futex)), "D"(w), "S"(long(op)), "d"(long(val)), "r"(r10)
		: "rcx", "r11", "memory");
	return rv;
}

void wake(VT *t) { __atomic_store_n(&t->go, 1, __ATOMIC_SEQ_CST); raw_futex(&t->go, FUTEX_WAKE_PRIVATE, 1); }
void wait_go(VT *t) {
	while (!__atomic_load_n(&t->go, __ATOMIC_SEQ_CST)) raw_futex(&t->go, FUTEX_WAIT_PRIVATE, 0);
	__atomic_store_n(&t->go, 0, __ATOMIC_SEQ_CST);
}

[[noreturn]] void fatal(VsOutcome o, const std::string &s) {
	g_active = false;
	if (vs_on_fatal) vs_on_fatal(o, s);
	fprintf(stderr, "vsched: fatal %d: %s\n", int(o), s.c_str());
	_exit(99);
}

VT *pick(std::vector<VT *> &r, VT *me) {
	if (g_cfg.policy == 1) {
		return *std::max_element(r.begin(), r.end(), [](VT *a, VT *b) { return a->prio < b->prio; });
	}
	if (me && me->st == RUN && g_cfg.policy == 2) {
		if (rndf() >= g_cfg.p_switch) return me;
		size_t i = std::find(r.begin(), r.end(), me) - r.begin();
		return r[(i + 1) % r.size()];
	}
	if (me && me->st == RUN && rndf() >= g_cfg.p_switch) return me;
	return r[rnd() % r.size()];
}

void wake_expired() {
	for (auto t : g_threads) {
		if (t->st != RUN && t->st != DONE && t->deadline <= g_now) {
			t->timed_out = true; t->st = RUN; t->obj = nullptr; t->deadline = ~0ull;
		}
	}
}

// Choose who runs next and hand over.  `me` may be blocked (st != RUN) or done.
void resched(VT *me) {
	++g_steps;
	if (g_steps > g_cfg.max_steps) fatal(VS_STEPLIMIT, vs_dump());
	g_now += 50;   // every step takes a little time
	wake_expired();
	if (g_cfg.policy == 1 && g_pct_next < g_pct_points.size() && g_steps >= g_pct_points[g_pct_next]) {
		++g_pct_next;
		if (g_cur) g_cur->prio = --g_low;
	}
	if (g_cfg.p_spurious > 0 && rndf() < g_cfg.p_spurious) {
		std::vector<VT *> w;
		for (auto t : g_threads) if (t->st == B_COND) w.push_back(t);
		if (!w.empty()) { VT *t = w[rnd() % w.size()]; t->st = RUN; t->obj = nullptr; t->deadline = ~0ull; }
	}
	std::vector<VT *> r;
	for (;;) {
		r.clear();
		uint64_t mind = ~0ull;
		VT *quiet = nullptr;
		bool others_timed = false;
		for (auto t : g_threads) {
			if (t->st == B_PRED && t->pred(t->predarg)) { t->st = RUN; t->deadline = ~0ull; }
			if (t->st == RUN) r.push_back(t);
			else if (t->st == B_QUIET) quiet = t;
			if (t->st != RUN && t->st != DONE && t->deadline != ~0ull && t->deadline < mind) mind = t->deadline;
			if (t->st != RUN && t->st != DONE && t->st != B_QUIET && t->deadline != ~0ull) others_timed = true;
		}
		if (!r.empty()) {
			if (mind != ~0ull && g_cfg.p_early > 0 && rndf() < g_cfg.p_early) {
				if (mind > g_now) g_now = mind;
				wake_expired();
				continue;
			}
			break;
		}
		if (quiet && !others_timed) {
			// nothing can ever happen
			quiet->st = RUN; quiet->deadline = ~0ull; quiet->timed_out = false;
			continue;
		}
		if (mind == ~0ull) fatal(VS_DEADLOCK, vs_dump());
		if (mind > g_now) g_now = mind;
		if (vs_on_advance) vs_on_advance(g_now);
		wake_expired();
	}
	VT *n = pick(r, me);
	g_cur = n;
	if (n == me) return;
	wake(n);
	if (me && me->st != DONE) wait_go(me);
}

// Is the calling thread under control, and not inside scheduler or harness bookkeeping?
inline VT *ctl() {
	if (!g_active) return nullptr;
	VT *t = tl_me;
	if (!t || t->in_sched) return nullptr;
	return t;
}
struct In { VT *t; In(VT *t) : t(t) { ++t->in_sched; } ~In() { --t->in_sched; } };

void point(VT *t) {
	if (t->nosched) return;
	resched(t);
}

void block(VT *t, St st, const void *obj, uint64_t deadline) {
	t->st = st; t->obj = obj; t->deadline = deadline; t->timed_out = false;
	resched(t);
}

bool is_recursive(const pthread_mutex_t *m) {
	return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
}

void mx_acquire(VT *t, pthread_mutex_t *m) {
	for (;;) {
		Mx &x = (*g_mx)[m];
		if (!x.owner) { x.owner = t; x.count = 1; return; }
		if (x.owner == t) {
			if (is_recursive(m)) { ++x.count; return; }
			// relocking a plain mutex: blocks for ever
		}
		block(t, B_MUTEX, m, ~0ull);
	}
}

void mx_release(VT *t, pthread_mutex_t *m) {
	auto it = g_mx->find(m);
	if (it == g_mx->end() || it->second.owner != t) {
		// unlocking what we do not hold (a lock taken before vs_start is tolerated)
		return;
	}
	if (--it->second.count > 0) return;
	g_mx->erase(it);
	for (auto o : g_threads) if (o->st == B_MUTEX && o->obj == m) { o->st = RUN; o->obj = nullptr; }
}

uint64_t ts2ns(const struct timespec *ts) { return uint64_t(ts->tv_sec) * 1000000000ull + ts->tv_nsec; }
uint64_t REALTIME_OFF = 1700000000ull * 1000000000ull;   // wall clock minus scheduler clock

void key_dtor(void *p) {
	VT *t = static_cast<VT *>(p);
	if (!g_active) return;
	++t->in_sched;
	t->st = DONE;
	for (auto o : g_threads) if (o->st == B_JOIN && o->obj == t) { o->st = RUN; o->obj = nullptr; }
	tl_me = nullptr;
	resched(t);
}

void *tramp(void *p) {
	VT *t = static_cast<VT *>(p);
	tl_me = t;
	pthread_setspecific(g_key, t);
	wait_go(t);
	return t->fn(t->arg);
}

int cond_wait_impl(VT *t, pthread_cond_t *c, pthread_mutex_t *m, uint64_t deadline) {
	In in(t);
	// a point before the wait begins (the waiter still holds the mutex)
	point(t);
	mx_release(t, m);
	block(t, B_COND, c, deadline);
	const bool to = t->timed_out;
	mx_acquire(t, m);
	return to ? ETIMEDOUT : 0;
}

} // namespace

extern "C" {

int pthread_mutex_lock(pthread_mutex_t *m) {
	VT *t = ctl();
	if (!t) { if (g_active && tl_me) return 0; return REAL(pthread_mutex_lock)(m); }
	In in(t);
	point(t);
	mx_acquire(t, m);
	return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
	VT *t = ctl();
	if (!t) { if (g_active && tl_me) return 0; return REAL(pthread_mutex_trylock)(m); }
	In in(t);
	point(t);
	Mx &x = (*g_mx)[m];
	if (!x.owner) { x.owner = t; x.count = 1; return 0; }
	if (x.owner == t && is_recursive(m)) { ++x.count; return 0; }
	return EBUSY;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
	VT *t = ctl();
	if (!t) { if (g_active && tl_me) return 0; return REAL(pthread_mutex_unlock)(m); }
	In in(t);
	mx_release(t, m);
	point(t);
	return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *) { return pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, const struct timespec *) { return pthread_mutex_lock(m); }

int pthread_cond_signal(pthread_cond_t *c) {
	VT *t = ctl();
	if (!t) { if (g_active && tl_me) return 0; return REAL(pthread_cond_signal)(c); }
	In in(t);
	std::vector<VT *> w;
	for (auto o : g_threads) if (o->st == B_COND && o->obj == c) w.push_back(o);
	if (!w.empty()) {
		VT *o = w[rnd() % w.size()];
		o->st = RUN; o->obj = nullptr; o->deadline = ~0ull;
	}
	point(t);
	return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
	VT *t = ctl();
	if (!t) { if (g_active && tl_me) return 0; return REAL(pthread_cond_broadcast)(c); }
	In in(t);
	for (auto o : g_threads) if (o->st == B_COND && o->obj == c) { o->st = RUN; o->obj = nullptr; o->deadline = ~0ull; }
	point(t);
	return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
	VT *t = ctl();
	if (!t) return REAL(pthread_cond_wait)(c, m);
	return cond_wait_impl(t, c, m, ~0ull);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
	VT *t = ctl();
	if (!t) return REAL(pthread_cond_timedwait)(c, m, ts);
	uint64_t d = ts2ns(ts);
	d = d > REALTIME_OFF ? d - REALTIME_OFF : 0;
	return cond_wait_impl(t, c, m, d);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t clk, const struct timespec *ts) {
	VT *t = ctl();
	if (!t) return REAL(pthread_cond_clockwait)(c, m, clk, ts);
	uint64_t d = ts->tv_sec < 0 ? 0 : ts2ns(ts);
	if (clk == CLOCK_REALTIME) d = d > REALTIME_OFF ? d - REALTIME_OFF : 0;
	return cond_wait_impl(t, c, m, d);
}

int pthread_rwlock_rdlock(pthread_rwlock_t *l) {
	VT *t = ctl();
	if (!t) return REAL(pthread_rwlock_rdlock)(l);
	In in(t);
	point(t);
	while ((*g_rw)[l].writer) block(t, B_RW, l, ~0ull);
	++(*g_rw)[l].readers;
	return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *l) {
	VT *t = ctl();
	if (!t) return REAL(pthread_rwlock_wrlock)(l);
	In in(t);
	point(t);
	while ((*g_rw)[l].writer || (*g_rw)[l].readers) block(t, B_RW, l, ~0ull);
	(*g_rw)[l].writer = t;
	return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
	VT *t = ctl();
	if (!t) return REAL(pthread_rwlock_unlock)(l);
	In in(t);
	Rw &r = (*g_rw)[l];
	if (r.writer == t) r.writer = nullptr; else --r.readers;
	for (auto o : g_threads) if (o->st == B_RW && o->obj == l) { o->st = RUN; o->obj = nullptr; }
	point(t);
	return 0;
}

int pthread_create(pthread_t *pt, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
	VT *t = ctl();
	if (!t) return REAL(pthread_create)(pt, attr, fn, arg);
	In in(t);
	VT *n = new VT;
	n->id = int(g_threads.size()) + 1;
	n->fn = fn; n->arg = arg;
	n->prio = 1000000 + rnd() % 1000000;
	int rv = REAL(pthread_create)(pt, attr, tramp, n);
	if (rv) { delete n; return rv; }
	n->pt = *pt;
	g_threads.push_back(n);
	point(t);
	return 0;
}
int pthread_join(pthread_t pt, void **ret) {
	VT *t = ctl();
	if (!t) return REAL(pthread_join)(pt, ret);
	In in(t);
	VT *o = nullptr;
	for (auto x : g_threads) if (x->pt == pt && !x->joined && !x->detached) o = x;
	if (!o) return ESRCH;
	point(t);
	while (o->st != DONE) block(t, B_JOIN, o, ~0ull);
	o->joined = true;
	return REAL(pthread_join)(pt, ret);
}
int pthread_detach(pthread_t pt) {
	VT *t = ctl();
	if (!t) return REAL(pthread_detach)(pt);
	In in(t);
	for (auto x : g_threads) if (x->pt == pt && !x->joined && !x->detached) { x->detached = true; break; }
	return REAL(pthread_detach)(pt);
}

int sched_yield() {
	VT *t = ctl();
	if (!t) return REAL(sched_yield)();
	In in(t);
	point(t);
	return 0;
}

static int sleep_impl(VT *t, uint64_t until) {
	In in(t);
	block(t, B_SLEEP, nullptr, until);
	return 0;
}
int nanosleep(const struct timespec *req, struct timespec *rem) {
	VT *t = ctl();
	if (!t) return REAL(nanosleep)(req, rem);
	if (req->tv_nsec < 0 || req->tv_nsec >= 1000000000 || req->tv_sec < 0) { errno = EINVAL; return -1; }
	if (rem) rem->tv_sec = rem->tv_nsec = 0;
	return sleep_impl(t, g_now + ts2ns(req));
}
int clock_nanosleep(clockid_t clk, int flags, const struct timespec *req, struct timespec *rem) {
	VT *t = ctl();
	if (!t) return REAL(clock_nanosleep)(clk, flags, req, rem);
	if (req->tv_nsec < 0 || req->tv_nsec >= 1000000000 || req->tv_sec < 0) return EINVAL;
	uint64_t d = ts2ns(req);
	if (flags & TIMER_ABSTIME) { if (clk == CLOCK_REALTIME) d = d > REALTIME_OFF ? d - REALTIME_OFF : 0; }
	else d += g_now;
	if (rem) rem->tv_sec = rem->tv_nsec = 0;
	return sleep_impl(t, d);
}
int usleep(useconds_t us) {
	VT *t = ctl();
	if (!t) return REAL(usleep)(us);
	return sleep_impl(t, g_now + us * 1000ull);
}
unsigned sleep(unsigned s) {
	VT *t = ctl();
	if (!t) return REAL(sleep)(s);
	sleep_impl(t, g_now + s * 1000000000ull);
	return 0;
}

int clock_gettime(clockid_t clk, struct timespec *ts) {
	if (!g_active || !tl_me) return REAL(clock_gettime)(clk, ts);
	uint64_t v = g_now + (clk == CLOCK_REALTIME || clk == CLOCK_REALTIME_COARSE ? REALTIME_OFF : 0);
	ts->tv_sec = v / 1000000000ull; ts->tv_nsec = v % 1000000000ull;
	return 0;
}
time_t time(time_t *p) {
	if (!g_active || !tl_me) return REAL(time)(p);
	time_t v = (g_now + REALTIME_OFF) / 1000000000ull;
	if (p) *p = v;
	return v;
}
int gettimeofday(struct timeval *tv, void *) {
	uint64_t v;
	if (!g_active || !tl_me) {
		struct timespec ts; REAL(clock_gettime)(CLOCK_REALTIME, &ts);
		v = ts2ns(&ts);
	} else v = g_now + REALTIME_OFF;
	tv->tv_sec = v / 1000000000ull; tv->tv_usec = v % 1000000000ull / 1000;
	return 0;
}

// libstdc++ waits for a function-local static under construction with syscall(SYS_futex)
long syscall(long nr, ...) {
	va_list ap;
	va_start(ap, nr);
	long a[6];
	for (auto &i : a) i = va_arg(ap, long);
	va_end(ap);
	if (nr == SYS_futex) {
		VT *t = ctl();
		if (t) {
			In in(t);
			if ((a[1] & 127) == FUTEX_WAIT) block(t, B_SLEEP, nullptr, g_now + 1000);
			return 0;
		}
	}
	if (nr == SYS_gettid) {
		VT *t = tl_me;
		if (g_active && t) return 1000 + t->id;
	}
	long rv;
	register long r10 __asm__("r10") = a[3];
	register long r8 __asm__("r8") = a[4];
	register long r9 __asm__("r9") = a[5];
	__asm__ volatile("syscall" : "=a"(rv) : "a"(nr), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9)
		: "rcx", "r11", "memory");
	if (rv < 0 && rv > -4096) { errno = int(-rv); return -1; }
	return rv;
}

// ---- std::random_device: the same numbers every time
unsigned int random_number(void *) __asm__("_ZNSt13random_device9_M_getvalEv");
unsigned int random_number(void *) {
	static uint64_t n = 0;
	uint64_t z = g_cfg.seed * 0x9e3779b97f4a7c15ull + ++n * 0xbf58476d1ce4e5b9ull;
	z ^= z >> 31; z *= 0x94d049bb133111ebull; z ^= z >> 29;
	return (unsigned int)(z >> 16);
}

// ---- run-time of -fsanitize=thread: memory accesses as schedule points
static inline void mem_point() {
	if (!g_active || g_cfg.p_mem <= 0) return;
	VT *t = tl_me;
	if (!t || t->in_sched || t->nosched) return;
	if (rndf() >= g_cfg.p_mem) return;
	In in(t);
	int e = errno;
	resched(t);
	errno = e;
}
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define MEMF(n) void n(void *) { mem_point(); }
MEMF(__tsan_read1) MEMF(__tsan_read2) MEMF(__tsan_read4) MEMF(__tsan_read8) MEMF(__tsan_read16)
MEMF(__tsan_write1) MEMF(__tsan_write2) MEMF(__tsan_write4) MEMF(__tsan_write8) MEMF(__tsan_write16)
MEMF(__tsan_unaligned_read2) MEMF(__tsan_unaligned_read4) MEMF(__tsan_unaligned_read8) MEMF(__tsan_unaligned_read16)
MEMF(__tsan_unaligned_write2) MEMF(__tsan_unaligned_write4) MEMF(__tsan_unaligned_write8) MEMF(__tsan_unaligned_write16)
MEMF(__tsan_volatile_read1) MEMF(__tsan_volatile_read2) MEMF(__tsan_volatile_read4) MEMF(__tsan_volatile_read8)
MEMF(__tsan_volatile_write1) MEMF(__tsan_volatile_write2) MEMF(__tsan_volatile_write4) MEMF(__tsan_volatile_write8)
MEMF(__tsan_vptr_read)
void __tsan_vptr_update(void **, void *) { mem_point(); }
void __tsan_read_range(void *, size_t) { mem_point(); }
void __tsan_write_range(void *, size_t) { mem_point(); }
#define ATOMICS(N, T) \
T __tsan_atomic##N##_load(const volatile T *p, int) { mem_point(); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##N##_store(volatile T *p, T v, int) { mem_point(); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_exchange(volatile T *p, T v, int) { mem_point(); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_add(volatile T *p, T v, int) { mem_point(); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_sub(volatile T *p, T v, int) { mem_point(); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_and(volatile T *p, T v, int) { mem_point(); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_or(volatile T *p, T v, int) { mem_point(); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_xor(volatile T *p, T v, int) { mem_point(); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_nand(volatile T *p, T v, int) { mem_point(); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##N##_compare_exchange_strong(volatile T *p, T *c, T v, int, int) { mem_point(); return __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##N##_compare_exchange_weak(volatile T *p, T *c, T v, int, int) { mem_point(); return __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_compare_exchange_val(volatile T *p, T c, T v, int, int) { mem_point(); __atomic_compare_exchange_n(p, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOMICS(8, unsigned char)
ATOMICS(16, unsigned short)
ATOMICS(32, unsigned int)
ATOMICS(64, unsigned long)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}

} // extern "C"

void vs_start(const VsConfig &cfg) {
	g_cfg = cfg;
	g_rng = cfg.seed * 2654435761u + 12345;
	g_rng2 = cfg.seed ^ 0xabcdef1234567ull;
	rnd(); splitmix(g_rng2);
	g_mx = new std::unordered_map<const void *, Mx>;
	g_rw = new std::unordered_map<const void *, Rw>;
	if (!g_log) g_log = new std::string;
	g_now = 1000ull * 1000000000ull;
	g_steps = 0;
	if (!g_key_made) { pthread_key_create(&g_key, key_dtor); g_key_made = true; }
	g_pct_points.clear();
	for (int i = 0; i < cfg.pct_changes; ++i) g_pct_points.push_back(rnd() % std::max(1, cfg.pct_horizon));
	std::sort(g_pct_points.begin(), g_pct_points.end());
	VT *t = new VT;
	t->id = 1;
	t->pt = pthread_self();
	t->prio = 1000000 + rnd() % 1000000;
	g_threads.assign(1, t);
	tl_me = t;
	g_cur = t;
	g_active = true;
}
void vs_stop() { g_active = false; }
bool vs_active() { return g_active && tl_me; }
int vs_tid() { return g_active && tl_me ? tl_me->id : 0; }
uint64_t vs_now_ns() { return g_now; }
void vs_set_now_ns(uint64_t n) { g_now = n; }
void vs_step_wall_ns(int64_t d) { REALTIME_OFF += d; }
void vs_yield() { VT *t = ctl(); if (t) { In in(t); point(t); } }
uint64_t vs_rand() { return splitmix(g_rng2); }
uint64_t vs_steps() { return g_steps; }
size_t vs_live_threads() { size_t n = 0; for (auto t : g_threads) n += t->st != DONE; return n; }
size_t vs_runnable_others() { size_t n = 0; for (auto t : g_threads) n += t != tl_me && t->st == RUN; return n; }
void vs_sleep_ns(uint64_t ns) { VT *t = ctl(); if (t) sleep_impl(t, g_now + ns); }
void vs_wait_quiescent(uint64_t idle_ns) {
	VT *t = ctl();
	if (!t) return;
	In in(t);
	block(t, B_QUIET, nullptr, idle_ns == ~0ull ? ~0ull : g_now + idle_ns);
}
void vs_wait_pred(bool (*pred)(void *), void *arg, uint64_t timeout_ns) {
	VT *t = ctl();
	if (!t) return;
	In in(t);
	if (pred(arg)) return;
	t->pred = pred; t->predarg = arg;
	block(t, B_PRED, nullptr, timeout_ns == ~0ull ? ~0ull : g_now + timeout_ns);
}
VsAtomic::VsAtomic() { if (tl_me) ++tl_me->nosched; }
VsAtomic::~VsAtomic() { if (tl_me) --tl_me->nosched; }

std::string vs_dump() {
	std::string s;
	char b[200];
	std::map<const void *, int> owner;
	for (auto &p : *g_mx) if (p.second.owner) owner[p.first] = p.second.owner->id;
	for (auto t : g_threads) {
		if (t->st == DONE) continue;
		int o = 0;
		if (t->st == B_MUTEX && owner.count(t->obj)) o = owner[t->obj];
		snprintf(b, sizeof b, "t%d:%s%s", t->id, stname[t->st], "");
		s += b;
		if (o) { snprintf(b, sizeof b, "(held by t%d)", o); s += b; }
		s += " ";
	}
	return s;
}

std::string &vs_log() { if (!g_log) g_log = new std::string; return *g_log; }
void vs_logf(const char *fmt, ...) {
	char b[4096];
	va_list ap;
	va_start(ap, fmt);
	int n = vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	VT *t = tl_me;
	if (t) ++t->in_sched;
	vs_log().append(b, std::min<size_t>(n, sizeof b - 1));
	vs_log().push_back('\n');
	if (t) --t->in_sched;
}
