// Random programs over the public task API, executed by the real library under the scheduler.
// Logs every call, return, body begin/end and closure destruction; judged by TaskPoolTrace.tla.
#include "runner.h"
#include "crucible/task.h"
#include "crucible/error.h"
#include "crucible/chatter.h"
#include <memory>
#include <thread>
#include <map>
#include <stdexcept>
using namespace std;
using namespace crucible;

enum OpKind { RUN, IDLE, APP, INS, DROP, TRY, REL, RELALL, LCOPY, KEEP, RELKEPT, BINS, BCOPY, BDROP, PAUSE, RESUME, THR, CANCEL, YIELD, SLEEP, GATE, THROW };
struct Op { OpKind op; int k = 0, t = 0; };
typedef vector<Op> Script;

static int NT, NE, NB;
static vector<shared_ptr<Task>> handles;       // null once dropped; touched without schedule points
static vector<vector<Script>> bodies;          // per task, per execution
static vector<size_t> execs;
static size_t total_execs;
static vector<unique_ptr<Exclusion>> excl;
static vector<vector<shared_ptr<Barrier>>> barr;
static int gate_need[8], gate_in[8];
static bool gates_open;
static thread_local vector<pair<int, vector<ExclusionLock>>> *tl_locks;
// locks which outlive the execution that took them: exclusion, task, locks
struct Kept { int e, k; vector<ExclusionLock> l; };
static vector<Kept> kept;

struct Payload {
	int k;
	Payload(int k) : k(k) {}
	~Payload() { vs_logf("{\"e\":\"free\",\"k\":%d}", k); }
};

static void call(const char *op, int k, int t) { vs_logf("{\"e\":\"c\",\"th\":%d,\"op\":\"%s\",\"k\":%d,\"t\":%d}", vs_tid(), op, k, t); }
static void ret(const char *op, int k, int t, int r) { vs_logf("{\"e\":\"r\",\"th\":%d,\"op\":\"%s\",\"k\":%d,\"t\":%d,\"r\":%d}", vs_tid(), op, k, t, r); }

static shared_ptr<Task> get(int k) { return handles[k]; }

// returns false when the body has to end now
static bool do_op(const Op &o, int self) {
	switch (o.op) {
	case YIELD: vs_yield(); return true;
	case SLEEP: vs_sleep_ns(1000000ull * o.k); return true;
	case THROW: throw runtime_error("planned");
	case GATE: {
		int g = o.k;
		++gate_in[g];
		vs_wait_pred([](void *p) -> bool { long g = reinterpret_cast<long>(p); return gates_open || gate_in[g] >= gate_need[g]; }, reinterpret_cast<void *>(long(g)));
		return true;
	}
	case RUN: case IDLE: case APP: case INS: {
		auto a = get(o.k);
		auto b = (o.op == APP || o.op == INS) ? get(o.t) : nullptr;
		if (!a || ((o.op == APP || o.op == INS) && !b)) return true;
		const char *n = o.op == RUN ? "run" : o.op == IDLE ? "idle" : o.op == APP ? "app" : "ins";
		call(n, o.k, o.t);
		if (o.op == RUN) a->run();
		else if (o.op == IDLE) a->idle();
		else if (o.op == APP) b->append(*a);
		else b->insert(*a);
		// drop our references inside the call so that the model sees one operation
		a.reset(); b.reset();
		ret(n, o.k, o.t, 0);
		return true;
	}
	case DROP: {
		auto a = get(o.k);
		if (!a) return true;
		call("drop", o.k, 0);
		handles[o.k].reset();
		a.reset();
		ret("drop", o.k, 0, 0);
		return true;
	}
	case TRY: {
		if (!self) return true;
		bool again = false;
		for (auto &l : *tl_locks) if (l.first == o.k) again = true;
		// now and then a task tries what it holds already; that may fail or throw
		if (again && o.t == 0) return true;
		auto a = get(self);
		if (!a) return true;
		call("try", self, o.k);
		ExclusionLock l;
		try {
			l = excl[o.k]->try_lock(*a);
		} catch (const exception &) {
			again = true;
		}
		a.reset();
		if (again && !l) {
			ret("try", self, o.k, 0);
			return true;
		}
		bool ok = !!l;
		if (ok) tl_locks->push_back(make_pair(o.k, vector<ExclusionLock> { l }));
		l = ExclusionLock();
		ret("try", self, o.k, ok ? 1 : 0);
		return ok;
	}
	case LCOPY:
		if (!self) return true;
		for (auto &l : *tl_locks) if (l.first == o.k) l.second.push_back(l.second.front());
		return true;
	case REL: {
		if (!self) return true;
		for (size_t i = 0; i < tl_locks->size(); ++i) {
			auto &l = (*tl_locks)[i];
			if (l.first != o.k) continue;
			if (l.second.size() > 1) { l.second.pop_back(); return true; }
			call("rel", self, o.k);
			if (o.t) l.second.back().release();
			l.second.pop_back();
			ret("rel", self, o.k, 0);
			tl_locks->erase(tl_locks->begin() + i);
			return true;
		}
		return true;
	}
	case RELALL: return true;
	case KEEP: {
		if (!self) return true;
		for (size_t i = 0; i < tl_locks->size(); ++i) {
			auto &l = (*tl_locks)[i];
			if (l.first != o.k) continue;
			kept.push_back(Kept { o.k, self, move(l.second) });
			tl_locks->erase(tl_locks->begin() + i);
			return true;
		}
		return true;
	}
	case RELKEPT: {
		if (kept.empty()) return true;
		Kept x = move(kept.front());
		kept.erase(kept.begin());
		while (x.l.size() > 1) x.l.pop_back();
		call("rel", x.k, x.e);
		x.l.pop_back();
		ret("rel", x.k, x.e, 0);
		return true;
	}
	case BINS: {
		auto a = get(o.k);
		if (!a || barr[o.t].empty()) return true;
		// an own temporary reference: logged as copy and drop
		auto &v = barr[o.t];
		call("bcopy", 0, o.t);
		Barrier mine = *v[v.size() - 1];
		ret("bcopy", 0, o.t, 0);
		call("bins", o.k, o.t);
		mine.insert_task(*a);
		a.reset();
		ret("bins", o.k, o.t, 0);
		call("bdrop", 0, o.t);
		mine.release();
		ret("bdrop", 0, o.t, 0);
		return true;
	}
	case BCOPY: {
		auto &v = barr[o.t];
		if (v.empty() || v.size() > 3) return true;
		call("bcopy", 0, o.t);
		v.push_back(make_shared<Barrier>(*v.back()));
		ret("bcopy", 0, o.t, 0);
		return true;
	}
	case BDROP: {
		auto &v = barr[o.t];
		if (v.empty()) return true;
		call("bdrop", 0, o.t);
		auto x = v.back();
		v.pop_back();
		if (o.k) x->release();
		x.reset();
		ret("bdrop", 0, o.t, 0);
		return true;
	}
	case PAUSE: call("pause", 0, 0); TaskMaster::pause(); ret("pause", 0, 0, 0); return true;
	case RESUME: call("resume", 0, 0); TaskMaster::pause(false); ret("resume", 0, 0, 0); return true;
	case CANCEL: call("cancel", 0, 0); TaskMaster::cancel(); ret("cancel", 0, 0, 0); return true;
	case THR: call("thr", o.k, 0); TaskMaster::set_thread_count(o.k); ret("thr", o.k, 0, 0); return true;
	}
	return true;
}

static void body(int k) {
	vs_logf("{\"e\":\"beg\",\"k\":%d,\"th\":%d}", k, vs_tid());
	size_t n = execs[k];
	if (n >= bodies[k].size()) n = bodies[k].size() - 1;
	++total_execs;
	vector<pair<int, vector<ExclusionLock>>> locks;
	tl_locks = &locks;
	bool thrown = false;
	bool completed = true;
	if (total_execs < 60) {
		try {
			for (auto &o : bodies[k][n]) if (!do_op(o, k)) { completed = false; break; }
		} catch (const runtime_error &) { thrown = true; }
	}
	if (completed) ++execs[k];
	while (!locks.empty()) {
		int e = locks.back().first;
		while (locks.back().second.size() > 1) locks.back().second.pop_back();
		call("rel", k, e);
		locks.pop_back();
		ret("rel", k, e, 0);
	}
	tl_locks = nullptr;
	vs_logf("{\"e\":\"end\",\"k\":%d,\"th\":%d}", k, vs_tid());
	if (thrown) throw runtime_error("planned");
}

// ---- program generation
static Op submit_op(Rng &r, int self, const string &fam) {
	int k = 1 + r.below(NT);
	int x = r.below(100);
	auto other = [&](int k) { int t = 1 + r.below(NT - 1); return t >= k ? t + 1 : t; };
	if (fam == "order") {
		if (x < 30) return { RUN, k };
		if (x < 45) return { IDLE, k };
		if (x < 70) return { APP, k, other(k) };
		return { INS, k, other(k) };
	}
	if (fam == "excl" || fam == "barrier") {
		if (x < 80) return { RUN, k };
		if (x < 90) return { IDLE, k };
		return { APP, k, other(k) };
	}
	if (x < 45) return { RUN, self && r.chance(30) ? self : k };
	if (x < 65) return { IDLE, self && r.chance(30) ? self : k };
	if (x < 80) return { APP, k, other(k) };
	return { INS, k, other(k) };
}

static void one(uint64_t seed, const string &fam) {
	Rng r(seed);
	NT = 3 + r.below(3); NE = 2; NB = 2;
	if (fam == "order" || fam == "control") NT = 4 + r.below(3);
	const int threads = 1 + r.below(3);
	bodies.assign(NT + 1, {});
	execs.assign(NT + 1, 0);
	handles.assign(NT + 1, nullptr);
	gates_open = false;
	for (int g = 0; g < 8; ++g) { gate_in[g] = 0; gate_need[g] = 2 + r.below(2); }
	const bool resubmit_bodies = r.chance(70);
	const bool keeps = fam == "excl" && r.chance(40);
	const bool one_title = r.chance(30);       // titles need not differ
	for (int k = 1; k <= NT; ++k) {
		int n = 1 + r.below(2);
		for (int i = 0; i < n; ++i) {
			Script s;
			if (fam == "excl") {
				int e = r.below(NE);
				s.push_back({ TRY, e });
				if (r.chance(30)) s.push_back({ LCOPY, e });
				for (int y = r.below(3); y > 0; --y) s.push_back({ YIELD });
				if (r.chance(25)) s.push_back({ TRY, int(r.below(NE)), int(r.below(2)) });
				if (keeps && r.chance(30)) s.push_back({ KEEP, e });
				if (keeps && r.chance(30)) s.push_back({ RELKEPT });
				if (r.chance(30)) s.push_back(submit_op(r, k, fam));
				if (r.chance(60)) s.push_back({ REL, e, int(r.below(2)) });
				if (r.chance(40)) s.push_back({ REL, e, 1 });
				for (int y = r.below(2); y > 0; --y) s.push_back({ YIELD });
				if (r.chance(20)) s.push_back({ TRY, e, int(r.below(2)) });
			} else {
				int m = r.below(4);
				for (int j = 0; j < m; ++j) {
					int x = r.below(100);
					if (x < 30) s.push_back({ YIELD });
					else if (x < 36) s.push_back({ SLEEP, 1 + int(r.below(3)) });
					else if (x < 75 && resubmit_bodies) s.push_back(submit_op(r, k, fam));
					else if (x < 80) s.push_back({ DROP, 1 + int(r.below(NT)) });
					else if (fam == "barrier") s.push_back(r.chance(60) ? Op { BINS, 1 + int(r.below(NT)), int(r.below(NB)) } : r.chance(40) ? Op { BCOPY, 0, int(r.below(NB)) } : Op { BDROP, int(r.below(2)), int(r.below(NB)) });
					else if (fam == "control" && x < 90) s.push_back({ GATE, int(r.below(3)) });
				}
				if (r.chance(15)) s.push_back({ THROW });
			}
			bodies[k].push_back(s);
		}
		if (fam == "excl" && r.chance(50)) bodies[k].push_back({});
		else if (fam != "excl") bodies[k].push_back({});
	}
	for (int e = 0; e < NE; ++e) excl.push_back(unique_ptr<Exclusion>(new Exclusion));
	barr.resize(NB);
	for (int b = 0; b < NB; ++b) barr[b].push_back(make_shared<Barrier>());
	vs_logf("{\"e\":\"init\",\"nt\":%d,\"ne\":%d,\"nb\":%d,\"thr\":%d}", NT, NE, NB, threads);
	for (int k = 1; k <= NT; ++k) {
		auto p = make_shared<Payload>(k);
		handles[k] = make_shared<Task>(one_title ? string("task") : "task" + to_string(k), [p]() { body(p->k); });
	}
	TaskMaster::set_thread_count(threads);
	vs_logf("{\"e\":\"go\"}");
	// clients
	const int nc = 1 + r.below(3);
	vector<Script> cs(nc);
	for (auto &s : cs) {
		int n = 2 + r.below(fam == "control" ? 4 : 5);
		for (int i = 0; i < n; ++i) {
			int x = r.below(100);
			if (x < 65) s.push_back(submit_op(r, 0, fam));
			else if (x < 72) s.push_back({ DROP, 1 + int(r.below(NT)) });
			else if (x < 85) s.push_back({ YIELD });
			else if (keeps) s.push_back({ RELKEPT });
			else if (fam == "barrier") s.push_back(r.chance(50) ? Op { BINS, 1 + int(r.below(NT)), int(r.below(NB)) } : r.chance(40) ? Op { BCOPY, 0, int(r.below(NB)) } : Op { BDROP, int(r.below(2)), int(r.below(NB)) });
			else s.push_back({ SLEEP, 1 });
		}
	}
	Script ctl;
	bool cancelled = false;
	if (fam == "control") {
		int n = 1 + r.below(4);
		for (int i = 0; i < n; ++i) {
			int x = r.below(100);
			for (int y = r.below(4); y > 0; --y) ctl.push_back({ YIELD });
			if (x < 30) ctl.push_back({ PAUSE });
			else if (x < 55) ctl.push_back({ RESUME });
			else if (x < 85) ctl.push_back({ THR, int(r.below(4)) });
			else if (i == n - 1) { ctl.push_back({ CANCEL }); cancelled = true; }
		}
	}
	vector<thread> ts;
	for (auto &s : cs) ts.emplace_back([&s]() { for (auto &o : s) do_op(o, 0); });
	// control operations can block for ever behind a closed gate: give them their own thread too
	thread ct([&ctl]() { for (auto &o : ctl) do_op(o, 0); });
	vs_wait_quiescent();
	vs_logf("{\"e\":\"fin\"}");
	gates_open = true;
	vs_wait_quiescent();
	for (auto &t : ts) t.join();
	ct.join();
	vs_logf("{\"e\":\"fin\"}");
	if (!cancelled) {
		do_op({ RESUME }, 0);
		do_op({ THR, 1 + int(r.below(3)) }, 0);
		vs_wait_quiescent();
		vs_logf("{\"e\":\"fin\"}");
	}
	// let go of everything
	while (!kept.empty()) do_op({ RELKEPT }, 0);
	for (int b = 0; b < NB; ++b) while (!barr[b].empty()) do_op({ BDROP, 0, b }, 0);
	vs_wait_quiescent();
	vs_logf("{\"e\":\"fin\"}");
	if (r.chance(70)) {
		vector<int> order;
		for (int k = 1; k <= NT; ++k) order.insert(order.begin() + r.below(order.size() + 1), k);
		for (int k : order) do_op({ DROP, k }, 0);
		vs_wait_quiescent();
		vs_logf("{\"e\":\"fin\"}");
	}
	if (r.chance(50)) {
		do_op({ CANCEL }, 0);
		do_op({ THR, 0 }, 0);
		vs_wait_quiescent();
		vs_logf("{\"e\":\"fin\"}");
	}
}

int main(int argc, char **argv) {
	crucible::catch_all([](){}, [](string){});
	return r_main(argc, argv, [](uint64_t s, const string &) { return r_policy(s); }, one);
}
