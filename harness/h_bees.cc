// Runs the whole daemon (src/*.cc, unmodified) on the simulated filesystem under the deterministic scheduler.
#include "bees.h"
#include "bsim.h"
#include "runner.h"

#include <algorithm>
#include <cstdarg>
#include <linux/fs.h>
#include <sys/syscall.h>
#include <thread>

int bees_real_main(int argc, char **argv);
using namespace bsim;
using std::string;
using std::to_string;
using std::vector;
typedef unsigned long long ull;

static long rawsys(long nr, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) { return ::syscall(nr, a, b, c, d, e, f); }
static int world_fd = -1;
static std::set<string> skip;            // event kinds this family does not record
static bool fatal_seen = false;
static bool running = false;              // the daemon has read its first file
static bool silent = false;              // populating: nothing is recorded yet

struct Cfg {
	string fam;
	int mode = 0, threads = 1;
	bool send_wa = false, homefs = false, concurrent = false, faults = false, toxic = false, throttle = false, load = false;
	u64 hash_extents = 1;
};
static Cfg C;

static std::set<u64> marked;
static void put_world() {
	string s = save();
	rawsys(SYS_ftruncate, world_fd, 0);
	size_t p = 0;
	while (p < s.size()) { long n = rawsys(SYS_pwrite64, world_fd, long(s.data() + p), s.size() - p, p); if (n <= 0) break; p += n; }
}
static void get_world() {
	off_t n = rawsys(SYS_lseek, world_fd, 0, SEEK_END);
	string s(n, '\0');
	off_t p = 0;
	while (p < n) { long k = rawsys(SYS_pread64, world_fd, long(&s[p]), n - p, p); if (k <= 0) break; p += k; }
	if (n) load(s);
}
static void event(const string &s) {
	if (silent) return;
	size_t a = s.find("\"e\":\"") + 5;
	if (skip.count(s.substr(a, s.find('"', a) - a))) return;
	static bool ms = getenv("R_MS");
	vs_log() += "{" + s + (ms ? ",\"ms_\":" + to_string(vs_now_ns() / 1000000) : "") + "}\n";
}
static string ev(const char *f, ...) __attribute__((format(printf, 1, 2)));
static string ev(const char *f, ...) {
	char b[4000];
	va_list ap; va_start(ap, f);
	int n = vsnprintf(b, sizeof b, f, ap);
	va_end(ap);
	return string(b, std::min<size_t>(n, sizeof b - 1));
}
[[noreturn]] static void leave(int st) {
	VsAtomic at;
	enabled = false;
	on_exit_call = nullptr;
	r_flush_log();
	for (;;) rawsys(SYS_exit_group, st);
}

// ---------------------------------------------------------------- describing files
static bool in_home(Inode *i) {
	for (auto &l : i->links) { Inode *d = inode(W.b, i->sub, l.dir); if (d && i->sub == 5 && !d->links.empty() && d->links[0].name == ".beeshome") return true; }
	return false;
}
static string file_json(const char *e, Inode *i) {
	string c, p, t, g, big;
	for (u64 o = 0; o < i->size; o += BLK) {
		auto sep = [&](string &s) { if (!s.empty()) s += ","; };
		sep(c); c += to_string(block_at(W.b, i, o));
		sep(p); p += to_string(phys_at(W.b, i, o));
		int ty = 0; u64 gen = 0;                    // 0 hole, 1 regular, 2 prealloc, 3 inline, 4 compressed
		auto it = i->ext.upper_bound(o);
		if (it != i->ext.begin()) { --it; if (it->second.type == 0) ty = o ? 0 : 3; else if (o < it->first + it->second.len && it->second.bytenr) { ty = it->second.type == 2 ? 2 : it->second.comp ? 4 : 1; auto x = W.b.ext.find(it->second.bytenr); if (x != W.b.ext.end()) gen = x->second.gen; } }
		sep(t); t += to_string(ty);
		sep(g); g += to_string(gen);
	}
	std::set<u64> xs;
	for (auto &x : i->ext) if (x.second.bytenr && xs.insert(x.second.bytenr).second) { auto it = W.b.ext.find(x.second.bytenr); if (it != W.b.ext.end() && it->second.disk > 32 * BLK) big += (big.empty() ? "" : ",") + to_string(x.second.bytenr / BLK) + "," + to_string(it->second.disk / BLK); }
	bool ro = W.b.sub.count(i->sub) && W.b.sub[i->sub].ro;
	return ev("\"e\":\"%s\",\"s\":%llu,\"i\":%llu,\"sz\":%llu,\"nc\":%d,\"nd\":%d,\"ro\":%d,\"c\":[", e, (ull)i->sub, (ull)i->ino, (ull)i->size,
		int(!!(i->iflags & FS_NOCOW_FL)), int(i->nosum()), int(ro)) + c + "],\"p\":[" + p + "],\"t\":[" + t + "],\"g\":[" + g + "]" + (big.empty() ? "" : ",\"big\":[" + big + "]");
}
static void tell_file(Inode *i) { event(file_json("u", i)); }
static void tell_all(const char *e) {
	for (auto &s : W.b.sub) for (auto &x : s.second.ino) if (x.second->kind == 0 && !x.second->links.empty() && !in_home(x.second.get())) event(file_json(e, x.second.get()));
}
static void tell_sub(u64 id, int v) { event(ev("\"e\":\"sub\",\"s\":%llu,\"v\":%d,\"ro\":%d", (ull)id, v, int(W.b.sub.count(id) && W.b.sub[id].ro))); }
static vector<Inode *> user_files() {
	vector<Inode *> v;
	for (auto &s : W.b.sub) for (auto &x : s.second.ino) if (x.second->kind == 0 && !x.second->links.empty() && !in_home(x.second.get())) v.push_back(x.second.get());
	return v;
}
static vector<u64> user_subs(bool writable) {
	vector<u64> v;
	for (auto &s : W.b.sub) if (!writable || !s.second.ro) v.push_back(s.first);
	return v;
}

// ---------------------------------------------------------------- user activity
static int fresh_symbols = 1000;
static int life_no = 0;                   // names and fresh contents are never used twice, also across lives
static u32 next_symbol() { return 1000 + (fresh_symbols++) * 8 + life_no; }
static u32 pick_symbol(Rng &r) {
	switch (r.below(10)) {
	case 0: return 0;
	case 1: case 2: return symbol(next_symbol());
	default: return symbol(1 + r.below(12));
	}
}
static void fill(Rng &r, Inode *i) {
	// a few segments of different kinds
	u64 pos = 0;
	int nseg = 1 + r.below(4);
	vector<Inode *> others = user_files();
	if (r.chance(8)) { string s = bytes_of(symbol(1 + r.below(12))).substr(0, 1 + r.below(2000)); write_inline(W.b, i, content(s), s.size()); return; }
	if (r.below(50) == 0) {
		// extents of different sizes one after another, at the sizes where the scan treats them differently
		for (int n = 0, k = 2 + r.below(4); n < k; ++n) {
			u64 len = n % 2 ? (r.chance(70) ? 129 : 128 + r.below(3)) : 1 + r.below(3);
			vector<u32> ids;
			for (u64 b = 0; b < len; ++b) ids.push_back(r.chance(5) ? pick_symbol(r) : symbol(next_symbol()));
			write_blocks(W.b, i, pos, ids, 0);
			pos += len * BLK;
		}
		nseg = r.below(2);
	}
	for (int n = 0; n < nseg; ++n) {
		u64 len = 1 + (r.chance(30) ? r.below(12) : r.below(5));
		if (r.below(80) == 0) len = 31 + r.below(4);
		else if (r.below(700) == 0) len = 127 + r.below(4);
		switch (r.below(12)) {
		case 0: pos += len * BLK; break;                                          // hole
		case 1: write_prealloc(W.b, i, pos, len * BLK); pos += len * BLK; break;
		case 2: case 3: case 4: {                                                 // the same bytes as somewhere else
			Inode *o = others.empty() ? nullptr : others[r.below(others.size())];
			if (o && o != i && o->size >= BLK && !o->ext.empty()) {
				u64 nb = o->size / BLK, from = r.below(nb), k = std::min<u64>(nb - from, 1 + r.below(12));
				vector<u32> ids;
				for (u64 b = 0; b < k; ++b) ids.push_back(block_at(W.b, o, (from + b) * BLK));
				write_blocks(W.b, i, pos, ids, r.chance(15) ? 1 : 0);
				pos += ids.size() * BLK;
				break;
			}
		}
		// fall through
		default: {
			vector<u32> ids;
			for (u64 b = 0; b < len; ++b) ids.push_back(pick_symbol(r));
			write_blocks(W.b, i, pos, ids, r.chance(15) && len > 1 && len <= 32 ? 1 : 0);
			pos += len * BLK;
		}
		}
	}
	if (pos > i->size) set_size(W.b, i, pos);
	if (r.chance(25) && i->size > BLK) set_size(W.b, i, i->size - 1 - r.below(BLK - 1));
}
static string fname(int n) { return "f" + to_string(life_no) + "_" + to_string(n); }
static int next_name = 0;
static u64 random_dir(Rng &r, u64 sub) {
	vector<u64> d { 256 };
	for (auto &x : W.b.sub.at(sub).ino) if (x.second->kind == 1 && x.first != 256 && !x.second->links.empty() && x.second->links[0].name != ".beeshome") d.push_back(x.first);
	return d[r.below(d.size())];
}
static Inode *new_file(Rng &r) {
	auto subs = user_subs(true);
	u64 s = subs[r.below(subs.size())];
	Inode *i = mkfile(W.b, s, random_dir(r, s), fname(next_name++));
	if (r.chance(6)) i->iflags |= FS_NOCOW_FL;
	else if (r.chance(4)) i->nodatasum = 1;
	else if (r.chance(3)) i->iflags |= FS_NOCOW_FL, i->nodatasum = 2;
	fill(r, i);
	return i;
}
static void user_op(Rng &r, bool gentle) {
	VsAtomic at;
	auto files = user_files();
	auto pick = [&]() -> Inode * {
		for (int n = 0; n < 8 && !files.empty(); ++n) { Inode *i = files[r.below(files.size())]; if (!W.b.sub[i->sub].ro) return i; }
		return nullptr;
	};
	Inode *i = pick();
	switch (gentle ? r.below(6) : r.below(14)) {
	case 0: case 1: i = new_file(r); tell_file(i); break;
	case 2: if (i) { vector<u32> ids; for (int b = 0, n = 1 + r.below(4); b < n; ++b) ids.push_back(pick_symbol(r)); write_blocks(W.b, i, r.below(i->size / BLK + 2) * BLK, ids, r.chance(15)); tell_file(i); } break;
	case 3: if (i && files.size() < 20 && W.b.sub.size() < 7) {
			u64 id = snapshot(W.b, i->sub, 5, 256, "snap" + fname(next_name++), r.chance(40));
			tell_sub(id, 1);
			for (auto &x : W.b.sub[id].ino) if (x.second->kind == 0 && !in_home(x.second.get())) event(file_json("u", x.second.get()) + ",\"sn\":1");
		} break;
	case 4: { Inode *j = pick(); if (i && j && i != j && i->size >= BLK && i->nosum() == j->nosum()) {
			u64 k = i->size / BLK, a = r.below(k), n = 1 + r.below(k - a);
			reflink(W.b, i, a * BLK, n * BLK, j, r.below(j->size / BLK + 2) * BLK); tell_file(j); } } break;
	case 5: commit(W.b); break;
	case 6: case 7: if (i) { vector<u32> ids; for (int b = 0, n = 1 + r.below(3); b < n; ++b) ids.push_back(pick_symbol(r)); write_blocks(W.b, i, r.below(i->size / BLK + 1) * BLK, ids, 0); tell_file(i); } break;
	case 8: if (i) { set_size(W.b, i, r.below(i->size + 2 * BLK)); tell_file(i); } break;
	case 9: if (i) { u64 s = i->sub, n = i->ino; auto l = i->links[0]; bsim::unlink(W.b, s, l.dir, l.name); event(ev("\"e\":\"gone\",\"s\":%llu,\"i\":%llu", (ull)s, (ull)n)); } break;
	case 10: if (i) { auto l = i->links[0]; bsim::rename(W.b, i->sub, l.dir, l.name, random_dir(r, i->sub), fname(next_name++)); event(ev("\"e\":\"mv\",\"s\":%llu,\"i\":%llu", (ull)i->sub, (ull)i->ino)); } break;
	case 11: if (W.b.sub.size() > 2) { auto it = W.b.sub.rbegin(); u64 id = it->first; tell_sub(id, 0); for (auto &x : it->second.ino) if (x.second->kind == 0) event(ev("\"e\":\"gone\",\"s\":%llu,\"i\":%llu", (ull)id, (ull)x.first)); rmsubvol(W.b, id); } break;
	case 12: if (W.b.sub.size() > 1) { auto it = W.b.sub.rbegin(); if (it->first != 5) { set_ro(W.b, it->first, !it->second.ro); event(ev("\"e\":\"ro\",\"s\":%llu,\"v\":%d", (ull)it->first, int(it->second.ro))); } } break;
	case 13: if (i) { write_prealloc(W.b, i, r.below(i->size / BLK + 1) * BLK, (1 + r.below(3)) * BLK); tell_file(i); } break;
	}
}
// Names that move while the daemon looks files up
static void tell_moved(Inode *i) { event(ev("\"e\":\"mv\",\"s\":%llu,\"i\":%llu", (ull)i->sub, (ull)i->ino)); }
static void tell_gone(u64 s, u64 i) { event(ev("\"e\":\"gone\",\"s\":%llu,\"i\":%llu", (ull)s, (ull)i)); }
static void name_op(Rng &r, Inode *i = nullptr, bool race = false, int op = -1) {
	VsAtomic at;
	auto files = user_files();
	if (files.empty()) return;
	if (!i) i = files[r.below(files.size())];
	if (W.b.sub[i->sub].ro) return;
	auto l = i->links[r.below(i->links.size())];
	u64 s = i->sub;
	if (race && r.chance(50)) for (auto &x : i->links) for (auto &y : W.b.sub) if (x.dir != 256 && y.first != s && inode(W.b, y.first, i->ino) && lookup(W.b, y.first, 256, x.name)) { l = x; op = 11; }
	switch (op >= 0 ? op : r.below(race ? 14 : 13)) {
	case 0: case 1: {                                     // two files swap names
		vector<Inode *> o; for (auto x : files) if (x != i && x->sub == s) o.push_back(x);
		if (o.empty()) return;
		Inode *j = o[r.below(o.size())]; auto m = j->links[0];
		tell_moved(i); tell_moved(j);
		bsim::rename(W.b, s, l.dir, l.name, l.dir, "swap" + to_string(next_name));
		bsim::rename(W.b, s, m.dir, m.name, l.dir, l.name);
		bsim::rename(W.b, s, l.dir, "swap" + to_string(next_name++), m.dir, m.name);
		break; }
	case 2: {                                             // a symlink takes over the name
		vector<Inode *> o; for (auto x : files) if (x != i && x->sub == s) o.push_back(x);
		tell_moved(i);
		bsim::rename(W.b, s, l.dir, l.name, random_dir(r, s), fname(next_name++));
		mksymlink(W.b, s, l.dir, l.name, r.chance(50) && !o.empty() ? o[r.below(o.size())]->links[0].name : i->links[0].name);
		break; }
	case 3: {                                             // a new file takes over the name
		tell_moved(i);
		bsim::rename(W.b, s, l.dir, l.name, random_dir(r, s), fname(next_name++));
		Inode *n = mkfile(W.b, s, l.dir, l.name); fill(r, n); tell_file(n);
		break; }
	case 4: {                                             // deleted, and something else gets the name
		u64 ino = i->ino;
		if (i->links.size() > 1) return;
		bsim::unlink(W.b, s, l.dir, l.name); tell_gone(s, ino);
		Inode *n = mkfile(W.b, s, l.dir, l.name); fill(r, n); if (r.chance(20)) n->iflags |= FS_NOCOW_FL; tell_file(n);
		break; }
	case 5: add_link(W.b, i, random_dir(r, s), fname(next_name++)); break;
	case 6: if (i->links.size() > 1) { tell_moved(i); bsim::unlink(W.b, s, l.dir, l.name); } break;
	case 7: {                                             // another filesystem is mounted over the name
		tell_moved(i);
		bsim::rename(W.b, s, l.dir, l.name, random_dir(r, s), fname(next_name++));
		Inode *n = mkfile(W.b, s, l.dir, l.name); n->kind = 3;
		break; }
	case 8: {                                             // two subvolumes swap names
		vector<Subvol *> v; for (auto &x : W.b.sub) if (x.first != 5 && x.second.parent == 5) v.push_back(&x.second);
		if (v.size() < 2) return;
		Subvol *a = v[r.below(v.size())], *b = v[r.below(v.size())];
		if (s != 5 && W.b.sub[s].parent == 5) a = &W.b.sub[s];
		if (a == b) return;
		for (auto x : files) if (x->sub == a->id || x->sub == b->id) tell_moved(x);
		std::swap(a->name, b->name); std::swap(a->dir, b->dir);
		a->itemgen = b->itemgen = W.b.transid; ++W.b.version;
		break; }
	case 9: {                                             // a directory is moved aside and recreated
		vector<Inode *> o; for (auto &x : W.b.sub.at(s).ino) if (x.second->kind == 1 && x.first != 256 && !x.second->links.empty() && x.second->links[0].name != ".beeshome") o.push_back(x.second.get());
		if (o.empty()) return;
		Inode *d = o[r.below(o.size())]; auto dl = d->links[0];
		vector<string> in; for (auto x : files) if (x->sub == s) for (auto &k : x->links) if (k.dir == d->ino) { tell_moved(x); in.push_back(k.name); }
		bsim::rename(W.b, s, dl.dir, dl.name, 256, "dir" + to_string(next_name++));
		Inode *e = mkdir(W.b, s, dl.dir, dl.name);
		for (auto &n : in) if (r.chance(70)) { Inode *k = mkfile(W.b, s, e->ino, n); fill(r, k); tell_file(k); }
		break; }
	case 10: {                                            // a snapshot is taken, then the file moves into a directory
		if (l.dir != 256 || W.b.sub.size() >= 7 || files.size() >= 20) return;
		u64 id = snapshot(W.b, s, 5, 256, "snap" + fname(next_name++), r.chance(40));
		tell_sub(id, 1);
		for (auto &x : W.b.sub[id].ino) if (x.second->kind == 0 && !in_home(x.second.get())) event(file_json("u", x.second.get()) + ",\"sn\":1");
		u64 d = random_dir(r, s);
		if (d == 256) d = mkdir(W.b, s, 256, "dir" + to_string(next_name++))->ino;
		if (lookup(W.b, s, d, l.name)) return;
		tell_moved(i);
		bsim::rename(W.b, s, 256, l.name, d, l.name);
		break; }
	case 11: case 12: {                                   // a subvolume takes over the name of a directory
		if (l.dir == 256) return;
		Inode *d = inode(W.b, s, l.dir);
		if (!d || d->links.empty()) return;
		auto dl = d->links[0];
		vector<Subvol *> v;
		for (auto &x : W.b.sub) if (x.first != 5 && x.first != s && x.second.parent == 5) { bool kids = false; for (auto &y : W.b.sub) if (y.second.parent == x.first) kids = true; if (!kids) v.push_back(&x.second); }
		if (v.empty()) return;
		Subvol *a = v[r.below(v.size())];
		for (auto x : v) if (inode(W.b, x->id, i->ino) && lookup(W.b, x->id, 256, l.name)) { a = x; break; }
		for (auto x : files) if (x->sub == s || x->sub == a->id) tell_moved(x);
		bsim::rename(W.b, s, dl.dir, dl.name, 256, "dir" + to_string(next_name++));
		a->parent = s; a->dir = dl.dir; a->name = dl.name; a->itemgen = W.b.transid; ++W.b.version;
		break; }
	case 13:                                              // only this name goes away
		tell_moved(i);
		bsim::rename(W.b, s, l.dir, l.name, random_dir(r, s), fname(next_name++));
		break;
	}
}
// just between looking names up and using them
struct Aim { u64 s, i; };
static map<int, Aim> aim;
static void aim_at(const string &ev) {
	if (ev.compare(0, 9, "\"e\":\"ip\",") && ev.compare(0, 9, "\"e\":\"rb\",")) return;
	auto num = [&](const char *k) { auto p = ev.find(k); return p == string::npos ? 0ull : strtoull(ev.c_str() + p + strlen(k), 0, 10); };
	aim[num("\"t\":")] = Aim { num("\"s\":"), num("\"i\":") };
}
static void race(Rng &r) {
	auto f = aim.find(vs_tid());
	if (f == aim.end()) return;
	Aim a = f->second;
	if (r.chance(50)) aim.erase(f);
	if (!r.chance(12)) return;
	Inode *i = a.i ? inode(W.b, a.s, a.i) : nullptr;
	if (!a.i) for (auto x : user_files()) if (x->sub == a.s) i = x;
	if (!i || i->kind || i->links.empty() || in_home(i)) return;
	name_op(r, i, true);
}
// Duplicates whose sharing is promised: pieces with contents of their own, and copies of them
static vector<vector<u32>> bases;
static void share_phase(Rng &r, bool firsts, bool copies) {
	auto file = [&](std::function<void(Inode *, u64 &)> f) {
		auto subs = user_subs(true);
		u64 s = subs[r.below(subs.size())];
		Inode *i = mkfile(W.b, s, random_dir(r, s), fname(next_name++));
		u64 pos = 0;
		for (int n = 1 + r.below(4); n > 0; --n) { f(i, pos); if (copies || r.chance(15)) { pos += (1 + r.below(4)) * BLK; } if (r.chance(30)) commit(W.b); }
		if (pos > i->size) set_size(W.b, i, pos);
		if (r.chance(15) && i->size > BLK && !i->ext.empty()) {
			// the last block is no longer one of its kind
			u32 c = block_at(W.b, i, i->size - 1);
			if (firsts) bases.erase(std::remove_if(bases.begin(), bases.end(), [&](const vector<u32> &b) { return std::count(b.begin(), b.end(), c); }), bases.end());
			set_size(W.b, i, i->size - 1 - r.below(BLK - 1));
		}
		if (!silent) tell_file(i);
	};
	auto put = [&](Inode *i, u64 &pos, const vector<u32> &ids, int comp) { write_blocks(W.b, i, pos, ids, comp); pos += ids.size() * BLK; };
	auto fresh = [&](size_t n) { vector<u32> v; while (n--) v.push_back(symbol(next_symbol())); return v; };
	auto zeros = [&](Inode *i, u64 &pos) {
		if (r.chance(30)) { u64 n = (1 + r.below(6)) * BLK; write_prealloc(W.b, i, pos, n); pos += n; return; }
		// more zeros than data
		size_t z = 1 + r.below(8);
		vector<u32> v = fresh(r.chance(50) ? 0 : r.below(z));
		for (; z; --z) v.insert(v.begin() + r.below(v.size() + 1), 0);
		put(i, pos, v, 0);
	};
	if (firsts) for (int n = 1 + r.below(4); n > 0; --n) file([&](Inode *i, u64 &pos) {
		if (r.chance(20)) { zeros(i, pos); return; }
		vector<u32> v = fresh(1 + (r.chance(20) ? r.below(32) : r.below(6)));
		if (r.below(40) == 0) v = fresh(60 + r.below(140));
		bases.push_back(v);
		put(i, pos, v, r.chance(20) && v.size() > 1 && v.size() <= 32 ? 1 : 0);
	});
	if (copies) for (int n = 1 + r.below(4); n > 0; --n) file([&](Inode *i, u64 &pos) {
		if (r.chance(15) || bases.empty()) { zeros(i, pos); return; }
		vector<u32> v = bases[r.below(bases.size())];
		bool plain = false;
		if (!firsts && r.chance(50)) {
			// parts of several, which are known by now
			v.clear();
			size_t known = 0, added = 0;
			for (int k = 1 + r.below(3); k > 0; --k) {
				auto &b = bases[r.below(bases.size())];
				size_t f = r.below(b.size()), l = 1 + r.below(std::min<size_t>(b.size() - f, 20));
				// (a match must not go on from one part to the next: in another file the same two may be of different ages)
				if (!v.empty()) { if (known + l <= added + 1) continue; v.push_back(r.chance(30) ? 0 : symbol(next_symbol())); ++added; plain = true; }
				v.insert(v.end(), b.begin() + f, b.begin() + f + l);
				known += l;
			}
			// but not quite as much again of what is new
			if (r.chance(40) && known > added + 1) for (size_t k = r.below(known - added); k > 0; --k) { size_t at = r.below(v.size() + 1); v.insert(v.begin() + at, r.chance(30) ? 0 : symbol(next_symbol())); plain = true; }
		}
		put(i, pos, v, !plain && r.chance(20) && v.size() > 1 && v.size() <= 32 ? 1 : 0);
	});
	if (r.chance(30) && W.b.sub.size() < 5) {
		auto v = user_files();
		u64 from = v.empty() ? 0 : v[r.below(v.size())]->sub;
		if (from == 5 && !C.homefs) from = 0;                   // not the daemon's own files
		if (from) { u64 id = snapshot(W.b, from, 5, 256, "snap" + fname(next_name++), false); if (!silent) { tell_sub(id, 1); for (auto &x : W.b.sub[id].ino) if (x.second->kind == 0 && !in_home(x.second.get())) event(file_json("u", x.second.get()) + ",\"sn\":1"); } }
	}
	commit(W.b);
}

// extents of which every file has another part
static void pieces(Rng &r) {
	auto subs = user_subs(true);
	vector<Inode *> v;
	u64 one = subs[r.below(subs.size())];
	for (int n = 2 + r.below(3); n > 0; --n) {
		u64 s = r.chance(60) ? one : subs[r.below(subs.size())];
		v.push_back(mkfile(W.b, s, random_dir(r, s), fname(next_name++)));
	}
	Inode *whole = mkfile(W.b, one, 256, fname(next_name++));
	for (int n = 1 + r.below(4); n > 0; --n) {
		vector<u32> ids;
		vector<u64> len;
		for (size_t k = 0; k < v.size(); ++k) { len.push_back(1 + r.below(3)); for (u64 b = 0; b < len[k]; ++b) ids.push_back(r.chance(80) ? symbol(next_symbol()) : pick_symbol(r)); }
		write_blocks(W.b, whole, 0, ids, r.chance(15) ? 1 : 0);
		u64 at = 0;
		for (size_t k = 0; k < v.size(); ++k) { reflink(W.b, whole, at * BLK, len[k] * BLK, v[k], v[k]->size); at += len[k]; }
		set_size(W.b, whole, 0);
		if (r.chance(30)) commit(W.b);
	}
	auto l = whole->links[0];
	bsim::unlink(W.b, one, l.dir, l.name);
}
static void populate(Rng &r) {
	W = World();
	W.p.btrfs = 0;
	mksubvol(W.p, 0, 0, "");
	mksubvol(W.b, 0, 0, "");
	W.leaf = 2 + r.below(9);
	W.holes = r.chance(30);
	W.no_openat2 = r.chance(25);
	static const char *rel[] = { "5.16.0", "5.15.9-gentoo", "5.4.120", "5.17.0", "6.1.0-13-amd64", "6.12", "4.19.0", "5.16.20" };
	W.uname_release = rel[r.below(8)];
	string hash(4096, '\0');
	u64 hsz = C.hash_extents << 17;
	if (C.homefs) {
		Inode *h = mkfile(W.p, 5, 256, "beeshash.dat");
		set_size(W.p, h, hsz);
	} else {
		Inode *d = mkdir(W.b, 5, 256, ".beeshome");
		Inode *h = mkfile(W.b, 5, d->ino, "beeshash.dat");
		set_size(W.b, h, hsz);
	}
	int ns = r.below(3);
	for (int s = 0; s < ns; ++s) { u64 id = mksubvol(W.b, 5, 256, "sv" + to_string(s)); if (r.chance(50)) mkdir(W.b, id, 256, "d"); }
	if (r.chance(50)) mkdir(W.b, 5, 256, "dir");
	if (C.fam == "share") { bases.clear(); share_phase(r, true, C.threads == 1 && r.chance(60)); return; }
	int nf = 1 + r.below(6);
	for (int n = 0; n < nf; ++n) { new_file(r); if (r.chance(40)) commit(W.b); }
	if (r.chance(15)) pieces(r);
	for (int n = r.below(4); n > 0; --n) user_op(r, true);
	if (C.fam == "names") for (int n = r.below(5); n > 0; --n) { auto v = user_files(); Inode *i = v[r.below(v.size())]; if (!W.b.sub[i->sub].ro) add_link(W.b, i, random_dir(r, i->sub), fname(next_name++)); }
	if (C.fam == "names") for (int n = r.below(4); n > 0; --n) name_op(r, nullptr, false, 10);
	commit(W.b);
}

// A progress file from an earlier run, an earlier version, or somebody's editor
static void old_progress(Rng &r) {
	static const char *ext[] = { "0", "18446744073709551615", "18446744073709551614", "9223372036854775807", "0xffffffffffff", "4294967296", "017" };
	auto num = [&](u64 n) { return r.chance(15) ? ev("0x%llx", (ull)n) : to_string(n); };
	u64 t = W.b.transid;
	string s;
	bool wild = false;                                    // numbers no run on this filesystem would have saved
	std::set<u64> roots;
	for (auto &x : W.b.sub) if (r.chance(75)) roots.insert(x.first);
	if (C.mode == 4 ? r.chance(80) : r.chance(20)) for (u64 k = 250; k < 256; ++k) if (r.chance(80)) roots.insert(k);
	if (r.chance(30)) roots.insert(300 + r.below(5));
	for (u64 root : roots) {
		vector<string> w;
		u64 a = r.chance(50) ? 0 : r.below(t + 1), b = a + r.below(t + 2 - a);
		if (r.chance(5)) { b = t + r.below(20); wild = true; }
		bool x = r.chance(15);
		auto val = [&](u64 n) { if (!x || !r.chance(40)) return num(n); wild = true; return string(ext[r.below(7)]); };
		u64 obj = r.chance(30) ? 0 : root >= 250 && root < 256 ? (300 + r.below(300)) * BLK : 256 + r.below(12);
		w.push_back("root " + num(root));
		w.push_back("objectid " + val(obj));
		w.push_back("offset " + val(r.chance(60) ? 0 : r.below(20) * BLK));
		w.push_back((r.chance(30) ? "gen_current " : "min_transid ") + val(a));
		w.push_back((r.chance(30) ? "gen_next " : "max_transid ") + val(b));
		if (r.chance(70)) { w.push_back("started " + to_string(1600000000 + r.below(90000000))); if (r.chance(60)) w.push_back("start_ts 2023-11-14-22-30-00"); }
		if (r.chance(20)) for (size_t k = w.size() - 1; k; --k) std::swap(w[k], w[r.below(k + 1)]);
		string l;
		for (auto &k : w) l += (l.empty() ? "" : " ") + k;
		s += l + "\n";
	}
	if (r.chance(15)) {
		static const char *bad[] = { "root 5", "garbage\n", "root 7 objectid 1 offset 0 min_transid x max_transid 5\n", "root root root\n", "\n\n", "root 700 offset 5 min_transid 0 max_transid 9\n", "root 701 objectid 256 offset 0 min_transid 99999999999999999999999 max_transid 3\n" };
		s += bad[r.below(7)];
	} else if (r.chance(10)) s.pop_back();
	if (s.empty() || s.size() > BLK) return;
	Fs &f = C.homefs ? W.p : W.b;
	u64 dir = 256;
	if (!C.homefs) for (auto &x : W.b.sub.at(5).ino) if (x.second->kind == 1 && !x.second->links.empty() && x.second->links[0].name == ".beeshome") dir = x.first;
	Inode *h = mkfile(f, 5, dir, "beescrawl.dat");
	string blk = s; blk.resize(BLK);
	write_blocks(f, h, 0, { content(blk) });
	set_size(f, h, s.size());
	commit(W.b);
	for (auto &c : s) if (c == '\n') c = '|';
	vs_log() += "{\"e\":\"seed\",\"wild\":" + to_string(int(wild)) + ",\"text\":\"" + s + "\"}\n";
}

// ---------------------------------------------------------------- one life of the daemon
// some extents are slow to look up, or have very many references
static void mark_extents(Rng &r) {
	if (!C.toxic) return;
	for (auto &x : W.b.ext) if (marked.insert(x.first).second) { if (r.chance(12)) W.toxic.insert(x.first); else if (r.chance(6)) W.crowded.insert(x.first); }
}
static u64 activity = 0;
static u64 slow = 0;
static u64 op_budget = 0;          // crash when it reaches zero
static vector<string> args;

static void crash_here(const char *op) {
	vs_log() += ev("{\"e\":\"crash\",\"op\":\"%s\"}\n", op);
	VsAtomic at;
	put_world();
	leave(0);
}
// leave the filesystem alone until nothing happens any more: the daemon polls for new transactions at least hourly
static bool settle(int max_rounds) {
	int idle = 0;
	for (int n = 0; n < max_rounds; ++n) {
		u64 before = activity;
		{ VsAtomic at; if (n < 2) W.b.extdirty = 1; commit(W.b); }     // a later transaction makes the earlier ones visible
		vs_sleep_ns(3700000000000ull);
		idle = activity == before ? idle + 1 : 0;
		if (idle >= 2) return true;
	}
	return false;
}
// pause and resume; while paused, everything comes to rest eventually
static void control(Rng &r) {
	auto wait = [&]() { if (C.load && r.chance(50)) bsim::loadavg = r.below(80) / 10.0; if (r.chance(40)) vs_sleep_ns(1000000ull * r.below(r.chance(50) ? 3000 : 3000000)); else for (int y = r.below(1500); y > 0; --y) vs_yield(); };
	wait();
	send_signal(SIGUSR1);
	if (r.chance(20)) send_signal(SIGUSR1);
	wait();
	if (r.chance(60)) {
		vs_wait_pred([](void *) { return waiting_for_signal() && signals_pending() == 0; }, nullptr);
		vs_sleep_ns(20000000000000ull);
		{ VsAtomic at; vs_log() += ev("{\"e\":\"rest\",\"ms\":%llu}\n", (ull)(vs_now_ns() / 1000000)); if (r.chance(60)) { tell_file(new_file(r)); W.b.extdirty = 1; commit(W.b); } }
		wait();
		if (r.chance(50)) vs_sleep_ns(10000000000000ull);
	}
	send_signal(SIGUSR2);
	if (r.chance(20)) send_signal(SIGUSR2);
}
// what the daemon does in one life; the last one settles and says so
static void life(u64 seed, int inc, bool last, Rng r) {
	life_no = inc + 1;
	VsConfig cf = r_policy(seed * 31 + inc, false);
	if (cf.policy == 0 && cf.p_switch > 0.5) cf.p_switch = 0.1;
	cf.seed = seed * 1000003ull + 17 + inc * 7919;
	cf.max_steps = C.fam == "share" ? 20000000 : 4000000;
	cf.p_spurious = 0;
	vs_on_fatal = [](VsOutcome o, const string &what) { fatal_seen = true; enabled = false; on_exit_call = nullptr; if (getenv("R_VERBOSE")) fprintf(stderr, "FATAL %s\n%s\n", what.c_str(), vs_dump().c_str()); r_fatal(o, what); };
	unsetenv("BEESSTATUS");
	if (C.homefs) setenv("BEESHOME", "/simhome", 1); else unsetenv("BEESHOME");
	vs_start(cf);
	on_event = [](const string &s) {
		if (!running && s.compare(0, 9, "\"e\":\"rd\",") == 0) running = true;
		if (s.compare(0, 9, "\"e\":\"rd\",") == 0 || s.compare(0, 9, "\"e\":\"dd\",") == 0) { if (s.find("\"k\":\"h\"") == string::npos) ++activity; }
		if (C.fam == "names") aim_at(s);
		event(s);
	};
	on_exit_call = [](int st) {
		on_exit_call = nullptr;
		vs_log() += ev("{\"e\":\"exit\",\"st\":%d,\"ms\":%llu}\n", st, (ull)(vs_now_ns() / 1000000));
		VsAtomic at;
		tell_all("end");
		put_world();
		leave(0);
	};
	op_budget = 0;
	if (!last && C.fam != "share" && r.chance(C.fam == "state" ? 15 : 70)) { op_budget = 1; for (int k = 1 + r.below(12); k > 0; --k) op_budget *= 2; op_budget += r.below(op_budget); }
	// time passes during the daemon's operations too: sometimes a lot of it
	slow = C.fam != "signals" && r.chance(40) ? 1 + r.below(60) : 0;
	static Rng sr(0);
	sr = Rng(seed * 7 + inc);
	// the home directory may be slow, or refuse to store anything, until the daemon is told to stop
	const bool home_weak = C.fam == "quiet" || C.fam == "state" || C.fam == "crash";
	static bool home_slow, home_fails;
	home_slow = home_weak && sr.chance(30);
	home_fails = home_weak && sr.chance(20);
	on_op = [](const char *op) {
		if (home_slow && sr.chance(60) && (!strcmp(op, "fsync") || !strcmp(op, "rename")))
			for (int n = sr.below(80); n > 0 && home_slow; --n) vs_sleep_ns(15000000000ull);
		if (op_budget && !--op_budget) crash_here(op);
		if (C.fam == "names" && running && !strcmp(op, "open")) race(sr);
		if (C.throttle && running && sr.chance(10)) vs_set_now_ns(vs_now_ns() + 1000000ull * sr.below(2000));
		if (slow && sr.below(1000) < slow) vs_set_now_ns(vs_now_ns() + 1000000ull * sr.below(500000));
	};
	if (C.faults) {
		static Rng fr(0);
		static std::map<string, int> rate;
		fr = Rng(seed * 13 + inc);
		rate.clear();
		for (auto o : { "open", "create", "tmpfile", "read", "write", "short", "fsync", "truncate", "rename", "unlink", "dedupe", "logical", "search", "paths", "setflags" })
			if (fr.chance(35)) rate[o] = fr.chance(60) ? 1 + fr.below(10) : fr.chance(80) ? 30 + fr.below(70) : 500;
		// start-up may refuse to run without its files; that is another matter
		fault = [](const char *op, u64, u64 ino, u64, u64) -> int {
			auto it = rate.find(op);
			if (it == rate.end() || !running || ino == 256 && !strcmp(op, "open") || !fr.chance(100) || fr.below(1000) >= u64(it->second)) return 0;
			static const int es[] = { EIO, ENOSPC, ENOMEM, EIO, EINTR };
			if (!strcmp(op, "dedupe")) { static const int ds[] = { EIO, EINVAL, EAGAIN, EPERM, ENOSPC, ETXTBSY }; return ds[fr.below(6)]; }
			if (!strcmp(op, "logical")) { static const int ls[] = { EIO, ENOENT, ENOMEM, EINVAL }; return ls[fr.below(4)]; }
			return es[fr.below(5)];
		};
	}
	if (home_fails) fault = [](const char *op, u64, u64, u64, u64) -> int {
		if (!home_fails || !running || !sr.chance(40) || strcmp(op, "fsync") && strcmp(op, "rename") && strcmp(op, "create") && strcmp(op, "unlink")) return 0;
		return sr.chance(50) ? ENOSPC : EIO;
	};
	running = false;
	aim.clear();
	enabled = true;
	vs_log() += ev("{\"e\":\"start\",\"inc\":%d,\"ms\":%llu}\n", inc, (ull)(vs_now_ns() / 1000000));
	std::thread driver([=]() mutable {
		if (C.concurrent) {
			int n = 3 + r.below(12);
			for (int k = 0; k < n; ++k) {
				if (r.chance(50)) vs_sleep_ns(1000000ull * r.below(100000)); else for (int y = r.below(200); y > 0; --y) vs_yield();
				if (C.fam == "names" && r.chance(75)) name_op(r); else user_op(r, false);
				{ VsAtomic at; mark_extents(r); }
				if (C.fam == "signals" && r.chance(30)) control(r);
			}
		}
		if (C.fam == "signals") {
			for (int n = r.below(4); n > 0; --n) control(r);
			if (r.chance(40)) {
				bsim::loadavg = 0;
				if (r.chance(50)) send_signal(SIGUSR2);
				bool ok = settle(40);
				VsAtomic at;
				tell_all("end");
				vs_log() += ev("{\"e\":\"settled\",\"ok\":%d,\"ms\":%llu}\n", int(ok), (ull)(vs_now_ns() / 1000000));
			}
			if (r.chance(30)) { send_signal(SIGUSR1); if (r.chance(50)) for (int y = r.below(50); y > 0; --y) vs_yield(); }
			for (int n = 1 + r.below(3); n > 0; --n) { send_signal(r.chance(70) ? SIGTERM : SIGINT); if (r.chance(50)) for (int y = r.below(50); y > 0; --y) vs_yield(); }
			vs_sleep_ns(100000000000000ull);
		}
		if (C.fam == "share") {
			slow = 0;
			for (int ph = inc ? 1 : 0; ph < 4; ++ph) {
				if (ph) { VsAtomic at; bool f = C.threads == 1 ? r.chance(30) : ph % 2 == 0; share_phase(r, f, C.threads == 1 || !f); }
				bool ok = settle(60);
				ull exc = 0;                                    // scans that were given up (two workers at the same files)
				try { exc = const_cast<const BeesStats &>(BeesStats::s_global).at("exception_caught"); } catch (std::out_of_range &) {}
				VsAtomic at;
				tell_all("end");
				vs_log() += ev("{\"e\":\"settled\",\"ok\":%d,\"exc\":%llu,\"ms\":%llu}\n", int(ok), exc, (ull)(vs_now_ns() / 1000000));
				if (r.chance(40)) break;
			}
		} else if (!last) {
			if (r.chance(50)) vs_sleep_ns(1000000ull * r.below(r.chance(50) ? 4000 : 2000000));
			if (r.chance(80)) { for (int y = r.below(2000); y > 0; --y) vs_yield(); }
		} else {
			slow = 0;
			bool ok = settle(40);
			VsAtomic at;
			tell_all("end");
			vs_log() += ev("{\"e\":\"settled\",\"ok\":%d,\"ms\":%llu}\n", int(ok), (ull)(vs_now_ns() / 1000000));
		}
		op_budget = 0;
		home_slow = home_fails = false;
		send_signal(SIGTERM);
		vs_sleep_ns(100000000000000ull);
	});
	driver.detach();
	vector<char *> av;
	for (auto &a : args) av.push_back(&a[0]);
	av.push_back(nullptr);
	int rv = bees_real_main(av.size() - 1, av.data());
	vs_log() += ev("{\"e\":\"ret\",\"st\":%d}\n", rv);
	VsAtomic at;
	put_world();
	leave(0);
}

static void one(u64 seed, const string &fam) {
	vs_stop();
	Rng r(seed);
	C = Cfg();
	C.fam = fam;
	C.mode = r.below(5);
	C.threads = fam == "toxic" ? 1 : 1 + r.below(4);
	C.send_wa = r.chance(40);
	C.homefs = r.chance(50);
	C.concurrent = fam != "quiet" && fam != "state" && fam != "share" && r.chance(fam == "names" ? 100 : 70);
	C.faults = fam == "faults";
	C.throttle = fam == "signals" && r.chance(25);
	C.load = fam == "signals" && r.chance(25);
	C.toxic = fam == "toxic" || ((fam == "dedup" || fam == "faults") && r.chance(20));
	marked.clear();
	life_no = 0;
	skip = { "fl", "hrd" };
	if (fam != "names") skip.insert({ "close", "ip", "rb" });
	next_name = 0; fresh_symbols = 1000;
	world_fd = rawsys(SYS_memfd_create, long("world"), 0);
	silent = true;
	populate(r);
	mark_extents(r);
	silent = false;
	args = { "bees", "-c", to_string(C.threads), "-m", to_string(C.mode), "-v", "8" };
	if (C.send_wa) args.push_back("-a");
	if (C.throttle) { args.push_back("--throttle-factor"); args.push_back(r.chance(50) ? "1" : "0.3"); }
	if (C.load) { args.push_back("-g"); args.push_back(r.chance(50) ? "2.5" : "4"); if (r.chance(50)) { args.push_back("-G"); args.push_back("1"); } }
	args.push_back("/sim");
	vs_log() += ev("{\"e\":\"meta\",\"mode\":%d,\"threads\":%d,\"wa\":%d,\"homefs\":%d,\"kernel\":\"%s\",\"oa2\":%d}\n", C.mode, C.threads, int(C.send_wa), int(C.homefs), W.uname_release.c_str(), int(!W.no_openat2));
	on_event = nullptr;
	for (auto &x : W.b.sub) tell_sub(x.first, 1);
	tell_all("u");
	if (fam == "state") old_progress(r);
	int lives = fam == "share" ? 1 + r.below(2) : fam == "state" ? 1 + r.below(3) : fam == "crash" || (fam == "faults" && r.chance(50)) ? 2 + r.below(3) : 1;
	for (int n = 0; n < lives; ++n) {
		r_flush_log();
		Rng lr(seed * 977 + n);
		pid_t c = fork();
		if (c == 0) { life(seed, n, n + 1 == lives, lr); }
		int st = 0;
		waitpid(c, &st, 0);
		if (!WIFEXITED(st) || WEXITSTATUS(st)) { vs_logf("{\"e\":\"died\",\"st\":%d}", st); break; }
		W = World();
		get_world();
	}
	r_flush_log();
	for (;;) rawsys(SYS_exit_group, 0);
}
int main(int argc, char **argv) {
	return r_main(argc, argv, [](uint64_t s, const string &) { return r_policy(s, false); }, one);
}
