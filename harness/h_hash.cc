// The real hash table (src/bees-hash.cc) on the simulated filesystem: random programs of lookups, records,
// promotions and erasures, with its own write-back and prefetch threads running.
#include "bees.h"
#include "bsim.h"
#include "runner.h"
#include <sys/syscall.h>
#include <thread>
using namespace bsim;
using std::string; using std::to_string; using std::vector; using std::pair; using std::map;
typedef unsigned long long ull;
static const u64 XB = 131072, BKT = 4096, TOX = 1 << 9;

static map<u64, int> addr_no;
static map<u64, int> hash_no;
static vector<u64> hashes;                // by number - 1
static u64 extents, buckets;
static u64 file_ino;
static int fault_write, fault_read, fault_short;
static Rng fr(0);

// addresses as 2 * number + toxic mark; 0 none, negative if below the first block
static int anum(u64 a) {
	if (!a) return 0;
	if (a < 0x1000) return -int(a);
	u64 k = a & ~TOX;
	auto f = addr_no.find(k);
	int n = f != addr_no.end() ? f->second : (addr_no[k] = addr_no.size() + 1);
	return 2 * n + !!(a & TOX);
}
static int hnum(u64 h) { auto f = hash_no.find(h); return f == hash_no.end() ? 0 : f->second; }
static string cells(const string &bytes) {
	string s;
	for (size_t i = 0; i + 16 <= bytes.size(); i += 16) {
		u64 v[2];
		memcpy(v, &bytes[i], 16);
		if (!v[0] && !v[1]) continue;
		s += (s.empty() ? "[" : ",[") + to_string(hnum(v[0])) + "," + to_string(anum(v[1])) + "]";
	}
	return s;
}
static string content_json(const vector<u32> &ids, u64 first) {
	string s;
	for (size_t k = 0; k < ids.size(); ++k) if (ids[k]) {
		string c = cells(bytes_of(ids[k]));
		if (!c.empty()) s += (s.empty() ? "[" : ",[") + to_string(first + k) + ",[" + c + "]]";
	}
	return "[" + s + "]";
}
static Inode *hash_file() {
	for (Fs *f : { &W.p, &W.b }) for (auto &s : f->sub) for (auto &x : s.second.ino) for (auto &l : x.second->links) if (l.name == "beeshash.dat") return x.second.get();
	return nullptr;
}
static Fs &file_fs() { for (auto &s : W.p.sub) for (auto &x : s.second.ino) for (auto &l : x.second->links) if (l.name == "beeshash.dat") return W.p; return W.b; }
static void tell_file() {
	VsAtomic at;
	Inode *i = hash_file();
	if (!i) { vs_log() += "{\"e\":\"file\",\"x\":0,\"b\":[]}\n"; return; }
	vector<u32> ids;
	for (u64 o = 0; o < i->size; o += BLK) ids.push_back(block_at(file_fs(), i, o));
	vs_log() += "{\"e\":\"file\",\"x\":" + to_string(i->size / XB) + ",\"b\":" + content_json(ids, 0) + "}\n";
}
static u64 field(const string &s, const char *k) { auto p = s.find(k); return p == string::npos ? 0 : strtoull(s.c_str() + p + strlen(k), 0, 10); }
static void watch(const string &s) {
	bool w = !s.compare(0, 10, "\"e\":\"hwr\","), wx = !s.compare(0, 11, "\"e\":\"hwrx\","), r = !s.compare(0, 10, "\"e\":\"hrd\","), rx = !s.compare(0, 10, "\"e\":\"rdx\",");
	if (!(w || wx || r || rx)) return;
	if (!rx && s.find("\"n\":\"beeshash.dat") == string::npos) return;
	Inode *i = hash_file();
	if (!i || field(s, "\"i\":") != i->ino) return;
	u64 off = w || wx ? field(s, "\"off\":") : field(s, "\"b\":") * BLK, len = field(s, "\"len\":"), want = w ? field(s, "\"want\":") : len;
	string c = "[]";
	if (w) { vector<u32> ids; for (u64 o = off & ~(BLK - 1); o < off + len; o += BLK) ids.push_back(block_at(file_fs(), i, o)); c = content_json(ids, off / BLK); }
	vs_log() += string("{\"e\":\"") + (r || rx ? "rd" : "wr") + "\",\"er\":" + to_string(int(wx || rx)) + ",\"o\":" + to_string(off / BLK) + ",\"odd\":" + to_string(int(off % BLK || len % BLK)) + ",\"n\":" + to_string(len / BLK)
		+ ",\"short\":" + to_string(int(want != len)) + ",\"b\":" + c + "}\n";
}
static void setup(Rng &r, bool idx) {
	W = World();
	W.p.btrfs = 0;
	mksubvol(W.p, 0, 0, "");
	mksubvol(W.b, 0, 0, "");
	addr_no.clear(); hash_no.clear(); hashes.clear();
	extents = 1 + r.below(3);
	buckets = extents * 32;
	// a few buckets, several hashes in each, extreme values among them
	int nb = 1 + r.below(idx ? 3 : 4);
	vector<u64> bs;
	for (int k = 0; k < nb; ++k) bs.push_back(r.chance(25) ? 0 : r.chance(20) ? buckets - 1 : r.below(buckets));
	auto add = [&](u64 h) { if (!hash_no.count(h)) { hashes.push_back(h); hash_no[h] = hashes.size(); } };
	for (u64 b : bs) for (int n = 1 + r.below(4); n > 0; --n) {
		u64 top = ~0ull / buckets - 1;
		u64 k = r.chance(30) ? 0 : r.chance(20) ? top : (r.next() << 32 ^ r.next()) % top;
		add(b + buckets * k);
		if (r.chance(30)) add(b + buckets * (k ^ 1ull << (30 + r.below(20))));     // almost the same
	}
	if (r.chance(15)) add(~0ull);
	if (r.chance(15)) add(0);
}
static u64 some_addr(Rng &r, int span) {
	u64 n = 1 + r.below(span);
	u64 a = n * 0x1000 + (n % 5 == 0 ? 0x400 : n % 7 == 0 ? 0x803 : 0);
	if (n % 11 == 0) a += 0x7ffffffff0000000ull;
	if (r.chance(10)) a |= TOX;
	return a;
}
static void make_file(Rng &r, bool idx) {
	const bool home = r.chance(50);
	u64 dir = 256;
	Fs &f = home ? W.p : W.b;
	if (!home) dir = mkdir(W.b, 5, 256, ".beeshome")->ino;
	if (home) setenv("BEESHOME", "/simhome", 1); else unsetenv("BEESHOME");
	if (r.chance(15)) return;                            // none yet
	Inode *i = mkfile(f, 5, dir, "beeshash.dat");
	set_size(f, i, extents * XB);
	if (r.chance(25)) return;                            // never written
	std::map<u64, vector<pair<u64, u64>>> want;
	for (u64 h : hashes) {
		u64 b = h % buckets;
		auto &v = want[b];
		int n = r.below(5);
		if (idx && r.chance(50)) n = 256 - r.below(4) - v.size();
		for (; n > 0 && v.size() < 256; --n) {
			u64 a = some_addr(r, idx ? 1000 : 12);
			bool dup = false;
			for (auto &p : v) if (p.first == h && p.second == a) dup = true;
			if (dup) continue;
			v.push_back({ h, a });
		}
	}
	// pairs nobody asks about, in buckets of their own or among the others
	if (r.chance(30)) { u64 h = r.next(); auto &v = want[h % buckets]; if (v.size() < 256 && !hash_no.count(h)) { hashes.push_back(h); hash_no[h] = hashes.size(); v.push_back({ h, some_addr(r, 12) }); } }
	for (auto &b : want) {
		auto v = b.second;
		while (v.size() < 256 && r.chance(idx ? 70 : 40)) v.insert(v.begin() + r.below(v.size() + 1), { 0, 0 });
		if (idx && r.chance(15)) for (int n = 1 + r.below(3); n > 0 && v.size() < 256; --n) v.insert(v.begin() + r.below(v.size() + 1), { hashes[0], 1 + r.below(0xfff) });
		if (r.chance(50)) for (size_t k = v.size(); k > 1; --k) std::swap(v[k - 1], v[r.below(k)]);
		string s(BKT, '\0');
		for (size_t k = 0; k < v.size(); ++k) { memcpy(&s[k * 16], &v[k].first, 8); memcpy(&s[k * 16 + 8], &v[k].second, 8); }
		write_blocks(f, i, b.first * BLK, { content(s) });
		set_size(f, i, extents * XB);
	}
}
static void meta() {
	string s;
	for (u64 h : hashes) s += (s.empty() ? "" : ",") + to_string(h % buckets);
	vs_log() += "{\"e\":\"meta\",\"x\":" + to_string(extents) + ",\"cap\":256,\"h\":[" + s + "]}\n";
}
static std::unique_ptr<BeesHashTable> table(std::shared_ptr<BeesContext> c) { return std::make_unique<BeesHashTable>(c, "beeshash.dat", extents * XB); }
static string found(const vector<BeesHashTable::Cell> &v, u64 h) {
	string s;
	for (auto &c : v) s += (s.empty() ? "" : ",") + to_string(c.e_hash == h ? anum(c.e_addr) : -9999);
	return s;
}
static void look(BeesHashTable &t, u64 h) {
	auto v = t.find_cell(h);
	VsAtomic at;
	vs_log() += "{\"e\":\"look\",\"h\":" + to_string(hnum(h)) + ",\"l\":[" + found(v, h) + "]}\n";
}
static u64 pick_hash(Rng &r) { return hashes[r.below(hashes.size())]; }
static void seed_rng(Rng &r) { bees_generator.seed(r.next()); }

// one client; after every operation the whole bucket is looked up
static void f_index(Rng &r) {
	auto c = std::make_shared<BeesContext>();
	c->set_root_path("/sim");
	auto t = table(c);
	seed_rng(r);
	std::set<int> touched;
	const int span = 4 + r.below(r.chance(50) ? 10 : 400);
	vector<pair<u64, u64>> known;
	for (u64 h : hashes) look(*t, h);
	for (int n = 6 + r.below(24); n > 0; --n) {
		u64 h = pick_hash(r), a = some_addr(r, span);
		auto v = t->find_cell(h);
		if (!v.empty() && r.chance(45)) a = v[r.below(v.size())].e_addr;
		int x = r.below(100);
		const char *op = "erase";
		bool rv = false;
		if (x < 40) { op = "front"; rv = t->push_front_hash_addr(h, a); }
		else if (x < 80) { op = "random"; rv = t->push_random_hash_addr(h, a); }
		else t->erase_hash_addr(h, a);
		{ VsAtomic at; vs_log() += string("{\"e\":\"op\",\"op\":\"") + op + "\",\"h\":" + to_string(hnum(h)) + ",\"a\":" + to_string(anum(a)) + ",\"r\":" + to_string(int(rv)) + "}\n"; }
		for (u64 o : hashes) if (o % buckets == h % buckets || r.chance(10)) look(*t, o);
		if (r.chance(10)) vs_sleep_ns(5000000000ull);
	}
	for (u64 h : hashes) look(*t, h);
	r_finish();
}
// several clients, write-back with failures, stops and restarts
static void f_disk(Rng &r) {
	int lives = 1 + r.below(3);
	auto c = std::make_shared<BeesContext>();
	c->set_root_path("/sim");
	fault = [](const char *op, u64, u64 ino, u64, u64 len) -> int {
		if (ino != file_ino || len < XB) return 0;
		if (!strcmp(op, "write") && int(fr.below(100)) < fault_write) return fr.chance(50) ? EIO : ENOSPC;
		if (!strcmp(op, "short") && int(fr.below(100)) < fault_short) return 1;
		if (!strcmp(op, "read") && int(fr.below(100)) < fault_read) return EIO;
		return 0;
	};
	static Rng orr(0);
	orr = Rng(r.next());
	if (r.chance(60)) on_op = [](const char *op) { if (!strcmp(op, "write") || !strcmp(op, "read")) { if (orr.chance(60)) for (int y = orr.below(60); y > 0; --y) vs_yield(); else if (orr.chance(50)) vs_sleep_ns(1000000ull * orr.below(3000)); } };
	for (int l = 0; l < lives; ++l) {
		fr = Rng(r.next());
		fault_write = r.chance(25) ? 10 + r.below(60) : 0;
		fault_short = r.chance(15) ? 10 + r.below(40) : 0;
		fault_read = r.chance(15) ? 30 : 0;
		vs_logf("{\"e\":\"up\"}");
		auto t = table(c);
		{ VsAtomic at; file_ino = hash_file()->ino; }
		int nc = r.chance(50) ? 1 : r.chance(75) ? 2 : 3;
		for (int phase = 1 + r.below(3); phase > 0; --phase) {
			vector<std::thread> ts;
			vector<u64> seeds;
			for (int k = 0; k < nc; ++k) seeds.push_back(r.next());
			{
				VsAtomic at;
				for (int k = 0; k < nc; ++k) ts.emplace_back([&, k]() {
					Rng r(seeds[k]);
					seed_rng(r);
					for (int n = 2 + r.below(7); n > 0; --n) {
						u64 h = pick_hash(r), a = some_addr(r, 10);
						int x = r.below(100), th = k + 1;
						const char *op = x < 30 ? "front" : x < 60 ? "random" : x < 80 ? "erase" : "find";
						vs_logf("{\"e\":\"c\",\"th\":%d,\"op\":\"%s\",\"a\":%d,\"b\":%d}", th, op, hnum(h), anum(a));
						string res = "0";
						if (x < 30) res = to_string(int(t->push_front_hash_addr(h, a)));
						else if (x < 60) res = to_string(int(t->push_random_hash_addr(h, a)));
						else if (x < 80) t->erase_hash_addr(h, a);
						else { auto v = t->find_cell(h); VsAtomic at; res = "[" + found(v, h) + "]"; }
						vs_logf("{\"e\":\"r\",\"th\":%d,\"op\":\"%s\",\"a\":%d,\"r\":%s}", th, op, hnum(h), res.c_str());
						if (r.chance(15)) vs_sleep_ns(1000000ull * r.below(3000)); else if (r.chance(30)) for (int y = r.below(40); y > 0; --y) vs_yield();
					}
				});
			}
			for (auto &x : ts) x.join();
			if (r.chance(50)) {
				vs_sleep_ns(40000000000ull);
				vs_logf("{\"e\":\"calm\"}");
				tell_file();
			}
		}
		if (r.chance(50)) fault_write = fault_short = 0;
		if (r.chance(15)) { vs_logf("{\"e\":\"kill\"}"); tell_file(); r_finish(); }
		vs_logf("{\"e\":\"stopping\"}");
		t->stop_request();
		t->stop_wait();
		vs_logf("{\"e\":\"stopped\"}");
		tell_file();
		t.reset();
	}
	// what a later run finds
	vs_logf("{\"e\":\"up\"}");
	fault_read = fault_write = fault_short = 0;
	auto t = table(c);
	for (u64 h : hashes) {
		vs_logf("{\"e\":\"c\",\"th\":1,\"op\":\"find\",\"a\":%d,\"b\":0}", hnum(h));
		auto v = t->find_cell(h);
		VsAtomic at;
		vs_log() += "{\"e\":\"r\",\"th\":1,\"op\":\"find\",\"a\":" + to_string(hnum(h)) + ",\"r\":[" + found(v, h) + "]}\n";
	}
	r_finish();
}
static void one(u64 seed, const string &fam) {
	vs_stop();
	Rng r(seed);
	const bool idx = fam == "index";
	setup(r, idx);
	make_file(r, idx);
	commit(W.b);
	meta();
	VsConfig cf = r_policy(seed, !idx);
	if (cf.p_mem > 0) cf.p_mem = r.chance(50) ? 0.002 : 0.0005;
	cf.seed = seed * 1000003ull + 29;
	cf.max_steps = 3000000;
	short_pages = true;
	file_ino = ~0ull;
	fault_write = fault_read = fault_short = 0;
	vs_start(cf);
	tell_file();
	on_event = watch;
	enabled = true;
	if (idx) f_index(r); else f_disk(r);
}
int main(int argc, char **argv) {
	return r_main(argc, argv, [](uint64_t s, const string &) { return r_policy(s); }, one);
}
