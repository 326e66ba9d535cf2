// Metadata searches (lib/btrfs-tree.cc, lib/seeker.cc, lib/extentwalker.cc, lib/fs.cc), block addresses and
// file ranges (src/bees-types.cc), on trees and files of the simulated filesystem.
#include "bees.h"
#include "crucible/btrfs-tree.h"
#include "crucible/seeker.h"
#include "crucible/string.h"
#include "bsim.h"
#include "runner.h"
#include <tuple>
using namespace bsim;
using std::string; using std::to_string; using std::vector; using std::pair; using std::map;
using namespace crucible;
typedef unsigned long long ull;
static const u64 TREE = 7000;
static const u64 MAXU = ~0ull;
static string d3(u64 n) { return "[" + to_string(n >> 44) + "," + to_string(n >> 22 & 0x3fffff) + "," + to_string(n & 0x3fffff) + "]"; }
static void put(const string &s) { vs_log() += s + "\n"; }
template <class F> static bool threw(F f) { try { f(); return false; } catch (const std::exception &e) { if (getenv("R_VERBOSE")) fprintf(stderr, "THREW %s\n", e.what()); return true; } }

// ------------------------------------------------------------------ trees made up item by item
static vector<RawItem> items;
static map<std::tuple<u64, u32, u64>, int> number;         // key -> 1..n
static string payload(Rng &r, size_t n) { string s(n, 0); for (auto &c : s) c = r.below(256); return s; }
static int who(u64 o, u32 t, u64 f, u64 tr, const string &d) {
	auto i = number.find(std::make_tuple(o, t, f));
	if (i == number.end()) return -2;
	auto &x = items[i->second - 1];
	return x.d == d && x.leafgen == tr ? i->second : -3;
}
static int who(const BtrfsTreeItem &b) {
	if (!b) return 0;
	ByteVector d = b.data();
	return who(b.objectid(), b.type(), b.offset(), b.transid(), string(d.begin(), d.end()));
}
static size_t some_size(Rng &r) {
	int x = r.below(100);
	return x < 70 ? r.below(120) : x < 90 ? r.below(1500) : x < 97 ? r.below(16000) : r.below(65400);
}
static void finish_tree(Rng &r, u64 id) {
	std::sort(items.begin(), items.end(), [](const RawItem &a, const RawItem &b) { return std::make_tuple(a.o, a.t, a.f) < std::make_tuple(b.o, b.t, b.f); });
	items.erase(std::unique(items.begin(), items.end(), [](const RawItem &a, const RawItem &b) { return std::make_tuple(a.o, a.t, a.f) == std::make_tuple(b.o, b.t, b.f); }), items.end());
	u64 g = 1 + r.below(9);
	number.clear();
	string s;
	for (size_t k = 0; k < items.size(); ++k) {
		if (r.chance(30)) g = 1 + r.below(9);
		items[k].leafgen = g;
		number[std::make_tuple(items[k].o, items[k].t, items[k].f)] = k + 1;
		s += (k ? "," : "") + string("[") + d3(items[k].o) + "," + to_string(items[k].t) + "," + d3(items[k].f) + "," + to_string(g) + "]";
	}
	raw_trees[id] = items;
	put("{\"e\":\"tree\",\"it\":[" + s + "]}");
}
// positions in clusters: dense runs, gaps of any width, the ends of the number range
static vector<u64> positions(Rng &r, u64 unit, int n) {
	vector<u64> v;
	const u64 top = MAXU / unit - 2;
	u64 p = r.chance(30) ? 0 : r.chance(30) ? top - r.below(200) : r.next() >> r.below(44);
	const int style = r.below(4);
	for (int k = 0; k < n; ++k) {
		v.push_back(std::min(p, top) * unit);
		int s = style == 3 ? r.below(3) : style;
		u64 step = s == 0 ? 1 : s == 1 ? 1 + r.below(40) : 1 + (r.next() >> r.below(44));
		p = p > top - std::min(step, top) ? r.below(1000) : p + step;
	}
	return v;
}
static const u32 TYPES[] = { BTRFS_INODE_ITEM_KEY, BTRFS_INODE_REF_KEY, BTRFS_XATTR_ITEM_KEY, BTRFS_EXTENT_DATA_KEY, BTRFS_EXTENT_CSUM_KEY, BTRFS_ROOT_ITEM_KEY, BTRFS_ROOT_BACKREF_KEY, BTRFS_EXTENT_ITEM_KEY, BTRFS_METADATA_ITEM_KEY };
static u64 near(Rng &r, const vector<u64> &v, u64 unit) {
	const u64 top = MAXU / unit - 2;
	if (v.empty() || r.chance(10)) return (r.next() >> r.below(44)) % top * unit;
	u64 p = v[r.below(v.size())] / unit;
	if (r.chance(60)) { u64 d = 1 + (r.chance(60) ? 0 : r.next() >> r.below(44)); p = r.chance(50) ? (p > d ? p - d : 0) : (p < top - std::min(d, top) ? p + d : top); }
	return p * unit;
}
static void query(Rng &r, BtrfsTreeFetcher &f, const vector<u64> &ps, u64 unit, bool aligned) {
	static const char *ops[] = { "at", "lb", "rlb", "next", "prev" };
	int op = r.below(5);
	u64 x = r.chance(5) ? (r.chance(50) ? MAXU : 0) : near(r, ps, aligned || op >= 2 ? unit : 1);
	int res = -1;
	threw([&]() { res = who(op == 0 ? f.at(x) : op == 1 ? f.lower_bound(x) : op == 2 ? f.rlower_bound(x) : op == 3 ? f.next(x) : f.prev(x)); });
	put(string("{\"e\":\"q\",\"op\":\"") + ops[op] + "\",\"x\":" + d3(x) + ",\"r\":" + to_string(res) + "}");
}
static Fd root_fd() { return Fd(open("/sim", O_RDONLY)); }
static void f_search(Rng &r) {
	const bool off = r.chance(50);
	const u64 unit = r.chance(60) ? 4096 : 1;
	const u32 T = off ? (r.chance(70) ? BTRFS_EXTENT_DATA_KEY : TYPES[r.below(9)]) : TYPES[r.below(9)];
	const u64 obj = off ? 257 + r.below(4) : 0;
	auto ps = positions(r, unit, r.below(r.chance(20) ? 120 : 25));
	auto add = [&](u64 o, u32 t, u64 f) { items.push_back({ o, t, f, 0, payload(r, some_size(r)) }); };
	const int noise = r.below(3) ? r.below(60) : 0;
	for (u64 p : ps) {
		if (off) add(obj, T, p);
		else { add(p, T, r.chance(70) ? 0 : r.next()); while (r.chance(15)) add(p, T, r.next() >> r.below(60)); }
		if (int(r.below(100)) < noise) add(off ? obj - 1 + r.below(3) : p + (r.chance(50) ? 0 : unit), TYPES[r.below(9)], off ? p : r.chance(10) ? MAXU : r.next() >> r.below(60));
		if (noise && r.chance(5)) for (int k = r.below(12); k > 0; --k) add(off ? obj + r.below(2) : p, TYPES[r.below(9)], r.chance(50) ? k : r.next() >> r.below(60));
	}
	if (off && r.chance(30)) for (u64 o : { obj - 1, obj + 1 }) for (u64 p : ps) if (r.chance(30)) add(o, T, p);
	// keys above any search the daemon makes
	items.erase(std::remove_if(items.begin(), items.end(), [](const RawItem &x) { return x.o > MAXU - 4; }), items.end());
	finish_tree(r, TREE);
	Fd fd = root_fd();
	// which matching positions are not on a boundary is not defined for backward queries
	BtrfsTreeObjectFetcher of(fd);
	BtrfsTreeOffsetFetcher ff(fd);
	BtrfsTreeFetcher &f = off ? static_cast<BtrfsTreeFetcher &>(ff) : of;
	f.tree(TREE); f.type(T); f.scale_size(unit);
	if (off) ff.objectid(obj);
	for (auto &x : items) if (x.t == T && (off ? x.o == obj && x.f % unit : x.o % unit)) { f.scale_size(1); break; }
	const u64 u = f.scale_size();
	for (int n = 5 + r.below(20); n > 0; --n) {
		if (n % 7 == 1) {
			u64 lo = 0, hi = MAXU;
			if (r.chance(60)) { lo = r.below(8); hi = r.chance(40) ? MAXU : lo + r.below(6); }
			if (r.chance(30)) f.lookbehind_size(r.chance(50) ? u : u * (1 + r.below(100000)));
			f.transid(lo, hi);
			put("{\"e\":\"by\",\"off\":" + to_string(int(off)) + ",\"o\":" + d3(obj) + ",\"ty\":" + to_string(T) + ",\"lo\":" + to_string(lo) + ",\"hi\":" + to_string(hi == MAXU ? 1000 : hi) + "}");
			if (r.chance(40)) {             // visit everything, forwards or backwards
				const bool fw = r.chance(50);
				string s;
				bool x = threw([&]() {
					u64 p = fw ? 0 : MAXU / u * u;
					size_t steps = 0;
					for (auto b = fw ? f.lower_bound(p) : f.rlower_bound(p); !!b && ++steps < 1000; b = fw ? f.next(p) : f.prev(p)) { p = off ? b.offset() : b.objectid(); s += (s.empty() ? "" : ",") + to_string(who(b)); }
				});
				put("{\"e\":\"all\",\"fw\":" + to_string(int(fw)) + ",\"r\":[" + (x ? string("-1") : s) + "]}");
			}
		}
		if (n % 7 != 1 || true) { static bool ready; if (!ready) { ready = true; f.transid(0); put("{\"e\":\"by\",\"off\":" + to_string(int(off)) + ",\"o\":" + d3(obj) + ",\"ty\":" + to_string(T) + ",\"lo\":0,\"hi\":1000}"); } }
		query(r, f, ps, u, false);
		if (r.chance(15)) {                     // a scan of a key range in steps
			BtrfsIoctlSearchKey sk(r.chance(50) ? 1024 : 64 + r.below(5000));
			sk.tree_id = TREE;
			u64 a = items.empty() || r.chance(30) ? 0 : items[r.below(items.size())].o, b = r.chance(50) ? MAXU : a + r.below(100000);
			u64 lo = r.chance(50) ? 0 : r.below(9);
			sk.min_objectid = a; sk.max_objectid = b; sk.min_type = r.chance(60) ? 0 : TYPES[r.below(9)]; sk.max_type = r.chance(60) ? 255 : TYPES[r.below(9)];
			sk.min_offset = r.chance(70) ? 0 : r.next() >> r.below(60); sk.max_offset = r.chance(70) ? MAXU : r.next() >> r.below(60);
			sk.min_transid = lo; sk.max_transid = MAXU;
			string head = "\"min\":[" + d3(a) + "," + to_string(sk.min_type) + "," + d3(sk.min_offset) + "],\"max\":[" + d3(b) + "," + to_string(sk.max_type) + "," + d3(sk.max_offset) + "],\"lo\":" + to_string(lo);
			string s;
			const bool typed = sk.min_type == sk.max_type && r.chance(50);
			bool x = threw([&]() {
				for (int k = 0; k < 1000; ++k) {
					sk.nr_items = 1 + (r.chance(50) ? r.below(40) : 0);
					sk.do_ioctl(fd);
					if (sk.m_result.empty()) break;
					for (auto &i : sk.m_result) {
						if (!typed || i.type == sk.max_type) s += (s.empty() ? "" : ",") + to_string(who(i.objectid, i.type, i.offset, i.transid, string(i.m_data.begin(), i.m_data.end())));
					}
					if (typed) sk.next_min(*sk.m_result.rbegin(), sk.max_type); else sk.next_min(*sk.m_result.rbegin());
				}
			});
			put("{\"e\":\"scan\"," + head + ",\"only\":" + to_string(typed ? int(sk.max_type) : 0) + ",\"r\":[" + (x ? string("-1") : s) + "]}");
		}
	}
}
// ------------------------------------------------------------------ extents of data, found by way of the block groups
static void f_data(Rng &r) {
	struct Bg { u64 start, len; bool data; };
	vector<Bg> bg;
	u64 p = 1ull << 20;
	for (int n = 1 + r.below(7); n > 0; --n) {
		if (r.chance(40)) p += 4096ull * (1 + r.below(3000));
		u64 len = 65536ull * (1 + r.below(20));
		bg.push_back({ p, len, r.chance(55) });
		p += len;
	}
	items.clear();
	u64 skip = 0;
	for (auto &b : bg) {
		btrfs_chunk c; memset(&c, 0, sizeof c);
		c.length = b.len; c.type = b.data ? BTRFS_BLOCK_GROUP_DATA : r.chance(80) ? BTRFS_BLOCK_GROUP_METADATA : BTRFS_BLOCK_GROUP_SYSTEM;
		if (r.chance(20)) c.type |= BTRFS_BLOCK_GROUP_DUP;
		items.push_back({ BTRFS_FIRST_CHUNK_TREE_OBJECTID, BTRFS_CHUNK_ITEM_KEY, b.start, 0, string(reinterpret_cast<char *>(&c), sizeof c) });
	}
	if (r.chance(60)) items.push_back({ 1, BTRFS_DEV_ITEM_KEY, 1, 0, payload(r, 98) });
	for (auto &x : items) x.leafgen = 3;
	std::sort(items.begin(), items.end(), [](const RawItem &a, const RawItem &b) { return std::make_tuple(a.o, a.t, a.f) < std::make_tuple(b.o, b.t, b.f); });
	raw_trees[BTRFS_CHUNK_TREE_OBJECTID] = items;
	items.clear();
	vector<u64> ps;
	string bs;
	const bool old_meta = r.chance(25);
	for (auto &b : bg) {
		bs += (bs.empty() ? "[" : ",[") + d3(b.start) + "," + d3(b.start + b.len) + "," + to_string(int(b.data)) + "]";
		items.push_back({ b.start, BTRFS_BLOCK_GROUP_ITEM_KEY, b.len, 0, payload(r, 24) });
		int many = r.below(25);
		for (u64 q = b.start + (r.chance(50) ? 0 : 4096 * r.below(8)); q < b.start + b.len && many > 0; --many) {
			u64 len = b.data ? 4096 * (1 + (r.chance(60) ? 0 : r.below(12))) : 16384;
			len = std::min(len, b.start + b.len - q);
			if (b.data || old_meta) { items.push_back({ q, BTRFS_EXTENT_ITEM_KEY, len, 0, payload(r, 53) }); ps.push_back(q); }
			else items.push_back({ q, BTRFS_METADATA_ITEM_KEY, r.below(3), 0, payload(r, 33) });
			if (r.chance(20)) items.push_back({ q, 178, r.next(), 0, payload(r, 28) });
			q += len;
			if (r.chance(40)) q += 4096 * (1 + r.below(r.chance(50) ? 3 : 60));
			if (!b.data) q = (q + 16383) & ~16383ull;
		}
	}
	finish_tree(r, BTRFS_EXTENT_TREE_OBJECTID);
	put("{\"e\":\"bg\",\"b\":[" + bs + "]}");
	Fd fd = root_fd();
	BtrfsDataExtentTreeFetcher f(fd);
	if (r.chance(60)) f.scale_size(4096);
	for (int n = 3 + r.below(14); n > 0; --n) {
		static bool first = true;
		if (first || r.chance(15)) {
			first = false;
			u64 lo = r.chance(40) ? 0 : r.below(8), hi = r.chance(60) ? MAXU : lo + r.below(6);
			f.transid(lo, hi);
			put("{\"e\":\"by\",\"off\":0,\"o\":" + d3(0) + ",\"ty\":" + to_string(BTRFS_EXTENT_ITEM_KEY) + ",\"lo\":" + to_string(lo) + ",\"hi\":" + to_string(hi == MAXU ? 1000 : hi) + "}");
			if (r.chance(70)) {
				const bool fw = r.chance(65);
				string s;
				bool x = threw([&]() {
					u64 p = fw ? 0 : MAXU / 4096 * 4096;
					size_t steps = 0;
					for (auto b = fw ? f.lower_bound(p) : f.rlower_bound(p); !!b && ++steps < 1000; b = fw ? f.next(p) : f.prev(p)) { p = b.objectid(); s += (s.empty() ? "" : ",") + to_string(who(b)); }
				});
				put("{\"e\":\"all\",\"fw\":" + to_string(int(fw)) + ",\"r\":[" + (x ? string("-1") : s) + "]}");
			}
		}
		query(r, f, ps, 4096, true);
	}
}
// ------------------------------------------------------------------ checksums
static void f_sums(Rng &r) {
	items.clear();
	u64 p = 256 + r.below(20);
	const u64 base = p;
	int no = 0;
	string s;
	for (int n = r.below(8); n > 0; --n) {
		size_t k = 1 + (r.chance(50) ? r.below(4) : r.below(60));
		string d;
		string v;
		for (size_t j = 0; j < k; ++j) { uint32_t x = ++no; d += string(reinterpret_cast<char *>(&x), 4); }
		s += (s.empty() ? "[" : ",[") + to_string(p) + "," + to_string(no - int(k) + 1) + "," + to_string(k) + "]";
		items.push_back({ MAXU - 9, BTRFS_EXTENT_CSUM_KEY, p * 4096, 0, d });
		p += k + (r.chance(50) ? 0 : r.below(30));
	}
	if (r.chance(30)) items.push_back({ 256, BTRFS_EXTENT_DATA_KEY, 4096, 0, "x" });
	finish_tree(r, BTRFS_CSUM_TREE_OBJECTID);
	put("{\"e\":\"cs\",\"b\":[" + s + "]}");
	Fd fd = root_fd();
	BtrfsCsumTreeFetcher f(fd);
	for (int n = 3 + r.below(10); n > 0; --n) {
		u64 at = base - 5 + r.below(p - base + 10), cnt = 1 + r.below(r.chance(50) ? 5 : 80);
		string o;
		bool x = threw([&]() {
			f.get_sums(at * 4096, cnt, [&](u64 l, const uint8_t *b, size_t bytes) {
				for (size_t j = 0; j < bytes; j += 4) { uint32_t v; memcpy(&v, b + j, 4); o += (o.empty() ? "[" : ",[") + to_string(l / 4096 + j / 4) + "," + to_string(v) + "]"; }
			});
		});
		put("{\"e\":\"sums\",\"x\":" + to_string(at) + ",\"n\":" + to_string(cnt) + ",\"r\":[" + (x ? string("[-1,-1]") : o) + "]}");
	}
}
// ------------------------------------------------------------------ the search for a neighbour, over any way of fetching
static void f_seek(Rng &r) {
	std::set<u64> keys;
	for (u64 p : positions(r, 1, r.below(r.chance(20) ? 100 : 12))) keys.insert(p);
	if (r.chance(10)) keys.insert(0);
	if (r.chance(10)) keys.insert(MAXU - 1);
	string s;
	for (u64 k : keys) s += (s.empty() ? "" : ",") + d3(k);
	put("{\"e\":\"keys\",\"k\":[" + s + "]}");
	vector<u64> v(keys.begin(), keys.end());
	for (int n = 5 + r.below(20); n > 0; --n) {
		u64 x = r.chance(8) ? MAXU : r.chance(5) ? 0 : near(r, v, 1);
		int extra = r.below(3) ? r.below(4) : 1000;
		u64 loops = 0, res = 0;
		bool bad = threw([&]() {
			res = seek_backward(x, [&](u64 lower, u64 upper) {
				++loops;
				std::set<u64> got;
				int k = extra;
				for (auto i = keys.lower_bound(lower); i != keys.end(); ++i) { got.insert(*i); if (k-- <= 0) break; if (*i > upper && r.chance(50)) break; }
				return got;
			}, r.chance(30) ? u64(1 + r.below(1000)) : r.chance(50) ? u64(1) << r.below(40) : u64(1));
		});
		put("{\"e\":\"seek\",\"x\":" + d3(x) + ",\"bad\":" + to_string(int(bad)) + ",\"r\":" + d3(res) + ",\"l\":" + to_string(loops) + "}");
	}
}
// ------------------------------------------------------------------ walking files
static Inode *random_file(Rng &r, const string &name) {
	Inode *i = mkfile(W.b, 5, 256, name);
	if (r.chance(8)) { u64 n = 1 + r.below(2000); write_inline(W.b, i, symbol(1), n); return i; }
	if (r.chance(4)) return i;
	const u64 far = r.chance(10) ? 1ull << (8 + r.below(20)) : 0;
	u64 p = r.chance(60) ? 0 : r.below(40);
	for (int n = r.chance(10) ? 0 : r.chance(15) ? 15 + r.below(60) : 1 + r.below(8); n > 0; --n) {
		u64 len = 1 + (r.chance(50) ? r.below(3) : r.below(20));
		int x = r.below(100);
		if (x < 15) write_prealloc(W.b, i, p * BLK, len * BLK);
		else { vector<u32> v; for (u64 k = 0; k < len; ++k) v.push_back(symbol(1 + r.below(6))); write_blocks(W.b, i, p * BLK, v, r.chance(30) ? 1 : 0); }
		p += len;
		if (r.chance(35)) p += 1 + r.below(r.chance(50) ? 3 : 200);
		if (far && p < 1ull << 29 && r.chance(20)) p += far;
		// overwrites leave parts of extents
		if (r.chance(15) && p > 3) { u64 q = r.chance(80) ? p - 1 - r.below(std::min<u64>(p - 1, 20)) : r.below(p); write_blocks(W.b, i, q * BLK, { symbol(7) }, r.chance(20) ? 1 : 0); }
	}
	u64 end = i->size;
	if (r.chance(35)) set_size(W.b, i, end + BLK * r.below(r.chance(70) ? 40 : 5000) + r.below(4096));
	else if (r.chance(30) && end) set_size(W.b, i, end - r.below(std::min<u64>(end, 5000)));
	return i;
}
static string num(u64 bytes) { return "[" + to_string(bytes / BLK) + "," + to_string(bytes % BLK) + "]"; }
static void tell_layout(Inode *i) {
	string s;
	for (auto &x : i->ext) {
		auto &e = x.second;
		Ext *ex = e.bytenr ? &W.b.ext[e.bytenr] : nullptr;
		s += (s.empty() ? "[" : ",[") + to_string(x.first / BLK) + "," + num(e.len) + "," + to_string(int(e.type)) + "," + to_string(e.bytenr / BLK) + "," + to_string(e.eoff / BLK) + "," + to_string(int(e.comp)) + "]";
		(void)ex;
	}
	put("{\"e\":\"file\",\"sz\":" + num(i->size) + ",\"it\":[" + s + "]}");
}
static string entry(const Extent &e) {
	u64 fl = e.flags();
	int kind = fl & Extent::HOLE ? 0 : fl & FIEMAP_EXTENT_DATA_INLINE ? 3 : fl & Extent::PREALLOC ? 2 : 1;
	return "[" + num(e.begin()) + "," + num(e.end()) + "," + to_string(kind) + "," + to_string(kind == 0 ? 0 : e.physical() / BLK) + "," + to_string(int(!!(fl & FIEMAP_EXTENT_ENCODED))) + "," + to_string(int(!!(fl & FIEMAP_EXTENT_LAST))) + "]";
}
static string addr(const BeesAddress &a) {
	BeesAddress::Type v = a;
	return "[" + to_string(v >> 12 >> 26) + "," + to_string(v >> 12 & 0x3ffffff) + "," + to_string(v & 0xfff) + "]";
}
static void f_walk(Rng &r) {
	int n = 1 + r.below(4);
	vector<Inode *> fs;
	W.holes = r.chance(40);
	for (int k = 0; k < n; ++k) fs.push_back(random_file(r, "f" + to_string(k)));
	commit(W.b);
	Fd root = root_fd();
	for (int k = 0; k < n; ++k) {
		if (n > 1 && r.chance(40)) continue;
		Inode *i = fs[k];
		tell_layout(i);
		const u64 blocks = (i->size + BLK - 1) / BLK;
		Fd fd(open(("/sim/f" + to_string(k)).c_str(), O_RDONLY));
		BtrfsExtentWalker ew(fd);
		ew.set_root_fd(root);
		bool placed = false;
		auto say = [&](const char *op, u64 p, bool bad, bool rv) {
			string c = "[]";
			if (!bad) bad = threw([&]() { c = entry(ew.current()); });
			put(string("{\"e\":\"w\",\"op\":\"") + op + "\",\"p\":" + to_string(p) + ",\"bad\":" + to_string(int(bad)) + ",\"r\":" + to_string(int(rv)) + ",\"c\":" + c + "}");
			if (bad) { ew.reset(); placed = false; }
		};
		vector<u64> edges;
		for (auto &x : i->ext) { edges.push_back(x.first / BLK); edges.push_back((x.first + x.second.len) / BLK); }
		for (int s = 3 + r.below(14); s > 0; --s) {
			int x = r.below(100);
			if (!placed || x < 40) {
				u64 p = blocks ? r.below(blocks) : 0;
				if (!edges.empty() && r.chance(70)) { p = edges[r.below(edges.size())]; if (r.chance(40) && p) --p; }
				if (r.chance(8)) p = blocks + r.below(3);
				placed = true;
				bool bad = threw([&]() { ew.seek(p * BLK); });
				say("seek", p, bad, false);
			} else {
				const bool fw = x < 75;
				for (int m = r.chance(15) ? 200 : 1; m > 0 && placed; --m) {
					bool rv = false;
					bool bad = threw([&]() { rv = fw ? ew.next() : ew.prev(); });
					say(fw ? "next" : "prev", 0, bad, rv);
					if (!rv) break;
				}
			}
		}
		for (int s = r.below(8); s > 0 && blocks; --s) {
			u64 p = r.below(blocks);
			if (!edges.empty() && r.chance(60)) { p = edges[r.below(edges.size())]; if (r.chance(50) && p) --p; }
			if (p >= blocks) p = blocks - 1;
			BeesAddress a;
			bool bad = threw([&]() { a = BeesAddress(int(fd), p * BLK); });
			put("{\"e\":\"at\",\"p\":" + to_string(p) + ",\"bad\":" + to_string(int(bad)) + ",\"a\":" + addr(a) + "}");
		}
	}
}
// ------------------------------------------------------------------ addresses
static void f_addr(Rng &r) {
	vector<BeesAddress> v;
	auto one = [&](u64 x) { v.push_back(BeesAddress(BeesAddress::Type(x))); };
	vector<u64> ph;
	for (int n = 1 + r.below(3); n > 0; --n) ph.push_back((r.next() >> r.below(40)) & ~0xfffull);
	for (int n = 3 + r.below(6); n > 0; --n) {
		u64 p = r.chance(15) ? 0x1000 : ph[r.below(ph.size())];
		if (r.chance(20)) p += 4096;
		u64 fl = 0;
		if (r.chance(45)) fl |= 1 << 11;
		if (r.chance(25)) fl |= 1 << 10;
		if (r.chance(25)) fl |= 1 << 9;
		if (fl >> 11 ? r.chance(75) : r.chance(8)) fl |= 1 + r.below(32);
		if (r.chance(12)) { one(r.below(7)); continue; }
		one(p | fl);
	}
	for (size_t k = 0; k < v.size(); ++k) {
		BeesAddress a = v[k];
		BeesAddress b = a;
		u64 off = 0;
		bool no = threw([&]() { off = a.get_compressed_offset(); });
		BeesAddress t = a;
		bool nt = threw([&]() { t.set_toxic(); });
		BeesAddress::Type ph = a.get_physical_or_zero();
		std::ostringstream os; os << a;
		string nb;
		for (int k = 60; k >= 0; k -= 4) nb += (nb.empty() ? "" : ",") + to_string(BeesAddress::Type(a) >> k & 15);
		put("{\"e\":\"a\",\"v\":" + addr(a) + ",\"cp\":" + to_string(int(BeesAddress::Type(b) == BeesAddress::Type(a))) + ",\"mg\":" + to_string(int(a.is_magic())) + ",\"z\":" + to_string(int(a.is_compressed())) + ",\"ho\":" + to_string(int(a.has_compressed_offset()))
			+ ",\"tx\":" + to_string(int(a.is_toxic())) + ",\"eof\":" + to_string(int(a.is_unaligned_eof())) + ",\"no\":" + to_string(int(no)) + ",\"off\":" + to_string(off) + ",\"nt\":" + to_string(int(nt)) + ",\"t\":" + addr(t) + ",\"ph\":" + addr(BeesAddress(ph))
			+ ",\"nb\":[" + nb + "],\"s\":\"" + os.str() + "\",\"hx\":" + d3(from_hex(to_hex(BeesAddress::Type(a)))) + ",\"v3\":" + d3(BeesAddress::Type(a)) + "}");
		for (size_t j = 0; j < v.size(); ++j) {
			BeesAddress c = v[j];
			put("{\"e\":\"cmp\",\"x\":" + addr(a) + ",\"y\":" + addr(c) + ",\"eq\":" + to_string(int(a == c)) + ",\"ne\":" + to_string(int(a != c)) + ",\"lt\":" + to_string(int(a < c)) + "}");
		}
	}
	for (int n = 4 + r.below(8); n > 0; --n) {
		Extent e;
		const u64 begin = r.below(200), len = 1 + r.below(32);
		e.m_begin = begin * BLK; e.m_end = (begin + len) * BLK;
		e.m_physical = ((r.next() >> r.below(40)) | 0x10000) & ~0xfffull;
		int k = r.below(100);
		u64 bit = 0;
		u64 off = r.below(64 - len);
		if (k < 10) bit = Extent::HOLE;
		else if (k < 45) { bit = FIEMAP_EXTENT_ENCODED; off = r.below(33 - len); e.m_offset = off * BLK; }
		else if (k < 55) bit = Extent::PREALLOC;
		else if (k < 70) { static const u64 bits[] = { FIEMAP_EXTENT_UNKNOWN, FIEMAP_EXTENT_DELALLOC, FIEMAP_EXTENT_NOT_ALIGNED, FIEMAP_EXTENT_DATA_INLINE, FIEMAP_EXTENT_DATA_ENCRYPTED, FIEMAP_EXTENT_UNWRITTEN, FIEMAP_EXTENT_DATA_TAIL, 1u << 30, FIEMAP_EXTENT_SHARED }; bit = bits[r.below(9)]; }
		u64 fl = bit;
		if (r.chance(40)) { fl |= FIEMAP_EXTENT_LAST; if (r.chance(60)) e.m_end -= 1 + r.below(4095); }
		if (r.chance(20)) fl |= FIEMAP_EXTENT_SHARED;
		if (r.chance(15) && k >= 10) fl |= FIEMAP_EXTENT_ENCODED;
		if (r.chance(10)) fl |= Extent::OBSCURED;
		if (fl & FIEMAP_EXTENT_ENCODED && !(bit & FIEMAP_EXTENT_ENCODED)) e.m_offset = 0;
		e.m_flags = fl;
		const u64 at = begin + r.below(len);
		BeesAddress a;
		bool bad = threw([&]() { a = BeesAddress(e, at * BLK); });
		auto has = [&](u64 b) { return to_string(int(!!(fl & b))); };
		const u64 known = FIEMAP_EXTENT_ENCODED | FIEMAP_EXTENT_UNKNOWN | FIEMAP_EXTENT_DELALLOC | FIEMAP_EXTENT_LAST | FIEMAP_EXTENT_SHARED | FIEMAP_EXTENT_NOT_ALIGNED | FIEMAP_EXTENT_DATA_INLINE;
		put("{\"e\":\"mk\",\"b\":" + to_string(begin) + ",\"end\":" + num(e.m_end) + ",\"ph\":" + addr(BeesAddress(BeesAddress::Type(e.m_physical))) + ",\"o\":" + to_string(e.m_offset / BLK) + ",\"at\":" + to_string(at)
			+ ",\"hole\":" + has(Extent::HOLE) + ",\"enc\":" + has(FIEMAP_EXTENT_ENCODED) + ",\"last\":" + has(FIEMAP_EXTENT_LAST) + ",\"odd\":" + to_string(int(!!(fl & 0xffffffffull & ~known)))
			+ ",\"un\":" + has(FIEMAP_EXTENT_NOT_ALIGNED | FIEMAP_EXTENT_DATA_INLINE) + ",\"da\":" + has(FIEMAP_EXTENT_UNKNOWN | FIEMAP_EXTENT_DELALLOC) + ",\"bad\":" + to_string(int(bad)) + ",\"a\":" + addr(a) + "}");
	}
}
// ------------------------------------------------------------------ ranges
static void f_range(Rng &r) {
	struct F { Fd fd; Inode *i; string n; };
	vector<F> fs;
	const u64 scale = r.chance(75) ? 1 : 1ull << (20 + r.below(21));
	for (int k = 0; k < 3; ++k) {
		F f;
		f.n = "r" + to_string(k);
		f.i = mkfile(W.b, 5, 256, f.n);
		set_size(W.b, f.i, r.chance(10) ? 0 : (1 + r.below(40)) * BLK * scale + (r.chance(40) ? r.below(4096) : 0));
		fs.push_back(f);
	}
	commit(W.b);
	string s;
	for (auto &f : fs) { f.fd = Fd(open(("/sim/" + f.n).c_str(), O_RDONLY)); s += (s.empty() ? "" : ",") + d3(f.i->size); }
	Fd again = Fd(open("/sim/r0", O_RDONLY));
	put("{\"e\":\"sizes\",\"s\":[" + s + "]}");
	auto pos = [&](u64 size) { u64 p = r.chance(20) ? 0 : r.chance(20) ? size : r.below(size + 1); if (r.chance(70)) p &= ~0xfffull; return p; };
	struct R { BeesFileRange b; int f; };
	auto make = [&](R &x) {
		x.f = r.below(3);
		u64 b = pos(fs[x.f].i->size), e = pos(fs[x.f].i->size);
		if (b > e) std::swap(b, e);
		int how = r.below(3);
		if (how == 0) x.b = BeesFileRange(x.f == 0 && r.chance(40) ? again : fs[x.f].fd, b, e);
		else if (how == 1) x.b = BeesFileRange(BeesFileId(5, fs[x.f].i->ino), b, e);
		else x.b = BeesFileRange(fs[x.f].fd, b, e).copy_closed();
		return how;
	};
	auto rg = [&](const BeesFileRange &b) { return "[" + d3(b.begin()) + "," + d3(b.end()) + "]"; };
	vector<R> rs(3);
	for (int n = 8 + r.below(25); n > 0; --n) {
		int k = r.below(3);
		R &x = rs[k];
		int op = r.below(100);
		if (!x.b || op < 20) {
			int how = make(x);
			put("{\"e\":\"mk\",\"k\":" + to_string(k) + ",\"f\":" + to_string(x.f) + ",\"r\":" + rg(x.b) + ",\"open\":" + to_string(int(!!x.b.fd())) + ",\"how\":" + to_string(how) + "}");
			continue;
		}
		if (op < 70) {
			static const char *ops[] = { "ge", "gb", "sb", "se" };
			int o = r.below(4);
			u64 d = r.chance(10) ? 0 : r.chance(60) ? BLK * (1 + r.below(4)) * scale : 1 + r.below(40 * BLK * scale);
			if (r.chance(25)) d = o == 2 || o == 3 ? x.b.size() - (r.chance(30) ? 1 : 0) : d;
			if (o == 3 && off_t(d) > x.b.size()) d = x.b.size();          // a range is never turned inside out by its users
			if (o == 0 && !x.b.fd()) o = 1;
			off_t rv = 0;
			bool bad = threw([&]() { rv = o == 0 ? x.b.grow_end(d) : o == 1 ? x.b.grow_begin(d) : o == 2 ? x.b.shrink_begin(d) : x.b.shrink_end(d); });
			put("{\"e\":\"op\",\"k\":" + to_string(k) + ",\"op\":\"" + ops[o] + "\",\"d\":" + d3(d) + ",\"bad\":" + to_string(int(bad)) + ",\"rv\":" + d3(rv) + ",\"r\":" + rg(x.b) + "}");
			continue;
		}
		R &y = rs[r.below(3)];
		int j = &y - &rs[0];
		if (!y.b) continue;
		if (op < 85) {
			put("{\"e\":\"cmp\",\"x\":" + to_string(k) + ",\"y\":" + to_string(j) + ",\"eq\":" + to_string(int(x.b == y.b)) + ",\"ne\":" + to_string(int(x.b != y.b)) + ",\"lt\":" + to_string(int(x.b < y.b)) + ",\"gt\":" + to_string(int(y.b < x.b))
				+ ",\"ov\":" + to_string(int(x.b.overlaps(y.b))) + ",\"vo\":" + to_string(int(y.b.overlaps(x.b))) + ",\"sf\":" + to_string(int(x.b.is_same_file(y.b))) + ",\"sz\":" + d3(x.b.size()) + ",\"em\":" + to_string(int(x.b.empty())) + "}");
			continue;
		}
		// a pair
		std::unique_ptr<BeesRangePair> p;
		bool bad = threw([&]() { p = std::make_unique<BeesRangePair>(x.b, y.b); });
		put("{\"e\":\"pair\",\"x\":" + to_string(k) + ",\"y\":" + to_string(j) + ",\"bad\":" + to_string(int(bad)) + "}");
		for (int m = 1 + r.below(4); p && m > 0; --m) {
			bool b = r.chance(50);
			u64 d = r.chance(60) ? BLK * (1 + r.below(3)) * scale : 1 + r.below(p->first.size() + 1);
			if (r.chance(20)) d = p->first.size() - (r.chance(30) && p->first.size() ? 1 : 0);
			if (!b && off_t(d) > p->first.size()) d = p->first.size();
			bool no = threw([&]() { if (b) p->shrink_begin(d); else p->shrink_end(d); });
			put("{\"e\":\"ps\",\"b\":" + to_string(int(b)) + ",\"d\":" + d3(d) + ",\"bad\":" + to_string(int(no)) + ",\"s\":" + rg(p->first) + ",\"t\":" + rg(p->second) + "}");
			if (no) break;
		}
	}
}
static void one(u64 seed, const string &fam) {
	vs_stop();
	Rng r(seed);
	W = World();
	W.p.btrfs = 0;
	mksubvol(W.p, 0, 0, "");
	mksubvol(W.b, 0, 0, "");
	if (r.chance(30)) W.leaf = 1 + r.below(12);
	put("{\"e\":\"meta\"}");
	VsConfig cf;
	cf.seed = seed * 1000003ull + 29;
	cf.max_steps = 20000000;
	vs_start(cf);
	enabled = true;
	if (fam == "search") f_search(r);
	else if (fam == "data") f_data(r);
	else if (fam == "sums") f_sums(r);
	else if (fam == "seek") f_seek(r);
	else if (fam == "walk") f_walk(r);
	else if (fam == "addr") f_addr(r);
	else f_range(r);
	r_finish();
}
int main(int argc, char **argv) {
	return r_main(argc, argv, [](uint64_t s, const string &) { return VsConfig(); }, one);
}
