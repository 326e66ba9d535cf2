// built without the 64-bit redirection: this file defines both names
#undef _FILE_OFFSET_BITS
#undef _FORTIFY_SOURCE
#include "bsim.h"
#include "vsched.h"

#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <linux/btrfs.h>
#include <linux/btrfs_tree.h>
#include <linux/fs.h>
#include <linux/fiemap.h>
#include <linux/openat2.h>
#include <signal.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/utsname.h>
#include <unistd.h>

#define SAME_DIFFERS 1

namespace bsim {

World W;
std::function<int(const char *, u64, u64, u64, u64)> fault;
std::function<void(const std::string &)> on_event;
std::function<void(const char *)> on_op;
std::function<void(int)> on_exit_call;
bool enabled = false;
double loadavg = 0.5;
u64 syscalls = 0;
bool short_pages = false;

struct Open {
	Fs *fs = nullptr;
	std::shared_ptr<Inode> ino;
	u64 pos = 0;
	int flags = 0;
	bool foreign = false;
	std::string path;
};
static std::map<int, std::shared_ptr<Open>> fds;
static std::vector<int> sigq;
static bool sigwaiting = false;
static thread_local u64 t_sys_us = 0;

static std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
static std::string fmt(const char *f, ...) {
	char b[2048];
	va_list ap;
	va_start(ap, f);
	int n = vsnprintf(b, sizeof b, f, ap);
	va_end(ap);
	return std::string(b, std::min<size_t>(n, sizeof b - 1));
}
#define EV(...) do { if (on_event) on_event(fmt(__VA_ARGS__)); } while (0)

static std::string esc(const std::string &s) {
	std::string r;
	for (char c : s) {
		if (c == '\n') r += '|';
		else if (c == '"' || c == '\\' || (unsigned char)c < 32) r += '?';
		else r += c;
	}
	return r;
}

World::World() { blocks.push_back(""); }

static const std::string &zeros() { static const std::string z(BLK, '\0'); return z; }
u32 content(const std::string &in) {
	std::string s = in;
	s.resize(BLK, '\0');
	if (s == zeros()) return 0;
	auto it = W.intern.find(s);
	if (it != W.intern.end()) return it->second;
	u32 id = W.blocks.size();
	W.blocks.push_back(s);
	W.intern[s] = id;
	return id;
}
u32 symbol(u32 n) {
	if (!n) return 0;
	static std::map<u32, u32> memo;
	auto it = memo.find(n);
	if (it != memo.end() && it->second < W.blocks.size()) return it->second;
	std::string s(BLK, '\0');
	u64 x = 0x9e3779b97f4a7c15ull * (n + 1);
	for (size_t i = 0; i < BLK; i += 8) {
		x ^= x << 13; x ^= x >> 7; x ^= x << 17;
		memcpy(&s[i], &x, 8);
	}
	return memo[n] = content(s);
}
std::string bytes_of(u32 id) { return id ? W.blocks.at(id) : zeros(); }

// ------------------------------------------------------------------ data model
Inode *inode(Fs &f, u64 sub, u64 ino) {
	auto s = f.sub.find(sub);
	if (s == f.sub.end()) return nullptr;
	auto i = s->second.ino.find(ino);
	return i == s->second.ino.end() ? nullptr : i->second.get();
}
static void dirty(Fs &f, u64 sub) {
	++f.version;
	auto s = f.sub.find(sub);
	if (s != f.sub.end()) s->second.dirty = 1;
}
static void touch(Fs &f, Inode *i) { i->itemgen = f.transid; dirty(f, i->sub); }

static Ext *ext_at(Fs &f, u64 bytenr) {
	auto i = f.ext.find(bytenr);
	return i == f.ext.end() ? nullptr : &i->second;
}
static void ref(Fs &f, u64 bytenr, int d) {
	if (!bytenr) return;
	Ext *e = ext_at(f, bytenr);
	if (!e) return;
	e->refs += d;
	e->itemgen = f.transid;
	f.extdirty = 1;
	++f.version;
	if (!e->refs) {
		if (f.btrfs) EV("\"e\":\"xfree\",\"p\":%llu", (unsigned long long)(bytenr / BLK));
		f.ext.erase(bytenr);
	}
}
static u64 alloc_ext(Fs &f, u64 ram, u64 disk, int comp, bool prealloc, std::vector<u32> data) {
	Chunk *c = nullptr;
	for (auto &x : f.chunk) if (!x.meta && x.next + disk <= x.start + x.len) { c = &x; break; }
	if (!c) {
		u64 start = f.chunk.empty() ? 1 << 20 : f.chunk.back().start + f.chunk.back().len;
		Chunk m; m.start = start; m.len = 1 << 18; m.meta = 1; m.next = start;
		Chunk d; d.start = m.start + m.len; d.len = std::max<u64>(1 << 20, (disk + 0xfffff) & ~0xfffffull); d.next = d.start;
		if (f.chunk.empty() || f.chunk.size() % 4 == 2) f.chunk.push_back(m); else d.start = d.next = start;
		f.chunk.push_back(d);
		c = &f.chunk.back();
	}
	Ext e;
	e.bytenr = c->next; e.ram = ram; e.disk = disk; e.comp = comp; e.prealloc = prealloc;
	e.gen = e.itemgen = f.transid; e.data = std::move(data);
	c->next += disk;
	// leave a gap sometimes, so that addresses are not contiguous
	if (e.bytenr / BLK % 3 == 0) c->next = std::min(c->next + BLK, c->start + c->len);
	f.extdirty = 1;
	++f.version;
	f.ext[e.bytenr] = e;
	if (on_event && f.btrfs) {
		std::string d;
		if (e.data.size() <= 64) for (auto i : e.data) d += (d.empty() ? "" : ",") + std::to_string(i);
		on_event(fmt("\"e\":\"xnew\",\"p\":%llu,\"n\":%llu,\"dn\":%llu,\"c\":%d,\"pre\":%d,\"g\":%llu,\"d\":[", (unsigned long long)(e.bytenr / BLK),
			(unsigned long long)(ram / BLK), (unsigned long long)(disk / BLK), comp, int(prealloc), (unsigned long long)e.gen) + d + "]");
	}
	return e.bytenr;
}
// a name for one block of an extent: (extent, block within it)
u64 phys_at(Fs &f, Inode *i, u64 off) {
	off &= ~(BLK - 1);
	auto it = i->ext.upper_bound(off);
	if (it == i->ext.begin()) return 0;
	--it;
	FExt &x = it->second;
	if (x.type == 0 || off >= it->first + x.len || !x.bytenr) return 0;
	(void)f;
	return x.bytenr / BLK * 1024 + (x.eoff + off - it->first) / BLK;
}
// remove [a, b) of the file's extent items
static void punch(Fs &f, Inode *i, u64 a, u64 b) {
	if (a >= b) return;
	std::vector<std::pair<u64, FExt>> add;
	std::vector<u64> del;
	auto it = i->ext.upper_bound(a);
	if (it != i->ext.begin()) --it;
	for (; it != i->ext.end() && it->first < b; ++it) {
		u64 s = it->first, e = s + it->second.len;
		FExt &x = it->second;
		if (x.type == 0) e = BLK;
		if (e <= a || s >= b) continue;
		del.push_back(s);
		if (s < a) { FExt n = x; n.len = a - s; n.itemgen = f.transid; add.push_back({ s, n }); }
		if (e > b) { FExt n = x; n.eoff += b - s; n.len = e - b; n.itemgen = f.transid; add.push_back({ b, n }); }
	}
	std::vector<u64> drop;
	for (auto s : del) { drop.push_back(i->ext[s].bytenr); i->ext.erase(s); }
	for (auto &n : add) { i->ext[n.first] = n.second; ref(f, n.second.bytenr, 1); }
	for (auto d : drop) ref(f, d, -1);
	touch(f, i);
}
static void put(Fs &f, Inode *i, u64 off, FExt x) {
	punch(f, i, off, off + (x.type == 0 ? BLK : x.len));
	x.itemgen = f.transid;
	i->ext[off] = x;
	ref(f, x.bytenr, 1);
	touch(f, i);
}
static void hole_items(Fs &f, Inode *i) {
	if (!W.holes || !f.btrfs) return;
	// fill the gaps up to the size with explicit hole items (a filesystem without the no-holes feature)
	u64 p = 0;
	u64 end = (i->size + BLK - 1) & ~(BLK - 1);
	std::vector<std::pair<u64, FExt>> add;
	for (auto &x : i->ext) {
		if (x.second.type == 0) return;
		if (x.first > p) { FExt h; h.len = x.first - p; h.gen = f.transid; h.itemgen = f.transid; add.push_back({ p, h }); }
		p = x.first + x.second.len;
	}
	if (p < end) { FExt h; h.len = end - p; h.gen = h.itemgen = f.transid; add.push_back({ p, h }); }
	for (auto &a : add) i->ext[a.first] = a.second;
	if (!add.empty()) dirty(f, i->sub);
}
u32 block_at(Fs &f, Inode *i, u64 off) {
	off &= ~(BLK - 1);
	auto it = i->ext.upper_bound(off);
	if (it == i->ext.begin()) return 0;
	--it;
	FExt &x = it->second;
	if (x.type == 0) return off == 0 ? x.inl : 0;
	if (off >= it->first + x.len || !x.bytenr || x.type == 2) return 0;
	Ext *e = ext_at(f, x.bytenr);
	if (!e) return 0;
	u64 b = (x.eoff + off - it->first) / BLK;
	return b < e->data.size() ? e->data[b] : 0;
}
std::vector<u32> contents(Fs &f, Inode *i) {
	std::vector<u32> r;
	for (u64 o = 0; o < i->size; o += BLK) r.push_back(block_at(f, i, o));
	return r;
}
static void un_inline(Fs &f, Inode *i) {
	auto it = i->ext.find(0);
	if (it == i->ext.end() || it->second.type != 0) return;
	u32 id = it->second.inl;
	i->ext.erase(it);
	FExt x; x.len = BLK; x.bytenr = alloc_ext(f, BLK, BLK, 0, false, { id }); x.gen = f.transid;
	put(f, i, 0, x);
}
void write_blocks(Fs &f, Inode *i, u64 off, const std::vector<u32> &ids, int comp) {
	if (ids.empty()) return;
	if (off > 0) un_inline(f, i);
	u64 len = ids.size() * BLK;
	FExt x;
	x.len = len;
	u64 disk = comp ? std::max<u64>(BLK, (len / 2 + BLK - 1) & ~(BLK - 1)) : len;
	x.bytenr = alloc_ext(f, len, disk, comp, false, ids);
	x.comp = comp;
	x.gen = f.transid;
	put(f, i, off, x);
	if (off + len > i->size) i->size = off + len;
	hole_items(f, i);
	touch(f, i);
}
void write_prealloc(Fs &f, Inode *i, u64 off, u64 len) {
	FExt x;
	x.len = len; x.type = 2; x.gen = f.transid;
	x.bytenr = alloc_ext(f, len, len, 0, true, std::vector<u32>(len / BLK, 0));
	put(f, i, off, x);
	if (off + len > i->size) i->size = off + len;
	hole_items(f, i);
	touch(f, i);
}
void write_inline(Fs &f, Inode *i, u32 id, u64 size) {
	punch(f, i, 0, ~0ull >> 1);
	FExt x; x.type = 0; x.len = size; x.inl = id; x.gen = f.transid;
	put(f, i, 0, x);
	i->size = size;
	touch(f, i);
}
void set_size(Fs &f, Inode *i, u64 size) {
	if (size < i->size) {
		u64 cut = (size + BLK - 1) & ~(BLK - 1);
		// the tail of the last block reads as zeros from now on
		if (size % BLK) {
			u64 last = size & ~(BLK - 1);
			u32 id = block_at(f, i, last);
			if (id) {
				std::string s = bytes_of(id).substr(0, size - last);
				u32 nid = content(s);
				if (nid != id) { bool was = i->ext.count(0) && i->ext[0].type == 0; if (was) { i->ext[0].inl = nid; i->ext[0].len = size; } else write_blocks(f, i, last, { nid }); }
			}
		}
		punch(f, i, cut, ~0ull >> 1);
	} else if (size > i->size && size > BLK) un_inline(f, i);
	i->size = size;
	hole_items(f, i);
	touch(f, i);
}
// make dst's items at doff refer to what src has at soff
static void clone(Fs &f, Inode *src, u64 soff, u64 len, Inode *dst, u64 doff) {
	std::vector<std::pair<u64, FExt>> items;
	u64 send = soff + len;
	for (auto &x : src->ext) {
		u64 s = x.first, e = s + x.second.len;
		if (x.second.type == 0) e = BLK;
		if (e <= soff || s >= send) continue;
		FExt n = x.second;
		u64 a = std::max(s, soff), b = std::min(e, send);
		if (n.type != 0) { n.eoff += a - s; n.len = b - a; }
		items.push_back({ a - soff + doff, n });
	}
	std::vector<u64> hold;
	for (auto &n : items) { ref(f, n.second.bytenr, 1); hold.push_back(n.second.bytenr); }
	punch(f, dst, doff, doff + len);
	for (auto &n : items) put(f, dst, n.first, n.second);
	for (auto h : hold) ref(f, h, -1);
	hole_items(f, dst);
	touch(f, dst);
}
void reflink(Fs &f, Inode *src, u64 soff, u64 len, Inode *dst, u64 doff) {
	u64 alen = (len + BLK - 1) & ~(BLK - 1);
	if (doff > 0) un_inline(f, dst);
	clone(f, src, soff, alen, dst, doff);
	if (doff + len > dst->size) dst->size = doff + len;
	hole_items(f, dst);
}
static std::shared_ptr<Inode> new_inode(Fs &f, u64 sub, int kind) {
	Subvol &s = f.sub.at(sub);
	auto i = std::make_shared<Inode>();
	i->sub = sub; i->ino = s.next_ino++; i->kind = kind; i->gen = f.transid;
	s.ino[i->ino] = i;
	touch(f, i.get());
	return i;
}
Inode *lookup(Fs &f, u64 sub, u64 dir, const std::string &name) {
	for (auto &x : f.sub.at(sub).ino) for (auto &l : x.second->links) if (l.dir == dir && l.name == name) return x.second.get();
	return nullptr;
}
void add_link(Fs &f, Inode *i, u64 dir, const std::string &name) { i->links.push_back({ dir, name }); touch(f, i); }
Inode *mkfile(Fs &f, u64 sub, u64 dir, const std::string &name) { auto i = new_inode(f, sub, 0); add_link(f, i.get(), dir, name); return i.get(); }
Inode *mkdir(Fs &f, u64 sub, u64 dir, const std::string &name) { auto i = new_inode(f, sub, 1); add_link(f, i.get(), dir, name); return i.get(); }
Inode *mksymlink(Fs &f, u64 sub, u64 dir, const std::string &name, const std::string &t) {
	auto i = new_inode(f, sub, 2); i->target = t; i->size = t.size(); add_link(f, i.get(), dir, name); return i.get();
}
static void drop_inode(Fs &f, std::shared_ptr<Inode> i) {
	punch(f, i.get(), 0, ~0ull >> 1);
	auto s = f.sub.find(i->sub);
	if (s != f.sub.end()) { auto x = s->second.ino.find(i->ino); if (x != s->second.ino.end() && x->second == i) s->second.ino.erase(x); }
	dirty(f, i->sub);
}
void unlink(Fs &f, u64 sub, u64 dir, const std::string &name) {
	Inode *p = lookup(f, sub, dir, name);
	if (!p) return;
	auto i = f.sub.at(sub).ino.at(p->ino);
	i->links.erase(std::remove_if(i->links.begin(), i->links.end(), [&](const Link &l) { return l.dir == dir && l.name == name; }), i->links.end());
	touch(f, p);
	if (i->links.empty()) { i->gone = true; if (!i->opens) drop_inode(f, i); }
}
void rename(Fs &f, u64 sub, u64 odir, const std::string &o, u64 ndir, const std::string &n) {
	Inode *p = lookup(f, sub, odir, o);
	if (!p) return;
	if (lookup(f, sub, ndir, n)) { if (lookup(f, sub, ndir, n) == p) return; unlink(f, sub, ndir, n); }
	for (auto &l : p->links) if (l.dir == odir && l.name == o) { l.dir = ndir; l.name = n; break; }
	touch(f, p);
}
u64 mksubvol(Fs &f, u64 parent, u64 dir, const std::string &name) {
	u64 id = f.sub.empty() ? 5 : f.next_sub++;
	Subvol s;
	s.id = id; s.parent = parent; s.dir = dir; s.name = name;
	s.gen = f.transid; s.itemgen = f.transid; s.dirty = 1;
	auto r = std::make_shared<Inode>();
	r->sub = id; r->ino = 256; r->kind = 1; r->gen = r->itemgen = f.transid;
	s.ino[256] = r;
	f.sub[id] = s;
	++f.version;
	return id;
}
u64 snapshot(Fs &f, u64 src, u64 parent, u64 dir, const std::string &name, bool ro) {
	u64 id = f.next_sub++;
	Subvol s = f.sub.at(src);
	s.id = id; s.parent = parent; s.dir = dir; s.name = name; s.ro = ro; s.gen = f.transid; s.itemgen = f.transid; s.dirty = 1;
	std::map<u64, std::shared_ptr<Inode>> ni;
	for (auto &x : f.sub.at(src).ino) {
		if (x.second->links.empty() && x.first != 256) continue;      // orphans are cleaned up in the snapshot
		auto c = std::make_shared<Inode>(*x.second);
		c->sub = id; c->opens = 0; c->gone = false;
		for (auto &e : c->ext) if (e.second.bytenr) { auto *q = ext_at(f, e.second.bytenr); if (q) ++q->refs; }
		ni[x.first] = c;
	}
	s.ino = ni;
	f.sub[id] = s;
	dirty(f, parent); dirty(f, src);
	return id;
}
void rmsubvol(Fs &f, u64 id) {
	auto it = f.sub.find(id);
	if (it == f.sub.end()) return;
	for (auto &x : it->second.ino) {
		x.second->gone = true;
		if (!x.second->opens) punch(f, x.second.get(), 0, ~0ull >> 1);
	}
	dirty(f, it->second.parent);
	f.sub.erase(id);
	++f.version;
}
void set_ro(Fs &f, u64 sub, bool ro) { Subvol &s = f.sub.at(sub); s.ro = ro; s.itemgen = f.transid; ++f.version; }
void commit(Fs &f) {
	for (auto &s : f.sub) if (s.second.dirty) { s.second.gen = f.transid; s.second.itemgen = f.transid; s.second.dirty = 0; }
	if (f.extdirty) { f.extgen = f.transid; f.extdirty = 0; }
	++f.transid;
	++f.version;
}
u64 space(Fs &f) { u64 n = 0; for (auto &e : f.ext) n += e.second.disk; return n; }

// ------------------------------------------------------------------ saving the world
struct Out { std::string s; template <class T> void pod(T &x) { s.append(reinterpret_cast<const char *>(&x), sizeof x); } void str(std::string &x) { u64 n = x.size(); pod(n); s += x; } static const bool loading = false; };
struct In { const std::string &s; size_t p = 0; template <class T> void pod(T &x) { memcpy(&x, &s[p], sizeof x); p += sizeof x; } void str(std::string &x) { u64 n; pod(n); x.assign(s, p, n); p += n; } static const bool loading = true; };
template <class A> void ar(A &a, u64 &x) { a.pod(x); }
template <class A> void ar(A &a, u32 &x) { a.pod(x); }
template <class A> void ar(A &a, uint8_t &x) { a.pod(x); }
template <class A> void ar(A &a, std::string &x) { a.str(x); }
template <class A> void ar(A &a, Ext &x);
template <class A> void ar(A &a, FExt &x);
template <class A> void ar(A &a, Link &x);
template <class A> void ar(A &a, Inode &x);
template <class A> void ar(A &a, Subvol &x);
template <class A> void ar(A &a, Chunk &x);
template <class A, class T> void ar(A &a, std::vector<T> &x) { u64 n = x.size(); a.pod(n); if (A::loading) x.resize(n); for (auto &i : x) ar(a, i); }
template <class A, class T> void ar(A &a, std::shared_ptr<T> &x) { if (A::loading) x = std::make_shared<T>(); ar(a, *x); }
template <class A, class V> void ar(A &a, std::map<u64, V> &x) {
	u64 n = x.size(); a.pod(n);
	if (A::loading) { x.clear(); for (u64 i = 0; i < n; ++i) { u64 k; a.pod(k); ar(a, x[k]); } }
	else for (auto &i : x) { u64 k = i.first; a.pod(k); ar(a, i.second); }
}
template <class A> void ar(A &a, std::set<u64> &x) { std::vector<u64> v(x.begin(), x.end()); ar(a, v); if (A::loading) x = std::set<u64>(v.begin(), v.end()); }
template <class A, class... T> void all(A &a, T &...t) { (ar(a, t), ...); }
template <class A> void ar(A &a, Ext &x) { all(a, x.bytenr, x.ram, x.disk, x.gen, x.itemgen, x.comp, x.prealloc, x.refs, x.data); }
template <class A> void ar(A &a, FExt &x) { all(a, x.len, x.bytenr, x.eoff, x.type, x.comp, x.inl, x.gen, x.itemgen); }
template <class A> void ar(A &a, Link &x) { all(a, x.dir, x.name); }
template <class A> void ar(A &a, Inode &x) { all(a, x.sub, x.ino, x.size, x.kind, x.iflags, x.nodatasum, x.gen, x.itemgen, x.target, x.links, x.ext); }
template <class A> void ar(A &a, Subvol &x) { all(a, x.id, x.parent, x.dir, x.name, x.ro, x.deleted, x.gen, x.itemgen, x.dirty, x.next_ino, x.ino); }
template <class A> void ar(A &a, Chunk &x) { all(a, x.start, x.len, x.meta, x.next); }
template <class A> void ar(A &a, Fs &x) { all(a, x.btrfs, x.transid, x.sub, x.ext, x.chunk, x.extgen, x.extdirty, x.next_sub, x.version); }
template <class A> void ar(A &a, World &x) { all(a, x.b, x.p, x.blocks, x.leaf, x.holes, x.no_openat2, x.uname_release, x.toxic, x.crowded, x.next_fsync_fail); }

// unlinked files vanish when the machine or the process holding them goes
static void drop_orphans(Fs &f) {
	for (auto &s : f.sub) {
		std::vector<std::shared_ptr<Inode>> dead;
		for (auto &x : s.second.ino) if (x.first != 256 && x.second->links.empty()) dead.push_back(x.second);
		for (auto &d : dead) { auto save = on_event; on_event = nullptr; drop_inode(f, d); on_event = save; }
	}
	// and so do files of deleted subvolumes that were still open
	std::set<u64> live;
	for (auto &s : f.sub) for (auto &x : s.second.ino) for (auto &e : x.second->ext) live.insert(e.second.bytenr);
	for (auto it = f.ext.begin(); it != f.ext.end(); ) if (!live.count(it->first)) it = f.ext.erase(it); else ++it;
}
std::string save() { drop_orphans(W.b); drop_orphans(W.p); Out o; ar(o, W); return std::move(o.s); }
void load(const std::string &s) {
	In i { s };
	ar(i, W);
	W.intern.clear();
	for (u32 n = 1; n < W.blocks.size(); ++n) W.intern[W.blocks[n]] = n;
	fds.clear();
}

// ------------------------------------------------------------------ trees
struct Item { u64 o; u32 t; u64 f; u64 gen; std::string d; };
template <class T> static std::string raw(const T &t) { return std::string(reinterpret_cast<const char *>(&t), sizeof t); }

static void build(Fs &f, u64 tree, std::vector<Item> &v, bool &exists) {
	exists = true;
	if (tree == BTRFS_ROOT_TREE_OBJECTID) {
		auto root = [&](u64 id, u64 gen, u64 itemgen, bool ro, u64 off) {
			btrfs_root_item r; memset(&r, 0, sizeof r);
			r.generation = gen; r.generation_v2 = gen; r.refs = 1; r.flags = ro ? 1 : 0; r.root_dirid = id >= 256 || id == 5 ? 256 : 0;
			v.push_back({ id, BTRFS_ROOT_ITEM_KEY, off, itemgen, raw(r) });
		};
		root(BTRFS_EXTENT_TREE_OBJECTID, f.extgen, f.extgen, false, 0);
		root(BTRFS_CHUNK_TREE_OBJECTID, f.extgen, f.extgen, false, 0);
		root(BTRFS_CSUM_TREE_OBJECTID, f.extgen, f.extgen, false, 0);
		for (auto &s : f.sub) {
			root(s.first, s.second.gen, s.second.itemgen, s.second.ro, 0);
			if (s.first != 5) {
				btrfs_root_ref rr; memset(&rr, 0, sizeof rr);
				rr.dirid = s.second.dir; rr.sequence = 2; rr.name_len = s.second.name.size();
				v.push_back({ s.first, BTRFS_ROOT_BACKREF_KEY, s.second.parent, s.second.itemgen, raw(rr) + s.second.name });
				v.push_back({ s.second.parent, BTRFS_ROOT_REF_KEY, s.first, s.second.itemgen, raw(rr) + s.second.name });
			}
		}
		root(BTRFS_DATA_RELOC_TREE_OBJECTID, 5, 5, false, 0);
	} else if (tree == BTRFS_EXTENT_TREE_OBJECTID) {
		for (auto &c : f.chunk) {
			btrfs_block_group_item bg; memset(&bg, 0, sizeof bg);
			bg.flags = c.meta ? BTRFS_BLOCK_GROUP_METADATA : BTRFS_BLOCK_GROUP_DATA;
			v.push_back({ c.start, BTRFS_BLOCK_GROUP_ITEM_KEY, c.len, 5, raw(bg) });
			if (c.meta) for (u64 k = 0; k < 6; ++k) {
				btrfs_extent_item ei; ei.refs = 1; ei.generation = f.extgen; ei.flags = BTRFS_EXTENT_FLAG_TREE_BLOCK;
				v.push_back({ c.start + k * 16384, BTRFS_METADATA_ITEM_KEY, 0, f.extgen, raw(ei) });
			}
		}
		for (auto &x : f.ext) {
			btrfs_extent_item ei; ei.refs = x.second.refs; ei.generation = x.second.gen; ei.flags = BTRFS_EXTENT_FLAG_DATA;
			v.push_back({ x.first, BTRFS_EXTENT_ITEM_KEY, x.second.disk, x.second.itemgen, raw(ei) + std::string(29, 1) });
		}
	} else if (tree == BTRFS_CHUNK_TREE_OBJECTID) {
		v.push_back({ 1, BTRFS_DEV_ITEM_KEY, 1, 5, std::string(98, 0) });
		for (auto &c : f.chunk) {
			btrfs_chunk bc; memset(&bc, 0, sizeof bc);
			bc.length = c.len; bc.owner = 2; bc.stripe_len = 65536; bc.num_stripes = 1;
			bc.type = c.meta ? BTRFS_BLOCK_GROUP_METADATA : BTRFS_BLOCK_GROUP_DATA;
			v.push_back({ BTRFS_FIRST_CHUNK_TREE_OBJECTID, BTRFS_CHUNK_ITEM_KEY, c.start, 5, raw(bc) });
		}
	} else if (tree == BTRFS_CSUM_TREE_OBJECTID) {
	} else {
		auto s = f.sub.find(tree);
		if (s == f.sub.end()) { exists = false; return; }
		for (auto &x : s->second.ino) {
			Inode &i = *x.second;
			btrfs_inode_item ii; memset(&ii, 0, sizeof ii);
			ii.generation = i.gen; ii.transid = i.itemgen; ii.size = i.size; ii.nlink = i.links.size();
			ii.mode = i.kind == 1 ? 040755 : i.kind == 2 ? 0120777 : 0100644;
			ii.flags = (i.nosum() ? BTRFS_INODE_NODATASUM : 0) | (i.iflags & FS_NOCOW_FL ? BTRFS_INODE_NODATACOW : 0);
			v.push_back({ i.ino, BTRFS_INODE_ITEM_KEY, 0, i.itemgen, raw(ii) });
			std::set<u64> dirs;
			for (auto &l : i.links) if (dirs.insert(l.dir).second) v.push_back({ i.ino, BTRFS_INODE_REF_KEY, l.dir, i.itemgen, std::string(10, 2) + l.name });
			for (auto &e : i.ext) {
				btrfs_file_extent_item fe; memset(&fe, 0, sizeof fe);
				FExt &y = e.second;
				Ext *z = ext_at(f, y.bytenr);
				fe.generation = y.gen;
				fe.compression = y.comp; fe.type = y.type;
				if (y.type == 0) {
					fe.ram_bytes = y.len;
					std::string d = raw(fe).substr(0, offsetof(btrfs_file_extent_item, disk_bytenr)) + bytes_of(y.inl).substr(0, y.len);
					if (d.size() < sizeof fe) d.resize(sizeof fe);
					v.push_back({ i.ino, BTRFS_EXTENT_DATA_KEY, e.first, y.itemgen, d });
					continue;
				}
				fe.disk_bytenr = y.bytenr; fe.disk_num_bytes = z ? z->disk : 0; fe.ram_bytes = z ? z->ram : y.len;
				fe.offset = y.eoff; fe.num_bytes = y.len;
				v.push_back({ i.ino, BTRFS_EXTENT_DATA_KEY, e.first, y.itemgen, raw(fe) });
			}
		}
	}
	std::sort(v.begin(), v.end(), [](const Item &a, const Item &b) { return std::tie(a.o, a.t, a.f) < std::tie(b.o, b.t, b.f); });
}
struct Tree { u64 version = 0; bool exists = false, raw = false; std::vector<Item> v; std::vector<u64> leafgen; };
std::map<u64, std::vector<RawItem>> raw_trees;
static Tree &tree_of(Fs &f, u64 id) {
	static std::map<u64, Tree> cache;
	auto rt = raw_trees.find(id);
	if (rt != raw_trees.end()) {
		Tree &t = cache[id];
		if (t.exists) return t;
		t.exists = true;
		for (auto &x : rt->second) { t.v.push_back({ x.o, x.t, x.f, x.leafgen, x.d }); t.leafgen.push_back(x.leafgen); }
		t.raw = true;
		return t;
	}
	Tree &t = cache[id];
	if (t.version == f.version) return t;
	t = Tree();
	t.version = f.version;
	build(f, id, t.v, t.exists);
	t.leafgen.resize(t.v.size() / W.leaf + 1);
	for (size_t i = 0; i < t.v.size(); ++i) t.leafgen[i / W.leaf] = std::max(t.leafgen[i / W.leaf], t.v[i].gen);
	return t;
}
static int tree_search(Fs &f, btrfs_ioctl_search_args_v2 *a, u64 fdroot) {
	btrfs_ioctl_search_key &k = a->key;
	u64 id = k.tree_id ? k.tree_id : fdroot;
	Tree &t = tree_of(f, id);
	if (!t.exists) { errno = ENOENT; return -1; }
	auto lo = std::make_tuple(u64(k.min_objectid), u32(k.min_type), u64(k.min_offset));
	auto hi = std::make_tuple(u64(k.max_objectid), u32(k.max_type), u64(k.max_offset));
	u64 used = 0;
	u32 found = 0;
	char *out = reinterpret_cast<char *>(a) + sizeof(*a);
	size_t n = std::lower_bound(t.v.begin(), t.v.end(), lo, [](const Item &x, const std::tuple<u64, u32, u64> &y) { return std::make_tuple(x.o, x.t, x.f) < y; }) - t.v.begin();
	for (; n < t.v.size() && found < k.nr_items; ++n) {
		Item &x = t.v[n];
		if (std::make_tuple(x.o, x.t, x.f) > hi) break;
		u64 lg = t.leafgen[t.raw ? n : n / W.leaf];
		if (lg < k.min_transid || lg > k.max_transid) continue;
		btrfs_ioctl_search_header h; memset(&h, 0, sizeof h);
		h.transid = lg; h.objectid = x.o; h.type = x.t; h.offset = x.f; h.len = x.d.size();
		if (sizeof h + x.d.size() > a->buf_size && !found) {          // as in the kernel: the count is not copied back, one empty item is
			a->buf_size = sizeof h + x.d.size(); h.len = 0; memcpy(out, &h, sizeof h); errno = EOVERFLOW; return -1;
		}
		if (used + sizeof h + x.d.size() > a->buf_size) break;
		memcpy(out + used, &h, sizeof h); used += sizeof h;
		memcpy(out + used, x.d.data(), x.d.size()); used += x.d.size();
		++found;
	}
	// where a subvolume is, as the daemon is told
	if (found == 1 && k.min_type == BTRFS_ROOT_BACKREF_KEY && k.max_type == BTRFS_ROOT_BACKREF_KEY) {
		u64 r = reinterpret_cast<btrfs_ioctl_search_header *>(out)->objectid;
		if (f.sub.count(r)) EV("\"e\":\"rb\",\"t\":%d,\"s\":%llu,\"up\":%llu,\"pn\":\"%s\"", vs_tid(), (unsigned long long)r, (unsigned long long)f.sub[r].parent, esc(f.sub[r].name).c_str());
	}
	k.nr_items = found;
	return 0;
}

// ------------------------------------------------------------------ paths
static std::string path_of(Fs &f, u64 sub, u64 ino) {
	std::string p;
	for (int depth = 0; depth < 64; ++depth) {
		auto s = f.sub.find(sub);
		if (s == f.sub.end()) return "(deleted)" + p;
		if (ino == 256) {
			if (sub == 5 || !s->second.parent) return p.empty() ? "" : p;
			p = "/" + s->second.name + p;
			ino = s->second.dir; sub = s->second.parent;
			continue;
		}
		Inode *i = inode(f, sub, ino);
		if (!i || i->links.empty()) return "/(deleted)" + p;
		p = "/" + i->links[0].name + p;
		ino = i->links[0].dir;
	}
	return p;
}
// paths relative to the subvolume's root directory
static void rel_paths(Fs &f, u64 sub, Inode *i, std::vector<std::string> &out) {
	for (auto &l : i->links) {
		if (l.dir == 256) { out.push_back(l.name); continue; }
		Inode *d = inode(f, sub, l.dir);
		if (!d) continue;
		std::vector<std::string> up;
		rel_paths(f, sub, d, up);
		if (!up.empty()) out.push_back(up[0] + "/" + l.name);
	}
}
struct Walk { int err = 0; Fs *fs = nullptr; std::shared_ptr<Inode> ino; bool foreign = false; };
static Walk walk(Fs *f, std::shared_ptr<Inode> at, const std::string &path, int flags, u64 resolve, int depth = 0) {
	Walk r;
	std::string p = path;
	if (depth > 8) { r.err = ELOOP; return r; }
	if (!p.empty() && p[0] == '/') {
		if (resolve & RESOLVE_BENEATH) { r.err = EXDEV; return r; }
		if (p.compare(0, 8, "/simhome") == 0 && (p.size() == 8 || p[8] == '/')) { f = &W.p; at = f->sub.at(5).ino.at(256); p = p.substr(8); }
		else if (p.compare(0, 4, "/sim") == 0 && (p.size() == 4 || p[4] == '/')) { f = &W.b; at = f->sub.at(5).ino.at(256); p = p.substr(4); }
		else { r.err = ENOENT; return r; }
	}
	r.fs = f;
	auto cur = at;
	size_t i = 0;
	std::vector<std::string> parts;
	while (i < p.size()) {
		size_t j = p.find('/', i);
		if (j == std::string::npos) j = p.size();
		if (j > i && p.substr(i, j - i) != ".") parts.push_back(p.substr(i, j - i));
		i = j + 1;
	}
	for (size_t n = 0; n < parts.size(); ++n) {
		bool last = n + 1 == parts.size();
		if (cur->kind == 3) { r.foreign = true; if (last) { r.ino = cur; return r; } continue; }
		if (cur->kind != 1) { r.err = ENOTDIR; return r; }
		// a subvolume mounted at this name?
		std::shared_ptr<Inode> nx;
		for (auto &s : f->sub) if (s.second.parent == cur->sub && s.second.dir == cur->ino && s.second.name == parts[n] && s.first != 5) nx = s.second.ino.at(256);
		if (!nx) {
			auto sv = f->sub.find(cur->sub);
			if (sv == f->sub.end()) { r.err = ENOENT; return r; }
			Inode *q = lookup(*f, cur->sub, cur->ino, parts[n]);
			if (q) nx = sv->second.ino.at(q->ino);
		}
		if (!nx) { r.err = ENOENT; return r; }
		if (nx->kind == 2) {
			if (resolve & RESOLVE_NO_SYMLINKS) { r.err = ELOOP; return r; }
			if (last && (flags & O_NOFOLLOW)) { r.err = ELOOP; return r; }
			Walk w = walk(f, cur, nx->target, 0, resolve, depth + 1);
			if (w.err) return w;
			nx = w.ino; f = w.fs; r.fs = f; r.foreign = r.foreign || w.foreign;
		}
		if (nx->kind == 3) {
			if (resolve & RESOLVE_NO_XDEV) { r.err = EXDEV; return r; }
			r.foreign = true;
		}
		cur = nx;
	}
	r.ino = cur;
	return r;
}

static long rawsys(long nr, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) { return ::syscall(nr, a, b, c, d, e, f); }
static int new_fd(std::shared_ptr<Open> o) {
	int fd = rawsys(SYS_openat, AT_FDCWD, long("/dev/null"), O_RDWR | O_CLOEXEC);
	if (fd < 0) return fd;
	++o->ino->opens;
	fds[fd] = o;
	return fd;
}
static std::shared_ptr<Open> get(int fd) { auto i = fds.find(fd); return i == fds.end() ? nullptr : i->second; }
static bool is_sim_path(const char *p) { return enabled && p && !strncmp(p, "/sim", 4) && (p[4] == 0 || p[4] == '/' || !strncmp(p + 4, "home", 4)); }

static void enter(const char *op) {
	++syscalls;
	vs_yield();
	if (on_op) on_op(op);
}
static int flt(const char *op, const std::shared_ptr<Open> &o, u64 off = 0, u64 len = 0) {
	if (!fault) return 0;
	return fault(op, o && o->ino ? o->ino->sub : 0, o && o->ino ? o->ino->ino : 0, off, len);
}
// kinds: f user file, d directory, t temporary, h file in the daemon's home directory, x something else
static std::string homedir_of(const Inode *i, const Fs *f) {
	if (f == &W.p) return i->links.empty() ? "" : i->links[0].name;
	for (auto &l : i->links) { Inode *d = inode(W.b, i->sub, l.dir); if (d && i->sub == 5 && !d->links.empty() && d->links[0].name == ".beeshome") return l.name; }
	return "";
}
static const char *kind_of(const Open &o) {
	if (o.foreign) return "x";
	if (o.ino->tmp) return "t";
	if (o.ino->kind == 1) return "d";
	if (o.fs == &W.p || !homedir_of(o.ino.get(), o.fs).empty()) return "h";
	return "f";
}
typedef unsigned long long ull;
static bool is_home_dir(const Open &o) { return o.fs == &W.p || (o.ino->kind == 1 && o.ino->sub == 5 && !o.ino->links.empty() && o.ino->links[0].name == ".beeshome"); }
static int mutation(std::shared_ptr<Open> o, const char *what) {
	EV("\"e\":\"mut\",\"t\":%d,\"k\":\"%s\",\"w\":\"%s\",\"s\":%llu,\"i\":%llu", vs_tid(), kind_of(*o), what, (ull)o->ino->sub, (ull)o->ino->ino);
	errno = EOPNOTSUPP;
	return -1;
}

static int sim_open(const char *how, std::shared_ptr<Open> dir, int dfd, const std::string &path, int flags, u64 resolve) {
	enter("open");
	Fs *f = dir ? dir->fs : &W.b;
	auto at = dir ? dir->ino : f->sub.at(5).ino.at(256);
	if ((flags & O_TMPFILE) == O_TMPFILE) {
		Walk w = walk(f, at, path, 0, resolve);
		if (!w.err) w.err = flt("tmpfile", dir);
		if (w.err) { errno = w.err; EV("\"e\":\"openx\",\"t\":%d,\"k\":\"t\",\"er\":%d", vs_tid(), w.err); return -1; }
		auto i = new_inode(*f, w.ino->sub, 0);
		i->tmp = true; i->gone = true;
		auto o = std::make_shared<Open>();
		o->fs = f; o->ino = i; o->flags = flags; o->path = "/sim/#" + std::to_string(i->ino);
		int fd = new_fd(o);
		EV("\"e\":\"open\",\"t\":%d,\"fd\":%d,\"k\":\"t\",\"s\":%llu,\"i\":%llu", vs_tid(), fd, (ull)i->sub, (ull)i->ino);
		return fd;
	}
	Walk w = walk(f, at, path, flags, resolve);
	std::string leafname = path.substr(path.rfind('/') == std::string::npos ? 0 : path.rfind('/') + 1);
	if (w.err == ENOENT && (flags & O_CREAT)) {
		std::string dirname = path.rfind('/') == std::string::npos ? "" : path.substr(0, path.rfind('/'));
		Walk d = walk(f, at, dirname, 0, resolve);
		if (!d.err) d.err = flt("create", dir);
		if (d.err) { errno = d.err; EV("\"e\":\"openx\",\"t\":%d,\"k\":\"h\",\"n\":\"%s\",\"er\":%d", vs_tid(), esc(leafname).c_str(), d.err); return -1; }
		w = d;
		w.ino = f->sub.at(d.ino->sub).ino.at(mkfile(*d.fs, d.ino->sub, d.ino->ino, leafname)->ino);
		auto o = std::make_shared<Open>();
		o->fs = w.fs; o->ino = w.ino; o->flags = flags;
		int fd = new_fd(o);
		EV("\"e\":\"hcreate\",\"t\":%d,\"fd\":%d,\"n\":\"%s\",\"s\":%llu,\"i\":%llu,\"hd\":%d", vs_tid(), fd, esc(leafname).c_str(), (ull)w.ino->sub, (ull)w.ino->ino, int(*kind_of(*o) == 'h'));
		return fd;
	}
	if (!w.err && (flags & O_CREAT) && (flags & O_EXCL)) w.err = EEXIST;
	if (!w.err && (flags & O_DIRECTORY) && w.ino->kind != 1 && !w.foreign) w.err = ENOTDIR;
	if (!w.err && !(flags & O_DIRECTORY) && (flags & O_RDWR) && w.ino->kind == 1) w.err = EISDIR;
	auto o = std::make_shared<Open>();
	o->fs = w.fs; o->ino = w.ino; o->flags = flags; o->foreign = w.foreign;
	if (!w.err) w.err = flt("open", o);
	if (w.err) { errno = w.err; EV("\"e\":\"openx\",\"t\":%d,\"k\":\"f\",\"n\":\"%s\",\"pn\":\"%s\",\"er\":%d", vs_tid(), esc(leafname).c_str(), esc(path).c_str(), w.err); errno = w.err; return -1; }
	if ((flags & O_TRUNC) && (flags & (O_RDWR | O_WRONLY))) {
		set_size(*o->fs, o->ino.get(), 0);
		EV("\"e\":\"tr\",\"t\":%d,\"k\":\"%s\",\"n\":\"%s\",\"s\":%llu,\"i\":%llu,\"sz\":0,\"er\":0", vs_tid(), kind_of(*o), esc(homedir_of(o->ino.get(), o->fs)).c_str(), (ull)o->ino->sub, (ull)o->ino->ino);
	}
	o->path = std::string(w.fs == &W.p ? "/simhome" : "/sim") + path_of(*w.fs, w.ino->sub, w.ino->ino);
	int fd = new_fd(o);
	std::string hn = homedir_of(w.ino.get(), w.fs);
	if (std::string(kind_of(*o)) == "h" && !hn.empty())
		EV("\"e\":\"hopen\",\"t\":%d,\"fd\":%d,\"n\":\"%s\",\"s\":%llu,\"i\":%llu,\"sz\":%llu,\"df\":%d,\"pn\":\"%s\"", vs_tid(), fd, esc(hn).c_str(), (ull)w.ino->sub, (ull)w.ino->ino, (ull)w.ino->size, dfd, esc(path).c_str());
	else
	EV("\"e\":\"open\",\"t\":%d,\"fd\":%d,\"k\":\"%s\",\"s\":%llu,\"i\":%llu,\"nc\":%d,\"how\":\"%s\",\"rs\":%llu,\"nf\":%d,\"na\":%d,\"rw\":%d,\"df\":%d,\"up\":%llu,\"pn\":\"%s\"", vs_tid(), fd, kind_of(*o), (ull)w.ino->sub, (ull)w.ino->ino,
		int(!!(w.ino->iflags & FS_NOCOW_FL)), how, (ull)resolve, int(!!(flags & O_NOFOLLOW)), int(!!(flags & O_NOATIME)), int(!!(flags & (O_RDWR | O_WRONLY))), dfd, (ull)at->sub, esc(path).c_str());
	return fd;
}
static ssize_t sim_read(std::shared_ptr<Open> o, int fd, char *buf, size_t n, u64 off) {
	enter("read");
	if (o->ino->kind == 1) { errno = EISDIR; return -1; }
	int e = flt("read", o, off, n);
	if (e) { EV("\"e\":\"rdx\",\"t\":%d,\"s\":%llu,\"i\":%llu,\"b\":%llu,\"er\":%d", vs_tid(), (ull)o->ino->sub, (ull)o->ino->ino, (ull)(off / BLK), e); errno = e; return -1; }
	if (o->foreign) { memset(buf, 0xee, n); EV("\"e\":\"rd\",\"t\":%d,\"fd\":%d,\"k\":\"x\",\"s\":0,\"i\":0,\"b\":0,\"n\":0,\"c\":[],\"p\":[]", vs_tid(), fd); return n; }
	if (off >= o->ino->size) n = 0;
	else n = std::min<u64>(n, o->ino->size - off);
	size_t done = 0;
	std::string ids, ps;
	while (done < n) {
		u64 p = off + done;
		u64 in = p % BLK;
		size_t k = std::min<u64>(n - done, BLK - in);
		u32 id = block_at(*o->fs, o->ino.get(), p);
		if (id) memcpy(buf + done, W.blocks[id].data() + in, k); else memset(buf + done, 0, k);
		// somebody who reads the beginning of a block has seen that only
		if (id && !in && k < BLK && W.blocks[id].find_first_not_of('\0', k) != std::string::npos)
			id = content(W.blocks[id].substr(0, k));
		if (ids.size() < 4000) ids += (ids.empty() ? "" : ",") + std::to_string(id);
		if (ps.size() < 4000) ps += (ps.empty() ? "" : ",") + std::to_string(phys_at(*o->fs, o->ino.get(), p));
		done += k;
	}
	const char *k = kind_of(*o);
	if (*k == 'h') { EV("\"e\":\"hrd\",\"t\":%d,\"n\":\"%s\",\"i\":%llu,\"b\":%llu,\"len\":%zu", vs_tid(), esc(homedir_of(o->ino.get(), o->fs)).c_str(), (ull)o->ino->ino, (ull)(off / BLK), n);
		// files in the home directory on the same filesystem are read both by their owner and by the scan
		if (o->fs == &W.b && on_event) on_event(fmt("\"e\":\"rd\",\"t\":%d,\"fd\":%d,\"k\":\"h\",\"s\":%llu,\"i\":%llu,\"b\":%llu,\"n\":%zu,\"c\":[", vs_tid(), fd, (ull)o->ino->sub, (ull)o->ino->ino, (ull)(off / BLK), n) + ids + "],\"p\":[" + ps + "]");
	}
	else if (on_event) on_event(fmt("\"e\":\"rd\",\"t\":%d,\"fd\":%d,\"k\":\"%s\",\"s\":%llu,\"i\":%llu,\"b\":%llu,\"n\":%zu,\"c\":[", vs_tid(), fd, k, (ull)o->ino->sub, (ull)o->ino->ino, (ull)(off / BLK), n) + ids + "],\"p\":[" + ps + "]");
	return n;
}
static std::string home_phys(Fs &f, Inode *i, u64 a, size_t n) {
	std::string ps;
	for (size_t k = 0; k < n; ++k) ps += (k ? "," : "") + std::to_string(phys_at(f, i, a + k * BLK));
	return fmt(",\"s\":%llu,\"p\":[", (ull)i->sub) + ps + "]";
}
static ssize_t sim_write(std::shared_ptr<Open> o, const char *buf, size_t n, u64 off) {
	enter("write");
	if (!(o->flags & (O_RDWR | O_WRONLY))) { errno = EBADF; return -1; }
	int e = flt("write", o, off, n);
	std::string hn = homedir_of(o->ino.get(), o->fs);
	const char *kd = kind_of(*o);
	if (e) { EV("\"e\":\"%s\",\"t\":%d,\"n\":\"%s\",\"i\":%llu,\"er\":%d,\"off\":%llu,\"len\":%zu", *kd == 'h' ? "hwrx" : "wrx", vs_tid(), esc(hn).c_str(), (ull)o->ino->ino, e, (ull)off, n); errno = e; return -1; }
	size_t want = n;
	if (*kd == 'h' && n > 1 && n < 65536 && flt("short", o, off, n)) n = 1 + n / 2;      // the filesystem is nearly full
	else if (short_pages && n > BLK && flt("short", o, off, n)) n = n / 2 / BLK * BLK;
	Inode *i = o->ino.get();
	u64 a = off & ~(BLK - 1);
	std::vector<u32> ids;
	for (u64 p = a; p < off + n; p += BLK) {
		std::string s = bytes_of(block_at(*o->fs, i, p));
		u64 lo = std::max(p, off), hi = std::min(p + BLK, off + n);
		memcpy(&s[lo - p], buf + (lo - off), hi - lo);
		ids.push_back(content(s));
	}
	u64 osize = i->size;
	int comp = (i->iflags & FS_COMPR_FL) && i->tmp && (content(bytes_of(ids[0])) & 3) == 1 ? 1 : 0;
	write_blocks(*o->fs, i, a, ids, comp);
	i->size = std::max(osize, off + n);
	if (*kd == 'h') {
		std::string ids_s; for (auto x : ids) if (ids_s.size() < 400) ids_s += (ids_s.empty() ? "" : ",") + std::to_string(x);
		if (on_event) on_event(fmt("\"e\":\"hwr\",\"t\":%d,\"n\":\"%s\",\"i\":%llu,\"b\":%llu,\"off\":%llu,\"len\":%zu,\"want\":%zu,\"c\":[", vs_tid(), esc(hn).c_str(), (ull)i->ino, (ull)(off / BLK), (ull)off, n, want) + ids_s + "]"
			+ (o->fs == &W.b && n < 65536 ? home_phys(*o->fs, i, a, ids.size()) : std::string())
			+ (n < 65536 && hn.find("crawl") != std::string::npos ? ",\"text\":\"" + esc(std::string(buf, n)) + "\"" : std::string()));
	}
	else if (on_event) {
		std::string is, ps;
		for (size_t k = 0; k < ids.size() && k < 64; ++k) { is += (k ? "," : "") + std::to_string(ids[k]); ps += (k ? "," : "") + std::to_string(phys_at(*o->fs, i, a + k * BLK)); }
		on_event(fmt("\"e\":\"wr\",\"t\":%d,\"k\":\"%s\",\"s\":%llu,\"i\":%llu,\"off\":%llu,\"len\":%zu,\"c\":[", vs_tid(), kd, (ull)i->sub, (ull)i->ino, (ull)off, n) + is + "],\"p\":[" + ps + "]");
	}
	return n;
}
static int sim_stat(std::shared_ptr<Open> o, struct stat *st) {
	memset(st, 0, sizeof *st);
	st->st_ino = o->ino->ino;
	st->st_dev = o->foreign ? 0x9999 : o->fs == &W.p ? 0x800 : 0x10000 + o->ino->sub;
	st->st_size = o->ino->size;
	st->st_mode = o->ino->kind == 1 ? S_IFDIR | 0755 : S_IFREG | 0644;
	st->st_nlink = o->ino->links.size();
	st->st_blksize = 4096;
	return 0;
}
static int sim_close(int fd, std::shared_ptr<Open> o) {
	enter("close");
	if (!fds.count(fd)) { errno = EBADF; return -1; }
	fds.erase(fd);
	const char *k = kind_of(*o);
	EV("\"e\":\"close\",\"t\":%d,\"fd\":%d,\"k\":\"%s\",\"s\":%llu,\"i\":%llu", vs_tid(), fd, k, (ull)o->ino->sub, (ull)o->ino->ino);
	if (!--o->ino->opens && o->ino->gone) { drop_inode(*o->fs, o->ino); if (o->ino->tmp) EV("\"e\":\"tgone\",\"s\":%llu,\"i\":%llu", (ull)o->ino->sub, (ull)o->ino->ino); }
	return rawsys(SYS_close, fd);
}

static void logical_refs(Fs &f, u64 logical, bool ignore, std::vector<u64> &out, int &err, u64 &start) {
	auto it = f.ext.upper_bound(logical);
	err = ENOENT;
	start = 0;
	for (auto &c : f.chunk) if (c.meta && logical >= c.start && logical < c.start + 6 * 16384) { err = EINVAL; return; }
	if (it == f.ext.begin()) return;
	--it;
	Ext &e = it->second;
	if (logical >= e.bytenr + e.disk) return;
	err = 0;
	start = e.bytenr;
	u64 pos = logical - e.bytenr;
	for (auto &s : f.sub) for (auto &x : s.second.ino) for (auto &y : x.second->ext) {
		FExt &q = y.second;
		if (q.bytenr != e.bytenr || q.type == 0) continue;
		u64 off = y.first;
		if (!ignore && !q.comp) {
			if (pos < q.eoff || pos >= q.eoff + q.len) continue;
			off += pos - q.eoff;
		}
		out.push_back(x.second->ino); out.push_back(off); out.push_back(s.first);
	}
}

static int sim_ioctl(int fd, std::shared_ptr<Open> o, unsigned long req, void *arg) {
	enter("ioctl");
	Fs &f = *o->fs;
	switch (req) {
	case FS_IOC_GETFLAGS: if (o->foreign) { *static_cast<int *>(arg) = 0; return 0; } *static_cast<int *>(arg) = o->ino->iflags; return 0;
	case FS_IOC_SETFLAGS: {
		int e = flt("setflags", o); if (e) { errno = e; return -1; }
		o->ino->iflags = *static_cast<int *>(arg);
		EV("\"e\":\"fl\",\"t\":%d,\"k\":\"%s\",\"s\":%llu,\"i\":%llu,\"fl\":%d", vs_tid(), kind_of(*o), (ull)o->ino->sub, (ull)o->ino->ino, *static_cast<int *>(arg));
		return 0;
	}
	}
	if (!f.btrfs || o->foreign) { errno = ENOTTY; return -1; }
	switch (req) {
	case BTRFS_IOC_CLONE: return mutation(o, "clone");
	case BTRFS_IOC_CLONE_RANGE: return mutation(o, "clone_range");
	case BTRFS_IOC_DEFRAG: case BTRFS_IOC_DEFRAG_RANGE: return mutation(o, "defrag");
	case BTRFS_IOC_FS_INFO: {
		auto *a = static_cast<btrfs_ioctl_fs_info_args *>(arg);
		u64 flags = a->flags;
		memset(a, 0, sizeof *a);
		a->max_id = 1; a->num_devices = 1; memcpy(a->fsid, "simulated-btrfs!", 16);
		a->nodesize = 16384; a->sectorsize = 4096; a->clone_alignment = 4096;
		if (flags & BTRFS_FS_INFO_FLAG_CSUM_INFO) { a->csum_type = 0; a->csum_size = 4; a->flags |= BTRFS_FS_INFO_FLAG_CSUM_INFO; }
		if (flags & BTRFS_FS_INFO_FLAG_GENERATION) { a->generation = f.transid - 1; a->flags |= BTRFS_FS_INFO_FLAG_GENERATION; }
		return 0;
	}
	case BTRFS_IOC_TREE_SEARCH_V2: {
		int e = flt("search", o); if (e) { errno = e; return -1; }
		return tree_search(f, static_cast<btrfs_ioctl_search_args_v2 *>(arg), o->ino->sub);
	}
	case BTRFS_IOC_INO_LOOKUP: {
		auto *a = static_cast<btrfs_ioctl_ino_lookup_args *>(arg);
		if (!a->treeid) a->treeid = o->ino->sub;
		if (!f.sub.count(a->treeid)) { errno = ENOENT; return -1; }
		a->name[0] = 0;
		if (a->objectid != 256) { errno = ENOENT; return -1; }
		return 0;
	}
	case BTRFS_IOC_INO_PATHS: {
		auto *a = static_cast<btrfs_ioctl_ino_path_args *>(arg);
		int e = flt("paths", o); if (e) { errno = e; return -1; }
		Inode *i = inode(f, o->ino->sub, a->inum);
		std::vector<std::string> ps;
		if (i) rel_paths(f, o->ino->sub, i, ps);
		std::string names;
		for (auto &p : ps) names += (names.empty() ? "\"" : ",\"") + esc(p) + "\"";
		if (on_event) on_event(fmt("\"e\":\"ip\",\"t\":%d,\"fd\":%d,\"s\":%llu,\"i\":%llu,\"n\":%zu,\"ps\":[", vs_tid(), fd, (ull)o->ino->sub, (ull)a->inum, ps.size()) + names + "]");
		if (ps.empty()) { errno = ENOENT; return -1; }
		auto *c = reinterpret_cast<btrfs_data_container *>(a->fspath);
		u64 room = a->size - sizeof *c;
		u64 need_ptrs = ps.size() * 8, at = need_ptrs, cnt = 0;
		char *v = reinterpret_cast<char *>(c->val);
		for (auto &p : ps) {
			if (at + p.size() + 1 > room) { ++c->elem_missed; continue; }
			c->val[cnt++] = at;
			memcpy(v + at, p.c_str(), p.size() + 1);
			at += p.size() + 1;
		}
		c->elem_cnt = cnt; c->bytes_left = room - at;
		return 0;
	}
	case BTRFS_IOC_LOGICAL_INO:
	case BTRFS_IOC_LOGICAL_INO_V2: {
		auto *a = static_cast<btrfs_ioctl_logical_ino_args *>(arg);
		u64 flags = 0;
		u64 size = a->size;
		if (req == BTRFS_IOC_LOGICAL_INO_V2) flags = *(&a->reserved[0] + 3); else size = std::min<u64>(size, 65536);
		int e = flt("logical", o, a->logical);
		std::vector<u64> out;
		u64 start = 0;
		if (!e) logical_refs(f, a->logical, flags & BTRFS_LOGICAL_INO_ARGS_IGNORE_OFFSET, out, e, start);
		bool slow = false, many = false;
		if (!e && W.toxic.count(start)) { slow = true; t_sys_us += 6000000; vs_set_now_ns(vs_now_ns() + 7000000000ull); }
		if (!e && W.crowded.count(start) && !out.empty()) { many = true; size_t real = out.size(); while (out.size() < 3 * 10050) for (size_t k = 0; k < real; ++k) out.push_back(out[k]); }
		if (e) { EV("\"e\":\"li\",\"t\":%d,\"p\":%llu,\"x\":%llu,\"n\":0,\"er\":%d,\"slow\":0,\"many\":0,\"ig\":%d,\"r\":[]", vs_tid(), (ull)(a->logical / BLK), (ull)(start / BLK), e, int(!!(flags & BTRFS_LOGICAL_INO_ARGS_IGNORE_OFFSET))); errno = e; return -1; }
		auto *c = reinterpret_cast<btrfs_data_container *>(a->inodes);
		u64 room = (size - sizeof *c) / 24;
		u64 n = std::min<u64>(room, out.size() / 3);
		for (u64 k = 0; k < n * 3; ++k) c->val[k] = out[k];
		c->elem_cnt = n * 3; c->elem_missed = out.size() - n * 3;
		std::string rs;
		for (u64 k = 0; k < out.size() / 3 && k < 24; ++k) rs += fmt("%s%llu,%llu", k ? "," : "", (ull)out[k * 3 + 2], (ull)out[k * 3]);
		if (on_event) on_event(fmt("\"e\":\"li\",\"t\":%d,\"p\":%llu,\"x\":%llu,\"n\":%llu,\"er\":0,\"slow\":%d,\"many\":%d,\"ig\":%d,\"r\":[", vs_tid(), (ull)(a->logical / BLK), (ull)(start / BLK), (ull)n, int(slow), int(many), int(!!(flags & BTRFS_LOGICAL_INO_ARGS_IGNORE_OFFSET))) + rs + "]");
		return 0;
	}
	case BTRFS_IOC_FILE_EXTENT_SAME: {
		auto *a = static_cast<btrfs_ioctl_same_args *>(arg);
		int total = 0;
		Inode *src = o->ino.get();
		for (int n = 0; n < a->dest_count; ++n) {
			auto &x = a->info[n];
			auto d = get(x.fd);
			u64 so = a->logical_offset, len = a->length, dof = x.logical_offset;
			x.bytes_deduped = 0; x.status = 0;
			int st = 0;
			if (!d || d->ino->kind != 0) st = -EBADF;
			else if (d->fs != o->fs || d->foreign) st = -EXDEV;
			else st = -flt("dedupe", d, dof, len);
			Inode *dst = d ? d->ino.get() : nullptr;
			u64 olen = len;
			if (!st) {
				if (so % BLK || dof % BLK) st = -EINVAL;
				else if (so + len > src->size || dof + len > dst->size || !len) st = -EINVAL;
				else if (src->nosum() != dst->nosum()) st = -EINVAL;
				else if (len > (16u << 20)) len = 16u << 20;
			}
			if (!st && len % BLK) {
				// a partial block only where both files end
				if (so + len != src->size || dof + len != dst->size) { u64 l2 = len & ~(BLK - 1); if (so + len == src->size && dof + len < dst->size) st = SAME_DIFFERS; else { len = l2; if (!len) st = -EINVAL; } }
			}
			u64 alen = (len + BLK - 1) & ~(BLK - 1);
			if (!st && src == dst && so < dof + alen && dof < so + alen) st = -EINVAL;
			if (!st) {
				for (u64 k = 0; k < len && !st; k += BLK) {
					u32 p = block_at(f, src, so + k), q = block_at(f, dst, dof + k);
					if (p != q) {
						if (len - k >= BLK || bytes_of(p).substr(0, len - k) != bytes_of(q).substr(0, len - k)) st = SAME_DIFFERS;
					}
				}
			}
			bool same = true;
			if (!st) {
				u64 p1 = 0, p2 = 0;
				auto phys = [&](Inode *i, u64 off) { auto it = i->ext.upper_bound(off); if (it == i->ext.begin()) return u64(0); --it; if (off >= it->first + it->second.len) return u64(0); return it->second.bytenr; };
				p1 = phys(src, so); p2 = phys(dst, dof); same = p1 == p2;
				clone(f, src, so, alen, dst, dof);
				x.bytes_deduped = len;
			}
			x.status = st;
			total = st;
			EV("\"e\":\"dd\",\"t\":%d,\"sf\":%d,\"df\":%d,\"ss\":%llu,\"si\":%llu,\"sk\":\"%s\",\"so\":%llu,\"ds\":%llu,\"di\":%llu,\"dk\":\"%s\",\"do\":%llu,\"len\":%llu,\"by\":%llu,\"st\":%d,\"same\":%d,\"ro\":%d,\"nds\":%d",
				vs_tid(), fd, int(x.fd), (ull)src->sub, (ull)src->ino, kind_of(*o), (ull)so, (ull)(dst ? dst->sub : 0), (ull)(dst ? dst->ino : 0), d ? kind_of(*d) : "?", (ull)dof, (ull)olen, (ull)x.bytes_deduped, st, int(same),
				int(dst && f.sub.count(dst->sub) && f.sub[dst->sub].ro), int(dst && (dst->nosum() || (dst->iflags & FS_NOCOW_FL))));
		}
		(void)total;
		return 0;
	}
	}
	errno = ENOTTY;
	(void)fd;
	return -1;
}

// pending at most once each, the lowest first
void send_signal(int sig) {
	if (std::find(sigq.begin(), sigq.end(), sig) == sigq.end()) { sigq.push_back(sig); std::sort(sigq.begin(), sigq.end()); }
	EV("\"e\":\"sig\",\"n\":%d,\"ms\":%llu", sig, (ull)(vs_now_ns() / 1000000));
}
bool waiting_for_signal() { return sigwaiting; }
size_t signals_pending() { return sigq.size(); }

} // namespace bsim
using namespace bsim;

// ------------------------------------------------------------------ the C library's entry points
extern "C" {

static int open_any(const char *how, int dirfd, const char *path, int flags, mode_t mode, u64 resolve) {
	if (enabled) {
		if (is_sim_path(path)) return sim_open(how, nullptr, -1, path, flags, resolve);
		if (path && path[0] != '/' && dirfd != AT_FDCWD) { auto d = get(dirfd); if (d) return sim_open(how, d, dirfd, path, flags, resolve); }
	}
	return rawsys(SYS_openat, dirfd, long(path), flags, mode);
}
#define MODE mode_t mode = 0; if ((flags & O_CREAT) || (flags & O_TMPFILE) == O_TMPFILE) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
int open(const char *p, int flags, ...) { MODE return open_any("at", AT_FDCWD, p, flags, mode, 0); }
int open64(const char *p, int flags, ...) { MODE return open_any("at", AT_FDCWD, p, flags, mode, 0); }
int __open_2(const char *p, int flags) { return open_any("at", AT_FDCWD, p, flags, 0, 0); }
int __open64_2(const char *p, int flags) { return open_any("at", AT_FDCWD, p, flags, 0, 0); }
int openat(int d, const char *p, int flags, ...) { MODE return open_any("at", d, p, flags, mode, 0); }
int openat64(int d, const char *p, int flags, ...) { MODE return open_any("at", d, p, flags, mode, 0); }
int __openat_2(int d, const char *p, int flags) { return open_any("at", d, p, flags, 0, 0); }
int __openat64_2(int d, const char *p, int flags) { return open_any("at", d, p, flags, 0, 0); }
int openat2(int d, const char *p, const struct open_how *how, size_t) {
	if (W.no_openat2) { errno = ENOSYS; return -1; }
	return open_any("at2", d, p, how->flags, how->mode, how->resolve);
}
int close(int fd) {
	if (enabled) { auto o = get(fd); if (o) return sim_close(fd, o); }
	return rawsys(SYS_close, fd);
}
int fstat64(int fd, struct stat64 *st) {
	if (enabled) { auto o = get(fd); if (o) return sim_stat(o, reinterpret_cast<struct stat *>(st)); }
	return rawsys(SYS_fstat, fd, long(st));
}
int fstat(int fd, struct stat *st) { return fstat64(fd, reinterpret_cast<struct stat64 *>(st)); }
int lstat64(const char *p, struct stat64 *st) {
	if (is_sim_path(p)) { Walk w = walk(&W.b, nullptr, p, O_NOFOLLOW, 0); if (w.err) { errno = w.err; return -1; } auto o = std::make_shared<Open>(); o->fs = w.fs; o->ino = w.ino; return sim_stat(o, reinterpret_cast<struct stat *>(st)); }
	return rawsys(SYS_newfstatat, AT_FDCWD, long(p), long(st), AT_SYMLINK_NOFOLLOW);
}
int fstatfs64(int fd, struct statfs64 *st) {
	if (enabled) { auto o = get(fd); if (o) { memset(st, 0, sizeof *st); st->f_type = o->fs->btrfs ? 0x9123683E : 0xEF53; st->f_bsize = 4096; return 0; } }
	return rawsys(SYS_fstatfs, fd, long(st));
}
int fstatfs(int fd, struct statfs *st) { return fstatfs64(fd, reinterpret_cast<struct statfs64 *>(st)); }
int fstatvfs64(int fd, struct statvfs64 *st) { auto o = enabled ? get(fd) : nullptr; (void)o; memset(st, 0, sizeof *st); st->f_frsize = 4096; st->f_blocks = 1 << 20; st->f_bfree = st->f_bavail = 1 << 19; return 0; }
int fsync(int fd) {
	if (enabled) {
		auto o = get(fd);
		if (o) {
			enter("fsync");
			int e = flt("fsync", o);
			EV("\"e\":\"hsync\",\"t\":%d,\"n\":\"%s\",\"i\":%llu,\"er\":%d", vs_tid(), esc(homedir_of(o->ino.get(), o->fs)).c_str(), (ull)o->ino->ino, e);
			if (e) { errno = e; return -1; }
			return 0;
		}
	}
	return rawsys(SYS_fsync, fd);
}
int fdatasync(int fd) { return fsync(fd); }
int ftruncate64(int fd, off64_t len) {
	if (enabled) {
		auto o = get(fd);
		if (o) {
			enter("truncate");
			int e = flt("truncate", o, len);
			if (!(o->flags & (O_RDWR | O_WRONLY))) e = EINVAL;
			const char *k = kind_of(*o);
			EV("\"e\":\"tr\",\"t\":%d,\"k\":\"%s\",\"n\":\"%s\",\"s\":%llu,\"i\":%llu,\"sz\":%llu,\"er\":%d", vs_tid(), k, esc(homedir_of(o->ino.get(), o->fs)).c_str(), (ull)o->ino->sub, (ull)o->ino->ino, (ull)len, e);
			if (e) { errno = e; return -1; }
			set_size(*o->fs, o->ino.get(), len);
			return 0;
		}
	}
	return rawsys(SYS_ftruncate, fd, len);
}
int ftruncate(int fd, off_t len) { return ftruncate64(fd, len); }
#define MUTATOR(name, sig, call, real) int name sig { if (enabled) { auto o = get(fd); if (o) return mutation(o, #name); } return real; }
MUTATOR(fallocate64, (int fd, int mode, off64_t off, off64_t len), , rawsys(SYS_fallocate, fd, mode, off, len))
int fallocate(int fd, int mode, off_t off, off_t len) { return fallocate64(fd, mode, off, len); }
MUTATOR(posix_fallocate64, (int fd, off64_t off, off64_t len), , rawsys(SYS_fallocate, fd, 0, off, len))
MUTATOR(fchmod, (int fd, mode_t m), , rawsys(SYS_fchmod, fd, m))
MUTATOR(fchown, (int fd, uid_t u, gid_t g), , rawsys(SYS_fchown, fd, u, g))
MUTATOR(futimens, (int fd, const struct timespec *ts), , rawsys(SYS_utimensat, fd, 0, long(ts), 0))
MUTATOR(fsetxattr, (int fd, const char *n, const void *v, size_t z, int fl), , rawsys(SYS_fsetxattr, fd, long(n), long(v), z, fl))
MUTATOR(fremovexattr, (int fd, const char *n), , rawsys(SYS_fremovexattr, fd, long(n)))
MUTATOR(mkdirat, (int fd, const char *n, mode_t m), , rawsys(SYS_mkdirat, fd, long(n), m))
MUTATOR(symlinkat, (const char *t, int fd, const char *n), , rawsys(SYS_symlinkat, long(t), fd, long(n)))
MUTATOR(linkat, (int of, const char *a, int fd, const char *b, int fl), , rawsys(SYS_linkat, of, long(a), fd, long(b), fl))
ssize_t copy_file_range(int in, off64_t *io, int fd, off64_t *oo, size_t n, unsigned fl) { if (enabled) { auto o = get(fd); if (o) return mutation(o, "copy_file_range"); } return rawsys(SYS_copy_file_range, in, long(io), fd, long(oo), n, fl); }
int ioctl(int fd, unsigned long req, ...) {
	va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
	if (enabled) { auto o = get(fd); if (o) return sim_ioctl(fd, o, req, arg); }
	return rawsys(SYS_ioctl, fd, req, long(arg));
}
ssize_t pread64(int fd, void *b, size_t n, off64_t off) {
	if (enabled) { auto o = get(fd); if (o) { if (off < 0) { errno = EINVAL; return -1; } return sim_read(o, fd, static_cast<char *>(b), n, off); } }
	return rawsys(SYS_pread64, fd, long(b), n, off);
}
ssize_t pread(int fd, void *b, size_t n, off_t off) { return pread64(fd, b, n, off); }
ssize_t __pread64_chk(int fd, void *b, size_t n, off64_t off, size_t) { return pread64(fd, b, n, off); }
ssize_t __pread_chk(int fd, void *b, size_t n, off_t off, size_t) { return pread64(fd, b, n, off); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t off) {
	if (enabled) { auto o = get(fd); if (o) return sim_write(o, static_cast<const char *>(b), n, off); }
	return rawsys(SYS_pwrite64, fd, long(b), n, off);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t off) { return pwrite64(fd, b, n, off); }
ssize_t read(int fd, void *b, size_t n) {
	if (enabled) { auto o = get(fd); if (o) { ssize_t r = sim_read(o, fd, static_cast<char *>(b), n, o->pos); if (r > 0) o->pos += r; return r; } }
	return rawsys(SYS_read, fd, long(b), n);
}
ssize_t __read_chk(int fd, void *b, size_t n, size_t) { return read(fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) {
	if (enabled) { auto o = get(fd); if (o) { ssize_t r = sim_write(o, static_cast<const char *>(b), n, o->pos); if (r > 0) o->pos += r; return r; } }
	return rawsys(SYS_write, fd, long(b), n);
}
ssize_t readlink(const char *p, char *b, size_t n) {
	if (enabled && !strncmp(p, "/proc/self/fd/", 14)) {
		auto o = get(atoi(p + 14));
		if (o) { size_t k = std::min(n, o->path.size()); memcpy(b, o->path.data(), k); return k; }
	}
	return rawsys(SYS_readlink, long(p), long(b), n);
}
ssize_t __readlink_chk(const char *p, char *b, size_t n, size_t) { return readlink(p, b, n); }
int renameat(int od, const char *o, int nd, const char *n) {
	if (enabled) {
		auto d = get(od), e = get(nd);
		if (d && e) {
			enter("rename");
			int er = flt("rename", d);
			if (!er && !lookup(*d->fs, d->ino->sub, d->ino->ino, o)) er = ENOENT;
			EV("\"e\":\"hrename\",\"t\":%d,\"o\":\"%s\",\"n\":\"%s\",\"er\":%d,\"hd\":%d,\"tid\":%llu", vs_tid(), esc(o).c_str(), esc(n).c_str(), er, int(is_home_dir(*d) && is_home_dir(*e)), (unsigned long long)W.b.transid);
			if (er) { errno = er; return -1; }
			bsim::rename(*d->fs, d->ino->sub, d->ino->ino, o, e->ino->ino, n);
			return 0;
		}
	}
	return rawsys(SYS_renameat, od, long(o), nd, long(n));
}
int unlinkat(int d, const char *p, int flags) {
	if (enabled) {
		auto o = get(d);
		if (o) {
			enter("unlink");
			int er = lookup(*o->fs, o->ino->sub, o->ino->ino, p) ? flt("unlink", o) : ENOENT;
			EV("\"e\":\"hunlink\",\"t\":%d,\"n\":\"%s\",\"er\":%d,\"hd\":%d", vs_tid(), esc(p).c_str(), er, int(is_home_dir(*o)));
			if (er) { errno = er; return -1; }
			bsim::unlink(*o->fs, o->ino->sub, o->ino->ino, p);
			return 0;
		}
	}
	return rawsys(SYS_unlinkat, d, long(p), flags);
}
ssize_t readahead(int fd, off64_t off, size_t n) { if (enabled && get(fd)) return 0; return rawsys(SYS_readahead, fd, off, n); }
int posix_fadvise64(int fd, off64_t off, off64_t n, int adv) { if (enabled && get(fd)) return 0; return rawsys(SYS_fadvise64, fd, off, n, adv); }
int posix_fadvise(int fd, off_t off, off_t n, int adv) { return posix_fadvise64(fd, off, n, adv); }
int mlock(const void *, size_t) { return 0; }
int setrlimit64(__rlimit_resource_t r, const struct rlimit64 *l) { if (enabled) return 0; return rawsys(SYS_setrlimit, r, long(l)); }
int getrusage(__rusage_who_t who, struct rusage *u) {
	if (enabled && who == RUSAGE_THREAD) { memset(u, 0, sizeof *u); u->ru_stime.tv_sec = t_sys_us / 1000000; u->ru_stime.tv_usec = t_sys_us % 1000000; return 0; }
	return rawsys(SYS_getrusage, who, long(u));
}
int uname(struct utsname *u) {
	rawsys(SYS_uname, long(u));
	if (enabled) snprintf(u->release, sizeof u->release, "%s", W.uname_release.c_str());
	return 0;
}
int getloadavg(double *d, int n) { for (int i = 0; i < n; ++i) d[i] = bsim::loadavg; return n; }
static bool have_sig(void *) { return !sigq.empty(); }
int sigwaitinfo(const sigset_t *, siginfo_t *si) {
	if (!enabled) { errno = EINVAL; return -1; }
	sigwaiting = true;
	vs_wait_pred(have_sig, nullptr);
	sigwaiting = false;
	int s = sigq.front();
	sigq.erase(sigq.begin());
	if (si) { memset(si, 0, sizeof *si); si->si_signo = s; }
	EV("\"e\":\"sigrcv\",\"n\":%d,\"ms\":%llu", s, (ull)(vs_now_ns() / 1000000));
	return s;
}
[[noreturn]] void _exit(int st) {
	if (enabled && on_exit_call) on_exit_call(st);
	for (;;) rawsys(SYS_exit_group, st);
}

} // extern "C"
