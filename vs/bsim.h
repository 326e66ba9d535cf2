// An in-memory btrfs (and, next to it, a filesystem that is not btrfs) behind the C library's file calls.
// The unmodified daemon is linked against this and sees /sim as the mounted filesystem, /simhome as the other one.
#ifndef BSIM_H
#define BSIM_H
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace bsim {
typedef uint64_t u64;
typedef uint32_t u32;
static const u64 BLK = 4096;

struct Ext {
	u64 bytenr = 0, ram = 0, disk = 0, gen = 0, itemgen = 0;
	uint8_t comp = 0, prealloc = 0;
	u32 refs = 0;
	std::vector<u32> data;      // content id per block of ram (0 = all zero)
};
struct FExt {                       // an EXTENT_DATA item
	u64 len = 0;                // bytes in the file (multiple of BLK unless inline)
	u64 bytenr = 0;             // 0 = hole
	u64 eoff = 0;               // offset into the uncompressed extent
	uint8_t type = 1;           // 0 inline, 1 regular, 2 prealloc
	uint8_t comp = 0;
	u32 inl = 0;                // content id of inline data
	u64 gen = 0, itemgen = 0;
};
struct Link { u64 dir = 0; std::string name; };
struct Inode {
	u64 sub = 0, ino = 0, size = 0;
	uint8_t kind = 0;           // 0 file, 1 directory, 2 symlink, 3 mount point of something else
	u32 iflags = 0;             // FS_*_FL
	uint8_t nodatasum = 0;      // 1: no checksums; 2: checksums in spite of the nocow flag, as files of old kernels have
	bool nosum() const { return nodatasum == 1 || (nodatasum != 2 && (iflags & 0x00800000)); }      // FS_NOCOW_FL
	u64 gen = 0, itemgen = 0;
	std::string target;         // symlink target
	std::vector<Link> links;
	std::map<u64, FExt> ext;
	// not saved
	int opens = 0;
	bool gone = false;          // unlinked or its subvolume deleted: dropped at last close
	bool tmp = false;
};
struct Subvol {
	u64 id = 0, parent = 0, dir = 0;
	std::string name;
	uint8_t ro = 0, deleted = 0;
	u64 gen = 0;                // generation in the ROOT_ITEM (as of the last commit)
	u64 itemgen = 0;            // of the root item itself
	uint8_t dirty = 0;
	u64 next_ino = 257;
	std::map<u64, std::shared_ptr<Inode>> ino;
};
struct Chunk { u64 start = 0, len = 0; uint8_t meta = 0; u64 next = 0; };
struct Fs {
	uint8_t btrfs = 1;
	u64 transid = 10;           // running transaction
	std::map<u64, Subvol> sub;
	std::map<u64, Ext> ext;
	std::vector<Chunk> chunk;
	u64 extgen = 9, extdirty = 0;
	u64 next_sub = 256;
	u64 version = 1;
};
struct World {
	Fs b, p;
	std::vector<std::string> blocks;            // id -> 4096 bytes ("" for id 0)
	std::map<std::string, u32> intern;          // rebuilt after load
	// knobs
	u64 leaf = 5;                               // items per leaf
	uint8_t holes = 0;                          // explicit hole items
	uint8_t no_openat2 = 0;
	std::string uname_release = "6.1.0";
	std::set<u64> toxic, crowded;               // extents whose references are slow to resolve / very many
	u64 next_fsync_fail = 0;
	World();
};
extern World W;

// ---- user-side operations (atomic; usable before and while the daemon runs)
u32 content(const std::string &bytes);              // intern
u32 symbol(u32 n);                                  // a block of pseudo-random bytes
std::string bytes_of(u32 id);
Inode *mkfile(Fs &, u64 sub, u64 dir, const std::string &name);
Inode *mkdir(Fs &, u64 sub, u64 dir, const std::string &name);
Inode *mksymlink(Fs &, u64 sub, u64 dir, const std::string &name, const std::string &target);
Inode *lookup(Fs &, u64 sub, u64 dir, const std::string &name);
void add_link(Fs &, Inode *, u64 dir, const std::string &name);
void unlink(Fs &, u64 sub, u64 dir, const std::string &name);
void rename(Fs &, u64 sub, u64 odir, const std::string &o, u64 ndir, const std::string &n);
u64 mksubvol(Fs &, u64 parent, u64 dir, const std::string &name);
u64 snapshot(Fs &, u64 src, u64 parent, u64 dir, const std::string &name, bool ro);
void rmsubvol(Fs &, u64 id);
void write_blocks(Fs &, Inode *, u64 off, const std::vector<u32> &ids, int comp = 0);
void write_prealloc(Fs &, Inode *, u64 off, u64 len);
void write_inline(Fs &, Inode *, u32 id, u64 size);
void set_size(Fs &, Inode *, u64 size);
void reflink(Fs &, Inode *src, u64 soff, u64 len, Inode *dst, u64 doff);
void commit(Fs &);
u32 block_at(Fs &, Inode *, u64 off);
u64 phys_at(Fs &, Inode *, u64 off);
std::vector<u32> contents(Fs &, Inode *);
u64 space(Fs &);                                     // bytes of extents that exist
void set_ro(Fs &, u64 sub, bool ro);
Inode *inode(Fs &, u64 sub, u64 ino);

std::string save();
void load(const std::string &);

// ---- hooks
// Asked before an operation of the daemon; returns an errno to fail with, or 0.
extern std::function<int(const char *op, u64 sub, u64 ino, u64 off, u64 len)> fault;
// Told about every operation of the daemon (a JSON object without braces).
extern std::function<void(const std::string &)> on_event;
// Told about every operation before it happens (crash points)
extern std::function<void(const char *op)> on_op;
extern std::function<void(int status)> on_exit_call;
void send_signal(int sig);
bool waiting_for_signal();
size_t signals_pending();
extern bool enabled;
extern double loadavg;
extern u64 syscalls;
struct RawItem { u64 o; u32 t; u64 f; u64 leafgen; std::string d; };
extern std::map<u64, std::vector<RawItem>> raw_trees;   // trees made up item by item, in key order (set before first use)
extern bool short_pages;                           // large writes come up short at a page boundary
}
#endif
