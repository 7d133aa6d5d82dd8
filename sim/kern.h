// Simulated kernel: state shared (MAP_SHARED, fixed address) between the worker that sets a scenario up and the
// simulated processes that run the real program.  Nothing in here may call malloc or a real system call.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <errno.h>

typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
typedef int32_t i32;
typedef int64_t i64;

namespace sim {

constexpr u32 MAXI = 12288, MAXD = 12288, HSIZE = 16384, MAXP = 12, MAXFD = 1200, MAXEV = 260000, MAXFAULT = 64,
              MAXACT = 64, MAXSW = 4096;
constexpr u64 POOLSZ = 48ull << 20, OUTSZ = 6ull << 20;

enum IType : u8 { T_REG = 1, T_DIR, T_LNK, T_FIFO, T_SOCK, T_CHR, T_BLK };

// Classes of calls: what faults, actions and kill points refer to.
enum Cls : u8 {
    C_NONE = 0, C_STAT, C_OPEN, C_OPENDIR, C_GETDENTS, C_READ, C_WRITE, C_RENAME, C_MUTATE, C_CLOSE, C_FSTAT, C_OTHER,
    C_ALLOC,   // memory allocation asked for by the program itself
    C_LALLOC,  // memory allocation asked for by the C library
    C_ANY,     // any simulated system call (kill points)
    C_NCLS
};
extern const char *const cls_name[C_NCLS];

enum { ERR_CRASH_BEFORE = 10001, ERR_CRASH_AFTER = 10002 };

enum IFlags : u32 {
    F_DENY_R = 1,    // directory/file cannot be opened
    F_DENY_W = 2,    // directory entries cannot be changed
    F_DENY_X = 4,    // directory cannot be searched
    F_MOUNT = 8,     // mount point: cannot be renamed or replaced
    F_NULLDEV = 16,
    F_CASEFOLD = 32, // directory lookups ignore ASCII case
};

struct Inode {
    u8 type;
    u32 mode, uid, gid, nlink, flags;
    u64 dev, ino, rdev;
    u64 size, off, cap;      // data in pool
    u32 firstd;              // first dentry of a directory (0 = none)
    u32 nent;
    u32 selfd;               // dentry of a directory in its parent (0 for the root)
    u64 nextcookie, frontcookie;
    // persistent faults
    i32 e_stat, e_open, e_rename, e_list;
    i64 read_err_at; i32 e_read;   // reads at or beyond this offset fail
    i32 list_err_after;            // listing fails with e_list after that many entries
    u64 origsum, origsize; u8 orig_type; u32 orig_mode;
    u8 by;                         // 0 initial tree, 1 other program, 2+ simulated process
    u8 system;                     // outside the tree under test (configuration, locale, ...)
    u32 openc;
    u64 taken;                     // bytes already read from a pipe
};

struct Dentry {
    u32 parent, inode;
    u32 next, prev, hnext;
    u64 cookie;
    u32 name, len;      // pool offset
    u32 oname, olen;    // original name
    u32 oparent;
    u32 oinode;
    u32 iname, ilen, iparent; // as created, never changed
    u8 live, by;
    u32 nren;           // renames by simulated processes
    u32 lastren_proc;
};

enum FdKind : u8 { K_FREE = 0, K_FILE, K_DIR, K_STDIN, K_OUT, K_ERR, K_PATH };
struct Fd {
    u8 kind; u8 cloexec; u32 flags; u32 inode; u64 pos; i32 listed;
};

struct Proc {
    i32 state;  // 0 unused 1 ready 2 ended
    i32 phase;
    i32 exit_code, sig, crashed, hang, unsupported, heap_err;
    u64 heap_info;
    u64 fault_addr;
    u32 cwd, uid;
    u32 nofile;
    u64 nsys, ncls[C_NCLS];
    u64 in_off, in_len, in_pos; i64 in_err_at; i32 in_errno; u8 in_kind;
    u64 out_cap; i32 out_errno; u8 out_kind;   // writes to stdout beyond out_cap bytes fail
    u8 out_transient;                          // ... only once
    u64 err_cap; i32 err_errno;
    u64 outlen, errlen;
    u32 overflow;         // wrote more than is kept
    u64 lost;             // how much of it was not kept
    u32 chunk;       // maximal bytes per read (0 = unlimited)
    u32 wchunk;      // maximal bytes per write
    u32 umask_;
    u32 heap_end, fds_end;  // memory blocks and descriptors in use when the program called exit
    u8 fdtab_init;
    Fd fds[MAXFD];
};

struct Fault { u8 proc, cls; u32 nth; i32 err; u8 sticky; u32 fired; };

enum ActOp : u8 { A_NONE, A_MK, A_MKTARGET, A_MKAT, A_RM, A_RMAT, A_MV, A_RMSOURCE };
struct Action { u8 proc, cls, when /*0 before 1 after*/, op, type; u32 nth; u32 p1, p1len, p2, p2len; u32 fired; };

struct Switch { u64 step; u32 proc; u32 used; };

struct Event {
    u64 step;
    u8 proc, cls, injected, kind; // kind: 0 call, 1 action of other program, 2 kill, 3 alloc failure, 4 rename undone by power loss
    i32 nr;
    i64 res;
    u32 inode;            // object concerned (0 unknown)
    u32 dent;             // entry concerned (0 unknown)
    u32 dir, dir2;        // directories of the paths
    u32 p1, p2;           // pool offsets of NUL terminated paths (0 none)
    u32 n1, n2;           // last components (pool offsets)
    u32 over;             // entry that was overwritten/removed
    u32 nth;              // ordinal within class for this process
    u64 aux;              // file offset etc.
    u32 heap, fds;        // memory blocks and descriptors in use when the call was made
};

enum Order : u8 { O_CREATION = 0, O_HASH = 1 };
enum Relist : u8 { R_KEEP = 0, R_END = 1, R_HASH = 2, R_FRONT = 3 };

struct Shm {
    u64 seed;
    u8 order, relist, dtype_unknown, norename2, dots_hash, sysdirs;
    u32 batch;
    u64 maxsteps, goodio;
    u64 step;
    volatile u32 current;   // process holding the baton
    u32 nproc, phase;
    volatile u32 live_;     // number of ready processes in this phase
    u32 multi;
    u32 ni, nd;
    u64 pool_used;
    u32 nev; u32 ev_overflow;
    u32 nfault, nact, nsw;
    u64 clock;
    u64 rndctr;
    u32 unsupported_nr;
    u32 variant; u32 heap_mode; u32 heap_fill; // fill: 0..255 byte, 256 pseudo random
    u32 lastino;
    i32 harness_err;
    Fault fault[MAXFAULT];
    Action act[MAXACT];
    Switch sw[MAXSW];
    Proc proc[MAXP];
    u32 hash[HSIZE];
    Inode inode[MAXI];
    Dentry dent[MAXD];
    Event ev[MAXEV];
    u32 scratch[MAXD];
    char pool[POOLSZ];
    char out[MAXP][OUTSZ];
    char err[MAXP][4 << 20];
};

extern Shm *S;
void shm_create();
void shm_reset();

// file system construction (also used by the worker)
u32 fs_new_inode(u8 type, u32 mode);
u32 fs_link(u32 dir, const char *name, u32 len, u32 inode, u8 by);   // returns dentry
void fs_unlink(u32 dent);
u32 fs_lookup(u32 dir, const char *name, u32 len);
void fs_set_data(u32 inode, const char *data, u64 len);
u32 pool_str(const char *s, u64 len);
u64 fnv(const void *p, u64 n, u64 h = 1469598103934665603ull);
u64 mix(u64 x);
constexpr u32 ROOT = 1;

struct Res { u32 dir, dent, inode; const char *last; u32 lastlen; bool trail; bool dots; };
int fs_walk(u32 cwd, const char *path, bool follow, Res &r, bool privileged = false);

// entry points for the trap handler / allocator (running inside a simulated process)
extern int me;                 // index of this simulated process, -1 in the worker
i64 ksyscall(long nr, u64 a0, u64 a1, u64 a2, u64 a3, u64 a4, u64 a5);
bool kalloc_fault(bool libc_caller);
void kdie(int sig, u64 addr) __attribute__((noreturn));
void kheap(int code, u64 info);
long raw(long nr, u64 a0 = 0, u64 a1 = 0, u64 a2 = 0, u64 a3 = 0, u64 a4 = 0, u64 a5 = 0);
void heap_final_check();
extern u32 heap_live;          // blocks in use in this process

// undo all renames of process p from event index `from` on whose directory is selected (loss of unflushed metadata)
void fs_undo_rename(const Event &e);

} // namespace sim
