// Simulated kernel: file system, descriptors, faults, other programs' actions, scheduling.
#include "kern.h"
#include <fcntl.h>
#include <linux/futex.h>
#include <linux/stat.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>

#ifndef O_TMPFILE
#define O_TMPFILE 020200000
#endif
#define K_AT_FDCWD (-100)
#define K_AT_SYMLINK_NOFOLLOW 0x100
#define K_AT_SYMLINK_FOLLOW 0x400
#define K_AT_EMPTY_PATH 0x1000
#define K_AT_REMOVEDIR 0x200
#define K_RENAME_NOREPLACE 1
#define K_RENAME_EXCHANGE 2

namespace sim {

Shm *S = nullptr;
int me = -1;

const char *const cls_name[C_NCLS] = {"none", "stat", "open", "opendir", "getdents", "read", "write", "rename",
    "mutate", "close", "fstat", "other", "alloc", "lalloc", "any"};

u64 mix(u64 x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

u64 fnv(const void *p, u64 n, u64 h)
{
    const u8 *b = (const u8 *) p;
    for (u64 i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull;
    return h;
}

void shm_create()
{
    void *want = (void *) 0x200000000000ull;
    void *p = mmap(want, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != want) __builtin_trap();
    S = (Shm *) p;
}

void shm_reset()
{
    // everything in front of the tables, then only what was used
    memset((void *) S, 0, offsetof(Shm, fault));
    memset(S->fault, 0, sizeof S->fault);
    memset(S->act, 0, sizeof S->act);
    for (u32 i = 0; i < MAXP; i++) memset((void *) &S->proc[i], 0, offsetof(Proc, fds));
    memset(S->hash, 0, sizeof S->hash);
    S->ni = 1;
    S->nd = 1;
    S->pool_used = 16;
    S->pool[0] = 0;
    S->clock = 1700000000ull * 1000000000ull;
    u32 r = fs_new_inode(T_DIR, 0755);
    if (r != ROOT) __builtin_trap();
    S->inode[r].nlink = 2;
}

u32 pool_str(const char *s, u64 len)
{
    if (S->pool_used + len + 1 > POOLSZ) { S->harness_err = 1; return 0; }
    u32 o = (u32) S->pool_used;
    memcpy(S->pool + o, s, len);
    S->pool[o + len] = 0;
    S->pool_used += len + 1;
    return o;
}

static inline u8 fold(u8 c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static u32 nhash(u32 dir, const char *n, u32 len)
{
    u64 h = 1469598103934665603ull ^ (dir * 0x9e3779b97f4a7c15ull);
    for (u32 i = 0; i < len; i++) h = (h ^ fold((u8) n[i])) * 1099511628211ull;
    return (u32) (mix(h) % HSIZE);
}

u32 fs_new_inode(u8 type, u32 mode)
{
    if (S->ni >= MAXI) { S->harness_err = 2; return MAXI - 1; }
    u32 i = S->ni++;
    Inode &n = S->inode[i];
    memset(&n, 0, sizeof n);
    n.type = type;
    n.mode = mode;
    n.uid = n.gid = 1000;
    n.dev = 0x801;
    n.ino = 1000 + ++S->lastino;
    n.nextcookie = 16;
    n.frontcookie = 15;
    n.read_err_at = -1;
    n.list_err_after = -1;
    return i;
}

static u64 new_cookie(Inode &d, const char *name, u32 len)
{
    if (S->order == O_HASH) return (mix(fnv(name, len, S->seed ^ 0x77)) >> 2) | 0x100000;
    return 0x100000 + ++d.nextcookie;
}

static void hash_in(u32 d)
{
    Dentry &e = S->dent[d];
    u32 h = nhash(e.parent, S->pool + e.name, e.len);
    e.hnext = S->hash[h];
    S->hash[h] = d;
}
static void hash_out(u32 d)
{
    Dentry &e = S->dent[d];
    u32 h = nhash(e.parent, S->pool + e.name, e.len);
    u32 *p = &S->hash[h];
    while (*p && *p != d) p = &S->dent[*p].hnext;
    if (*p) *p = e.hnext;
}
static void list_in(u32 d)
{
    Dentry &e = S->dent[d];
    Inode &p = S->inode[e.parent];
    e.prev = 0;
    e.next = p.firstd;
    if (p.firstd) S->dent[p.firstd].prev = d;
    p.firstd = d;
    p.nent++;
}
static void list_out(u32 d)
{
    Dentry &e = S->dent[d];
    Inode &p = S->inode[e.parent];
    if (e.prev) S->dent[e.prev].next = e.next; else p.firstd = e.next;
    if (e.next) S->dent[e.next].prev = e.prev;
    p.nent--;
}

u32 fs_lookup(u32 dir, const char *name, u32 len)
{
    u32 h = nhash(dir, name, len);
    bool cf = S->inode[dir].flags & F_CASEFOLD;
    for (u32 d = S->hash[h]; d; d = S->dent[d].hnext) {
        Dentry &e = S->dent[d];
        if (e.parent != dir || e.len != len) continue;
        const char *n = S->pool + e.name;
        if (!memcmp(n, name, len)) return d;
        if (cf) {
            u32 i = 0;
            while (i < len && fold((u8) n[i]) == fold((u8) name[i])) i++;
            if (i == len) return d;
        }
    }
    return 0;
}

u32 fs_link(u32 dir, const char *name, u32 len, u32 inode, u8 by)
{
    if (S->nd >= MAXD) { S->harness_err = 3; return 0; }
    u32 d = S->nd++;
    Dentry &e = S->dent[d];
    memset(&e, 0, sizeof e);
    e.parent = e.oparent = dir;
    e.inode = e.oinode = inode;
    e.name = e.oname = pool_str(name, len);
    e.len = e.olen = len;
    e.iname = e.name; e.ilen = len; e.iparent = dir;
    e.live = 1;
    e.by = by;
    e.cookie = new_cookie(S->inode[dir], name, len);
    list_in(d);
    hash_in(d);
    Inode &n = S->inode[inode];
    if (n.type == T_DIR) { n.selfd = d; n.nlink = 2; S->inode[dir].nlink++; }
    else n.nlink++;
    return d;
}

void fs_unlink(u32 d)
{
    Dentry &e = S->dent[d];
    if (!e.live) return;
    hash_out(d);
    list_out(d);
    e.live = 0;
    Inode &n = S->inode[e.inode];
    if (n.type == T_DIR) { n.nlink = 0; S->inode[e.parent].nlink--; }
    else n.nlink--;
}

void fs_set_data(u32 inode, const char *data, u64 len)
{
    Inode &n = S->inode[inode];
    n.off = pool_str(data, len);
    n.size = n.cap = len;
}

static void fs_move(u32 d, u32 dir, const char *name, u32 len, u8 proc)
{
    Dentry &e = S->dent[d];
    hash_out(d);
    list_out(d);
    Inode &n = S->inode[e.inode];
    if (n.type == T_DIR) { S->inode[e.parent].nlink--; S->inode[dir].nlink++; }
    u32 oldparent = e.parent;
    e.parent = dir;
    e.name = pool_str(name, len);
    e.len = len;
    Inode &pd = S->inode[dir];
    switch (oldparent == dir ? S->relist : (u8) R_END) {
    case R_KEEP: break;
    case R_END: e.cookie = S->order == O_HASH ? (1ull << 62) + ++pd.nextcookie : 0x100000 + ++pd.nextcookie; break;
    case R_HASH: e.cookie = (mix(fnv(name, len, S->seed ^ 0x77)) >> 2) | 0x100000; break;
    case R_FRONT: e.cookie = 0x80000 - ++pd.frontcookie; break;
    }
    list_in(d);
    hash_in(d);
    if (proc != 255) { e.nren++; e.lastren_proc = proc; }
}


// ---------------------------------------------------------------------------------------------------- path walk
int fs_walk(u32 cwd, const char *path, bool follow, Res &r, bool priv)
{
    static char buf[4][8300];
    static int depth = 0;
    memset(&r, 0, sizeof r);
    u64 plen = strlen(path);
    if (plen == 0) return -ENOENT;
    if (plen >= 4096) return -ENAMETOOLONG;
    struct G { G() { depth++; } ~G() { depth--; } } g;
    char *p = buf[depth & 3];
    memcpy(p, path, plen + 1);
    int links = 0;
    u32 cur = p[0] == '/' ? ROOT : cwd;
    char *s = p;
    for (;;) {
        while (*s == '/') s++;
        if (!*s) { // path was only slashes, or ended in a slash after a directory
            r.inode = cur;
            r.dent = cur == ROOT ? 0 : S->inode[cur].selfd;
            r.dir = cur == ROOT ? ROOT : S->dent[r.dent].parent;
            r.dots = true;
            return 0;
        }
        Inode &di = S->inode[cur];
        if (di.type != T_DIR) return -ENOTDIR;
        char *e = s;
        while (*e && *e != '/') e++;
        u32 len = e - s;
        char *q = e;
        while (*q == '/') q++;
        bool lastc = !*q, trail = lastc && *e == '/';
        if (!priv && (di.flags & F_DENY_X)) return -EACCES;
        if (len > 255) return -ENAMETOOLONG;
        if (len == 1 && s[0] == '.') {
            if (lastc) { r.inode = cur; r.dent = cur == ROOT ? 0 : di.selfd; r.dir = cur == ROOT ? ROOT : S->dent[di.selfd].parent; r.dots = true; r.last = path + plen; r.trail = trail; return 0; }
            s = q;
            continue;
        }
        if (len == 2 && s[0] == '.' && s[1] == '.') {
            if (cur != ROOT) cur = S->dent[di.selfd].parent;
            if (lastc) { Inode &d2 = S->inode[cur]; r.inode = cur; r.dent = cur == ROOT ? 0 : d2.selfd; r.dir = cur == ROOT ? ROOT : S->dent[d2.selfd].parent; r.dots = true; r.trail = trail; return 0; }
            s = q;
            continue;
        }
        u32 d = fs_lookup(cur, s, len);
        if (lastc) {
            static char lastbuf[4][260];
            char *lb = lastbuf[depth & 3];
            memcpy(lb, s, len);
            lb[len] = 0;
            r.dir = cur;
            r.dent = d;
            r.last = lb;
            r.lastlen = len;
            r.trail = trail;
        }
        if (!d) {
            if (lastc) { r.inode = 0; return 0; }
            return -ENOENT;
        }
        u32 in = S->dent[d].inode;
        Inode &n = S->inode[in];
        if (n.type == T_LNK && (!lastc || follow || trail)) {
            if (++links > 40) return -ELOOP;
            char tmp[8300];
            u64 restlen = strlen(e);
            if (n.size == 0) return -ENOENT;
            if (n.size + restlen >= 4096) return -ENAMETOOLONG;
            memcpy(tmp, S->pool + n.off, n.size);
            memcpy(tmp + n.size, e, restlen + 1);
            memcpy(p, tmp, n.size + restlen + 1);
            s = p;
            if (p[0] == '/') cur = ROOT;
            memset(&r, 0, sizeof r);
            continue;
        }
        if (lastc) {
            r.inode = in;
            if (trail && n.type != T_DIR) return -ENOTDIR;
            return 0;
        }
        if (n.type != T_DIR) return -ENOTDIR;
        cur = in;
        s = q;
    }
}

// ---------------------------------------------------------------------------------------------------- scheduling
static void futex_wait(volatile u32 *p, u32 v) { raw(SYS_futex, (u64) p, FUTEX_WAIT, v, 0, 0, 0); }
static void futex_wake(volatile u32 *p) { raw(SYS_futex, (u64) p, FUTEX_WAKE, 1000, 0, 0, 0); }

void sched_to(u32 p)
{
    __atomic_store_n(&S->current, p + 1, __ATOMIC_SEQ_CST);
    futex_wake(&S->current);
}
void sched_wait(u32 self)
{
    for (;;) {
        u32 c = __atomic_load_n(&S->current, __ATOMIC_SEQ_CST);
        if (c == self + 1) return;
        futex_wait(&S->current, c);
    }
}
// next ready process after `self` in this phase
int sched_next(u32 self)
{
    for (u32 k = 1; k <= S->nproc; k++) {
        u32 p = (self + k) % S->nproc;
        if (S->proc[p].state == 1 && S->proc[p].phase == (i32) S->phase) return p;
    }
    return -1;
}

static void maybe_switch()
{
    if (!S->multi) return;
    for (u32 i = 0; i < S->nsw; i++) {
        Switch &w = S->sw[i];
        if (w.step != S->step) continue;
        if (w.proc == (u32) me || w.proc >= S->nproc) continue;
        Proc &t = S->proc[w.proc];
        if (t.state != 1 || t.phase != (i32) S->phase) continue;
        w.used = 1;
        sched_to(w.proc);
        sched_wait(me);
        break; // one switch per step
    }
}

static void finish(Proc &p)
{
    p.state = 2;
    if (S->multi) {
        int n = sched_next(me);
        if (n >= 0) sched_to(n);
    }
    raw(SYS_exit_group, 0);
    for (;;) ;
}

void kdie(int sig, u64 addr)
{
    Proc &p = S->proc[me];
    p.sig = sig;
    p.fault_addr = addr;
    finish(p);
    __builtin_unreachable();
}

static void crash_now()
{
    Proc &p = S->proc[me];
    p.crashed = 1;
    finish(p);
}

void kheap(int code, u64 info)
{
    Proc &p = S->proc[me];
    if (!p.heap_err) { p.heap_err = code; p.heap_info = info; }
}

// ---------------------------------------------------------------------------------------------------- events
static Event dummy;
static Event *cur_ev;
static Event &new_event()
{
    if (S->nev >= MAXEV) { S->ev_overflow = 1; return dummy; }
    Event &e = S->ev[S->nev++];
    memset(&e, 0, sizeof e);
    e.step = S->step;
    e.proc = me < 0 ? 0 : me;
    return e;
}

void fs_undo_rename(const Event &ev)
{
    Dentry &e = S->dent[ev.dent];
    if (!e.live) return;
    const char *n = S->pool + ev.n1;
    if (fs_lookup(ev.dir, n, strlen(n))) return;
    u32 dir = ev.dir, dent = ev.dent, n1 = ev.n1;
    fs_move(dent, dir, n, strlen(n), 255);
    Event &u = new_event();
    u.kind = 4; u.cls = C_RENAME; u.dent = dent; u.dir = u.dir2 = dir; u.n1 = u.n2 = n1; u.inode = e.inode;
}

static u8 itype_to_dt(u8 t)
{
    switch (t) {
    case T_REG: return 8;
    case T_DIR: return 4;
    case T_LNK: return 10;
    case T_FIFO: return 1;
    case T_SOCK: return 12;
    case T_CHR: return 2;
    case T_BLK: return 6;
    }
    return 0;
}
static u32 itype_to_mode(u8 t)
{
    switch (t) {
    case T_REG: return 0100000;
    case T_DIR: return 0040000;
    case T_LNK: return 0120000;
    case T_FIFO: return 0010000;
    case T_SOCK: return 0140000;
    case T_CHR: return 0020000;
    case T_BLK: return 0060000;
    }
    return 0;
}


struct kstat {
    u64 st_dev, st_ino, st_nlink;
    u32 st_mode, st_uid, st_gid, pad0;
    u64 st_rdev;
    i64 st_size, st_blksize, st_blocks;
    u64 at, atn, mt, mtn, ct, ctn;
    i64 unused[3];
};

static void fill_kstat(u32 in, kstat *st)
{
    memset(st, 0, sizeof *st);
    Inode &n = S->inode[in];
    st->st_dev = n.dev;
    st->st_ino = n.ino;
    st->st_nlink = n.nlink;
    st->st_mode = itype_to_mode(n.type) | n.mode;
    st->st_uid = n.uid;
    st->st_gid = n.gid;
    st->st_rdev = n.rdev;
    st->st_size = n.type == T_DIR ? 4096 : n.type == T_FIFO ? 0 : (i64) n.size;
    st->st_blksize = 4096;
    st->st_blocks = (st->st_size + 511) / 512;
    st->at = st->mt = st->ct = 1600000000;
}

static void fill_fd_kstat(Proc &p, int fd, kstat *st)
{
    Fd &f = p.fds[fd];
    if (f.inode) { fill_kstat(f.inode, st); return; }
    memset(st, 0, sizeof *st);
    st->st_dev = 0xc;
    st->st_ino = 3 + fd;
    st->st_nlink = 1;
    st->st_blksize = 4096;
    u8 kind = f.kind == K_STDIN ? p.in_kind : f.kind == K_OUT ? p.out_kind : 0;
    // 0 pipe, 1 regular file, 2 character device (terminal)
    st->st_mode = kind == 1 ? 0100644 : kind == 2 ? 0020620 : 0010600;
    if (kind == 2) st->st_rdev = 0x8801;
    if (f.kind == K_STDIN && kind == 1) st->st_size = p.in_len;
    st->st_uid = st->st_gid = 1000;
}

static int fd_alloc(Proc &p, u8 kind, int from = 0)
{
    u32 lim = p.nofile < MAXFD ? p.nofile : MAXFD;
    for (u32 i = from; i < lim; i++)
        if (!p.fds[i].kind) {
            memset(&p.fds[i], 0, sizeof(Fd));
            p.fds[i].kind = kind;
            return i;
        }
    return -EMFILE;
}
// those that belong to files and directories
static u32 fds_open(const Proc &p)
{
    u32 n = 0, lim = p.nofile < MAXFD ? p.nofile : MAXFD;
    for (u32 i = 0; i < lim; i++) if (p.fds[i].kind == K_FILE || p.fds[i].kind == K_DIR || p.fds[i].kind == K_PATH) n++;
    return n;
}
static Fd *fd_get(Proc &p, int fd)
{
    if (fd < 0 || fd >= (int) MAXFD || !p.fds[fd].kind) return nullptr;
    return &p.fds[fd];
}

static int dir_base(Proc &p, int dfd, const char *path, u32 &base)
{
    if (path[0] == '/') { base = ROOT; return 0; }
    if (dfd == K_AT_FDCWD) { base = p.cwd; return 0; }
    Fd *f = fd_get(p, dfd);
    if (!f) return -EBADF;
    if (!f->inode || S->inode[f->inode].type != T_DIR) return -ENOTDIR;
    base = f->inode;
    return 0;
}

static bool is_system_path(const Res &r)
{
    u32 in = r.inode ? r.inode : r.dir;
    return in && S->inode[in].system;
}

// ---------------------------------------------------------------------------------------------------- other programs
static u32 mk_object(u8 type, u8 by, u64 tag)
{
    u32 in = fs_new_inode(type, type == T_DIR ? 0755 : 0644);
    char b[40];
    int n = 0;
    memcpy(b, "other:", 6);
    n = 6;
    for (int i = 0; i < 16; i++) b[n++] = "0123456789abcdef"[(tag >> (60 - 4 * i)) & 15];
    if (type == T_REG) fs_set_data(in, b, n);
    else if (type == T_LNK) fs_set_data(in, b, n);
    S->inode[in].by = by;
    S->inode[in].origsize = S->inode[in].size;
    S->inode[in].origsum = fnv(S->pool + S->inode[in].off, S->inode[in].size);
    S->inode[in].orig_type = type;
    S->inode[in].orig_mode = S->inode[in].mode;
    return in;
}

// paths of the call being handled
static const char *cp1, *cp2;
static u32 cb1, cb2;

static void run_action(Action &a)
{
    Res r;
    const char *p1 = a.p1 ? S->pool + a.p1 : "";
    const char *p2 = a.p2 ? S->pool + a.p2 : "";
    i64 res = -1;
    u32 dent = 0, over = 0;
    switch (a.op) {
    case A_MK:
        if (fs_walk(ROOT, p1, false, r, true) == 0 && !r.inode && r.dir && S->nd < MAXD - 8) {
            dent = fs_link(r.dir, r.last, r.lastlen, mk_object(a.type ? a.type : (u8) T_REG, 1, S->nev), 1);
            res = 0;
        }
        break;
    case A_MKTARGET: { // create an object under the (last) path the current call refers to
        const char *p = cp2 ? cp2 : cp1;
        u32 b = cp2 ? cb2 : cb1;
        if (p && fs_walk(b, p, false, r, true) == 0 && !r.inode && r.dir && !S->inode[r.dir].system && S->nd < MAXD - 8) {
            dent = fs_link(r.dir, r.last, r.lastlen, mk_object(a.type ? a.type : (u8) T_REG, 1, S->nev), 1);
            res = 0;
        }
        break;
    }
    case A_MKAT: { // create an object named p1 beside the object the current call refers to
        const char *p = cp1;
        if (p && fs_walk(cb1, p, false, r, true) == 0 && r.dir && !S->inode[r.dir].system && S->nd < MAXD - 8 && !fs_lookup(r.dir, p1, strlen(p1))) {
            dent = fs_link(r.dir, p1, strlen(p1), mk_object(a.type ? a.type : (u8) T_REG, 1, S->nev), 1);
            res = 0;
        }
        break;
    }
    case A_RM:
        if (fs_walk(ROOT, p1, false, r, true) == 0 && r.dent && !r.dots && !(S->inode[r.inode].type == T_DIR && S->inode[r.inode].nent)) {
            dent = r.dent; fs_unlink(r.dent); S->dent[dent].live = 0; S->dent[dent].by |= 0x40; res = 0;
        }
        break;
    case A_RMSOURCE:
        if (cp1 && fs_walk(cb1, cp1, false, r, true) == 0 && r.dent && !r.dots && !S->inode[r.inode].system && !(S->inode[r.inode].type == T_DIR && S->inode[r.inode].nent)) {
            dent = r.dent; fs_unlink(r.dent); S->dent[dent].by |= 0x40; res = 0;
        }
        break;
    case A_MV: {
        Res t;
        if (fs_walk(ROOT, p1, false, r, true) == 0 && r.dent && !r.dots) {
            u32 d = r.dent;
            if (fs_walk(ROOT, p2, false, t, true) == 0 && !t.inode && t.dir) {
                // not below itself
                bool bad = false;
                for (u32 x = t.dir; x != ROOT; x = S->dent[S->inode[x].selfd].parent) if (x == S->dent[d].inode) bad = true;
                if (!bad) {
                    fs_move(d, t.dir, t.last, t.lastlen, 255);
                    Dentry &e = S->dent[d];   // from now on this is what the entry is called
                    e.oname = e.name; e.olen = e.len; e.oparent = e.parent; e.by |= 0x20;
                    dent = d; res = 0;
                }
            }
        }
        break;
    }
    default: break;
    }
    a.fired += res == 0;
    Event &e = new_event();
    e.kind = 1;
    e.cls = a.cls;
    e.nr = a.op;
    e.res = res;
    e.dent = dent;
    e.over = over;
    if (dent) { e.dir = S->dent[dent].parent; e.n1 = S->dent[dent].name; e.inode = S->dent[dent].inode; }
}

static void run_actions(u8 when, u8 cls, u32 nth, u32 nany)
{
    for (u32 i = 0; i < S->nact; i++) {
        Action &a = S->act[i];
        if (a.when != when || a.proc != me) continue;
        if (a.cls == cls ? a.nth == nth : (a.cls == C_ANY && a.nth == nany)) run_action(a);
    }
}

// ---------------------------------------------------------------------------------------------------- faults
static Fault *find_fault(u8 cls, u32 nth, u32 nany)
{
    for (u32 i = 0; i < S->nfault; i++) {
        Fault &f = S->fault[i];
        if (f.proc != me) continue;
        u32 n = f.cls == C_ANY ? nany : f.cls == cls ? nth : 0;
        if (!n) continue;
        if (f.nth == n || (f.sticky && n > f.nth)) return &f;
    }
    return nullptr;
}

bool kalloc_fault(bool libc_caller)
{
    if (me < 0) return false;
    Proc &p = S->proc[me];
    u8 cls = libc_caller ? C_LALLOC : C_ALLOC;
    u32 nth = ++p.ncls[cls];
    for (u32 i = 0; i < S->nfault; i++) {
        Fault &f = S->fault[i];
        if (f.proc != me || f.cls != cls) continue;
        if (f.nth == nth || (f.sticky && nth > f.nth)) {
            f.fired++;
            Event &e = new_event();
            e.kind = 3; e.cls = cls; e.nth = nth; e.injected = 1; e.res = -ENOMEM;
            return true;
        }
    }
    return false;
}

// ---------------------------------------------------------------------------------------------------- calls
struct Call { u8 cls; int nr; bool wr; };

static u8 classify(long nr, u64 a0, u64 a1, u64 a2, u64 a3, u64 a4)
{
    switch (nr) {
    case SYS_stat: case SYS_lstat: case SYS_access: case SYS_faccessat: case SYS_faccessat2: case SYS_readlink:
    case SYS_readlinkat: case SYS_statfs: case SYS_getxattr: case SYS_lgetxattr: case SYS_listxattr: case SYS_llistxattr:
        return C_STAT;
    case SYS_newfstatat: return (a3 & K_AT_EMPTY_PATH) && (!a1 || !*(const char *) a1) ? C_FSTAT : C_STAT;
    case SYS_statx: return (a2 & K_AT_EMPTY_PATH) && (!a1 || !*(const char *) a1) ? C_FSTAT : C_STAT;
    case SYS_fstat: case SYS_fstatfs: return C_FSTAT;
    case SYS_open: return a1 & O_DIRECTORY ? C_OPENDIR : C_OPEN;
    case SYS_openat: return a2 & O_DIRECTORY ? C_OPENDIR : C_OPEN;
    case SYS_creat: return C_OPEN;
    case SYS_getdents: case SYS_getdents64: return C_GETDENTS;
    case SYS_read: case SYS_pread64: case SYS_readv: case SYS_preadv: return C_READ;
    case SYS_write: case SYS_pwrite64: case SYS_writev: case SYS_pwritev: return C_WRITE;
    case SYS_rename: case SYS_renameat: case SYS_renameat2: return C_RENAME;
    case SYS_mkdir: case SYS_mkdirat: case SYS_rmdir: case SYS_unlink: case SYS_unlinkat: case SYS_link: case SYS_linkat:
    case SYS_symlink: case SYS_symlinkat: case SYS_chmod: case SYS_fchmod: case SYS_fchmodat: case 452 /*fchmodat2*/:
    case SYS_chown: case SYS_lchown: case SYS_fchown: case SYS_fchownat: case SYS_truncate: case SYS_ftruncate:
    case SYS_mknod: case SYS_mknodat: case SYS_utime: case SYS_utimes: case SYS_futimesat: case SYS_utimensat:
    case SYS_setxattr: case SYS_lsetxattr: case SYS_fsetxattr: case SYS_removexattr: case SYS_lremovexattr: case SYS_fremovexattr:
    case SYS_fallocate: case SYS_copy_file_range: case SYS_sendfile: case SYS_splice: case SYS_mount: case SYS_umount2:
        return C_MUTATE;
    case SYS_close: return C_CLOSE;
    default: return C_OTHER;
    }
}

static i64 do_stat(Proc &p, int dfd, const char *path, bool follow, u32 &in, Event &ev)
{
    u32 base;
    int e = dir_base(p, dfd, path, base);
    if (e) return e;
    Res r;
    e = fs_walk(base, path, follow, r);
    ev.dir = r.dir;
    ev.dent = r.dent;
    ev.inode = r.inode;
    if (e) return e;
    if (!r.inode) return -ENOENT;
    Inode &n = S->inode[r.inode];
    if (n.e_stat) { ev.injected = 2; return -n.e_stat; }
    in = r.inode;
    return 0;
}

static i64 do_open(Proc &p, int dfd, const char *path, u32 flags, u32 mode, Event &ev)
{
    u32 base;
    int e = dir_base(p, dfd, path, base);
    if (e) return e;
    Res r;
    bool nofollow = (flags & O_NOFOLLOW) || ((flags & O_CREAT) && (flags & O_EXCL));
    e = fs_walk(base, path, !nofollow, r);
    ev.dir = r.dir; ev.dent = r.dent; ev.inode = r.inode;
    if (e) return e;
    u32 acc = flags & O_ACCMODE;
    bool wr = acc != O_RDONLY || (flags & O_TRUNC);
    bool created = false;
    if (!r.inode) {
        if (!(flags & O_CREAT)) return -ENOENT;
        if (r.trail) return -EISDIR;
        if (S->inode[r.dir].flags & F_DENY_W) return -EACCES;
        u32 in = fs_new_inode(T_REG, mode & 0777 & ~p.umask_);
        S->inode[in].by = me + 2;
        r.dent = fs_link(r.dir, r.last, r.lastlen, in, me + 2);
        r.inode = in;
        created = true;
        ev.inode = in; ev.dent = r.dent; ev.aux = 1;
    } else if ((flags & O_CREAT) && (flags & O_EXCL)) return -EEXIST;
    Inode &n = S->inode[r.inode];
    if (n.e_open) { ev.injected = 2; return -n.e_open; }
    if (n.type == T_LNK) return (flags & O_PATH) ? 0 : -ELOOP;
    if ((flags & O_DIRECTORY) && n.type != T_DIR) return -ENOTDIR;
    if (n.type == T_DIR && (wr || (flags & O_CREAT))) return -EISDIR;
    if (!created && (n.flags & F_DENY_R) && !(flags & O_PATH)) return -EACCES;
    if (n.type == T_SOCK) return -ENXIO;
    if (wr && !(n.flags & F_NULLDEV)) {
        ev.aux |= 2; // an attempt to open something for writing
        if ((flags & O_TRUNC) && n.type == T_REG) { n.size = 0; ev.aux |= 4; }
    }
    int fd = fd_alloc(p, (flags & O_PATH) ? K_PATH : n.type == T_DIR ? K_DIR : K_FILE);
    if (fd < 0) { return fd; }
    Fd &f = p.fds[fd];
    f.inode = r.inode;
    f.flags = flags;
    f.cloexec = !!(flags & O_CLOEXEC);
    f.listed = 0;
    n.openc++;
    return fd;
}

struct kdirent64 { u64 d_ino; i64 d_off; u16 d_reclen; u8 d_type; char d_name[]; };

static i64 do_getdents(Proc &p, int fd, char *buf, u64 cap, Event &ev)
{
    Fd *f = fd_get(p, fd);
    if (!f) return -EBADF;
    if (f->kind != K_DIR) return -ENOTDIR;
    Inode &n = S->inode[f->inode];
    ev.inode = f->inode;
    u64 used = 0;
    u32 given = 0;
    u32 limit = S->batch ? S->batch : 1000000;
    if (n.e_list && n.list_err_after >= 0 && f->listed >= n.list_err_after) { ev.injected = 2; return -n.e_list; }
    // collect entries with cookie > pos
    u32 cnt = 0;
    for (u32 d = n.firstd; d; d = S->dent[d].next)
        if (S->dent[d].cookie > f->pos) S->scratch[cnt++] = d;
    // heap sort by (cookie, index)
    auto less = [](u32 a, u32 b) {
        u64 x = S->dent[a].cookie, y = S->dent[b].cookie;
        return x != y ? x < y : a < b;
    };
    u32 *v = S->scratch;
    auto sift = [&](u32 i, u32 m) {
        for (;;) {
            u32 c = 2 * i + 1;
            if (c >= m) return;
            if (c + 1 < m && less(v[c], v[c + 1])) c++;
            if (!less(v[i], v[c])) return;
            u32 t = v[i]; v[i] = v[c]; v[c] = t;
            i = c;
        }
    };
    if (cnt > 1) {
        for (u32 i = cnt / 2; i-- > 0;) sift(i, cnt);
        for (u32 m = cnt; m-- > 1;) { u32 t = v[0]; v[0] = v[m]; v[m] = t; sift(0, m); }
    }
    auto put = [&](u64 ino, u64 cookie, u8 type, const char *name, u32 len) -> bool {
        u32 rl = (19 + len + 1 + 7) & ~7u;
        if (used + rl > cap) return false;
        kdirent64 *de = (kdirent64 *) (buf + used);
        memset(de, 0, rl);
        de->d_ino = ino;
        de->d_off = cookie;
        de->d_reclen = rl;
        de->d_type = type;
        memcpy(de->d_name, name, len);
        used += rl;
        f->pos = cookie;
        given++;
        f->listed++;
        return true;
    };
    // "." and ".." first
    if (f->pos < 1) { if (given < limit) put(n.ino, 1, 4, ".", 1); }
    if (f->pos == 1 && given < limit) put(f->inode == ROOT ? n.ino : S->inode[S->dent[n.selfd].parent].ino, 2, 4, "..", 2);
    for (u32 i = 0; i < cnt && given < limit; i++) {
        if (n.e_list && n.list_err_after >= 0 && f->listed >= n.list_err_after) break;
        Dentry &e = S->dent[v[i]];
        // two entries must never share a cookie: the position could not tell them apart
        if (f->pos >= e.cookie) e.cookie = f->pos + 1;
        u8 t = S->dtype_unknown ? 0 : itype_to_dt(S->inode[e.inode].type);
        if (!put(S->inode[e.inode].ino, e.cookie, t, S->pool + e.name, e.len)) {
            if (!used) return -EINVAL;
            break;
        }
    }
    ev.aux = given;
    return used;
}

static i64 do_read(Proc &p, int fd, char *buf, u64 cap, i64 pos_, Event &ev)
{
    Fd *f = fd_get(p, fd);
    if (!f) return -EBADF;
    if (f->kind == K_DIR) return -EISDIR;
    if (f->kind == K_PATH) return -EBADF;
    u64 chunk = p.chunk ? p.chunk : cap;
    if (p.chunk > 1) chunk = 1 + mix(S->seed ^ (p.ncls[C_READ] * 31 + me)) % p.chunk;
    u64 want = cap < chunk ? cap : chunk;
    if (f->kind == K_STDIN) {
        u64 pos = p.in_pos;
        ev.aux = pos;
        if (p.in_err_at >= 0 && (i64) pos >= p.in_err_at) { ev.injected = 2; return -p.in_errno; }
        u64 left = p.in_len - pos;
        if (p.in_err_at >= 0 && (i64) (pos + left) > p.in_err_at) left = p.in_err_at - pos;
        if (want > left) want = left;
        memcpy(buf, S->pool + p.in_off + pos, want);
        p.in_pos += want;
        return want;
    }
    if (f->kind != K_FILE) return -EBADF;
    if ((f->flags & O_ACCMODE) == O_WRONLY) return -EBADF;
    Inode &n = S->inode[f->inode];
    ev.inode = f->inode;
    u64 pos = pos_ >= 0 ? (u64) pos_ : f->pos;
    ev.aux = pos;
    if (n.type == T_FIFO && n.size) { // somebody has written this into it and left
        if (pos_ >= 0) return -ESPIPE;
        ev.aux = n.taken;
        u64 left = n.size - n.taken;
        if (want > left) want = left;
        memcpy(buf, S->pool + n.off + n.taken, want);
        n.taken += want;
        return want;
    }
    if (n.type != T_REG) return 0; // null device, fifo without writer
    if (n.read_err_at >= 0 && (i64) pos >= n.read_err_at) { ev.injected = 2; return -n.e_read; }
    u64 left = pos < n.size ? n.size - pos : 0;
    if (n.read_err_at >= 0 && (i64) (pos + left) > n.read_err_at) left = n.read_err_at - pos;
    if (want > left) want = left;
    memcpy(buf, S->pool + n.off + pos, want);
    if (pos_ < 0) f->pos += want;
    return want;
}

static i64 do_write(Proc &p, int fd, const char *buf, u64 len, i64 pos_, Event &ev)
{
    Fd *f = fd_get(p, fd);
    if (!f) return -EBADF;
    if (f->kind == K_OUT || f->kind == K_ERR) ev.dent = f->kind;
    if (f->kind == K_OUT) {
        ev.aux = p.outlen;
        u64 n = p.wchunk && len > p.wchunk ? p.wchunk : len;
        if (p.out_errno && p.outlen + n > p.out_cap) {
            n = p.out_cap > p.outlen ? p.out_cap - p.outlen : 0;
            if (n == 0 && len) {
                ev.injected = 2;
                i32 er = p.out_errno;
                if (p.out_transient) p.out_errno = 0;
                return -er;
            }
        }
        if (p.outlen + n > OUTSZ) { p.overflow = 1; p.lost += len; return len; } // more than can be kept: fit for judgement only if the process never ends
        memcpy(S->out[me] + p.outlen, buf, n);
        p.outlen += n;
        return n;
    }
    if (f->kind == K_ERR) {
        u64 n = len;
        if (p.err_errno && p.errlen + n > p.err_cap) { ev.injected = 2; return -p.err_errno; }
        if (p.errlen + n > sizeof S->err[0]) { p.overflow = 1; p.lost += len; return len; }
        memcpy(S->err[me] + p.errlen, buf, n);
        p.errlen += n;
        return len;
    }
    if (f->kind != K_FILE) return -EBADF;
    if ((f->flags & O_ACCMODE) == O_RDONLY) return -EBADF;
    Inode &n = S->inode[f->inode];
    ev.inode = f->inode;
    if (n.flags & F_NULLDEV) return len;
    if (n.type != T_REG) return len;
    u64 pos = pos_ >= 0 ? (u64) pos_ : (f->flags & O_APPEND) ? n.size : f->pos;
    if (pos + len > n.cap) {
        u64 cap = (pos + len) * 2;
        if (S->pool_used + cap > POOLSZ) { S->harness_err = 5; return -ENOSPC; }
        u64 o = S->pool_used;
        S->pool_used += cap;
        memcpy(S->pool + o, S->pool + n.off, n.size);
        n.off = o;
        n.cap = cap;
    }
    if (pos > n.size) memset(S->pool + n.off + n.size, 0, pos - n.size);
    memcpy(S->pool + n.off + pos, buf, len);
    if (pos + len > n.size) n.size = pos + len;
    if (pos_ < 0) f->pos = pos + len;
    return len;
}

static bool is_below(u32 dir, u32 anc)
{
    for (u32 x = dir;; x = S->dent[S->inode[x].selfd].parent) {
        if (x == anc) return true;
        if (x == ROOT) return false;
    }
}

static i64 do_rename(Proc &p, int d1, const char *p1, int d2, const char *p2, u32 flags, Event &ev)
{
    u32 b1, b2;
    int e;
    if ((e = dir_base(p, d1, p1, b1)) || (e = dir_base(p, d2, p2, b2))) return e;
    Res a, b;
    e = fs_walk(b1, p1, false, a);
    ev.dir = a.dir; ev.dent = a.dent; ev.inode = a.inode;
    if (a.last) ev.n1 = pool_str(a.last, a.lastlen);
    if (e) return e;
    e = fs_walk(b2, p2, false, b);
    ev.dir2 = b.dir; ev.over = b.dent;
    if (b.last) ev.n2 = pool_str(b.last, b.lastlen);
    if (e) return e;
    if (a.dots || b.dots) return -EBUSY;
    if (!a.inode) return -ENOENT;
    if ((flags & K_RENAME_NOREPLACE) && b.inode) return -EEXIST;
    Inode &n = S->inode[a.inode];
    Inode &da = S->inode[a.dir], &db = S->inode[b.dir];
    if (b.trail && n.type != T_DIR) return -ENOTDIR;
    if (flags & K_RENAME_EXCHANGE) return -EINVAL;
    if (S->norename2 && flags) return -EINVAL;
    if (n.e_rename) { ev.injected = 2; return -n.e_rename; }
    if ((da.flags & F_DENY_W) || (db.flags & F_DENY_W)) return -EACCES;
    if (n.type == T_DIR && is_below(b.dir, a.inode)) return -EINVAL;
    if (b.inode) {
        if (b.inode == a.inode) {
            // same object: nothing happens, except that a case-insensitive directory takes the new spelling
            if (a.dent == b.dent) {
                ev.over = 0;
                fs_move(a.dent, b.dir, b.last, b.lastlen, me + 2);
            } else ev.injected = 3; // two names of one file: success, but both stay
            return 0;
        }
        Inode &t = S->inode[b.inode];
        if (n.type == T_DIR && t.type != T_DIR) return -ENOTDIR;
        if (n.type != T_DIR && t.type == T_DIR) return -EISDIR;
        if (n.type == T_DIR && is_below(a.dir, b.inode)) return -ENOTEMPTY;
        if (t.type == T_DIR && t.nent) return -ENOTEMPTY;
        if ((n.flags | t.flags) & F_MOUNT) return -EBUSY;
        fs_unlink(b.dent);
        S->dent[b.dent].by |= 0x80; // lost by a rename
    } else {
        if (n.flags & F_MOUNT) return -EBUSY;
        if (da.dev != db.dev) return -EXDEV;
    }
    fs_move(a.dent, b.dir, b.last, b.lastlen, me + 2);
    return 0;
}

static i64 do_mutate(Proc &p, long nr, u64 *a, Event &ev)
{
    int dfd = K_AT_FDCWD;
    const char *path = nullptr;
    auto walk = [&](int d, const char *pp, bool follow, Res &r) -> int {
        u32 b;
        int e = dir_base(p, d, pp, b);
        if (e) return e;
        e = fs_walk(b, pp, follow, r);
        ev.dir = r.dir; ev.dent = r.dent; ev.inode = r.inode;
        return e;
    };
    Res r;
    int e;
    switch (nr) {
    case SYS_mkdir: path = (const char *) a[0]; goto mk;
    case SYS_mkdirat: dfd = a[0]; path = (const char *) a[1]; goto mk;
    mk:
        if ((e = walk(dfd, path, false, r))) return e;
        if (r.inode) return -EEXIST;
        if (S->inode[r.dir].flags & F_DENY_W) return -EACCES;
        { u32 in = fs_new_inode(T_DIR, 0755); S->inode[in].by = me + 2; ev.dent = fs_link(r.dir, r.last, r.lastlen, in, me + 2); }
        return 0;
    case SYS_unlink: path = (const char *) a[0]; goto rm;
    case SYS_rmdir: path = (const char *) a[0]; goto rmd;
    case SYS_unlinkat: dfd = a[0]; path = (const char *) a[1]; if (a[2] & K_AT_REMOVEDIR) goto rmd; goto rm;
    rm:
        if ((e = walk(dfd, path, false, r))) return e;
        if (!r.inode) return -ENOENT;
        if (S->inode[r.inode].type == T_DIR) return -EISDIR;
        if (S->inode[r.dir].flags & F_DENY_W) return -EACCES;
        fs_unlink(r.dent); S->dent[r.dent].by |= 0x80;
        return 0;
    rmd:
        if ((e = walk(dfd, path, false, r))) return e;
        if (!r.inode) return -ENOENT;
        if (S->inode[r.inode].type != T_DIR) return -ENOTDIR;
        if (S->inode[r.inode].nent) return -ENOTEMPTY;
        if (r.dots || (S->inode[r.dir].flags & F_DENY_W)) return -EACCES;
        fs_unlink(r.dent); S->dent[r.dent].by |= 0x80;
        return 0;
    case SYS_link: case SYS_linkat: {
        int d2 = K_AT_FDCWD;
        const char *p2;
        if (nr == SYS_link) { path = (const char *) a[0]; p2 = (const char *) a[1]; }
        else { dfd = a[0]; path = (const char *) a[1]; d2 = a[2]; p2 = (const char *) a[3]; }
        if ((e = walk(dfd, path, false, r))) return e;
        if (!r.inode) return -ENOENT;
        u32 in = r.inode;
        if (S->inode[in].type == T_DIR) return -EPERM;
        if ((e = walk(d2, p2, false, r))) return e;
        if (r.inode) return -EEXIST;
        ev.dent = fs_link(r.dir, r.last, r.lastlen, in, me + 2);
        return 0;
    }
    case SYS_symlink: case SYS_symlinkat: {
        const char *tgt = (const char *) a[0];
        if (nr == SYS_symlink) path = (const char *) a[1]; else { dfd = a[1]; path = (const char *) a[2]; }
        if ((e = walk(dfd, path, false, r))) return e;
        if (r.inode) return -EEXIST;
        u32 in = fs_new_inode(T_LNK, 0777);
        fs_set_data(in, tgt, strlen(tgt));
        S->inode[in].by = me + 2;
        ev.dent = fs_link(r.dir, r.last, r.lastlen, in, me + 2);
        return 0;
    }
    case SYS_truncate: case SYS_chmod: case SYS_chown: case SYS_lchown: case SYS_fchmodat: case SYS_fchownat: case 452: {
        bool at = nr == SYS_fchmodat || nr == SYS_fchownat || nr == 452;
        if (at) { dfd = a[0]; path = (const char *) a[1]; } else path = (const char *) a[0];
        if ((e = walk(dfd, path, nr != SYS_lchown, r))) return e;
        if (!r.inode) return -ENOENT;
        Inode &n = S->inode[r.inode];
        if (nr == SYS_truncate) { if (a[1] < n.size) n.size = a[1]; }
        else if (nr == SYS_chmod) n.mode = a[1] & 07777;
        else if (at && nr != SYS_fchownat) n.mode = a[2] & 07777;
        else { n.uid = 4242; }
        return 0;
    }
    case SYS_ftruncate: case SYS_fchmod: case SYS_fchown: {
        Fd *f = fd_get(p, a[0]);
        if (!f) return -EBADF;
        if (!f->inode) return -EINVAL;
        Inode &n = S->inode[f->inode];
        ev.inode = f->inode;
        if (nr == SYS_ftruncate) { if (a[1] < n.size) n.size = a[1]; }
        else if (nr == SYS_fchmod) n.mode = a[1] & 07777;
        else n.uid = 4242;
        return 0;
    }
    case SYS_utimensat: case SYS_utime: case SYS_utimes: case SYS_futimesat:
        if (nr == SYS_utimensat && !a[1]) { Fd *f = fd_get(p, a[0]); if (!f) return -EBADF; ev.inode = f->inode; if (f->inode) S->inode[f->inode].uid = 4243; return 0; }
        if (nr == SYS_utimensat || nr == SYS_futimesat) { dfd = a[0]; path = (const char *) a[1]; } else path = (const char *) a[0];
        if ((e = walk(dfd, path, true, r))) return e;
        if (!r.inode) return -ENOENT;
        S->inode[r.inode].uid = 4243; // any change of metadata is visible through this
        return 0;
    default:
        return -ENOSYS;
    }
}

static void note_paths(Event &ev, Proc &p, u8 cls, long nr, u64 *a)
{
    cp1 = cp2 = nullptr;
    int d1 = K_AT_FDCWD, d2 = K_AT_FDCWD;
    switch (nr) {
    case SYS_stat: case SYS_lstat: case SYS_access: case SYS_readlink: case SYS_open: case SYS_creat: case SYS_mkdir:
    case SYS_rmdir: case SYS_unlink: case SYS_chmod: case SYS_chown: case SYS_lchown: case SYS_truncate: case SYS_mknod:
    case SYS_utime: case SYS_utimes: case SYS_setxattr: case SYS_lsetxattr: case SYS_statfs:
        cp1 = (const char *) a[0]; break;
    case SYS_newfstatat: case SYS_openat: case SYS_faccessat: case SYS_faccessat2: case SYS_readlinkat: case SYS_statx:
    case SYS_mkdirat: case SYS_unlinkat: case SYS_fchmodat: case SYS_fchownat: case SYS_mknodat: case SYS_utimensat:
    case 452: case SYS_futimesat:
        d1 = a[0]; cp1 = (const char *) a[1]; break;
    case SYS_rename: case SYS_link: case SYS_symlink: cp1 = (const char *) a[0]; cp2 = (const char *) a[1]; break;
    case SYS_renameat: case SYS_renameat2: case SYS_linkat:
        d1 = a[0]; cp1 = (const char *) a[1]; d2 = a[2]; cp2 = (const char *) a[3]; break;
    case SYS_symlinkat: cp1 = (const char *) a[0]; d2 = a[1]; cp2 = (const char *) a[2]; break;
    }
    if (cp1 && dir_base(p, d1, cp1, cb1)) cb1 = ROOT;
    if (cp2 && dir_base(p, d2, cp2, cb2)) cb2 = ROOT;
    if (&ev == &dummy) return;
    if (cp1 && strlen(cp1) < 4200) ev.p1 = pool_str(cp1, strlen(cp1));
    if (cp2 && strlen(cp2) < 4200) ev.p2 = pool_str(cp2, strlen(cp2));
}

static i64 dispatch(Proc &p, long nr, u64 *a, Event &ev);

// mappings get addresses that do not depend on the history of the simulator's own process
static u64 map_next = 0x320000000000ull;
static i64 map_at(u64 addr, u64 len, u64 prot, u64 flags)
{
    if (flags & MAP_FIXED) return raw(SYS_mmap, addr, len, prot, flags, -1, 0);
    i64 m = raw(SYS_mmap, map_next, len, prot, flags | MAP_FIXED_NOREPLACE, -1, 0);
    if (m > 0) map_next += ((len + 4095) & ~4095ull) + 4096;
    return m;
}

i64 ksyscall(long nr, u64 a0, u64 a1, u64 a2, u64 a3, u64 a4, u64 a5)
{
    Proc &p = S->proc[me];
    // calls on private memory and on the process itself: not events of the system under test
    switch (nr) {
    case SYS_brk: case SYS_munmap: case SYS_mprotect: case SYS_madvise: case SYS_mremap:
        return raw(nr, a0, a1, a2, a3, a4, a5);
    case SYS_mmap:
        if (a3 & MAP_ANONYMOUS) return map_at(a0, a1, a2, a3);
        break;
    case SYS_futex: // no other thread exists
        return (a1 & 127) == FUTEX_WAKE ? 0 : -EAGAIN;
    case SYS_rt_sigaction: case SYS_sigaltstack:
        return 0;
    case SYS_rt_sigprocmask:
        if (a2) memset((void *) a2, 0, 8);
        return 0;
    case SYS_set_robust_list: case SYS_rseq: case SYS_prctl: case SYS_arch_prctl:
        return 0;
    case SYS_getpid: case SYS_gettid: return 4000 + me;
    case SYS_getppid: return 3999;
    case SYS_getuid: case SYS_geteuid: case SYS_getgid: case SYS_getegid: return 1000;
    case SYS_exit: case SYS_exit_group:
        S->step++;
        p.exit_code = (int) (a0 & 255);
        p.heap_end = heap_live;
        p.fds_end = fds_open(p);
        heap_final_check();
        finish(p);
        return 0;
    case SYS_tgkill: case SYS_tkill: case SYS_kill: {
        int sig = nr == SYS_tgkill ? a2 : a1;
        if (sig) kdie(sig, 0);
        return 0;
    }
    case SYS_rt_sigreturn:
        return -EINVAL;
    }

    if (S->multi) maybe_switch();
    S->step++;
    S->clock += 1000 + mix(S->seed ^ S->step) % 100000;
    if (S->step > S->maxsteps + S->goodio) { p.hang = 1; finish(p); }
    u64 args[6] = {a0, a1, a2, a3, a4, a5};
    u8 cls = classify(nr, a0, a1, a2, a3, a4);
    u32 nth = ++p.ncls[cls], nany = ++p.nsys;
    Event &ev = new_event();
    cur_ev = &ev;
    ev.cls = cls;
    ev.nr = nr;
    ev.nth = nth;
    ev.heap = heap_live;
    ev.fds = fds_open(p);
    note_paths(ev, p, cls, nr, args);
    Fault *f = find_fault(cls, nth, nany);
    if (f && f->err == ERR_CRASH_BEFORE) { f->fired++; ev.kind = 2; ev.injected = 1; ev.res = -9999; crash_now(); }
    run_actions(0, cls, nth, nany);
    i64 res;
    if (f && f->err < 10000) {
        f->fired++;
        ev.injected = 1;
        res = -f->err;
        // keep track of which object the failing call was about
        Res r;
        if (cp1 && fs_walk(cb1, cp1, false, r, true) == 0) {
            ev.dir = r.dir; ev.dent = r.dent; ev.inode = r.inode;
            if (cls == C_RENAME && r.last) ev.n1 = pool_str(r.last, r.lastlen);
        }
        if (cp2 && fs_walk(cb2, cp2, false, r, true) == 0) {
            ev.dir2 = r.dir; ev.over = 0;
            if (cls == C_RENAME && r.last) ev.n2 = pool_str(r.last, r.lastlen);
        }
        if (!cp1 && (cls == C_READ || cls == C_WRITE || cls == C_GETDENTS || cls == C_CLOSE || cls == C_FSTAT)) {
            Fd *fd = fd_get(p, (int) a0);
            if (fd) { ev.inode = fd->inode; ev.aux = fd->kind == K_STDIN ? p.in_pos : fd->kind == K_OUT ? p.outlen : fd->pos; ev.dent = fd->kind; }
            if (cls == C_CLOSE && fd) { fd->kind = K_FREE; } // a failing close still closes
        }
    } else {
        res = dispatch(p, nr, args, ev);
    }
    ev.res = res;
    if ((cls == C_READ || cls == C_WRITE) && res > 0) {
        if (p.lost < (64u << 20)) S->goodio++; // moving data is progress
        if (nth > 500 && S->nev && &ev == &S->ev[S->nev - 1] && !f) S->nev--; // and not worth remembering
    }
    run_actions(1, cls, nth, nany);
    if (f && f->err == ERR_CRASH_AFTER) {
        // the call itself stays in the history as one that was made
        f->fired++;
        Event &kill = new_event();
        kill.cls = cls;
        kill.nr = nr;
        kill.kind = 2;
        kill.injected = 1;
        kill.res = -9999;
        crash_now();
    }
    return res;
}

static bool needs_path1(long nr)
{
    switch (nr) {
    case SYS_stat: case SYS_lstat: case SYS_access: case SYS_readlink: case SYS_open: case SYS_creat: case SYS_mkdir:
    case SYS_rmdir: case SYS_unlink: case SYS_chmod: case SYS_chown: case SYS_lchown: case SYS_truncate: case SYS_openat:
    case SYS_faccessat: case SYS_faccessat2: case SYS_readlinkat: case SYS_mkdirat: case SYS_unlinkat: case SYS_fchmodat:
    case SYS_fchownat: case 452: case SYS_rename: case SYS_renameat: case SYS_renameat2: case SYS_link: case SYS_linkat:
    case SYS_symlink: case SYS_symlinkat:
        return true;
    }
    return false;
}

static i64 dispatch(Proc &p, long nr, u64 *a, Event &ev)
{
    u32 in = 0;
    i64 e;
    if (needs_path1(nr) && !cp1) return -EFAULT;
    if (!cp1 && (ev.cls == C_STAT)) return -EFAULT;
    if (ev.cls == C_RENAME && !cp2) return -EFAULT;
    switch (nr) {
    case SYS_stat: case SYS_lstat:
        e = do_stat(p, K_AT_FDCWD, (const char *) a[0], nr == SYS_stat, in, ev);
        if (e) return e;
        fill_kstat(in, (kstat *) a[1]);
        return 0;
    case SYS_newfstatat:
        if (ev.cls == C_FSTAT) {
            if ((int) a[0] == K_AT_FDCWD) { fill_kstat(p.cwd, (kstat *) a[2]); return 0; }
            if (!fd_get(p, a[0])) return -EBADF;
            ev.inode = p.fds[a[0]].inode;
            fill_fd_kstat(p, a[0], (kstat *) a[2]);
            return 0;
        }
        e = do_stat(p, a[0], (const char *) a[1], !(a[3] & K_AT_SYMLINK_NOFOLLOW), in, ev);
        if (e) return e;
        fill_kstat(in, (kstat *) a[2]);
        return 0;
    case SYS_fstat:
        if (!fd_get(p, a[0])) return -EBADF;
        ev.inode = p.fds[a[0]].inode;
        fill_fd_kstat(p, a[0], (kstat *) a[1]);
        return 0;
    case SYS_statx: {
        kstat k;
        if (ev.cls == C_FSTAT) {
            if ((int) a[0] == K_AT_FDCWD) fill_kstat(p.cwd, &k);
            else { if (!fd_get(p, a[0])) return -EBADF; ev.inode = p.fds[a[0]].inode; fill_fd_kstat(p, a[0], &k); }
        } else {
            e = do_stat(p, a[0], (const char *) a[1], !(a[2] & K_AT_SYMLINK_NOFOLLOW), in, ev);
            if (e) return e;
            fill_kstat(in, &k);
        }
        struct statx *x = (struct statx *) a[4];
        memset(x, 0, sizeof *x);
        x->stx_mask = 0x7ff; x->stx_blksize = 4096; x->stx_nlink = k.st_nlink; x->stx_uid = k.st_uid; x->stx_gid = k.st_gid;
        x->stx_mode = k.st_mode; x->stx_ino = k.st_ino; x->stx_size = k.st_size; x->stx_blocks = k.st_blocks;
        x->stx_dev_major = k.st_dev >> 8; x->stx_dev_minor = k.st_dev & 255;
        return 0;
    }
    case SYS_access: case SYS_faccessat: case SYS_faccessat2: {
        bool at = nr != SYS_access;
        u64 mode = at ? a[2] : a[1];
        e = do_stat(p, at ? (int) a[0] : K_AT_FDCWD, (const char *) (at ? a[1] : a[0]), true, in, ev);
        if (e) return e;
        if ((mode & 4) && (S->inode[in].flags & F_DENY_R)) return -EACCES;
        if ((mode & 2) && (S->inode[in].flags & F_DENY_W)) return -EACCES;
        if ((mode & 1) && (S->inode[in].flags & F_DENY_X)) return -EACCES;
        return 0;
    }
    case SYS_readlink: case SYS_readlinkat: {
        bool at = nr == SYS_readlinkat;
        const char *path = (const char *) (at ? a[1] : a[0]);
        char *buf = (char *) (at ? a[2] : a[1]);
        u64 sz = at ? a[3] : a[2];
        e = do_stat(p, at ? (int) a[0] : K_AT_FDCWD, path, false, in, ev);
        if (e) return e;
        Inode &n = S->inode[in];
        if (n.type != T_LNK) return -EINVAL;
        u64 l = n.size < sz ? n.size : sz;
        memcpy(buf, S->pool + n.off, l);
        return l;
    }
    case SYS_open: return do_open(p, K_AT_FDCWD, (const char *) a[0], a[1], a[2], ev);
    case SYS_openat: return do_open(p, a[0], (const char *) a[1], a[2], a[3], ev);
    case SYS_creat: return do_open(p, K_AT_FDCWD, (const char *) a[0], O_CREAT | O_WRONLY | O_TRUNC, a[1], ev);
    case SYS_close: {
        Fd *f = fd_get(p, a[0]);
        if (!f) return -EBADF;
        ev.inode = f->inode;
        if (f->inode) S->inode[f->inode].openc--;
        f->kind = K_FREE;
        return 0;
    }
    case SYS_getdents64: return do_getdents(p, a[0], (char *) a[1], a[2], ev);
    case SYS_read: return do_read(p, a[0], (char *) a[1], a[2], -1, ev);
    case SYS_pread64: return do_read(p, a[0], (char *) a[1], a[2], a[3], ev);
    case SYS_readv: {
        struct iovec *v = (struct iovec *) a[1];
        i64 t = 0;
        for (u64 i = 0; i < a[2]; i++) {
            if (!v[i].iov_len) continue;
            i64 r = do_read(p, a[0], (char *) v[i].iov_base, v[i].iov_len, -1, ev);
            if (r < 0) return t ? t : r;
            t += r;
            if (r < (i64) v[i].iov_len) break;
        }
        return t;
    }
    case SYS_write: return do_write(p, a[0], (const char *) a[1], a[2], -1, ev);
    case SYS_pwrite64: return do_write(p, a[0], (const char *) a[1], a[2], a[3], ev);
    case SYS_writev: {
        struct iovec *v = (struct iovec *) a[1];
        i64 t = 0;
        for (u64 i = 0; i < a[2]; i++) {
            if (!v[i].iov_len) continue;
            i64 r = do_write(p, a[0], (const char *) v[i].iov_base, v[i].iov_len, -1, ev);
            if (r < 0) return t ? t : r;
            t += r;
            if (r < (i64) v[i].iov_len) break;
        }
        return t;
    }
    case SYS_rename: return do_rename(p, K_AT_FDCWD, (const char *) a[0], K_AT_FDCWD, (const char *) a[1], 0, ev);
    case SYS_renameat: return do_rename(p, a[0], (const char *) a[1], a[2], (const char *) a[3], 0, ev);
    case SYS_renameat2:
        if (S->norename2 == 2) return -ENOSYS;
        return do_rename(p, a[0], (const char *) a[1], a[2], (const char *) a[3], a[4], ev);
    case SYS_lseek: {
        Fd *f = fd_get(p, a[0]);
        if (!f) return -EBADF;
        if (f->kind == K_STDIN) {
            if (p.in_kind != 1) return -ESPIPE;
            i64 np = a[2] == 0 ? (i64) a[1] : a[2] == 1 ? (i64) p.in_pos + (i64) a[1] : (i64) p.in_len + (i64) a[1];
            if (np < 0) return -EINVAL;
            p.in_pos = np > (i64) p.in_len ? p.in_len : np;
            return np;
        }
        if (f->kind == K_OUT || f->kind == K_ERR) return -ESPIPE;
        Inode &n = S->inode[f->inode];
        if (n.type != T_REG && n.type != T_DIR) return n.flags & F_NULLDEV ? 0 : -ESPIPE;
        i64 np = a[2] == 0 ? (i64) a[1] : a[2] == 1 ? (i64) f->pos + (i64) a[1] : (i64) n.size + (i64) a[1];
        if (np < 0) return -EINVAL;
        f->pos = np;
        return np;
    }
    case SYS_ioctl: {
        Fd *f = fd_get(p, a[0]);
        if (!f) return -EBADF;
        bool tty = (f->kind == K_STDIN && p.in_kind == 2) || (f->kind == K_OUT && p.out_kind == 2);
        if (a[1] == 0x5401 && tty) { memset((void *) a[2], 0, 36); return 0; }
        return -ENOTTY;
    }
    case SYS_fcntl: {
        Fd *f = fd_get(p, a[0]);
        if (!f) return -EBADF;
        switch (a[1]) {
        case F_DUPFD: case F_DUPFD_CLOEXEC: {
            int n = fd_alloc(p, f->kind, a[2]);
            if (n < 0) return n;
            p.fds[n] = *f;
            if (f->inode) S->inode[f->inode].openc++;
            return n;
        }
        case F_GETFD: return f->cloexec;
        case F_SETFD: f->cloexec = a[2] & 1; return 0;
        case F_GETFL: return f->flags | (f->kind == K_OUT || f->kind == K_ERR ? O_WRONLY : 0);
        case F_SETFL: return 0;
        default: return -EINVAL;
        }
    }
    case SYS_dup: case SYS_dup2: case SYS_dup3: {
        Fd *f = fd_get(p, a[0]);
        if (!f) return -EBADF;
        int n;
        if (nr == SYS_dup) { n = fd_alloc(p, f->kind); if (n < 0) return n; }
        else { n = a[1]; if (n < 0 || n >= (int) MAXFD) return -EBADF; if (n == (int) a[0]) return n; if (p.fds[n].kind && p.fds[n].inode) S->inode[p.fds[n].inode].openc--; }
        p.fds[n] = *f;
        if (f->inode) S->inode[f->inode].openc++;
        return n;
    }
    case SYS_mmap: { // file mapping: a private copy (locale data)
        Fd *f = fd_get(p, a[4]);
        if (!f) return -EBADF;
        if (f->kind != K_FILE) return -ENODEV;
        if (a[3] & MAP_SHARED && a[2] & PROT_WRITE) { p.unsupported++; return -EACCES; }
        i64 m = map_at(a[0], a[1], PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | (a[3] & MAP_FIXED));
        if (m < 0) return m;
        Inode &n = S->inode[f->inode];
        u64 off = a[5], len = off < n.size ? n.size - off : 0;
        if (len > a[1]) len = a[1];
        memcpy((void *) m, S->pool + n.off + off, len);
        if (!(a[2] & PROT_WRITE)) raw(SYS_mprotect, m, a[1], a[2]);
        return m;
    }
    case SYS_getcwd: {
        char tmp[4200];
        u32 pos = sizeof tmp - 1;
        tmp[pos] = 0;
        for (u32 x = p.cwd; x != ROOT;) {
            Dentry &d = S->dent[S->inode[x].selfd];
            if (pos < d.len + 2) return -ERANGE;
            pos -= d.len;
            memcpy(tmp + pos, S->pool + d.name, d.len);
            tmp[--pos] = '/';
            x = d.parent;
        }
        if (pos == sizeof tmp - 1) tmp[--pos] = '/';
        u64 l = sizeof tmp - pos;
        if (l > a[1]) return -ERANGE;
        memcpy((void *) a[0], tmp + pos, l);
        return l;
    }
    case SYS_chdir: {
        e = do_stat(p, K_AT_FDCWD, (const char *) a[0], true, in, ev);
        if (e) return e;
        if (S->inode[in].type != T_DIR) return -ENOTDIR;
        if (S->inode[in].flags & F_DENY_X) return -EACCES;
        p.cwd = in;
        return 0;
    }
    case SYS_fchdir: {
        Fd *f = fd_get(p, a[0]);
        if (!f) return -EBADF;
        if (f->kind != K_DIR && f->kind != K_PATH) return -ENOTDIR;
        if (S->inode[f->inode].flags & F_DENY_X) return -EACCES;
        p.cwd = f->inode;
        return 0;
    }
    case SYS_umask: { u32 o = p.umask_; p.umask_ = a[0] & 0777; return o; }
    case SYS_getrlimit: case SYS_prlimit64: {
        u64 *o = (u64 *) (nr == SYS_getrlimit ? a[1] : a[3]);
        u64 res = nr == SYS_getrlimit ? a[0] : a[1];
        if (o) { o[0] = o[1] = res == 7 ? p.nofile : ~0ull; if (res == 3) o[0] = 8 << 20; }
        return 0;
    }
    case SYS_setrlimit: return 0;
    case SYS_getrandom: {
        u8 *b = (u8 *) a[0];
        for (u64 i = 0; i < a[1]; i++) b[i] = mix(S->seed ^ 0xabc ^ ++S->rndctr);
        return a[1];
    }
    case SYS_clock_gettime: case SYS_clock_getres: {
        u64 *t = (u64 *) a[1];
        if (t) { t[0] = S->clock / 1000000000ull; t[1] = S->clock % 1000000000ull; }
        return 0;
    }
    case SYS_gettimeofday: {
        u64 *t = (u64 *) a[0];
        if (t) { t[0] = S->clock / 1000000000ull; t[1] = S->clock % 1000000000ull / 1000; }
        return 0;
    }
    case SYS_time: { u64 t = S->clock / 1000000000ull; if (a[0]) *(u64 *) a[0] = t; return t; }
    case SYS_nanosleep: { u64 *t = (u64 *) a[0]; S->clock += t[0] * 1000000000ull + t[1]; return 0; }
    case SYS_clock_nanosleep: { u64 *t = (u64 *) a[2]; S->clock += t[0] * 1000000000ull + t[1]; return 0; }
    case SYS_sched_yield: return 0;
    case SYS_uname: {
        char *u = (char *) a[0];
        memset(u, 0, 65 * 6);
        memcpy(u, "Linux", 6); memcpy(u + 65, "sim", 4); memcpy(u + 130, "6.1.0", 6); memcpy(u + 195, "#1", 3); memcpy(u + 260, "x86_64", 7);
        return 0;
    }
    case SYS_fadvise64: case SYS_fsync: case SYS_fdatasync: case SYS_sync: case SYS_syncfs: case SYS_flock: return 0;
    case SYS_sysinfo: memset((void *) a[0], 0, 112); return 0;
    case SYS_getxattr: case SYS_lgetxattr: return -ENODATA;
    case SYS_listxattr: case SYS_llistxattr: return 0;
    }
    if (ev.cls == C_MUTATE) return do_mutate(p, nr, a, ev);
    p.unsupported++;
    S->unsupported_nr = nr;
    return -ENOSYS;
}

} // namespace sim
