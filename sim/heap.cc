// Allocator of the simulated processes: guarded, poisoned, deterministic, and able to fail on request.
// In the worker everything is forwarded to the C library.
#include "kern.h"
#include <malloc.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void __libc_free(void *);
void *__libc_memalign(size_t, size_t);
extern char __executable_start[], etext[];
}

namespace sim { u32 heap_live; }
using namespace sim;

namespace {
constexpr u64 ABASE = 0x300000000000ull, ASIZE = 4ull << 30;
constexpr u64 MAGIC = 0x6b5f3d9a71c8e24full, FREED = 0x11f2e3d4c5b6a798ull;
constexpr u8 RZ = 0xA7;

struct Hdr {
    u64 magic;
    u64 size;     // asked for
    u64 front;    // bytes in front of the user data in this block, including the header
    u64 total;    // bytes from block start to the end of the block
    u64 prevblk;  // previous block (for the final check)
    u32 seq;
    u8 kind;      // 0 red zones, 1 tail guard, 2 head guard
};
constexpr u64 HSZ = 64;

bool active = false;
u64 bump, committed, lastblk;
u32 seq;
u32 guarded;
constexpr u64 PG = 4096;

inline bool ours(void *p) { return (u64) p >= ABASE && (u64) p < ABASE + ASIZE; }

void fill(u8 *p, u64 n, u64 tag)
{
    u32 f = S->heap_fill;
    if (f < 256) { memset(p, (int) f, n); return; }
    u64 x = mix(S->seed ^ tag ^ 0x5eed) | 1;
    u64 i = 0;
    for (; i + 8 <= n; i += 8) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; memcpy(p + i, &x, 8); }
    for (; i < n; i++) p[i] = (u8) (x >> (8 * (i & 7)));
}

// headers of guarded blocks live in a table of their own, because their neighbourhood is not accessible
struct GH { u64 user, size, base, pages; u32 seq; u8 state, kind; };
constexpr u32 GMAX = 1 << 15;
GH *gtab;
u32 ghash(u64 user) { return (u32) (mix(user) % GMAX); }
GH *gfind(u64 user)
{
    for (u32 h = ghash(user), k = 0; k < GMAX; k++, h = (h + 1) % GMAX) {
        if (!gtab[h].user) return nullptr;
        if (gtab[h].user == user) return &gtab[h];
    }
    return nullptr;
}

void *alloc(u64 size, u64 align, bool libc_caller)
{
    if (kalloc_fault(libc_caller)) { errno = ENOMEM; return nullptr; }
    if (size > (1ull << 30)) { errno = ENOMEM; return nullptr; }
    u32 mode = S->heap_mode;
    seq++;
    if (align < 16) align = 16;
    if (mode && guarded < 12000 && size < (1 << 20)) {
        if (!gtab) {
            gtab = (GH *) raw(SYS_mmap, 0x2ff000000000ull, sizeof(GH) * GMAX, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
        }
        u64 pages = (size + PG - 1) / PG;
        if (!pages) pages = 1;
        // [guard][pages][guard]
        bump = (bump + PG - 1) & ~(PG - 1);
        if (committed > bump) { raw(SYS_mprotect, bump, ((committed + PG - 1) & ~(PG - 1)) - bump, PROT_NONE); committed = bump; }
        if (bump + (pages + 2) * PG > ABASE + ASIZE) { errno = ENOMEM; return nullptr; }
        u64 base = bump + PG;
        bump += (pages + 2) * PG;
        if (bump > committed) committed = bump;
        if (raw(SYS_mprotect, base, pages * PG, PROT_READ | PROT_WRITE) < 0) { errno = ENOMEM; return nullptr; }
        guarded++;
        u64 user;
        if (mode == 1) {
            u64 al = libc_caller ? 16 : (size % 8 == 0 && size >= 16) ? 16 : 1;
            if (align > al && align > 16) al = align;
            user = (base + pages * PG - size) & ~(al - 1);
        } else user = base;
        if (user != base) memset((void *) base, RZ, user - base > 256 ? 256 : user - base);
        if (user != base && user - base > 256) memset((void *) (user - 256), RZ, 256);
        if (user + size < base + pages * PG) { u64 t = base + pages * PG - user - size; memset((void *) (user + size), RZ, t > 256 ? 256 : t); }
        fill((u8 *) user, size, seq);
        u32 h = ghash(user);
        while (gtab[h].user) h = (h + 1) % GMAX;
        gtab[h] = {user, size, base, pages, seq, 1, (u8) mode};
        heap_live++;
        return (void *) user;
    }
    // red zones
    u64 front = HSZ + 32;
    u64 start = (bump + 15) & ~15ull;
    u64 user = (start + front + align - 1) & ~(align - 1);
    u64 end = (user + size + 32 + 15) & ~15ull;
    if (end > ABASE + ASIZE) { errno = ENOMEM; return nullptr; }
    if (end > committed) {
        u64 c = (committed + PG - 1) & ~(PG - 1);
        if (c < (start & ~(PG - 1))) c = start & ~(PG - 1);
        u64 want = ((end - c) + (1 << 18)) & ~(PG - 1);
        if (c + want > ABASE + ASIZE) want = ABASE + ASIZE - c;
        if (raw(SYS_mprotect, c, want, PROT_READ | PROT_WRITE) < 0) { errno = ENOMEM; return nullptr; }
        committed = c + want;
    }
    bump = end;
    Hdr *h = (Hdr *) (user - front);
    h->magic = MAGIC ^ user;
    h->size = size;
    h->front = front;
    h->total = end - (user - front);
    h->prevblk = lastblk;
    h->seq = seq;
    h->kind = 0;
    lastblk = user;
    memset((void *) (user - 32), RZ, 32);
    memset((void *) (user + size), RZ, end - user - size);
    fill((u8 *) user, size, seq);
    heap_live++;
    return (void *) user;
}

bool all(const u8 *p, u64 n, u8 v)
{
    for (u64 i = 0; i < n; i++) if (p[i] != v) return false;
    return true;
}

void check_block(u64 user)
{
    Hdr *h = (Hdr *) (user - HSZ - 32);
    bool fr = h->magic == (FREED ^ user);
    if (!fr && h->magic != (MAGIC ^ user)) { kheap(1, 0); return; }
    if (!all((u8 *) user - 32, 32, RZ)) kheap(2, h->seq);
    u64 end = (user - h->front) + h->total;
    if (!all((u8 *) user + h->size, end - user - h->size, RZ)) kheap(3, h->seq);
    if (fr && !all((u8 *) user, h->size < 4096 ? h->size : 4096, 0xDF)) kheap(4, h->seq);
}

void check_guarded(GH &g)
{
    u64 e = g.base + g.pages * PG;
    u64 b = g.user - g.base > 256 ? 256 : g.user - g.base;
    if (!all((u8 *) g.user - b, b, RZ)) kheap(2, g.seq);
    u64 t = e - g.user - g.size > 256 ? 256 : e - g.user - g.size;
    if (!all((u8 *) g.user + g.size, t, RZ)) kheap(3, g.seq);
}

u64 size_of(void *p)
{
    if (gtab) if (GH *g = gfind((u64) p)) return g->size;
    return ((Hdr *) ((u64) p - HSZ - 32))->size;
}

void release(void *p)
{
    if (!p) return;
    if (!ours(p)) return; // belongs to the time before the program started
    u64 user = (u64) p;
    if (gtab) {
        if (GH *g = gfind(user)) {
            if (g->state == 2) { kheap(5, g->seq); kdie(6, user); }
            check_guarded(*g);
            g->state = 2;
            heap_live--;
            raw(SYS_mprotect, g->base, g->pages * PG, PROT_NONE);
            return;
        }
    }
    if (S->heap_mode && (user & 15)) { kheap(6, 0); kdie(6, user); }
    Hdr *h = (Hdr *) (user - HSZ - 32);
    if (user < ABASE + HSZ + 32 || user >= committed) { kheap(6, 0); kdie(6, user); }
    if (h->magic == (FREED ^ user)) { kheap(5, h->seq); kdie(6, user); }
    if (h->magic != (MAGIC ^ user)) { kheap(6, 0); kdie(6, user); }
    check_block(user);
    h->magic = FREED ^ user;
    heap_live--;
    memset(p, 0xDF, h->size);
}

inline bool is_libc(void *ra) { return !((char *) ra >= __executable_start && (char *) ra < etext); }
} // namespace

namespace sim {
void heap_child_init()
{
    heap_live = 0;
    long r = raw(SYS_mmap, ABASE, ASIZE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    if (r != (long) ABASE) __builtin_trap();
    bump = committed = ABASE;
    lastblk = 0;
    seq = 0;
    guarded = 0;
    active = true;
}
void heap_final_check()
{
    if (!active) return;
    for (u64 b = lastblk; b;) { check_block(b); b = ((Hdr *) (b - HSZ - 32))->prevblk; }
    if (gtab) for (u32 i = 0; i < GMAX; i++) if (gtab[i].user && gtab[i].state == 1) check_guarded(gtab[i]);
}
}

#define RA __builtin_return_address(0)
extern "C" {
void *malloc(size_t n) { return active ? alloc(n, 16, is_libc(RA)) : __libc_malloc(n); }
void free(void *p)
{
    if (active) { int e = errno; release(p); errno = e; } else __libc_free(p);
}
void *calloc(size_t a, size_t b)
{
    if (!active) return __libc_calloc(a, b);
    u64 t;
    if (__builtin_mul_overflow(a, b, &t)) { errno = ENOMEM; return nullptr; }
    void *p = alloc(t, 16, is_libc(RA));
    if (p) memset(p, 0, t);
    return p;
}
void *realloc(void *p, size_t n)
{
    if (!active) return __libc_realloc(p, n);
    bool lc = is_libc(RA);
    if (!p) return alloc(n, 16, lc);
    void *q = alloc(n ? n : 1, 16, lc);
    if (!q) return nullptr;
    u64 o;
    if (ours(p)) o = size_of(p); else o = n; // a block from before the start: readable at least this far in practice
    memcpy(q, p, o < n ? o : n);
    release(p);
    return q;
}
void *memalign(size_t al, size_t n) { return active ? alloc(n, al, is_libc(RA)) : __libc_memalign(al, n); }
void *aligned_alloc(size_t al, size_t n) { return active ? alloc(n, al, is_libc(RA)) : __libc_memalign(al, n); }
int posix_memalign(void **o, size_t al, size_t n)
{
    void *p = active ? alloc(n, al, is_libc(RA)) : __libc_memalign(al, n);
    if (!p) return ENOMEM;
    *o = p;
    return 0;
}
void *valloc(size_t n) { return active ? alloc(n, 4096, is_libc(RA)) : __libc_memalign(4096, n); }
char *strdup(const char *s)
{
    size_t n = strlen(s) + 1;
    char *p = (char *) (active ? alloc(n, 16, is_libc(RA)) : __libc_malloc(n));
    if (p) memcpy(p, s, n);
    return p;
}
char *strndup(const char *s, size_t m)
{
    size_t n = strnlen(s, m);
    char *p = (char *) (active ? alloc(n + 1, 16, is_libc(RA)) : __libc_malloc(n + 1));
    if (p) { memcpy(p, s, n); p[n] = 0; }
    return p;
}
}
