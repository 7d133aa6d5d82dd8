// Development only (VERIF_COV=1): records the program's basic blocks that were executed, over all processes.
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <unistd.h>
static uint8_t *hit;
static pid_t owner;
static const uintptr_t BASE = 0x400000, SIZE = 16u << 20;
static void dump()
{
    if (getpid() != owner) return;
    const char *f = getenv("VERIF_COV_OUT");
    FILE *o = f ? fopen(f, "w") : nullptr;
    if (!o) return;
    for (uintptr_t i = 0; i < SIZE; i++) if (hit[i]) fprintf(o, "%lx\n", BASE + i);
    fclose(o);
}
__attribute__((constructor)) static void init()
{
    hit = (uint8_t *) mmap(nullptr, SIZE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    owner = getpid();
    atexit(dump);
}
extern "C" void __sanitizer_cov_trace_pc()
{
    uintptr_t pc = (uintptr_t) __builtin_return_address(0) - BASE;
    if (hit && pc < SIZE) hit[pc] = 1;
}
