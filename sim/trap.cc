// Runs one simulated process: a forked child in which every system call of the real program traps into kern.cc.
#include <stdio.h>
#include "trap.h"
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <stddef.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
#include <time.h>
#include <sys/time.h>
#include <fcntl.h>

extern "C" int detox_main(int, char **, char **);
extern "C" int v2_detox_main(int, char **, char **);  // the same sources compiled otherwise, see build.py
extern "C" char raw_stub_begin[], raw_stub_end[];

asm(R"(
    .text
    .globl raw_stub_begin
    .globl raw_stub_end
    .globl raw_syscall6
    .type raw_syscall6,@function
raw_stub_begin:
raw_syscall6:
    mov %rdi, %rax
    mov %rsi, %rdi
    mov %rdx, %rsi
    mov %rcx, %rdx
    mov %r8, %r10
    mov %r9, %r8
    mov 8(%rsp), %r9
    syscall
    ret
raw_stub_end:
    nop
    nop
    nop
)");
extern "C" long raw_syscall6(long nr, u64, u64, u64, u64, u64, u64);

namespace sim {
void sched_wait(u32 self);
void sched_to(u32 p);
int sched_next(u32 self);
void heap_child_init();

long raw(long nr, u64 a0, u64 a1, u64 a2, u64 a3, u64 a4, u64 a5) { return raw_syscall6(nr, a0, a1, a2, a3, a4, a5); }

static void on_sys(int, siginfo_t *, void *uc_)
{
    ucontext_t *uc = (ucontext_t *) uc_;
    greg_t *r = uc->uc_mcontext.gregs;
    r[REG_RAX] = ksyscall(r[REG_RAX], r[REG_RDI], r[REG_RSI], r[REG_RDX], r[REG_R10], r[REG_R8], r[REG_R9]);
}

static void on_fatal(int sig, siginfo_t *si, void *) { kdie(sig, (u64) si->si_addr); }

static void sig(int n, void (*h)(int, siginfo_t *, void *))
{
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = h;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    sigaction(n, &sa, nullptr);
}

static void install_filter()
{
    u64 lo = (u64) raw_stub_begin, hi = (u64) raw_stub_end;
    if (hi >> 32) __builtin_trap();
    struct sock_filter f[] = {
        BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr)),
        BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_rt_sigreturn, 5, 0),
        BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer) + 4),
        BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, 0, 0, 4),
        BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer)),
        BPF_JUMP(BPF_JMP | BPF_JGE | BPF_K, (u32) lo, 0, 2),
        BPF_JUMP(BPF_JMP | BPF_JGT | BPF_K, (u32) hi, 1, 0),
        BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW),
        BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP),
    };
    struct sock_fprog p = {(unsigned short) (sizeof f / sizeof *f), f};
    prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0);
    long r = raw(SYS_seccomp, SECCOMP_SET_MODE_FILTER, 0, (u64) &p);
    if (r) { dprintf(2, "sim: cannot install the system call filter: %ld\n", r); _exit(77); }
}

static char altstack[256 << 10] __attribute__((aligned(64)));

static void __attribute__((noinline)) dirty_stack(u64 seed, int fill)
{
    volatile char buf[192 << 10];
    if (fill < 256) { for (u64 i = 0; i < sizeof buf; i += 1) buf[i] = (char) fill; }
    else { u64 x = seed | 1; for (u64 i = 0; i < sizeof buf; i += 8) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; *(volatile u64 *) (buf + i) = x; } }
}

int cpu_limit = 8;

static void child(int idx, char **argv, int argc, char **envp)
{
    stack_t ss;
    memset(&ss, 0, sizeof ss);
    ss.ss_sp = altstack;
    ss.ss_size = sizeof altstack;
    sigaltstack(&ss, nullptr);
    sig(SIGSYS, on_sys);
    int fatal[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP};
    for (int s : fatal) sig(s, on_fatal);
    sigset_t none;
    sigemptyset(&none);
    sigprocmask(SIG_SETMASK, &none, nullptr);
    struct rlimit rl = {(rlim_t) cpu_limit, (rlim_t) cpu_limit + 1};
    setrlimit(RLIMIT_CPU, &rl);
    rl = {8ul << 30, 8ul << 30};
    rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    environ = envp;
    if (S->multi) sched_wait(idx);
    me = idx;
    heap_child_init();
    install_filter();
    dirty_stack(S->seed, S->heap_fill);
    int rc = (S->variant ? v2_detox_main : detox_main)(argc, argv, envp);
    exit(rc);
}

// Runs the given simulated processes (all belonging to S->phase) to their ends.
void run_phase(const u32 *procs, u32 n, char ***argvs, const int *argcs, char ***envs)
{
    pid_t pids[MAXP];
    S->multi = n > 1;
    S->current = 0;
    for (u32 i = 0; i < n; i++) S->proc[procs[i]].state = 1;
    for (u32 i = 0; i < n; i++) {
        pid_t self = getpid(), pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            if (getppid() != self) _exit(78); // too late for that
            child(procs[i], argvs[i], argcs[i], envs[i]);
            _exit(78);
        }
        pids[i] = pid;
    }
    if (S->multi) sched_to(procs[0]);
    for (u32 left = n; left;) {
        int st;
        pid_t w = waitpid(-1, &st, 0);
        if (w < 0) break;
        for (u32 i = 0; i < n; i++) {
            if (pids[i] != w) continue;
            left--;
            Proc &p = S->proc[procs[i]];
            if (p.state != 2) { // ended without passing through kdie(): killed by the kernel
                p.state = 2;
                if (WIFSIGNALED(st)) {
                    int sg = WTERMSIG(st);
                    if (sg == SIGXCPU || sg == SIGKILL) p.hang = 2; else p.sig = sg;
                } else { p.sig = 200; S->harness_err = 7; }
                if (S->multi) { int nx = sched_next(procs[i]); if (nx >= 0) sched_to(nx); }
            }
        }
    }
}

void no_aslr(char **argv)
{
    int cur = personality(0xffffffff);
    if (cur != -1 && !(cur & ADDR_NO_RANDOMIZE)) {
        if (personality(cur | ADDR_NO_RANDOMIZE) != -1) {
            char self[4096];
            ssize_t k = readlink("/proc/self/exe", self, sizeof self - 1);
            if (k > 0) { self[k] = 0; execv(self, argv); }
        }
    }
}
} // namespace sim

// the vDSO would answer these without a system call
extern "C" int clock_gettime(clockid_t c, struct timespec *t)
{
    return syscall(SYS_clock_gettime, c, t);
}
extern "C" int gettimeofday(struct timeval *t, void *z) { return syscall(SYS_gettimeofday, t, z); }
extern "C" time_t time(time_t *t)
{
    time_t v = syscall(SYS_time, 0);
    if (t) *t = v;
    return v;
}
