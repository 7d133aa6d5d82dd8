#pragma once
#include "kern.h"
namespace sim {
extern int cpu_limit; // seconds per simulated process
void run_phase(const u32 *procs, u32 n, char ***argvs, const int *argcs, char ***envs);
void no_aslr(char **argv);
}
