// A scenario: everything that determines one simulated execution.  Its text form is the replay file.
#pragma once
#include "kern.h"
#include <string>
#include <vector>

struct Rng {
    uint64_t s[2];
    explicit Rng(uint64_t seed) { s[0] = sim::mix(seed); s[1] = sim::mix(seed ^ 0x1234567); if (!s[0] && !s[1]) s[0] = 1; }
    uint64_t next() { uint64_t a = s[0], b = s[1]; s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 17) ^ (b >> 26); return s[1] + b; }
    uint32_t below(uint32_t n) { return n ? (uint32_t) ((next() >> 11) % n) : 0; }
    uint32_t range(uint32_t a, uint32_t b) { return a + below(b - a + 1); }
    bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

struct Node {
    std::string path;
    char type = 'f';          // f d l p s c b, h = hard link (data: path of the other name)
    std::string data;         // contents, link target, or with blob: name of a data file
    bool blob = false;
    uint32_t mode = 0, flags = 0;
    uint64_t dev = 0, ino = 0;
    int e_stat = 0, e_open = 0, e_rename = 0, e_list = 0, e_read = 0, list_after = -1;
    int64_t read_at = -1;
};

struct ProcSpec {
    int phase = 0;
    std::vector<std::string> argv, env;
    std::string cwd = "/w";
    std::string in;
    int in_kind = 0, out_kind = 0;
    int64_t in_err_at = -1; int in_errno = 0;
    int64_t out_cap = -1; int out_errno = 0; int out_transient = 0;
    int64_t err_cap = -1; int err_errno = 0;
    uint32_t chunk = 0, wchunk = 0, nofile = 64;
    bool follow = false;      // arguments renamed by an earlier phase are given under their new names
};

struct FaultSpec { int proc = 0, cls = 0; uint32_t nth = 0; int err = 0; bool sticky = false; };
struct ActSpec { int proc = 0, cls = 0; uint32_t nth = 0; int when = 0, op = 0; char type = 'f'; std::string p1, p2; };
struct SwitchSpec { uint64_t step = 0; uint32_t proc = 0; };

struct Scen {
    std::string prop;
    std::string profile;
    uint64_t seed = 1;
    int order = 0, relist = 0, dtype_unknown = 0, norename2 = 0;
    uint32_t batch = 0;
    uint64_t maxsteps = 200000;
    uint32_t heap_mode = 0, heap_fill = 256, variant = 0;
    std::vector<Node> nodes;
    std::vector<ProcSpec> procs;
    std::vector<FaultSpec> faults;
    std::vector<ActSpec> acts;
    std::vector<SwitchSpec> sws;
    int loss_phase = -1; uint64_t loss_seed = 0;   // power loss after that phase
    std::vector<std::pair<std::string, std::string>> notes;
};

std::string scen_print(const Scen &);
bool scen_parse(const std::string &, Scen &, std::string &err);
std::string esc(const std::string &);
std::string unesc(const std::string &);

// Result of one execution, copied out of the shared memory where needed; the tree itself stays in S.
struct RunResult {
    uint64_t hash = 0;        // over all events, outputs and the final tree
    bool harness_error = false;
    std::string why;
};

void load_data(const std::string &dir);
const std::string &blob_data(const std::string &name);
bool have_blob(const std::string &name);
RunResult run_scen(const Scen &);       // sets S up and runs all phases

// views of a finished run
std::string S_out(int proc), S_err(int proc);
std::string dname(uint32_t dent);       // current name
std::string doname(uint32_t dent);      // original name
std::string dpath(uint32_t dent);       // current path
std::string dopath(uint32_t dent);      // original path (through original parents)
inline std::string pstr(uint32_t off) { return off ? std::string(sim::S->pool + off) : std::string(); }
uint64_t tree_hash();
