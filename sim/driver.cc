// Seeded search: workers, determinism gate, minimiser, replay, evidence.
#include "gen.h"
#include "oracle.h"
#include "trap.h"
#include <algorithm>
#include <dirent.h>
#include <fcntl.h>
#include <map>
#include <poll.h>
#include <set>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
using namespace sim;
using std::string;
using std::vector;

static uint64_t g_dump = ~0ull;
static string g_data, g_replay_dir, g_evidence, g_known, g_tier = "quick";
static bool g_thorough;

static double now()
{
    struct timespec t;
    // our own clock_gettime() goes through syscall(), which is fine out here
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
static void say(const string &s) { size_t o = 0; while (o < s.size()) { ssize_t n = write(1, s.data() + o, s.size() - o); if (n <= 0) break; o += n; } }
static void saye(const string &s) { if (write(2, s.data(), s.size())) {} }
static bool slurp(const string &p, string &out)
{
    int fd = open(p.c_str(), O_RDONLY);
    if (fd < 0) return false;
    char b[65536];
    ssize_t n;
    out.clear();
    while ((n = read(fd, b, sizeof b)) > 0) out.append(b, n);
    close(fd);
    return true;
}
static bool spit(const string &p, const string &t)
{
    int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0) return false;
    size_t o = 0;
    while (o < t.size()) { ssize_t n = write(fd, t.data() + o, t.size() - o); if (n <= 0) { close(fd); return false; } o += n; }
    close(fd);
    return true;
}

// ------------------------------------------------------------------------------------------------ one seed
struct SeedResult {
    uint64_t seed = 0;
    bool generated = false;
    uint32_t execs = 0, evals = 0, discarded = 0, broken = 0, nontrivial = 0;
    uint64_t steps = 0, simtime = 0;
    vector<uint64_t> cls;       // hashes of non-trivial executions
    std::map<string, uint32_t> fired;
    std::map<string, uint32_t> profile;
    string why;
    vector<Viol> viol;
    string scen;                // of the violation
    string sample;
    uint64_t hash = 0;
    bool nondet = false;
};

static void account(SeedResult &r, const Verdict &v, const Scen &s)
{
    r.evals++;
    r.execs += v.execs;
    r.steps += v.steps;
    r.simtime += v.simtime;
    r.hash = mix(r.hash ^ v.hash);
    if (v.discard) { r.discarded++; r.profile["discarded: " + v.why]++; }
    if (v.broken) { r.broken++; r.why = v.why; }
    if (v.nontrivial && !v.discard && !v.broken) { r.nontrivial++; r.cls.push_back(v.cls_hash); }
    for (auto &f : v.fired) r.fired[f.first] += f.second;
    r.profile[s.profile]++;
}

static bool check(SeedResult &r, const Scen &s)
{
    Verdict v = evaluate(s);
    if (g_dump == r.seed) say(scen_print(s) + trace_text(3000)); // to compare an execution with the same one in another run
    account(r, v, s);
    if (v.broken || v.discard) return true;
    if (v.v.empty()) return true;
    Verdict w = evaluate(s);
    if (w.hash != v.hash || w.v.empty() || w.v[0].kind != v.v[0].kind) { r.nondet = true; r.why = "an execution could not be repeated: " + v.v[0].kind; r.scen = scen_print(s); return false; }
    r.viol = v.v;
    r.scen = scen_print(s);
    return false;
}

// whether anything was renamed in the execution just made
static bool renames()
{
    for (u32 i = 0; i < S->nev; i++) if (!S->ev[i].kind && S->ev[i].cls == C_RENAME && !S->ev[i].res) return true;
    return false;
}

static SeedResult run_seed(const string &prop, uint64_t seed, bool twice)
{
    SeedResult r;
    r.seed = seed;
    Gen g(prop, seed, g_thorough);
    Scen b;
    for (uint32_t attempt = 0; attempt < 4; attempt++) {
        if (attempt) g = Gen(prop, seed, g_thorough, attempt);
        bool made = g.base();
        if (!made) continue;
        r.generated = true;
        b = g.s;
        if (!check(r, b)) return r;
        if (!g.wants_work || renames()) break;
    }
    if (!r.generated) return r;
    g.s = b;
    if (g.wants_faults) {
        int rounds = g_thorough ? 3 : 1;
        for (int k = 0; k < rounds; k++) {
            if (k) { // faults are picked among the events of the undisturbed run
                Scen p = b;
                RunResult q = run_scen(p);
                if (q.harness_error) break;
            }
            g.s = b;
            g.add_faults();
            if (g.s.faults.empty() && g.s.acts.empty() && g.s.sws.empty() && g.s.loss_phase < 0) continue;
            if (!check(r, g.s)) return r;
            if (twice && k == 0) {
                Verdict v = evaluate(g.s), w = evaluate(g.s);
                if (v.hash != w.hash) { r.nondet = true; r.why = "an execution could not be repeated"; r.scen = scen_print(g.s); }
            }
        }
    }
    if (r.nontrivial && seed % 7 == 3) { string t = scen_print(g.s); r.sample = t.size() > 1500 ? t.substr(0, 1500) + "..." : t; }
    return r;
}

// ------------------------------------------------------------------------------------------------ transport
static void put32(string &o, uint32_t v) { o.append((char *) &v, 4); }
static void put64(string &o, uint64_t v) { o.append((char *) &v, 8); }
static void puts_(string &o, const string &s) { put32(o, s.size()); o += s; }
struct Rd { const string &s; size_t p = 0; uint32_t u32_() { uint32_t v; memcpy(&v, s.data() + p, 4); p += 4; return v; } uint64_t u64_() { uint64_t v; memcpy(&v, s.data() + p, 8); p += 8; return v; } string str() { uint32_t n = u32_(); string r = s.substr(p, n); p += n; return r; } };
static string pack(const SeedResult &r)
{
    string o;
    put64(o, r.seed); put32(o, r.generated); put32(o, r.execs); put32(o, r.evals); put32(o, r.discarded); put32(o, r.broken); put32(o, r.nontrivial);
    put64(o, r.steps); put64(o, r.simtime); put64(o, r.hash); put32(o, r.nondet);
    put32(o, r.cls.size()); for (auto x : r.cls) put64(o, x);
    put32(o, r.fired.size()); for (auto &f : r.fired) { puts_(o, f.first); put32(o, f.second); }
    put32(o, r.profile.size()); for (auto &f : r.profile) { puts_(o, f.first); put32(o, f.second); }
    puts_(o, r.why);
    put32(o, r.viol.size()); for (auto &v : r.viol) { puts_(o, v.kind); puts_(o, v.text); }
    puts_(o, r.scen); puts_(o, r.sample);
    return o;
}
static SeedResult unpack(const string &s)
{
    Rd d{s};
    SeedResult r;
    r.seed = d.u64_(); r.generated = d.u32_(); r.execs = d.u32_(); r.evals = d.u32_(); r.discarded = d.u32_(); r.broken = d.u32_(); r.nontrivial = d.u32_();
    r.steps = d.u64_(); r.simtime = d.u64_(); r.hash = d.u64_(); r.nondet = d.u32_();
    for (uint32_t n = d.u32_(); n--;) r.cls.push_back(d.u64_());
    for (uint32_t n = d.u32_(); n--;) { string k = d.str(); r.fired[k] = d.u32_(); }
    for (uint32_t n = d.u32_(); n--;) { string k = d.str(); r.profile[k] = d.u32_(); }
    r.why = d.str();
    for (uint32_t n = d.u32_(); n--;) { Viol v; v.kind = d.str(); v.text = d.str(); r.viol.push_back(v); }
    r.scen = d.str(); r.sample = d.str();
    return r;
}
static bool write_all(int fd, const char *p, size_t n) { while (n) { ssize_t k = write(fd, p, n); if (k <= 0) return false; p += k; n -= k; } return true; }

// ------------------------------------------------------------------------------------------------ known findings
struct Known { string prop, match, what; };
static vector<Known> known_findings()
{
    vector<Known> v;
    string t;
    if (g_known.empty() || !slurp(g_known, t)) return v;
    size_t i = 0;
    while (i < t.size()) {
        size_t j = t.find('\n', i);
        if (j == string::npos) j = t.size();
        string l = t.substr(i, j - i);
        i = j + 1;
        if (l.compare(0, 9, "finding: ")) continue;
        Known k;
        size_t a = l.find("property="), b = l.find(" match=");
        if (a == string::npos || b == string::npos) continue;
        k.prop = l.substr(a + 9, b - a - 9);
        size_t e = l.find(' ', b + 7);
        if (e == string::npos) e = l.size();
        k.match = unesc(l.substr(b + 7, e - b - 7));
        k.what = e < l.size() ? l.substr(e + 1) : "";
        v.push_back(k);
    }
    return v;
}
static bool is_known(const vector<Known> &k, const string &prop, const Viol &v, std::set<size_t> &hit)
{
    for (size_t i = 0; i < k.size(); i++) if (k[i].prop == prop && (v.kind + ": " + v.text).find(k[i].match) != string::npos) { hit.insert(i); return true; }
    return false;
}

// ------------------------------------------------------------------------------------------------ minimiser
static bool still(const Scen &s, const string &kind, int &budget)
{
    if (budget-- <= 0) return false;
    Verdict v = evaluate(s);
    if (v.broken || v.discard) return false;
    for (auto &x : v.v) if (x.kind == kind) return true;
    return false;
}

template <class T> static void shrink_list(Scen &s, vector<T> Scen::*m, const string &kind, int &budget)
{
    for (size_t chunk = std::max<size_t>(1, (s.*m).size()); chunk >= 1; chunk /= 2) {
        for (size_t i = 0; i < (s.*m).size() && budget > 0;) {
            Scen t = s;
            auto &v = t.*m;
            v.erase(v.begin() + i, v.begin() + std::min(v.size(), i + chunk));
            if (still(t, kind, budget)) s = t; else i += chunk;
        }
        if (chunk == 1) break;
    }
}

static void minimise(Scen &s, const string &kind, double deadline)
{
    int budget = 1500;
    for (int round = 0; round < 3; round++) {
        string before = scen_print(s);
        shrink_list(s, &Scen::faults, kind, budget);
        shrink_list(s, &Scen::acts, kind, budget);
        shrink_list(s, &Scen::sws, kind, budget);
        // nodes: whole subtrees first
        for (size_t chunk = std::max<size_t>(1, s.nodes.size() / 2); chunk >= 1; chunk /= 2) {
            for (size_t i = 0; i < s.nodes.size() && budget > 0 && now() < deadline;) {
                Scen t = s;
                std::set<string> gone;
                for (size_t k = i; k < std::min(s.nodes.size(), i + chunk); k++) gone.insert(s.nodes[k].path);
                vector<Node> keep;
                for (auto &n : t.nodes) {
                    bool g = gone.count(n.path) || (n.type == 'h' && gone.count(n.data));
                    for (auto &x : gone) if (n.path.compare(0, x.size() + 1, x + "/") == 0) g = true;
                    if (!g) keep.push_back(n);
                }
                t.nodes = keep;
                if (still(t, kind, budget)) s = t; else i += chunk;
            }
            if (chunk == 1) break;
        }
        for (size_t p = 0; p < s.procs.size() && s.procs.size() > 1 && budget > 0;) {
            Scen t = s;
            t.procs.erase(t.procs.begin() + p);
            for (auto &f : t.faults) if (f.proc > (int) p) f.proc--;
            for (auto &f : t.acts) if (f.proc > (int) p) f.proc--;
            for (auto &f : t.sws) if (f.proc > p) f.proc--;
            if (s.prop != "C08" && s.prop != "C17" && s.prop != "C22" && still(t, kind, budget)) s = t; else p++;
        }
        // arguments, identically for all processes that share them
        for (size_t a = 1; !s.procs.empty() && a < s.procs[0].argv.size() && budget > 0 && now() < deadline;) {
            Scen t = s;
            string x = s.procs[0].argv[a];
            for (auto &p : t.procs) { auto q = std::find(p.argv.begin() + 1, p.argv.end(), x); if (q != p.argv.end()) p.argv.erase(q); }
            if (still(t, kind, budget)) s = t; else a++;
        }
        for (size_t k = 0; !s.procs.empty() && k < s.procs[0].env.size() && budget > 0;) {
            Scen t = s;
            string x = s.procs[0].env[k];
            for (auto &p : t.procs) { auto q = std::find(p.env.begin(), p.env.end(), x); if (q != p.env.end()) p.env.erase(q); }
            if (still(t, kind, budget)) s = t; else k++;
        }
        auto knob = [&](std::function<void(Scen &)> f) { Scen t = s; f(t); if (scen_print(t) != scen_print(s) && still(t, kind, budget)) s = t; };
        knob([](Scen &t) { t.order = 0; }); knob([](Scen &t) { t.relist = 0; }); knob([](Scen &t) { t.batch = 0; }); knob([](Scen &t) { t.dtype_unknown = 0; });
        knob([](Scen &t) { t.heap_mode = 0; }); knob([](Scen &t) { t.norename2 = 0; }); knob([](Scen &t) { t.loss_phase = -1; t.loss_seed = 0; });
        for (size_t p = 0; p < s.procs.size(); p++) {
            knob([p](Scen &t) { t.procs[p].chunk = 0; }); knob([p](Scen &t) { t.procs[p].wchunk = 0; }); knob([p](Scen &t) { t.procs[p].out_kind = 0; });
            knob([p](Scen &t) { t.procs[p].in_kind = 0; }); knob([p](Scen &t) { t.procs[p].out_cap = -1; }); knob([p](Scen &t) { t.procs[p].in_err_at = -1; });
        }
        for (size_t i = 0; i < s.nodes.size(); i++) {
            knob([i](Scen &t) { Node &n = t.nodes[i]; n.e_stat = n.e_open = n.e_rename = n.e_list = n.e_read = 0; n.list_after = -1; n.read_at = -1; n.flags &= F_CASEFOLD; n.dev = n.ino = 0; });
        }
        // text: lines of files and of the standard input, then pieces of lines
        auto shrink_text = [&](std::function<string &(Scen &)> get) {
            for (size_t chunk = std::max<size_t>(1, get(s).size() / 2); chunk >= 1; chunk /= 2) {
                for (size_t i = 0; i < get(s).size() && budget > 0 && now() < deadline;) {
                    Scen t = s;
                    get(t).erase(i, chunk);
                    if (still(t, kind, budget)) s = t; else i += chunk;
                }
                if (chunk == 1 || (chunk < 8 && get(s).size() > 400)) break;
            }
        };
        for (size_t p = 0; p < s.procs.size(); p++) if (!s.procs[p].in.empty()) shrink_text([p](Scen &t) -> string & { return t.procs[p].in; });
        for (size_t i = 0; i < s.nodes.size(); i++) if (s.nodes[i].type == 'f' && !s.nodes[i].blob && s.nodes[i].data.size() > 24) shrink_text([i](Scen &t) -> string & { return t.nodes[i].data; });
        if (scen_print(s) == before || budget <= 0 || now() > deadline) break;
    }
}

// ------------------------------------------------------------------------------------------------ replay
static string self_path() { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); return n > 0 ? string(b, n) : ""; }

static int replay_file(const string &file)
{
    string t, err;
    if (!slurp(file, t)) { saye("cannot read " + file + "\n"); return 2; }
    Scen s;
    if (!scen_parse(t, s, err)) { saye("bad replay file: " + err + "\n"); return 2; }
    shm_create();
    Verdict v = evaluate(s);
    string tr = trace_text(4000);
    Verdict w = evaluate(s);
    char b[200];
    snprintf(b, sizeof b, "execution hash %016llx, again %016llx%s\n", (unsigned long long) v.hash, (unsigned long long) w.hash, v.hash == w.hash ? "" : " NOT REPEATABLE");
    say(tr + b);
    if (v.broken) { say("no decision: " + v.why + "\n"); return 2; }
    if (v.discard) { say("outside of what is specified: " + v.why + "\n"); return 0; }
    for (auto &x : v.v) say("violated: " + x.kind + ": " + x.text + "\n");
    size_t k = t.find("# hash ");
    if (k != string::npos) { snprintf(b, sizeof b, "%016llx", (unsigned long long) v.hash); if (t.compare(k + 7, 16, b) != 0) say("(the recorded execution hash differs: other code or other scenario)\n"); }
    if (v.v.empty()) { say("property " + s.prop + " holds in this execution\n"); return 0; }
    say("VIOLATION property=" + s.prop + " replay=" + file + "\n");
    return 1;
}

static string jesc(const string &s)
{
    string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

int main(int argc, char **argv)
{
    no_aslr(argv);
    signal(SIGPIPE, SIG_IGN);
    string prop, replay, one;
    uint64_t vseed = 1, first = 0;
    uint64_t runs = 1000;
    int jobs = 8;
    double cap = 120;
    bool all_viol = false, hashes = false, has_conform = false;
    uint64_t conform = 0;
    for (int i = 1; i < argc; i++) {
        string a = argv[i];
        auto nx = [&]() -> string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--prop") prop = nx();
        else if (a == "--tier") g_tier = nx();
        else if (a == "--seed") vseed = strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--first") first = strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--runs") runs = strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--jobs") jobs = atoi(nx().c_str());
        else if (a == "--cap") cap = atof(nx().c_str());
        else if (a == "--data") g_data = nx();
        else if (a == "--replay-dir") g_replay_dir = nx();
        else if (a == "--evidence") g_evidence = nx();
        else if (a == "--known") g_known = nx();
        else if (a == "--replay") replay = nx();
        else if (a == "--one") one = nx();
        else if (a == "--all") all_viol = true;
        else if (a == "--hashes") hashes = true;
        else if (a == "--conform") conform = strtoull(nx().c_str(), nullptr, 10), has_conform = true;
        else if (a == "--dump") g_dump = strtoull(nx().c_str(), nullptr, 10);
        else { saye("unknown option " + a + "\n"); return 2; }
    }
    g_thorough = g_tier == "thorough";
    load_data(g_data);
    if (!replay.empty()) return replay_file(replay);
    if (has_conform) { // fault-free scenarios and what became of them, for tools/conform.py
        shm_create();
        for (uint64_t i = 0; i < runs; i++) {
            Gen g(prop, conform + i, g_thorough);
            if (!g.base()) continue;
            g.s.order = g.s.norename2 = g.s.dtype_unknown = 0;
            g.s.relist = 3; // as tmpfs does it: the newest first
            g.s.faults.clear(); g.s.acts.clear(); g.s.sws.clear();
            for (auto &n : g.s.nodes) { n.e_stat = n.e_open = n.e_rename = n.e_list = n.e_read = 0; n.list_after = n.read_at = -1; n.flags = 0; n.mode = 0; n.dev = n.ino = 0; }
            for (auto &p : g.s.procs) { p.in_err_at = p.out_cap = p.err_cap = -1; p.nofile = 64; p.out_transient = 0; }
            RunResult rr = run_scen(g.s);
            if (rr.harness_error) continue;
            say(scen_print(g.s));
            for (u32 p = 0; p < S->nproc; p++) say("= result " + std::to_string(S->proc[p].exit_code) + " " + std::to_string(S->proc[p].sig) + "\n= out " + esc(S_out(p)) + "\n= err " + esc(S_err(p)) + "\n");
            for (u32 d = 1; d < S->nd; d++) if (S->dent[d].live) say("= entry " + esc(dpath(d)) + "\n");
            say("= end\n");
        }
        return 0;
    }
    if (!one.empty()) { // prints scenario, trace and verdict of one seed
        shm_create();
        uint64_t sd = strtoull(one.c_str(), nullptr, 10);
        Gen g(prop, sd, g_thorough);
        for (uint32_t attempt = 0; attempt < 4; attempt++) {
            if (attempt) g = Gen(prop, sd, g_thorough, attempt);
            if (!g.base()) continue;
            evaluate(g.s);
            if (!g.wants_work || renames()) break;
        }
        for (int k = 0; k < 2; k++) {
            Verdict v = evaluate(g.s);
            say(scen_print(g.s) + trace_text(3000));
            for (auto &x : v.v) say("violated: " + x.kind + ": " + x.text + "\n");
            say(v.broken ? "broken " + v.why + "\n" : v.discard ? "discarded " + v.why + "\n" : v.nontrivial ? "nontrivial\n" : "trivial\n");
            if (!g.wants_faults || k) break;
            g.add_faults();
            say("---------------------------------------- with faults\n");
        }
        return 0;
    }

    double t0 = now();
    if (jobs < 1) jobs = 1;
    uint64_t start = first ? first : vseed * 1000000ull;
    vector<int> fds;
    vector<pid_t> pids;
    for (int w = 0; w < jobs; w++) {
        int p[2];
        if (pipe(p)) return 2;
        pid_t pid = fork();
        if (pid == 0) {
            close(p[0]);
            for (int f : fds) close(f);
            shm_create();
            for (uint64_t i = w; i < runs; i += jobs) {
                if (now() - t0 > cap) break;
                SeedResult r = run_seed(prop, start + i, i % 50 == 7);
                string m = pack(r);
                string h;
                put32(h, m.size());
                if (!write_all(p[1], h.data(), 4) || !write_all(p[1], m.data(), m.size())) _exit(0);
                if (!all_viol && !r.viol.empty()) break;
            }
            _exit(0);
        }
        close(p[1]);
        fds.push_back(p[0]);
        pids.push_back(pid);
    }
    SeedResult tot;
    uint64_t seeds = 0;
    std::set<uint64_t> cls;
    vector<SeedResult> bad;
    vector<string> samples;
    vector<Known> known = known_findings();
    std::set<size_t> hit;
    vector<std::pair<uint64_t, uint64_t>> allh;
    {
        vector<string> buf(jobs);
        vector<bool> open_(jobs, true);
        int left = jobs;
        bool stop = false;
        while (left) {
            vector<struct pollfd> pf;
            vector<int> who;
            for (int w = 0; w < jobs; w++) if (open_[w]) { pf.push_back({fds[w], POLLIN, 0}); who.push_back(w); }
            if (poll(pf.data(), pf.size(), 1000) < 0) break;
            for (size_t k = 0; k < pf.size(); k++) {
                if (!(pf[k].revents & (POLLIN | POLLHUP))) continue;
                int w = who[k];
                char b[65536];
                ssize_t n = read(fds[w], b, sizeof b);
                if (n <= 0) { open_[w] = false; left--; continue; }
                buf[w].append(b, n);
                while (buf[w].size() >= 4) {
                    uint32_t len;
                    memcpy(&len, buf[w].data(), 4);
                    if (buf[w].size() < 4 + len) break;
                    SeedResult r = unpack(buf[w].substr(4, len));
                    buf[w].erase(0, 4 + len);
                    seeds++;
                    if (hashes) allh.push_back({r.seed, r.hash});
                    tot.generated += r.generated; tot.execs += r.execs; tot.evals += r.evals; tot.discarded += r.discarded; tot.broken += r.broken; tot.nontrivial += r.nontrivial;
                    tot.steps += r.steps; tot.simtime += r.simtime;
                    for (auto x : r.cls) cls.insert(x);
                    for (auto &f : r.fired) tot.fired[f.first] += f.second;
                    for (auto &f : r.profile) tot.profile[f.first] += f.second;
                    if (r.broken || r.nondet) { tot.why = r.why; if (tot.scen.empty()) tot.scen = r.scen; tot.nondet |= r.nondet; }
                    if (!r.sample.empty() && samples.size() < 3) samples.push_back(r.sample);
                    if (!r.viol.empty()) {
                        bool allknown = true;
                        for (auto &v : r.viol) if (!is_known(known, prop, v, hit)) allknown = false;
                        if (!allknown) { bad.push_back(r); if (!all_viol) stop = true; }
                    }
                }
            }
            if (stop) { for (pid_t p : pids) kill(p, SIGTERM); break; }
        }
        for (pid_t p : pids) { int st; waitpid(p, &st, 0); if (WIFSIGNALED(st) && WTERMSIG(st) != SIGTERM) { tot.broken++; tot.why = "a worker died"; } }
    }
    double wall = now() - t0;
    std::sort(bad.begin(), bad.end(), [](const SeedResult &a, const SeedResult &b) { return a.seed < b.seed; });
    if (hashes) { std::sort(allh.begin(), allh.end()); char b[64]; for (auto &h : allh) { snprintf(b, sizeof b, "%llu %016llx\n", (unsigned long long) h.first, (unsigned long long) h.second); say(b); } }

    int rc = 0;
    if (all_viol) {
        std::map<string, int> kinds;
        for (auto &r : bad) { kinds[r.viol[0].kind]++; if (kinds[r.viol[0].kind] <= 4) say("seed " + std::to_string(r.seed) + " " + r.viol[0].kind + ": " + r.viol[0].text + "\n"); }
        for (auto &k : kinds) say(k.first + " x " + std::to_string(k.second) + "\n");
        if (!bad.empty()) rc = 1;
    } else if (!bad.empty()) {
        SeedResult &r = bad[0];
        Scen s;
        string err;
        scen_parse(r.scen, s, err);
        shm_create();
        string kind = r.viol[0].kind;
        std::set<size_t> dummyhit;
        for (auto &v : r.viol) if (!is_known(known, prop, v, dummyhit)) { kind = v.kind; break; }
        Scen m = s;
        minimise(m, kind, now() + 40);
        Verdict v = evaluate(m);
        string tr = trace_text(400);
        if (v.v.empty()) { m = s; v = evaluate(m); tr = trace_text(400); }
        string text = scen_print(m);
        char hb[64];
        snprintf(hb, sizeof hb, "# hash %016llx\n", (unsigned long long) v.hash);
        text += "# property " + prop + ", seed " + std::to_string(r.seed) + "\n";
        text += hb;
        for (auto &x : v.v) text += "# violated: " + x.kind + ": " + x.text + "\n";
        text += "# trace of the minimised execution:\n" + tr;
        string path = g_replay_dir + "/" + prop + "-" + std::to_string(r.seed) + ".replay";
        mkdir(g_replay_dir.c_str(), 0755);
        spit(path, text);
        // the file has to reproduce it in a fresh process
        pid_t pid = fork();
        if (pid == 0) {
            int dn = open("/dev/null", O_WRONLY);
            dup2(dn, 1);
            execl(self_path().c_str(), self_path().c_str(), "--data", g_data.c_str(), "--replay", path.c_str(), (char *) nullptr);
            _exit(2);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        for (auto &x : v.v) say(x.kind + ": " + x.text + "\n");
        if (WIFEXITED(st) && WEXITSTATUS(st) == 1) {
            say("seed " + std::to_string(r.seed) + ", minimised to " + std::to_string(m.nodes.size()) + " nodes, " + std::to_string(m.faults.size() + m.acts.size() + m.sws.size()) + " faults/actions/preemptions\n");
            say("VIOLATION property=" + prop + " replay=" + path + "\n");
            rc = 1;
        } else { saye("the replay file did not reproduce the violation\n"); rc = 2; }
    }
    for (size_t i : hit) say("KNOWN-FINDING: property=" + prop + " " + known[i].what + "\n");
    if (!rc && (tot.nondet || tot.broken > tot.evals / 20)) {
        saye("no decision: " + tot.why + " (" + std::to_string(tot.broken) + " of " + std::to_string(tot.evals) + ")\n" + (tot.nondet ? tot.scen : ""));
        rc = 2;
    }
    if (!rc && !tot.nontrivial) { saye("no decision: no execution did anything\n"); rc = 2; }

    char b[2000];
    string ev = "{\n";
    snprintf(b, sizeof b, " \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"exploration\",\n \"coverage\": {\n", prop.c_str(), g_tier.c_str(), (unsigned long long) vseed);
    ev += b;
    snprintf(b, sizeof b, "  \"evaluations\": %u,\n  \"distinct_nontrivial\": %zu,\n", tot.evals, cls.size());
    ev += b;
    ev += "  \"rule\": \"one evaluation is one generated scenario executed to its end under the simulated kernel and judged; non-trivial means that something was renamed, converted, refused or set up wrongly as the property speaks about; two count as distinct when their sequences of (process, class of call, outcome) differ\",\n";
    snprintf(b, sizeof b, "  \"seeds\": %llu,\n  \"process_executions\": %u,\n  \"seeds_per_hour\": %.0f,\n  \"executions_per_hour\": %.0f,\n  \"simulated_calls\": %llu,\n  \"simulated_seconds\": %.3f,\n  \"discarded_outside_specification\": %u,\n  \"undecided\": %u,\n",
             (unsigned long long) seeds, tot.execs, seeds / wall * 3600, tot.execs / wall * 3600, (unsigned long long) tot.steps, tot.simtime / 1e9, tot.discarded, tot.broken);
    ev += b;
    ev += "  \"faults_injected\": {";
    bool firstk = true;
    for (auto &f : tot.fired) { ev += string(firstk ? "" : ", ") + jesc(f.first) + ": " + std::to_string(f.second); firstk = false; }
    ev += "},\n  \"workloads\": {";
    firstk = true;
    for (auto &f : tot.profile) { ev += string(firstk ? "" : ", ") + jesc(f.first) + ": " + std::to_string(f.second); firstk = false; }
    ev += "},\n  \"real_code\": \"every source file of the detox program as built from /repo/src, the C library (stdio, getopt, locale, opendir/readdir, fopen)\",\n";
    ev += "  \"simulated\": \"kernel: file systems, directory listing, descriptors, standard streams, clock, process kill, power loss, scheduling of processes; other programs; memory allocator (guarded, failing on request)\",\n";
    ev += "  \"determinism\": \"every 50th seed and every violation executed repeatedly with equal execution hash\",\n";
    ev += "  \"samples\": [";
    if (samples.empty() && seeds) samples.push_back("seed " + std::to_string(start));
    for (size_t i = 0; i < samples.size(); i++) ev += string(i ? ", " : "") + jesc(samples[i]);
    ev += "]\n },\n \"assumptions\": [\"the simulated kernel behaves as POSIX and Linux document the calls\", \"the reference model in /verif/sim/model.cc states the documented behaviour\"],\n";
    snprintf(b, sizeof b, " \"wall_s\": %.2f,\n \"violations\": %zu\n}\n", wall, bad.size());
    ev += b;
    if (!g_evidence.empty()) spit(g_evidence, ev);
    snprintf(b, sizeof b, "%s: %llu seeds, %u evaluations (%zu distinct non-trivial), %u discarded, %u undecided%s, %.1f s\n", prop.c_str(), (unsigned long long) seeds, tot.evals, cls.size(), tot.discarded, tot.broken, tot.broken ? (" (" + tot.why.substr(0, 100) + ")").c_str() : "", wall);
    say(b);
    return rc;
}
