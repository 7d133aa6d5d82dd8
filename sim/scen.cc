#include "scen.h"
#include "trap.h"
#include <fcntl.h>
#include <map>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
using namespace sim;
using std::string;

string esc(const string &s)
{
    string o;
    for (unsigned char c : s) {
        if (c <= ' ' || c >= 127 || c == '%' || c == '=') { char b[4]; snprintf(b, sizeof b, "%%%02x", c); o += b; }
        else o += c;
    }
    if (o.empty()) o = "%";
    return o;
}
string unesc(const string &s)
{
    if (s == "%") return "";
    string o;
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i] == '%' && i + 2 < s.size() + 0 && i + 2 <= s.size() - 1) { o += (char) strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
        else o += s[i];
    }
    return o;
}

static const char *const opn[] = {"none", "mk", "mktarget", "mkat", "rm", "rmat", "mv", "rmsource"};

string scen_print(const Scen &s)
{
    string o = "detox-sim 1\n";
    char b[512];
    auto add = [&](const char *k, long long v) { snprintf(b, sizeof b, "%s %lld\n", k, v); o += b; };
    o += "prop " + s.prop + "\nprofile " + esc(s.profile) + "\n";
    add("seed", s.seed);
    add("order", s.order); add("relist", s.relist); add("dtype_unknown", s.dtype_unknown); add("norename2", s.norename2);
    add("batch", s.batch); add("maxsteps", s.maxsteps); add("heap_mode", s.heap_mode); add("heap_fill", s.heap_fill); if (s.variant) add("variant", s.variant);
    for (auto &n : s.nodes) {
        o += string("node ") + n.type + " " + esc(n.path);
        auto kv = [&](const char *k, long long v, long long def) { if (v != def) { snprintf(b, sizeof b, " %s=%lld", k, v); o += b; } };
        kv("mode", n.mode, 0); kv("flags", n.flags, 0); kv("dev", n.dev, 0); kv("ino", n.ino, 0);
        kv("e_stat", n.e_stat, 0); kv("e_open", n.e_open, 0); kv("e_rename", n.e_rename, 0); kv("e_list", n.e_list, 0);
        kv("e_read", n.e_read, 0); kv("list_after", n.list_after, -1); kv("read_at", n.read_at, -1);
        if (n.blob) o += " blob=" + esc(n.data);
        else if (!n.data.empty()) o += " data=" + esc(n.data);
        o += "\n";
    }
    for (auto &p : s.procs) {
        o += "proc";
        auto kv = [&](const char *k, long long v, long long def) { if (v != def) { snprintf(b, sizeof b, " %s=%lld", k, v); o += b; } };
        kv("phase", p.phase, -9);
        kv("in_kind", p.in_kind, 0); kv("out_kind", p.out_kind, 0); kv("in_err_at", p.in_err_at, -1); kv("in_errno", p.in_errno, 0);
        kv("out_cap", p.out_cap, -1); kv("out_errno", p.out_errno, 0); kv("out_transient", p.out_transient, 0);
        kv("err_cap", p.err_cap, -1); kv("err_errno", p.err_errno, 0);
        kv("chunk", p.chunk, 0); kv("wchunk", p.wchunk, 0); kv("nofile", p.nofile, 64); kv("follow", p.follow, 0);
        o += " cwd=" + esc(p.cwd);
        if (!p.in.empty()) o += " in=" + esc(p.in);
        o += "\n";
        for (auto &a : p.argv) o += "  arg " + esc(a) + "\n";
        for (auto &e : p.env) o += "  env " + esc(e) + "\n";
    }
    for (auto &f : s.faults) {
        snprintf(b, sizeof b, "fault proc=%d cls=%s nth=%u err=%d sticky=%d\n", f.proc, cls_name[f.cls], f.nth, f.err, (int) f.sticky);
        o += b;
    }
    for (auto &a : s.acts) {
        snprintf(b, sizeof b, "act proc=%d cls=%s nth=%u when=%d op=%s type=%c", a.proc, cls_name[a.cls], a.nth, a.when, opn[a.op], a.type);
        o += b;
        if (!a.p1.empty()) o += " p1=" + esc(a.p1);
        if (!a.p2.empty()) o += " p2=" + esc(a.p2);
        o += "\n";
    }
    for (auto &w : s.sws) { snprintf(b, sizeof b, "switch step=%llu proc=%u\n", (unsigned long long) w.step, w.proc); o += b; }
    if (s.loss_phase >= 0) { snprintf(b, sizeof b, "loss phase=%d seed=%llu\n", s.loss_phase, (unsigned long long) s.loss_seed); o += b; }
    for (auto &n : s.notes) o += "note " + esc(n.first) + " " + esc(n.second) + "\n";
    return o;
}

static int cls_by(const string &n)
{
    for (int i = 0; i < C_NCLS; i++) if (n == cls_name[i]) return i;
    return 0;
}

bool scen_parse(const string &text, Scen &s, string &err)
{
    s = Scen();
    size_t pos = 0;
    int lineno = 0;
    while (pos < text.size()) {
        size_t e = text.find('\n', pos);
        if (e == string::npos) e = text.size();
        string line = text.substr(pos, e - pos);
        pos = e + 1;
        lineno++;
        std::vector<string> t;
        size_t i = 0;
        while (i < line.size()) {
            while (i < line.size() && line[i] == ' ') i++;
            size_t j = i;
            while (j < line.size() && line[j] != ' ') j++;
            if (j > i) t.push_back(line.substr(i, j - i));
            i = j;
        }
        if (t.empty() || t[0][0] == '#') continue;
        std::map<string, string> kv;
        for (size_t k = 1; k < t.size(); k++) { size_t q = t[k].find('='); if (q != string::npos) kv[t[k].substr(0, q)] = t[k].substr(q + 1); }
        auto num = [&](const char *k, long long def) -> long long { auto it = kv.find(k); return it == kv.end() ? def : atoll(it->second.c_str()); };
        auto str = [&](const char *k) -> string { auto it = kv.find(k); return it == kv.end() ? "" : unesc(it->second); };
        const string &c = t[0];
        auto val = [&]() -> long long { return t.size() > 1 ? strtoll(t[1].c_str(), nullptr, 10) : 0; };
        if (c == "detox-sim") continue;
        else if (c == "prop") s.prop = t.at(1);
        else if (c == "profile") s.profile = t.size() > 1 ? unesc(t[1]) : "";
        else if (c == "seed") s.seed = strtoull(t.at(1).c_str(), nullptr, 10);
        else if (c == "order") s.order = val();
        else if (c == "relist") s.relist = val();
        else if (c == "dtype_unknown") s.dtype_unknown = val();
        else if (c == "norename2") s.norename2 = val();
        else if (c == "batch") s.batch = val();
        else if (c == "maxsteps") s.maxsteps = val();
        else if (c == "heap_mode") s.heap_mode = val();
        else if (c == "heap_fill") s.heap_fill = val();
        else if (c == "variant") s.variant = val();
        else if (c == "node" && t.size() >= 3) {
            Node n;
            n.type = t[1][0];
            n.path = unesc(t[2]);
            n.mode = num("mode", 0); n.flags = num("flags", 0); n.dev = num("dev", 0); n.ino = num("ino", 0);
            n.e_stat = num("e_stat", 0); n.e_open = num("e_open", 0); n.e_rename = num("e_rename", 0); n.e_list = num("e_list", 0);
            n.e_read = num("e_read", 0); n.list_after = num("list_after", -1); n.read_at = num("read_at", -1);
            if (kv.count("blob")) { n.blob = true; n.data = str("blob"); } else n.data = str("data");
            s.nodes.push_back(n);
        } else if (c == "proc") {
            ProcSpec p;
            p.phase = num("phase", 0); p.in_kind = num("in_kind", 0); p.out_kind = num("out_kind", 0); p.in_err_at = num("in_err_at", -1);
            p.in_errno = num("in_errno", 0); p.out_cap = num("out_cap", -1); p.out_errno = num("out_errno", 0); p.out_transient = num("out_transient", 0);
            p.err_cap = num("err_cap", -1); p.err_errno = num("err_errno", 0); p.chunk = num("chunk", 0); p.wchunk = num("wchunk", 0);
            p.nofile = num("nofile", 64); p.follow = num("follow", 0); p.cwd = str("cwd"); p.in = str("in");
            s.procs.push_back(p);
        } else if (c == "arg" && !s.procs.empty() && t.size() > 1) s.procs.back().argv.push_back(unesc(t[1]));
        else if (c == "env" && !s.procs.empty() && t.size() > 1) s.procs.back().env.push_back(unesc(t[1]));
        else if (c == "fault") s.faults.push_back({(int) num("proc", 0), cls_by(kv["cls"]), (uint32_t) num("nth", 0), (int) num("err", 0), num("sticky", 0) != 0});
        else if (c == "act") {
            ActSpec a;
            a.proc = num("proc", 0); a.cls = cls_by(kv["cls"]); a.nth = num("nth", 0); a.when = num("when", 0);
            for (int k = 0; k < 8; k++) if (kv["op"] == opn[k]) a.op = k;
            a.type = kv["type"].empty() ? 'f' : kv["type"][0];
            a.p1 = str("p1"); a.p2 = str("p2");
            s.acts.push_back(a);
        } else if (c == "switch") s.sws.push_back({(uint64_t) num("step", 0), (uint32_t) num("proc", 0)});
        else if (c == "loss") { s.loss_phase = num("phase", 0); s.loss_seed = num("seed", 0); }
        else if (c == "note" && t.size() > 2) s.notes.push_back({unesc(t[1]), unesc(t[2])});
        else { err = "line " + std::to_string(lineno) + ": " + line; return false; }
    }
    return true;
}

// ------------------------------------------------------------------------------------------------ blobs
static std::map<string, string> *blobs;
static string *data_dir;
void load_data(const string &dir)
{
    blobs = new std::map<string, string>;
    data_dir = new string(dir);
}
static bool slurp(const string &p, string &out)
{
    int fd = open(p.c_str(), O_RDONLY);
    if (fd < 0) return false;
    char buf[65536];
    ssize_t n;
    while ((n = read(fd, buf, sizeof buf)) > 0) out.append(buf, n);
    close(fd);
    return n == 0;
}
const string &blob_data(const string &name)
{
    auto it = blobs->find(name);
    if (it == blobs->end()) {
        string v;
        // files of the program that are installed as they are come with the build
        if (name.compare(0, 5, "repo/") == 0) {
            char exe[4096];
            ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
            string d(exe, n > 0 ? n : 0);
            slurp(d.substr(0, d.rfind('/') + 1) + name, v);
        } else slurp(*data_dir + "/" + name, v);
        it = blobs->emplace(name, v).first;
    }
    return it->second;
}
bool have_blob(const string &name) { return !blob_data(name).empty(); }

// ------------------------------------------------------------------------------------------------ set-up
static u8 type_of(char c)
{
    switch (c) {
    case 'd': return T_DIR;
    case 'l': return T_LNK;
    case 'p': return T_FIFO;
    case 's': return T_SOCK;
    case 'c': return T_CHR;
    case 'b': return T_BLK;
    }
    return T_REG;
}

static bool in_tree(const string &p) { return p == "/w" || p.compare(0, 3, "/w/") == 0; }

static u32 mkdirs(const string &path) // returns inode of the directory with that path, created if missing
{
    u32 cur = ROOT;
    size_t i = 1;
    while (i < path.size()) {
        size_t j = path.find('/', i);
        if (j == string::npos) j = path.size();
        if (j > i) {
            u32 d = fs_lookup(cur, path.data() + i, j - i);
            if (!d) {
                u32 in = fs_new_inode(T_DIR, 0755);
                S->inode[in].system = !in_tree(path.substr(0, j));
                d = fs_link(cur, path.data() + i, j - i, in, 0);
            }
            cur = S->dent[d].inode;
            if (S->inode[cur].type != T_DIR) return 0;
        }
        i = j + 1;
    }
    return cur;
}

static bool setup(const Scen &s, string &why)
{
    shm_reset();
    S->seed = mix(s.seed ^ 0xf00d);
    S->order = s.order; S->relist = s.relist; S->dtype_unknown = s.dtype_unknown; S->norename2 = s.norename2;
    S->batch = s.batch; S->maxsteps = s.maxsteps; S->heap_mode = s.heap_mode; S->heap_fill = s.heap_fill; S->variant = s.variant;
    S->inode[ROOT].system = 1;
    u32 w = mkdirs("/w");
    (void) w;
    { // the null device
        u32 dev = mkdirs("/dev");
        u32 in = fs_new_inode(T_CHR, 0666);
        S->inode[in].flags = F_NULLDEV;
        S->inode[in].system = 1;
        S->inode[in].rdev = 0x103;
        fs_link(dev, "null", 4, in, 0);
    }
    for (auto &n : s.nodes) {
        if (n.path.empty() || n.path[0] != '/') { why = "bad path"; return false; }
        size_t sl = n.path.rfind('/');
        string base = n.path.substr(sl + 1), dir = n.path.substr(0, sl);
        u32 d = mkdirs(dir);
        if (!d) { why = "parent is not a directory"; return false; }
        if (base.empty() || base.size() > 255) { why = "bad name"; return false; }
        u32 old = fs_lookup(d, base.data(), base.size());
        u32 in;
        if (n.type == 'h') {
            Res r;
            if (old) { why = "duplicate"; return false; }
            if (fs_walk(ROOT, n.data.c_str(), false, r, true) || !r.inode || S->inode[r.inode].type == T_DIR) continue;
            fs_link(d, base.data(), base.size(), r.inode, 0);
            continue;
        }
        if (old) {
            if (n.path == "/dev/null") { Inode &x = S->inode[S->dent[old].inode]; x.e_open = n.e_open; x.e_stat = n.e_stat; continue; }
            if (n.type != 'd' || S->inode[S->dent[old].inode].type != T_DIR) { why = "duplicate"; return false; }
            in = S->dent[old].inode;
        } else {
            in = fs_new_inode(type_of(n.type), n.mode ? n.mode : n.type == 'd' ? 0755 : 0644);
            S->inode[in].system = !in_tree(n.path);
            fs_link(d, base.data(), base.size(), in, 0);
        }
        Inode &x = S->inode[in];
        if (n.mode) x.mode = n.mode;
        x.flags = n.flags;
        if (n.dev) x.dev = n.dev; else if (!old && n.type != 'd') x.dev = S->inode[d].dev; else if (!old) x.dev = S->inode[d].dev;
        if (n.ino) x.ino = n.ino;
        x.e_stat = n.e_stat; x.e_open = n.e_open; x.e_rename = n.e_rename; x.e_list = n.e_list; x.e_read = n.e_read;
        x.list_err_after = n.list_after; x.read_err_at = n.read_at;
        if (n.type == 'f' || n.type == 'l' || (n.type == 'p' && !n.data.empty())) {
            if (n.blob) { auto &b = blob_data(n.data); fs_set_data(in, b.data(), b.size()); }
            else fs_set_data(in, n.data.data(), n.data.size());
        }
    }
    for (u32 i = 1; i < S->ni; i++) {
        Inode &x = S->inode[i];
        x.orig_type = x.type; x.orig_mode = x.mode; x.origsize = x.size;
        x.origsum = x.system ? 0 : fnv(S->pool + x.off, x.type == T_DIR ? 0 : x.size);
    }
    S->nproc = s.procs.size();
    if (S->nproc > MAXP) { why = "too many processes"; return false; }
    for (u32 i = 0; i < S->nproc; i++) {
        const ProcSpec &q = s.procs[i];
        Proc &p = S->proc[i];
        p.phase = q.phase;
        p.nofile = q.nofile;
        p.exit_code = -1;
        memset((void *) p.fds, 0, sizeof(Fd) * MAXFD);
        p.fds[0].kind = K_STDIN; p.fds[1].kind = K_OUT; p.fds[2].kind = K_ERR;
        p.fds[1].flags = p.fds[2].flags = 1;
        p.in_off = pool_str(q.in.data(), q.in.size()); p.in_len = q.in.size();
        p.in_kind = q.in_kind; p.out_kind = q.out_kind; p.in_err_at = q.in_err_at; p.in_errno = q.in_errno ? q.in_errno : EIO;
        p.out_cap = q.out_cap; p.out_errno = q.out_cap >= 0 ? (q.out_errno ? q.out_errno : ENOSPC) : 0; p.out_transient = q.out_transient;
        p.err_cap = q.err_cap; p.err_errno = q.err_cap >= 0 ? (q.err_errno ? q.err_errno : EIO) : 0;
        p.chunk = q.chunk; p.wchunk = q.wchunk; p.umask_ = 022;
    }
    if (s.faults.size() > MAXFAULT || s.acts.size() > MAXACT || s.sws.size() > MAXSW) { why = "too many faults"; return false; }
    for (auto &f : s.faults) S->fault[S->nfault++] = {(u8) f.proc, (u8) f.cls, f.nth, f.err, (u8) f.sticky, 0};
    for (auto &a : s.acts) {
        Action &x = S->act[S->nact++];
        memset(&x, 0, sizeof x);
        x.proc = a.proc; x.cls = a.cls; x.nth = a.nth; x.when = a.when; x.op = a.op; x.type = type_of(a.type);
        if (!a.p1.empty()) { x.p1 = pool_str(a.p1.data(), a.p1.size()); x.p1len = a.p1.size(); }
        if (!a.p2.empty()) { x.p2 = pool_str(a.p2.data(), a.p2.size()); x.p2len = a.p2.size(); }
    }
    for (auto &w2 : s.sws) S->sw[S->nsw++] = {w2.step, w2.proc, 0};
    return !S->harness_err;
}

string dname(u32 d) { Dentry &e = S->dent[d]; return string(S->pool + e.name, e.len); }
string doname(u32 d) { Dentry &e = S->dent[d]; return string(S->pool + e.oname, e.olen); }
string dpath(u32 d)
{
    string p;
    while (d) { p = "/" + dname(d) + p; u32 par = S->dent[d].parent; d = par == ROOT ? 0 : S->inode[par].selfd; }
    return p;
}
string dopath(u32 d)
{
    string p;
    while (d) { p = "/" + doname(d) + p; u32 par = S->dent[d].oparent; d = par == ROOT ? 0 : S->inode[par].selfd; }
    return p;
}
string S_out(int p) { return string(S->out[p], S->proc[p].outlen); }
string S_err(int p) { return string(S->err[p], S->proc[p].errlen); }

u64 tree_hash()
{
    u64 h = 7;
    for (u32 d = 1; d < S->nd; d++) {
        Dentry &e = S->dent[d];
        h = mix(h ^ e.live ^ ((u64) e.parent << 8) ^ ((u64) e.inode << 32));
        h = fnv(S->pool + e.name, e.len, h);
    }
    for (u32 i = 1; i < S->ni; i++) { Inode &n = S->inode[i]; h = mix(h ^ n.nlink ^ ((u64) n.mode << 8) ^ (n.size << 24)); }
    return h;
}

// path of an argument as it has to be given after renames: component by component, original names replaced by current
static string follow_arg(const string &a, u32 cwd)
{
    string out = a[0] == '/' ? "/" : "";
    u32 cur = a[0] == '/' ? ROOT : cwd;
    size_t i = 0;
    bool first = true;
    while (i < a.size()) {
        while (i < a.size() && a[i] == '/') i++;
        size_t j = a.find('/', i);
        if (j == string::npos) j = a.size();
        if (j == i) break;
        string c = a.substr(i, j - i), nc = c;
        if (c != "." && c != "..") {
            u32 d = fs_lookup(cur, c.data(), c.size());
            u32 orig = 0;
            for (u32 k = 1; k < S->nd; k++)
                if (S->dent[k].live && S->dent[k].parent == cur && S->dent[k].olen == c.size() && !memcmp(S->pool + S->dent[k].oname, c.data(), c.size())) orig = k;
            if (orig) d = orig;
            if (d) { nc = dname(d); if (S->inode[S->dent[d].inode].type == T_DIR) cur = S->dent[d].inode; }
        } else if (c == ".." && cur != ROOT) cur = S->dent[S->inode[cur].selfd].parent;
        if (!first) out += "/";
        first = false;
        out += nc;
        i = j;
    }
    if (a.size() > 1 && a.back() == '/') out += "/";
    return out;
}

static RunResult run_once(const Scen &s)
{
    RunResult rr;
    if (!setup(s, rr.why)) { rr.harness_error = true; return rr; }
    int maxphase = 0;
    for (auto &p : s.procs) if (p.phase > maxphase) maxphase = p.phase;
    u32 ev0 = 0;
    for (int ph = 0; ph <= maxphase; ph++) {
        S->phase = ph;
        u32 procs[MAXP], n = 0;
        char **argvs[MAXP], **envs[MAXP];
        int argcs[MAXP];
        std::vector<std::vector<string>> hold;
        hold.reserve(MAXP * 2);
        std::vector<std::vector<char *>> ptrs;
        ptrs.reserve(MAXP * 2);
        for (u32 i = 0; i < S->nproc; i++) {
            const ProcSpec &q = s.procs[i];
            if (q.phase != ph) continue;
            Res r;
            string cwd = q.follow ? follow_arg(q.cwd, ROOT) : q.cwd;
            if (fs_walk(ROOT, cwd.c_str(), true, r, true) || !r.inode || S->inode[r.inode].type != T_DIR) { rr.harness_error = true; rr.why = "cwd"; return rr; }
            S->proc[i].cwd = r.inode;
            hold.push_back(q.argv);
            if (q.follow) {
                bool opts = true;
                for (size_t k = 1; k < hold.back().size(); k++) {
                    string &a = hold.back()[k];
                    if (opts && a == "--") { opts = false; continue; }
                    if (opts && a.size() > 1 && a[0] == '-') { if (a[1] != '-' && a.find_first_of("sf") == a.size() - 1) k++; continue; }
                    if (!a.empty()) a = follow_arg(a, r.inode);
                    if (opts && a[0] == '-') a = "./" + a;
                }
            }
            std::vector<char *> v;
            for (auto &x : hold.back()) v.push_back((char *) x.c_str());
            argcs[n] = v.size();
            v.push_back(nullptr);
            ptrs.push_back(v);
            argvs[n] = ptrs.back().data();
            hold.push_back(q.env);
            v.clear();
            for (auto &x : hold.back()) v.push_back((char *) x.c_str());
            v.push_back(nullptr);
            ptrs.push_back(v);
            envs[n] = ptrs.back().data();
            procs[n++] = i;
        }
        if (n) run_phase(procs, n, argvs, argcs, envs);
        if (s.loss_phase == ph) {
            // every directory forgets a suffix of the renames made in it since the phase began
            std::vector<u32> ren;
            for (u32 k = ev0; k < S->nev; k++) if (S->ev[k].kind != 1 && S->ev[k].cls == C_RENAME && S->ev[k].res == 0 && S->ev[k].dir == S->ev[k].dir2) ren.push_back(k);
            std::map<u32, std::vector<u32>> by;
            for (u32 k : ren) by[S->ev[k].dir].push_back(k);
            for (auto &kv : by) {
                u64 h = mix(s.loss_seed ^ kv.first);
                u32 keep = (h & 3) == 0 ? kv.second.size() : (h >> 8) % (kv.second.size() + 1);
                for (size_t k = kv.second.size(); k-- > keep;) fs_undo_rename(S->ev[kv.second[k]]);
            }
        }
        ev0 = S->nev;
    }
    u64 h = 1;
    for (u32 i = 0; i < S->nev; i++) {
        Event &e = S->ev[i];
        h = mix(h ^ ((u64) e.proc << 56) ^ ((u64) e.cls << 48) ^ ((u64) e.kind << 40) ^ (u64) e.res ^ ((u64) e.inode << 20) ^ ((u64) e.nr << 10));
        if (e.p1) h = fnv(S->pool + e.p1, strlen(S->pool + e.p1), h);
        if (e.p2) h = fnv(S->pool + e.p2, strlen(S->pool + e.p2), h);
    }
    for (u32 i = 0; i < S->nproc; i++) {
        Proc &p = S->proc[i];
        h = mix(h ^ p.exit_code ^ ((u64) p.sig << 16) ^ ((u64) p.crashed << 32) ^ ((u64) p.hang << 33) ^ ((u64) p.heap_err << 40));
        h = fnv(S->out[i], p.outlen, h);
        h = fnv(S->err[i], p.errlen, h);
    }
    h = mix(h ^ tree_hash());
    rr.hash = h;
    bool over = false, hang = false;
    for (u32 i = 0; i < S->nproc; i++) { over |= S->proc[i].overflow; hang |= S->proc[i].hang; }
    if (over && !hang) S->harness_err = 4;
    if (S->harness_err || S->ev_overflow) { rr.harness_error = true; rr.why = "resource limit of the simulator " + std::to_string(S->harness_err); }
    return rr;
}

RunResult run_scen(const Scen &s)
{
    static bool endless = false; // seen for certain in this process: later ones need no second look
    RunResult r = run_once(s);
    bool slow = false;
    for (u32 i = 0; i < S->nproc; i++) slow |= S->proc[i].hang == 2;
    if (!slow || endless) return r;
    cpu_limit = 60; // a long computation is not an endless one
    r = run_once(s);
    cpu_limit = 8;
    for (u32 i = 0; i < S->nproc; i++) endless |= S->proc[i].hang == 2;
    return r;
}
