#include "oracle.h"
#include <algorithm>
#include <functional>
#include <stdio.h>
#include <unordered_map>
using namespace sim;
using std::string;
using std::vector;

namespace {

string fold(const string &n) { string o = n; for (char &c : o) if (c >= 'A' && c <= 'Z') c += 32; return o; }
string base_of(const string &p) { size_t e = p.size(); while (e > 1 && p[e - 1] == '/') e--; size_t k = p.rfind('/', e - 1); return k == string::npos || e == 0 ? p.substr(0, e) : p.substr(k + 1, e - k - 1); }
string dir_of(const string &p) { size_t e = p.size(); while (e > 1 && p[e - 1] == '/') e--; size_t k = p.rfind('/', e - 1); return k == string::npos ? "." : k == 0 ? "/" : p.substr(0, k); }
string show(const string &s) { return esc(s.size() > 300 ? s.substr(0, 300) + "..." : s); }

vector<string> lines_of(const string &s)
{
    vector<string> v;
    size_t i = 0;
    while (i < s.size()) { size_t j = s.find('\n', i); if (j == string::npos) j = s.size(); v.push_back(s.substr(i, j - i)); i = j + 1; }
    return v;
}

// The tree as it was at some moment of the execution, rebuilt from the initial tree and the recorded events.
struct View {
    vector<u32> parent; vector<string> nm; vector<char> live;
    std::unordered_map<string, u32> idx;
    vector<vector<u32>> kids;
    vector<u32> self;
    string key(u32 dir, const string &n) const { string k((const char *) &dir, 4); k += (S->inode[dir].flags & F_CASEFOLD) ? fold(n) : n; return k; }
    void put(u32 d, u32 dir, const string &n)
    {
        parent[d] = dir; nm[d] = n; live[d] = 1;
        idx[key(dir, n)] = d;
        kids[dir].push_back(d);
    }
    void drop(u32 d)
    {
        if (!live[d]) return;
        auto it = idx.find(key(parent[d], nm[d]));
        if (it != idx.end() && it->second == d) idx.erase(it);
        auto &k = kids[parent[d]];
        k.erase(std::remove(k.begin(), k.end(), d), k.end());
        live[d] = 0;
    }
    View()
    {
        parent.assign(S->nd, 0); nm.assign(S->nd, ""); live.assign(S->nd, 0); kids.resize(S->ni); self.assign(S->ni, 0);
        for (u32 d = 1; d < S->nd; d++) {
            Dentry &e = S->dent[d];
            if (S->inode[e.inode].type == T_DIR) self[e.inode] = d;
            if ((e.by & 0x1f) == 0) put(d, e.iparent, string(S->pool + e.iname, e.ilen));
        }
    }
    u32 find(u32 dir, const string &n) const { auto it = idx.find(key(dir, n)); return it == idx.end() ? 0 : it->second; }
    u32 dirparent(u32 in) const { return in == ROOT ? ROOT : parent[self[in]]; }
    struct R { bool ok = false; u32 dir = 0, dent = 0, inode = 0; bool dots = false, trail = false; string last; };
    R walk(u32 cwd, string p, bool follow) const
    {
        R r;
        if (p.empty()) return r;
        u32 cur = p[0] == '/' ? ROOT : cwd;
        int links = 0;
        size_t i = 0;
        for (;;) {
            while (i < p.size() && p[i] == '/') i++;
            if (i >= p.size()) { r.ok = true; r.inode = cur; r.dots = true; r.dent = 0; r.dir = dirparent(cur); return r; }
            size_t j = p.find('/', i);
            if (j == string::npos) j = p.size();
            string c = p.substr(i, j - i);
            size_t q = j;
            while (q < p.size() && p[q] == '/') q++;
            bool last = q >= p.size(), trail = last && j < p.size();
            if (S->inode[cur].type != T_DIR) return r;
            if (c == ".") { if (last) { r.ok = true; r.inode = cur; r.dots = true; r.dir = dirparent(cur); return r; } i = q; continue; }
            if (c == "..") { cur = dirparent(cur); if (last) { r.ok = true; r.inode = cur; r.dots = true; r.dir = dirparent(cur); return r; } i = q; continue; }
            u32 d = find(cur, c);
            if (last) { r.dir = cur; r.last = c; r.trail = trail; r.dent = d; }
            if (!d) return r;
            u32 in = S->dent[d].inode;
            if (S->inode[in].type == T_LNK && (!last || follow || trail)) {
                if (++links > 40) { r.dent = 0; return r; }
                string t(S->pool + S->inode[in].off, S->inode[in].size);
                if (t.empty()) { r.dent = 0; return r; }
                p = t + p.substr(j);
                i = 0;
                if (p[0] == '/') cur = ROOT;
                r = R();
                continue;
            }
            if (last) { if (trail && S->inode[in].type != T_DIR) { r.dent = 0; return r; } r.ok = true; r.inode = in; return r; }
            if (S->inode[in].type != T_DIR) return r;
            cur = in;
            i = q;
        }
    }
    // applies an event; returns the entry that changed, 0 if none
    u32 apply(const Event &e)
    {
        if (e.kind == 1) {
            if (e.res || !e.dent) return 0;
            switch (e.nr) {
            case A_RM: case A_RMSOURCE: drop(e.dent); return e.dent;
            case A_MV: drop(e.dent); put(e.dent, e.dir, pstr(e.n1)); return e.dent;
            default: put(e.dent, e.dir, pstr(e.n1)); return e.dent;
            }
        }
        if (e.kind == 4) { drop(e.dent); put(e.dent, e.dir, pstr(e.n1)); return e.dent; }
        if (e.kind || e.res < 0) return 0;
        if (e.cls == C_RENAME && e.dent) {
            if (e.over && S->dent[e.over].inode == S->dent[e.dent].inode) return 0; // two links to one object: no change
            if (e.over) drop(e.over);
            drop(e.dent);
            put(e.dent, e.dir2, pstr(e.n2));
            return e.dent;
        }
        if ((e.cls == C_OPEN || e.cls == C_OPENDIR) && (e.aux & 1) && e.dent) { put(e.dent, e.dir, base_of(pstr(e.p1))); return e.dent; }
        return 0;
    }
};

bool is_ren(const Event &e) { return e.kind == 0 && e.cls == C_RENAME; }
bool did_ren(const Event &e) { return is_ren(e) && e.res == 0 && !(e.over && S->dent[e.over].inode == S->dent[e.dent].inode); }
bool changes(const Event &e) { return e.kind == 1 || e.kind == 4 || (e.kind == 0 && e.res >= 0 && e.injected != 3 && (e.cls == C_RENAME || ((e.cls == C_OPEN) && (e.aux & 1)))); }

string ev_text(const Event &e)
{
    char b[256];
    if (e.kind == 1) {
        static const char *const an[] = {"none", "create", "create-at-target", "create-beside", "remove", "remove", "move", "remove-source"};
        snprintf(b, sizeof b, "step %llu p%d OTHER PROGRAM %s -> %s ", (unsigned long long) e.step, e.proc, an[e.nr & 7], e.res ? "nothing to do" : "done");
        return b + (e.dent ? "name=" + show(pstr(e.n1)) : string());
    }
    if (e.kind == 3) { snprintf(b, sizeof b, "step %llu p%d ALLOCATION %u of class %s FAILS", (unsigned long long) e.step, e.proc, e.nth, cls_name[e.cls]); return b; }
    if (e.kind == 4) return "POWER LOSS undoes a rename: back to " + show(pstr(e.n1));
    snprintf(b, sizeof b, "step %llu p%d %s#%u (nr %d) = %lld%s", (unsigned long long) e.step, e.proc, cls_name[e.cls], e.nth, e.nr, (long long) e.res, e.kind == 2 ? " KILLED" : e.injected ? " INJECTED" : "");
    string s = b;
    if (e.p1) s += " " + show(pstr(e.p1));
    if (e.p2) s += " => " + show(pstr(e.p2));
    return s;
}

// What a process is asked to work on.
struct Sel {
    const Plan *plan; u32 cwd;
    vector<u64> dirm, entm;
    std::set<string> ign;
    Sel(const Plan &p, u32 c) : plan(&p), cwd(c), dirm(S->ni, 0), entm(S->nd, 0), ign(p.cfg.ignore.begin(), p.cfg.ignore.end()) {}
    bool ignored(const string &n) const { return n[0] == '.' || ign.count(n); }
    bool okdir(u32 in) const { return !S->inode[in].system || in == ROOT; }
    void consider(const View &v, u32 d, u64 m)
    {
        if (ignored(v.nm[d])) return;
        u32 in = S->dent[d].inode;
        u8 t = S->inode[in].type;
        if (t == T_DIR) { entm[d] |= m; if (plan->o.rec) add_dir(v, in, m); }
        else if (t == T_REG || plan->o.special) entm[d] |= m;
    }
    void add_dir(const View &v, u32 in, u64 m)
    {
        if ((dirm[in] & m) == m) return;
        dirm[in] |= m;
        vector<u32> k = v.kids[in];
        for (u32 d : k) consider(v, d, m);
    }
    void args(const View &v)
    {
        for (size_t i = 0; i < plan->o.files.size(); i++) {
            u64 m = 1ull << (i < 63 ? i : 63);
            View::R r = v.walk(cwd, plan->o.files[i], false);
            if (!r.ok) continue;
            u8 t = S->inode[r.inode].type;
            if (r.dent && !r.dots && !r.trail && (t == T_REG || t == T_DIR || plan->o.special)) entm[r.dent] |= m;
            if (t == T_DIR) add_dir(v, r.inode, m);
        }
    }
    void changed(const View &v, u32 d)
    {
        if (v.live[d] && dirm[v.parent[d]]) consider(v, d, dirm[v.parent[d]]);
        args(v);
    }
};

struct Ctx {
    const Scen &s;
    Verdict &V;
    vector<Plan> plans;
    Ctx(const Scen &s_, Verdict &v_) : s(s_), V(v_) { for (auto &p : s.procs) plans.push_back(m_plan(s, p)); }
    void viol(const string &kind, const string &text) { if (V.v.size() < 8) V.v.push_back({kind, text}); }
    std::unordered_map<string, string> memo;
    const string &SN(const Plan &p, const string &n)
    {
        string k((const char *) &p.seq, sizeof p.seq);
        k += n;
        auto it = memo.find(k);
        if (it == memo.end()) it = memo.emplace(k, m_apply(p.cfg.seqs[p.seq], n)).first;
        return it->second;
    }
    bool any_actor() const { for (u32 i = 0; i < S->nev; i++) if (S->ev[i].kind == 1 && S->ev[i].res == 0) return true; return false; }
    bool any_mv() const { for (u32 i = 0; i < S->nev; i++) if (S->ev[i].kind == 1 && S->ev[i].res == 0 && S->ev[i].nr == A_MV) return true; return false; }

    bool stable_names(View &t0, Sel &sel, const Plan &pl);
    void c01(); void c02(); void c03(); void c04(); void c05(); void c06(); void c07(); void c08(); void c09(); void c10();
    void c12(bool errs); void c14(); void c15(); void c17(); void c18(); void c22(); void c23();
    void content(const char *prop);
};

bool valid_name(const string &m) { return !m.empty() && m != "." && m != ".." && m.find('/') == string::npos && m.size() <= 255; }

// contents, types and metadata of all objects that were there at the start
void Ctx::content(const char *prop)
{
    for (u32 i = 1; i < S->ni; i++) {
        Inode &n = S->inode[i];
        if (n.by > 1) continue;
        if (n.system) continue;
        if (n.type != n.orig_type || n.mode != n.orig_mode || n.uid == 4242 || n.uid == 4243) viol(string(prop) + ".metadata", "type, mode or owner of inode " + std::to_string(n.ino) + " changed");
        if (n.type != T_DIR && (n.size != n.origsize || fnv(S->pool + n.off, n.size) != n.origsum)) viol(string(prop) + ".content", "content of inode " + std::to_string(n.ino) + " changed");
    }
}

void Ctx::c01()
{
    for (u32 d = 1; d < S->nd; d++) {
        Dentry &e = S->dent[d];
        if ((e.by & 0x1f) > 1) continue;
        string iname(S->pool + e.iname, e.ilen);
        if (e.inode != e.oinode) viol("C01.object", show(iname) + " now refers to another object");
        if (e.live) {
            if (e.parent != e.oparent) viol("C01.moved", show(doname(d)) + " is no longer in its directory but at " + show(dpath(d)));
            continue;
        }
        if (e.by & 0x40) continue;
        viol("C01.lost", (e.by & 0x1f ? "entry created by another program: " : "entry: ") + show(doname(d)) + " (was in directory of inode " + std::to_string(S->inode[e.oparent].ino) + ") is gone");
    }
    content("C01");
}

void Ctx::c02()
{
    for (u32 i = 0; i < S->nev; i++) {
        Event &e = S->ev[i];
        if (e.kind) continue;
        if (e.cls == C_MUTATE && e.res >= 0) viol("C02.mutation", ev_text(e));
        if ((e.cls == C_OPEN || e.cls == C_OPENDIR) && (e.aux & 7)) viol("C02.write-open", ev_text(e));
        if (is_ren(e) && e.res == 0 && e.dir != e.dir2) viol("C02.moved", ev_text(e));
        if (is_ren(e) && e.res == 0 && e.over && e.over != e.dent) viol("C02.replaced", ev_text(e));
    }
    for (u32 d = 1; d < S->nd; d++) if ((S->dent[d].by & 0x1f) >= 2) viol("C02.created", show(dpath(d)));
    content("C02");
}

void Ctx::c03()
{
    View v;
    bool mv = any_mv();
    vector<Sel> sel;
    for (size_t p = 0; p < plans.size(); p++) { sel.emplace_back(plans[p], S->proc[p].cwd); if (plans[p].will_work) sel[p].args(v); }
    auto norm = [&](const string &path) { string o; for (char c : path) if (!(c == '/' && !o.empty() && o.back() == '/')) o += c; while (o.compare(0, 2, "./") == 0) o = o.substr(2); while (o.size() > 1 && o.back() == '/') o.pop_back(); return o; };
    for (u32 i = 0; i < S->nev; i++) {
        Event &e = S->ev[i];
        if (did_ren(e)) {
            Sel &s2 = sel[e.proc];
            const Plan &pl = *s2.plan;
            if (!pl.will_work || pl.o.inl || pl.o.list) viol("C03.nothing-selected", ev_text(e));
            else {
                u8 t = S->inode[e.inode].type;
                string n1 = pstr(e.n1);
                bool isarg = false;
                for (auto &a : pl.o.files) if (norm(a) == norm(pstr(e.p1))) isarg = true;
                if (S->inode[e.inode].system) viol("C03.outside", ev_text(e));
                if (t != T_REG && t != T_DIR && !pl.o.special) viol("C03.special", "not a regular file or directory: " + ev_text(e));
                else if (S->inode[e.inode].e_stat && S->dtype_unknown) viol("C03.type-unknown", ev_text(e));
                else if (!s2.entm[e.dent] && !isarg) {
                    // other programs move things about: then only the rule for names can be checked
                    if (!mv) viol("C03.not-selected", ev_text(e));
                    else if (s2.ignored(n1)) viol("C03.ignored", ev_text(e));
                }
            }
        }
        if (changes(e)) { u32 d = v.apply(e); if (d) for (auto &x : sel) if (x.plan->will_work) x.changed(v, d); }
    }
}

void Ctx::c04()
{
    for (u32 i = 0; i < S->nev; i++) {
        Event &e = S->ev[i];
        if (!did_ren(e)) continue;
        const Plan &pl = plans[e.proc];
        if (!pl.will_work) continue;
        string n1 = pstr(e.n1), n2 = pstr(e.n2);
        const string &want = SN(pl, n1);
        if (n2 != want) viol("C04.name", show(n1) + " became " + show(n2) + " instead of " + show(want) + " (sequence " + show(pl.cfg.seqs[pl.seq].name) + ")");
    }
}

// Reasons that excuse an entry from having been renamed.
struct Excuse {
    vector<char> ent;       // the entry itself failed
    vector<char> below;     // by inode: everything in that directory
    vector<std::set<string>> names; // by inode: names that could not be examined
    Excuse(int proc) : ent(S->nd, 0), below(S->ni, 0), names(S->ni)
    {
        for (u32 i = 0; i < S->nev; i++) {
            Event &e = S->ev[i];
            if (e.kind == 1 && e.res == 0 && e.dent) { ent[e.dent] = 1; if (S->inode[e.inode].type == T_DIR) below[e.inode] = 1; continue; }
            if (e.kind || e.res >= 0) continue;
            if (proc >= 0 && e.proc != proc) continue;
            if (e.cls == C_RENAME && e.dent) { ent[e.dent] = 1; if (S->inode[e.inode].type == T_DIR && e.res == -ENOENT) below[e.inode] = 1; continue; }
            if (!e.injected && e.res != -EACCES) continue;
            if (e.dent && e.p1) ent[e.dent] = 1;
            if (e.inode && S->inode[e.inode].type == T_DIR) below[e.inode] = 1;
            if (e.dir && e.p1 && !e.inode) names[e.dir].insert(base_of(pstr(e.p1)));
            else if (e.dir && e.p1 && e.dent) names[e.dir].insert(base_of(pstr(e.p1)));
        }
        for (u32 i = 1; i < S->ni; i++) { Inode &n = S->inode[i]; if (n.type == T_DIR && (n.flags & (F_DENY_R | F_DENY_X) || n.e_open || n.e_stat || n.e_list)) below[i] = 1; }
    }
    bool anc(const View &v, u32 d) const // anything above the entry
    {
        for (u32 p = v.parent[d]; p != ROOT; p = v.parent[v.self[p]]) if (below[p]) return true;
        return false;
    }
};

// directory contents over time: every name an entry of a directory ever had
struct Names {
    std::unordered_map<string, vector<u32>> m;
    void add(const View &v, u32 d) { auto &x = m[v.key(v.parent[d], v.nm[d])]; if (std::find(x.begin(), x.end(), d) == x.end()) x.push_back(d); }
    bool other(const View &v, u32 dir, const string &n, u32 me_) const { auto it = m.find(v.key(dir, n)); if (it == m.end()) return false; for (u32 x : it->second) if (x != me_) return true; return false; }
};

void Ctx::c05()
{
    const Plan &pl = plans[0];
    if (!pl.will_work || pl.o.inl || pl.o.dry || pl.o.list) return;
    if (S->proc[0].crashed) return;
    for (u32 i = 0; i < S->nev; i++) if (S->ev[i].injected && S->ev[i].res == -EMFILE) { V.discard = true; return; }
    View t0;
    Sel sel(pl, S->proc[0].cwd);
    sel.args(t0);
    Excuse ex(0);
    Names nm;
    View v;
    for (u32 d = 1; d < S->nd; d++) if (v.live[d]) nm.add(v, d);
    for (u32 i = 0; i < S->nev; i++) if (changes(S->ev[i])) { u32 d = v.apply(S->ev[i]); if (d && v.live[d]) nm.add(v, d); }
    for (u32 d = 1; d < S->nd; d++) {
        if (!t0.live[d] || !sel.entm[d]) continue;
        Dentry &e = S->dent[d];
        string n = t0.nm[d], want = SN(pl, n);
        if (want == n || !valid_name(want) || e.nren) continue;
        V.nontrivial = true;
        Inode &in = S->inode[e.inode];
        if (in.e_stat || in.e_rename || (in.flags & F_MOUNT) || (S->inode[t0.parent[d]].flags & F_DENY_W)) continue;
        if (ex.ent[d] || ex.anc(t0, d) || ex.names[t0.parent[d]].count(want) || ex.names[t0.parent[d]].count(n)) continue;
        if (nm.other(t0, t0.parent[d], want, d)) continue;
        if ((S->inode[t0.parent[d]].flags & F_CASEFOLD) && fold(n) == fold(want) && in.nlink > 1) continue;
        size_t plen = 0;
        for (u32 p = t0.parent[d]; p != ROOT; p = t0.parent[t0.self[p]]) plen += 256;
        (void) plen;
        if (dpath(d).size() > 3700) continue;
        viol("C05.not-renamed", show(dopath(d)) + " should have become " + show(want) + (S->proc[0].sig ? " (the run ended with signal " + std::to_string(S->proc[0].sig) + ")" : S->proc[0].hang ? " (the run did not end)" : " (exit status " + std::to_string(S->proc[0].exit_code) + ")"));
    }
}

void Ctx::c06()
{
    for (u32 p = 0; p < S->nproc; p++) {
        if (S->proc[p].hang) { viol("C06.endless", "the run did not end: " + std::to_string(S->proc[p].nsys) + " calls"); return; }
        u64 calls = S->proc[p].nsys - S->proc[p].ncls[C_READ] - S->proc[p].ncls[C_WRITE];
        u64 n = 0;
        for (u32 d = 1; d < S->nd; d++) if (!S->inode[S->dent[d].inode].system) n++;
        u64 bound = 24 * (n + 2) * (1 + (plans[p].o.files.size() > 1 ? plans[p].o.files.size() : 0)) + 600;
        if (calls > bound) viol("C06.steps", std::to_string(calls) + " calls for " + std::to_string(n) + " entries");
    }
    if (any_mv() || S->nproc > 1) return;
    const Plan &pl = plans[0];
    if (!pl.will_work) return;
    View v;
    Sel sel(pl, S->proc[0].cwd);
    sel.args(v);
    vector<u32> cnt(S->nd, 0), last(S->nd, 0);
    u32 removed = 0; // a name that becomes free can be taken by an entry and then be visited as the one it replaced
    for (u32 i = 0; i < S->nev; i++) if (S->ev[i].kind == 1 && S->ev[i].res == 0 && (S->ev[i].nr == A_RM || S->ev[i].nr == A_RMSOURCE)) removed++;
    for (u32 i = 0; i < S->nev; i++) {
        Event &e = S->ev[i];
        if (did_ren(e) && e.proc == 0) { cnt[e.dent]++; last[e.dent] = i; }
        if (changes(e)) { u32 d = v.apply(e); if (d) sel.changed(v, d); }
    }
    for (u32 d = 1; d < S->nd; d++) {
        if (!cnt[d]) continue;
        u32 visits = __builtin_popcountll(sel.entm[d]);
        if (pl.o.files.size() > 63) visits = std::max<u32>(visits, pl.o.files.size());
        if (visits < 1) visits = 1;
        visits += removed;
        if (cnt[d] > visits) viol("C06.again", show(dopath(d)) + " was renamed " + std::to_string(cnt[d]) + " times, finally to " + show(dname(d)) + ", but visited at most " + std::to_string(visits) + " times");
    }
}

void Ctx::c07()
{
    for (u32 i = 0; i < S->nev; i++) {
        Event &e = S->ev[i];
        if (e.kind) continue;
        const Plan &pl = plans[e.proc];
        bool still = pl.o.dry || pl.o.inl || pl.o.list || pl.o.early != E_NONE;
        if (!still) continue;
        if (e.cls == C_MUTATE || e.cls == C_RENAME) viol("C07.attempt", ev_text(e));
        if ((e.cls == C_OPEN || e.cls == C_OPENDIR) && (e.aux & 7)) viol("C07.write-open", ev_text(e));
    }
    for (u32 d = 1; d < S->nd; d++) if (S->dent[d].nren || (S->dent[d].by & 0x1f) >= 2 || (S->dent[d].by & 0x80)) { bool all = true; for (auto &pl : plans) if (!(pl.o.dry || pl.o.inl || pl.o.list || pl.o.early != E_NONE)) all = false; if (all) viol("C07.changed", show(dpath(d))); }
    content("C07");
    V.nontrivial = true;
}

// the sequence has to leave the clean names of the selected entries alone
bool Ctx::stable_names(View &t0, Sel &sel, const Plan &pl)
{
    for (u32 d = 1; d < S->nd; d++) {
        if (!t0.live[d] || !sel.entm[d]) continue;
        string want = SN(pl, t0.nm[d]);
        if (!valid_name(want) || SN(pl, want) == want) continue;
        V.discard = true;
        V.why = "the sequence changes names that it made";
        return false;
    }
    return true;
}

void Ctx::c08()
{
    const Plan &pl = plans[0];
    if (!pl.will_work || pl.o.inl || pl.o.dry) return;
    View t0, v;
    Sel sel(pl, S->proc[0].cwd);
    sel.args(t0);
    if (!stable_names(t0, sel, pl)) return;
    auto names_ok = [&](const char *when) {
        for (u32 d = 1; d < S->nd; d++) {
            if ((S->dent[d].by & 0x1f)) continue;
            if (!v.live[d]) { viol("C08.lost", show(dopath(d)) + " is gone " + when); continue; }
            if (v.parent[d] != t0.parent[d]) { viol("C08.moved", show(dopath(d)) + " changed its directory " + when); continue; }
            if (v.nm[d] == t0.nm[d]) continue;
            if (!sel.entm[d] || v.nm[d] != SN(pl, t0.nm[d])) viol("C08.third-name", show(t0.nm[d]) + " is called " + show(v.nm[d]) + " " + when);
        }
    };
    u32 i = 0;
    auto run = [&](int ph) { for (; i < S->nev && (S->ev[i].kind == 4 || (int) S->proc[S->ev[i].proc].phase <= ph); i++) if (changes(S->ev[i])) v.apply(S->ev[i]); };
    u32 last = S->nproc > 2 ? S->nproc - 2 : 1; // the run that is to complete the work
    for (u32 ph = 0; ph < last; ph++) {
        run(ph);
        names_ok(ph ? "after another interruption" : "after the interruption");
    }
    run(last);
    names_ok("after the repeated run");
    if (S->nproc > last && !S->proc[last].crashed) for (u32 d = 1; d < S->nd; d++) {
        if (!t0.live[d] || !sel.entm[d]) continue;
        string n = t0.nm[d], want = SN(pl, n);
        if (n == want || !valid_name(want) || v.nm[d] == want) continue;
        u32 o = v.find(v.parent[d], want);
        if (o && o != d) continue;
        if ((S->inode[v.parent[d]].flags & F_CASEFOLD) && fold(n) == fold(want) && S->inode[S->dent[d].inode].nlink > 1) continue;
        bool hidden = false; // below a directory whose clean name is one that scanning leaves alone
        for (u32 p = v.parent[d]; p != ROOT; p = v.parent[v.self[p]]) if (sel.ignored(v.nm[v.self[p]])) hidden = true;
        if (hidden) continue;
        if (dpath(d).size() > 3700) continue;
        viol("C08.incomplete", show(dopath(d)) + " is still called " + show(v.nm[d]) + " after the repeated run, should be " + show(want));
    }
    for (; i < S->nev; i++) if (did_ren(S->ev[i])) viol("C08.third-run", "a further run still renames: " + ev_text(S->ev[i]));
    if (S->nproc > 0 && S->proc[0].crashed) V.nontrivial = true;
}

// What is wrong with a name for somebody who uses a shell, going by the manual only.
static string awkward(const string &n, bool lower)
{
    for (unsigned char c : n) {
        if (c <= 0x20 || c == 0x7f) return "contains the character " + std::to_string(c);
        if (strchr("!\"$&'()*/:;<>?@[\\]`{|}", c)) return string("contains ") + (char) c;
        if (lower && c >= 'A' && c <= 'Z') return string("contains ") + (char) c;
    }
    if (n[0] == '-' || n[0] == '#' || n[0] == '_') return string("begins with ") + n[0];
    for (size_t i = 0; i + 1 < n.size(); i++) if (strchr("-_.", n[i]) && strchr("-_.", n[i + 1])) return "contains " + n.substr(i, 2);
    return "";
}

// what is held does not grow with what has been dealt with
void Ctx::c23()
{
    const Plan &pl = plans[0];
    if (!pl.will_work) return;
    const u32 slack = 24, maxfds = 10;
    Proc &P = S->proc[0];
    if (P.sig || P.hang) { viol("C23.died", P.hang ? "the run did not end" : "signal " + std::to_string(P.sig)); return; }
    const Event *base = nullptr;
    u32 work = 0;
    bool exhausted = false;
    for (u32 i = 0; i < S->nev; i++) {
        const Event &e = S->ev[i];
        if (e.kind == 3) exhausted = true;
        if (e.kind) continue;
        if (e.res == -EMFILE || e.res == -ENFILE || e.res == -ENOMEM) exhausted = true;
        u32 in = e.inode ? e.inode : e.dir;
        if (!base && ((in && !S->inode[in].system && in != ROOT && e.cls != C_WRITE && e.cls != C_CLOSE) || (e.cls == C_READ && !e.inode))) base = &e;
        if (!base) continue;
        work++;
        if (e.fds > base->fds + maxfds) { viol("C23.descriptors", std::to_string(e.fds) + " descriptors of files and directories are open at step " + std::to_string(e.step) + ", " + std::to_string(base->fds) + " when the work began"); break; }
        if (pl.o.inl && e.heap > base->heap + slack) { viol("C23.memory", std::to_string(e.heap) + " blocks of memory are in use at step " + std::to_string(e.step) + " of converting text, " + std::to_string(base->heap) + " when the work began"); break; }
    }
    if (!base) return;
    V.nontrivial = work > 60;
    if (P.crashed) return;
    if (exhausted || (P.exit_code && !pl.o.inl)) return;
    if (P.fds_end > base->fds) viol("C23.left-open", std::to_string(P.fds_end) + " descriptors of files and directories are open at the end, " + std::to_string(base->fds) + " when the work began");
    if (P.heap_end > base->heap + slack) viol("C23.memory", std::to_string(P.heap_end) + " blocks of memory are in use at the end, " + std::to_string(base->heap) + " when the work began");
}

void Ctx::c22()
{
    const Plan &pl = plans[0];
    if (!pl.will_work || pl.o.inl || pl.o.dry || s.procs.size() < 3) return;
    const string seq = pl.cfg.seqs[pl.seq].name;
    bool lower = seq == "lower", settles = lower || seq == "default" || seq == "utf_8";
    for (u32 p = 0; p < 3; p++) if (S->proc[p].sig || S->proc[p].hang) { viol("C22.died", "run " + std::to_string(p)); return; }
    View t0, v;
    Sel sel(pl, S->proc[0].cwd);
    sel.args(t0);
    bool faults = S->proc[0].crashed, taken = false;
    u32 i = 0, done = 0;
    auto run = [&](int ph) { for (; i < S->nev && (S->ev[i].kind == 4 || (int) S->proc[S->ev[i].proc].phase <= ph); i++) if (changes(S->ev[i])) v.apply(S->ev[i]); };
    for (u32 k = 0; k < S->nev; k++) {
        Event &e = S->ev[k];
        if (e.kind == 1) { faults = true; if (e.res == 0 && e.nr != A_MK && e.nr != A_MKTARGET && e.nr != A_MKAT) taken = true; }
        else if (e.injected) faults = true;
        if (did_ren(e) && e.proc) done++;
    }
    // every entry that is selected is fine or was complained about
    auto look = [&](u32 proc) {
        string err = S_err(proc);
        for (u32 d = 1; d < S->nd; d++) {
            if (!t0.live[d] || !sel.entm[d] || !v.live[d]) continue;
            string n = v.nm[d], why = awkward(n, lower);
            if (why.empty() || err.find(n) != string::npos) continue;
            bool hidden = false; // below a directory whose clean name is one that scanning leaves alone
            for (u32 p = v.parent[d]; p != ROOT; p = v.parent[v.self[p]]) if (sel.ignored(v.nm[v.self[p]])) hidden = true;
            if (hidden || (proc && sel.ignored(n)) || dpath(d).size() > 3700) continue;
            viol("C22.left", show(dopath(d)) + " is called " + show(n) + " after run " + std::to_string(proc) + " without a complaint (" + show(why) + ")");
        }
    };
    run(0);
    if (!faults) look(0);
    run(1);
    string e1 = S_err(1);
    if (!taken && !(S->proc[1].exit_code && !e1.empty())) look(1);
    for (; i < S->nev; i++) {
        Event &e = S->ev[i];
        if (settles && did_ren(e) && e1.find(base_of(pstr(e.p1))) == string::npos) viol("C22.unsettled", "a further run still renames: " + ev_text(e));
    }
    V.nontrivial = done || faults;
}

// one "old -> new" line
bool ann(const string &l, string &a, string &b)
{
    size_t k = l.find(" -> ");
    if (k == string::npos || l.compare(0, 10, "Scanning: ") == 0) return false;
    a = l.substr(0, k);
    b = l.substr(k + 4);
    return true;
}

void Ctx::c09()
{
    const Plan &pl = plans[0];
    if (!pl.will_work || pl.o.inl || pl.o.list) return;
    Proc &P = S->proc[0];
    if (P.crashed || P.sig || P.hang) return;
    for (u32 i = 0; i < S->nev; i++) if (S->ev[i].injected && S->ev[i].res == -EMFILE) { V.discard = true; return; } // ends the run
    string out = S_out(0), err = S_err(0);
    vector<string> ol = lines_of(out), el = lines_of(err);
    vector<std::pair<string, string>> a;
    for (auto &l : ol) { string x, y; if (ann(l, x, y)) a.push_back({x, y}); }
    if (!pl.o.verbose && !pl.o.dry && !a.empty()) viol("C09.unasked", "announcement without being asked: " + show(a[0].first + " -> " + a[0].second));
    View v;
    auto has_error = [&](const std::pair<string, string> &x) {
        for (auto &l : el) { size_t q = l.find(x.first); if (q != string::npos && l.find(x.second, q + x.first.size()) != string::npos) return true; }
        return false;
    };
    if (pl.o.verbose && !pl.o.dry) {
        vector<char> used(a.size(), 0);
        vector<std::pair<string, string>> extra;
        for (u32 i = 0; i < S->nev; i++) {
            Event &e = S->ev[i];
            if (did_ren(e)) {
                string n1 = pstr(e.n1), n2 = pstr(e.n2);
                size_t j = a.size();
                for (size_t q = 0; q < a.size(); q++) {
                    if (used[q] || base_of(a[q].first) != n1 || base_of(a[q].second) != n2) continue;
                    View::R r1 = v.walk(P.cwd, dir_of(a[q].first), true), r2 = v.walk(P.cwd, dir_of(a[q].second), true);
                    if (!r1.ok || !r2.ok || r1.inode != e.dir || r2.inode != e.dir2) continue;
                    // an announcement that is followed by an error message is rather that of a failed attempt
                    if (j == a.size()) j = q;
                    if (!has_error(a[q])) { j = q; break; }
                }
                if (j == a.size()) viol("C09.silent-rename", "not announced: " + ev_text(e));
                else { used[j] = 1; V.nontrivial = true; }
            }
            if (changes(e)) v.apply(e);
        }
        for (size_t q = 0; q < a.size(); q++) if (!used[q]) extra.push_back(a[q]);
        for (auto &x : extra) {
            if (!has_error(x)) viol("C09.false-announcement", "announced but not done, and no error: " + show(x.first + " -> " + x.second));
        }
    } else for (u32 i = 0; i < S->nev; i++) if (changes(S->ev[i])) v.apply(S->ev[i]);
    // what has to be on standard error
    View t0;
    Sel sel(pl, P.cwd);
    sel.args(t0);
    Excuse ex(0);
    size_t need = 0;
    std::set<u32> baddir;
    for (u32 i = 0; i < S->nev; i++) {
        Event &e = S->ev[i];
        if (e.kind || e.res >= 0 || !e.inode || S->inode[e.inode].system || S->inode[e.inode].type != T_DIR) continue;
        if (e.cls == C_OPENDIR || (e.cls == C_GETDENTS && e.res != -ENOENT)) baddir.insert(e.inode);
    }
    for (u32 d : baddir) {
        (void) d;
        need++;
    }
    std::set<u32> failed; // not renamed, or not even examined
    std::set<u32> seen;
    for (u32 i = 0; i < S->nev; i++) {
        Event &e = S->ev[i];
        if (!e.dent) continue;
        if (is_ren(e) && e.res < 0) failed.insert(e.dent);
        if (e.cls == C_STAT && !e.kind && seen.insert(e.dent).second && e.res < 0 && e.res != -ENOENT) failed.insert(e.dent);
    }
    bool single = pl.o.files.size() == 1;
    for (u32 d = 1; d < S->nd; d++) {
        Dentry &e = S->dent[d];
        if (e.nren || (e.by & 0xe0) || !t0.live[d] || !sel.entm[d]) continue;
        string n = t0.nm[d], want = SN(pl, n);
        if (n == want) continue;
        bool must = false;
        if (failed.count(d)) must = true;
        else if (single && !pl.o.dry && !S->inode[e.inode].e_stat && !ex.anc(t0, d) && !ex.ent[d]) {
            // visited for certain, wanted, and not done
            bool own = ex.names[t0.parent[d]].count(n);
            if (!own && dpath(d).size() < 3700) must = true;
        }
        if (!must) continue;
        need++;
        V.nontrivial = true;
        bool ok = false;
        for (auto &l : el) if (l.find(n) != string::npos) ok = true;
        if (!ok) viol("C09.silent-refusal", show(dopath(d)) + " (should become " + show(want) + ") was not renamed, and no error message names it");
    }
    // (all entries of a directory that could not be read count once, as the directory)
    if (el.size() < need) viol("C09.silent-failure", std::to_string(need) + " failures (" + std::to_string(baddir.size()) + " directories) but only " + std::to_string(el.size()) + " error messages");
    // arguments that are not there
    for (u32 i = 0; i < S->nev; i++) if (S->ev[i].kind == 1) return;
    for (auto &f : pl.o.files) {
        View::R r = t0.walk(P.cwd, f, false), r2 = v.walk(P.cwd, f, false);
        if (r.ok || r2.ok || any_actor() || pl.o.files.size() > 1) { if (!(base_of(f).compare(0, 7, "missing") == 0 || base_of(f) == "no such thing") || r.ok || r2.ok) continue; }
        bool ok = false;
        for (auto &l : el) if (l.find(f) != string::npos) ok = true;
        V.nontrivial = true;
        if (!ok) viol("C09.silent-missing", "argument " + show(f) + " does not exist, but no error message says so");
    }
}

string convert(Ctx &c, const Plan &pl, const string &text, bool &inscope)
{
    string o;
    size_t i = 0;
    bool cw = m_charwise(pl.cfg.seqs[pl.seq]);
    if (text.find('\0') != string::npos) inscope = false;
    while (i < text.size()) {
        size_t j = text.find('\n', i);
        bool nl = j != string::npos;
        if (!nl) j = text.size();
        string l = text.substr(i, j - i);
        if (l.size() > 1000 && !cw) inscope = false;
        o += (l == "." || l == "..") ? l : m_apply(pl.cfg.seqs[pl.seq], l);
        if (nl) o += "\n";
        i = j + 1;
    }
    (void) c;
    return o;
}

string diff(const string &got, const string &want)
{
    size_t i = 0;
    while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
    size_t f = i > 30 ? i - 30 : 0;
    return "differs at byte " + std::to_string(i) + " (" + std::to_string(got.size()) + " bytes written, " + std::to_string(want.size()) + " expected): got ..." + show(got.substr(f, 120)) + " want ..." + show(want.substr(f, 120));
}

void Ctx::c10()
{
    // injected failures of set-up files decide what has to happen
    Scen t = s;
    std::map<string, int> opens, looks;
    for (u32 i = 0; i < S->nev; i++) {
        Event &e = S->ev[i];
        if (e.kind || e.injected == 0 || e.res >= 0) continue;
        string p = e.p1 ? pstr(e.p1) : "";
        bool blob = p.find("locale") != string::npos;
        for (auto &n : t.nodes) if (n.blob && e.inode) { View v; View::R q = v.walk(ROOT, n.path, true); if (q.ok && q.inode == e.inode) blob = true; }
        if (blob) { V.discard = true; V.why = "a file of the C library's locale failed"; return; }
    }
    for (u32 i = 0; i < S->nev; i++) {
        Event &e = S->ev[i];
        if (e.kind || !e.p1 || (e.cls != C_OPEN && e.cls != C_STAT)) continue;
        string p = pstr(e.p1);
        (e.cls == C_OPEN ? opens : looks)[p]++;
    }
    for (auto &l : looks) opens[l.first] = std::max(opens[l.first], l.second);
    for (u32 i = 0; i < S->nev; i++) {
        Event &e = S->ev[i];
        if (e.kind || !e.injected || e.res >= 0) continue;
        if ((e.cls == C_OPEN || e.cls == C_STAT) && e.p1) {
            string p = pstr(e.p1);
            for (auto &n : t.nodes) {
                View v;
                View::R r = v.walk(S->proc[0].cwd, p, true), q = v.walk(ROOT, n.path, true);
                if (!r.ok || !q.ok || r.inode != q.inode) continue;
                if (opens[p] > 1) { V.discard = true; V.why = "set-up file opened several times, one failed"; return; }
                if (e.injected == 1) { if (e.cls == C_OPEN) n.e_open = -e.res; else n.e_stat = -e.res; }
            }
            if (p == "/dev/null") {}
        }
        if (e.cls == C_READ && e.inode && S->inode[e.inode].system) {
            // locale files and the like do not count
            int opened = 0;
            View v;
            for (auto &o : opens) { View::R r = v.walk(S->proc[0].cwd, o.first, true); if (r.ok && r.inode == e.inode) opened += o.second; }
            for (auto &n : t.nodes) {
                View::R q = v.walk(ROOT, n.path, true);
                if (!q.ok || q.inode != e.inode || n.blob) continue;
                if (opened > 1 && n.read_at < 0) { V.discard = true; V.why = "set-up file opened several times, one read failed"; return; }
                n.read_at = 0;
            }
        }
    }
    Plan pl = m_plan(t, s.procs[0]);
    if (pl.status == M_UNSPEC) { V.discard = true; V.why = pl.why; return; }
    if (pl.o.early != E_NONE) return;
    Proc &P = S->proc[0];
    if (P.crashed) return;
    if (pl.status == M_OK) {
        if (!pl.passed_over || pl.o.list) return;
        // a table found by search was of no use: that is said, and nothing of it is used
        V.nontrivial = true;
        if (P.sig || P.hang) { viol("C10.died", "unusable table found by search: signal " + std::to_string(P.sig)); return; }
        if (P.errlen == 0) viol("C10.silent", "a table found by search cannot be used, but no message");
        for (u32 i = 0; i < S->nev; i++) {
            Event &e = S->ev[i];
            if (did_ren(e) && pstr(e.n2) != SN(pl, pstr(e.n1))) viol("C10.partial-table", "a table found by search cannot be used, but " + show(pstr(e.n1)) + " became " + show(pstr(e.n2)) + " instead of " + show(SN(pl, pstr(e.n1))));
        }
        if (pl.o.inl && pl.o.files.empty() && P.exit_code == 0) {
            bool sc = true;
            string want = convert(*this, pl, s.procs[0].in, sc), got = S_out(0);
            if (sc && got != want) viol("C10.partial-table", "a table found by search cannot be used, but the output " + diff(got, want));
        }
        return;
    }
    V.nontrivial = true;
    string why = pl.why;
    if (P.sig || P.hang) viol("C10.died", "set-up error (" + why + "): signal " + std::to_string(P.sig));
    else {
        if (P.exit_code == 0) viol("C10.success", "set-up error (" + why + ") but exit status 0");
        if (P.errlen == 0) viol("C10.silent", "set-up error (" + why + ") but no message");
    }
    for (u32 i = 0; i < S->nev; i++) if (is_ren(S->ev[i])) { viol("C10.renamed", "set-up error (" + why + ") but " + ev_text(S->ev[i])); break; }
    if (pl.o.inl) for (auto &l : lines_of(S_out(0))) if (l != "Unterminated character string") { viol("C10.converted", "set-up error (" + why + ") but text was written: " + show(l)); break; }
}

// ---------------------------------------------------------------------------------------------- inline mode
void Ctx::c12(bool errs)
{
    const Plan &pl = plans[0];
    if (!pl.o.inl || pl.o.early != E_NONE || pl.o.list) return;
    if (pl.status != M_OK) { V.discard = true; V.why = pl.why; return; }
    Proc &P = S->proc[0];
    if (P.crashed) return;
    string got = S_out(0);
    const char *pr = errs ? "C13" : "C12";
    string K = pr;
    struct In { string text; bool readable, partial; string full; bool fd; };
    vector<In> ins;
    bool inscope = true;
    bool wrote_badly = false, anyreport = false, errbad = false; // errbad: messages could not be written
    std::map<u32, i64> rdfail; // inode -> offset of the failing read
    bool stdinfail = false; i64 stdinat = 0;
    bool mutefault = false;
    for (u32 i = 0; i < S->nev; i++) {
        Event &e = S->ev[i];
        if (e.kind || e.res >= 0) continue;
        if (e.cls == C_WRITE && e.dent == K_ERR) { errbad = true; continue; }
        if (e.cls == C_WRITE && e.res != -EINTR) wrote_badly = true;
        if (e.cls == C_READ && !e.inode) { stdinfail = true; stdinat = e.aux; anyreport = true; }
        if (e.cls == C_READ && e.inode && !S->inode[e.inode].system) { if (!rdfail.count(e.inode)) rdfail[e.inode] = e.aux; anyreport = true; }
        if (e.injected && (e.cls == C_FSTAT || e.cls == C_CLOSE)) mutefault = true;
    }
    (void) mutefault;
    View t0;
    if (pl.o.files.empty()) {
        In x;
        x.full = s.procs[0].in;
        x.partial = stdinfail;
        x.readable = true;
        x.text = stdinfail ? x.full.substr(0, std::min<size_t>(stdinat, x.full.size())) : x.full;
        ins.push_back(x);
    } else for (auto &f : pl.o.files) {
        View::R r = t0.walk(P.cwd, f, true), rl = t0.walk(P.cwd, f, false);
        In x;
        x.partial = false;
        x.readable = r.ok && rl.ok && (S->inode[r.inode].type == T_REG || (S->inode[r.inode].type == T_FIFO && S->inode[r.inode].size)) && !(S->inode[r.inode].flags & F_DENY_R) && !S->inode[r.inode].e_open && !S->inode[rl.inode].e_stat;
        // one-shot failures
        if (x.readable) for (u32 i = 0; i < S->nev; i++) {
            Event &e = S->ev[i];
            if (e.kind || e.res >= 0 || !e.injected || !e.p1) continue;
            if ((e.cls == C_OPEN || e.cls == C_STAT) && (e.inode == r.inode || e.inode == rl.inode)) {
                int times = 0;
                for (auto &g : pl.o.files) { View::R q = t0.walk(P.cwd, g, true); if (q.ok && q.inode == r.inode) times++; }
                if (times > 1) { V.discard = true; V.why = "one input named twice, one open failed"; return; }
                x.readable = false;
            }
        }
        if (!x.readable) anyreport = true;
        else {
            Inode &n = S->inode[r.inode];
            x.full = string(S->pool + n.off, n.size);
            auto it = rdfail.find(r.inode);
            if (it != rdfail.end()) {
                int times = 0;
                for (auto &g : pl.o.files) { View::R q = t0.walk(P.cwd, g, true); if (q.ok && q.inode == r.inode) times++; }
                bool persistent = n.read_err_at >= 0;
                for (u32 i = 0; i < S->nev; i++) { Event &e = S->ev[i]; if (e.kind == 0 && e.cls == C_READ && e.inode == r.inode && e.injected == 1 && e.res < 0) persistent = false; }
                if (times > 1 && !persistent) { V.discard = true; V.why = "one input named twice, one read failed"; return; }
                x.partial = true;
                x.text = x.full.substr(0, std::min<size_t>(it->second, x.full.size()));
            } else x.text = x.full;
        }
        ins.push_back(x);
    }
    // what was delivered must come out converted
    vector<std::pair<string, bool>> parts; // text, and whether an unfinished line may follow
    for (auto &x : ins) {
        if (!x.readable) { parts.push_back({"", false}); continue; }
        bool sc = true;
        if (!x.partial) parts.push_back({convert(*this, pl, x.text, sc), false});
        else {
            size_t k = x.text.rfind('\n');
            string whole = k == string::npos ? "" : x.text.substr(0, k + 1);
            parts.push_back({convert(*this, pl, whole, sc), true});
        }
        if (!sc) inscope = false;
    }
    if (!inscope && !errs) { V.discard = true; V.why = "line longer than the buffer with a filter that is not character by character"; return; }
    V.nontrivial = !got.empty();
    if (P.sig || P.hang) viol(K + ".died", P.hang ? "the run did not end" : "signal " + std::to_string(P.sig));
    if (errs && !P.sig && !P.hang) {
        if (wrote_badly) {
            if (P.exit_code == 0) viol(K + ".lost-output", "output could not be written, but exit status 0");
            if (P.errlen == 0 && !errbad) viol(K + ".silent-write", "output could not be written, but no message");
        }
        if (anyreport && P.errlen == 0 && !errbad) viol(K + ".silent-read", "an input could not be opened or read to its end, but no message");
        if (anyreport) V.nontrivial = true;
    }
    if (!inscope) return;
    if (wrote_badly) return; // what was lost is decided by the C library's buffering
    // match got against the parts in order
    bool flex = false;
    string all;
    for (auto &p : parts) { all += p.first; flex |= p.second; }
    if (!flex) {
        if (got != all) viol(K + ".output", diff(got, all));
        return;
    }
    // after an incomplete input something for the unfinished line may follow, up to the next part
    vector<string> seg(1);
    for (auto &p : parts) { seg.back() += p.first; if (p.second) seg.push_back(""); }
    size_t at = 0;
    for (size_t i = 0; i < seg.size(); i++) {
        const string &w = seg[i];
        if (i == 0) {
            if (got.compare(0, w.size(), w) != 0) { viol(K + ".output", "before the first unreadable place: " + diff(got, w)); return; }
            at = w.size();
        } else if (i + 1 == seg.size()) {
            if (w.empty()) break;
            if (got.size() < at + w.size() || got.compare(got.size() - w.size(), w.size(), w) != 0) { viol(K + ".output", "the input after an unreadable one was not converted: expected " + show(w)); return; }
        } else {
            size_t k = got.find(w, at);
            if (k == string::npos) { viol(K + ".output", "the input between unreadable ones was not converted: expected " + show(w)); return; }
            at = k + w.size();
        }
    }
}

// renames and output of a run without run-time faults, against the model
void Ctx::c14()
{
    const Plan &pl = plans[0];
    const string K = s.prop;
    if (pl.status == M_UNSPEC) { V.discard = true; V.why = pl.why; return; }
    Proc &P = S->proc[0];
    if (pl.o.early != E_NONE) return;
    if (P.sig || P.hang) { viol(K + ".died", "signal " + std::to_string(P.sig)); return; }
    V.nontrivial = true;
    if (pl.status == M_ERROR) {
        if (P.exit_code == 0) viol(K + ".accepted", pl.why + ", but exit status 0");
        for (u32 i = 0; i < S->nev; i++) if (is_ren(S->ev[i])) { viol(K + ".renamed", pl.why + ", but " + ev_text(S->ev[i])); break; }
        return;
    }
    string got = S_out(0);
    if (pl.o.list) {
        string want = m_list_output(pl);
        if (got != want) viol(K + ".list", diff(got, want));
        if (P.exit_code) viol(K + ".refused", "exit status " + std::to_string(P.exit_code) + ": " + show(S_err(0)));
        return;
    }
    if (P.exit_code) { viol(K + ".refused", "exit status " + std::to_string(P.exit_code) + ": " + show(S_err(0))); return; }
    if (pl.o.inl) {
        bool sc = true;
        string want;
        if (pl.o.files.empty()) want = convert(*this, pl, s.procs[0].in, sc);
        else return;
        if (sc && got != want) viol(K + ".output", diff(got, want));
        return;
    }
    if (pl.o.dry) return;
    View t0;
    Sel sel(pl, P.cwd);
    sel.args(t0);
    Names nm;
    for (u32 d = 1; d < S->nd; d++) if (t0.live[d]) nm.add(t0, d);
    View v;
    for (u32 i = 0; i < S->nev; i++) if (changes(S->ev[i])) { u32 d = v.apply(S->ev[i]); if (d && v.live[d]) nm.add(v, d); }
    for (u32 d = 1; d < S->nd; d++) {
        if (!t0.live[d] || S->inode[S->dent[d].inode].system) continue;
        string n = t0.nm[d];
        if (!sel.entm[d]) { if (v.live[d] && v.nm[d] != n) viol(K + ".ignored", show(n) + " became " + show(v.nm[d]) + " though it is not selected"); continue; }
        string want = SN(pl, n);
        if (v.nm[d] != n && S->dent[d].nren == 1 && v.nm[d] != want) viol(K + ".name", show(n) + " became " + show(v.nm[d]) + " instead of " + show(want));
        if (v.nm[d] == n && want != n && valid_name(want) && !nm.other(t0, t0.parent[d], want, d)) viol(K + ".not-renamed", show(n) + " should have become " + show(want));
    }
}

void Ctx::c17()
{
    const Plan &pl = plans[0], &pr = plans[1];
    if (!pl.will_work || !pr.will_work || pl.o.inl) return;
    for (int p = 0; p < 2; p++) if (S->proc[p].sig || S->proc[p].hang) { viol("C17.died", "run " + std::to_string(p)); return; }
    View t0;
    {
        // entries that compete for a name are outside this property
        Sel sel(pl, S->proc[0].cwd);
        sel.args(t0);
        std::map<string, int> uses;
        for (u32 d = 1; d < S->nd; d++) {
            if (!t0.live[d] || S->inode[S->dent[d].inode].system) continue;
            std::set<string> k = {t0.key(t0.parent[d], t0.nm[d])};
            if (sel.entm[d]) k.insert(t0.key(t0.parent[d], SN(pl, t0.nm[d])));
            for (auto &x : k) if (++uses[x] > 1) { V.discard = true; V.why = "entries compete for a name"; return; }
        }
    }
    // clean names of directories can be longer, and what is in them then out of reach for the real run only
    for (u32 i = 0; i < S->nev; i++) {
        Event &e = S->ev[i];
        if (!e.kind && e.res == -ENAMETOOLONG && pstr(e.n1).size() <= 255 && pstr(e.n2).size() <= 255) { V.discard = true; V.why = "a path is too long"; return; }
    }
    std::multiset<string> dry, real;
    auto k3 = [](u32 dir, const string &a, const string &b) { return std::to_string(dir) + "/" + a + " -> " + b; };
    u32 cwd = S->proc[0].cwd;
    for (auto &l : lines_of(S_out(0))) {
        string a, b;
        if (!ann(l, a, b)) continue;
        View::R r = t0.walk(cwd, dir_of(a), true);
        View::R r2 = t0.walk(cwd, dir_of(b), true);
        if (!r.ok || !r2.ok || r.inode != r2.inode) { viol("C17.path", "the dry run announces a path that does not exist: " + show(l)); continue; }
        dry.insert(k3(r.inode, base_of(a), base_of(b)));
    }
    for (u32 i = 0; i < S->nev; i++) {
        Event &e = S->ev[i];
        if (!did_ren(e)) continue;
        if (e.proc == 0) { viol("C17.dry-renamed", ev_text(e)); continue; }
        real.insert(k3(e.dir, pstr(e.n1), pstr(e.n2)));
    }
    for (auto &x : dry) if (dry.count(x) > real.count(x)) { viol("C17.not-done", "announced by the dry run, not done by the real run: " + show(x)); break; }
    for (auto &x : real) if (real.count(x) > dry.count(x)) { viol("C17.not-announced", "done by the real run, not announced by the dry run: " + show(x)); break; }
    size_t e0 = lines_of(S_err(0)).size(), e1 = lines_of(S_err(1)).size();
    if (e0 != e1) viol("C17.refusals", std::to_string(e0) + " refusals in the dry run, " + std::to_string(e1) + " in the real run");
    V.nontrivial = !real.empty();
}

void Ctx::c18()
{
    const Plan &pl = plans[0];
    if (!pl.will_work || pl.o.inl || pl.o.dry) return;
    u32 ended = 0;
    for (u32 p = 0; p < S->nproc; p++) {
        if (S->proc[p].hang) viol("C18.endless", "process " + std::to_string(p) + " did not end");
        else if (S->proc[p].sig) viol("C18.died", "process " + std::to_string(p) + " was killed by signal " + std::to_string(S->proc[p].sig));
        else ended++;
    }
    for (u32 d = 1; d < S->nd; d++) {
        Dentry &e = S->dent[d];
        if (e.by & 0x1f) continue;
        if (!e.live) viol("C18.lost", show(dopath(d)) + " is gone");
        else if (e.parent != e.oparent) viol("C18.moved", show(dopath(d)) + " is now " + show(dpath(d)));
    }
    content("C18");
    if (ended != S->nproc) return;
    View t0, v;
    Sel sel(pl, S->proc[0].cwd);
    sel.args(t0);
    // The others do the same, or with -r a part of it (without -r a run that is faster with the name of a directory
    // does not do what lies deeper in it)
    for (u32 p = 1; p < S->nproc; p++) {
        if (plans[p].o.files == pl.o.files && S->proc[p].cwd == S->proc[0].cwd && plans[p].o.rec == pl.o.rec) continue;
        std::multiset<string> fa(pl.o.files.begin(), pl.o.files.end()), fb(plans[p].o.files.begin(), plans[p].o.files.end());
        if (fa == fb && S->proc[p].cwd == S->proc[0].cwd && plans[p].o.rec == pl.o.rec) continue;
        if (!pl.o.rec || !plans[p].o.rec || pl.o.special != plans[p].o.special) return;
        Sel o(plans[p], S->proc[p].cwd);
        o.args(t0);
        for (u32 d = 1; d < S->nd; d++) if (o.entm[d] && !sel.entm[d]) return;
    }
    if (!stable_names(t0, sel, pl)) return;
    Names nm;
    for (u32 d = 1; d < S->nd; d++) if (t0.live[d]) nm.add(t0, d);
    std::set<u32> who;
    for (u32 i = 0; i < S->nev; i++) if (changes(S->ev[i])) { if (did_ren(S->ev[i])) who.insert(S->ev[i].proc); u32 d = v.apply(S->ev[i]); if (d && v.live[d]) nm.add(v, d); }
    V.nontrivial = who.size() > 1;
    for (u32 d = 1; d < S->nd; d++) {
        if (!t0.live[d] || !v.live[d]) continue;
        string n = t0.nm[d];
        if (!sel.entm[d]) { if (v.nm[d] != n) viol("C18.unselected", show(dopath(d)) + " became " + show(v.nm[d])); continue; }
        string want = SN(pl, n);
        if (v.nm[d] != n && v.nm[d] != want) viol("C18.third-name", show(n) + " is called " + show(v.nm[d]));
        if (n == want || !valid_name(want) || v.nm[d] == want) continue;
        if (nm.other(t0, t0.parent[d], want, d)) continue;
        bool hidden = false;
        for (u32 p = v.parent[d]; p != ROOT; p = v.parent[v.self[p]]) if (sel.ignored(v.nm[v.self[p]])) hidden = true;
        if (hidden || dpath(d).size() > 3700) continue;
        viol("C18.incomplete", show(dopath(d)) + " kept its name, should be " + show(want));
    }
}

// ---------------------------------------------------------------------------------------------- comparison of runs
struct Summary {
    vector<string> out, err;
    vector<int> exit_code, sig, hang, heap;
    vector<string> renames;   // in order, per process
    std::set<string> tree;
    bool ok = false;
};
Summary summary()
{
    Summary m;
    for (u32 p = 0; p < S->nproc; p++) {
        m.out.push_back(S_out(p)); m.err.push_back(S_err(p));
        m.exit_code.push_back(S->proc[p].exit_code); m.sig.push_back(S->proc[p].sig); m.hang.push_back(S->proc[p].hang); m.heap.push_back(S->proc[p].heap_err);
    }
    for (u32 i = 0; i < S->nev; i++) if (did_ren(S->ev[i])) m.renames.push_back(std::to_string(S->ev[i].dir) + "/" + pstr(S->ev[i].n1) + " > " + pstr(S->ev[i].n2));
    for (u32 d = 1; d < S->nd; d++) if (S->dent[d].live) m.tree.insert(dpath(d) + "|" + std::to_string(S->dent[d].inode));
    m.ok = true;
    return m;
}
const char *heap_text(int c)
{
    static const char *const t[] = {"", "block header destroyed", "write in front of a block", "write behind a block", "write to a released block", "block released twice", "release of something that is not a block"};
    return c >= 0 && c < 7 ? t[c] : "?";
}

} // namespace

string trace_text(u32 maxev)
{
    string o;
    u32 n = 0;
    for (u32 i = 0; i < S->nev && n < maxev; i++) {
        Event &e = S->ev[i];
        bool boring = e.kind == 0 && !e.injected && (e.cls == C_OTHER || (e.inode && S->inode[e.inode].system && e.inode != ROOT && e.cls != C_RENAME));
        if (boring) continue;
        o += "# " + ev_text(e) + "\n";
        n++;
    }
    for (u32 p = 0; p < S->nproc; p++) {
        Proc &P = S->proc[p];
        o += "# p" + std::to_string(p) + ": " + (P.crashed ? "killed by the scenario" : P.hang ? "did not end" : P.sig ? "signal " + std::to_string(P.sig) : "exit status " + std::to_string(P.exit_code));
        if (P.heap_err) o += string(", memory error: ") + heap_text(P.heap_err) + " (allocation " + std::to_string(P.heap_info) + ")";
        o += "\n#   stdout: " + show(S_out(p)) + "\n#   stderr: " + show(S_err(p)) + "\n";
    }
    return o;
}

Verdict evaluate(const Scen &s)
{
    Verdict V;
    auto exec = [&](const Scen &x) -> bool {
        RunResult r = run_scen(x);
        V.execs++;
        V.hash = mix(V.hash ^ r.hash);
        if (r.harness_error) { V.broken = true; V.why = r.why; return false; }
        for (u32 p = 0; p < S->nproc; p++) if (S->proc[p].unsupported) { V.broken = true; V.why = "system call " + std::to_string(S->unsupported_nr) + " is not simulated"; return false; }
        u64 h = 3;
        for (u32 i = 0; i < S->nev; i++) { Event &e = S->ev[i]; h = mix(h ^ e.cls ^ ((u64) e.proc << 8) ^ ((u64) e.kind << 16) ^ ((u64) (e.res < 0 ? -e.res : e.res > 0) << 24)); }
        V.cls_hash = mix(V.cls_hash ^ h);
        V.steps += S->step;
        V.simtime += S->clock - 1700000000ull * 1000000000ull;
        auto fire = [&](const string &k) { for (auto &f : V.fired) if (f.first == k) { f.second++; return; } V.fired.push_back({k, 1}); };
        static const char *const an[] = {"none", "create", "create-target", "create-beside", "remove", "remove", "move", "remove-source"};
        for (u32 i = 0; i < S->nev; i++) {
            Event &e = S->ev[i];
            if (e.kind == 1) { if (e.res == 0) fire(string("other-program-") + an[e.nr & 7]); }
            else if (e.kind == 3) fire(string("no-memory-") + (e.cls == C_ALLOC ? "program" : "library"));
            else if (e.kind == 2) fire("kill");
            else if (e.kind == 4) fire("power-loss-undone-rename");
            else if (e.injected && e.res < 0) fire(string(e.injected == 2 ? "lasting-" : "") + cls_name[e.cls] + "-error");
        }
        for (u32 i = 0; i < S->nsw; i++) if (S->sw[i].used) fire("preemption");
        return true;
    };
    const string &c = s.prop;
    auto heap_viol = [&](const char *pr) {
        for (u32 p = 0; p < S->nproc; p++) {
            Proc &P = S->proc[p];
            string w = S->nproc > 1 ? " (process " + std::to_string(p) + ")" : "";
            char ab[40];
            snprintf(ab, sizeof ab, "0x%llx", (unsigned long long) P.fault_addr);
            if (P.heap_err) V.v.push_back({string(pr) + ".memory", string(heap_text(P.heap_err)) + ", allocation " + std::to_string(P.heap_info) + w});
            else if (P.sig) V.v.push_back({string(pr) + ".signal", "killed by signal " + std::to_string(P.sig) + " at " + ab + w});
            if (P.hang) V.v.push_back({string(pr) + ".endless", "did not end" + w});
        }
    };
    if (c == "C11") {
        Scen b = s;
        b.faults.clear();
        if (!exec(b)) return V;
        Summary m0 = summary();
        if (s.faults.empty()) {
            if (!s.procs.empty() && m_plan(s, s.procs[0]).status == M_UNSPEC) V.discard = true;
            return V;
        }
        if (!exec(s)) return V;
        Summary m1 = summary();
        Ctx x(s, V);
        bool struck = false, lib = false;
        for (u32 i = 0; i < S->nev; i++) if (S->ev[i].kind == 3) { struck = true; if (S->ev[i].cls == C_LALLOC) lib = true; }
        if (!struck) return V;
        V.nontrivial = true;
        heap_viol("C11");
        if (!V.v.empty()) return V;
        const Plan &pl = x.plans[0];
        for (u32 d = 1; d < S->nd; d++) {
            Dentry &e = S->dent[d];
            if (e.by & 0x1f) continue;
            string n(S->pool + e.iname, e.ilen);
            if (!e.live) x.viol("C11.lost", show(n));
            else if (e.nren == 1 && pl.will_work && dname(d) != x.SN(pl, n) && !lib) x.viol("C11.third-name", show(n) + " is called " + show(dname(d)));
        }
        bool same = m0.tree == m1.tree && m0.out == m1.out && m0.exit_code == m1.exit_code;
        if (!same) {
            if (m1.err[0].empty()) x.viol("C11.silent", "results changed after a failed allocation, exit status " + std::to_string(m1.exit_code[0]) + ", but no message");
            if (!lib && m1.exit_code[0] == 0) x.viol("C11.success", "results changed after a failed allocation, but exit status 0");
        }
        return V;
    }
    if (c == "C16") {
        if (!exec(s)) return V;
        heap_viol("C16");
        if (!V.v.empty()) return V;
        Summary m0 = summary();
        Scen t = s;
        t.heap_fill = s.heap_fill == 256 ? 0 : 256;
        t.heap_mode = s.heap_mode;
        t.variant = 1;  // the same program compiled with other optimisation and automatic variables filled with a pattern
        if (!exec(t)) return V;
        heap_viol("C16");
        if (!V.v.empty()) return V;
        Summary m1 = summary();
        V.nontrivial = true;
        if (m0.out != m1.out || m0.err != m1.err || m0.exit_code != m1.exit_code || m0.tree != m1.tree || m0.renames != m1.renames) {
            string w = m0.out != m1.out ? "standard output" : m0.err != m1.err ? "standard error" : m0.exit_code != m1.exit_code ? "exit status" : "renames";
            V.v.push_back({"C16.uninitialised", w + " depends on what unallocated memory or uninitialised variables contain"});
        }
        return V;
    }
    if (!exec(s)) return V;
    Ctx x(s, V);
    if (c != "C10" && c != "C14" && c != "C15" && c != "C07") for (auto &p : x.plans) if (p.status == M_UNSPEC) { V.discard = true; V.why = p.why; }
    if (V.discard) return V;
    for (u32 d = 1; d < S->nd; d++) if (S->dent[d].nren) V.nontrivial = true;
    if (c == "C01") x.c01();
    else if (c == "C02") x.c02();
    else if (c == "C03") x.c03();
    else if (c == "C04") x.c04();
    else if (c == "C05") x.c05();
    else if (c == "C06") x.c06();
    else if (c == "C07") x.c07();
    else if (c == "C08") x.c08();
    else if (c == "C09") x.c09();
    else if (c == "C10") x.c10();
    else if (c == "C12") x.c12(false);
    else if (c == "C13") x.c12(true);
    else if (c == "C14" || c == "C15") x.c14();
    else if (c == "C17") x.c17();
    else if (c == "C18") x.c18();
    else if (c == "C22") x.c22();
    else if (c == "C23") x.c23();
    else { V.broken = true; V.why = "unknown property"; }
    return V;
}
