#include "model.h"
#include <ctype.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
using std::string;
using std::vector;

// ------------------------------------------------------------------------------------------------ world
static string norm(const string &cwd, const string &path)
{
    string p = path.empty() || path[0] == '/' ? path : cwd + "/" + path;
    vector<string> c;
    size_t i = 0;
    while (i < p.size()) {
        while (i < p.size() && p[i] == '/') i++;
        size_t j = p.find('/', i);
        if (j == string::npos) j = p.size();
        if (j > i) {
            string x = p.substr(i, j - i);
            if (x == ".") {}
            else if (x == "..") { if (!c.empty()) c.pop_back(); }
            else c.push_back(x);
        }
        i = j;
    }
    string o;
    for (auto &x : c) o += "/" + x;
    return o.empty() ? "/" : o;
}
World::World(const Scen &s)
{
    for (auto &n : s.nodes) files[n.path] = &n;
}
const Node *World::find(const string &cwd, const string &path) const
{
    if (path.empty()) return nullptr;
    auto it = files.find(norm(cwd, path));
    if (it == files.end()) return nullptr;
    return it->second;
}

// ------------------------------------------------------------------------------------------------ options
MOpts m_options(const ProcSpec &p)
{
    MOpts o;
    const auto &a = p.argv;
    auto env = [&](const char *k) -> const string * {
        static string v;
        string pre = string(k) + "=";
        for (auto &e : p.env) if (e.compare(0, pre.size(), pre) == 0) { v = e.substr(pre.size()); return &v; }
        return nullptr;
    };
    if (auto e = env("DETOX_SEQUENCE")) o.seq = *e;
    bool posix = env("POSIXLY_CORRECT") != nullptr;
    string base = a.empty() ? "" : a[0];
    while (base.size() > 1 && base.back() == '/') base.pop_back();
    if (base.rfind('/') != string::npos && base.size() > 1) base = base.substr(base.rfind('/') + 1);
    o.inline_bin = o.inl = base == "inline-detox";
    static const struct { const char *n; char c; } longs[] = {{"dry-run", 'n'}, {"help", 'h'}, {"verbose", 'v'}, {"inline", 'I'}, {"recursive", 'r'}, {"special", 'S'}};
    bool only_files = false;
    auto bad = [&] { o.early = E_USAGE_OK; };
    auto act = [&](char c, const string *arg) {
        switch (c) {
        case 'h': o.early = E_HELP; break;
        case 'V': o.early = E_VERSION; break;
        case 'n': o.dry = true; break;
        case 'v': o.verbose++; break;
        case 'r': o.rec = true; break;
        case 'L': o.list = true; break;
        case 'I': o.inl = true; break;
        case 'S': o.special = true; break;
        case 's': o.seq = *arg; break;
        case 'f': o.cfg = *arg; break;
        default: bad();
        }
    };
    for (size_t i = 1; i < a.size() && o.early == E_NONE; i++) {
        const string &x = a[i];
        if (only_files || x.size() < 2 || x[0] != '-') { o.files.push_back(x); if (posix) only_files = true; continue; }
        if (x == "--") { only_files = true; continue; }
        if (x[1] == '-') {
            size_t eq = x.find('=');
            string n = x.substr(2, eq == string::npos ? string::npos : eq - 2);
            int hit = -1, cnt = 0;
            for (int k = 0; k < 6; k++) {
                if (n == longs[k].n) { hit = k; cnt = 1; break; }
                if (string(longs[k].n).compare(0, n.size(), n) == 0) { hit = k; cnt++; }
            }
            if (cnt != 1 || eq != string::npos) { bad(); break; }
            act(longs[hit].c, nullptr);
            continue;
        }
        for (size_t k = 1; k < x.size() && o.early == E_NONE; k++) {
            char c = x[k];
            if (c == 's' || c == 'f') {
                string v;
                if (k + 1 < x.size()) v = x.substr(k + 1);
                else if (i + 1 < a.size()) v = a[++i];
                else { bad(); break; }
                act(c, &v);
                break;
            }
            act(c == ':' || c == '?' ? '?' : c, nullptr);
        }
    }
    if (o.early != E_NONE) return o;
    if (o.list) { o.files.clear(); return o; }
    if (o.files.empty() && !o.inl) o.early = E_USAGE_FAIL;
    return o;
}

// ------------------------------------------------------------------------------------------------ configuration
namespace {
enum Tok { T_END, T_STR, T_ID, T_NUM, T_OPEN, T_CLOSE, T_SEMI, T_KW, T_BADSTR };
struct Token { Tok t; string s; };
const char *const kws[] = {"builtin", "filename", "ignore", "iso8859_1", "length", "lower", "max_length", "remove_trailing", "safe", "sequence", "uncgi", "utf_8", "wipeup"};

vector<Token> lex(const string &in, bool &unspec)
{
    vector<Token> v;
    size_t i = 0;
    while (i < in.size()) {
        unsigned char c = in[i];
        if (c == 0) { unspec = true; i++; continue; }
        if (c == ' ' || c == '\t' || c == '\n') { i++; continue; }
        if (c == '#') { while (i < in.size() && in[i] != '\n') i++; continue; }
        if (c == '{') { v.push_back({T_OPEN, ""}); i++; continue; }
        if (c == '}') { v.push_back({T_CLOSE, ""}); i++; continue; }
        if (c == ';') { v.push_back({T_SEMI, ""}); i++; continue; }
        if (c == '"') {
            size_t j = i + 1;
            while (j < in.size() && in[j] != '"' && in[j] != '\n') j++;
            if (j >= in.size()) { unspec = true; i++; continue; }
            if (in[j] == '\n') { v.push_back({T_BADSTR, ""}); break; } // an error, whatever follows
            v.push_back({T_STR, in.substr(i + 1, j - i - 1)});
            i = j + 1;
            continue;
        }
        if (isalpha(c) && c < 128) {
            size_t j = i;
            while (j < in.size() && (isalnum((unsigned char) in[j]) || in[j] == '_') && (unsigned char) in[j] < 128) j++;
            string w = in.substr(i, j - i);
            // the longest match decides between keyword and identifier; a keyword can also be a prefix of a longer
            // text only if that text is no identifier, which cannot happen here
            bool kw = false;
            for (auto k : kws) if (!strcasecmp(k, w.c_str())) { v.push_back({T_KW, k}); kw = true; }
            if (!kw) v.push_back({T_ID, w});
            i = j;
            continue;
        }
        if (isdigit(c)) {
            size_t j = i;
            while (j < in.size() && isdigit((unsigned char) in[j])) j++;
            v.push_back({T_NUM, in.substr(i, j - i)});
            i = j;
            continue;
        }
        i++; // anything else is skipped
    }
    v.push_back({T_END, ""});
    return v;
}

struct P {
    const vector<Token> &t;
    size_t i = 0;
    bool kw(const char *k) { if (t[i].t == T_KW && t[i].s == k) { i++; return true; } return false; }
    bool tok(Tok k) { if (t[i].t == k) { i++; return true; } return false; }
    bool str(string &s) { if (t[i].t == T_STR || t[i].t == T_ID) { s = t[i].s; i++; return true; } return false; }
};
}

MStatus m_parse_config(const string &text, const string &source, MConfig &cfg, string &why)
{
    bool unspec = false;
    vector<Token> tk = lex(text, unspec);
    if (unspec) { why = "unspecified text in " + source; return M_UNSPEC; }
    P p{tk};
    MConfig out = cfg;
    auto fail = [&](const char *w) { why = source + ": " + w; return M_ERROR; };
    while (!p.tok(T_END)) {
        if (p.kw("sequence")) {
            MSeq s;
            s.source = source;
            if (!p.str(s.name)) return fail("sequence name");
            if (!p.tok(T_OPEN)) return fail("{ after sequence");
            while (!p.tok(T_CLOSE)) {
                MFilter f;
                if (p.kw("uncgi")) f.kind = FK_UNCGI;
                else if (p.kw("lower")) f.kind = FK_LOWER;
                else if (p.kw("wipeup")) {
                    f.kind = FK_WIPEUP;
                    if (p.tok(T_OPEN)) {
                        if (!p.tok(T_CLOSE)) {
                            if (!p.kw("remove_trailing") || !p.tok(T_SEMI) || !p.tok(T_CLOSE)) return fail("wipeup");
                            f.trailing = true;
                        }
                    }
                } else if (p.kw("max_length")) {
                    f.kind = FK_MAX;
                    if (p.tok(T_OPEN)) {
                        if (!p.tok(T_CLOSE)) {
                            if (!p.kw("length")) return fail("max_length");
                            if (p.t[p.i].t != T_NUM) return fail("number");
                            f.maxlen = atol(p.t[p.i].s.c_str());
                            if (p.t[p.i].s.size() > 9) { why = "huge number"; return M_UNSPEC; }
                            p.i++;
                            if (!p.tok(T_SEMI) || !p.tok(T_CLOSE)) return fail("max_length");
                        }
                    }
                } else {
                    if (p.kw("iso8859_1")) f.kind = FK_ISO;
                    else if (p.kw("utf_8")) f.kind = FK_UTF8;
                    else if (p.kw("safe")) f.kind = FK_SAFE;
                    else return fail("filter expected");
                    if (p.tok(T_OPEN)) {
                        if (!p.tok(T_CLOSE)) {
                            if (p.kw("filename")) f.has_file = true;
                            else if (p.kw("builtin")) f.has_builtin = true;
                            else return fail("table option");
                            if (!p.str(f.has_file ? f.file : f.builtin)) return fail("table name");
                            if (!p.tok(T_SEMI) || !p.tok(T_CLOSE)) return fail("table option end");
                        }
                    }
                }
                if (!p.tok(T_SEMI)) return fail("; after filter");
                s.filters.push_back(f);
            }
            if (s.filters.empty()) return fail("empty sequence");
            if (!p.tok(T_SEMI)) return fail("; after sequence");
            bool found = false;
            for (auto &q : out.seqs) if (q.name == s.name) { q = s; found = true; break; }
            if (!found) out.seqs.push_back(s);
        } else if (p.kw("ignore")) {
            if (!p.tok(T_OPEN)) return fail("{ after ignore");
            int n = 0;
            while (!p.tok(T_CLOSE)) {
                string f;
                if (!p.kw("filename") || !p.str(f) || !p.tok(T_SEMI)) return fail("ignore entry");
                out.ignore.push_back(f);
                n++;
            }
            if (!n) return fail("empty ignore");
            if (!p.tok(T_SEMI)) return fail("; after ignore");
        } else return fail("statement expected");
    }
    cfg = out;
    return M_OK;
}

MConfig m_builtin_config()
{
    MConfig c;
    c.builtin = true;
    string why;
    static const char text[] =
        "sequence default { safe { builtin safe1; }; wipeup { remove_trailing; }; };\n"
        "sequence \"iso8859_1\" { iso8859_1 { builtin \"iso8859_1\"; }; safe { builtin safe1; }; wipeup { remove_trailing; }; };\n"
        "sequence \"iso8859_1-legacy\" { iso8859_1 { builtin cp1252; }; iso8859_1 { builtin \"iso8859_1\"; }; safe { builtin safe1; }; wipeup { remove_trailing; }; };\n"
        "sequence \"utf_8\" { utf_8 { builtin unicode; }; safe { builtin safe1; }; wipeup { remove_trailing; }; };\n"
        "sequence \"uncgi\" { uncgi; safe { builtin safe1; }; wipeup { remove_trailing; }; };\n"
        "sequence \"lower\" { safe { builtin safe1; }; lower; wipeup { remove_trailing; }; };\n"
        "sequence \"iso8859_1-only\" { iso8859_1 { builtin \"iso8859_1\"; }; };\n"
        "sequence \"cp1252-only\" { iso8859_1 { builtin cp1252; }; };\n"
        "sequence \"utf_8-only\" { utf_8 { builtin unicode; }; };\n"
        "sequence \"uncgi-only\" { uncgi; };\n"
        "sequence \"lower-only\" { lower; };\n"
        "ignore { filename \"{arch}\"; };\n";
    m_parse_config(text, "built-in config file", c, why);
    for (auto &s : c.seqs) for (auto &f : s.filters) if (f.builtin == "safe1") f.builtin = "safe";
    return c;
}

// ------------------------------------------------------------------------------------------------ tables
static bool sp(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f'; }

MTable m_parse_table(const string &text, const string &ctype)
{
    MTable t;
    t.ok = true;
    bool inside = false;
    size_t pos = 0;
    auto value = [&](const string &l, size_t i, string &out, bool &quoted) {
        quoted = false;
        if (i >= l.size()) { out = ""; return; }
        if (l[i] == '"' || l[i] == '\'') {
            quoted = true;
            size_t j = l.find(l[i], i + 1);
            if (j == string::npos) { t.unspec = true; j = l.size(); }
            out = l.substr(i + 1, j - i - 1);
        } else {
            size_t j = i;
            while (j < l.size() && !sp(l[j])) j++;
            out = l.substr(i, j - i);
        }
    };
    while (pos < text.size()) {
        size_t e = text.find('\n', pos);
        string l = text.substr(pos, e == string::npos ? string::npos : e - pos);
        pos = e == string::npos ? text.size() : e + 1;
        if (l.find('\0') != string::npos) { t.unspec = true; continue; }
        if (!l.empty() && l[0] == '#') continue;
        size_t i = 0;
        while (i < l.size() && sp(l[i])) i++;
        if (i == l.size()) continue;
        if (!inside) {
            size_t j = i;
            while (j < l.size() && !sp(l[j])) j++;
            string w = l.substr(i, j - i);
            size_t k = j;
            while (k < l.size() && sp(l[k])) k++;
            string v;
            bool q;
            if (!strcasecmp(w.c_str(), "start")) {
                if (k == l.size()) { inside = true; continue; }
                if (l[k] == '#') { t.unspec = true; continue; }
                value(l, k, v, q);
                if (v.empty()) { t.unspec = true; continue; }
                if (!strncasecmp(v.c_str(), ctype.c_str(), v.size())) inside = true;
            } else if (!strcasecmp(w.c_str(), "default")) {
                if (k == l.size()) { t.has_def = false; t.def = ""; continue; }
                if (l[k] == '#') { t.unspec = true; continue; }
                value(l, k, v, q);
                t.has_def = !v.empty();
                t.def = v;
            } else if (!strncasecmp(w.c_str(), "start", 5) || !strncasecmp(w.c_str(), "default", 7)) t.unspec = true;
            continue;
        }
        // value translation
        size_t j = i;
        bool neg = false;
        if (l[j] == '+' || l[j] == '-') { neg = l[j] == '-'; j++; }
        if (j < l.size() && isdigit((unsigned char) l[j])) {
            char *endp;
            string num = l.substr(j);
            unsigned long long v = strtoull(num.c_str(), &endp, 0);
            size_t used = endp - num.c_str();
            if (neg) continue;
            if (v > 0x7fffffff) { t.unspec = true; continue; }
            size_t k = j + used;
            if (k < l.size() && !sp(l[k])) { t.unspec = true; }
            while (k < l.size() && sp(l[k])) k++;
            if (k == l.size()) continue;
            if (l[k] == '#') t.unspec = true; // a comment or the character? the shipped tables mean the character
            string val;
            bool q;
            value(l, k, val, q);
            if (v == 0) { t.ok = false; return t; }
            t.rows[(uint32_t) v] = val;
            continue;
        }
        size_t k = i;
        while (k < l.size() && !sp(l[k])) k++;
        string w = l.substr(i, k - i);
        if (!strcasecmp(w.c_str(), "end")) inside = false;
    }
    return t;
}

const MTable &m_builtin_table(const string &name, bool &ok)
{
    static auto *cache = new std::map<string, MTable>;
    auto it = cache->find(name);
    if (it == cache->end()) {
        MTable t;
        if (name == "safe" || name == "unicode" || name == "iso8859_1" || name == "cp1252") {
            // the generator of the built-in tables hands \uXXXX to the C compiler
            t = m_parse_table(blob_data("tables/" + name + ".tbl"), "");
            for (auto &row : t.rows) {
                string o;
                const string &d = row.second;
                for (size_t i = 0; i < d.size();) {
                    if (d[i] == '\\' && i + 5 < d.size() && d[i + 1] == 'u') {
                        unsigned v = strtoul(d.substr(i + 2, 4).c_str(), nullptr, 16);
                        if (v >= 0x800) { o += (char) (0xe0 | v >> 12); o += (char) (0x80 | (v >> 6 & 63)); }
                        else o += (char) (0xc0 | v >> 6);
                        o += (char) (0x80 | (v & 63));
                        i += 6;
                    } else o += d[i++];
                }
                row.second = o;
            }
        }
        it = cache->emplace(name, t).first;
    }
    ok = it->second.ok;
    return it->second;
}

// ------------------------------------------------------------------------------------------------ filters
static int u8len(unsigned char c)
{
    if (c < 0x80) return 1;
    if (c < 0xc0) return -1;
    if (c < 0xe0) return 2;
    if (c < 0xf0) return 3;
    if (c < 0xf8) return 4;
    if (c < 0xfc) return 5;
    if (c < 0xfe) return 6;
    return -1;
}

string m_filter(const MFilter &f, const string &in)
{
    string o;
    auto xd = [](unsigned char c) { return (c >= '0' && c <= '9') || ((c | 32) >= 'a' && (c | 32) <= 'f'); };
    switch (f.kind) {
    case FK_LOWER:
        for (unsigned char c : in) o += c >= 'A' && c <= 'Z' ? (char) (c + 32) : (char) c;
        return o;
    case FK_UNCGI:
        for (size_t i = 0; i < in.size(); i++) {
            if (in[i] == '+') o += ' ';
            else if (in[i] == '%' && i + 2 < in.size() && xd(in[i + 1]) && xd(in[i + 2])) { o += (char) strtol(in.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
            else o += in[i];
        }
        if (o.find('\0') != string::npos) o = o.substr(0, o.find('\0'));
        return o;
    case FK_WIPEUP: {
        size_t i = 0;
        while (i < in.size() && (in[i] == '-' || in[i] == '_' || in[i] == '#')) i++;
        while (i < in.size()) {
            bool dot = false, dash = false, us = false;
            size_t j = i;
            while (j < in.size()) {
                if (in[j] == '.' && f.trailing) dot = true;
                else if (in[j] == '-') dash = true;
                else if (in[j] == '_') us = true;
                else break;
                j++;
            }
            if (j > i) { o += dot ? '.' : dash ? '-' : '_'; (void) us; i = j; }
            else o += in[i++];
        }
        return o;
    }
    case FK_MAX: {
        size_t max = f.maxlen > 0 ? f.maxlen : 256;
        if (in.size() <= max) return in;
        size_t last = in.rfind('.');
        if (last == string::npos || last + 1 == in.size()) return in.substr(0, max);
        size_t ext = last;
        for (size_t k = 1; k <= 5 && last > k; k++) // a second extension shortly before the last one; never the first character
            if (in[last - k] == '.') { ext = last - k; break; }
        size_t el = in.size() - ext;
        if (max <= el) return in;
        return in.substr(0, max - el) + in.substr(ext);
    }
    case FK_ISO:
    case FK_SAFE: {
        const MTable &t = *f.table;
        for (unsigned char c : in) {
            if (f.kind == FK_ISO && c < 0x80) { o += (char) c; continue; }
            // "The safe filter ignores characters between 0x80 and 0xFF" (CHANGELOG)
            auto it = f.kind == FK_SAFE && c >= 0x80 ? t.rows.end() : t.rows.find(c);
            if (it != t.rows.end()) o += it->second;
            else if (t.has_def) o += t.def;
            else o += (char) c;
        }
        return o;
    }
    case FK_UTF8: {
        const MTable &t = *f.table;
        size_t i = 0;
        while (i < in.size()) {
            int w = u8len(in[i]);
            if (w < 0) { o += '_'; i++; continue; }
            uint32_t v = w == 1 ? (unsigned char) in[i] : (unsigned char) in[i] & (0x7f >> w);
            size_t j = i + 1;
            int k = 1;
            while (k < w && j < in.size() && ((unsigned char) in[j] & 0xc0) == 0x80) { v = (v << 6) | ((unsigned char) in[j] & 0x3f); j++; k++; }
            if (k < w) { o += '_'; i = j; continue; }
            auto it = v ? t.rows.find(v) : t.rows.end();
            if (it != t.rows.end()) o += it->second;
            else if (v == 0) o += "_hidden_null_";
            else if (v > 0x10ffff) o += "_";
            else if (t.has_def) o += t.def;
            else o += in.substr(i, j - i);
            i = j;
        }
        return o;
    }
    }
    return in;
}

string m_apply(const MSeq &s, const string &in)
{
    string w = in;
    for (auto &f : s.filters) w = m_filter(f, w);
    return w;
}

bool m_charwise(const MSeq &s)
{
    // a character filter after another one can see characters that straddle pieces of the first one's output only if
    // the first one produces incomplete characters; accept chains in which at most the first looks at several bytes
    bool first = true;
    for (auto &f : s.filters) {
        if (f.kind == FK_WIPEUP || f.kind == FK_MAX || f.kind == FK_UNCGI) return false;
        if (f.kind == FK_UTF8 && !first) return false;
        first = false;
    }
    return true;
}

// ------------------------------------------------------------------------------------------------ plan
string m_ctype(const ProcSpec &p, const World &w, bool &known)
{
    known = true;
    auto env = [&](const char *k) -> string {
        string pre = string(k) + "=";
        for (auto &e : p.env) if (e.compare(0, pre.size(), pre) == 0) return e.substr(pre.size());
        return "";
    };
    string n = env("LC_ALL");
    if (n.empty()) n = env("LC_CTYPE");
    if (n.empty()) n = env("LANG");
    if (n.empty() || n == "C" || n == "POSIX") return "C";
    if (!env("LOCPATH").empty()) { known = false; return ""; }
    // a locale is there if its files are
    string norm = n;
    size_t dot = n.find('.');
    if (dot != string::npos) {
        string cs;
        for (char c : n.substr(dot + 1)) if (isalnum((unsigned char) c)) cs += tolower(c);
        norm = n.substr(0, dot) + "." + cs;
    }
    for (auto &cand : {n, norm})
        if (w.files.count("/usr/lib/locale/" + cand + "/LC_CTYPE")) return n;
    return "";
}

static string node_text(const Node &n) { return n.blob ? blob_data(n.data) : n.data; }
static bool openable(const Node *n) { return n && !n->e_open && !(n->flags & sim::F_DENY_R) && (n->type == 'f' || n->type == 'd'); }

Plan m_plan(const Scen &sc, const ProcSpec &p)
{
    Plan pl;
    pl.o = m_options(p);
    if (pl.o.early != E_NONE) return pl;
    World w(sc);
    auto env = [&](const char *k, bool &set) -> string {
        string pre = string(k) + "=";
        for (auto &e : p.env) if (e.compare(0, pre.size(), pre) == 0) { set = true; return e.substr(pre.size()); }
        set = false;
        return "";
    };
    auto err = [&](const string &why) { pl.status = M_ERROR; pl.why = why; };
    bool got = false;
    auto load = [&](const string &path) -> bool {
        const Node *n = w.find(p.cwd, path);
        if (!openable(n)) return false;
        pl.setup_files.push_back(n->path);
        got = true;
        if (n->type == 'd') { err(path + " cannot be read"); return true; }
        if (n->read_at >= 0 && n->read_at <= (int64_t) node_text(*n).size()) { err(path + " cannot be read to its end"); return true; }
        MStatus st = m_parse_config(node_text(*n), path, pl.cfg, pl.why);
        if (st != M_OK) pl.status = st;
        return true;
    };
    if (pl.o.cfg) {
        if (!load(*pl.o.cfg)) { err("configuration file cannot be opened"); return pl; }
    } else {
        for (const char *c : {"/usr/local/etc/detoxrc", "/etc/detoxrc", "/usr/local/etc/detoxrc"})
            if (load(c)) break;
        if (pl.status != M_OK) return pl;
        bool set;
        string h = env("HOME", set);
        if (set) { string f = h + "/.detoxrc"; if (f.size() < 256) load(f); }
        if (pl.status != M_OK) return pl;
        string x = env("XDG_CONFIG_HOME", set);
        if (set) { string f = x + "/detox/detoxrc"; if (f.size() < 256) load(f); }
    }
    if (pl.status != M_OK) return pl;
    if (!got) pl.cfg = m_builtin_config();
    // choice of the sequence
    const string want = pl.o.seq ? *pl.o.seq : "default";
    for (size_t i = 0; i < pl.cfg.seqs.size(); i++) if (pl.cfg.seqs[i].name == want) { pl.seq = i; break; }
    if (pl.seq < 0 && !pl.o.seq && !pl.cfg.seqs.empty()) pl.seq = 0;
    if (pl.o.list) return pl;
    if (pl.seq < 0) { err("no such sequence"); return pl; }
    // tables
    bool known;
    string ctype = m_ctype(p, w, known);
    for (auto &f : pl.cfg.seqs[pl.seq].filters) {
        const char *file = f.kind == FK_ISO ? "iso8859_1" : f.kind == FK_UTF8 ? "unicode" : f.kind == FK_SAFE ? "safe" : nullptr;
        if (!file) continue;
        auto use = [&](const Node *n) -> int { // 1 used, 0 not there, -1 error
            if (!n) return 0;
            if (n->e_stat || n->e_open || (n->flags & sim::F_DENY_R)) return 0;
            pl.setup_files.push_back(n->path);
            if (n->type != 'f') return -1;
            string text = node_text(*n);
            if (n->read_at >= 0 && n->read_at <= (int64_t) text.size()) return -1;
            f.table = std::make_shared<MTable>(m_parse_table(text, ctype));
            if (f.table->unspec || (!known && text.find("start") != string::npos)) { pl.status = M_UNSPEC; pl.why = "table with unspecified contents"; }
            return f.table->ok ? 1 : -1;
        };
        bool ok = false;
        if (f.has_builtin) {
            const MTable &t = m_builtin_table(f.builtin, ok);
            if (!ok) { err("no builtin table " + f.builtin); return pl; }
            f.table = std::make_shared<MTable>(t);
            continue;
        }
        if (f.has_file) {
            int r = use(w.find(p.cwd, f.file));
            if (r <= 0) { if (pl.status == M_OK) err("table " + f.file); return pl; }
            continue;
        }
        int r = 0;
        for (const char *d : {"/usr/local/share/detox/", "/usr/share/detox/", "/usr/local/share/detox/"}) {
            r = use(w.find("/", string(d) + file + ".tbl"));
            if (r > 0) break;
            // found by search, but of no use: said on standard error, and the next one is tried
            if (r < 0) { pl.passed_over = true; f.table.reset(); }
        }
        if (r <= 0) {
            const MTable &t = m_builtin_table(file, ok);
            f.table = std::make_shared<MTable>(t);
        }
        if (pl.status != M_OK) return pl;
    }
    pl.will_work = pl.status == M_OK;
    return pl;
}

string m_list_output(const Plan &pl)
{
    string o;
    auto &c = pl.cfg;
    bool v = pl.o.verbose;
    if (!v) o += "available sequences:\n";
    int n = 0;
    for (size_t i = 0; i < c.seqs.size(); i++) {
        auto &s = c.seqs[i];
        if (v) { if (n++) o += "\n"; o += "sequence name: "; } else o += "\t";
        o += s.name + ((int) i == pl.seq ? " (*)" : "") + "\n";
        if (!v) continue;
        o += "\tsource file: " + s.source + "\n";
        for (auto &f : s.filters) {
            switch (f.kind) {
            case FK_UNCGI: o += "\tcleaner: uncgi\n"; break;
            case FK_SAFE: o += "\tcleaner: safe\n"; break;
            case FK_WIPEUP: o += string("\tcleaner: wipeup\n\t\tremove trailing: ") + (f.trailing ? "yes" : "no") + "\n"; break;
            case FK_ISO: o += "\tcleaner: iso8859_1\n"; break;
            case FK_UTF8: o += "\tcleaner: utf_8\n"; break;
            case FK_MAX: o += "\tcleaner: max length\n\t\tlength: " + std::to_string(f.maxlen) + "\n"; break;
            case FK_LOWER: o += "\tcleaner: lower\n"; break;
            }
            if (f.has_builtin) o += "\t\tbuiltin table: " + f.builtin + "\n";
            else if (f.has_file) o += "\t\ttranslation table: " + f.file + "\n";
        }
    }
    if (!c.ignore.empty()) {
        o += "\nfiles to ignore:\n";
        for (auto &i : c.ignore) o += "\t" + i + "\n";
    }
    return o;
}
