#include "gen.h"
#include <algorithm>
#include <set>
#include <stdio.h>
#include <string.h>
using namespace sim;
using std::string;
using std::vector;

// ------------------------------------------------------------------------------------------------ names
static const char *const WORDS[] = {"a", "b", "x", "file", "Foo", "BAR", "img", "data", "IMG", "tmp", "log", "song", "A", "Ab", "z9", "01"};
static const char *const SPECIALS[] = {" ", "  ", "(", ")", "[", "]", "&", ";", "'", "\"", "*", "?", "<", ">", "|", "\\", "$", "!", "~", "`", "^", "{", "}", ",", ":", "=", "@", "+", "\t", "\n", "\x01", "\x7f", "\r"};
static const char *const JOIN[] = {"_", "-", ".", "__", "--", "_-", "-_", "..", "._", ".-", "#", "_._"};
static const char *const PCT[] = {"%20", "%41", "%2541", "%252541", "%2F", "%5f", "%2d", "%", "%4", "%zz", "%2E", "%28", "%61%62", "+", "%c3%a9", "%25", "%7f", "%0a", "%2f", "%2F..", "%2e%2e%2f", "%5c", "%00"};
static const char *const UTF[] = {"\xc3\xa9", "\xc2\xa0", "\xc2\x80", "\xe2\x80\x93", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xef\xbb\xbf", "\xe2\x80\xa8", "\xc3\x84", "\xc3\xbc", "\xc2\xad", "\xf4\x8f\xbf\xbf"};
static const char *const BADU[] = {"\xc0\x80", "\xff", "\xfe", "\x80", "\xbf", "\xe2\x82", "\xf0\x9f", "\xc3", "\xf8\x88\x80\x80\x80", "\xfc\x84\x80\x80\x80\x80", "\xf4\x90\x80\x80", "\xe0\x80\x80", "\xed\xa0\x80", "\xc0\xaf", "\xe9", "\xc0", "\xdf", "\xa0", "\x92", "\xf7\xbf\xbf\xbf"};

#define PICK(arr) string(arr[r.below(sizeof(arr) / sizeof(*arr))])

string Gen::piece()
{
    if (!coded.empty() && r.chance(1, 10)) return coded[r.below(coded.size())];
    switch (r.below(14)) {
    case 0: case 1: case 2: case 3: return PICK(WORDS);
    case 4: case 5: case 6: case 7: return PICK(SPECIALS);
    case 8: case 9: return PICK(JOIN);
    case 10: return PICK(PCT);
    case 11: return PICK(UTF);
    case 12: {
        if (r.chance(1, 2)) return PICK(BADU);
        // any well-formed or ill-formed sequence: all widths, overlong forms, cut short, or with a stray byte
        int w = r.range(2, 6);
        string t(1, (char) ((0xff00 >> w & 0xff) | (r.chance(1, 2) ? 0 : r.below(1u << (7 - w)))));
        int n = r.chance(1, 5) ? r.below(w) : w - 1;
        for (int i = 0; i < n; i++) t += (char) (0x80 | (r.chance(1, 2) && i + 2 < w ? 0 : r.below(64)));
        return t;
    }
    default: { string t(1, (char) r.range(1, 255)); return t == "/" ? "_" : t; }
    }
}

string Gen::raw_name()
{
    string n;
    uint32_t k = r.below(100);
    if (limit && r.chance(1, 8)) { // about as long as the sequence allows, with or without extensions
        static const char *const ext[] = {"", ".txt", ".tar.gz", ".a.b.c", ".", "..", ".x y", ".d_e", ". ", ".tar(1).gz", ".c-", "._z"};
        string e = PICK(ext);
        if (r.chance(1, 10)) e = "." + string(r.range(limit > 4 ? limit - 4 : 1, limit + 2), 'e');
        int want = (int) limit + r.range(-3, 8) - (int) (r.chance(1, 2) ? e.size() : 0);
        if (r.chance(1, 12)) n = ".";
        while ((int) n.size() < want && n.size() < 250) n += r.chance(1, 4) ? piece() : string(1, "abcxyz_-."[r.below(9)]);
        if (want > 0 && (int) n.size() > want) n.resize(want);
        n += e;
        if (n.size() > 255) n.resize(255);
        return n;
    }
    if (k < 12) return PICK(WORDS) + (r.chance(1, 2) ? PICK(WORDS) : "") + (r.chance(1, 2) ? ".txt" : "");     // clean
    if (k < 17) { int c = r.range(1, 3); while (c--) n += PICK(JOIN); return n; }                              // may clean to nothing
    if (k < 24) { n = PICK(WORDS); int c = r.range(1, 3); while (c--) n += PICK(PCT) + (r.chance(1, 2) ? PICK(WORDS) : ""); return n; }
    if (k < 28) { // long
        int len = r.range(180, 255);
        while ((int) n.size() < len) n += r.chance(1, 3) ? piece() : PICK(WORDS);
        n.resize(len);
        return n;
    }
    if (k < 33) return "." + piece() + PICK(WORDS);
    if (k < 36) { static const char *const f[] = {"{arch}", "..a", "...", ".. ", "-.", "-..", "_..", "- -", "%2e", "%2e%2e", "%2E.", "lost+found", "_", " ", "#", "+", "-", "{arch }", "...x", "%2f", "a%2fb"}; return PICK(f); }
    if (k < 46) { // two easy words with one difficult separator: prone to collisions
        static const char *const w[] = {"a", "b", "c"};
        return PICK(w) + (r.chance(1, 2) ? PICK(SPECIALS) : PICK(JOIN)) + PICK(w);
    }
    int c = r.range(1, 4);
    while (c--) n += piece();
    return n;
}

string Gen::name()
{
    for (int tries = 0; tries < 60; tries++) {
        string n = raw_name();
        for (char &c : n) { if (c == '/' || c == 0) c = '_'; if (printable_only && c == '\n') c = ' '; }
        if (n.empty() || n == "." || n == ".." || n.size() > 255) continue;
        if (printable_only && n.find(" -> ") != string::npos) continue;
        if (name_ok && !name_ok(n)) continue;
        return n;
    }
    return "n" + std::to_string(r.below(100000));
}

// ------------------------------------------------------------------------------------------------ configuration
string Gen::q(const string &s)
{
    bool id = !s.empty() && ((s[0] | 32) >= 'a' && (s[0] | 32) <= 'z');
    for (char c : s) if (!((c | 32) >= 'a' && (c | 32) <= 'z') && !(c >= '0' && c <= '9') && c != '_') id = false;
    static const std::set<string> *kw = new std::set<string>{"builtin", "filename", "ignore", "iso8859_1", "length", "lower", "max_length", "remove_trailing", "safe", "sequence", "uncgi", "utf_8", "wipeup"};
    string l;
    for (char c : s) l += c >= 'A' && c <= 'Z' ? c + 32 : c;
    if (kw->count(l)) id = false;
    return id && r.chance(1, 2) ? s : "\"" + s + "\"";
}

void Gen::set_env(ProcSpec &p, const string &k, const string &v)
{
    p.env.push_back(k + "=" + v);
}

string Gen::gen_table(bool utf, bool lang, int size)
{
    string t;
    char b[64];
    auto val = [&]() -> string {
        static const char *const v[] = {"_", "-", "x", "_and_", "", "ab", "__", ".", "AE", "_tab_", "\xc3\xa9", "_hyphen_", "=", "(", "Q", "_a_rather_long_replacement_text_", "\xc2\xa0"};
        string s = PICK(v);
        if (r.chance(1, 40)) s = string(r.range(60, 240), 'L');
        if (r.chance(1, 10)) { // texts that need their quotes
            static const char *const w[] = {"a b", " ", " and ", "x\ty", "# no", "a  b ", "it's", "'", "(x) y", "-\t"};
            static const char *const w2[] = {"say \"x\"", "\"", "a \"b", "5\" x"};
            return r.chance(1, 4) ? "'" + PICK(w2) + "'" : r.chance(1, 2) ? "\"" + PICK(w) + "\"" : "'" + string(w[r.below(6)]) + "'";
        }
        uint32_t k = r.below(4);
        if (s.empty() || k == 0) return "\"" + s + "\"";
        if (k == 1) return "'" + s + "'";
        return s;
    };
    auto code = [&](int c) -> string {
        switch (r.below(4)) {
        case 0: snprintf(b, sizeof b, "0x%02X", c); break;
        case 1: snprintf(b, sizeof b, "0%o", c); break;
        case 2: snprintf(b, sizeof b, "0x%04x", c); break;
        default: snprintf(b, sizeof b, "%d", c);
        }
        return b;
    };
    auto row = [&](int c) -> string {
        string l;
        if (r.chance(1, 6)) l += r.chance(1, 2) ? " " : "\t";
        l += code(c) + (r.chance(1, 2) ? "\t" : r.chance(1, 2) ? " " : "\t\t ") + val();
        if (r.chance(1, 8)) l += "\t# comment";
        return l + "\n";
    };
    auto anycode = [&]() -> int {
        uint32_t k = r.below(10);
        if (k < 5) return r.range(1, 126);
        if (k < 8) return r.range(0x80, 0xff);
        if (utf) { static const int c[] = {0x100, 0x20ac, 0x2013, 0x1f600, 0xfeff, 0x2028, 0xa0, 0xe9, 0xc4, 0x10ffff, 0x110000, 0x7ff, 0x800, 0xffff, 0x10000}; return c[r.below(15)]; }
        return r.range(0xa0, 0xff);
    };
    if (r.chance(1, 2)) t += "# a table\n\n";
    uint32_t d = r.below(6);
    if (d == 0) t += "default _\n";
    else if (d == 1) t += "default \"--\"\n";
    else if (d == 2) t += "default\n";
    else if (d == 3 && r.chance(1, 3)) t += "default \"\"\n";
    else if (d == 4 && r.chance(1, 3)) t += "default 'a_long_default_text_for_everything'\n";
    bool wide = r.chance(1, 12), longtext = prop == "C15" && r.chance(1, 3);
    int blocks = r.chance(1, 4) ? r.range(2, 3) : 1;
    if (r.chance(1, 25)) blocks = 0;
    for (int k = 0; k < blocks; k++) {
        string st = r.chance(1, 6) ? "START" : "start";
        if (lang && r.chance(1, 2)) {
            static const char *const l[] = {"en", "de", "\"de_DE\"", "en_US", "'fr'", "C", "de_DE.UTF-8", "e", "EN_us"};
            st += " " + PICK(l);
        }
        t += st + "\n";
        int n = size ? size / blocks : r.range(0, 12);
        if (size) {
            // many rows; short ones are legal too
            bool tight = r.chance(1, 2);
            int from = tight ? 1 : r.range(1, 4000);
            for (int i = 0; i < n; i++) {
                int c = from + i;
                if (tight) { snprintf(b, sizeof b, "%d %c\n", c, "abcdefgh_-"[r.below(10)]); t += b; }
                else t += row(c);
                if (r.chance(1, 50)) t += row(anycode());
            }
        } else {
            for (int i = 0; i < n; i++) {
                if (r.chance(1, 12)) t += r.chance(1, 2) ? "\n" : "# remark\n";
                t += row(anycode());
                if (wide && r.chance(1, 6)) {
                    // a long line: a remark whose tail looks like a row wherever it is cut, or a long text
                    int w = r.chance(1, 2) ? 1023 * r.range(1, 3) : r.range(200, 3000);
                    if (r.chance(2, 3)) { t += "#" + string(w - 1, "x #"[r.below(3)]); while (r.chance(3, 4)) t += " " + code(anycode()) + " cut"; t += "\n"; }
                    else if (longtext) { string x = code(anycode()); t += x + " \"" + string(std::max(1, (int) w - 4 - (int) x.size() + (int) r.below(5) - 2), "q_-"[r.below(3)]) + "\"\n"; longtext = false; }
                    else t += string(w, ' ') + row(anycode());
                }
            }
            if (r.chance(1, 10)) { int c = anycode(), m = r.range(2, 40); while (m--) t += row(c); }
            if (r.chance(1, 60)) { int c = r.range(40, 120), m = r.range(500, 700); while (m--) t += row(c); }
        }
        t += r.chance(1, 8) ? "END\n" : "end\n";
        if (r.chance(1, 10)) t += "0x41 ignored_outside\n";
    }
    if (r.chance(1, 12) && !t.empty()) t.pop_back();
    return t;
}

string Gen::gen_sequence_body(const CfgOpts &o, const string &cwd)
{
    string b;
    int n = r.chance(1, 8) ? r.range(4, 6) : r.range(1, 3);
    static const char *const bt[] = {"safe", "unicode", "iso8859_1", "cp1252"};
    for (int i = 0; i < n; i++) {
        uint32_t k = r.below(o.charwise ? 5 : 8);
        if (o.charwise && i > 0 && (k == 1)) k = 2;
        if (k == 5 && !o.uncgi) k = 6;
        switch (k) {
        case 0: case 1: case 2: case 3: {
            const char *f = k == 0 ? "iso8859_1" : k == 1 ? "utf_8" : "safe";
            b += f;
            uint32_t m = r.below(6);
            if (m == 0) b += ";";
            else if (m == 1) b += " { };";
            else if (m <= 3) b += " { builtin " + q(k == 2 && m == 3 ? "safe" : PICK(bt)) + "; };";
            else {
                string fn = "/cfg/t" + std::to_string(r.below(4)) + ".tbl";
                if (r.chance(1, 6)) fn = "/cfg/my table.tbl";
                Node nd;
                nd.path = fn;
                bool have = false;
                for (auto &x : s.nodes) if (x.path == fn) have = true;
                if (!have) { nd.data = gen_table(k == 1, o.lang, r.chance(1, 30) ? r.range(480, 800) : 0); s.nodes.push_back(nd); }
                b += " { filename \"" + fn + "\"; };";
            }
            break;
        }
        case 4: b += "lower;"; break;
        case 5: b += "uncgi;"; break;
        case 6: b += r.chance(1, 3) ? "wipeup;" : r.chance(1, 4) ? "wipeup {};" : "wipeup {\n remove_trailing;\n};"; break;
        case 7: b += r.chance(1, 4) ? "max_length;" : r.chance(1, 8) ? "max_length { };" : "max_length { length " + std::to_string(r.chance(1, 5) ? r.range(1, 12) : r.chance(1, 8) ? 0 : r.range(8, 300)) + "; };"; break;
        }
        b += r.chance(1, 3) ? " # remark {;\n" : "\n";
    }
    return b;
}

static const char *const SEQN[] = {"default", "my seq", "alpha", "Beta", "utf_8", "lower", "x-1", "default2", "Default", "seq 9"};

string Gen::gen_config_text(const CfgOpts &o, vector<string> *names, const string &cwd)
{
    string t;
    int n = r.chance(1, 12) ? 0 : r.range(1, 3);
    auto ign = [&] {
        t += r.chance(1, 5) ? "IGNORE {\n" : "ignore {\n";
        int m = r.chance(1, 20) ? r.range(16, 40) : r.range(1, 4);
        while (m--) {
            string nm;
            do nm = r.chance(1, 3) ? "{arch}" : raw_name(); while (nm.empty() || nm.find('"') != string::npos || nm.find('\n') != string::npos || nm.find('/') != string::npos);
            t += "  filename " + q(nm) + ";\n";
        }
        t += "};\n";
    };
    if (r.chance(1, 3)) ign();
    for (int i = 0; i < n; i++) {
        string nm = PICK(SEQN);
        if (names) names->push_back(nm);
        if (r.chance(1, 5)) t += "# about " + nm + "\n";
        t += (r.chance(1, 8) ? "Sequence " : "sequence ") + q(nm) + (r.chance(1, 4) ? "\n{\n" : " {\n") + gen_sequence_body(o, cwd) + "};\n";
    }
    if (r.chance(1, 3)) ign();
    return t;
}

void Gen::choose_config(ProcSpec &p, const CfgOpts &o)
{
    static const char *const builtin_seq[] = {"default", "default", "iso8859_1", "iso8859_1-legacy", "utf_8", "uncgi", "lower", "iso8859_1-only", "cp1252-only", "utf_8-only", "uncgi-only", "lower-only", "uncgi-only", "utf_8"};
    uint32_t k = r.below(100);
    if (o.charwise && k < 55) {
        static const char *const cw[] = {"utf_8-only", "iso8859_1-only", "cp1252-only", "lower-only"};
        p.argv.push_back("-s"); p.argv.push_back(PICK(cw));
        return;
    }
    if (k < (o.exotic ? 55u : 80u) && !o.charwise) {
        if (r.chance(1, 6)) return; // the default sequence
        string sq = PICK(builtin_seq);
        if (!o.uncgi && sq.find("uncgi") != string::npos) sq = "default";
        if (r.chance(1, 8)) set_env(p, "DETOX_SEQUENCE", sq);
        else { p.argv.push_back("-s"); p.argv.push_back(sq); }
        return;
    }
    vector<string> names;
    Node n;
    n.data = gen_config_text(o, &names, p.cwd);
    for (int t = 0; t < 20 && names.empty(); t++) n.data = gen_config_text(o, &names, p.cwd);
    uint32_t where = r.below(4);
    if (where <= 1) { n.path = "/cfg/rc"; p.argv.push_back("-f"); p.argv.push_back(n.path); }
    else if (where == 2) { n.path = "/home/u/.detoxrc"; set_env(p, "HOME", "/home/u"); }
    else n.path = r.chance(1, 2) ? "/usr/local/etc/detoxrc" : "/etc/detoxrc";
    s.nodes.push_back(n);
    if (!names.empty()) {
        string nm = names[r.below(names.size())];
        if (r.chance(3, 4)) { p.argv.push_back("-s"); p.argv.push_back(nm); }
    }
}

// The configuration the program comes with, built in or installed, and one of its sequences that clean up afterwards.
void Gen::shipped_config(ProcSpec &p)
{
    static const char *const sq[] = {"default", "utf_8", "lower", "default", "utf_8", "iso8859_1", "iso8859_1-legacy", "uncgi"};
    if (have_blob("repo/detoxrc") && r.chance(1, 2)) {
        Node n;
        n.blob = true;
        n.data = "repo/detoxrc";
        uint32_t k = r.below(5);
        if (k == 0) { n.path = "/cfg/rc"; p.argv.push_back("-f"); p.argv.push_back(n.path); }
        else if (k == 1) { n.path = "/home/u/.detoxrc"; set_env(p, "HOME", "/home/u"); }
        else if (k == 2) { n.path = "/home/u/.config/detox/detoxrc"; set_env(p, "XDG_CONFIG_HOME", "/home/u/.config"); }
        else n.path = k == 3 ? "/usr/local/etc/detoxrc" : "/etc/detoxrc";
        s.nodes.push_back(n);
    }
    if (r.chance(1, 6)) return;
    string n = PICK(sq);
    if (r.chance(1, 6)) set_env(p, "DETOX_SEQUENCE", n);
    else { p.argv.push_back("-s"); p.argv.push_back(n); }
}

bool Gen::replan(ProcSpec &p)
{
    ProcSpec q2 = p;
    q2.argv.push_back("/w");
    plan = m_plan(s, q2);
    seq = plan.status == M_OK && plan.seq >= 0 ? &plan.cfg.seqs[plan.seq] : nullptr;
    coded.clear();
    limit = 0;
    if (!seq) return false;
    // characters the tables in use say something about, and the length limit in use, are worth meeting
    for (auto &f : seq->filters) {
        if (f.kind == FK_MAX) limit = f.maxlen > 0 && f.maxlen < 250 ? f.maxlen : limit;
        if (!f.table || f.builtin.size()) continue;
        size_t left = 24;
        for (auto &kv : f.table->rows) {
            if (!left || (f.table->rows.size() > 40 && !r.chance(1, 12))) continue;
            uint32_t c = kv.first;
            string e;
            if (f.kind != FK_UTF8 || c < 0x80) { if (c && c < 256 && c != '/') e += (char) c; }
            else if (c < 0x800) { e += (char) (0xc0 | c >> 6); e += (char) (0x80 | (c & 63)); }
            else if (c < 0x10000) { e += (char) (0xe0 | c >> 12); e += (char) (0x80 | (c >> 6 & 63)); e += (char) (0x80 | (c & 63)); }
            else if (c < 0x200000) { e += (char) (0xf0 | c >> 18); e += (char) (0x80 | (c >> 12 & 63)); e += (char) (0x80 | (c >> 6 & 63)); e += (char) (0x80 | (c & 63)); }
            if (!e.empty()) { coded.push_back(e); left--; }
        }
    }
    return true;
}

// ------------------------------------------------------------------------------------------------ trees
static string foldn(const string &n) { string o; for (char c : n) o += c >= 'A' && c <= 'Z' ? c + 32 : c; return o; }

void Gen::one_dir(const string &dir, int n, int depth, bool special, bool casefold, int &budget)
{
    std::set<string> used, sused;
    auto key = [&](const string &x) { return casefold ? foldn(x) : x; };
    vector<string> files, all;
    for (int i = 0; i < n && budget > 0; i++) {
        string nm;
        if (!plan.cfg.ignore.empty() && r.chance(1, 8)) { // on the ignore list, or nearly
            nm = plan.cfg.ignore[r.below(plan.cfg.ignore.size())];
            size_t at = nm.empty() ? 0 : r.below(nm.size());
            switch (r.below(7)) {
            case 0: for (char &c : nm) if (c >= 'a' && c <= 'z') c -= 32; else if (c >= 'A' && c <= 'Z') c += 32; break;
            case 1: nm += PICK(SPECIALS); break;
            case 2: nm = PICK(SPECIALS) + nm; break;
            case 3: if (!nm.empty()) nm.erase(at, 1); break;
            default: break;
            }
            if (nm.empty() || nm == "." || nm == ".." || nm.size() > 255 || nm.find('/') != string::npos || (name_ok && !name_ok(nm)) || (printable_only && nm.find('\n') != string::npos)) nm = name();
        } else if (!all.empty() && !nocollide && r.chance(1, 5) && seq) { // something that competes with an existing name
            string o = all[r.below(all.size())];
            if (r.chance(1, 2)) nm = m_apply(*seq, o);
            else { nm = o; for (char &c : nm) if (r.chance(1, 3) && (c == '_' || c == ' ' || c == '-' || c == '(')) c = "_ -(;"[r.below(5)]; if (r.chance(1, 6)) nm += r.chance(1, 2) ? "_" : " "; }
            if (nm.empty() || nm == "." || nm == ".." || nm.size() > 255 || nm.find('/') != string::npos || (name_ok && !name_ok(nm)) || (printable_only && nm.find('\n') != string::npos)) nm = name();
        } else nm = name();
        if (n >= 250 && used.count(key(nm)) && nm.size() < 240) { // so that wide directories are as wide as they should be
            string nn = nm + " " + std::to_string(i);
            if (!name_ok || name_ok(nn)) nm = nn;
        }
        if (used.count(key(nm))) continue;
        if (nocollide && seq) {
            string sn = m_apply(*seq, nm);
            if (sused.count(key(nm)) || used.count(key(sn)) || sused.count(key(sn))) continue;
            sused.insert(key(sn));
        }
        used.insert(key(nm));
        all.push_back(nm);
        budget--;
        Node nd;
        nd.path = dir + "/" + nm;
        uint32_t k = r.below(100);
        if (depth > 0 && k < 30) {
            nd.type = 'd';
            if (casefold) nd.flags |= F_CASEFOLD;
            s.nodes.push_back(nd);
            one_dir(nd.path, r.chance(1, 6) ? 0 : r.range(1, 6), depth - 1, special, casefold, budget);
            continue;
        }
        if (special && k >= 30 && k < 50) {
            static const char ty[] = "lllpsbc";
            nd.type = ty[r.below(7)];
            if (nd.type == 'l') {
                switch (r.below(4)) {
                case 0: nd.data = all[r.below(all.size())]; break;
                case 1: nd.data = "/w"; break;
                case 2: nd.data = "nowhere"; break;
                default: nd.data = ".."; break;
                }
            }
        } else if (k >= 50 && k < 58 && !files.empty() && (special || k < 54)) {
            nd.type = 'h';
            nd.data = files[r.below(files.size())];
            if (seq && !nocollide && r.chance(1, 2)) { // a second name of a file, under the name the file should get
                string nn = m_apply(*seq, nd.data.substr(nd.data.rfind('/') + 1));
                if (!nn.empty() && nn != "." && nn != ".." && nn.size() < 256 && nn.find('/') == string::npos && (!name_ok || name_ok(nn)) && used.insert(key(nn)).second) { nd.path = dir + "/" + nn; all.push_back(nn); }
            }
        } else {
            nd.data = "content-" + std::to_string(s.nodes.size());
            files.push_back(nd.path);
        }
        s.nodes.push_back(nd);
    }
}

void Gen::tree(const string &dir, int n, int depth, bool special, bool casefold)
{
    int budget = thorough ? 400 : 160;
    if (n > budget) budget = n + 10;
    one_dir(dir, n, depth, special, casefold, budget);
}

vector<string> Gen::dirs() const
{
    vector<string> d{"/w"};
    for (auto &n : s.nodes) if (n.type == 'd' && n.path.compare(0, 3, "/w/") == 0) d.push_back(n.path);
    return d;
}

void Gen::layout_knobs()
{
    s.order = r.below(2);
    s.relist = r.below(4);
    uint32_t k = r.below(5);
    s.batch = k == 0 ? 1 : k == 1 ? 2 : k == 2 ? r.range(3, 9) : 0;
    s.dtype_unknown = r.chance(1, 5);
    s.heap_fill = r.chance(1, 3) ? r.below(256) : 256;
}

static bool inw(const Node &n) { return n.path.compare(0, 3, "/w/") == 0; }

// errors that stay for as long as the object exists
void Gen::env_faults(int n)
{
    vector<size_t> idx;
    for (size_t i = 0; i < s.nodes.size(); i++) if (inw(s.nodes[i])) idx.push_back(i);
    if (idx.empty()) return;
    while (n--) {
        Node &x = s.nodes[idx[r.below(idx.size())]];
        if (x.type == 'h') continue;
        static const int es[] = {EACCES, EIO, ESTALE, ENOENT, ENOMEM, EOVERFLOW, ELOOP, ENOTDIR, ENAMETOOLONG, EINTR};
        static const int er[] = {EACCES, EPERM, EROFS, EBUSY, EIO, ENOSPC, EXDEV, EDQUOT, EINVAL, EMLINK, EEXIST, ENOTEMPTY, ELOOP, EINTR};
        static const int eo[] = {EACCES, EPERM, ENFILE, ENOMEM, EIO, ENOENT, ENXIO, ENOTDIR, ELOOP, ENAMETOOLONG, EOVERFLOW};
        static const int el[] = {EIO, ENOENT, ESTALE, EINVAL};
        uint32_t k = r.below(10);
        if (k < 2) { x.e_stat = es[r.below(10)]; if (x.e_stat == ENOENT && s.norename2) x.e_stat = EACCES; } // without RENAME_NOREPLACE only lstat() tells
        else if (k < 5) x.e_rename = er[r.below(14)];
        else if (x.type == 'd') {
            if (k == 5) x.flags |= F_DENY_W;
            else if (k == 6) x.flags |= F_DENY_R;
            else if (k == 7) x.flags |= F_DENY_X;
            else if (k == 8) x.e_open = eo[r.below(11)];
            else { x.e_list = el[r.below(4)]; x.list_after = r.range(0, 8); }
        } else if (k < 7) x.flags |= F_MOUNT;
        else x.e_rename = er[r.below(14)];
    }
}

ProcSpec Gen::proc(const string &a0)
{
    ProcSpec p;
    p.argv.push_back(a0);
    p.nofile = 24;
    if (r.chance(1, 4)) set_env(p, "HOME", "/home/u");
    if (r.chance(1, 40)) set_env(p, "POSIXLY_CORRECT", "1");
    return p;
}

string Gen::rel(const string &path, const string &cwd)
{
    if (path == cwd) return ".";
    if (path.compare(0, cwd.size() + 1, cwd + "/") == 0) {
        string x = path.substr(cwd.size() + 1);
        if (r.chance(1, 6) || x[0] == '-') x = "./" + x;
        return x;
    }
    return path;
}

// style 0: one directory; 1: several independent top-level entries; 2: anything
void Gen::args(ProcSpec &p, int style)
{
    vector<const Node *> top, all;
    for (auto &n : s.nodes) {
        if (!inw(n)) continue;
        all.push_back(&n);
        if (n.path.find('/', 3) == string::npos) top.push_back(&n);
    }
    if (all.empty()) style = 0;
    vector<string> out;
    auto form = [&](const string &path, bool isdir) -> string {
        string x = r.chance(1, 2) ? path : rel(path, p.cwd);
        if (r.chance(1, 12)) { size_t k = x.find('/'); if (k != string::npos) x.insert(k, "/"); }
        if (isdir && r.chance(1, 10)) x += "/";
        else if (isdir && r.chance(1, 25)) x += "/.";
        return x;
    };
    if (style == 0) {
        vector<string> d = dirs();
        string x = r.chance(3, 5) ? "/w" : d[r.below(d.size())];
        if (r.chance(1, 3)) { p.cwd = x; out.push_back(r.chance(1, 4) ? "./" : "."); }
        else out.push_back(form(x, true));
    } else if (style == 1) {
        std::set<string> seen;
        int m = r.chance(1, 10) ? r.range(17, 40) : r.range(1, 5);
        while (m--) {
            const Node *n = top[r.below(top.size())];
            if (!seen.insert(n->path).second) continue;
            string x = r.chance(1, 2) ? n->path : rel(n->path, p.cwd);
            if (r.chance(1, 20)) { size_t k = x.find('/'); if (k != string::npos) x.insert(k, "/"); }
            out.push_back(x);
        }
        if (r.chance(1, 6)) out.insert(out.begin() + r.below(out.size() + 1), "/w/no such thing");
    } else {
        int m = r.chance(1, 10) ? r.range(17, 36) : r.range(1, 6);
        while (m--) {
            uint32_t k = r.below(12);
            if (k == 0) out.push_back("/w");
            else if (k == 1) out.push_back("missing" + std::to_string(r.below(4)));
            else if (k == 2 && !out.empty()) out.push_back(out[r.below(out.size())]);
            else if (k == 3) { p.cwd.size(); out.push_back(p.cwd == "/w" ? "." : ".."); }
            else { const Node *n = all[r.below(all.size())]; out.push_back(form(n->path, n->type == 'd')); }
        }
        if (r.chance(1, 25)) out.push_back("");
    }
    bool dash = false;
    for (auto &x : out) if (!x.empty() && x[0] == '-') dash = true;
    if (dash || r.chance(1, 10)) p.argv.push_back("--");
    for (auto &x : out) p.argv.push_back(x);
}

// The same command line said in another way: options twice, joined, abbreviated, or after the file names.
void Gen::vary_options(ProcSpec &p)
{
    if (p.argv.size() < 2 || r.chance(1, 2)) return;
    auto same = [](const MOpts &a, const MOpts &b) {
        return a.inl == b.inl && a.dry == b.dry && a.list == b.list && a.rec == b.rec && a.special == b.special && !a.verbose == !b.verbose
            && a.seq == b.seq && a.cfg == b.cfg && a.files == b.files && a.early == b.early;
    };
    const MOpts was = m_options(p);
    ProcSpec q = p;
    // cut into options and the rest
    vector<vector<string>> opt;
    vector<string> rest;
    bool dd = false;
    for (size_t i = 1; i < p.argv.size(); i++) {
        const string &a = p.argv[i];
        if (!dd && a == "--") { dd = true; continue; }
        if (!dd && a.size() > 1 && a[0] == '-') {
            opt.push_back({a});
            if ((a == "-s" || a == "-f") && i + 1 < p.argv.size()) opt.back().push_back(p.argv[++i]);
        } else rest.push_back(a);
    }
    if (opt.empty()) return;
    int m = r.range(1, 3);
    while (m--) {
        size_t k = r.below(opt.size());
        vector<string> o = opt[k];
        switch (r.below(6)) {
        case 0: case 1: opt.insert(opt.begin() + r.below(opt.size() + 1), o); break; // twice; -s and -f: the last one counts
        case 2: if (o.size() == 2) opt[k] = {o[0] + o[1]}; else if (o[0].compare(0, 2, "--") == 0 && o[0].size() > 5) opt[k][0].resize(r.range(5, o[0].size())); break;
        case 3:
            if (o[0] == "-n") opt[k][0] = "--dry-run"; else if (o[0] == "--dry-run") opt[k][0] = "-n";
            else if (o[0] == "-r") opt[k][0] = "--recursive"; else if (o[0] == "--recursive") opt[k][0] = "-r";
            else if (o[0] == "-v") opt[k][0] = "--verbose"; else if (o[0] == "--verbose") opt[k][0] = "-v";
            break;
        case 4: { // joined
            size_t j = r.below(opt.size());
            if (j == k || opt[j].size() > 1 || opt[j][0].size() != 2 || opt[j][0][0] != '-' || o[0][0] != '-' || o[0][1] == '-') break;
            opt[k][0] = "-" + opt[j][0].substr(1) + o[0].substr(1);
            if (r.chance(2, 3)) opt.erase(opt.begin() + j);
            break;
        }
        case 5: std::swap(opt[k], opt[r.below(opt.size())]); break;
        }
    }
    // options may come between and after the file names
    size_t late = !dd && r.chance(1, 3) ? r.below(opt.size() + 1) : 0;
    q.argv.resize(1);
    for (size_t i = 0; i + late < opt.size(); i++) q.argv.insert(q.argv.end(), opt[i].begin(), opt[i].end());
    if (dd) q.argv.push_back("--");
    vector<vector<string>> tail(rest.size());
    for (size_t i = 0; i < rest.size(); i++) tail[i] = {rest[i]};
    for (size_t i = opt.size() - late; i < opt.size(); i++) tail.insert(tail.begin() + r.below(tail.size() + 1), opt[i]);
    for (auto &x : tail) q.argv.insert(q.argv.end(), x.begin(), x.end());
    if (same(was, m_options(q))) p.argv = q.argv;
}

enum { TF_REC = 1, TF_PRINT = 2, TF_NOCOLL = 4, TF_IDEM = 8, TF_ENV = 16, TF_MESSY = 32, TF_ONEARG = 64, TF_NOCFG = 128, TF_NODRY = 256, TF_VERB = 512, TF_NOCASE = 1024, TF_FORCEREC = 2048, TF_SMALL = 4096, TF_CLEANTOP = 8192, TF_NOSPECIAL = 16384, TF_SHIPPED = 32768, TF_BIG = 65536 };

bool Gen::tree_run(int fl)
{
    ProcSpec p = proc(r.chance(1, 5) ? "/usr/bin/detox" : "detox");
    CfgOpts o;
    o.exotic = !(fl & TF_NOCFG);
    o.lang = false;
    if (fl & TF_SHIPPED) shipped_config(p);
    else choose_config(p, o);
    s.procs.push_back(p);
    tame();
    s.procs.pop_back();
    if (!replan(p)) return false;
    printable_only = fl & TF_PRINT;
    nocollide = fl & TF_NOCOLL;
    if (printable_only) for (auto &f : seq->filters) if (f.table) for (auto &kv : f.table->rows) if (kv.second.find('\n') != string::npos) return false;
    const MSeq *sq = seq;
    bool pr = printable_only, idem = fl & TF_IDEM;
    name_ok = [sq, pr, idem](const string &n) {
        string m = m_apply(*sq, n);
        if (pr && (m.find('\n') != string::npos || m.find("->") != string::npos || n.find("->") != string::npos)) return false;
        if (idem && (m.size() > 255 || m_apply(*sq, m) != m || m.empty() || m == "." || m == ".." || m.find('/') != string::npos || m.size() > 255)) return false;
        return true;
    };
    bool casefold = !(fl & TF_NOCASE) && r.chance(1, 8);
    bool special = !(fl & TF_NOSPECIAL) && r.chance(1, 2);
    if (casefold) { Node n; n.path = "/w"; n.type = 'd'; n.flags = F_CASEFOLD; s.nodes.push_back(n); }
    uint32_t k = r.below(100);
    if ((fl & TF_BIG) && k < 85) k = r.chance(1, 3) ? 93 : 85;
    if (k < 60 || (fl & TF_SMALL)) tree("/w", r.range(1, 10), r.range(0, 3), special, casefold);
    else if (k < 85) tree("/w", r.range(5, 25), r.range(1, 4), special, casefold);
    else if (k < 93) { // wide
        bool huge = r.chance(1, 10);
        tree("/w", huge ? r.range(250, thorough ? 5000 : 2400) : r.range(40, thorough ? 500 : 120), huge ? 0 : r.below(2), special, casefold);
    } else { // deep
        string d = "/w";
        int depth = r.range(8, thorough ? 60 : 30);
        bool lengthy = r.chance(1, 3);
        for (int i = 0; i < depth; i++) {
            Node n;
            string nm = name();
            if (lengthy && nm.size() < 60) { nm = "long dir name " + string(r.range(20, 180), "abc_"[r.below(4)]) + nm.substr(0, 20); if (nm.find('/') != string::npos || (printable_only && nm.find("->") != string::npos)) nm = "deep dir"; }
            if ((nm.size() > 60 && !lengthy) || nm == "x y" || nm == "file") nm = "deep dir";
            if (name_ok && !name_ok(nm)) nm = "d";
            if (d.size() + nm.size() > 3600) break;
            d += "/" + nm;
            n.path = d; n.type = 'd';
            if (casefold) n.flags = F_CASEFOLD;
            s.nodes.push_back(n);
            if (r.chance(1, 2)) { Node f; f.path = d + "/" + (i & 1 ? "x y" : "file"); if (name_ok && !name_ok("x y")) f.path = d + "/file"; f.data = "deep" + std::to_string(i); s.nodes.push_back(f); }
        }
        std::set<string> seen;
        vector<Node> keep;
        for (auto &n : s.nodes) if (seen.insert(casefold ? foldn(n.path) : n.path).second) keep.push_back(n);
        s.nodes = keep;
    }
    if (r.chance(1, 8)) { // files of different devices that share inode numbers
        int k = 0;
        for (auto &n : s.nodes) if (inw(n) && n.type == 'f' && r.chance(1, 2)) { n.dev = 0x900 + (k & 1); n.ino = 77 + k / 2; k++; }
    }
    if ((fl & TF_REC) && r.chance(3, 4)) p.argv.push_back(r.chance(1, 4) ? "--recursive" : "-r");
    if (fl & TF_FORCEREC) p.argv.push_back("-r");
    if (special && r.chance(1, 2)) p.argv.push_back("--special");
    if (fl & TF_VERB ? r.chance(3, 4) : r.chance(1, 4)) p.argv.push_back(r.chance(1, 3) ? "--verbose" : "-v");
    if (!(fl & TF_NODRY) && r.chance(1, 12)) p.argv.push_back("-n");
    if (fl & TF_ENV) env_faults(r.below(4));
    args(p, (fl & TF_ONEARG) ? r.below(2) : (fl & TF_MESSY) ? r.below(3) : r.below(2));
    // a tree in which there is nothing to do is not worth much
    size_t dirty = 0;
    for (auto &n : s.nodes) if (inw(n)) { size_t at = n.path.rfind('/') + 1; if (n.path[at] != '.' && m_apply(*seq, n.path.substr(at)) != n.path.substr(at)) dirty++; }
    if (!dirty && !r.chance(1, 10)) return false;
    wants_work = r.chance(3, 4);
    if (r.chance(1, 10)) p.out_kind = 2;
    layout_knobs();
    s.procs.push_back(p);
    return true;
}

// ------------------------------------------------------------------------------------------------ inline
string Gen::inline_text(bool longlines, bool charwise, int lines)
{
    string t;
    bool saved = printable_only;
    for (int i = 0; i < lines; i++) {
        string l;
        uint32_t k = r.below(20);
        if (k == 0) l = "";
        else if (k == 1) l = r.chance(1, 2) ? "." : "..";
        else if (k == 2 && longlines && charwise && r.chance(1, 2)) {
            // a long line whose last piece, wherever the input is cut, is something that would be special as a whole line
            static const char *const e[] = {".", "..", "", "a", " ", "...", "_", "\xc3\xa9"};
            int target = r.chance(3, 4) ? 1007 * r.range(1, 3) + r.range(-1, 1) : 1023 * r.range(1, 3) + r.range(-1, 1);
            if (r.chance(1, 2)) l = string(target, "ab_ "[r.below(4)]);
            else while ((int) l.size() < target) { l += r.chance(1, 20) ? PICK(UTF) : PICK(WORDS); if ((int) l.size() > target && (unsigned char) l[target] < 0x80) l.resize(target); }
            l += PICK(e);
        } else if (k < 5 && longlines) {
            // around the internal buffer boundary, or far beyond it
            int target = charwise ? (r.chance(1, 2) ? r.range(1000, 1016) : r.chance(1, 2) ? r.range(1990, 2060) : r.range(900, 4200)) : r.range(700, 990);
            bool dense = r.chance(1, 2);
            while ((int) l.size() < target) l += dense ? (r.chance(1, 2) ? PICK(UTF) : PICK(BADU)) : piece();
            if (!charwise && l.size() > 995) l.resize(995);
        } else { int c = r.range(1, 8); while (c--) l += piece(); }
        string m;
        for (char c : l) if (c != '\n' && c != 0) m += c;
        t += m;
        t += "\n";
    }
    if (r.chance(1, 3) && !t.empty()) t.pop_back();
    printable_only = saved;
    return t;
}

bool Gen::inline_run(bool err)
{
    bool bin = r.chance(1, 2);
    ProcSpec p = proc(bin ? (r.chance(1, 3) ? "/usr/bin/inline-detox" : "inline-detox") : "detox");
    bool late = r.chance(1, 2); // said after the other options
    if (!bin && !late) p.argv.push_back("--inline");
    CfgOpts o;
    o.charwise = r.chance(1, 2);
    o.lang = false;
    choose_config(p, o);
    if (!replan(p)) return false;
    bool cw = m_charwise(*seq);
    if (r.chance(1, 12)) p.argv.push_back(r.chance(1, 2) ? "-v" : "--verbose");
    if (r.chance(1, 20)) p.argv.push_back(r.chance(1, 2) ? "-n" : "--dry-run");
    if (r.chance(1, 8)) p.argv.push_back(r.chance(1, 2) ? "-r" : "--recursive");
    if (r.chance(1, 12)) p.argv.push_back("--special");
    if (!bin && late) p.argv.push_back("--inline");
    uint32_t ch = r.below(6);
    p.chunk = ch == 0 ? 1 : ch == 1 ? r.range(2, 7) : ch == 2 ? r.range(8, 64) : ch == 3 ? r.range(500, 1100) : 0;
    p.wchunk = r.chance(1, 5) ? r.range(1, 200) : 0;
    p.out_kind = r.chance(1, 10) ? 2 : r.below(2);
    if (r.chance(1, 2)) {
        p.in = inline_text(true, cw, r.range(0, 12));
        p.in_kind = r.below(2);
        if (r.chance(1, 20)) p.in_kind = 2;
        if (err && r.chance(1, 3)) { p.in_err_at = r.below(p.in.size() + 1); static const int e[] = {EIO, EISDIR, ESTALE}; p.in_errno = e[r.below(3)]; }
    } else {
        int n = r.range(1, 4);
        for (int i = 0; i < n; i++) {
            Node f;
            f.path = "/w/in" + std::to_string(i);
            uint32_t k = r.below(err ? 12 : 24);
            if (k == 0) { p.argv.push_back("/w/absent"); continue; }
            if (k == 1) f.type = 'd';
            else {
                f.data = inline_text(true, cw, r.range(0, 8));
                if (err) {
                    if (k == 2) f.e_open = r.chance(1, 2) ? EACCES : EIO;
                    else if (k <= 4) { f.read_at = r.below(f.data.size() + 1); f.e_read = r.chance(1, 2) ? EIO : ESTALE; }
                    else if (k == 5) f.e_stat = EACCES;
                }
            }
            bool plain = f.type == 'f' && !f.e_open && !f.e_stat && f.read_at < 0;
            if (plain && r.chance(1, 10)) { // a pipe with a name, as process substitution makes them
                f.type = 'p';
                f.path = "/w/pipe" + std::to_string(i);
                if (f.data.empty()) f.data = "a b";
            }
            s.nodes.push_back(f);
            if (f.type == 'f' && r.chance(1, 10)) { // reached by way of a link
                Node l;
                l.path = "/w/ln" + std::to_string(i);
                l.type = 'l';
                l.data = r.chance(1, 2) ? f.path : f.path.substr(3);
                s.nodes.push_back(l);
                p.argv.push_back(r.chance(1, 2) ? l.path : l.path.substr(3));
                continue;
            }
            p.argv.push_back(r.chance(1, 2) ? f.path : f.path.substr(3));
            if (f.type != 'p' && r.chance(1, 12)) p.argv.push_back(f.path);
        }
    }
    if (err && r.chance(1, 3)) {
        // how much output there will be is not known here: small numbers strike more often
        p.out_cap = r.chance(1, 3) ? r.below(20) : r.below(5000);
        static const int e[] = {ENOSPC, EIO, EPIPE, EDQUOT, EFBIG};
        p.out_errno = e[r.below(5)];
        p.out_transient = r.chance(1, 5);
    }
    layout_knobs();
    s.procs.push_back(p);
    return true;
}

// ------------------------------------------------------------------------------------------------ configuration runs
bool Gen::config_run()
{
    uint32_t mode = r.below(10);
    bool inl = mode >= 7;
    ProcSpec p = proc(inl ? "inline-detox" : "detox");
    CfgOpts o;
    o.lang = r.chance(1, 3);
    vector<string> names;
    auto put = [&](const string &path) {
        Node n;
        n.path = path;
        for (auto &x : s.nodes) if (x.path == path) return;
        uint32_t k = r.below(20);
        if (k == 0) n.e_open = EACCES;
        else if (k == 1) n.flags = F_DENY_R;
        n.data = gen_config_text(o, &names, p.cwd);
        s.nodes.push_back(n);
    };
    p.env.clear();
    if (r.chance(1, 2)) put("/usr/local/etc/detoxrc");
    if (r.chance(1, 3)) put("/etc/detoxrc");
    string home = r.chance(1, 12) ? "/home/" + string(r.range(200, 260), 'h') : r.chance(1, 10) ? "" : "/home/u";
    if (home.size() > 250 && home.size() + 10 >= 4000) home = "/home/u";
    if (r.chance(3, 4)) {
        set_env(p, "HOME", home);
        if (home.size() < 255 && r.chance(home.empty() ? 4 : 3, 5)) put(home + "/.detoxrc");
    } else if (r.chance(1, 4)) put("/home/u/.detoxrc");
    if (r.chance(1, 2)) { set_env(p, "XDG_CONFIG_HOME", "/home/u/.config"); if (r.chance(2, 3)) put("/home/u/.config/detox/detoxrc"); }
    if (r.chance(1, 4)) {
        put("/cfg/rc");
        if (r.chance(1, 4)) { // the last one counts
            p.argv.push_back("-f");
            if (r.chance(1, 2)) { put("/cfg/other"); p.argv.push_back("/cfg/other"); }
            else p.argv.push_back("/cfg/absent");
        }
        p.argv.push_back("-f");
        p.argv.push_back(r.chance(1, 10) ? "/cfg/absent" : "/cfg/rc");
    }
    names.push_back("default");
    names.push_back("lower-only");
    if (r.chance(1, 12)) names.push_back("nonexistent");
    if (r.chance(1, 3)) { p.argv.push_back("-s"); p.argv.push_back(names[r.below(names.size())]); }
    if (r.chance(1, 4)) set_env(p, "DETOX_SEQUENCE", names[r.below(names.size())]);
    if (r.chance(1, 20)) { p.argv.push_back("-s"); p.argv.push_back(r.chance(1, 4) ? "" : names[r.below(names.size())]); }
    p.chunk = r.chance(1, 4) ? r.range(1, 50) : 0;
    layout_knobs();
    Plan pl = m_plan(s, p);
    if (mode < 4) { p.argv.push_back("-L"); if (r.chance(1, 2)) p.argv.push_back("-v"); }
    else if (inl) { p.in = inline_text(false, false, r.range(1, 6)); }
    else {
        tree("/w", r.range(1, 8), r.below(2), false, false);
        for (auto &g : plan.cfg.ignore) (void) g;
        // names that some ignore list mentions, too
        ProcSpec q2 = p; q2.argv.push_back("/w");
        Plan p2 = m_plan(s, q2);
        std::set<string> have;
        for (auto &n : s.nodes) have.insert(n.path);
        for (auto &g : p2.cfg.ignore) if (r.chance(1, 2) && !g.empty() && g.size() < 250 && g != "." && g != "..") { Node n; n.path = "/w/" + g; if (have.insert(n.path).second) { n.data = "ignored"; s.nodes.push_back(n); } }
        if (r.chance(1, 2)) p.argv.push_back("-r");
        p.argv.push_back("/w");
    }
    s.procs.push_back(p);
    return true;
}

bool Gen::table_run()
{
    bool inl = r.chance(2, 3);
    ProcSpec p = proc(inl ? "inline-detox" : "detox");
    static const char *const kind[] = {"iso8859_1", "utf_8", "safe"};
    static const char *const file[] = {"iso8859_1", "unicode", "safe"};
    int nf = r.range(1, 3);
    string body;
    bool lang = r.chance(1, 2);
    for (int i = 0; i < nf; i++) {
        int k = r.below(3);
        uint32_t m = r.below(5);
        bool utf = k == 1;
        int size = r.chance(1, 12) ? r.range(300, 1200) : 0;
        if (m <= 2) {
            Node n;
            n.path = "/cfg/t" + std::to_string(i) + ".tbl";
            n.data = gen_table(utf, lang, size);
            s.nodes.push_back(n);
            body += string(kind[k]) + " { filename \"" + n.path + "\"; };\n";
        } else {
            body += string(kind[k]) + ";\n";
            for (const char *d : {"/usr/local/share/detox/", "/usr/share/detox/"}) {
                if (!r.chance(1, 2)) continue;
                Node n;
                n.path = string(d) + file[k] + ".tbl";
                bool have = false;
                for (auto &x : s.nodes) if (x.path == n.path) have = true;
                if (have) continue;
                n.data = gen_table(utf, lang, size);
                if (r.chance(1, 15)) n.e_open = EACCES;
                s.nodes.push_back(n);
            }
        }
    }
    Node rc;
    rc.path = "/cfg/rc";
    rc.data = "sequence default {\n" + body + "};\n";
    s.nodes.push_back(rc);
    p.argv.push_back("-f");
    p.argv.push_back("/cfg/rc");
    if (lang) {
        static const char *const l[] = {"en_US.UTF-8", "de_DE.UTF-8", "C", "C.UTF-8", "fr_FR.UTF-8", "xx_YY.UTF-8", "de_DE.ISO-8859-1", "POSIX", ""};
        string v = PICK(l);
        if (have_blob("locale/C.utf8/LC_CTYPE")) {
            static const char *const have[] = {"en_US.utf8", "de_DE.utf8", "C.utf8"};
            for (auto h : have) if (r.chance(3, 4)) { Node n; n.path = string("/usr/lib/locale/") + h + "/LC_CTYPE"; n.blob = true; n.data = "locale/C.utf8/LC_CTYPE"; s.nodes.push_back(n); }
            if (have_blob("locale/latin1/LC_CTYPE") && v == "de_DE.ISO-8859-1") { Node n; n.path = "/usr/lib/locale/de_DE.iso88591/LC_CTYPE"; n.blob = true; n.data = "locale/latin1/LC_CTYPE"; s.nodes.push_back(n); }
        }
        static const char *const var[] = {"LC_ALL", "LC_CTYPE", "LANG"};
        set_env(p, PICK(var), v);
        if (r.chance(1, 4)) set_env(p, "LANG", PICK(l));
    }
    std::set<string> names;
    vector<string> envs;
    for (auto &e : p.env) if (names.insert(e.substr(0, e.find('='))).second) envs.push_back(e);
    p.env = envs;
    uint32_t ch = r.below(5);
    p.chunk = ch == 0 ? 1 : ch == 1 ? r.range(2, 40) : ch == 2 ? r.range(41, 900) : 0;
    if (inl) p.in = inline_text(false, false, r.range(1, 12));
    else { tree("/w", r.range(1, 12), r.below(2), false, false); p.argv.push_back("-r"); p.argv.push_back("/w"); }
    // every character the tables mention should occur in the input
    if (inl && r.chance(1, 2)) {
        string all;
        for (int c = 1; c < 256; c++) if (c != '\n') all += (char) c;
        p.in += "\n" + all + "\n";
        for (int c = 0x80; c < 0x800; c += 1 + r.below(37)) { char b[3] = {(char) (0xc0 | c >> 6), (char) (0x80 | (c & 63)), 0}; p.in += b; if (r.chance(1, 60)) p.in += "\n"; }
        p.in += "\n";
    }
    layout_knobs();
    s.procs.push_back(p);
    return true;
}

// Without RENAME_NOREPLACE everything rests on what lstat() says about the new name.
void Gen::contend()
{
    s.norename2 = r.range(1, 2);
    std::set<string> have;
    bool cf = false;
    for (auto &x : s.nodes) { have.insert(x.path); if (x.flags & F_CASEFOLD) cf = true; }
    size_t nn0 = s.nodes.size();
    for (int m = r.below(4); m > 0 && !cf && nn0; m--) {
        const Node o = s.nodes[r.below(nn0)];
        if (!inw(o)) continue;
        string dir = o.path.substr(0, o.path.rfind('/')), nn = m_apply(*seq, o.path.substr(dir.size() + 1));
        if (nn.empty() || nn == "." || nn == ".." || nn.size() > 255 || nn.find('/') != string::npos || !have.insert(dir + "/" + nn).second) continue;
        Node n;
        n.path = dir + "/" + nn;
        static const char ty[] = "hhhffld";
        n.type = ty[r.below(7)];
        if (n.type == 'h' && o.type != 'f') n.type = 'f';
        n.data = n.type == 'h' ? o.path : n.type == 'l' ? (r.chance(1, 2) ? "nowhere" : "/w") : n.type == 'd' ? "" : "competitor";
        if (n.type != 'h' && r.chance(1, 3)) { static const int es[] = {EACCES, EIO, ESTALE, ENOMEM, EOVERFLOW, ELOOP, ENOTDIR, ENAMETOOLONG, EINTR, EPERM}; n.e_stat = es[r.below(10)]; }
        s.nodes.push_back(n);
    }
}

// Further runs at the same time, of the same or of another sequence, over the same arguments or over parts of the tree.
void Gen::multi()
{
    ProcSpec p = s.procs[0];
    MOpts mo = m_options(p);
    size_t nf = mo.files.size();
    if (!nf || p.argv.size() < nf + 1 || mo.early != E_NONE) return;
    Plan pl = m_plan(s, p);
    vector<string> d;
    for (auto &x : s.nodes) if (inw(x) && (x.type == 'd' || r.chance(1, 6))) d.push_back(x.path);
    int n = r.chance(1, 3) ? 3 : 2;
    while ((int) s.procs.size() < n) {
        ProcSpec q = p;
        if (!d.empty() && r.chance(1, 2)) {
            q.argv.resize(q.argv.size() - nf);
            int m = r.range(1, 3);
            while (m--) q.argv.push_back(d[r.below(d.size())]);
            q.cwd = "/w";
        }
        if (!pl.cfg.seqs.empty() && r.chance(1, 2)) { // the last -s counts
            size_t at = q.argv.size() - m_options(q).files.size();
            const string &nm = pl.cfg.seqs[r.below(pl.cfg.seqs.size())].name;
            vector<string> ins = {"-s", nm}; q.argv.insert(q.argv.begin() + at, ins.begin(), ins.end());
        }
        s.procs.push_back(q);
    }
    s.norename2 = 0;
    for (auto &x : s.nodes) if (x.e_rename == EINVAL) x.e_rename = EIO;
}

// Standard output or standard error that cannot be written, or only so far.
void Gen::bad_output()
{
    ProcSpec &p = s.procs[0];
    static const int e[] = {ENOSPC, EIO, EPIPE, EDQUOT, EFBIG, EBADF};
    if (r.chance(3, 4)) { p.out_cap = r.chance(1, 3) ? 0 : r.below(600); p.out_errno = e[r.below(6)]; p.out_transient = r.chance(1, 4); }
    if (r.chance(1, 3)) { p.err_cap = r.chance(1, 2) ? 0 : r.below(200); p.err_errno = e[r.below(6)]; }
}

// ------------------------------------------------------------------------------------------------ per property
bool Gen::base()
{
    s = Scen();
    s.prop = prop;
    s.seed = seed;
    wants_faults = wants_work = false;
    const string &c = prop;
    if (c == "C01") {
        uint32_t k = r.below(10);
        bool mu = r.chance(1, 6);
        if (!tree_run(TF_REC | TF_MESSY | TF_ENV | (k < 3 ? TF_SMALL : 0) | (mu ? TF_NODRY | TF_NOCASE : 0))) return false;
        s.profile = "tree";
        if (r.chance(1, 3)) contend();
        if (mu) multi();
        wants_faults = true;
    } else if (c == "C02") {
        bool mu = r.chance(1, 8);
        if (!tree_run(TF_REC | TF_MESSY | TF_ENV | (mu ? TF_NODRY | TF_NOCASE : 0))) return false;
        s.profile = "tree";
        if (mu) multi();
        wants_faults = true;
    } else if (c == "C03") {
        bool mu = r.chance(1, 10);
        if (!tree_run(TF_REC | TF_MESSY | TF_ENV | (mu ? TF_NODRY | TF_NOCASE : 0))) return false;
        s.profile = "tree";
        if (mu) multi();
        wants_faults = mu || r.chance(1, 2);
    } else if (c == "C04") {
        uint32_t k = r.below(10);
        bool mu = r.chance(1, 10);
        if (k < 7) { if (!tree_run(TF_REC | TF_MESSY | TF_ENV | (mu ? TF_NODRY | TF_NOCASE : 0))) return false; s.profile = "tree"; if (mu) multi(); wants_faults = mu || r.chance(1, 2); }
        else { if (!table_run()) return false; s.profile = "table"; }
    } else if (c == "C05") {
        if (!tree_run(TF_REC | TF_ONEARG | TF_ENV | TF_NODRY)) return false;
        if (r.chance(1, 10)) contend();
        s.profile = "tree";
        wants_faults = true;
    } else if (c == "C06") {
        if (!tree_run(TF_REC | TF_MESSY | TF_ENV | TF_NODRY)) return false;
        s.profile = "tree";
        if (s.relist == R_KEEP && r.chance(2, 3)) s.relist = r.range(1, 2);
        bool mu = r.chance(1, 12);
        if (mu) multi();
        wants_faults = mu || r.chance(1, 2);
    } else if (c == "C07") {
        uint32_t k = r.below(10);
        if (k < 5) {
            if (!tree_run(TF_REC | TF_MESSY | TF_ENV | TF_NODRY)) return false;
            auto &a = s.procs[0].argv;
            const char *dry = r.chance(1, 2) ? "-n" : r.chance(1, 2) ? "--dry-run" : "-nv";
            ProcSpec q = s.procs[0]; // before or after any of the other words
            q.argv.insert(q.argv.begin() + r.range(1, q.argv.size()), dry);
            if (r.chance(1, 2) && m_options(q).dry && m_options(q).seq == m_options(s.procs[0]).seq && m_options(q).cfg == m_options(s.procs[0]).cfg) a = q.argv;
            else a.insert(a.begin() + 1, dry);
            s.profile = "dry";
        } else if (k < 8) { if (!inline_run(true)) return false; s.profile = "inline"; tree("/w", 4, 1, false, false); std::set<string> seen; vector<Node> kp; for (auto &n : s.nodes) if (seen.insert(n.path).second) kp.push_back(n); s.nodes = kp; }
        else {
            if (!tree_run(TF_REC | TF_MESSY)) return false;
            auto &a = s.procs[0].argv;
            static const char *const o[] = {"-L", "-h", "-V", "--help", "-?", "-hL", "-Lv", "--bogus", "-Z", "-nL"};
            a.insert(a.begin() + 1, PICK(o));
            if (r.chance(1, 2)) { auto q = std::find(a.begin(), a.end(), "-n"); if (q != a.end()) a.erase(q); }
            s.profile = "info";
        }
        wants_faults = true;
        wants_work = false;
    } else if (c == "C08") {
        if (!tree_run(TF_REC | TF_ONEARG | TF_IDEM | TF_NODRY | TF_SMALL)) return false;
        s.profile = "restart";
        // up to three runs that are interrupted, one that completes the work, one that finds nothing to do
        int n = r.chance(1, 3) ? r.range(2, 3) : 1;
        ProcSpec p = s.procs[0];
        p.follow = true;
        for (int i = 1; i <= n + 1; i++) { p.phase = i; s.procs.push_back(p); }
        wants_faults = true;
    } else if (c == "C23") {
        if (r.chance(1, 2)) {
            if (!tree_run(TF_REC | TF_MESSY | TF_BIG)) return false;
            s.profile = "tree";
            ProcSpec &p = s.procs[0];
            vector<string> in, all = {".", "..", "/w", "/w/.", "/w/..", "absent"};
            for (auto &n : s.nodes) if (inw(n) && n.path.size() < 2000) all.push_back(n.path);
            for (size_t i = 2; i < all.size(); i++) if (r.chance(1, 8)) in.push_back(all[i]);
            if (r.chance(1, 3)) { // many arguments
                int n = r.range(40, 150);
                bool some = r.chance(1, 2) && !in.empty();
                string one = all[r.below(all.size())];
                bool rec = std::find(p.argv.begin(), p.argv.end(), "-r") != p.argv.end() || std::find(p.argv.begin(), p.argv.end(), "--recursive") != p.argv.end();
                if (rec && !some && s.nodes.size() > 60) n = 5;
                if (rec && some) n = 20;
                while (n--) p.argv.push_back(some ? in[r.below(in.size())] : one);
            }
            // many failures of a kind, or of all kinds
            uint32_t k = r.below(6);
            if (k == 0) env_faults(s.nodes.size());
            else if (k < 4) {
                static const int er[] = {EACCES, EPERM, EROFS, EIO, EEXIST, EXDEV, EINTR};
                int what = r.below(4), err = er[r.below(7)];
                for (auto &x : s.nodes) if (inw(x) && x.type != 'h' && r.chance(4, 5)) {
                    if (what == 0) x.e_rename = err;
                    else if (what == 1) { if (x.type == 'd') { if (r.chance(1, 2)) x.e_open = EACCES; else { x.e_list = EIO; x.list_after = r.below(4); } } else x.e_rename = err; }
                    else if (what == 2) { if (x.type != 'd' || r.chance(1, 3)) x.e_stat = EACCES; }
                    else if (x.type == 'd' && r.chance(1, 2)) x.flags |= r.chance(1, 2) ? F_DENY_W : F_DENY_R;
                }
            }
        } else {
            if (!inline_run(true)) return false;
            s.profile = "inline";
            ProcSpec &p = s.procs[0];
            p.in_err_at = p.out_cap = -1;
            static const char *const l[] = {".", "..", "", "a b", "\xff\xfe", "%20", "\xc3\xa9t\xc3\xa9", "clean", "- -", "/", "\xc3", "...", " "};
            auto lines = [&](string &t) {
                int kinds = r.range(1, 3);
                while (kinds--) { string x = r.chance(2, 3) ? PICK(l) : piece(); if (x.find('\n') != string::npos) x = "a b"; int n = r.range(60, 300); while (n--) { t += x; t += '\n'; } }
                if (r.chance(1, 4)) t.append(r.range(3000, 90000), "ab _"[r.below(4)]);
            };
            bool some = false;
            for (auto &n : s.nodes) if (n.path.compare(0, 5, "/w/in") == 0 && n.type == 'f') some = true;
            if (!some) { lines(p.in); if (p.chunk && p.chunk < 100) p.chunk = 0; }
            else if (r.chance(1, 2)) { for (auto &n : s.nodes) if (n.path.compare(0, 5, "/w/in") == 0 && n.type == 'f' && r.chance(1, 2)) lines(n.data); if (p.chunk && p.chunk < 100) p.chunk = 0; }
            else {
                vector<string> in = {"/w/absent"};
                for (auto &n : s.nodes) if (n.path.compare(0, 5, "/w/in") == 0) in.push_back(n.path);
                int n = r.range(45, 200);
                bool one = r.chance(1, 2);
                string x = in[r.below(in.size())];
                while (n--) p.argv.push_back(one ? x : in[r.below(in.size())]);
            }
        }
        wants_faults = r.chance(1, 2);
    } else if (c == "C22") {
        if (!tree_run(TF_REC | TF_NODRY | TF_SHIPPED)) return false;
        s.profile = "settle";
        // one run that meets whatever it meets, one that completes the work, one that finds nothing to do
        ProcSpec p = s.procs[0];
        p.follow = true;
        for (int i = 1; i <= 2; i++) { p.phase = i; s.procs.push_back(p); }
        wants_faults = r.chance(3, 4);
    } else if (c == "C09") {
        if (!tree_run(TF_REC | TF_MESSY | TF_PRINT | TF_ENV | TF_VERB)) return false;
        if (r.chance(1, 5)) contend();
        s.profile = "tree";
        wants_faults = true;
    } else if (c == "C10") {
        uint32_t k = r.below(10);
        if (k < 5) { if (!config_run()) return false; s.profile = "config"; }
        else { if (!table_run()) return false; s.profile = "table"; }
        wants_faults = true;
        // damage some of the set-up files
        if (r.chance(2, 3)) {
            vector<size_t> idx;
            for (size_t i = 0; i < s.nodes.size(); i++) if (!inw(s.nodes[i]) && !s.nodes[i].blob && s.nodes[i].type == 'f') idx.push_back(i);
            if (!idx.empty()) {
                Node &n = s.nodes[idx[r.below(idx.size())]];
                string &d = n.data;
                uint32_t m = r.below(9);
                if (m == 8) { // a quotation mark is missing
                    vector<size_t> qs;
                    for (size_t k = 0; k < d.size(); k++) if (d[k] == '"') qs.push_back(k);
                    if (!qs.empty()) { size_t k = qs[r.below(qs.size())]; if (r.chance(1, 2)) d.erase(k, 1); else d[k] = '\n'; }
                }
                else if (m == 0 && !d.empty()) d.resize(r.below(d.size()));                       // cut short
                else if (m == 1 && !d.empty()) d.erase(r.below(d.size()), r.range(1, 3));
                else if (m == 2) { size_t at = r.below(d.size() + 1); static const char *const x[] = {";", "}", "{", "sequence", "\"", "17", "bogus", "filename x;", "safe"}; d.insert(at, PICK(x)); }
                else if (m == 3) { n.read_at = r.below(d.size() + 1); n.e_read = r.chance(1, 2) ? EIO : EISDIR; }
                else if (m == 4) { n.type = 'd'; d = ""; }
                else if (m == 5 && n.path.find(".tbl") != string::npos) { d = "start\n0 zero\nend\n" + d; }
                else if (m == 6) { s.nodes.erase(s.nodes.begin() + (&n - &s.nodes[0])); }
                else if (m == 7) { size_t at = d.find("builtin"); if (at != string::npos) d.replace(at, 7, "builtin no_such_table; }; safe { builtin"); }
            }
        }
        if (r.chance(1, 6)) { auto &a = s.procs[0].argv; a.insert(a.begin() + 1, {"-s", "unknown sequence"}); }
    } else if (c == "C11") {
        uint32_t k = r.below(10);
        if (k < 6) { if (!tree_run(TF_REC | TF_MESSY | TF_SMALL)) return false; s.profile = "tree"; }
        else if (k < 8) { if (!inline_run(false)) return false; s.profile = "inline"; }
        else { if (!config_run()) return false; s.profile = "config"; }
        if (s.profile == "tree" && r.chance(1, 8)) { // more arguments than fit the first allocation
            auto &a = s.procs[0].argv;
            MOpts mo = m_options(s.procs[0]);
            int m = r.range(12, 40);
            if (!mo.files.empty()) while (m--) a.push_back(mo.files[r.below(mo.files.size())]);
        }
        for (auto &n : s.nodes) if (n.data.find("start ") != string::npos && n.path.find(".tbl") != string::npos) return false; // language blocks
        wants_faults = true;
    } else if (c == "C12") {
        if (!inline_run(false)) return false;
        s.profile = "inline";
    } else if (c == "C13") {
        if (!inline_run(true)) return false;
        s.profile = "inline";
        wants_faults = r.chance(1, 2);
    } else if (c == "C14") {
        if (!config_run()) return false;
        s.profile = "config";
    } else if (c == "C15") {
        if (!table_run()) return false;
        s.profile = "table";
    } else if (c == "C16") {
        uint32_t k = r.below(10);
        if (k < 5) { if (!tree_run(TF_REC | TF_MESSY | TF_ENV)) return false; s.profile = "tree"; }
        else if (k < 7) { if (!inline_run(true)) return false; s.profile = "inline"; if (r.chance(1, 3)) { string &t = s.procs[0].in; for (int i = 0; i < 3 && !t.empty(); i++) t[r.below(t.size())] = 0; } }
        else if (k < 8) { if (!config_run()) return false; s.profile = "config"; }
        else { if (!table_run()) return false; s.profile = "table"; }
        wants_faults = true;
        s.heap_mode = r.below(3);
        if (r.chance(1, 5)) { // arbitrary damage to files read by the program
            for (auto &n : s.nodes) if (!inw(n) && !n.blob && !n.data.empty() && r.chance(1, 2)) {
                int m = r.range(1, 6);
                while (m--) {
                    if (n.data.empty()) break;
                    uint32_t w = r.below(4), at = r.below(n.data.size());
                    if (w == 0) n.data[at] = (char) r.below(256);
                    else if (w == 1) n.data.erase(at, r.range(1, 20));
                    else if (w == 2) n.data.insert(at, n.data.substr(r.below(n.data.size()), r.range(1, 40)));
                    else n.data.insert(at, string(r.range(1, 1500), (char) r.range(33, 255)));
                }
            }
        }
        if (r.chance(1, 20)) { auto &a = s.procs[0].argv; static const char *const o[] = {"-f", "-s", "--special=x", "-", "", "--rec", "-vvvv", "--", "--inl", "-L", "-V", "-h", "-?"}; a.insert(a.begin() + 1 + r.below(a.size()), PICK(o)); }
        if (r.chance(1, 100)) s.procs[0].argv.resize(1);
    } else if (c == "C17") {
        if (!tree_run(TF_REC | TF_ONEARG | TF_PRINT | TF_NOCOLL | TF_NODRY | TF_NOCASE)) return false;
        s.profile = "dryreal";
        ProcSpec p = s.procs[0];
        auto &a = s.procs[0].argv;
        a.insert(a.begin() + 1, "-n");
        p.phase = 1;
        p.argv.insert(p.argv.begin() + 1, "-v");
        s.procs.push_back(p);
        if (r.chance(1, 3)) { // errors that do not go away hit both runs alike
            for (auto &n : s.nodes) if (inw(n) && r.chance(1, 10)) { if (n.type == 'd' && r.chance(1, 2)) n.flags |= F_DENY_R; else n.e_stat = EACCES; }
        }
    } else if (c == "C18") {
        if (!tree_run(TF_REC | TF_ONEARG | TF_IDEM | TF_NODRY | TF_NOCASE)) return false;
        s.profile = "parallel";
        int n = r.chance(1, 3) ? r.range(3, 5) : 2;
        ProcSpec p = s.procs[0];
        // all the same, or some that work on a part of what the first one works on
        MOpts mo = m_options(p);
        size_t nf = mo.files.size();
        vector<string> d;
        if (mo.rec && nf == 1 && r.chance(1, 2)) for (auto &x : s.nodes) if (inw(x) && x.type == 'd') d.push_back(x.path);
        while ((int) s.procs.size() < n) {
            ProcSpec q2 = p;
            if (!d.empty() && r.chance(2, 3)) {
                q2.argv.resize(q2.argv.size() - nf);
                int m = r.range(1, 3);
                while (m--) q2.argv.push_back(d[r.below(d.size())]);
                q2.cwd = "/w";
            } else if (nf > 1 && r.chance(1, 2)) { // another order
                for (size_t i = q2.argv.size() - nf; i < q2.argv.size(); i++) std::swap(q2.argv[i], q2.argv[q2.argv.size() - nf + r.below(nf)]);
            }
            s.procs.push_back(q2);
        }
        wants_faults = true;
    } else return false;
    if ((c == "C01" || c == "C02" || c == "C03" || c == "C04" || c == "C06" || c == "C07" || (c == "C16" && s.profile != "inline")) && r.chance(1, 12)) bad_output();
    for (auto &p : s.procs) vary_options(p);
    tame();
    // every run has to end within a number of steps bounded by the size of its task; reads and writes that move data are not counted
    uint64_t na = 2;
    for (auto &p : s.procs) na += p.argv.size();
    if (c == "C23" && s.nodes.size() * na > 19000 && s.nodes.size() > 240) { // more than one execution can record
        uint64_t most = std::max<uint64_t>(8, 19000 / s.nodes.size());
        na = 2;
        for (auto &p : s.procs) { if (p.argv.size() > most) p.argv.resize(most); na += p.argv.size(); }
    }
    s.maxsteps = std::min<uint64_t>(200000, 6000 + 10 * (s.nodes.size() + 10) * na);
    if (s.profile == "inline" && na > 40) s.maxsteps = 200000; // once the output is full, every line tries again
    if (s.norename2) for (auto &n : s.nodes) if (n.e_stat == ENOENT) n.e_stat = EACCES;
    return true;
}

// Several tables with long texts in a row multiply the length of a name: keep the product within bounds.
void Gen::tame()
{
    for (int round = 0; round < 2; round++) {
        size_t worst = 1;
        for (auto &p : s.procs) {
            Plan pl = m_plan(s, p);
            if (pl.seq < 0) continue;
            size_t prod = 1;
            for (auto &f : pl.cfg.seqs[pl.seq].filters) {
                size_t m = 1;
                if (f.kind == FK_UTF8) m = 13;
                if (f.table) {
                    m = 1;
                    if (f.table->has_def) m = std::max(m, f.table->def.size());
                    size_t cnt = 0, sum = 0;
                    for (auto &x : f.table->rows) { cnt++; sum += x.second.size(); }
                    if (cnt) m = std::max(m, sum / cnt);
                }
                prod *= m;
                if (prod > 1u << 30) break;
            }
            worst = std::max(worst, prod);
        }
        if (worst <= 3000 && worst * s.nodes.size() <= 200000) return;
        for (auto &n : s.nodes) {
            if (n.type != 'f' || n.blob) continue;
            for (const char *t : {"a_long_default_text_for_everything", "_a_rather_long_replacement_text_", "_hidden_null_"}) {
                string x = round ? "_" : "ld";
                for (size_t k; (k = n.data.find(t)) != string::npos;) n.data.replace(k, strlen(t), x);
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------ faults
void Gen::add_faults()
{
    struct Ev { int proc, cls; uint32_t nth; bool sys; uint8_t kind; };
    vector<Ev> ev;
    uint32_t nwork = 0;
    for (u32 i = 0; i < S->nev; i++) {
        Event &e = S->ev[i];
        if (e.kind) continue;
        u32 in = e.inode ? e.inode : e.dir;
        bool sys = in && S->inode[in].system;
        // paths below /w that do not exist are not system paths
        if (e.p1 && !strncmp(S->pool + e.p1, "/w", 2)) sys = false;
        if (!in && e.cls != C_WRITE && e.cls != C_READ && e.cls != C_CLOSE && e.cls != C_FSTAT) sys = !e.p1 || S->pool[e.p1] == '/' ;
        if ((e.cls == C_READ || e.cls == C_WRITE || e.cls == C_CLOSE || e.cls == C_FSTAT) && !in) sys = false;
        ev.push_back({e.proc, e.cls, (uint32_t) e.nth, sys, e.kind});
        if (!sys) nwork++;
    }
    if (ev.empty()) return;
    bool setup = prop == "C10" || prop == "C16" || prop == "C07";
    bool work = prop != "C10";
    auto errs = [&](int cls) -> int {
        static const int es[] = {ENOENT, EACCES, EIO, ESTALE, ENOMEM, EOVERFLOW, ELOOP, ENOTDIR, ENAMETOOLONG, EINTR};
        static const int eo[] = {EACCES, EIO, ENOENT, ENFILE, ENOMEM, EMFILE, EPERM, ENOTDIR, ELOOP, ENAMETOOLONG}; // EMFILE ends a run, so only where that is of interest
        static const int eg[] = {EIO, ESTALE, ENOENT};
        static const int er[] = {EIO, EISDIR, ESTALE};
        static const int ew[] = {ENOSPC, EIO, EPIPE, EDQUOT};
        static const int en[] = {EACCES, EPERM, EIO, ENOSPC, EROFS, EBUSY, EXDEV, ENOENT, EDQUOT, EINVAL, ENAMETOOLONG, ENOTDIR, EEXIST, ENOTEMPTY, EINTR, EMLINK};
        switch (cls) {
        case C_STAT: { int x = es[r.below(10)]; return x == ENOENT && s.norename2 ? EACCES : x; }
        case C_OPEN: case C_OPENDIR: { int x = eo[r.below(10)]; return x == EMFILE && !setup && r.chance(7, 8) ? EACCES : x; }
        case C_GETDENTS: return eg[r.below(3)];
        case C_READ: return er[r.below(3)];
        case C_WRITE: return ew[r.below(4)];
        case C_RENAME: return en[r.below(16)];
        case C_CLOSE: case C_FSTAT: return EIO;
        }
        return EIO;
    };
    auto pick = [&](std::function<bool(const Ev &)> ok) -> const Ev * {
        for (int t = 0; t < 60; t++) { const Ev &e = ev[r.below(ev.size())]; if (ok(e)) return &e; }
        return nullptr;
    };
    auto fault = [&](std::function<bool(const Ev &)> ok, int err = 0, bool sticky = false) {
        if (const Ev *e = pick(ok)) s.faults.push_back({e->proc, e->cls, e->nth, err ? err : errs(e->cls), sticky});
    };
    auto worky = [&](const Ev &e) { return !e.sys && (e.cls == C_STAT || e.cls == C_OPENDIR || e.cls == C_GETDENTS || e.cls == C_RENAME || e.cls == C_OPEN); };
    auto any = [&](const Ev &e) { return (work || e.sys) && (setup || !e.sys) && e.cls != C_OTHER; };
    auto crash = [&](int proc) {
        if (const Ev *e = pick([&](const Ev &x) { return x.proc == proc && (!x.sys || r.chance(1, 8)); })) {
            // prefer the neighbourhood of renames
            if (r.chance(1, 2)) if (const Ev *f = pick([&](const Ev &x) { return x.proc == proc && x.cls == C_RENAME; })) e = f;
            s.faults.push_back({proc, e->cls, e->nth, r.chance(1, 2) ? ERR_CRASH_BEFORE : ERR_CRASH_AFTER, false});
        }
    };
    auto actors = [&](int n) {
        while (n--) {
            const Ev *e = pick([&](const Ev &x) { return !x.sys && (x.cls == C_STAT || x.cls == C_RENAME || x.cls == C_OPENDIR || x.cls == C_GETDENTS); });
            if (!e) return;
            ActSpec a;
            a.proc = e->proc; a.cls = e->cls; a.nth = e->nth; a.when = r.below(2);
            static const char ty[] = "ffffdl";
            a.type = ty[r.below(6)];
            uint32_t k = r.below(10);
            vector<const Node *> all;
            for (auto &nn : s.nodes) if (inw(nn)) all.push_back(&nn);
            if (k < 5) { a.op = A_MKTARGET; if (e->cls == C_RENAME) a.when = 0; }
            else if (k < 6) { a.op = A_MKAT; string nm = name(); if (seq && r.chance(1, 2)) { nm = m_apply(*seq, nm); } if (nm.empty() || nm == "." || nm == ".." || nm.find('/') != string::npos || nm.size() > 255) nm = "other"; a.p1 = nm; }
            else if (k < 7 && !all.empty()) { a.op = A_RM; a.p1 = all[r.below(all.size())]->path; }
            else if (k < 8) a.op = A_RMSOURCE;
            else if (!all.empty()) {
                a.op = A_MV;
                const Node *n1 = all[r.below(all.size())];
                a.p1 = n1->path;
                vector<string> d = dirs();
                string nm = name();
                if (seq && r.chance(1, 2)) { string m = m_apply(*seq, n1->path.substr(n1->path.rfind('/') + 1)); if (!m.empty() && m.find('/') == string::npos && m != "." && m != ".." && m.size() < 256) nm = m; }
                a.p2 = (r.chance(1, 2) ? n1->path.substr(0, n1->path.rfind('/')) : d[r.below(d.size())]) + "/" + nm;
            }
            if (a.op) s.acts.push_back(a);
        }
    };
    const string &c = prop;
    if (c == "C01") {
        uint32_t k = r.below(10);
        if (k < 4) { int n = r.range(1, 3); while (n--) fault(worky); }
        else if (k < 6) fault([&](const Ev &e) { return !e.sys && e.cls == C_STAT; }, 0, r.chance(1, 4));
        if (k >= 5 && !s.norename2) actors(r.range(1, 4));
        if (r.chance(1, 5)) crash(r.below(s.procs.size()));
    } else if (c == "C02") {
        int n = r.range(0, 3);
        while (n--) fault(worky);
        if (r.chance(1, 6)) actors(1);
        if (r.chance(1, 6)) crash(0);
    } else if (c == "C03" || c == "C04" || c == "C06" || c == "C09") {
        int n = r.range(1, 3);
        while (n--) fault(worky);
        if (c == "C09" && r.chance(1, 4)) actors(r.range(1, 2));
        if (c == "C06" && r.chance(1, 3)) actors(r.range(1, 2));
        if (c == "C03" && r.chance(1, 4)) actors(1);
        if (c == "C04" && r.chance(1, 4)) actors(1);
    } else if (c == "C05") {
        int n = r.range(1, 3);
        while (n--) fault(worky);
        if (r.chance(1, 8)) actors(1);
    } else if (c == "C07") {
        int n = r.range(0, 3);
        while (n--) fault(any);
        if (r.chance(1, 6)) crash(0);
    } else if (c == "C08") {
        crash(0);
        int np = s.procs.size();
        if (np > 3) {
            // what a later run does is not known yet: less than the first one was to do
            for (int k = 1; k < np - 2; k++) {
                size_t b = s.faults.size();
                crash(0);
                if (s.faults.size() > b) { FaultSpec &f = s.faults.back(); f.proc = k; f.nth = 1 + r.below(f.nth); }
            }
        }
        if (r.chance(1, 2)) { s.loss_phase = r.below(np - 2); s.loss_seed = r.next(); }
        if (r.chance(1, 4)) fault([&](const Ev &e) { return e.proc == 0 && worky(e); });
    } else if (c == "C23") {
        // failures of one kind again and again
        int n = r.range(1, 2);
        auto ok = [&](const Ev &e) { return worky(e); };
        while (n--) fault(ok, 0, r.chance(1, 2));
        for (auto &f : s.faults) if (f.err == EMFILE || f.err == ENFILE || f.err == ENOMEM) f.err = EIO;
        if (r.chance(1, 6)) actors(r.range(1, 3));
    } else if (c == "C22") {
        auto first = [&](const Ev &e) { return e.proc == 0 && (worky(e) || e.cls == C_WRITE); };
        uint32_t k = r.below(10);
        if (k < 4) { int n = r.range(1, 3); while (n--) fault(first, 0, r.chance(1, 6)); }
        else if (k < 6) { u32 tot = S->proc[0].ncls[C_ALLOC]; if (tot) s.faults.push_back({0, C_ALLOC, 1 + r.below(tot), ENOMEM, r.chance(1, 2)}); }
        else if (k < 8) { crash(0); if (r.chance(1, 2)) { s.loss_phase = 0; s.loss_seed = r.next(); } }
        else actors(r.range(1, 3));
        if (k < 8 && r.chance(1, 4)) actors(1);
        for (auto &a : s.acts) a.proc = 0;
    } else if (c == "C10") {
        if (r.chance(1, 2)) { int n = 1; while (n--) fault([&](const Ev &e) { return e.sys && (e.cls == C_READ || e.cls == C_OPEN || e.cls == C_STAT || e.cls == C_CLOSE || e.cls == C_FSTAT); }); }
    } else if (c == "C11") {
        int proc = 0;
        u32 na = S->proc[0].ncls[C_ALLOC], nl = S->proc[0].ncls[C_LALLOC];
        bool l = r.chance(1, 4) && nl;
        u32 tot = l ? nl : na;
        u32 nth = 1 + r.below(std::max(tot, 1u)), wh = r.below(5);
        if (wh == 0) nth = 1 + r.below(std::min(tot, 24u) + !tot);                 // while the command line is read
        else if (wh <= 2) nth = tot - r.below(std::min(tot, 60u) + !tot);          // late, when there is work going on
        if (tot) s.faults.push_back({proc, l ? C_LALLOC : C_ALLOC, nth, ENOMEM, r.chance(1, 2)});
    } else if (c == "C13") {
        fault([&](const Ev &e) { return !e.sys && (e.cls == C_READ || e.cls == C_WRITE || e.cls == C_OPEN || e.cls == C_STAT); }, 0, r.chance(1, 4));
    } else if (c == "C16") {
        int n = r.range(0, 3);
        while (n--) fault(any);
        if (r.chance(1, 6)) { u32 tot = S->proc[0].ncls[C_ALLOC]; if (tot) s.faults.push_back({0, C_ALLOC, 1 + r.below(tot), ENOMEM, r.chance(1, 2)}); }
        if (r.chance(1, 6)) actors(r.range(1, 2));
    }
    if (s.procs.size() > 1 && s.procs.back().phase == 0) {
        // The serial run executed the processes one after the other; the first one did most of the work.
        u32 np = s.procs.size();
        u64 total = S->step, first = 0, last = 0;
        vector<u64> interesting;
        for (u32 i = 0; i < S->nev; i++) {
            Event &e = S->ev[i];
            if (e.proc) { if (!last) last = e.step; continue; }
            u32 in = e.inode ? e.inode : e.dir;
            bool sys = in && S->inode[in].system && in != ROOT;
            if (e.cls != C_STAT && e.cls != C_OPENDIR && e.cls != C_GETDENTS && e.cls != C_RENAME) continue;
            if (sys || !in) continue;
            if (!first) first = e.step;
            interesting.push_back(e.step);
        }
        if (!last) last = total;
        if (!first || first >= last) first = last / 2;
        u64 work = last - first + 1;
        std::set<u64> used;
        auto sw = [&](u64 st, u32 proc) { if (s.sws.size() < 3000 && used.insert(st).second) s.sws.push_back({st, proc}); };
        uint32_t style = r.below(10);
        vector<const Event *> dren;
        const MOpts mo = m_options(s.procs[0]);
        for (u32 i = 0; i < S->nev; i++) {
            const Event &e = S->ev[i];
            if (e.proc == 0 && !e.kind && e.cls == C_RENAME && e.res == 0 && e.p1 && e.inode) dren.push_back(&e);
        }
        if (mo.rec && !dren.empty() && r.chance(1, 3)) {
            // another run does an entry (and what is below it) just before this one does
            int n = r.range(1, 3);
            for (int k = 1; k < (int) np && n--; k++) {
                const Event &e = *dren[r.below(dren.size())];
                string path = pstr(e.p1);
                if (path[0] != '/') path = s.procs[0].cwd + "/" + path;
                ProcSpec &q = s.procs[k];
                const MOpts qo = m_options(q);
                ProcSpec q2 = q;
                if (q2.argv.size() < qo.files.size() + 1) continue;
                q2.argv.resize(q2.argv.size() - qo.files.size());
                q2.argv.push_back(path);
                q2.cwd = "/w";
                const MOpts q2o = m_options(q2);
                if (q2o.files != vector<string>{path} || !q2o.rec || q2o.special != qo.special) continue;
                q = q2;
                sw(e.step - r.below(std::min<u64>(e.step - 1, 4)), k);
            }
            if (r.chance(1, 3)) { int m = r.range(1, 4); while (m--) sw(first + r.next() % (np * work), r.below(np)); }
        } else if (style < 2) { // a few, anywhere
            u32 n = r.range(1, 8);
            while (n--) sw(r.chance(1, 2) && !interesting.empty() ? interesting[r.below(interesting.size())] + r.range(0, 3) - 1 : 1 + r.next() % (total + 20), r.below(np));
        } else {
            // bring all to where the work begins, or one after the other some way into it
            u64 at = 1;
            u64 head = first > 2 ? first - 1 : 1;
            for (u32 p = 0; p + 1 < np; p++) {
                at += head + (r.chance(1, 3) ? 0 : r.chance(1, 2) ? r.next() % std::min<u64>(work, 30) : r.next() % work);
                sw(at, p + 1);
            }
            at += head + (r.chance(1, 2) ? 0 : r.next() % std::min<u64>(work, 30));
            // then: dense random switching; bursts of a few steps each; or few switches with long runs between them
            u64 end = at + np * work + 20;
            if (style < 5) { u32 den = r.chance(1, 2) ? 2 : r.range(3, 12); for (u64 st = at; st < end; st++) if (r.chance(1, den)) sw(st, r.below(np)); }
            else if (style < 8) { for (u64 st = at; st < end; st += 1 + r.below(r.chance(1, 4) ? 40 : 8)) sw(st, r.below(np)); }
            else { u32 n = r.range(1, 6); while (n--) sw(at + r.next() % (end - at), r.below(np)); }
        }
        std::sort(s.sws.begin(), s.sws.end(), [](const SwitchSpec &a, const SwitchSpec &b) { return a.step < b.step; });
    }
    // such a kernel and other programs do not go together (DESIGN.md, section 6)
    if (s.norename2) s.acts.clear();
    // EINVAL makes the program fall back to lstat() and rename(); between the two another program can get in
    bool gap = !s.acts.empty() || (s.procs.size() > 1 && s.procs.back().phase == 0);
    // and then only lstat() tells whether a name is taken: it does not tell lies
    for (auto &f : s.faults) if ((f.cls == C_STAT || f.cls < 0) && f.err == ENOENT) gap = true;
    for (auto &n : s.nodes) if (n.e_stat == ENOENT) gap = true;
    if (gap) {
        for (auto &f : s.faults) if (f.cls == C_RENAME && f.err == EINVAL) f.err = EIO;
        for (auto &n : s.nodes) if (n.e_rename == EINVAL) n.e_rename = EIO;
    }
}
