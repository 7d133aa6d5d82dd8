// Reference model: what the documentation says the program computes.  Independent of the program's sources.
#pragma once
#include "scen.h"
#include <map>
#include <memory>
#include <optional>
#include <set>

struct MTable {
    bool ok = false, unspec = false;
    std::map<uint32_t, std::string> rows;
    bool has_def = false;
    std::string def;
};
enum FKind { FK_ISO = 1, FK_LOWER, FK_MAX, FK_SAFE, FK_UNCGI, FK_UTF8, FK_WIPEUP };
struct MFilter {
    int kind = 0;
    bool has_builtin = false, has_file = false, trailing = false;
    std::string builtin, file;
    long maxlen = 0;
    std::shared_ptr<MTable> table;
};
struct MSeq { std::string name, source; std::vector<MFilter> filters; };
struct MConfig { std::vector<MSeq> seqs; std::vector<std::string> ignore; bool builtin = false; };

enum Early { E_NONE, E_HELP, E_VERSION, E_USAGE_OK, E_USAGE_FAIL };
struct MOpts {
    bool inline_bin = false, inl = false, dry = false, list = false, rec = false, special = false;
    int verbose = 0;
    std::optional<std::string> seq, cfg;
    std::vector<std::string> files;
    Early early = E_NONE;
};

struct World { // static view of the files of a scenario
    std::map<std::string, const Node *> files;
    explicit World(const Scen &);
    const Node *find(const std::string &cwd, const std::string &path) const; // regular file or directory, or null
};

enum MStatus { M_OK, M_ERROR, M_UNSPEC };
struct Plan { // what a run is set up to do
    MStatus status = M_OK;      // M_ERROR: the run has to fail before it does anything
    std::string why;
    MOpts o;
    MConfig cfg;
    int seq = -1;
    bool passed_over = false;   // a table found by search could not be used
    bool will_work = false;     // renames or converts
    std::vector<std::string> setup_files; // files that set-up reads
};

MOpts m_options(const ProcSpec &);
MStatus m_parse_config(const std::string &text, const std::string &source, MConfig &cfg, std::string &why);
MTable m_parse_table(const std::string &text, const std::string &ctype);
const MTable &m_builtin_table(const std::string &name, bool &ok);
MConfig m_builtin_config();
Plan m_plan(const Scen &, const ProcSpec &);
std::string m_filter(const MFilter &, const std::string &);
std::string m_apply(const MSeq &, const std::string &);
std::string m_ctype(const ProcSpec &, const World &, bool &known);
std::string m_list_output(const Plan &);
bool m_charwise(const MSeq &);  // every filter works on single characters
