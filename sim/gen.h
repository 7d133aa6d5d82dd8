#pragma once
#include "model.h"
#include <functional>
// Scenario generators.  gen_base() makes a run without run-time faults; add_faults() picks faults among the events the
// fault-free run produced, so that they strike where something happens.
struct Gen {
    std::string prop;
    uint64_t seed;
    bool thorough = false;
    Rng r;
    Scen s;
    Gen(const std::string &p, uint64_t sd, bool t, uint32_t attempt = 0) : prop(p), seed(sd), thorough(t), r(sim::mix(sd ^ sim::fnv(p.data(), p.size())) + attempt * 0x9e3779b97f4a7c15ull) {}
    bool base();          // false: nothing generated for this seed
    bool wants_faults = false;
    bool wants_work = false;    // a run in which nothing is renamed is of little use
    void add_faults();
    void tame();    // called when the fault-free run's events are in S
private:
    // configuration
    struct CfgOpts { bool lang = true; bool uncgi = true; bool exotic = true; bool charwise = false; bool idem_pref = false; };
    std::string seqname_;
    void choose_config(ProcSpec &p, const CfgOpts &o);
    void shipped_config(ProcSpec &p);
    std::string gen_table(bool utf, bool lang, int size);
    std::string gen_sequence_body(const CfgOpts &o, const std::string &cwd);
    std::string gen_config_text(const CfgOpts &o, std::vector<std::string> *names, const std::string &cwd);
    std::string q(const std::string &);
    void set_env(ProcSpec &p, const std::string &k, const std::string &v);
    // names and trees
    std::string piece();
    std::string raw_name();
    std::string name();
    std::function<bool(const std::string &)> name_ok;
    bool printable_only = false;
    bool nocollide = false;
    std::vector<std::string> coded;     // characters the tables in use speak of
    size_t limit = 0;                   // the length limit in use
    const MSeq *seq = nullptr;
    Plan plan;
    bool replan(ProcSpec &p);
    void tree(const std::string &dir, int n, int depth, bool special, bool casefold);
    void one_dir(const std::string &dir, int n, int depth, bool special, bool casefold, int &budget);
    void env_faults(int n);
    void layout_knobs();
    void contend();
    void multi();
    void bad_output();
    void args(ProcSpec &p, int style);
    std::vector<std::string> dirs() const;
    ProcSpec proc(const std::string &a0);
    std::string rel(const std::string &path, const std::string &cwd);
    void vary_options(ProcSpec &p);
    bool tree_run(int flags);
    bool inline_run(bool allow_err);
    bool config_run();
    bool table_run();
    std::string inline_text(bool longlines, bool longlines_ok, int lines);
};
void minimise_nodes(Scen &);
