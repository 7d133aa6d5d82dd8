// Decides whether the simulated executions of a scenario respect the property the scenario was made for.
#pragma once
#include "model.h"

struct Viol { std::string kind, text; };
struct Verdict {
    std::vector<Viol> v;
    bool discard = false;        // the scenario lies outside what the model specifies
    bool broken = false;         // the simulator could not decide (never reported as a violation)
    std::string why;
    uint64_t hash = 0;           // of all executions that were needed
    bool nontrivial = false;
    uint64_t cls_hash = 0;       // hash of the sequence of calls with their outcomes (state coverage measure)
    uint64_t steps = 0, simtime = 0;
    uint32_t execs = 0;
    std::vector<std::pair<std::string, uint32_t>> fired;   // faults that struck, by kind
};
Verdict evaluate(const Scen &);
std::string trace_text(uint32_t maxev);
