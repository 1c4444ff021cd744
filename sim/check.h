// A property's check: how a case is drawn from a seed, and how it is run and judged.
#pragma once
#include "gen.h"
#include <functional>

struct Check {
    std::string id;
    std::function<Case(u64 seed)> gen;
    std::function<Outcome(const Case&)> run;
    std::function<std::vector<Op>(const Case&, const std::vector<Op>&)> norm;    // optional; default: one legal history
    u64 quickRuns = 4000, thoroughRuns = 200000;
};
std::map<std::string, Check>& checks();
struct Register { explicit Register(Check c) { checks()[c.id] = std::move(c); } };

// Thrown-exception-safe execution of one operation; an exception on a legal operation is itself a violation.
struct Ctx {
    Outcome& o; Sut& s;
    bool full;
    bool step(const Op& e);                    // commands and extension switches
};
std::string opStr(const Op&);
void probeOp(Outcome&, const Op&);
inline std::vector<Std> allStds() { return {Std::DDR4, Std::DDR5, Std::LPDDR4, Std::LPDDR5, Std::LPDDR6}; }
