// Component worlds: one building block of the library on its own, driven by a seeded schedule of calls, clock
// jumps, observations, copies and crash/restores, against a small reference. They reach configurations and call
// orders the five memories never use. A world belongs to one or more properties and supplies part of their cases.
#pragma once
#include "check.h"

struct World {
    std::string name;
    std::vector<std::string> props;
    std::function<void(Case&, Rng&, bool ckpt)> gen;        // ckpt: the property is about checkpoints
    std::function<void(const Case&, Outcome&)> run;
    std::function<std::vector<Op>(const Case&, const std::vector<Op>&)> norm;   // optional
};
std::vector<World>& worlds();
struct AddWorld { explicit AddWorld(World w) { worlds().push_back(std::move(w)); } };
std::vector<Op> timeOrdered(const std::vector<Op>&);        // drops operations that lie before an earlier one
inline Op act(u64 t, u64 kind, u64 b = 0, u64 bits = 0) { Op e; e.ev = Ev::META; e.t = t; e.a = kind; e.b = b; e.bits = bits; return e; }
inline Op evt(u64 t, Ev ev) { Op e; e.ev = ev; e.t = t; return e; }
void attachWorlds();                                        // called once, before any check is used
#define SAME(o, cls, what, got, want) do { auto g_ = (got); auto w_ = (want); (o).mixin((u64)g_); if (!(g_ == w_)) { (o).fail(cls, std::string(what) + " is " + std::to_string(g_) + ", expected " + std::to_string(w_)); return; } } while (0)
