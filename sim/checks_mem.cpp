// C18: the library stays inside its own memory. The cases are those of the other properties; what they say about figures
// is not judged here. The build this runs in traps every access outside an object and every operation without a meaning;
// a second build fills fresh memory differently, and both must see the same history.
#include "check.h"
#include "faults.h"
namespace {
const std::vector<std::pair<int, int>> kinds = {{1, 12}, {2, 6}, {3, 5}, {4, 8}, {5, 8}, {6, 6}, {7, 10}, {8, 10}, {9, 9}, {10, 8}, {11, 7}, {12, 9}, {14, 9}, {15, 6}};
std::string nameOf(u64 n) { return (n < 10 ? "C0" : "C") + std::to_string(n); }
const Check& inner(const Case& k) { return checks().at(nameOf(k.p("as"))); }
Case as(const Case& k) { Case x = k; x.prop = nameOf(k.p("as")); return x; }
Case gen(u64 seed) {
    Rng r(seed ^ 0x18181818);
    if (r.below(250) == 0) {                             // thousands of commands to one memory
        Case k; k.prop = "C18"; k.seed = seed; k.mode = "soak"; k.param["full"] = 1;
        k.spec = randomSpec(r, r.pick(allStds())); GenOpt g; g.ops = 5000 + r.below(2000); g.dbi = r.chance(50); g.meta = r.chance(50); g.query = r.chance(30); g.strict = r.chance(50); k.param["strict"] = g.strict;
        g.busy = r.chance(50);
        if (r.chance(g.busy ? 70 : 30)) { g.full = false; g.dbi = g.meta = false; k.param["full"] = 0; }
        Gen x(r, k.spec, g); k.ops = x.history(); return k;
    } u64 sum = 0, n = 0; for (auto& p : kinds) sum += p.second;
    u64 at = r.below(sum); while (at >= (u64)kinds[n].second) at -= kinds[n++].second;
    Case k = checks().at(nameOf(kinds[n].first)).gen(seed); k.prop = "C18"; k.param["as"] = kinds[n].first;
    return k;
}
Outcome once(const Case& k) {
    Outcome o; Case x = as(k);
    try { o = inner(k).run(x); } catch (const std::exception&) {}
    o.ok = true; o.cls.clear(); o.msg.clear(); o.count["probe.casesOf" + nameOf(k.p("as"))]++;
    return o;
}
// What a memory holds depends on what is going on in it, not on how long it has been simulated.
Outcome soak(const Case& k) {
    Outcome o; u64 start = heapHeld(), early = 0, late = 0; auto sut = Sut::make(k.spec); Ctx c{o, *sut, k.p("full") != 0};
    if (k.ops.size() < 2000) return o;                   // too short to tell
    for (size_t i = 0; i < k.ops.size(); ++i) {
        auto& e = k.ops[i]; probeOp(o, e);
        if (e.ev == Ev::QUERY) { Snap s = sut->stats(e.t); s.mix(o); } else c.step(e);
        (i < k.ops.size() / 4 ? early : late) = std::max(i < k.ops.size() / 4 ? early : late, heapHeld() - start);
    }
    o.ok = true; o.count["probe.soaks"]++; if (!k.ops.empty()) o.simTime = k.ops.back().t;
    u64 room = 8192 + 256 * k.spec.banks() * k.spec.ranks();
    if ((long long)late > 2 * (long long)early + (long long)room)
        o.fail("grows", "the memory holds " + std::to_string(late) + " bytes late in a history of " + std::to_string(k.ops.size()) + " operations, at most " + std::to_string(early) + " in its first quarter");
    return o;
}
Outcome run(const Case& k) {
    if (k.mode == "soak") return soak(k);
#ifdef __SANITIZE_ADDRESS__
    return once(k);
#else
    Outcome o = once(k);                                 // whatever is kept from now on, run after run, is lost
    u64 grown[2];
    for (auto& g : grown) { u64 a = heapHeld(); { Outcome x = once(k); if (x.hash != o.hash) o.fail("unrepeatable", "the same history, run again in the same process, gave other figures"); } g = heapHeld() - a; }
    if (grown[0] && grown[0] == grown[1] && (long long)grown[0] > 0)
        o.fail("leak", std::to_string(grown[0]) + " bytes are still held after every memory of the case has been destroyed, each time it is run");
    o.count["probe.heapBalanced"]++;
    return o;
#endif
}
std::vector<Op> norm(const Case& k, const std::vector<Op>& v) {
    if (k.mode == "soak") return normalise(k.spec, v, k.p("full"), k.p("strict"), false);
    Case x = as(k); auto& c = inner(k); return c.norm ? c.norm(x, v) : normalise(k.spec, v, k.p("full"), k.p("strict"), k.p("sloppy"));
}
Register c18({"C18", gen, run, norm, 16000, 400000});
}
