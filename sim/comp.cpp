#include "comp.h"
std::vector<World>& worlds() { static std::vector<World> w; return w; }
std::vector<Op> timeOrdered(const std::vector<Op>& v) { std::vector<Op> o; u64 now = 0; for (auto& e : v) if (e.t >= now) { now = e.t; o.push_back(e); } return o; }
void attachWorlds() {
    for (auto& [id, c] : checks()) {
        auto mine = std::make_shared<std::vector<World>>();
        for (auto& w : worlds()) if (std::find(w.props.begin(), w.props.end(), id) != w.props.end()) mine->push_back(w);
        if (mine->empty()) continue;
        Check base = c; std::string prop = id; bool ckpt = id == "C01";
        auto find = [mine](const Case& k) -> const World* { if (k.mode.rfind("comp:", 0)) return nullptr; for (auto& w : *mine) if ("comp:" + w.name == k.mode) return &w; throw std::runtime_error("unknown world " + k.mode); };
        c.gen = [=](u64 seed) {
            Rng r(seed ^ 0xC09C09C09ull);
            if (!r.chance(15)) return base.gen(seed);
            auto& w = (*mine)[r.below(mine->size())];
            Case k; k.prop = prop; k.seed = seed; k.mode = "comp:" + w.name; w.gen(k, r, ckpt); return k;
        };
        c.run = [=](const Case& k) {
            auto w = find(k); if (!w) return base.run(k);
            Outcome o; o.count["world." + w->name]++;
            for (auto& e : k.ops) if (e.ev == Ev::CKPT) o.count["fault.componentCrashRestore"]++;
            if (!k.ops.empty()) o.simTime = k.ops.back().t;
            w->run(k, o); o.mixin(k.ops.size()); return o;
        };
        c.norm = [=](const Case& k, const std::vector<Op>& v) {
            auto w = find(k); if (w) return w->norm ? w->norm(k, timeOrdered(v)) : timeOrdered(v);
            return base.norm ? base.norm(k, v) : normalise(k.spec, v, k.p("full"), k.p("strict"), k.p("sloppy"));
        };
    }
}
