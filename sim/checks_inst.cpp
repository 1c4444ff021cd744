// C14: many memories in one process, copied, moved and destroyed at random instants, in any interleaving; each must behave as if it were alone.
#include "check.h"
#include "sut.h"
#include <csignal>
#include <sys/wait.h>
#include <unistd.h>

namespace {
using Log = std::vector<std::vector<u64>>;         // one entry per observation
u64 bits(double d) { u64 u; if (d != d) return 0x7ff8000000000000ull; std::memcpy(&u, &d, 8); return u; }
std::vector<u64> observe(Sut& s, u64 t) {
    std::vector<u64> v; Snap n = s.stats(t);
    for (auto& b : n.bus) for (u64 x : b) v.push_back(x);
    for (auto& b : n.bank) for (u64 x : b) v.push_back(x);
    for (auto& b : n.rank) for (u64 x : b) v.push_back(x);
    for (double x : s.energy(t).values()) v.push_back(bits(x));
    v.push_back(s.dbiEnabled()); auto m = s.metaGet(); v.push_back(m.first); v.push_back(m.second);
    return v;
}
std::string wordName(size_t w, const Spec& s) {
    if (w < Snap::NBUS * 5) return std::string(Snap::busName(w / 5)) + "." + Snap::fieldName(w % 5);
    w -= Snap::NBUS * 5; size_t nb = s.ranks() * s.banks();
    if (w < nb * Snap::NCNT) return "bank[" + std::to_string(w / Snap::NCNT) + "]." + Snap::cntName(w % Snap::NCNT);
    return "figure " + std::to_string(w);
}
// Life of one memory: which memories it descends from, and every operation that shaped it.
struct Line { u64 spec = 0; bool alive = false; std::vector<size_t> ops; size_t own = 0; };
// nullopt: the scenario is malformed at operation `bad`
std::map<u64, Line> lines(const Case& k, std::vector<bool>* keep = nullptr) {
    std::map<u64, Line> m; for (u64 i = 0; i <= k.more.size(); ++i) { m[i].spec = i; m[i].alive = true; }
    if (keep) keep->assign(k.ops.size(), true);
    for (size_t i = 0; i < k.ops.size(); ++i) {
        auto& e = k.ops[i]; auto it = m.find(e.inst); bool ok = it != m.end() && it->second.alive;
        if (ok && e.ev == Ev::COPY) { if (m.count(e.a)) ok = false; else { Line c = it->second; c.own = c.ops.size(); m[e.a] = c; } }
        else if (ok && e.ev == Ev::FAULT) it->second.alive = false;
        else if (ok && e.ev != Ev::MOVE) it->second.ops.push_back(i);
        if (!ok) { if (keep) (*keep)[i] = false; else throw std::runtime_error("malformed scenario"); }
    }
    return m;
}
void put(std::vector<u64>& out, const Log& l) { out.push_back(l.size()); for (auto& v : l) { out.push_back(v.size()); out.insert(out.end(), v.begin(), v.end()); } }
Log get(const std::vector<u64>& in, size_t& p) { Log l(in.at(p++)); for (auto& v : l) { u64 n = in.at(p++); if (p + n > in.size()) throw std::out_of_range("cut"); v.assign(in.begin() + p, in.begin() + p + n); p += n; } return l; }
// Run f in a process of its own that has never made a memory; its numbers come back, or the reason why not.
template <class F> std::string apart(F f, std::vector<u64>& out) {
    int p[2]; if (pipe(p)) return "pipe";
    pid_t pid = fork();
    if (pid == 0) {
        close(p[0]); alarm(20); std::vector<u64> v{1};
        try { f(v); } catch (const std::exception& x) { std::string m = x.what(); v.assign(1, 0); for (char c : m) v.push_back((u64)(unsigned char)c); }
        const char* b = (const char*)v.data(); size_t n = v.size() * 8; while (n) { ssize_t w = write(p[1], b, n); if (w <= 0) _exit(1); b += w; n -= w; }
        _exit(0);
    }
    close(p[1]); std::string s; char buf[1 << 16]; ssize_t n; while ((n = read(p[0], buf, sizeof buf)) > 0) s.append(buf, n);
    close(p[0]); int st = 0; while (waitpid(pid, &st, 0) < 0) {}
    if (WIFSIGNALED(st)) return WTERMSIG(st) == SIGALRM ? "hang" : "crash " + std::to_string(WTERMSIG(st));
    out.resize(s.size() / 8); std::memcpy(out.data(), s.data(), out.size() * 8);
    if (out.empty()) return "no answer";
    if (!out[0]) { std::string m = "exception "; for (size_t i = 1; i < out.size(); ++i) m += (char)out[i]; return m; }
    return "";
}
void step(Sut& s, const Op& e, Log& log, bool record) {
    switch (e.ev) {
        case Ev::CMD: s.cmd(e); break;
        case Ev::QUERY: { auto v = observe(s, e.t); if (record) log.push_back(v); break; }
        case Ev::DBI: { bool r = s.dbi(e.t, e.a); if (record) log.push_back({r}); break; }
        case Ev::META: { bool r = s.meta(e.a, e.b); if (record) log.push_back({r}); break; }
        default: break;
    }
}
u64 endOf(const Case& k, const Line& l) { u64 t = 0; for (size_t i : l.ops) t = std::max(t, k.ops[i].t); return t; }
Outcome runC14(const Case& k) {
    Outcome o; auto ls = lines(k); Rng r(k.seed ^ 0x1414); u64 tail = r.below(60);
    for (auto& e : k.ops) { probeOp(o, e); o.mixin(e.inst); o.simTime = std::max(o.simTime, e.t); }
    o.count["probe.memories"] += ls.size(); o.count["probe.configurations"] += k.more.size() + 1;
    // together
    std::vector<u64> out;
    std::string why = apart([&](std::vector<u64>& v) {
        std::map<u64, std::unique_ptr<Sut>> m; std::map<u64, Log> log; std::vector<std::unique_ptr<Sut>> shells;
        for (u64 i = 0; i <= k.more.size(); ++i) m[i] = Sut::make(k.specOf(i));
        // What a copy or move is assigned to: nothing (construction), a new or a used memory, one of another configuration, or one that was moved from.
        auto target = [&](const Op& e, std::unique_ptr<Sut>& s) -> std::unique_ptr<Sut> {
            const Spec& own = k.specOf(ls[e.inst].spec);
            if (e.b == 1 || e.b == 2) { auto n = s->fresh(); if (e.b == 2) { auto& ops = ls[e.inst].ops; Log none; for (size_t i = 0; i < ops.size() * (1 + e.row % 3) / 3; ++i) step(*n, k.ops[ops[i]], none, false); } return n; }
            if (e.b == 3) for (u64 i = 0; i <= k.more.size(); ++i) { u64 x = (i + e.row) % (k.more.size() + 1); if (x != ls[e.inst].spec && k.specOf(x).std_ == own.std_) { auto n = Sut::make(k.specOf(x)); if (e.row & 8) n->dbi(0, true); return n; } }
            if (e.b == 4) for (size_t i = 0; i < shells.size(); ++i) if (shells[i]->std() == own.std_) { auto n = std::move(shells[i]); shells.erase(shells.begin() + i); return n; }
            return nullptr;
        };
        for (auto& e : k.ops) {
            auto& s = m[e.inst];
            if (e.ev == Ev::COPY) { auto n = target(e, s); if (!n || !n->assign(*s)) n = s->copy(); m[e.a] = std::move(n); }
            else if (e.ev == Ev::MOVE && e.b == 5) { const Sut& self = *s; s->assign(self); }
            else if (e.ev == Ev::MOVE) { auto n = target(e, s); if (!n || !n->moveAssign(*s)) n = s->moved(); if (!e.a) shells.push_back(std::move(s)); m[e.inst] = std::move(n); }
            else if (e.ev == Ev::FAULT) m.erase(e.inst);
            else step(*s, e, log[e.inst], true);
        }
        for (auto& [id, s] : m) if (s) log[id].push_back(observe(*s, endOf(k, ls[id]) + tail));
        for (auto& [id, l] : ls) put(v, log[id]);
    }, out);
    if (!why.empty()) { o.fail(why.substr(0, why.find(' ')), "the memories together: " + why); return o; }
    std::map<u64, Log> got; size_t p = 1; for (auto& [id, l] : ls) got[id] = get(out, p);
    // each alone
    for (auto& [id, l] : ls) {
        std::vector<u64> v2;
        why = apart([&, id = id](std::vector<u64>& v) {
            const Line& l = ls[id]; auto s = Sut::make(k.specOf(l.spec)); Log log;
            for (size_t n = 0; n < l.ops.size(); ++n) step(*s, k.ops[l.ops[n]], log, n >= l.own);
            if (l.alive) log.push_back(observe(*s, endOf(k, l) + tail));
            put(v, log);
        }, v2);
        if (!why.empty()) { o.fail("alone-" + why.substr(0, why.find(' ')), "memory " + std::to_string(id) + " alone: " + why); return o; }
        p = 1; Log want = get(v2, p), &have = got[id];
        for (size_t i = 0; i < std::max(want.size(), have.size()); ++i) {
            if (i >= want.size() || i >= have.size() || want[i].size() != have[i].size()) { o.fail("shape", "memory " + std::to_string(id) + " gives another number of figures than alone"); return o; }
            for (size_t w = 0; w < want[i].size(); ++w) if (want[i][w] != have[i][w]) {
                o.fail("not-independent", "memory " + std::to_string(id) + (l.own ? " (a copy)" : "") + ", its observation " + std::to_string(i) + ": " + (want[i].size() == 1 ? "answer of a switch" : wordName(w, k.specOf(l.spec))) + " is " + std::to_string(have[i][w]) + ", alone " + std::to_string(want[i][w])); return o; }
            for (u64 x : want[i]) o.mixin(x);
        }
    }
    { u64 h = 0; for (auto& e : k.ops) if (e.ev == Ev::COPY || e.ev == Ev::MOVE || e.ev == Ev::FAULT) h = h * 31 + (u64)e.ev * 8 + e.inst; for (auto& e : k.ops) h = h * 1099511628211ull + e.inst; o.states.insert(h); }
    return o;
}
std::vector<Op> normC14(const Case& k0, const std::vector<Op>& v) {
    Case k = k0; k.ops = v;
    for (int round = 0; round < 8; ++round) {
        std::vector<bool> keep; auto ls = lines(k, &keep); bool all = true;
        for (auto& [id, l] : ls) {                                   // each life must be a legal history
            std::vector<Op> h; std::vector<size_t> idx; for (size_t i : l.ops) { Op e = k.ops[i]; e.a = e.ev == Ev::CMD || e.ev == Ev::QUERY ? h.size() : e.a; h.push_back(e); }
            auto n = normalise(k.specOf(l.spec), h, true, k.p("strict"), k.p("sloppy")); size_t j = 0;
            for (size_t q = 0; q < h.size(); ++q) { if (j < n.size() && n[j].ev == h[q].ev && n[j].t == h[q].t && n[j].a == h[q].a && n[j].b == h[q].b && n[j].cmd == h[q].cmd) ++j; else keep[l.ops[q]] = false; }
        }
        std::vector<Op> w; for (size_t i = 0; i < k.ops.size(); ++i) if (keep[i]) w.push_back(k.ops[i]); else all = false;
        k.ops = w; if (all) break;
    }
    std::vector<bool> keep; lines(k, &keep); std::vector<Op> w; for (size_t i = 0; i < k.ops.size(); ++i) if (keep[i]) w.push_back(k.ops[i]);
    return w;
}
Case genC14(u64 seed) {
    Rng r(seed); Case k; k.prop = "C14"; k.seed = seed; SpecOpt so{2, true};
    k.spec = randomSpec(r, r.pick(allStds()), so); u64 roots = r.pick<u64>({1, 1, 2, 2, 3});
    for (u64 i = 1; i < roots; ++i) { if (r.chance(25)) k.more.push_back(k.spec); else k.more.push_back(randomSpec(r, r.chance(50) ? k.spec.std_ : r.pick(allStds()), so)); }
    k.param["full"] = 1; k.param["strict"] = r.chance(50); k.param["sloppy"] = r.chance(25);
    struct Live { u64 id, spec; Gen gen; };
    std::vector<std::shared_ptr<Live>> live;
    for (u64 i = 0; i < roots; ++i) { GenOpt g; g.strict = k.p("strict"); g.query = r.chance(50); g.dbi = r.chance(75); g.meta = true; g.end = false; g.dataHeavy = r.chance(50); g.noPd = g.dataHeavy; g.ops = 1; g.own6 = false; g.sloppy = k.p("sloppy"); live.push_back(std::make_shared<Live>(Live{i, i, Gen(r, k.specOf(i), g)})); }
    u64 next = roots, segs = 3 + r.below(10);
    for (u64 n = 0; n < segs; ++n) {
        u64 li = r.below(live.size()); auto lp = live[li]; auto& l = *lp; l.gen.o.ops = 1 + r.below(10); u64 t = l.gen.rc.now;
        for (auto& e : l.gen.history()) { Op x = e; x.inst = l.id; k.ops.push_back(x); }
        t = l.gen.rc.now; u64 x = r.below(100);
        if (x < 35 && next < roots + 3) { Op e; e.ev = Ev::COPY; e.t = t; e.inst = l.id; e.a = next; e.b = r.below(5); e.row = r.below(16); k.ops.push_back(e); auto c = std::make_shared<Live>(Live{next, l.spec, l.gen}); if (r.chance(30)) { Op d; d.ev = Ev::FAULT; d.t = t; d.inst = l.id; k.ops.push_back(d); live[li] = c; } else live.push_back(c); ++next; }
        else if (x < 55) { Op e; e.ev = Ev::MOVE; e.t = t; e.inst = l.id; e.a = r.below(2); e.b = r.below(6); e.row = r.below(16); k.ops.push_back(e); }
        else if (x < 62 && live.size() > 1) { Op e; e.ev = Ev::FAULT; e.t = t; e.inst = l.id; k.ops.push_back(e); live.erase(live.begin() + li); }
    }
    for (u64 n = 0; n < k.ops.size() * 6; ++n) {                      // interleave
        size_t i = r.below(k.ops.size()); if (i + 1 >= k.ops.size()) continue;
        auto &a = k.ops[i], &b = k.ops[i + 1];
        if (a.inst == b.inst || (a.ev == Ev::COPY && a.a == b.inst) || (b.ev == Ev::COPY && b.a == a.inst)) continue;
        std::swap(a, b);
    }
    return k;
}
Register c14({"C14", genC14, runC14, normC14, 12000, 500000});
}
