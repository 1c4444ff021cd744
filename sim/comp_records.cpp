// Component worlds: the records a checkpoint is made of, the sums over statistics and energies, and the LPDDR6
// interface that can be switched off and on.
#include "comp.h"
#include "sut.h"
#include <DRAMPower/data/energy.h>
#include <DRAMPower/data/stats.h>
#include <DRAMPower/dram/Rank.h>
#include <sstream>
using namespace DRAMPower;
SimulationStats unflatten(const Snap&);
Snap flatten(const SimulationStats&);
namespace {
u64 anyValue(Rng& r) { return r.chance(20) ? 0 : r.next() >> r.below(64); }
Snap anySnap(Rng& r, u64 banks, u64 ranks, u64 cut = 1) {
    Snap s; auto v = [&] { return anyValue(r) >> cut; };
    for (auto& b : s.bus) for (auto& x : b) x = v();
    s.bank.resize(banks); s.rank.resize(ranks);
    for (auto* l : {&s.bank, &s.rank}) for (auto& c : *l) for (auto& x : c) x = v();
    return s;
}
// ---------------------------------------------------------------- checkpoint records
using Fields = std::vector<std::pair<std::string, u64>>;
struct Record { virtual ~Record() = default; virtual void fill(Rng&) = 0; virtual void save(std::ostream&) const = 0; virtual void load(std::istream&) = 0; virtual Fields read() const = 0; };
void spans(Rng& r, interval_t& i) {
    i = interval_t(); u64 t = anyValue(r) >> 8; if (r.chance(50)) i.add(anyValue(r) >> 8);
    for (u64 n = r.below(4); n--;) { i.start_interval(t); t += r.below(9); if (n || r.chance(50)) i.close_interval(t); t += r.below(9); }
    if (r.chance(10)) i.reset_interval();
}
void put(Fields& f, const std::string& n, const interval_t& i) { f.emplace_back(n + " length", i.get_count()); f.emplace_back(n + " start", i.get_start()); f.emplace_back(n + " end", i.get_end()); f.emplace_back(n + " open", i.is_open()); f.emplace_back(n + " closed", i.is_closed()); }
void fill(Rng& r, CycleStats& c) { SimulationStats s = unflatten(anySnap(r, 1, 0, 0)); c = s.bank[0]; }
void put(Fields& f, const CycleStats& c) { SimulationStats s; s.bank.push_back(c); Snap x = flatten(s); for (int i = 0; i < Snap::NCNT; ++i) f.emplace_back(Snap::cntName(i), x.bank[0][i]); }
void fill(Rng& r, Bank& b) {
    CycleStats c; fill(r, c); b.counter = c.counter; spans(r, b.cycles.act); spans(r, b.cycles.powerDownAct); spans(r, b.cycles.powerDownPre);
    b.bankState = r.chance(50) ? Bank::BankState::BANK_ACTIVE : Bank::BankState::BANK_PRECHARGED; b.latestPre = anyValue(r); b.refreshEndTime = anyValue(r);
}
void put(Fields& f, const Bank& b) {
    CycleStats c; c.counter = b.counter; put(f, c); put(f, "active", b.cycles.act); put(f, "active power-down", b.cycles.powerDownAct); put(f, "precharge power-down", b.cycles.powerDownPre);
    f.emplace_back("bank state", (u64)b.bankState); f.emplace_back("latest precharge", b.latestPre); f.emplace_back("end of refresh", b.refreshEndTime);
}
struct RecCycles : Record { CycleStats c; void fill(Rng& r) override { ::fill(r, c); } void save(std::ostream& s) const override { c.serialize(s); } void load(std::istream& s) override { c.deserialize(s); } Fields read() const override { Fields f; put(f, c); return f; } };
struct RecBank : Record { Bank b; void fill(Rng& r) override { ::fill(r, b); } void save(std::ostream& s) const override { b.serialize(s); } void load(std::istream& s) override { b.deserialize(s); } Fields read() const override { Fields f; put(f, b); return f; } };
struct RecRank : Record {
    Rank k; explicit RecRank(u64 n) : k(n) {}
    void fill(Rng& r) override {
        for (auto& b : k.banks) ::fill(r, b);
        for (auto* i : {&k.cycles.act, &k.cycles.sref, &k.cycles.powerDownAct, &k.cycles.powerDownPre, &k.cycles.deepSleepMode}) spans(r, *i);
        k.memState = (MemState)r.below(5); k.counter.selfRefresh = anyValue(r); k.counter.deepSleepMode = anyValue(r); k.endRefreshTime = anyValue(r);
    }
    void save(std::ostream& s) const override { k.serialize(s); } void load(std::istream& s) override { k.deserialize(s); }
    Fields read() const override {
        Fields f; for (auto& b : k.banks) put(f, b);
        put(f, "rank active", k.cycles.act); put(f, "self-refresh", k.cycles.sref); put(f, "rank active power-down", k.cycles.powerDownAct); put(f, "rank precharge power-down", k.cycles.powerDownPre); put(f, "deep sleep", k.cycles.deepSleepMode);
        f.emplace_back("rank state", (u64)k.memState); f.emplace_back("self-refresh entries", k.counter.selfRefresh); f.emplace_back("deep-sleep entries", k.counter.deepSleepMode); f.emplace_back("rank end of refresh", k.endRefreshTime); return f;
    }
};
struct RecLines : Record {
    RankInterface k;
    template <class S> static auto all(S& k) { return std::array{&k.seamlessPrePostambleCounter_read, &k.seamlessPrePostambleCounter_write, &k.mergedPrePostambleCounter_read, &k.mergedPrePostambleCounter_write, &k.mergedPrePostambleTime_read, &k.mergedPrePostambleTime_write, &k.lastReadEnd, &k.lastWriteEnd}; }
    void fill(Rng& r) override { for (auto* p : all(k)) *p = anyValue(r); }
    void save(std::ostream& s) const override { k.serialize(s); } void load(std::istream& s) override { k.deserialize(s); }
    Fields read() const override { static const char* n[] = {"seamless reads", "seamless writes", "merged reads", "merged writes", "merged read time", "merged write time", "end of last read", "end of last write"}; Fields f; int i = 0; for (auto* p : all(k)) f.emplace_back(n[i++], *p); return f; }
};
std::unique_ptr<Record> record(u64 kind, u64 n) { switch (kind) { case 0: return std::make_unique<RecCycles>(); case 1: return std::make_unique<RecBank>(); case 2: return std::make_unique<RecRank>(n); default: return std::make_unique<RecLines>(); } }
void recordsGen(Case& k, Rng& r, bool) {
    for (u64 n = r.pick<u64>({1, 3, 8}); n--;) { Op e = act(k.ops.size(), r.below(4), r.next()); e.bits = r.pick<u64>({0, 1, 2, 8, 32}); e.inst = r.next(); k.ops.push_back(e); }
}
void recordsRun(const Case& k, Outcome& o) {
    std::stringstream m; std::vector<std::pair<const Op*, Fields>> want;
    for (auto& e : k.ops) if (e.ev == Ev::META) { Rng r(e.b); auto x = record(e.a, e.bits); x->fill(r); Fields before = x->read(); x->save(m); if (x->read() != before) { o.fail("observable-write", "writing a record changed it"); return; } want.emplace_back(&e, before); o.states.insert(0x61000000 + e.a); }
    for (auto& [e, f] : want) {
        auto x = record(e->a, e->bits); Rng r(e->inst); x->fill(r); x->load(m);                       // over one that was in use
        if (!m) { o.fail("restore-refused", "restoring an intact record left the stream failed"); return; }
        auto g = x->read(); for (size_t i = 0; i < f.size(); ++i) { o.mixin(g[i].second); if (g[i].second != f[i].second) { o.fail("record", "record kind " + std::to_string(e->a) + ": " + f[i].first + " is " + std::to_string(g[i].second) + " after restoring, written as " + std::to_string(f[i].second)); return; } }
        o.count["probe.records"]++;
    }
    if (m.peek() != std::char_traits<char>::eof()) o.fail("record", "data left over after restoring all records");
}
AddWorld records({"records", {"C01"}, recordsGen, recordsRun, nullptr});

// ---------------------------------------------------------------- sums over statistics and energies
const std::vector<double energy_info_t::*>& parts() {
    using E = energy_info_t; static const std::vector<double E::*> p = {&E::E_act, &E::E_pre, &E::E_bg_act, &E::E_bg_pre, &E::E_RD, &E::E_WR, &E::E_RDA, &E::E_WRA, &E::E_ref_AB, &E::E_ref_PB, &E::E_ref_SB, &E::E_ref_2B, &E::E_ref_DB, &E::E_pre_RDA, &E::E_pre_WRA}; return p;   // the last two are contained in E_pre
}
void sumsGen(Case& k, Rng& r, bool) { for (u64 n = r.pick<u64>({1, 3, 8}); n--;) { Op e = act(k.ops.size(), r.below(4), r.next()); e.bits = r.pick<u64>({0, 1, 2, 8, 16, 33}); k.ops.push_back(e); } }
void sumsRun(const Case& k, Outcome& o) {
    auto differ = [&](const Snap& got, const Snap& want, const char* what) { auto d = got.diff(want); if (d.empty()) return false; o.fail("sum", std::string(what) + " (got vs expected): " + d); return true; };
    for (auto& e : k.ops) if (e.ev == Ev::META) {
        Rng r(e.b); u64 n2 = r.chance(60) ? e.bits : r.below(20), k1 = 1 + r.below(4), k2 = r.chance(60) ? k1 : r.below(5);
        o.states.insert(0x62000000 + e.a); o.count["probe.sums"]++;
        if (e.a == 0) {          // the activity of two spans, added
            Snap a = anySnap(r, e.bits, k1), b = anySnap(r, n2, k2), w = a;
            for (int i = 0; i < Snap::NBUS; ++i) for (int f = 0; f < 5; ++f) w.bus[i][f] += b.bus[i][f];
            auto merge = [](auto& x, auto& y) { for (size_t i = 0; i < y.size(); ++i) if (i < x.size()) { for (int c = 0; c < Snap::NCNT; ++c) x[i][c] += y[i][c]; } else x.push_back(y[i]); };
            merge(w.bank, b.bank); merge(w.rank, b.rank);
            SimulationStats s = unflatten(a), t = unflatten(b); s += t;
            if (differ(flatten(s), w, "sum of two statistics") || differ(flatten(t), b, "the added statistics afterwards")) return;
            flatten(s).mix(o);
        } else if (e.a == 1) {   // equal only when every figure is
            Snap a = anySnap(r, e.bits, k1), b = a; bool same = r.chance(20);
            if (!same) {
                u64 x = r.below(Snap::NBUS * 5 + (a.bank.size() + a.rank.size()) * Snap::NCNT + 2), bus = Snap::NBUS * 5, bk = bus + a.bank.size() * Snap::NCNT, rk = bk + a.rank.size() * Snap::NCNT; u64 d = 1ull << r.below(63);
                if (x < bus) b.bus[x / 5][x % 5] ^= d; else if (x < bk) b.bank[(x - bus) / Snap::NCNT][(x - bus) % Snap::NCNT] ^= d; else if (x < rk) b.rank[(x - bk) / Snap::NCNT][(x - bk) % Snap::NCNT] ^= d;
                else if (x == rk) b.bank.emplace_back(); else b.rank.emplace_back();
            }
            SimulationStats s = unflatten(a), t = unflatten(b);
            if ((s == t) != same || (t == s) != same) { o.fail("equality", same ? "equal statistics compare unequal" : "statistics compare equal although they differ: " + a.diff(b)); return; }
            o.mixin(same);
        } else if (e.a == 2) {   // bus figures scaled and added
            Snap a = anySnap(r, 0, 0, 20); u64 f = r.below(1 << 16); auto s = unflatten(a); util::bus_stats_t x = s.commandBus * f, y = f * s.readBus, z = x + y; x += y;
            auto five = [](const util::bus_stats_t& b) { return std::array<u64, 5>{b.ones, b.zeroes, b.bit_changes, b.ones_to_zeroes, b.zeroes_to_ones}; };
            for (int i = 0; i < 5; ++i) { u64 w = (a.bus[Snap::CMD][i] + a.bus[Snap::RBUS][i]) * f; SAME(o, "sum", std::string("scaled and added ") + Snap::fieldName(i), five(z)[i], w); SAME(o, "sum", std::string("scaled and accumulated ") + Snap::fieldName(i), five(x)[i], w); }
        } else {                 // whole numbers, so that every order of adding gives the same
            auto v = [&] { return r.chance(20) ? 0.0 : (double)(r.next() >> (24 + r.below(30))); };
            energy_t en(e.bits); double want = 0; std::array<double, 15> sum{};
            for (auto& b : en.bank_energy) for (size_t i = 0; i < 15; ++i) { double x = v(); b.*parts()[i] = x; sum[i] += x; if (i < 13) want += x; }
            for (auto* p : {&en.E_bg_act_shared, &en.E_PDNA, &en.E_PDNP, &en.E_sref, &en.E_dsm, &en.E_refab}) { *p = v(); want += *p; }
            SAME(o, "sum", "total core energy", en.total(), want);
            energy_info_t agg = en.aggregated_bank_energy(), acc; double aggTotal = 0;
            for (auto& b : en.bank_energy) acc += b;
            for (size_t i = 0; i < 15; ++i) { double extra = parts()[i] == &energy_info_t::E_bg_act ? en.E_bg_act_shared : 0;      // the active background of all banks includes the shared one
                SAME(o, "sum", std::string("aggregated bank energy, part ") + std::to_string(i), agg.*parts()[i], sum[i] + extra); SAME(o, "sum", std::string("added bank energies, part ") + std::to_string(i), acc.*parts()[i], sum[i]); if (i < 13) aggTotal += sum[i] + extra; }
            SAME(o, "sum", "total of the aggregated bank energy", agg.total(), aggTotal);
            interface_energy_info_t p, q; auto four = [](interface_energy_info_t& x) { return std::array<double*, 4>{&x.controller.dynamicEnergy, &x.controller.staticEnergy, &x.dram.dynamicEnergy, &x.dram.staticEnergy}; };
            std::array<double, 4> w4{}; for (auto* x : {&p, &q}) { int i = 0; for (double* d : four(*x)) { *d = v(); w4[i++] += *d; } }
            SAME(o, "sum", "interface energy total", p.total(), *four(p)[0] + *four(p)[1] + *four(p)[2] + *four(p)[3]);
            interface_energy_info_t s1 = p + q, s2 = p; s2 += q;
            for (int i = 0; i < 4; ++i) { SAME(o, "sum", "sum of interface energies", *four(s1)[i], w4[i]); SAME(o, "sum", "accumulated interface energy", *four(s2)[i], w4[i]); }
        }
    }
}
AddWorld sums({"sums", {"C11"}, sumsGen, sumsRun, nullptr});
}
