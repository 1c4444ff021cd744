// Independent reference model of the memory core: an event queue plus per-segment integration of bank and rank states.
#pragma once
#include "sut.h"

struct Timing {
    u64 RAS, RCD, RP, RFCab, RFCx, apRD, apWR;
    explicit Timing(const Spec&);
};

class RefCore {
public:
    explicit RefCore(const Spec&);
    const Spec* sp; Timing tm;
    u64 now = 0, lastCmd = 0, seqNo = 0;
    struct Bank {
        bool open = false, refreshing = false; bool everAct = false, everPre = false, apPending = false;
        u64 actStart = 0, lastPre = 0, refEnd = 0;
        std::array<u64, Snap::NCNT> c{};
        bool active() const { return open || refreshing; }
    };
    enum PD { NONE, PDA, PDP };
    struct Rank {
        PD pd = NONE; PD entering = NONE; bool exiting = false, sref = false, srefPending = false, dsm = false;
        u64 srefStart = 0;
        std::vector<Bank> b; std::array<u64, Snap::NCNT> c{};
        u64 reopened = 0;                       // probe
    };
    std::vector<Rank> r;
    enum Ek { AP, REFEND, SREFSTART, PDENTER, PDEXIT };
    struct Event { u64 t, seq; Ek k; u64 rank, bank; };
    std::vector<Event> q;                       // kept sorted by (t, seq)
    void advance(u64 t);                        // fire everything due at or before t, integrate to t
    bool legal(const Op&, bool strict) const;   // assumes now == op.t
    void apply(const Op&);                      // assumes legal
    void tryApply(const Op& e) { if (legal(e, false)) apply(e); }
    void fill(Snap&) const;                     // counters and cycles at `now` (interface parts untouched)
    u64 outstandingAfter(u64 t) const { u64 n = 0; for (auto& e : q) if (e.t > t) ++n; return n; }
    u64 stateHash() const;                      // abstract state
    bool supports(CmdType) const;
    std::optional<u64> nextDue() const { return q.empty() ? std::nullopt : std::optional<u64>(q.front().t); }
    u64 idle(u64 rank) const { return r[rank].pd == NONE && r[rank].entering == NONE && !r[rank].exiting && !r[rank].sref && !r[rank].srefPending; }
private:
    void integrate(u64 t);
    void push(u64 t, Ek k, u64 rank, u64 bank = 0);
    void fire(const Event&);
    u64 earliest(const Rank&) const;
    void refresh(u64 rank, u64 bank, u64 dur, int counter);
    void pre(Bank&, u64 t);
};
