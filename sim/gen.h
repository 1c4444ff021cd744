// Generation of legal command histories, and re-normalisation of edited ones.
#pragma once
#include "refcore.h"

struct SpecOpt { int toggling = 2; bool smallBus = false; };     // toggling: 0 never, 1 always, 2 sometimes
Spec randomSpec(Rng&, Std, const SpecOpt& = {});

// Occupancy of the shared buses (only matters when the interface is driven too).
struct BusBook {
    const Spec* sp; u64 caFree = 0, dataFree = 0; std::array<u64, 2> dirFree{};
    explicit BusBook(const Spec& s) : sp(&s) {}
    u64 caClocks(CmdType) const;                    // clocks the command occupies the command bus
    u64 burstLen(const Op&) const;                  // beats the payload takes on the data bus
    u64 dataClocks(const Op&) const;
    bool legal(const Op& e) const { return (caClocks(e.cmd) == 0 || e.t >= caFree) && (!isData(e.cmd) || e.t >= dataFree); }
    void apply(const Op& e) { if (caClocks(e.cmd)) caFree = e.t + caClocks(e.cmd); if (isData(e.cmd)) { dataFree = std::max(dataFree, e.t + std::max<u64>(1, dataClocks(e))); dirFree[isWrite(e.cmd)] = dataFree; } }
};

struct GenOpt {
    bool full = true;          // drive the interface as well
    bool strict = true;        // also respect tRCD / tRAS between commands
    u64 ops = 40;
    bool query = false;        // sprinkle observations
    bool ckpt = false;         // sprinkle checkpoint/crash/restore
    bool dbi = false;          // sprinkle inversion switches
    bool meta = false;         // sprinkle meta data changes (LPDDR6)
    bool end = true;           // finish with END_OF_SIMULATION and a final observation time
    bool huge = true;          // allow very large time jumps
    bool noPd = false;         // no power-down / self-refresh
    bool noRefresh = false;
    bool dataHeavy = false;
    bool emptyData = true;     // allow column commands without payload
    bool nullData = true;      // ... or with the length of a payload but no payload
    bool wholeBytes = false;   // payloads a trace file can carry
    bool own6 = true;          // LPDDR6: also commands with an explicit second bank and sub-channel
    bool sloppy = false;       // also commands the standard forbids in the current state
    bool busy = false;         // never let the deferred events run out
    bool marathon = false;     // tens of thousands of commands to one bank
};

class Gen {
public:
    Gen(Rng&, const Spec&, const GenOpt&);
    std::vector<Op> history();
    RefCore rc; BusBook bus; GenOpt o;
private:
    Rng& r; const Spec& s;
    std::vector<std::pair<CmdType, u64>> weights; std::vector<u64> hotBanks; u64 wTotal = 0;
    u64 payloadKind = 0; bool dbiOn = false; u64 tight = 0, epoch = 0; bool lone = false;
    u64 nextTime(bool align);
    bool tryCmd(Op&, u64 t);
    void payload(Op&);
};

// Keep only the operations that still form a legal history (used by replay and minimisation).
std::vector<Op> normalise(const Spec&, const std::vector<Op>&, bool full, bool strict, bool sloppy = false);
u64 payloadBits(const Spec&, u64 beats);
std::vector<u64> burstLengths(const Spec&);
