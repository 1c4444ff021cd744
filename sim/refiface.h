// Independent bit-level reference model of the memory interface: every line is replayed slot by slot.
#pragma once
#include "sut.h"
#include <deque>

// one slot on up to 4096 lines; only the words in use are touched
struct Beat {
    u64 n = 0; u64 a[64];
    Beat() = default;
    Beat(const Beat& o) : n(o.n) { for (u64 i = 0; i < n; ++i) a[i] = o.a[i]; }
    Beat& operator=(const Beat& o) { n = o.n; for (u64 i = 0; i < n; ++i) a[i] = o.a[i]; return *this; }
    u64 word(u64 i) const { return i < n ? a[i] : 0; }
    void set(u64 j, bool b) { while (n <= j / 64) a[n++] = 0; u64 m = 1ull << (j % 64); if (b) a[j / 64] |= m; else a[j / 64] &= ~m; }
    u64 count() const { u64 c = 0; for (u64 i = 0; i < n; ++i) c += (u64)__builtin_popcountll(a[i]); return c; }
    u64 without(const Beat& o) const { u64 c = 0; for (u64 i = 0; i < n; ++i) c += (u64)__builtin_popcountll(a[i] & ~o.word(i)); return c; }
};
// A group of lines that rests at one level and is driven for single slots.
class Lines {
public:
    Lines(unsigned width, bool idleHigh) : w(width) { if (idleHigh) for (unsigned i = 0; i < w; ++i) idle.set(i, true); prev = idle; }
    void drive(u64 slot, const Beat& v) { if (slot < pos || (!todo.empty() && slot <= todo.back().first)) throw std::logic_error("reference: two beats in one slot"); todo.emplace_back(slot, v); }
    std::array<u64, 5> upTo(u64 slots);                      // ones, zeroes, bit_changes, ones_to_zeroes, zeroes_to_ones of slots [0, slots)
    unsigned width() const { return w; }
private:
    void step(const Beat& v) { u64 up = v.without(prev), down = prev.without(v), o = v.count(); acc[0] += o; acc[1] += w - o; acc[2] += up + down; acc[3] += down; acc[4] += up; prev = v; ++pos; }
    unsigned w; Beat idle, prev; u64 pos = 0; std::array<u64, 5> acc{}; std::deque<std::pair<u64, Beat>> todo;
};
// A clock-like signal: edges only while running.
struct Strobe {
    u64 rate; u64 factor; bool always; u64 done = 0; u64 from = 0;
    void burst(u64 clocks) { if (!always) done += (clocks * rate) / 2; }
    std::array<u64, 5> upTo(u64 t) const { u64 n = (always ? (t - from) * rate / 2 : done) * factor; return {n, n, 2 * n, n, n}; }
};

class RefIface {
public:
    explicit RefIface(const Spec&);
    void apply(const Op&);                                    // CMD, DBI, META
    void fill(Snap&, u64 t);                                  // bus part and preamble counters; commands after t must not have been applied
    std::string toggleDiff(const Snap& got, u64 t) const;     // "" when the toggling-rate estimate is right
    bool dbi = false;
    u64 invertedUnits = 0, normalUnits = 0, seamless = 0, turnaround = 0;
private:
    std::vector<bool> encode(const Op&, u64 len) const;
    std::vector<Beat> dataBeats(const Op&, std::vector<bool>& inv);
    const Spec& s; bool m16, mbg, m8b;
    Lines ca, rd, wr; std::vector<Lines> pinR, pinW; Strobe rdqs, wdqs, wck, clk; bool hasWdqs, hasWck;
    struct PP { u64 endR = 0, endW = 0, seamR = 0, seamW = 0; }; std::vector<PP> pp;
    u64 caRate; std::array<u64, 2> meta{}; u64 lastEnd[2] = {0, 0};
    struct Tog { std::deque<std::pair<u64, u64>> bursts; u64 whole = 0; u64 beats(u64 vt) const; }; Tog tog[2];
};
