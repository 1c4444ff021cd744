// Shared vocabulary of the simulator: PRNG, memory configuration, operations, cases.
#pragma once
#include <algorithm>
#include <array>
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <nlohmann/json.hpp>
#include <DRAMPower/command/CmdType.h>

using u64 = uint64_t;
using json = nlohmann::json;
using DRAMPower::CmdType;

// ---------------------------------------------------------------- PRNG (splitmix64 / xoshiro256**)
struct Rng {
    u64 s[4];
    explicit Rng(u64 seed) { for (auto& x : s) x = mix(seed); }
    static u64 mix(u64& z) { z += 0x9E3779B97F4A7C15ull; u64 x = z; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
    static u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
    u64 next() { u64 r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17; s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45); return r; }
    u64 below(u64 n) { return n ? next() % n : 0; }                       // [0,n)
    u64 range(u64 a, u64 b) { return a + below(b - a + 1); }              // [a,b]
    bool chance(u64 pct) { return below(100) < pct; }
    double real(double a, double b) { return a + (b - a) * (double)(next() >> 11) / 9007199254740992.0; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

// ---------------------------------------------------------------- configuration
enum class Std { DDR4, DDR5, LPDDR4, LPDDR5, LPDDR6 };
inline const char* stdName(Std s) { static const char* n[] = {"DDR4", "DDR5", "LPDDR4", "LPDDR5", "LPDDR6"}; return n[(int)s]; }
inline std::optional<Std> stdFrom(const std::string& n) { for (int i = 0; i < 5; ++i) if (n == stdName((Std)i)) return (Std)i; return {}; }

struct Spec {
    Std std_ = Std::DDR4;
    json mem;      // the memory specification, exactly as a user would write it
    json toggle;   // null, or the toggling-rate definition
    u64 arch(const char* k) const { return mem.at("memarchitecturespec").at(k).get<u64>(); }
    u64 tim(const char* k) const { return mem.at("memtimingspec").at(k).get<u64>(); }
    double timd(const char* k) const { return mem.at("memtimingspec").at(k).get<double>(); }
    double pw(const std::string& k) const { return mem.at("mempowerspec").at(k).get<double>(); }
    bool pwHas(const std::string& k) const { return mem.at("mempowerspec").contains(k); }
    json imp(const std::string& k) const { return mem.at("memimpedancespec").at(k); }
    u64 banks() const { return arch("nbrOfBanks"); }
    u64 groups() const { return arch("nbrOfBankGroups"); }
    u64 perGroup() const { return banks() / std::max<u64>(1, groups()); }
    u64 ranks() const { return arch("nbrOfRanks"); }
    u64 devices() const { return std::max<u64>(1, arch("nbrOfDevices")); }
    u64 width() const { return arch("width"); }
    u64 bl() const { return arch("burstLength"); }
    u64 rate() const { return arch("dataRate"); }
    bool toggling() const { return !toggle.is_null(); }
};

// ---------------------------------------------------------------- operations
enum class Ev { CMD, QUERY, CKPT, DBI, MOVE, COPY, REJ, META, FAULT };
inline const char* evName(Ev e) { static const char* n[] = {"cmd", "query", "ckpt", "dbi", "move", "copy", "rej", "meta", "fault"}; return n[(int)e]; }

struct Op {
    Ev ev = Ev::CMD;
    u64 t = 0;
    CmdType cmd = CmdType::NOP;
    u64 rank = 0, bg = 0, bank = 0, row = 0, col = 0;
    std::vector<uint8_t> data;
    u64 bits = 0;
    u64 a = 0, b = 0;            // generic arguments (dbi: a=enable; meta: a,b; fault: a=kind,b=position; LPDDR6 commands: a=1+second bank when given explicitly, b=sub-channel)
    u64 inst = 0;                // which simulated memory (multi-instance cases)
};
inline u64 otherBank(const Op& e) { return e.a ? e.a - 1 : (e.bank + 8) % 16; }       // second target of a two-bank refresh
inline bool isRead(CmdType c) { return c == CmdType::RD || c == CmdType::RDA; }
inline bool isWrite(CmdType c) { return c == CmdType::WR || c == CmdType::WRA; }
inline bool isData(CmdType c) { return isRead(c) || isWrite(c); }
inline std::optional<CmdType> cmdFrom(const std::string& s) {
    for (int i = 0; i < (int)CmdType::COUNT; ++i) {
        static const char* n[] = {"NOP","RD","WR","RDA","WRA","ACT","PRE","REFB","REFP2B","REFDB","PRESB","REFSB","PREA","REFA","PDEA","PDEP","PDXA","PDXP","SREFEN","SREFEX","DSMEN","DSMEX","END"};
        if (s == n[i]) return (CmdType)i;
    }
    return {};
}
inline const char* cmdName(CmdType c) {
    static const char* n[] = {"NOP","RD","WR","RDA","WRA","ACT","PRE","REFB","REFP2B","REFDB","PRESB","REFSB","PREA","REFA","PDEA","PDEP","PDXA","PDXP","SREFEN","SREFEX","DSMEN","DSMEX","END"};
    return (int)c < (int)CmdType::COUNT ? n[(int)c] : "?";
}
std::string hex(const std::vector<uint8_t>&);
std::vector<uint8_t> unhex(const std::string&);

struct Case {
    std::string prop;
    u64 seed = 0;
    std::string mode;            // free-form sub-mode of the property's check
    std::map<std::string, u64> param;
    Spec spec;
    std::vector<Spec> more;      // further configurations (several memories in one process)
    std::vector<Op> ops;
    const Spec& specOf(u64 i) const { return i && i <= more.size() ? more[i - 1] : spec; }
    u64 p(const std::string& k, u64 d = 0) const { auto i = param.find(k); return i == param.end() ? d : i->second; }
    std::string str() const;
    static Case parse(const std::string&);
};

// ---------------------------------------------------------------- result of one simulated run
struct Outcome {
    bool ok = true;
    std::string cls;             // violation class (stable across minimisation)
    std::string msg;             // details
    u64 hash = 1469598103934665603ull;   // hash of the observed history
    u64 simTime = 0;
    std::map<std::string, u64> count;    // fault kinds fired, probes reached, commands issued
    std::set<u64> states;        // distinct abstract states reached
    void fail(const std::string& c, const std::string& m) { if (ok) { ok = false; cls = c; msg = m; } }
    void mixin(u64 v) { hash = (hash ^ v) * 1099511628211ull; }
    void mixin(const std::string& s) { for (unsigned char c : s) mixin((u64)c); }
};
