#include "common.h"
std::string hex(const std::vector<uint8_t>& v) { static const char* d = "0123456789abcdef"; std::string s; for (auto b : v) { s += d[b >> 4]; s += d[b & 15]; } return s.empty() ? "-" : s; }
std::vector<uint8_t> unhex(const std::string& s) { std::vector<uint8_t> v; if (s == "-") return v; for (size_t i = 0; i + 1 < s.size(); i += 2) v.push_back((uint8_t)std::stoi(s.substr(i, 2), nullptr, 16)); return v; }

std::string Case::str() const {
    std::ostringstream o;
    o << "property " << prop << "\nseed " << seed << "\nmode " << (mode.empty() ? "-" : mode) << "\n";
    for (auto& [k, v] : param) o << "param " << k << " " << v << "\n";
    o << "standard " << stdName(spec.std_) << "\nspec " << spec.mem.dump() << "\ntoggle " << spec.toggle.dump() << "\n";
    for (auto& m : more) o << "also " << stdName(m.std_) << "\nspec " << m.mem.dump() << "\ntoggle " << m.toggle.dump() << "\n";
    for (auto& e : ops) {
        o << evName(e.ev) << " " << e.t << " " << cmdName(e.cmd) << " r" << e.rank << " g" << e.bg << " b" << e.bank << " row" << e.row << " col" << e.col
          << " bits" << e.bits << " a" << e.a << " b" << e.b << " i" << e.inst << " " << hex(e.data) << "\n";
    }
    o << "end\n";
    return o.str();
}
Case Case::parse(const std::string& text) {
    Case c; Spec* cur = &c.spec; std::istringstream in(text); std::string line;
    auto num = [](const std::string& w) { size_t i = 0; while (i < w.size() && !isdigit((unsigned char)w[i])) ++i; return (u64)std::stoull(w.substr(i)); };
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream l(line); std::string k; l >> k;
        if (k == "property") l >> c.prop;
        else if (k == "seed") l >> c.seed;
        else if (k == "mode") { l >> c.mode; if (c.mode == "-") c.mode.clear(); }
        else if (k == "param") { std::string n; u64 v; l >> n >> v; c.param[n] = v; }
        else if (k == "standard") { std::string n; l >> n; c.spec.std_ = stdFrom(n).value(); }
        else if (k == "also") { std::string n; l >> n; c.more.emplace_back(); cur = &c.more.back(); cur->std_ = stdFrom(n).value(); }
        else if (k == "spec") { std::string r; std::getline(l, r); cur->mem = json::parse(r); }
        else if (k == "toggle") { std::string r; std::getline(l, r); cur->toggle = json::parse(r); }
        else if (k == "end") break;
        else {
            Op e; bool found = false;
            for (int i = 0; i <= (int)Ev::FAULT; ++i) if (k == evName((Ev)i)) { e.ev = (Ev)i; found = true; }
            if (!found) throw std::runtime_error("bad replay line: " + line);
            std::string cmd, w[10], d; l >> e.t >> cmd; for (int i = 0; i < 9; ++i) l >> w[i]; l >> d;
            e.cmd = cmdFrom(cmd).value();
            e.rank = num(w[0]); e.bg = num(w[1]); e.bank = num(w[2]); e.row = num(w[3]); e.col = num(w[4]); e.bits = num(w[5]); e.a = num(w[6]); e.b = num(w[7]); e.inst = num(w[8]);
            e.data = unhex(d);
            c.ops.push_back(e);
        }
    }
    return c;
}
