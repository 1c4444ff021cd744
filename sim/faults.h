// Fault injection: media that fail, cut or split, and allocations that fail.
#pragma once
#include "common.h"
#include <streambuf>

// Output medium that fails from byte `at` on.
class FaultBuf : public std::streambuf {
public:
    enum Kind { FULL, SHORT, THROW };
    static const char* name(Kind k) { static const char* n[] = {"mediumFull", "shortWrite", "throws"}; return n[k]; }
    FaultBuf(Kind k, u64 at, u64) : kind(k), left(at) {}
    bool fired = false;
protected:
    int_type overflow(int_type c) override { if (c == traits_type::eof()) return 0; char x = (char)c; return xsputn(&x, 1) == 1 ? c : traits_type::eof(); }
    std::streamsize xsputn(const char*, std::streamsize n) override {
        if ((u64)n <= left && !fired) { left -= n; return n; }
        fired = true;
        if (kind == THROW) throw std::runtime_error("device error");
        u64 w = kind == SHORT ? left : 0; left = 0; return (std::streamsize)w;
    }
    int sync() override { return fired ? -1 : 0; }
private:
    Kind kind; u64 left;
};
// Input medium that ends (CUT) or breaks (THROW) at byte `at`, delivering `piece` bytes at a time.
class ReadBuf : public std::streambuf {
public:
    enum Kind { CUT, THROW, WHOLE };
    static const char* name(Kind k) { static const char* n[] = {"truncated", "throws", "pieces"}; return n[k]; }
    ReadBuf(Kind k, const std::string& s, u64 at, u64 piece) : kind(k), data(s), end(std::min<u64>(at, s.size())), step(piece) {}
protected:
    int_type underflow() override {
        if (pos >= end) { if (kind == THROW) throw std::runtime_error("device error"); return traits_type::eof(); }
        u64 n = std::min(step, end - pos); std::memcpy(buf, data.data() + pos, n = std::min<u64>(n, sizeof buf)); pos += n; setg(buf, buf, buf + n); return traits_type::to_int_type(buf[0]);
    }
private:
    Kind kind; std::string data; u64 end, step, pos = 0; char buf[4096];
};
// While alive, the nth allocation (counting from 0) fails, once.
struct FailAlloc {
    explicit FailAlloc(u64 nth); ~FailAlloc(); u64 fired() const;
};
u64 heapHeld();          // bytes this thread has allocated and not given back
