// The command-line tool under a deterministic scheduler: one thread runs at a time, every hand-over and every I/O fault is decided by the seed.
#pragma once
#include "../common.h"

enum class IoFault { NONE, OUT_OPEN, OUT_FULL, OUT_SHORT, OUT_EINTR, OUT_CLOSE, STDOUT_FULL, CFG_OPEN, MEM_OPEN, TRACE_OPEN, CFG_EIO, MEM_EIO, IN_SHORT, IN_EINTR, TRACE_MMAP, ALLOC, SPURIOUS, COUNT };
inline const char* ioFaultName(IoFault f) { static const char* n[] = {"none", "outOpen", "outFull", "outShortWrite", "outEintr", "outClose", "stdoutFull", "configOpen", "memspecOpen", "traceOpen", "configReadError", "memspecReadError", "inputShortRead", "inputEintr", "traceMmap", "allocation", "spuriousWakeup"}; return n[(int)f]; }

struct CliPlan {
    u64 seed = 1; u64 oneIn = 64;                // hand over the processor at one in `oneIn` points,
    u64 hot = 0;                                 // or, if set, only on entry to one in `hot` functions, every other time;
    u64 side = 0;                                // 1: only the first thread is interrupted, 2: only the others
    IoFault fault = IoFault::NONE; u64 at = 0;   // byte, or how many times to let pass
    std::string out, cfg, mem, trace;            // paths the faults apply to
};
struct CliReport { u64 points, switches, hash, fired, threads, deadlock, budget; };
struct CliResult { bool signalled = false; int code = 0; CliReport rep{}; };
CliResult runCli(const std::vector<std::string>& args, const CliPlan&, const std::string& cwd, const std::string& stdoutPath);
