// Assignment between memories. The DDR5 memory is the only one that can be assigned (the inversion pins of the others hold
// a constant); a file of its own, so that a tree in which it no longer compiles loses this and nothing else.
#include <DRAMPower/standards/ddr5/DDR5.h>
#include <utility>
extern void (*assignDDR5)(DRAMPower::DDR5& to, DRAMPower::DDR5& from, bool move);
namespace {
void assign(DRAMPower::DDR5& to, DRAMPower::DDR5& from, bool move) { if (move) to = std::move(from); else { const DRAMPower::DDR5& f = from; to = f; } }
struct Set { Set() { assignDDR5 = assign; } } set;
}
