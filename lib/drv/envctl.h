// Environment control for the drivers: virtual clocks and controlled entropy,
// both interposed at the symbol level so the library under test is unmodified.
#pragma once
#include <cstdint>
namespace envctl {
extern bool virt;            // virtual clocks on
extern int64_t mono_ns, real_ns, cpu_ns;
extern uint64_t ent_state;   // entropy stream state
extern uint64_t ent_calls;
uint32_t next_entropy();
}
