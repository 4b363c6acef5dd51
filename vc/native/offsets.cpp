// Print the layout of the simulator's state objects as JSON.
#include "std.h"
#include <cstddef>
#include "machine.h"
#include "processor.h"
#include "virtual_stack.h"
#define F(key, T, field)                                                                           \
    template <class X> long off_##key()                                                            \
    {                                                                                              \
        if constexpr (requires(X x) { x.field; })                                                  \
            return offsetof(X, field);                                                             \
        else                                                                                       \
            return -1;                                                                             \
    }
F(core, Processor, core) F(OT, Processor, OT) F(OR, Processor, OR) F(frame_ptr, Processor, frame_ptr)
F(last_frame_ptr, Processor, last_frame_ptr) F(stack_base, Processor, stack_base) F(display, Processor, display)
F(eis, Processor, eis_operation) F(stack, Processor, stack) F(machine, Processor, machine)
F(storage, Virtual_Stack, storage)
F(memory, Machine, memory) F(cpu, Machine, cpu) F(switches, Machine, console_switches)
F(swvalid, Machine, switches_are_valid) F(seed, Machine, random_seed) F(rout, Machine, random_output)
F(entry_table, Machine, entry_table)
F(cB, CoreState, B) F(cA, CoreState, A) F(cS, CoreState, S) F(cC, CoreState, C) F(cL, CoreState, L)
#define P(key, T) std::printf("%s\"" #key "\": %ld", sep, off_##key<T>()), sep = ", ";
int main()
{
    const char *sep = "";
    std::printf("{");
    P(core, Processor) P(OT, Processor) P(OR, Processor) P(frame_ptr, Processor) P(last_frame_ptr, Processor)
    P(stack_base, Processor) P(display, Processor) P(eis, Processor) P(stack, Processor)
    P(storage, Virtual_Stack)
    P(memory, Machine) P(cpu, Machine) P(switches, Machine) P(swvalid, Machine) P(seed, Machine) P(rout, Machine)
    P(entry_table, Machine)
    P(cB, CoreState) P(cA, CoreState) P(cS, CoreState) P(cC, CoreState) P(cL, CoreState)
    std::printf(", \"sizeof_machine\": %ld, \"sizeof_processor\": %ld}\n", (long)sizeof(Machine), (long)sizeof(Processor));
}
