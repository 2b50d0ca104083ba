// Simulated threads: every world thread is a fiber, every preemption is a decision of the plan.
#ifndef CONC_HPP
#define CONC_HPP
#include "sim.hpp"
#include <cstddef>
#include <cstdint>

namespace conc
{
constexpr int kMaxThreads = 4;  // besides the main thread, which has number 0

struct Program
{
    void* self;
    void (*setup)(void* self);                                      // main thread, before the others start
    void (*step)(void* self, int tid, int index, const sim::Step& s);  // thread `tid` (1..n) performs a step
    void (*finish)(void* self);                                     // main thread, after the others ended
};

/// Executes the steps of the plan on `threads` simulated threads; thread of a step = 1 + a[0] % threads.
void run(const sim::Plan& p, int threads, const Program& prog);

/// Thread number of the caller.
int self();

/// Puts the static data of the world back to what it was before the run; for the main thread after the others ended.
void fresh_image();

/// Registers a function to be called by run_exit(), as destructors of static objects are. What the code under test registers is
/// called as well, in the reverse order of registration; static objects destroyed by that may not be read any more.
void at_exit(void (*f)(void*), void* arg);
void run_exit();

/// One more preemption point; worlds call it between API calls of one step.
void point();

/// History of calls, recorded by simulated time (one tick per event).
struct Call
{
    int           tid;
    int           op;
    std::int64_t  arg;
    std::int64_t  result;
    std::uint32_t begin;
    std::uint32_t end;
};
void        begin_call(int op, std::int64_t arg);
void        end_call(std::int64_t result);
std::size_t call_count();
const Call& call(std::size_t i);

/// Hides the accesses of the caller (oracle code) from the simulator.
struct Hidden
{
    Hidden();
    ~Hidden();
};

// Registers of the global resources as a sequential object.
enum RegOp : int
{
    R_GET_DEFAULT,
    R_SET_DEFAULT,       // arg: new value, result: displaced
    R_SET_DEFAULT_NULL,  // installs the then current system resource
    R_GET_SYSTEM,
    R_SET_SYSTEM,
    R_SET_SYSTEM_NULL
};
/// True if the recorded calls can be explained by a sequential order that respects simulated time. `base` is the built-in
/// system resource; `def` the default resource at the start, or 0 if it is not initialised yet.
bool linearizable(std::int64_t base, std::int64_t system, std::int64_t def);

}  // namespace conc

#endif
