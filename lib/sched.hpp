// Deterministic scheduler for code compiled with clang's thread-sanitizer instrumentation (atomics only) and linked
// against our own callbacks instead of the sanitizer runtime. Threads are fibers on one OS thread; every atomic
// operation, mutex, semaphore, sleep and yield is a point at which another fiber may be scheduled. Which fiber runs and
// for how long, spurious failures of weak compare-exchange, early time-outs and crash points are choices of the test
// case, so a schedule is generated, replayed and shrunk like any other input. Sequential consistency is assumed.
#pragma once
#include "pbt.hpp"

#include <functional>
#include <string>

namespace sched
{
enum class End
{
    FINISHED,  // every fiber returned or was killed
    DEADLOCK,  // somebody waits and nobody can run
    EXHAUSTED, // the step budget was used up
};

struct Options
{
    uint32_t maxSteps{60000};
    /// weak compare-exchange may fail spuriously
    bool spurious{true};
    /// timed waits may time out although nobody is late
    bool earlyTimeouts{true};
    /// in half of the cases plain memory accesses of instrumented code are scheduling points, too
    bool memory{false};
    /// short slices only: the run has few scheduling points
    bool fine{false};
    /// what pthread_self returns in a fiber (threads of different processes may have equal ids)
    std::function<uint64_t(int)> threadId{};
};

/// starts a run; fibers are created with spawn, go() executes them
void begin(pbt::Case& c, const Options& o = {});
int spawn(std::function<void()> f);
/// the fiber never runs again after `steps` further scheduling points of its own
void killAfter(int fiber, uint32_t steps);
bool killed(int fiber);
bool finished(int fiber);
End go();
void end();

/// an explicit scheduling point, and the number of points passed by the run so far (a logical clock)
void point();
uint64_t clock();
int self();
/// the current fiber waits until the predicate holds (only for harness code)
void waitUntil(std::function<bool()> pred);
/// code under test runs while one of these is alive: only there are scheduling points (and crash points) taken
struct Code
{
    Code();
    ~Code();
};
/// harness code that is called back by the code under test
struct Pause
{
    Pause();
    ~Pause();

  private:
    int m_before;
};
template <typename F>
auto in(F&& f)
{
    Code code;
    return f();
}
} // namespace sched
