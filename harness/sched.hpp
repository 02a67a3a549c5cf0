// Controlled scheduler for the parallel parts of the code under test (see DESIGN.md, "Schedules").
//
// The tasks of a parallel loop run on real threads of which exactly one runs at a time.  Mutexes and atomics of the code under
// test are intercepted (the sources are compiled with the instrumentation calls of -fsanitize=thread, but linked with the
// functions of sched.cpp instead of the run time of the sanitizer), and the scheduler decides which thread continues at
// each synchronisation.  Every memory access is also checked for races (happens-before, vector clocks).  Programs without
// data races are determined by the order of their synchronisations, so exploring these orders is enough.
#ifndef VERIF_SCHED_HPP
#define VERIF_SCHED_HPP

#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sched {

struct Options
{
    int workers = 2;
    int bound = 2;         // number of interventions: places where the thread that would go on is replaced (delay bound)
    int mode = 0;          // how a parallel loop is shared: 0 next iteration first, 1 contiguous chunks, 2 last iteration first
    int64_t first = -1;    // position of the first intervention, -1: anywhere or nowhere
    bool raceCheck = true; // report data races
    bool casPoints = false; // a thread switch is possible before a compare and exchange
};

// explores all the schedules: for (begin(o); run the code, check; next())
void begin(const Options& o);
void start();      // start of one execution
void stop();       // end of one execution
bool next();       // prepares the next schedule, false when they were all explored
bool void_run();   // the forced first intervention did not exist in this execution: nothing new was executed
uint64_t decisions();
std::string race();     // first data race of the execution, or ""
std::string problem();  // deadlock, or ""
std::string schedule(); // description of the choices of this execution

void freeze();     // no preemption in the rest of this execution (the part that the check does not look at)
bool active();
void point(const char* what = "point"); // a place where the harness wants a thread switch to be possible
void parallel(size_t n, const std::function<void(size_t)>& f);
// tasks started one by one, each on its own thread
int spawn(const std::function<void()>& f);
void join(int id);
void use_for_opencv(bool shared = true); // make the parallel loops of OpenCV use parallel(), or no threads at all

// Executes all the schedules with at most o.bound interventions whose first one belongs to this slice: part 0 is the schedule
// without any, part i the schedules with the first one at point i - 1; slice k has the parts k, k + slices ...
template<class Prepare, class Execute, class Check>
uint64_t explore(const Options& o, const uint64_t slice, const uint64_t slices, const Prepare& prepare, const Execute& execute, const Check& check)
{
    uint64_t executed = 0;
    for (uint64_t part = slice;; part += slices)
    {
        Options p = o;
        p.first = int64_t(part) - 1;
        if (part == 0)
            p.bound = 0;
        else if (o.bound == 0)
            break;
        begin(p);
        bool any = false;
        do
        {
            prepare();
            start();
            execute();
            stop();
            if (void_run())
                continue;
            any = true;
            ++executed;
            check();
        } while (next());
        if (not any)
            break;
    }
    return executed;
}

} // namespace sched

#endif
