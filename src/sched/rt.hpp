// A controlled scheduler for code compiled with -fsanitize=thread. One thread runs at a time; every lock, atomic, barrier,
// work-distribution and thread start or end is a point at which another thread may be chosen. explore() runs a program under
// every choice with at most a given number of preemptions. Plain accesses are checked for races by happens-before clocks.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sched {
static const int MAXT = 4;
struct Limits {
    int preemptions = 2;
    uint64_t max_executions = UINT64_MAX;
    std::function<bool()> stop; // asked between executions
    bool release_points = true; // also choose before a lock is released (such a choice equals one made at the next acquire)
    int race_preemptions = 1;   // accesses are checked for races up to this many preemptions
    bool symmetric = false;     // workers that have not yet run are interchangeable
    bool cold = false;          // every execution runs in a process of its own, forked from this one, which itself never runs the program
    bool free_work = true;      // taking the next piece of shared work is not a preemption
};
struct Outcome {
    uint64_t executions = 0, nodes = 0, points = 0, max_points = 0, preempted = 0, mismatches = 0;
    bool finished = true;
    std::string failure, where; // first failure and its schedule
};
extern int team_size;                                      // threads of an OpenMP region without a num_threads clause
void team(int n, const std::function<void(int)> &body);    // inside a program: run body(0..n-1) concurrently
uint64_t now();                                            // inside a program: a step counter
void fail(const std::string &msg);                         // inside a program or its final check
std::string locate(const std::string &msg);                // replaces code addresses by function names
// program runs under control in the calling thread; check is called after it, with nothing running
Outcome explore(const Limits &l, const std::function<void()> &program, const std::function<void()> &check);
// runs f in a forked process and gives back its result; dies of the signal that process died of
std::string in_child(const std::function<std::string()> &f);
[[noreturn]] void leave_child(const std::string &result); // inside f, on any thread: f ends here with this result
// called when no thread can go on; must not return
extern std::function<void(const std::string &)> on_stuck;
} // namespace sched
