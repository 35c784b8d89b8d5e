// Deterministic thread scheduler with virtual time.
//
// Between start() and stop() exactly one thread runs at a time.  Control changes hands only where a
// thread blocks, sleeps or ends, or where a "stall" is injected: at a synchronisation call, a clock
// reading, or (in instrumented code) a basic-block edge or memory access.  Time is virtual: it moves
// only when every thread waits, to the earliest wake-up.  Given the same configuration and program,
// the execution is the same.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace ds {
// After sync more synchronisation points and then gap more points, the running thread pauses.
struct Stall { uint64_t gap; double seconds; uint64_t sync = 0; };
struct Config {
  uint64_t seed = 0;                // order of threads that are ready at the same time (0: first come)
  std::vector<Stall> stalls;
  double p_random = 0;              // probability of a random stall at a synchronisation point
  // Delay before a new thread's first step; argument: number of threads started so far by threads other than the first.
  std::function<double(int)> spawn_delay;
  uint64_t max_steps = 40000000;    // blocking operations and clock reads, then "livelock"
  double max_time = 1e7;            // virtual seconds, then "livelock"
};
void start(const Config&);
// Waits (virtually) until all other threads have ended, at most the given virtual time; false if some have not.
bool stop(double max_wait = 60);
void abandon();                      // after a failure: leave everything as it is
bool active();
double now();                        // virtual seconds
void sleep(double s);
void yield_point();
int live_threads();                  // other than the first
struct Report { uint64_t points = 0, sync_points = 0, switches = 0, stalls = 0; };
Report report();
// Called (on any thread) when no thread can ever run again, or on a livelock.
extern void (*on_failure)(const char* tag, const std::string& msg);
}  // namespace ds
