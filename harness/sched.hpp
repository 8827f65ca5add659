// A deterministic scheduler for the code under test: one thread runs at a time, every operation on a
// mutex, condition variable, thread, clock or file is a point where another thread may be chosen.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

namespace sched {

struct Cfg
{
    int strategy = 0;            // 0: random switches, 1: priorities with change points, 2: given choices
    std::uint64_t seed = 1;
    int switch_pm = 200;         // strategy 0: switches per 1000 points
    int depth = 3;               // strategy 1: number of change points
    std::uint64_t len = 400;     // strategy 1: estimated number of points
    std::vector<unsigned char> choices;   // strategy 2; 0 afterwards
    bool eager_time = false;     // a timed wait may end although others can run
    int spurious_pm = 0;         // spurious wakeups of condition variables
    std::uint64_t max_points = 200000;
};

struct Decision { unsigned char n, chosen, cont; };   // candidates, choice, candidate 0 is the running thread

void begin(Cfg const& c);        // the calling thread becomes thread 0
void end();                      // all other threads have been joined
bool active();
int tid();                       // 0..; -1 for an unmanaged thread
std::uint64_t now_ns();          // virtual time
void point();                    // another thread may be chosen here
void eager(bool on);             // from now on
void hold();                     // block until release()
void release();
bool held();
std::vector<Decision> const& decisions();

// called when nothing can run any more ("deadlock"), or after too many points ("livelock"); must not return
extern void (*on_dead)(char const* why);
// called when nothing but held threads is left
extern void (*on_stuck)();

// memory accesses of the calling thread are watched while its depth is 0
void quiet(int d);
struct Quiet { Quiet() { quiet(1); } ~Quiet() { quiet(-1); } };
struct Loud { Loud() { quiet(-1); } ~Loud() { quiet(1); } };
std::vector<std::string> const& races();      // "race"/"freed" and the code addresses

} // sched
