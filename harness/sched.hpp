// Controlled scheduler: runs real multi-threaded code one thread at a time and decides at every
// synchronisation operation (pthread mutex/spin/rwlock/condvar/create/join, sleeps, std::atomic
// through shim_atomic.hpp, explicit yield points of test doubles) which thread goes on.
// Works by symbol interposition from the main executable, no change of the code under test.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

namespace sched {

enum mode_t { RANDOM = 0, STICKY = 1, PCT = 2, PREFIX = 3 };

struct options_t {
    int mode = RANDOM;
    uint64_t seed = 1;
    int depth = 3;                    // PCT change points
    uint32_t max_steps = 20000;
    std::vector<uint16_t> prefix;     // PREFIX: forced choices, then the default policy
};

// One scheduling decision with more than one candidate.
struct choice_t {
    uint16_t n;          // number of candidates
    uint16_t taken;      // index of the one taken
    uint16_t free_;      // candidates [0, free_) cost no preemption
};

void start(const options_t& o);   // the calling thread becomes thread 0
void stop();                      // all other threads must be joined
bool active();                    // does the calling thread run under the scheduler?
int self();                       // logical id of the calling thread, -1 if unmanaged
void yield_point();               // a preemption point
void idle();                      // "nothing to do": sleep, others go first
uint32_t steps();

// Called (in the thread concerned) when a thread goes to sleep or to a timed/untimed condition wait.
extern void (*on_block)(int tid, const char* what);
// Called when the run cannot go on; must not return.
extern void (*on_stuck)(const char* what);
// Where decisions are recorded (may be null).
extern choice_t* choices;
extern uint32_t* choices_n;
extern uint32_t choices_cap;

}  // namespace sched
