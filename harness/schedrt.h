// schedrt.h -- controlled scheduler and happens-before race detector.
//
// /repo is compiled with -fsanitize=thread but linked against this runtime
// instead of libtsan.  Inside an execution (a forked child) the threads run
// one at a time; at every scheduling point the runtime takes the next thread
// from a choice list, so that a depth-first search over choice lists visits
// every interleaving of synchronisation operations up to a preemption bound.
// Plain memory accesses are checked with vector clocks: an execution with two
// unordered conflicting accesses ends as a data race, so interleavings of
// plain accesses need not be enumerated (data-race freedom makes them
// equivalent to interleavings at synchronisation operations).
#ifndef SCHEDRT_H
#define SCHEDRT_H
#include <stddef.h>
#include <stdint.h>
#include <sys/types.h>

enum SchedEnd { S_NONE, S_DONE, S_QUIET, S_DEADLOCK, S_RACE, S_MISUSE, S_LIMIT, S_NONDET, S_CRASH };
enum { S_MAXT = 8, S_MAXP = 1 << 20, S_OBS = 1 << 20 };
struct SchedChoice {
    uint8_t n, c, preempt, kind;
};
struct SchedShm {
    // input
    uint32_t nprefix;
    int preemptions, spurious, func, access, races;
    uint64_t maxSteps;
    // output
    uint32_t npts;
    int end;
    uint64_t steps, accesses, cells, switches;
    char msg[4096];
    uintptr_t pc[2];
    uint32_t nobs;
    SchedChoice pts[S_MAXP];
    char obs[S_OBS];
};
extern "C" {
void schedrt_begin(SchedShm* shm);          // the calling thread becomes thread 0
void schedrt_end(int end);                  // ends the execution (does not return)
void schedrt_point(int kind);               // explicit scheduling point
void schedrt_observe(const char* p, size_t n);
void schedrt_daemon();                      // this thread may stay blocked for ever
void schedrt_fail_create(int nth);          // the nth pthread_create from now fails
int schedrt_thread();
int schedrt_alive();                        // other threads that have not ended
void schedrt_sleep();                       // blocks until another thread made progress
void schedrt_wait(int* flag);               // blocks until *flag
void schedrt_set(int* flag);
}
#endif
