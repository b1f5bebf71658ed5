// vsched: a controlled scheduler for C++ code compiled with -fsanitize=thread instrumentation (without libtsan).
// See DESIGN.md. This header is what harness translation units use.
#pragma once
#include <cstddef>
#include <cstdint>

extern "C" {
int  vs_self();                                  // logical thread id (main = 0)
void vs_point();                                 // a scheduling point
void vs_log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // append one event to the history
void vs_op(const char *name);                    // the API operation this thread is in (nullptr: none)
void vs_spawn(void (*fn)(void *), void *arg);    // start a logical thread (not scheduled before the next point)
int  vs_wait_quiescent();                        // main: run until every other thread is finished or stuck; returns #stuck
                                                 // and logs "q t1 t2 ..." naming the stuck threads
void vs_gate();                                  // wait for a token (not an API operation: never reported as stuck)
void vs_gate_open(int t);                        // give thread t a token
void vs_fail(int err);                           // the calling thread's next pthread mutex operation reports this error
int  vs_chan(void);                              // number of logical threads
void vs_finish();                                // end the execution now
// controlled by the scenario
void vs_opt(const char *name, long v);           // "spur": spurious wakeups allowed, "steps": step limit
// heap knowledge (operator new/delete and malloc are tracked)
int  vs_in_heap(const void *p, size_t n);        // 1: [p,p+n) inside one tracked allocation; 0: starts in one but leaves it; -1 unknown
int  vs_heap_check();                            // 0: fine; otherwise number of corrupted guard zones
int  vs_pi_all();                                // 1 when every pthread mutex initialised so far with a recorded attribute used PRIO_INHERIT
int  vs_mutex_pi(void *m);                       // protocol recorded for m: 1 inherit, 0 other, -1 never initialised
int  vs_mutex_count();                           // mutexes initialised in this execution
int  vs_mutex_owner(void *m);                    // logical owner or -1
// provided by each harness
void scenario(const char *script);               // runs in a fresh process for each execution
}
