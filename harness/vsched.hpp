// Deterministic scheduler for the threads of one process: replaces the pthread, semaphore, epoll,
// poll, sleep and clock functions of libc, lets exactly one thread run at a time and chooses at every
// synchronisation operation who runs next (seeded).  Used by the harnesses of concurrent code.
#ifndef VSCHED_HPP
#define VSCHED_HPP
#include <string>
void vs_start(unsigned seed, int mode, long max_steps);      // the caller becomes thread 0
void vs_yield();                                             // a point where others may run
int  vs_self();                                              // number of the running thread, -1: not managed
bool vs_quiesce();                                           // returns when nothing else can run
void vs_order(void* k);                                      // what came before the last vs_order(k) comes before what follows (for what the harness hands over)
void vs_advance(long long nanoseconds);                      // virtual time passes
void vs_signal_in(long steps, int signo);                    // raise signo in some thread after that many steps
void vs_signal_now(int signo);                               // raise signo in some thread, chosen by the seed
long vs_steps();
extern void (*vs_on_stuck)(const char* why);                 // deadlock with nobody quiescing, or too many steps
extern void (*vs_on_thread)(int thread, bool start);         // a managed thread was created / has ended
extern void (*vs_on_signal)(int thread, int signo, bool begin);
extern int vs_spurious;                                      // one spurious wake-up in about this many steps (0: none)
extern bool vs_real_net;                                     // give real sockets some time before calling it quiet
std::string vs_where(int thread);
#ifdef VS_RACE
extern void (*vs_on_race)(const char* what);                 // two accesses that nothing orders (vrace.hpp)
struct VsQuiet { VsQuiet(); ~VsQuiet(); };                   // what the harness itself does in this scope is not looked at
#else
struct VsQuiet { VsQuiet() {} ~VsQuiet() {} };
#endif
#endif
