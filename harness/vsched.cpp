#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "vsched.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <errno.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <sys/epoll.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/timerfd.h>
#include <linux/futex.h>
#include <map>
#include <vector>
#include <random>

void (*vs_on_stuck)(const char*) = 0;
void (*vs_on_thread)(int, bool) = 0;
void (*vs_on_signal)(int, int, bool) = 0;
int vs_spurious = 0;
bool vs_real_net = false;

namespace {
enum State { RUN, MUT, CND, JOINW, EPW, POLLW, SLEEPW, SEMW, QUIET, DONE };
const char* NAMES[] = {"run", "mutex", "cond", "join", "epoll", "poll", "sleep", "sem", "quiet", "done"};
struct W {                               // what a thread is waiting for
    State st; void* obj; void* mutex; bool timed, timedout; long long deadline; int target; pollfd* pf; nfds_t npf; int epfd;
    W() : st(RUN), obj(0), mutex(0), timed(false), timedout(false), deadline(0), target(-1), pf(0), npf(0), epfd(-1) {}
};
struct Th : W {
    std::vector<W> frames;               // waits a signal handler is interrupting
    int tok; double prio; pthread_t handle; bool have_handle; int sig;
    Th() : tok(0), prio(0), handle(), have_handle(false), sig(0) {}
};
struct Mx { int owner, count; Mx() : owner(-1), count(0) {} };
bool on = false;
thread_local int self_ = -1;
std::vector<Th*> th;
std::map<void*, Mx>* mx;
std::map<int, long long>* tfd;          // timerfd -> virtual deadline
std::mt19937* rng;
int mode = 0; long steps = 0, max_steps = 0; double stick = 0.5;
std::vector<long>* changes; int consecutive = 0, last = -1;
long long voff = 0; long idle_advances = 0;
std::vector<std::pair<long,int> > sigs;       // steps at which to raise a signal
pthread_key_t exit_key;

} // namespace
#ifdef VS_RACE
#include "vrace.hpp"
#else
namespace {
void acquire(void*) {} void release(void*) {} void race_start() {} void race_create(int) {} void race_join(int) {} void race_stack() {} void race_barrier() {}
struct Quiet { Quiet() {} ~Quiet() {} };
}
#endif
namespace {
template <class F> F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
#define REAL(name) static auto r = real<decltype(&name)>(#name)

unsigned rnd(unsigned n) { return n <= 1 ? 0 : (*rng)() % n; }
double rndf() { return ((*rng)() >> 5) / 134217728.0; }
long long raw_now(clockid_t c) { timespec ts; syscall(SYS_clock_gettime, c, &ts); return ts.tv_sec * 1000000000LL + ts.tv_nsec; }

void fut_wait(int* a) { while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0); __atomic_store_n(a, 0, __ATOMIC_RELEASE); }
void fut_wake(int* a) { __atomic_store_n(a, 1, __ATOMIC_RELEASE); syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

void stuck(const char* why) { if (vs_on_stuck) vs_on_stuck(why); _exit(9); }

bool fd_ready(Th* t, int ms) {
    if (t->st == EPW) { pollfd p = {t->epfd, POLLIN, 0}; return syscall(SYS_poll, &p, 1, ms) > 0; }
    return syscall(SYS_poll, t->pf, t->npf, ms) > 0;
}
bool can(Th* t) {
    if (t->sig) return true;
    switch (t->st) {
    case RUN: return true;
    case MUT: return (*mx)[t->obj].owner == -1;
    case CND: return false;
    case JOINW: return th[t->target]->st == DONE;
    case EPW: case POLLW: return fd_ready(t, 0) || (t->timed && raw_now(CLOCK_MONOTONIC) + voff >= t->deadline);
    case SLEEPW: return raw_now(CLOCK_MONOTONIC) + voff >= t->deadline;
    case SEMW: return *(int*)t->obj > 0;
    default: return false;
    }
}
void fire_timers() {
    long long now = raw_now(CLOCK_MONOTONIC) + voff;
    for (auto& p : *tfd) if (p.second && p.second <= now) {
        itimerspec its; memset(&its, 0, sizeof its); its.it_value.tv_nsec = 1;
        syscall(SYS_timerfd_settime, p.first, 0, &its, (void*)0); p.second = 0;
        usleep(0);
    }
}
void wake_cond(W* t, bool timeout) { t->timedout = timeout; t->timed = false; t->st = MUT; t->obj = t->mutex; }

int pick() {
    fire_timers();
    for (;;) {
        std::vector<int> en;
        for (size_t i = 0; i < th.size(); ++i) if (can(th[i])) en.push_back(i);
        if (!en.empty()) {
            idle_advances = idle_advances > 0 ? idle_advances : 0;
            int me = self_, c;
            bool me_en = false; for (int e : en) if (e == me) me_en = true;
            if (mode == 0) {
                if (me_en && rndf() < stick) c = me; else c = en[rnd(en.size())];
            } else {
                while (!changes->empty() && changes->back() <= steps) { changes->pop_back(); if (last >= 0) th[last]->prio = -1 - rndf() - steps * 1e-6; }
                c = en[0]; for (int e : en) if (th[e]->prio > th[c]->prio) c = e;
                if (c == last) { if (++consecutive > 400) { th[c]->prio = -10 - steps; consecutive = 0; } } else { consecutive = 0; }
            }
            last = c;
            return c;
        }
        // nothing can run: give file descriptors a moment, then let timed waits expire
        bool fds = false, again = false;
        std::vector<pollfd> ps;
        for (Th* t : th) if (t->st == EPW || t->st == POLLW) {
            fds = true;
            if (t->st == EPW) { pollfd p = {t->epfd, POLLIN, 0}; ps.push_back(p); }
            else for (nfds_t i = 0; i < t->npf; ++i) ps.push_back(t->pf[i]);
        }
        if (fds && syscall(SYS_poll, ps.data(), ps.size(), vs_real_net ? 25 : 2) > 0) again = true;
        if (again) continue;
        Th* best = 0;
        if (idle_advances < 40)
            for (Th* t : th) if (((t->st == CND || t->st == EPW || t->st == POLLW) && t->timed) || t->st == SLEEPW)
                if (!best || t->deadline < best->deadline) best = t;
        if (best) {
            ++idle_advances;
            long long now = raw_now(CLOCK_MONOTONIC) + voff;
            if (best->deadline > now) voff += best->deadline - now;
            if (best->st == CND) wake_cond(best, true);
            fire_timers();
            continue;
        }
        for (size_t i = 0; i < th.size(); ++i) if (th[i]->st == QUIET) { idle_advances = 0; return i; }
        stuck("deadlock");
    }
}
void deliver() {                        // run a pending signal handler in this thread
    Th* t = th[self_];
    while (t->sig) {
        int s = t->sig; t->sig = 0;
        t->frames.push_back(*t); *(W*)t = W();
        if (vs_on_signal) vs_on_signal(self_, s, true);
        raise(s);
        if (vs_on_signal) vs_on_signal(self_, s, false);
        *(W*)t = t->frames.back(); t->frames.pop_back();    // go back to what it was doing
    }
}
void to(int n) {
    if (n == self_) return;
    int* mine = &th[self_]->tok;         // once the other runs, nothing shared may be read here
    fut_wake(&th[n]->tok);
    fut_wait(mine);
}
void step() {
    if (++steps > max_steps) { max_steps += 1000000; stuck("livelock"); }
    if (vs_spurious && rnd(vs_spurious) == 0) {
        std::vector<Th*> w; for (Th* t : th) if (t->st == CND) w.push_back(t);
        if (!w.empty()) wake_cond(w[rnd(w.size())], false);
    }
    for (size_t i = 0; i < sigs.size(); ++i) if (steps >= sigs[i].first) {
        std::vector<Th*> w; for (Th* t : th) if (t->st != DONE && t->st != QUIET && !t->sig) w.push_back(t);
        if (w.empty()) continue;
        w[rnd(w.size())]->sig = sigs[i].second;
        sigs.erase(sigs.begin() + i--);
    }
}
void switch_() { int n = pick(); to(n); }
void yield_() { step(); switch_(); deliver(); }
void block_() {                          // the state is set; returns when we can go on
    for (;;) {
        step(); switch_();
        if (th[self_]->sig) { deliver(); if (th[self_]->st != QUIET && th[self_]->st != RUN && !can(th[self_])) continue; }
        break;
    }
    th[self_]->st = RUN;
}
void waiters(void* c, std::vector<W*>& w) {
    for (Th* t : th) { if (t->st == CND && t->obj == c) w.push_back(t); for (W& f : t->frames) if (f.st == CND && f.obj == c) w.push_back(&f); }
}
bool managed() { return on && self_ >= 0; }

void lock_(void* m, bool recursive) {
    Mx& x = (*mx)[m];
    if (recursive && x.owner == self_) { ++x.count; return; }
    while ((*mx)[m].owner != -1) { Th* t = th[self_]; t->st = MUT; t->obj = m; block_(); }
    Mx& y = (*mx)[m]; y.owner = self_; y.count = 1; acquire(m);
}
void unlock_(void* m) { release(m); Mx& x = (*mx)[m]; if (x.owner == self_ && --x.count == 0) x.owner = -1; }

struct Start { void* (*f)(void*); void* a; int idx; Th* t; };
void* tramp(void* p) {
    Start s = *(Start*)p; delete (Start*)p;
    fut_wait(&s.t->tok);
    self_ = s.idx; race_stack();
    pthread_setspecific(exit_key, (void*)1);
    void* r = s.f(s.a);
    return r;
}
void on_exit_key(void* v) {
    Quiet quiet;
    long n = (long)v;
    if (n < 3) { pthread_setspecific(exit_key, (void*)(n + 1)); return; }
    if (self_ < 0) return;
    Th* t = th[self_]; t->st = DONE;
    if (vs_on_thread) vs_on_thread(self_, false);
    t->sig = 0;
    int me = self_; (void)me;
    int n2 = pick();
    fut_wake(&th[n2]->tok);
    self_ = -1;
}
} // namespace

void vs_start(unsigned seed, int m, long ms) {
    mx = new std::map<void*, Mx>; tfd = tfd ? tfd : new std::map<int, long long>; rng = new std::mt19937(seed); changes = new std::vector<long>;
    mode = m; max_steps = ms; steps = 0;
    static const double ST[] = {0.0, 0.3, 0.6, 0.85, 0.95};
    stick = ST[rnd(5)];
    if (mode) { int d = 1 + rnd(4); long k = 40 << rnd(6); for (int i = 0; i < d; ++i) changes->push_back(1 + rnd(k)); for (size_t i = 0; i < changes->size(); ++i) for (size_t j = i + 1; j < changes->size(); ++j) if ((*changes)[j] > (*changes)[i]) std::swap((*changes)[i], (*changes)[j]); }
    pthread_key_create(&exit_key, on_exit_key);
    Th* t = new Th; t->prio = 1 + rndf(); th.push_back(t); self_ = 0; on = true; race_start();
}
void vs_yield() { Quiet quiet; if (managed()) yield_(); }
int vs_self() { return on ? self_ : -1; }
long vs_steps() { return steps; }
bool vs_quiesce() {
    Quiet quiet; Th* t = th[self_];
    for (;;) { t->st = QUIET; switch_(); t->st = RUN; if (!t->sig) { race_barrier(); return true; } deliver(); }
}
void vs_order(void* k) { Quiet quiet; acquire(k); release(k); }
void vs_advance(long long ns) { Quiet quiet; voff += ns; if (managed()) { fire_timers(); usleep(200); } }
void vs_signal_in(long s, int n) { Quiet quiet; sigs.push_back(std::make_pair(steps + s, n)); }
void vs_signal_now(int n) { Quiet quiet; vs_signal_in(0, n); if (managed()) step(); }
std::string vs_where(int i) { return th[i]->sig ? "signal" : NAMES[th[i]->st]; }

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!managed()) { REAL(pthread_mutex_lock); return r(m); }
    Quiet quiet;
    bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE;
    if (!(rec && (*mx)[m].owner == self_)) yield_();
    lock_(m, rec);
    if (!sigs.empty()) { step(); deliver(); }           // a signal may come while the mutex is held
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!managed()) { REAL(pthread_mutex_trylock); return r(m); }
    Quiet quiet;
    yield_();
    Mx& x = (*mx)[m];
    if (x.owner == -1) { x.owner = self_; x.count = 1; acquire(m); return 0; }
    if (x.owner == self_ && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { ++x.count; return 0; }
    return EBUSY;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!managed()) { if (on) return 0; REAL(pthread_mutex_unlock); return r(m); }
    Quiet quiet;
    unlock_(m); yield_(); return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) { Quiet quiet; if (on && mx) mx->erase(m); REAL(pthread_mutex_destroy); if (on) return 0; return r(m); }
static int wait_(pthread_cond_t* c, pthread_mutex_t* m, bool timed, long long deadline) {
    Th* t = th[self_];
    Mx x = (*mx)[m]; unlock_(m); (*mx)[m] = Mx();
    t->st = CND; t->obj = c; t->mutex = m; t->timed = timed; t->deadline = deadline; t->timedout = false;
    bool to_ = false;
    block_();
    to_ = t->timedout;
    lock_(m, false); (*mx)[m].count = x.count;
    return to_ ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!managed()) { REAL(pthread_cond_wait); return r(c, m); }
    Quiet quiet;
    yield_();
    return wait_(c, m, false, 0);
}
static long long mono(clockid_t c, const timespec* ts) {
    long long abs = ts->tv_sec * 1000000000LL + ts->tv_nsec;
    return abs - (raw_now(c) + voff) + raw_now(CLOCK_MONOTONIC) + voff;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) {
    if (!managed()) { REAL(pthread_cond_timedwait); return r(c, m, ts); }
    Quiet quiet;
    yield_();
    // the clock the condition was made for is not visible here: a deadline far from one clock belongs to the other
    long long abs = ts->tv_sec * 1000000000LL;
    clockid_t ck = llabs(abs - (raw_now(CLOCK_MONOTONIC) + voff)) < llabs(abs - (raw_now(CLOCK_REALTIME) + voff)) ? CLOCK_MONOTONIC : CLOCK_REALTIME;
    return wait_(c, m, true, mono(ck, ts));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t ck, const timespec* ts) {
    if (!managed()) { REAL(pthread_cond_clockwait); return r(c, m, ck, ts); }
    Quiet quiet;
    yield_();
    return wait_(c, m, true, mono(ck, ts));
}
int pthread_cond_signal(pthread_cond_t* c) {
    if (!managed()) { if (on) return 0; REAL(pthread_cond_signal); return r(c); }
    Quiet quiet;
    yield_();
    std::vector<W*> w; waiters(c, w);
    if (!w.empty()) wake_cond(w[rnd(w.size())], false);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!managed()) { if (on) return 0; REAL(pthread_cond_broadcast); return r(c); }
    Quiet quiet;
    yield_();
    std::vector<W*> w; waiters(c, w);
    for (W* t : w) wake_cond(t, false);
    return 0;
}
int pthread_create(pthread_t* h, const pthread_attr_t* a, void* (*f)(void*), void* arg) {
    REAL(pthread_create);
    if (!managed()) return r(h, a, f, arg);
    Quiet quiet;
    Start* s = new Start; s->f = f; s->a = arg; s->idx = th.size();
    Th* t = new Th; t->prio = 1 + rndf(); th.push_back(t); s->t = t;
    race_create(s->idx);
    int rc = r(h, a, tramp, s);
    if (rc) { t->st = DONE; return rc; }
    t->handle = *h; t->have_handle = true;
    if (vs_on_thread) vs_on_thread(s->idx, true);
    yield_();
    return 0;
}
int pthread_join(pthread_t h, void** v) {
    REAL(pthread_join);
    if (!managed()) return r(h, v);
    Quiet quiet;
    yield_();
    int target = -1;
    for (size_t i = th.size(); i-- > 0;) if (th[i]->have_handle && pthread_equal(th[i]->handle, h)) { target = i; break; }
    if (target >= 0) {
        Th* t = th[self_]; t->st = JOINW; t->target = target; block_(); race_join(target);
        th[target]->have_handle = false;
    }
    return r(h, v);
}
int pthread_detach(pthread_t h) {
    Quiet quiet;
    REAL(pthread_detach);
    if (managed()) for (Th* t : th) if (t->have_handle && pthread_equal(t->handle, h)) t->have_handle = false;
    return r(h);
}
int sem_wait(sem_t* s) {
    if (!managed()) { REAL(sem_wait); return r(s); }
    Quiet quiet;
    yield_();
    Th* t = th[self_];
    while (*(int*)s <= 0) { t->st = SEMW; t->obj = s; block_(); }
    acquire(s);
    --*(int*)s; return 0;
}
int sem_post(sem_t* s) {
    if (!managed()) { REAL(sem_post); return r(s); }
    Quiet quiet;
    yield_(); release(s); ++*(int*)s; return 0;
}
int epoll_wait(int fd, epoll_event* ev, int n, int ms) {
    REAL(epoll_wait);
    if (!managed()) return r(fd, ev, n, ms);
    Quiet quiet;
    yield_();
    if (ms != 0) {
        Th* t = th[self_]; t->st = EPW; t->epfd = fd; t->timed = ms > 0; t->deadline = raw_now(CLOCK_MONOTONIC) + voff + ms * 1000000LL;
        block_(); t->timed = false;
    }
    acquire((void*)(0x100000L + fd));
    return r(fd, ev, n, 0);
}
int poll(pollfd* p, nfds_t n, int ms) {
    if (!managed()) return syscall(SYS_poll, p, n, ms);
    Quiet quiet;
    yield_();
    if (ms != 0) {
        Th* t = th[self_]; t->st = POLLW; t->pf = p; t->npf = n; t->timed = ms > 0; t->deadline = raw_now(CLOCK_MONOTONIC) + voff + ms * 1000000LL;
        block_(); t->timed = false;
    }
    return syscall(SYS_poll, p, n, 0);
}
static void sleep_to(long long deadline) { Th* t = th[self_]; t->st = SLEEPW; t->deadline = deadline; block_(); }
int nanosleep(const timespec* ts, timespec* rem) {
    if (!managed()) return syscall(SYS_nanosleep, ts, rem);
    Quiet quiet;
    sleep_to(raw_now(CLOCK_MONOTONIC) + voff + ts->tv_sec * 1000000000LL + ts->tv_nsec);
    return 0;
}
int clock_nanosleep(clockid_t c, int flags, const timespec* ts, timespec* rem) {
    if (!managed()) return -syscall(SYS_clock_nanosleep, c, flags, ts, rem);
    Quiet quiet;
    if (flags & TIMER_ABSTIME) sleep_to(mono(c, ts));
    else sleep_to(raw_now(CLOCK_MONOTONIC) + voff + ts->tv_sec * 1000000000LL + ts->tv_nsec);
    return 0;
}
int sched_yield(void) { Quiet quiet; if (managed()) yield_(); else syscall(SYS_sched_yield); return 0; }
int clock_gettime(clockid_t c, timespec* ts) {
    long long v = raw_now(c) + voff; ts->tv_sec = v / 1000000000LL; ts->tv_nsec = v % 1000000000LL; return 0;
}
time_t time(time_t* t) { time_t v = (raw_now(CLOCK_REALTIME) + voff) / 1000000000LL; if (t) *t = v; return v; }
int gettimeofday(struct timeval* tv, void*) { long long v = raw_now(CLOCK_REALTIME) + voff; tv->tv_sec = v / 1000000000LL; tv->tv_usec = v % 1000000000LL / 1000; return 0; }
int timerfd_settime(int fd, int flags, const itimerspec* n, itimerspec* o) {
    Quiet quiet;
    long long v = n->it_value.tv_sec * 1000000000LL + n->it_value.tv_nsec;
    if (!tfd) tfd = new std::map<int, long long>;
    itimerspec z; memset(&z, 0, sizeof z);
    if (v == 0) { (*tfd)[fd] = 0; return syscall(SYS_timerfd_settime, fd, 0, &z, o); }
    if (v <= 1) { (*tfd)[fd] = 0; z.it_value.tv_nsec = 1; return syscall(SYS_timerfd_settime, fd, TFD_TIMER_ABSTIME, &z, o); }
    (*tfd)[fd] = (flags & TFD_TIMER_ABSTIME) ? v : raw_now(CLOCK_MONOTONIC) + voff + v;
    return syscall(SYS_timerfd_settime, fd, 0, &z, o);
}
}
