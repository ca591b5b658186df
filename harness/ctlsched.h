// Controlled scheduler: the pthread mutex, condition variable, thread and clock entry points are interposed, so that
// exactly one thread runs at a time and every switch, wake-up and clock step is a choice drawn from the tape.
// Include in exactly one translation unit.
#pragma once
#include "pbt.h"
#include <chrono>
#include <cerrno>
#include <deque>
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <unordered_map>

namespace sched {
using pbt::draw;

enum St { RUN, WAIT_MUTEX, WAIT_COND, WAIT_JOIN, SLEEP, DONE };
struct Th {
    int id = 0; St st = RUN; sem_t sem; const void* on = nullptr; bool timed = false; int64_t deadline = 0; bool timed_out = false;
    void* (*fn)(void*) = nullptr; void* arg = nullptr; pthread_t real{}; uint64_t prio = 0; void* ret = nullptr; int held = 0;
};
struct Mx { Th* owner = nullptr; int count = 0; };

struct State {
    bool on = false;
    std::vector<Th*> th; std::unordered_map<const void*, Mx> mx;
    int64_t now = 0;             // virtual nanoseconds
    int policy = 0; int switch_den = 4; std::vector<uint64_t> change_at;
    uint64_t steps = 0, switches = 0, max_steps = 60000; bool fair = false; uint64_t fair_from = 0; size_t rr = 0;
    bool clock_moves = false; int clock_den = 50; int64_t clock_unit = 1000000;
    std::vector<std::pair<pthread_t, Th*>> by_pthread;
    uint64_t deadlocks = 0;
    const char* phase = "";
    uint64_t spurious = 0; int spurious_den = 0;
    int step_max = 0; uint64_t step_left = 0, preemptions = 0;   // preemption at memory accesses of the library (step variant)
    std::unordered_map<const void*, int> readers;                // shared owners of read-write locks
};
inline State& S() { static State s; return s; }
inline Th*& cur() { static thread_local Th* t = nullptr; return t; }
inline bool active() { return S().on && cur() != nullptr; }

// ---- real functions
template <class F> F real(const char* name) { return (F)dlsym(RTLD_NEXT, name); }
#define SCHED_REAL(name) static auto* r = sched::real<decltype(&::name)>(#name)

inline std::string dump() {
    std::string o;
    static const char* nm[] = {"runnable", "waiting for a mutex", "waiting on a condition variable", "joining", "sleeping", "done"};
    for (Th* t : S().th) { o += (t->id == 0 ? "caller" : "worker" + std::to_string(t->id)) + ": " + nm[t->st]; if (t->st == WAIT_MUTEX) { auto it = S().mx.find(t->on); if (it != S().mx.end() && it->second.owner) o += " held by " + std::to_string(it->second.owner->id); } o += "; "; }
    return o;
}

inline bool enabled(Th* t) {
    if (t->st == RUN) return true;
    if (t->st == WAIT_MUTEX) return S().mx[t->on].owner == nullptr;
    if (t->st == WAIT_JOIN) return ((Th*)t->on)->st == DONE;
    return false;
}
// gives the processor to some enabled thread; the caller's own state has been set
inline void reschedule() {
    State& s = S(); Th* me = cur();
    s.steps++;
    if (!s.fair && s.steps > s.max_steps) { s.fair = true; s.fair_from = s.steps; }
    if (s.fair && s.steps > s.fair_from + 400000) pbt::fail("no termination: the program still runs after %llu steps, the last 400000 of them under a fair schedule (%s) [%s]", (unsigned long long)s.steps, s.phase, dump().c_str());
    if (s.clock_moves && !s.fair && draw(s.clock_den) == (uint64_t)s.clock_den - 1) s.now += (int64_t)draw(5) * s.clock_unit;
    if (s.fair && s.clock_moves) s.now += std::max<int64_t>(1, s.clock_unit / 1000);
    // sleepers and timed waiters whose deadline has passed
    auto expire = [&]() { for (Th* t : s.th) if ((t->st == SLEEP || (t->st == WAIT_COND && t->timed)) && t->deadline <= s.now) { t->timed_out = true; t->st = RUN; } };
    expire();
    if (s.spurious_den && draw(s.spurious_den) == (uint64_t)s.spurious_den - 1) for (Th* t : s.th) if (t->st == WAIT_COND && draw(2)) { t->st = RUN; s.spurious++; }
    std::vector<Th*> en;
    for (Th* t : s.th) if (enabled(t)) en.push_back(t);
    if (en.empty()) {
        int64_t best = INT64_MAX; for (Th* t : s.th) if (t->st == SLEEP || (t->st == WAIT_COND && t->timed)) best = std::min(best, t->deadline);
        if (best == INT64_MAX) pbt::fail("deadlock: no thread can continue (%s) [%s]", s.phase, dump().c_str());
        s.now = best; expire();
        for (Th* t : s.th) if (enabled(t)) en.push_back(t);
    }
    Th* nx = nullptr; bool me_ok = std::find(en.begin(), en.end(), me) != en.end();
    if (s.fair) { nx = en[s.rr++ % en.size()]; }
    else if (s.policy == 0) { size_t k = draw(en.size()); nx = me_ok ? (k == 0 ? me : en[(std::find(en.begin(), en.end(), me) - en.begin() + k) % en.size()]) : en[k]; }
    else if (s.policy == 1) { if (me_ok && draw(s.switch_den) != (uint64_t)s.switch_den - 1) nx = me; else nx = en[draw(en.size())]; }
    else { for (uint64_t c : s.change_at) if (c == s.steps && me) me->prio = draw(1000); for (Th* t : en) if (!nx || t->prio > nx->prio) nx = t; }
    if (nx == me) return;
    s.switches++;
    sem_post(&nx->sem);
    if (me->st != DONE) { while (sem_wait(&me->sem) != 0) {} }
}
// after being chosen while blocked on a mutex: take it
inline void acquire(const void* m) {
    Th* me = cur();
    for (;;) {
        Mx& x = S().mx[m];
        if (!x.owner) { x.owner = me; x.count = 1; me->st = RUN; return; }
        me->st = WAIT_MUTEX; me->on = m; reschedule(); me->st = RUN;
    }
}
inline void yield() { if (active()) { cur()->st = RUN; reschedule(); } }
inline bool holds(const void* m) { auto it = S().mx.find(m); return it != S().mx.end() && it->second.owner == cur(); }
inline int tid() { return cur() ? cur()->id : -1; }
inline void advance(double seconds) { S().now += (int64_t)(seconds * 1e9); }

// called before every memory access of the library when it is built with access instrumentation
inline void access_point() {
    State& s = S(); if (!s.step_max || !s.on || !cur() || s.fair) return;
    if (--s.step_left > 0) return;
    s.step_left = 1 + draw(s.step_max); s.preemptions++; yield();
}

inline void* trampoline(void* p) {
    Th* t = (Th*)p; cur() = t;
    while (sem_wait(&t->sem) != 0) {}
    t->ret = t->fn(t->arg);
    void* ret = t->ret;
    t->st = DONE;
    reschedule();
    cur() = nullptr;   // destructors of thread-local objects run unscheduled
    return ret;
}

struct Opts { bool clock = false; };
inline void begin(bool clock) {
    State& s = S(); s = State();
    Th* t = new Th(); t->id = 0; sem_init(&t->sem, 0, 0); s.th.push_back(t); cur() = t;
    s.policy = (int)draw(3); s.switch_den = (int)pbt::pick({2, 4, 12, 40});
    if (s.policy == 2) { t->prio = draw(1000); int d = pbt::range(0, 6); for (int i = 0; i < d; i++) s.change_at.push_back(1 + draw(pbt::pick({30, 150, 800}))); }
    s.clock_moves = clock; s.clock_den = pbt::pick({6, 30, 150}); s.now = 1000000000;
    s.spurious_den = pbt::chance(1, 6) ? 40 : 0;
#ifdef VF_STEP
    s.step_max = pbt::pick({0, 100, 20, 600, 5, 0, 2000}); s.step_left = 1 + (s.step_max ? draw(s.step_max) : 0); s.max_steps = 200000;
#endif
    s.on = true;
}
inline void end() {
    State& s = S(); s.on = false;
    for (Th* t : s.th) if (t->id != 0 && t->st != DONE) pbt::fail("a worker thread is still alive after the pool was destroyed [%s]", dump().c_str());
    for (Th* t : s.th) { sem_destroy(&t->sem); delete t; }
    s.th.clear(); cur() = nullptr;
}
}  // namespace sched

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
    SCHED_REAL(pthread_mutex_lock);
    if (!sched::active()) return r(m);
    if (sched::holds(m)) {
        if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { sched::S().mx[m].count++; return 0; }
        pbt::fail("deadlock: thread %d locks a mutex it already holds", sched::tid());
    }
    sched::cur()->st = sched::RUN; sched::reschedule(); sched::acquire(m); return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
    SCHED_REAL(pthread_mutex_trylock);
    if (!sched::active()) return r(m);
    sched::yield(); auto& x = sched::S().mx[m]; if (x.owner == sched::cur() && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { x.count++; return 0; } if (x.owner) return EBUSY; x.owner = sched::cur(); x.count = 1; return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
    SCHED_REAL(pthread_mutex_unlock);
    if (!sched::active()) return r(m);
    auto& x = sched::S().mx[m];
    if (x.owner != sched::cur()) pbt::fail("thread %d unlocks a mutex it does not hold", sched::tid());
    if (x.count > 1) { x.count--; return 0; }
    x.owner = nullptr; x.count = 0; sched::yield(); return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept {
    SCHED_REAL(pthread_rwlock_wrlock);
    if (!sched::active()) return r(m);
    if (sched::holds(m)) pbt::fail("deadlock: thread %d locks a read-write lock it already holds", sched::tid());
    sched::cur()->st = sched::RUN; sched::reschedule();
    for (;;) { sched::acquire(m); if (sched::S().readers[m] == 0) return 0; sched::S().mx[m].owner = nullptr; sched::yield(); }
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept {
    SCHED_REAL(pthread_rwlock_rdlock);
    if (!sched::active()) return r(m);
    if (sched::holds(m)) pbt::fail("deadlock: thread %d locks a read-write lock it already holds", sched::tid());
    sched::cur()->st = sched::RUN; sched::reschedule(); sched::acquire(m); sched::S().mx[m].owner = nullptr; sched::S().readers[m]++; return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept {
    SCHED_REAL(pthread_rwlock_unlock);
    if (!sched::active()) return r(m);
    if (sched::holds(m)) sched::S().mx[m].owner = nullptr; else if (sched::S().readers[m] > 0) sched::S().readers[m]--; else pbt::fail("thread %d unlocks a read-write lock that is not held", sched::tid());
    sched::yield(); return 0;
}
static int sched_cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, int64_t deadline) {
    sched::Th* me = sched::cur(); auto& x = sched::S().mx[m];
    if (x.owner != me) pbt::fail("condition wait without holding the mutex");
    x.owner = nullptr; me->st = sched::WAIT_COND; me->on = c; me->timed = timed; me->deadline = deadline; me->timed_out = false;
    sched::reschedule();
    me->timed = false; me->st = sched::RUN; sched::acquire(m);
    return me->timed_out ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    SCHED_REAL(pthread_cond_wait);
    if (!sched::active()) return r(c, m);
    return sched_cond_wait(c, m, false, 0);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
    SCHED_REAL(pthread_cond_timedwait);
    if (!sched::active()) return r(c, m, ts);
    return sched_cond_wait(c, m, true, (int64_t)std::min<double>((double)ts->tv_sec * 1e9 + ts->tv_nsec, 9e18));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) {
    SCHED_REAL(pthread_cond_clockwait);
    if (!sched::active()) return r(c, m, k, ts);
    return sched_cond_wait(c, m, true, (int64_t)std::min<double>((double)ts->tv_sec * 1e9 + ts->tv_nsec, 9e18));
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept {
    SCHED_REAL(pthread_cond_broadcast);
    if (!sched::active()) return r(c);
    for (auto* t : sched::S().th) if (t->st == sched::WAIT_COND && t->on == c) t->st = sched::RUN;
    sched::yield(); return 0;
}
int pthread_cond_signal(pthread_cond_t* c) noexcept {
    SCHED_REAL(pthread_cond_signal);
    if (!sched::active()) return r(c);
    std::vector<sched::Th*> w; for (auto* t : sched::S().th) if (t->st == sched::WAIT_COND && t->on == c) w.push_back(t);
    if (!w.empty()) w[sched::draw(w.size())]->st = sched::RUN;
    sched::yield(); return 0;
}
int pthread_create(pthread_t* out, const pthread_attr_t* a, void* (*fn)(void*), void* arg) noexcept {
    SCHED_REAL(pthread_create);
    if (!sched::active()) return r(out, a, fn, arg);
    auto* t = new sched::Th(); auto& s = sched::S(); t->id = (int)s.th.size(); t->fn = fn; t->arg = arg; sem_init(&t->sem, 0, 0); t->prio = sched::draw(1000);
    s.th.push_back(t);
    int rc = r(&t->real, a, sched::trampoline, t); if (rc) { s.th.pop_back(); return rc; }
    *out = t->real; s.by_pthread.push_back({t->real, t});
    sched::yield(); return 0;
}
int pthread_join(pthread_t p, void** ret) {
    SCHED_REAL(pthread_join);
    if (!sched::active()) return r(p, ret);
    sched::Th* t = nullptr; for (auto& x : sched::S().by_pthread) if (pthread_equal(x.first, p) && x.second) { t = x.second; x.second = nullptr; }
    if (!t) return r(p, ret);
    sched::Th* me = sched::cur();
    while (t->st != sched::DONE) { me->st = sched::WAIT_JOIN; me->on = t; sched::reschedule(); me->st = sched::RUN; }
    return r(p, ret);
}
int clock_nanosleep(clockid_t k, int flags, const struct timespec* req, struct timespec* rem) {
    SCHED_REAL(clock_nanosleep);
    if (!sched::active()) return r(k, flags, req, rem);
    sched::Th* me = sched::cur(); int64_t d = (int64_t)req->tv_sec * 1000000000 + req->tv_nsec;
    me->st = sched::SLEEP; me->deadline = (flags & TIMER_ABSTIME) ? d : sched::S().now + d; sched::reschedule(); me->st = sched::RUN; return 0;
}
int nanosleep(const struct timespec* req, struct timespec* rem) {
    SCHED_REAL(nanosleep);
    if (!sched::active()) return r(req, rem);
    return clock_nanosleep(CLOCK_REALTIME, 0, req, rem);
}
int sched_yield(void) noexcept {
    SCHED_REAL(sched_yield);
    if (!sched::active()) return r();
    sched::yield(); return 0;
}
}

// the program's clocks are the virtual clock while the scheduler is in control
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
    if (sched::active()) return time_point(duration(sched::S().now));
    struct timespec ts; ::clock_gettime(CLOCK_REALTIME, &ts); return time_point(duration((int64_t)ts.tv_sec * 1000000000 + ts.tv_nsec));
}
steady_clock::time_point steady_clock::now() noexcept {
    if (sched::active()) return time_point(duration(sched::S().now));
    struct timespec ts; ::clock_gettime(CLOCK_MONOTONIC, &ts); return time_point(duration((int64_t)ts.tv_sec * 1000000000 + ts.tv_nsec));
}
} } }

#ifdef VF_STEP
// The library's objects are compiled with -fsanitize=thread but linked against these entry points instead of its run time.
#define VF_ACC(n) void n(void*) { sched::access_point(); }
#define VF_RW(k) VF_ACC(__tsan_read##k) VF_ACC(__tsan_write##k) VF_ACC(__tsan_read_write##k) VF_ACC(__tsan_unaligned_read##k) VF_ACC(__tsan_unaligned_write##k) VF_ACC(__tsan_unaligned_read_write##k)
#define VF_ATOMIC(b, T) \
    T __tsan_atomic##b##_load(const volatile T* a, int) { sched::access_point(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##b##_store(volatile T* a, T v, int) { sched::access_point(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_exchange(volatile T* a, T v, int) { sched::access_point(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int) { sched::access_point(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int) { sched::access_point(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int) { sched::access_point(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int) { sched::access_point(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int) { sched::access_point(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_nand(volatile T* a, T v, int) { sched::access_point(); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T c, T v, int, int) { sched::access_point(); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { sched::access_point(); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { sched::access_point(); return __atomic_compare_exchange_n(a, c, v, true, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
VF_RW(1) VF_RW(2) VF_RW(4) VF_RW(8) VF_RW(16)
void __tsan_read_range(void*, unsigned long) { sched::access_point(); }
void __tsan_write_range(void*, unsigned long) { sched::access_point(); }
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
VF_ATOMIC(8, unsigned char) VF_ATOMIC(16, unsigned short) VF_ATOMIC(32, unsigned) VF_ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
void* __tsan_memcpy(void* d, const void* s, unsigned long n) { sched::access_point(); return __builtin_memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, unsigned long n) { sched::access_point(); return __builtin_memmove(d, s, n); }
void* __tsan_memset(void* d, int c, unsigned long n) { sched::access_point(); return __builtin_memset(d, c, n); }
}
#endif
