// Deterministic cooperative scheduler for unmodified code.  Logical threads are fibers.  The pthread functions that
// std::mutex, std::condition_variable, std::thread and std::call_once end in are replaced at link level, so that every
// operation on them is a scheduling point.  With PCOOP_MEMORY (and the source compiled with -fsanitize=thread, linked
// without it) every memory access and atomic operation of the translation unit is a possible scheduling point as well.
// All decisions are taken by a `Chooser`, hence a schedule is a list of integers that can be enumerated or drawn.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <functional>
#include <map>
#include <memory>
#include <pthread.h>
#include <random>
#include <string>
#include <ucontext.h>
#include <utility>
#include <vector>

#define NOINSTR __attribute__((no_sanitize("thread"), disable_sanitizer_instrumentation))

namespace coop {

struct Chooser
{
    std::vector<int> prefix;              // forced decisions
    std::vector<std::pair<int,int>> made; // (choice, number of options)
    std::mt19937_64 *rng = nullptr;       // random beyond the prefix, else first option
    NOINSTR int choose(int n) {
        int c;
        if (made.size() < prefix.size()) c = prefix[made.size()] < n ? prefix[made.size()] : n - 1;
        else if (rng) c = int((*rng)() % n);
        else c = 0;
        made.emplace_back(c, n);
        return c;
    }
};

enum State { RUNNABLE, BLOCKED, DONE };
struct Scheduler;
inline Scheduler *S = nullptr;
inline int quiet = 0;          // > 0: no scheduling points (harness code)
struct Quiet { NOINSTR Quiet() { ++quiet; } NOINSTR ~Quiet() { --quiet; } };

struct Fiber
{
    ucontext_t ctx;
    std::vector<char> stack;
    State state = RUNNABLE;
    std::function<void()> fn;
    std::function<bool()> pred;   // blocked until this holds
    bool has_pred = false;
    int quiet_saved = 0;
    bool background = false;      // need not terminate
};

struct MutexState { int owner = -1; int depth = 0; std::vector<int> waiters; };
struct CondState { std::vector<int> waiters; };
struct RwState { int writer = -1; int readers = 0; };

struct Scheduler
{
    std::vector<std::unique_ptr<Fiber>> fibers;
    std::map<void*, MutexState> mutexes;
    std::map<void*, CondState> conds;
    std::map<void*, RwState> rws;
    ucontext_t main_ctx;
    int cur = -1;
    Chooser *ch = nullptr;
    int preempt_budget = -1;   // < 0: unlimited
    long steps = 0, max_steps = 100000;
    uint64_t mem_mask = ~0ull; // a memory access is a scheduling point if (random & mask) == 0; ~0: never
    std::mt19937_64 mem_rng{1};
    bool stuck = false, overrun = false, finished = false;
    std::function<void(int)> on_block;  // called when a fiber starts waiting on a condition variable

    NOINSTR int add(std::function<void()> fn, bool background = false) {
        ++quiet;
        auto f = std::make_unique<Fiber>();
        f->stack.resize(512 * 1024);
        f->fn = std::move(fn);
        f->background = background;
        fibers.push_back(std::move(f));
        int i = int(fibers.size()) - 1;
        if (ch) prepare(i);
        --quiet;
        return i;
    }
    NOINSTR void prepare(int i) {
        auto &f = fibers[i];
        getcontext(&f->ctx);
        f->ctx.uc_stack.ss_sp = f->stack.data();
        f->ctx.uc_stack.ss_size = f->stack.size();
        f->ctx.uc_link = &main_ctx;
        makecontext(&f->ctx, (void(*)())&Scheduler::tramp, 0);
    }
    NOINSTR static void tramp() {
        ++quiet;
        Fiber *f = S->fibers[S->cur].get();
        --quiet;
        f->fn();
        ++quiet;
        f->state = DONE;
        S->switch_out();
    }
    NOINSTR void switch_out() {
        ++quiet;
        Fiber *f = fibers[cur].get();
        f->quiet_saved = quiet;
        swapcontext(&f->ctx, &main_ctx);
        --quiet;
    }
    // returns true if all foreground fibers finished
    NOINSTR bool run(Chooser &c) {
        ++quiet;
        S = this; ch = &c;
        for (int i = 0; i < (int)fibers.size(); ++i) prepare(i);
        int last = -1;
        for (;;) {
            bool fg = false;
            for (auto &f : fibers) if (f->state != DONE and not f->background) fg = true;
            if (not fg) break;
            std::vector<int> r;
            bool last_runnable = false;
            for (int i = 0; i < (int)fibers.size(); ++i) {
                auto &f = fibers[i];
                if (f->state == BLOCKED and f->has_pred and f->pred()) { f->state = RUNNABLE; f->has_pred = false; }
                if (f->state == RUNNABLE) { if (i == last) last_runnable = true; else r.push_back(i); }
            }
            if (last_runnable) r.insert(r.begin(), last); // option 0: continue without a context switch
            if (r.empty()) break;
            if (++steps > max_steps) { overrun = true; break; }
            int k = 0;
            if (r.size() > 1) {
                if (last_runnable and preempt_budget == 0) k = 0;
                else {
                    k = ch->choose(int(r.size()));
                    if (last_runnable and k != 0 and preempt_budget > 0) --preempt_budget;
                }
            }
            last = cur = r[k];
            int q = quiet;
            Fiber *next = fibers[cur].get();
            quiet = next->quiet_saved;
            swapcontext(&main_ctx, &next->ctx);
            quiet = q;
            cur = -1;
        }
        bool all = true;
        for (auto &f : fibers) if (f->state != DONE and not f->background) all = false;
        stuck = not all;
        S = nullptr;
        --quiet;
        return all;
    }
    NOINSTR bool in_fiber() const { return cur >= 0; }
    NOINSTR void yield() { if (cur >= 0) switch_out(); }
    NOINSTR void block() { ++quiet; fibers[cur]->state = BLOCKED; switch_out(); --quiet; }
    NOINSTR void wake(int i) { if (fibers[i]->state == BLOCKED) fibers[i]->state = RUNNABLE; }
};

NOINSTR inline void yield() { if (S and S->in_fiber()) S->yield(); }
NOINSTR inline int self() { return S ? S->cur : -1; }
NOINSTR inline int choose(int n) { return S and n > 1 ? S->ch->choose(n) : 0; }
template<typename P> NOINSTR inline void wait_until(P pred) {
    if (not S or not S->in_fiber()) return;
    Quiet q;
    while (not pred()) {
        auto *f = S->fibers[S->cur].get();
        f->pred = pred; f->has_pred = true;
        S->block();
    }
}
NOINSTR inline bool active() { return S and S->cur >= 0; }

template<typename F> NOINSTR F real(const char *name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }

NOINSTR inline int mlock(void *m) {
    if (not quiet) yield();
    Quiet q;
    for (;;) {
        auto &s = S->mutexes[m];
        if (s.owner == -1) { s.owner = self(); return 0; }
        s.waiters.push_back(self());
        S->block();
    }
}
NOINSTR inline int munlock(void *m) {
    { Quiet q;
      auto &s = S->mutexes[m];
      s.owner = -1;
      for (int w : s.waiters) S->wake(w);
      s.waiters.clear(); }
    if (not quiet) yield();
    return 0;
}
NOINSTR inline int cwait(void *c, void *m) {
    Quiet q;
    int me = self();
    S->conds[c].waiters.push_back(me);
    auto &s = S->mutexes[m];
    s.owner = -1;
    for (int w : s.waiters) S->wake(w);
    s.waiters.clear();
    if (S->on_block) S->on_block(me);
    S->block();
    for (;;) {
        auto &s = S->mutexes[m];
        if (s.owner == -1) { s.owner = me; return 0; }
        s.waiters.push_back(me);
        S->block();
    }
}
NOINSTR inline int cnotify(void *c, bool all) {
    if (not quiet) yield();
    Quiet q;
    auto &w = S->conds[c].waiters;
    if (w.empty()) return 0;
    if (all) { for (int x : w) S->wake(x); w.clear(); }
    else { int k = choose(int(w.size())); int x = w[k]; w.erase(w.begin() + k); S->wake(x); }
    return 0;
}
NOINSTR inline void mem_point() {
    if (quiet or not S or S->cur < 0 or S->mem_mask == ~0ull) return;
    Quiet q;
    if ((S->mem_rng() & S->mem_mask) == 0) S->yield();
}

} // namespace coop

extern "C" {
#define REAL(name, ...) static auto f = coop::real<decltype(&name)>(#name); return f(__VA_ARGS__)
NOINSTR int pthread_mutex_lock(pthread_mutex_t *m) { if (coop::active()) return coop::mlock(m); REAL(pthread_mutex_lock, m); }
NOINSTR int pthread_mutex_trylock(pthread_mutex_t *m) {
    if (coop::active()) {
        if (not coop::quiet) coop::yield();
        coop::Quiet q;
        auto &s = coop::S->mutexes[m];
        if (s.owner != -1) return 16 /* EBUSY */;
        s.owner = coop::self(); return 0;
    }
    REAL(pthread_mutex_trylock, m);
}
NOINSTR int pthread_mutex_unlock(pthread_mutex_t *m) { if (coop::active()) return coop::munlock(m); REAL(pthread_mutex_unlock, m); }
NOINSTR int pthread_mutex_destroy(pthread_mutex_t *m) { if (coop::S) { coop::Quiet q; coop::S->mutexes.erase(m); return 0; } REAL(pthread_mutex_destroy, m); }
NOINSTR int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (coop::active()) return coop::cwait(c, m); REAL(pthread_cond_wait, c, m); }
NOINSTR int pthread_cond_signal(pthread_cond_t *c) noexcept { if (coop::active()) return coop::cnotify(c, false); REAL(pthread_cond_signal, c); }
NOINSTR int pthread_cond_broadcast(pthread_cond_t *c) noexcept { if (coop::active()) return coop::cnotify(c, true); REAL(pthread_cond_broadcast, c); }
NOINSTR int pthread_cond_destroy(pthread_cond_t *c) noexcept { if (coop::S) { coop::Quiet q; coop::S->conds.erase(c); return 0; } REAL(pthread_cond_destroy, c); }
NOINSTR int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void*), void *arg) noexcept {
    if (coop::active()) {
        coop::yield();                       // another thread may run before the new one exists
        int i = coop::S->add([fn, arg]{ fn(arg); }, true);
        *t = pthread_t(0x100000 + i);
        coop::yield();
        return 0;
    }
    REAL(pthread_create, t, a, fn, arg);
}
NOINSTR int pthread_join(pthread_t t, void **r) {
    if (coop::active()) { size_t i = t - 0x100000; coop::wait_until([i]{ return coop::S->fibers[i]->state == coop::DONE; }); return 0; }
    REAL(pthread_join, t, r);
}
NOINSTR int pthread_detach(pthread_t t) noexcept { if (coop::active()) return 0; REAL(pthread_detach, t); }
NOINSTR int pthread_once(pthread_once_t *o, void (*fn)(void)) {
    if (coop::active()) {   // no scheduling point here: the callable is in a variable of the thread, which fibers share
        if (*o == 2) return 0;
        if (*o == 1) { coop::wait_until([o]{ return *o == 2; }); return 0; }
        *o = 1; fn(); *o = 2;
        return 0;
    }
    REAL(pthread_once, o, fn);
}
NOINSTR int pthread_rwlock_wrlock(pthread_rwlock_t *l) noexcept {
    if (coop::active()) { coop::yield(); auto &s = coop::S->rws[l]; coop::wait_until([&s]{ return s.writer == -1 and s.readers == 0; }); s.writer = coop::self(); return 0; }
    REAL(pthread_rwlock_wrlock, l);
}
NOINSTR int pthread_rwlock_rdlock(pthread_rwlock_t *l) noexcept {
    if (coop::active()) { coop::yield(); auto &s = coop::S->rws[l]; coop::wait_until([&s]{ return s.writer == -1; }); ++s.readers; return 0; }
    REAL(pthread_rwlock_rdlock, l);
}
NOINSTR int pthread_rwlock_unlock(pthread_rwlock_t *l) noexcept {
    if (coop::active()) { auto &s = coop::S->rws[l]; if (s.writer != -1) s.writer = -1; else --s.readers; coop::yield(); return 0; }
    REAL(pthread_rwlock_unlock, l);
}
#undef REAL

#ifdef PCOOP_MEMORY
#define P(...) coop::mem_point()
NOINSTR void __tsan_init() {}
NOINSTR void __tsan_func_entry(void*) {}
NOINSTR void __tsan_func_exit() {}
NOINSTR void __tsan_ignore_thread_begin() {}
NOINSTR void __tsan_ignore_thread_end() {}
#define RW(n) NOINSTR void __tsan_read##n(void*) { P(); } NOINSTR void __tsan_write##n(void*) { P(); } \
    NOINSTR void __tsan_unaligned_read##n(void*) { P(); } NOINSTR void __tsan_unaligned_write##n(void*) { P(); } \
    NOINSTR void __tsan_read_write##n(void*) { P(); } NOINSTR void __tsan_unaligned_read_write##n(void*) { P(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
NOINSTR void __tsan_read_range(void*, size_t) { P(); }
NOINSTR void __tsan_write_range(void*, size_t) { P(); }
NOINSTR void __tsan_vptr_update(void**, void*) { P(); }
NOINSTR void __tsan_vptr_read(void**) { P(); }
NOINSTR void * __tsan_memcpy(void *d, const void *s, size_t n) { P(); return memcpy(d, s, n); }
NOINSTR void * __tsan_memmove(void *d, const void *s, size_t n) { P(); return memmove(d, s, n); }
NOINSTR void * __tsan_memset(void *d, int c, size_t n) { P(); return memset(d, c, n); }
#define AT(n, T) \
    NOINSTR T __tsan_atomic##n##_load(const volatile T *a, int) { P(); return *a; } \
    NOINSTR void __tsan_atomic##n##_store(volatile T *a, T v, int) { P(); *a = v; } \
    NOINSTR T __tsan_atomic##n##_exchange(volatile T *a, T v, int) { P(); T o = *a; *a = v; return o; } \
    NOINSTR T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int) { P(); T o = *a; *a = o + v; return o; } \
    NOINSTR T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int) { P(); T o = *a; *a = o - v; return o; } \
    NOINSTR T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int) { P(); T o = *a; *a = o & v; return o; } \
    NOINSTR T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int) { P(); T o = *a; *a = o | v; return o; } \
    NOINSTR T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int) { P(); T o = *a; *a = o ^ v; return o; } \
    NOINSTR int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { P(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    NOINSTR int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { P(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    NOINSTR T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T c, T v, int, int) { P(); T o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
NOINSTR void __tsan_atomic_thread_fence(int) { P(); }
NOINSTR void __tsan_atomic_signal_fence(int) {}
#undef P
#endif
}
