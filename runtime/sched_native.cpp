// Controlled scheduler of the native replay of schedules: one thread runs at a time and the others wait for a token.
// This file is compiled without -fsanitize=thread, so that handing over the token orders nothing in the eyes of the
// thread sanitizer: what it reports is what the code's own synchronisation leaves unordered in that schedule.
//   SYM_SCHED="c0,c1,.../k:c,k:c..."   the choices at forced switches (thread blocked, joined or ended), then the
//                                      preemptions: at the k-th scheduling point switch to the c-th other runnable thread
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <sys/syscall.h>

namespace {
enum { MAXT = 16 };
volatile int token = 0;
int nth = 1, active = -1;
int state[MAXT];                  // 0 runnable, 1 ended
int joining[MAXT];                // thread waited for, or 0
const volatile void* blocked[MAXT];        // lock waited for
long points = 0; long spin = 0;
int forced[64], nforced = 0, fpos = 0;
struct Pre { long k; int c; } pre[16]; int npre = 0;
pthread_t ids[MAXT];
struct Arg { void (*f)(void*); void* a; int t; } args[MAXT];
__thread int me = 0;
const void* guards[4096]; int nguards = 0;
struct { const void* g; int t; } busy[64]; int nbusy = 0;

void init() {
    active = 0;
    const char* s = getenv("SYM_SCHED");
    if (!s) return;
    active = 1;
    while (*s && *s != '/') { forced[nforced++] = strtol(s, (char**)&s, 10); if (*s == ',') s++; if (nforced == 64) break; }
    if (*s == '/') s++;
    while (*s && npre < 16) {
        pre[npre].k = strtol(s, (char**)&s, 10); if (*s == ':') s++;
        pre[npre].c = strtol(s, (char**)&s, 10); if (*s == ',') s++;
        npre++;
    }
}
bool on() { if (active < 0) init(); return active == 1 && nth > 1; }
bool runnable(int t) { return state[t] == 0 && !blocked[t] && (!joining[t] || state[joining[t]] == 1); }
void waitToken() { while (__atomic_load_n(&token, __ATOMIC_ACQUIRE) != me) syscall(SYS_sched_yield); }
int others(int* r) { int n = 0; for (int t = 0; t < nth; t++) if (t != me && runnable(t)) r[n++] = t; return n; }
void give(int t, bool wait) { spin = 0; __atomic_store_n(&token, t, __ATOMIC_RELEASE); if (wait) waitToken(); }
void forcedSwitch(bool wait) {
    int r[MAXT], n = others(r);
    if (!n) {
        if (wait && runnable(me)) return;
        for (int t = 0; t < nth; t++) if (state[t] == 0) { fprintf(stderr, "SCHED: deadlock\n"); _exit(47); }
        return;
    }
    int c = nforced ? forced[fpos++ % nforced] : 0;
    give(r[c % n], wait);
}
void point() {
    if (!on()) return;
    long k = points++;
    int r[MAXT], n = others(r);
    if (!n) return;
    for (int i = 0; i < npre; i++) if (pre[i].k == k) { give(r[pre[i].c % n], true); return; }
    if (++spin > 100000) forcedSwitch(true);       // busy waiting
}
void wake(const volatile void* l) { for (int t = 0; t < nth; t++) if (blocked[t] == l) blocked[t] = 0; }
void block(const volatile void* l) { blocked[me] = l; forcedSwitch(true); }
void* tmain(void* p) {
    Arg* a = (Arg*)p; me = a->t; waitToken();
    a->f(a->a);
    state[me] = 1;
    forcedSwitch(false);
    return 0;
}

}
extern "C" {
void sched_stat(void) { if (active == 1) fprintf(stderr, "SCHED points %ld\n", points); }
int sched_create(void (*f)(void*), void* a) {
    on();
    if (active != 1) return -1;
    int t = nth; args[t].f = f; args[t].a = a; args[t].t = t;
    nth++;
    pthread_create(&ids[t], 0, tmain, &args[t]);
    return t;
}
int sched_join(int t) {
    if (active != 1) return -1;
    joining[me] = t;
    if (state[t] != 1) forcedSwitch(true);
    joining[me] = 0;
    pthread_join(ids[t], 0);
    return 0;
}
void sched_yield_point(void) { if (on()) forcedSwitch(true); }

#define LOCK(NAME, TRY, T) \
    int __real_##NAME(T*); int __real_##TRY(T*); \
    int __wrap_##NAME(T* m) { if (!on()) return __real_##NAME(m); point(); while (__real_##TRY(m)) block(m); return 0; } \
    int __wrap_##TRY(T* m) { point(); return __real_##TRY(m); }
#define UNLOCK(NAME, T) \
    int __real_##NAME(T*); \
    int __wrap_##NAME(T* m) { int r = __real_##NAME(m); if (active == 1) wake(m); return r; }
LOCK(pthread_mutex_lock, pthread_mutex_trylock, pthread_mutex_t)
UNLOCK(pthread_mutex_unlock, pthread_mutex_t)
LOCK(pthread_rwlock_rdlock, pthread_rwlock_tryrdlock, pthread_rwlock_t)
LOCK(pthread_rwlock_wrlock, pthread_rwlock_trywrlock, pthread_rwlock_t)
UNLOCK(pthread_rwlock_unlock, pthread_rwlock_t)
LOCK(pthread_spin_lock, pthread_spin_trylock, volatile int)
UNLOCK(pthread_spin_unlock, volatile int)

int __real___cxa_guard_acquire(int64_t*); void __real___cxa_guard_release(int64_t*); void __real___cxa_guard_abort(int64_t*);
int __wrap___cxa_guard_acquire(int64_t* g) {
    bool seen = false;
    for (int i = 0; i < nguards; i++) if (guards[i] == g) seen = true;
    if (!seen && nguards < 4096) guards[nguards++] = g;
    if (on()) {
        point();
        for (bool again = true; again;) {
            again = false;
            for (int i = 0; i < nbusy; i++) if (busy[i].g == g && busy[i].t != me) { block(g); again = true; break; }
        }
    }
    int r = __real___cxa_guard_acquire(g);
    if (r && nbusy < 64) { busy[nbusy].g = g; busy[nbusy].t = me; nbusy++; }
    return r;
}
static void guardDone(int64_t* g) {
    for (int i = 0; i < nbusy; i++) if (busy[i].g == g) { busy[i] = busy[--nbusy]; break; }
    if (active == 1) wake(g);
}
void __wrap___cxa_guard_release(int64_t* g) { __real___cxa_guard_release(g); guardDone(g); }
void __wrap___cxa_guard_abort(int64_t* g) { __real___cxa_guard_abort(g); guardDone(g); }
static void apoint(const volatile void* p) {
    if (!on()) return;
    for (int i = 0; i < nguards; i++) if (guards[i] == p) return;
    point();
}
#define RMW(N, T, OP) \
    T __real___tsan_atomic##N##_##OP(volatile T*, T, int); \
    T __wrap___tsan_atomic##N##_##OP(volatile T* p, T v, int o) { apoint(p); return __real___tsan_atomic##N##_##OP(p, v, o); }
#define CAS(N, T, K) \
    int __real___tsan_atomic##N##_compare_exchange_##K(volatile T*, T*, T, int, int); \
    int __wrap___tsan_atomic##N##_compare_exchange_##K(volatile T* p, T* c, T v, int o, int f) { apoint(p); return __real___tsan_atomic##N##_compare_exchange_##K(p, c, v, o, f); }
#define ATOMICS(N, T) \
    T __real___tsan_atomic##N##_load(const volatile T*, int); \
    T __wrap___tsan_atomic##N##_load(const volatile T* p, int o) { apoint(p); return __real___tsan_atomic##N##_load(p, o); } \
    void __real___tsan_atomic##N##_store(volatile T*, T, int); \
    void __wrap___tsan_atomic##N##_store(volatile T* p, T v, int o) { apoint(p); __real___tsan_atomic##N##_store(p, v, o); } \
    RMW(N, T, exchange) RMW(N, T, fetch_add) RMW(N, T, fetch_sub) RMW(N, T, fetch_and) RMW(N, T, fetch_or) RMW(N, T, fetch_xor) RMW(N, T, fetch_nand) \
    CAS(N, T, strong) CAS(N, T, weak)
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)
}
