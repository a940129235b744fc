// Native side of sym.h: replays recorded inputs through the real, natively compiled code.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <new>
#include <dlfcn.h>
#include <unistd.h>
#include <pthread.h>

static std::vector<std::pair<char, std::string>> in; static size_t pos = 0;
static long live = 0;
static const bool overrideNew =
#ifdef SYM_OWN_NEW
    true;
#else
    false;
#endif

#ifdef SYM_OWN_NEW
// what the initialisation of a function-local static allocates isn't counted: it happens once
static thread_local int inits = 0;
static const uint64_t InitOwned = 1ull << 32;
extern "C" int __cxa_guard_acquire(uint64_t* g) {
    auto real = (int (*)(uint64_t*))dlsym(RTLD_NEXT, "__cxa_guard_acquire");
    int r = real(g); if (r) inits++; return r;
}
extern "C" void __cxa_guard_release(uint64_t* g) {
    auto real = (void (*)(uint64_t*))dlsym(RTLD_NEXT, "__cxa_guard_release");
    inits--; real(g);
}
extern "C" void __cxa_guard_abort(uint64_t* g) {
    auto real = (void (*)(uint64_t*))dlsym(RTLD_NEXT, "__cxa_guard_abort");
    inits--; real(g);
}
static void* alloc(size_t n, uint64_t magic) {
    char* p = (char*)malloc(n + 16); if (!p) abort();
    if (inits) magic ^= InitOwned;
    else __atomic_add_fetch(&live, 1, __ATOMIC_RELAXED);
    ((uint64_t*)p)[0] = magic; ((uint64_t*)p)[1] = n; return p + 16;
}
static void rel(void* q, uint64_t magic, size_t n = ~(size_t)0) {
    if (!q) return;
    char* p = (char*)q - 16;
    bool own = ((uint64_t*)p)[0] == (magic ^ InitOwned);
    if (((uint64_t*)p)[0] != magic && !own) { fprintf(stderr, "alloc/dealloc mismatch\n"); _exit(43); }
    if (n != ~(size_t)0 && ((uint64_t*)p)[1] != n) { fprintf(stderr, "sized delete mismatch\n"); _exit(43); }
    if (!own) __atomic_sub_fetch(&live, 1, __ATOMIC_RELAXED);
    free(p);
}
static const uint64_t MN = 0x5ca1ab1e00000001ull, MA = 0x5ca1ab1e00000002ull;
void* operator new(size_t n) { return alloc(n, MN); }
void* operator new[](size_t n) { return alloc(n, MA); }
void operator delete(void* p) noexcept { rel(p, MN); }
void operator delete[](void* p) noexcept { rel(p, MA); }
void operator delete(void* p, size_t n) noexcept { rel(p, MN, n); }
void operator delete[](void* p, size_t) noexcept { rel(p, MA); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return alloc(n, MN); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return alloc(n, MA); }
void operator delete(void* p, const std::nothrow_t&) noexcept { rel(p, MN); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { rel(p, MA); }
#endif

static std::string take(char k) {
    if (pos >= in.size() || in[pos].first != k) { fprintf(stderr, "replay: input mismatch at %zu (want %c)\n", pos, k); _exit(78); }
    return in[pos++].second;
}
extern "C" {
void sym_bytes(void* p, size_t n, const char*) {
    std::string s = take('b');
    if (s.size() != 2 * n) { fprintf(stderr, "replay: input size mismatch\n"); _exit(78); }
    for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = (unsigned char)strtoul(s.substr(2 * i, 2).c_str(), nullptr, 16);
}
uint64_t sym_u(int, const char*) { return strtoull(take('i').c_str(), nullptr, 10); }
unsigned sym_choose(unsigned, const char*) { return strtoul(take('c').c_str(), nullptr, 10); }
void sym_assume(bool c) { if (!c) _exit(77); }
void sym_check(bool c, const char* m) { if (!c) { fflush(stdout); fprintf(stderr, "CHECK FAILED: %s\n", m); _exit(42); } }
void sym_fail(const char* m) { sym_check(false, m); }
void sym_cover(const char*) {}
void sym_expect(const char*) {}
void sym_obs(const char* name, const void* p, size_t n) {
    printf("%s ", name); for (size_t i = 0; i < n; i++) printf("%02x", ((const unsigned char*)p)[i]); printf("\n");
}
long sym_live(void) { return overrideNew ? live : 0; }
// the controlled scheduler (sched_native.cpp), linked into the thread sanitizer build only
int sched_create(void (*)(void*), void*) __attribute__((weak)); int sched_join(int) __attribute__((weak));
void sched_yield_point(void) __attribute__((weak)); void sched_stat(void) __attribute__((weak));
struct TArg { void (*f)(void*); void* a; };
static pthread_t th[16]; static int nth = 1;
static void* tmain(void* p) { TArg* t = (TArg*)p; t->f(t->a); return nullptr; }
int sym_thread_create(void (*fn)(void*), void* arg) { if (sched_create) { int k = sched_create(fn, arg); if (k > 0) return k; } TArg* t = (TArg*)malloc(sizeof(TArg)); t->f = fn; t->a = arg; pthread_create(&th[nth], nullptr, tmain, t); return nth++; }
void sym_thread_join(int t) { if (sched_join && sched_join(t) == 0) return; pthread_join(th[t], nullptr); }
void sym_yield(void) { if (sched_yield_point) sched_yield_point(); }
bool sym_is_concrete(uint64_t) { return true; }
uint64_t sym_conc(uint64_t v) { return v; }
int sym_undigits(const char*, size_t, uint64_t*) { return 0; }
int sym_digits(uint64_t v, char* b) { std::string s = std::to_string(v); memcpy(b, s.data(), s.size()); return s.size(); }
void sym_undef(void* p, size_t n) {
    // replace by genuinely uninitialised bytes so that memcheck sees them
    void* q = malloc(n ? n : 1); memcpy(p, q, n); free(q);
}
void sym_log(const char* s, uint64_t v) { fprintf(stderr, "%s %lu\n", s, v); }
bool sym_engine(void) { return false; }
double sym_fresh_double(void) { return 0; }
}
int main(int argc, char** argv) {
    if (argc < 3) return 79;
    FILE* f = fopen(argv[2], "r"); if (!f) return 79;
    char* line = nullptr; size_t cap = 0; ssize_t n;
    while ((n = getline(&line, &cap, f)) > 0) {
        if (line[n - 1] == '\n') line[n - 1] = 0;
        in.push_back({line[0], std::string(line + 2)});
    }
    free(line); fclose(f);
    if (auto su = (void (*)())dlsym(RTLD_DEFAULT, "sym_setup")) su();
    void (*e)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!e) { fprintf(stderr, "no entry %s\n", argv[1]); return 79; }
    live = 0;
    e();
    fflush(stdout);
    if (sched_stat) sched_stat();
    _exit(0);
}
