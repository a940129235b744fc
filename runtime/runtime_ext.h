// Further C and C++ library functions, so that code which reaches for one of them can still be executed.
// Included by runtime.cpp.
extern "C" {
double sym_libm(int op, double a, double b);

int isblank(int c) { return c == ' ' || c == '\t'; }
int isascii(int c) { return c >= 0 && c < 128; }
char* x_strchr(const char*, int) __asm__("strchr");
char* x_strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
char* x_strchrnul(const char*, int) __asm__("strchrnul");
char* x_strchrnul(const char* s, int c) { for (;; s++) if (*s == (char)c || !*s) return (char*)s; }
char* x_strrchr(const char*, int) __asm__("strrchr");
char* x_strrchr(const char* s, int c) { const char* r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
void* x_memrchr(const void*, int, size_t) __asm__("memrchr");
void* x_memrchr(const void* p, int c, size_t n) { const char* s = (const char*)p; while (n-- > 0) if (s[n] == (char)c) return (void*)(s + n); return nullptr; }
void* x_rawmemchr(const void*, int) __asm__("rawmemchr");
void* x_rawmemchr(const void* p, int c) { const char* s = (const char*)p; for (;; s++) if (*s == (char)c) return (void*)s; }
size_t strnlen(const char* s, size_t n) { size_t k = 0; while (k < n && s[k]) k++; return k; }
int strncmp(const char* a, const char* b, size_t n) {
    for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1; if (!a[i]) return 0; }
    return 0;
}
int strcasecmp(const char* a, const char* b) {
    for (;; a++, b++) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y) return x < y ? -1 : 1; if (!x) return 0; }
}
int strncasecmp(const char* a, const char* b, size_t n) {
    for (; n > 0; n--, a++, b++) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y) return x < y ? -1 : 1; if (!x) return 0; }
    return 0;
}
void* memmem(const void* p, size_t n, const void* q, size_t m) {
    const char* s = (const char*)p; const char* t = (const char*)q;
    for (size_t i = 0; i + m <= n; i++) { size_t k = 0; while (k < m && s[i + k] == t[k]) k++; if (k == m) return (void*)(s + i); }
    return nullptr;
}
char* x_strstr(const char*, const char*) __asm__("strstr");
char* x_strstr(const char* s, const char* t) {
    for (;; s++) { size_t k = 0; while (t[k] && s[k] == t[k]) k++; if (!t[k]) return (char*)s; if (!*s) return nullptr; }
}
static bool inSet(const char* set, char c) { for (; *set; set++) if (*set == c) return true; return false; }
size_t strspn(const char* s, const char* a) { size_t k = 0; while (s[k] && inSet(a, s[k])) k++; return k; }
size_t strcspn(const char* s, const char* a) { size_t k = 0; while (s[k] && !inSet(a, s[k])) k++; return k; }
char* x_strpbrk(const char*, const char*) __asm__("strpbrk");
char* x_strpbrk(const char* s, const char* a) { s += strcspn(s, a); return *s ? (char*)s : nullptr; }
char* stpcpy(char* d, const char* s) { for (;; d++, s++) { *d = *s; if (!*s) return d; } }
char* strcpy(char* d, const char* s) { stpcpy(d, s); return d; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { stpcpy(d + strlen(d), s); return d; }
char* strncat(char* d, const char* s, size_t n) { char* e = d + strlen(d); size_t i = 0; for (; i < n && s[i]; i++) e[i] = s[i]; e[i] = 0; return d; }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)malloc(n); for (size_t i = 0; i < n; i++) p[i] = s[i]; return p; }
char* strndup(const char* s, size_t k) { size_t n = strnlen(s, k); char* p = (char*)malloc(n + 1); for (size_t i = 0; i < n; i++) p[i] = s[i]; p[n] = 0; return p; }
void* mempcpy(void* d, const void* s, size_t n) { for (size_t i = 0; i < n; i++) ((char*)d)[i] = ((const char*)s)[i]; return (char*)d + n; }
char* strtok_r(char* s, const char* a, char** save) {
    if (!s) s = *save;
    s += strspn(s, a);
    if (!*s) { *save = s; return nullptr; }
    char* e = s + strcspn(s, a);
    if (*e) *e++ = 0;
    *save = e;
    return s;
}
char* strerror(int) { return (char*)"error"; }

int atoi(const char* s) { return (int)strtol(s, nullptr, 10); }
long atol(const char* s) { return strtol(s, nullptr, 10); }
long long atoll(const char* s) { return strtoll(s, nullptr, 10); }
double atof(const char* s) { return strtod(s, nullptr); }
float strtof(const char* s, char** e) { return (float)strtod(s, e); }
div_t div(int a, int b) { div_t r; r.quot = a / b; r.rem = a % b; return r; }
ldiv_t ldiv(long a, long b) { ldiv_t r; r.quot = a / b; r.rem = a % b; return r; }
lldiv_t lldiv(long long a, long long b) { lldiv_t r; r.quot = a / b; r.rem = a % b; return r; }
int abs(int a) { return a < 0 ? -a : a; }
long labs(long a) { return a < 0 ? -a : a; }
long long llabs(long long a) { return a < 0 ? -a : a; }
char* getenv(const char*) { return nullptr; }

static void swapBytes(char* a, char* b, size_t n) { for (size_t i = 0; i < n; i++) { char t = a[i]; a[i] = b[i]; b[i] = t; } }
void qsort(void* p, size_t n, size_t sz, int (*cmp)(const void*, const void*)) {
    char* a = (char*)p;
    for (size_t i = 1; i < n; i++) for (size_t k = i; k > 0 && cmp(a + (k - 1) * sz, a + k * sz) > 0; k--) swapBytes(a + (k - 1) * sz, a + k * sz, sz);
}
void* bsearch(const void* key, const void* p, size_t n, size_t sz, int (*cmp)(const void*, const void*)) {
    const char* a = (const char*)p; size_t lo = 0, hi = n;
    while (lo < hi) { size_t m = lo + (hi - lo) / 2; int c = cmp(key, a + m * sz); if (c == 0) return (void*)(a + m * sz); if (c < 0) hi = m; else lo = m + 1; }
    return nullptr;
}

// exact for concrete operands, any double otherwise
double fmod(double a, double b) { return sym_libm(0, a, b); }
double pow(double a, double b) { return sym_libm(1, a, b); }
double exp(double a) { return sym_libm(2, a, 0); }
double log(double a) { return sym_libm(3, a, 0); }
double log2(double a) { return sym_libm(4, a, 0); }
double log10(double a) { return sym_libm(5, a, 0); }
double hypot(double a, double b) { return sym_libm(6, a, b); }
double nextafter(double a, double b) { return sym_libm(7, a, b); }
double ldexp(double a, int k) { return sym_libm(8, a, (double)k); }
double scalbn(double a, int k) { return sym_libm(8, a, (double)k); }
double cbrt(double a) { return sym_libm(9, a, 0); }
double sqrt(double a) { return sym_libm(10, a, 0); }
double exp2(double a) { return sym_libm(11, a, 0); }
double floor(double a) { return __builtin_floor(a); }
double ceil(double a) { return __builtin_ceil(a); }
double trunc(double a) { return __builtin_trunc(a); }
double round(double a) { return __builtin_round(a); }
double rint(double a) { return __builtin_rint(a); }
double nearbyint(double a) { return __builtin_nearbyint(a); }
double fabs(double a) { return __builtin_fabs(a); }
double modf(double a, double* ip) { double t = __builtin_trunc(a); *ip = t; return a - a != 0.0 ? (a != a ? a : __builtin_copysign(0.0, a)) : __builtin_copysign(a - t, a); }
long lround(double a) { return (long)__builtin_round(a); }
long lrint(double a) { return (long)__builtin_rint(a); }

// threads
int pthread_once(int* ctl, void (*fn)(void)) {
    if (__cxxabiv1::__cxa_guard_acquire((__cxxabiv1::__guard*)ctl)) {
        try { fn(); } catch (...) { __cxxabiv1::__cxa_guard_abort((__cxxabiv1::__guard*)ctl); throw; }
        __cxxabiv1::__cxa_guard_release((__cxxabiv1::__guard*)ctl);
    }
    return 0;
}
int sched_yield(void) { sym_yield(); return 0; }
int usleep(unsigned) { sym_yield(); return 0; }
int nanosleep(const struct timespec*, struct timespec*) { sym_yield(); return 0; }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) { return pthread_mutex_lock(m); }

// casts between classes (no virtual bases)
extern void* _ZTVN10__cxxabiv120__si_class_type_infoE[]; extern void* _ZTVN10__cxxabiv121__vmi_class_type_infoE[];
static void* findBase(char* p, const __cxxabiv1::__class_type_info* t, const __cxxabiv1::__class_type_info* want, const char* src, const __cxxabiv1::__class_type_info* srcT, bool& hasSrc) {
    void* found = nullptr; bool here = false;
    if (p == src && t == srcT) here = true;
    if (t == want) found = p;
    void** vt = *(void***)t;
    if (vt == _ZTVN10__cxxabiv120__si_class_type_infoE + 2) {
        void* r = findBase(p, ((const __cxxabiv1::__si_class_type_info*)t)->__base_type, want, src, srcT, here);
        if (!found) found = r;
    } else if (vt == _ZTVN10__cxxabiv121__vmi_class_type_infoE + 2) {
        auto v = (const __cxxabiv1::__vmi_class_type_info*)t;
        for (unsigned i = 0; i < v->__base_count; i++) {
            auto& b = v->__base_info[i];
            if (b.__offset_flags & 1) { sym_fail("dynamic_cast through a virtual base isn't modelled"); continue; }
            void* r = findBase(p + (b.__offset_flags >> 8), b.__base_type, want, src, srcT, here);
            if (!found) found = r;
        }
    }
    if (here) hasSrc = true;
    return found;
}
void* __dynamic_cast(const void* p, const __cxxabiv1::__class_type_info* srcT, const __cxxabiv1::__class_type_info* dst, ptrdiff_t) {
    void** vt = *(void***)p;
    char* whole = (char*)p + ((ptrdiff_t*)vt)[-2];
    bool has = false;
    return findBase(whole, (const __cxxabiv1::__class_type_info*)vt[-1], dst, (const char*)p, srcT, has);
}
void __cxa_bad_cast() { throw std::bad_cast(); }
void __cxa_bad_typeid() { throw std::bad_typeid(); }
void __once_proxy();
}
namespace std {
__thread void* __once_callable; __thread void (*__once_call)();
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* n = _M_next; _List_node_base* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* f, _List_node_base* l) noexcept {
    if (this == l) return;
    l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f;
    _List_node_base* t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
}
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
    if (x._M_next != &x) {
        if (y._M_next != &y) {
            _List_node_base* n = x._M_next; x._M_next = y._M_next; y._M_next = n; n = x._M_prev; x._M_prev = y._M_prev; y._M_prev = n;
            x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y;
        } else {
            y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x;
        }
    } else if (y._M_next != &y) {
        x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y;
    }
}
}
static pthread_mutex_t spLock = PTHREAD_MUTEX_INITIALIZER; // atomic operations on shared_ptr
_Sp_locker::_Sp_locker(const void*) noexcept : _M_key1(0), _M_key2(0) { pthread_mutex_lock(&spLock); }
_Sp_locker::_Sp_locker(const void*, const void*) noexcept : _M_key1(0), _M_key2(0) { pthread_mutex_lock(&spLock); }
_Sp_locker::~_Sp_locker() { pthread_mutex_unlock(&spLock); }
}
extern "C" void __once_proxy() { std::__once_call(); }
