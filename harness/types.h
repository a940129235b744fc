// Reflected types shared by the core harnesses.
#pragma once
#include "sym.h"
#include "reflect.h"
#include "dsl/all.h"
#include "types/primitives.h"
#include "types/reflect/value.h"
#include "types/reflect/type.h"
#include "types/std/string.h"
#include <string>
#include <vector>

namespace ht {

// every live instance carries the magic; using a dead or never constructed one fails the check
struct Counted
{
    enum { Magic = 0x600DC0DE, Dead = 0x0DEADDED };
    static long live, copies, moves;
    unsigned magic;
    Counted() : magic(Magic) { live++; }
    Counted(const Counted& o) : magic(Magic) { o.check(); live++; copies++; }
    Counted(Counted&& o) : magic(Magic) { o.check(); live++; moves++; }
    Counted& operator=(const Counted& o) { check(); o.check(); copies++; return *this; }
    Counted& operator=(Counted&& o) { check(); o.check(); moves++; return *this; }
    ~Counted() { check(); magic = Dead; live--; }
    void check() const { sym_check(magic == Magic, "object used outside of its lifetime"); }
};
long Counted::live = 0;
long Counted::copies = 0;
long Counted::moves = 0;

struct P : Counted
{
    int64_t p;
    P() : p(0) {}
    explicit P(int64_t v) : p(v) {}
    P(const P& o) : Counted(o), p(o.p) {}
    P(P&& o) : Counted(std::move(o)), p(o.p) { o.p = -1; }
    P& operator=(const P& o) { Counted::operator=(o); p = o.p; return *this; }
    P& operator=(P&& o) { Counted::operator=(std::move(o)); p = o.p; if (&o != this) o.p = -1; return *this; }
    int64_t get() const { check(); return p; }
    void set(int64_t v) { check(); p = v; }
    int64_t who() const { return 1; }
};
struct C : P
{
    int64_t c;
    C() : c(0) {}
    C(int64_t v, int64_t w) : P(v), c(w) {}
    C(const C& o) : P(o), c(o.c) {}
    C(C&& o) : P(std::move(o)), c(o.c) { o.c = -1; }
    C& operator=(const C& o) { P::operator=(o); c = o.c; return *this; }
    C& operator=(C&& o) { P::operator=(std::move(o)); c = o.c; if (&o != this) o.c = -1; return *this; }
    int64_t getc() const { check(); return c; }
    int64_t who() const { return 2; }
};
struct G : C
{
    int64_t g;
    G() : g(0) {}
    int64_t who() const { return 3; }
};
struct U : Counted          // unrelated
{
    int64_t u;
    U() : u(0) {}
};
struct X                    // convertible to P and int
{
    int64_t x;
    X() : x(0) {}
    explicit X(int64_t v) : x(v) {}
    operator P() const { return P(x); }
    operator int() const { return int(x); }
};
struct NoCopy : Counted     // movable only
{
    int64_t v;
    NoCopy() : v(0) {}
    explicit NoCopy(int64_t v) : v(v) {}
    NoCopy(const NoCopy&) = delete;
    NoCopy& operator=(const NoCopy&) = delete;
    NoCopy(NoCopy&& o) : Counted(std::move(o)), v(o.v) { o.v = -1; }
    NoCopy& operator=(NoCopy&& o) { Counted::operator=(std::move(o)); v = o.v; if (&o != this) o.v = -1; return *this; }
};
struct NoMove : Counted     // copyable only
{
    int64_t v;
    NoMove() : v(0) {}
    NoMove(const NoMove& o) : Counted(o), v(o.v) {}
    NoMove& operator=(const NoMove& o) { Counted::operator=(o); v = o.v; return *this; }
};
struct Neither : Counted
{
    int64_t v;
    Neither() : v(0) {}
    Neither(const Neither&) = delete;
    Neither& operator=(const Neither&) = delete;
};

} // namespace ht

reflectType(ht::P)
{
    reflectPlumbing(); reflectAlloc();
    reflectField(p);
    reflectFn(get); reflectFn(set); reflectFn(who);
}
reflectType(ht::C)
{
    reflectParent(ht::P);
    reflectPlumbing(); reflectAlloc();
    reflectField(c);
    reflectFn(getc); reflectFn(who);
}
reflectType(ht::G)
{
    reflectParent(ht::C);
    reflectPlumbing();
    reflectField(g);
    reflectFn(who);
}
reflectType(ht::U) { reflectPlumbing(); reflectField(u); }
reflectType(ht::X) { reflectPlumbing(); reflectField(x); reflectOpCast(ht::P); reflectOpCast(int); }
reflectType(ht::NoCopy) { reflectPlumbing(); reflectField(v); }
reflectType(ht::NoMove) { reflectPlumbing(); reflectField(v); }
reflectType(ht::Neither) { reflectPlumbing(); reflectField(v); }

// runs fn and tells whether it raised a reflection error
template<typename Fn>
bool raises(const Fn& fn)
{
    try { fn(); } catch (const reflect::Error&) { return true; }
    return false;
}

// loads every type before the first choice so that the exploration shares the work
inline void preload()
{
    using namespace reflect;
    type<ht::P>(); type<ht::C>(); type<ht::G>(); type<ht::U>(); type<ht::X>(); type<Value>(); type<ht::P*>(); type<ht::C*>(); type<ht::U*>(); type<int*>();
    type<ht::NoCopy>(); type<ht::NoMove>(); type<ht::Neither>(); type<int>(); type<long>(); type<bool>(); type<double>(); type<std::string>(); type<void>();
    Argument::make<int>().isConvertibleTo(Argument::make<long>());
}
