// Construction, copy and move of classes with every combination of support.
// @check C22 libs=core,prims,std entries=prop_construct,prop_assign,prop_alloc,prop_values,prop_cons quick= thorough=
// @bounds C22 13 combinations of copy/move construction/assignment, two of them also without default construction (15 classes; assignable classes that can neither be copy nor move constructed do not compile) a class without declared move operations, a class without constructors and scalars; arguments given as mutable, const, r-value and const r-value; arbitrary 64 bit contents
#include "types.h"
#include <bits/enable_special_members.h>
using namespace reflect;
using namespace ht;

namespace ht {
enum { CC = 1, CA = 2, MC = 4, MA = 8, ND = 16 };
template<unsigned F> struct K : P, std::_Enable_copy_move<bool(F & CC), bool(F & CA), bool(F & MC), bool(F & MA), K<F>>, std::_Enable_default_constructor<!(F & ND), K<F>>
{
    typedef std::_Enable_default_constructor<!(F & ND), K<F>> D;
    K() = default;
    K(int64_t v) : P(v), D(std::_Enable_default_constructor_tag{}) {}
    K(const K&) = default; K(K&&) = default;
    K& operator=(const K&) = default; K& operator=(K&&) = default;
};
struct Plain { int64_t x; int y; void* z; double d; bool b; };
struct Cons : P { int64_t a, b; Cons() = default; Cons(int64_t a) : P(a), a(a), b(0) {} Cons(P& p, const P& q, P&& r) : P(std::move(r)), a(p.p), b(q.p) { p.p = 77; } };
}
namespace reflect {
template<unsigned F> struct Reflect<ht::K<F>>
{
    typedef ht::K<F> T_;
    static std::string id() { return std::string("ht::K") + char('a' + F); }
    reflectTemplateLoader()
    static void reflect(Type* type_) { reflectPlumbing(); reflectAllocPlumbing(); }
};
}
reflectType(ht::Plain) { reflectPlumbing(); reflectAllocPlumbing(); }
reflectType(ht::Cons) { reflectPlumbing(); reflectCons(int64_t); reflectCons(ht::P&, const ht::P&, ht::P&&); }

namespace {
struct Case
{
    const Type* t; bool d, cc, ca, mc, ma;                     // as C++ sees it: an r-value is copied when there is no move operation
    bool mvc, mva;                                // real move operations
    Value x, y;                                   // mutable references to two objects
    P *px, *py;
};
template<unsigned F> void use(Case& c, int64_t a, int64_t b)
{
    typedef K<F> T;
    T* x = new T(a); T* y = new T(b);
    c = Case{ type<T>(), std::is_default_constructible<T>::value, std::is_copy_constructible<T>::value, std::is_copy_assignable<T>::value,
              std::is_move_constructible<T>::value, std::is_move_assignable<T>::value, bool(F & MC), bool(F & MA), Value(*x), Value(*y), x, y };
}
Case pick(int64_t a, int64_t b)
{
    Case c;
    enum { Base = __COUNTER__ + 1 };
    switch (sym_choose(15, "class")) {
#define U(f) case __COUNTER__ - Base: use<f>(c, a, b); break;
    U(0) U(1) U(3) U(4) U(5) U(6) U(7) U(9) U(11) U(12) U(13) U(14) U(15)
#undef U
    case 13: use<31>(c, a, b); break;
    default: use<20>(c, a, b); break;
    }
    return c;
}
enum How { LV, CLV, RV, CRV };
Value arg(const Case& c, unsigned how, const Value& y)
{
    if (how == LV) return y;
    if (how == RV) return y.rvalue();
    Value k = y.toConst();                       // const r-value
    return k;
}
void done(Case& c, bool xc = true) { delete c.px; delete c.py; }
void loadAll() { int64_t z = 0; (void) z; preload(); type<Cons>(); type<Plain>(); type<Plain*>();
#define U(f) type<K<f>>();
    U(0) U(1) U(3) U(4) U(5) U(6) U(7) U(9) U(11) U(12) U(13) U(14) U(15) U(31) U(20)
#undef U
}
int64_t content(const Value& v) { P& p = *(P*)v.value(); p.check(); return p.p; }
}

extern "C" void prop_construct()
{
    loadAll();
    long live = Counted::live;
    int64_t a = sym_i64("a"), b = sym_i64("b");
    sym_assume(a != -1 && b != -1);
    {
        Case c = pick(a, b);
        sym_check(c.t->isCopiable() == (c.cc && c.mc) && c.t->isMovable() == c.mc, "copiable and movable");
        unsigned how = sym_choose(5, "argument");
        Value r; bool err;
        long copies = Counted::copies;
        if (how == 4) {
            err = raises([&] { r = c.t->construct(); });
            sym_check(err == !(c.d && c.mc), "default construction");
            if (!err) sym_check(r.isStored() && r.type() == c.t && content(r) == 0, "default constructed object");
            if (c.mvc) sym_check(Counted::copies == copies, "default construction copies nothing");
        } else {
            err = raises([&] { r = c.t->construct(arg(c, how, c.y)); });
            bool move = how == RV && c.mvc, copy = !move && c.cc && c.mc;
            sym_check(err == !(move || copy), "copy or move construction");
            sym_check(content(c.y) == (move ? -1 : b), "the source is only changed by a move");
            if (!err) sym_check(r.isStored() && r.value() != c.y.value() && r.type() == c.t && content(r) == b, "constructed object");
            if (c.mvc) sym_check(Counted::copies == copies + copy, "only the operation asked for");
            else sym_check((Counted::copies > copies) == copy, "only the operation asked for");
        }
        if (err) sym_check(r.isVoid(), "no result");
        sym_check(content(c.x) == a, "other objects are unchanged");
        r = Value();
        done(c);
    }
    sym_check(Counted::live == live, "everything is released");
}
extern "C" void prop_assign()
{
    loadAll();
    long live = Counted::live;
    int64_t a = sym_i64("a"), b = sym_i64("b");
    sym_assume(a != -1 && b != -1);
    {
        Case c = pick(a, b);
        unsigned how = sym_choose(3, "argument"), target = sym_choose(3, "target");
        how = how == 1 ? unsigned(CRV) : how;
        long copies = Counted::copies, moves = Counted::moves;
        Value t = target == 0 ? c.x : target == 1 ? c.x.toConst() : c.x.rvalue();
        Value s = arg(c, how, c.y);
        bool err = raises([&] { t.assign(s); });
        bool move = how == RV && c.mva, copy = !move && c.ca, ok = target == 0 && (move || copy);
        sym_check(err == !ok, "copy or move assignment");
        sym_check(content(c.x) == (ok ? b : a), "target of the assignment");
        int64_t left = content(c.y);
        if (how == RV && ok && c.mvc != c.mva) sym_check(left == -1 || left == b, "source of an r-value assignment");       // goes through a temporary
        else sym_check(left == (ok && move ? -1 : b), "the source is only changed by a move");
        if (how != RV || !ok) sym_check(Counted::copies == copies + ok && Counted::moves == moves, "only the operation asked for");
        else if (c.mvc && c.mva) sym_check(Counted::copies == copies && Counted::moves > moves, "only the operation asked for");
        done(c);
    }
    sym_check(Counted::live == live, "everything is released");
}
extern "C" void prop_alloc()
{
    loadAll();
    long live = Counted::live;
    int64_t a = sym_i64("a"), b = sym_i64("b");
    sym_assume(a != -1 && b != -1);
    {
        Case c = pick(a, b);
        unsigned how = sym_choose(4, "argument");
        long copies = Counted::copies, moves = Counted::moves;
        Value r; bool ok, move = false, copy = false, err;
        if (how == 3) { err = raises([&] { r = c.t->alloc(); }); ok = c.d; }
        else {
            err = raises([&] { r = c.t->call<Value>("new", arg(c, how == 1 ? unsigned(CRV) : how, c.y)); });
            move = how == RV && c.mvc; copy = !move && c.cc; ok = move || copy;
        }
        sym_check(err == !ok, "allocation");
        sym_check(content(c.y) == (move ? -1 : b), "the source is only changed by a move");
        if (ok) {
            if (how == RV && !move) sym_check(Counted::copies > copies && Counted::moves == moves, "only the operation asked for");
            else sym_check(Counted::copies == copies + copy && (Counted::moves > moves) == move, "only the operation asked for");
            sym_check(r.type()->isPointer() && r.type()->pointee() == c.t && bool(r), "pointer to the new object");
            P* p = *(P**)r.value();
            p->check();
            sym_check(p != c.py && p != c.px && p->p == (how == 3 ? 0 : b), "allocated object");
            delete p;
        }
        done(c);
    }
    sym_check(Counted::live == live, "everything is released");
}
extern "C" void prop_values()
{
    loadAll();
    long live = Counted::live;
    int64_t a = sym_i64("a"), b = sym_i64("b");
    sym_assume(a != -1 && b != -1);
    {
        Case c = pick(a, b);
        unsigned op = sym_choose(2, "op"), how = sym_choose(3, "held");
        Value v = how == 0 ? c.y : how == 1 ? c.y.toConst() : c.y.rvalue(), w = v;
        Value r;
        if (op == 0) {
            bool err = raises([&] { r = v.copy(); });
            sym_check(err == !(c.cc && c.mc), "deep copy");
            sym_check(content(c.y) == b && v.value() == w.value() && v.type() == c.t && v.isConst() == w.isConst() && v.refType() == w.refType(), "copying changes nothing");
            if (!err) sym_check(r.isStored() && r.value() != c.py && content(r) == b && !r.isConst(), "copied object");
        } else {
            bool move = how != 1 && c.mvc, copy = !move && c.cc && c.mc;
            bool err = raises([&] { r = v.move(); });
            sym_check(err == !(move || copy), "deep move");
            sym_check(content(c.y) == (move ? -1 : b), "moved from object");
            if (err) sym_check(r.isVoid() && v.value() == w.value() && v.type() == c.t && v.isConst() == w.isConst() && v.refType() == w.refType(), "a refused move changes nothing");
            else sym_check(v.isVoid() && r.isStored() && content(r) == b, "moved object");
        }
        r = Value();
        done(c);
    }
    sym_check(Counted::live == live, "everything is released");
}
extern "C" void prop_cons()
{
    loadAll();
    long live = Counted::live;
    {
        int64_t a = sym_i64("a"), b = sym_i64("b"), d = sym_i64("d");
        const Type* t = type<Cons>();
        P p(a), q(b), r(d);
        long copies = Counted::copies;
        switch (sym_choose(8, "how")) {
        case 0: {
            Value v = t->construct(p, q, std::move(r)); const Cons& c = v.get<Cons>();
            sym_check(v.isStored() && c.p == d && c.a == a && c.b == b, "constructor arguments");
            sym_check(p.p == 77 && q.p == b && r.p == -1 && Counted::copies == copies, "arguments of a constructor");
            break;
        }
        case 1: {
            Value vp(p), vq(q), vr(r);
            Value v = t->construct(vp, vq.toConst(), vr.rvalue()); const Cons& c = v.get<Cons>();
            sym_check(v.isStored() && c.p == d && c.a == a && c.b == b && p.p == 77 && q.p == b && r.p == -1 && Counted::copies == copies, "constructor arguments given as values");
            break;
        }
        case 2: { Value v = t->construct(a); sym_check(v.get<Cons>().a == a && v.get<Cons>().p == a, "constructor"); break; }
        case 3: {
            const P& cp = p;
            sym_check(raises([&] { t->construct(cp, q, std::move(r)); }) && raises([&] { t->construct(p, q, r); }) && raises([&] { t->construct(p, q); }) && raises([&] { t->construct(true); }), "arguments no constructor accepts");
            sym_check(p.p == a && q.p == b && r.p == d, "refused arguments are unchanged");
            break;
        }
        case 4: {
            Value v = type<Plain>()->construct(); Plain& z = v.as<Plain>();
            sym_check(z.x == 0 && z.y == 0 && !z.z && z.d == 0 && !z.b, "a class without constructor is initialised");
            z = Plain{ a, int(b), &p, 1, true };
            Value w = v.copy(); const Plain& y = w.get<Plain>();
            sym_check(y.x == a && y.y == int(b) && y.z == &p && y.d == 1 && y.b, "copy of a class without constructor");
            break;
        }
        case 5: {
            Value v = type<Plain>()->alloc(); Plain* z = v.get<Plain*>();
            sym_check(z->x == 0 && z->y == 0 && !z->z && z->d == 0 && !z->b, "an allocated class without constructor is initialised");
            Plain k = { a, int(b), &p, 1, true };
            Value w = type<Plain>()->call<Value>("new", k); Plain* y = w.get<Plain*>();
            sym_check(y != z && y->x == a && y->y == int(b) && y->z == &p && y->d == 1 && y->b, "allocated copy of a class without constructor");
            delete z; delete y;
            break;
        }
        case 6: {
            Value i = type<int>()->construct(), l = type<int64_t>()->construct(), f = type<double>()->construct(), o = type<bool>()->construct(), q = type<P*>()->construct();
            sym_check(i.get<int>() == 0 && l.get<int64_t>() == 0 && f.get<double>() == 0 && !o.get<bool>() && !q.get<P*>(), "default constructed scalars are zero");
            break;
        }
        default: {
            Value v = type<NoMove>()->construct();
            NoMove n; n.v = a;
            Value c = type<NoMove>()->construct(n), m = type<NoMove>()->construct(std::move(n));
            sym_check(c.get<NoMove>().v == a && m.get<NoMove>().v == a && n.v == a && v.get<NoMove>().v == 0, "a class without move operations is copied");
            sym_check(type<NoMove>()->isCopiable() && type<NoMove>()->isMovable() && !type<Neither>()->isMovable() && !type<Neither>()->isCopiable() && raises([&] { type<Neither>()->construct(); }), "a class which can only be built in place");
            break;
        }
        }
    }
    sym_check(Counted::live == live, "everything is released");
}
