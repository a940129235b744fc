// Raw and smart pointers.
// @check C19 libs=core,prims,std entries=prop_raw,prop_shared,prop_unique,prop_types quick=-DB_K=2 thorough=-DB_K=3
// @bounds C19 raw pointers: null or not, held by mutable or const reference, as rvalue or stored; shared and unique pointers: every sequence of B_K operations out of 13 (12) kinds on two pointer objects and a value owning a third, arbitrary 64 bit contents
#include "types.h"
#include "types/std/smart_ptr.h"
#include "types/pointer.h"
using namespace reflect;
using namespace ht;
#ifndef B_K
#define B_K 2
#endif
typedef std::shared_ptr<P> SP;
typedef std::unique_ptr<P> UP;

static void load()
{
    preload();
    type<SP>(); type<UP>(); type<const P*>();
    P* p = nullptr; SP s; UP u;
    { Value v(p), w(s), x(u); (void) bool(v); (void) bool(w); (void) bool(x); raises([&] { v.copy(); w.copy(); x.copy(); }); }
}

extern "C" void prop_raw()
{
    load();
    long live = Counted::live;
    {
        int64_t a = sym_i64("a"), b = sym_i64("b");
        P x(a), y(b);
        unsigned null = sym_choose(2, "null"), how = sym_choose(5, "how");
        P* p = null ? nullptr : &x; P* const cp = p; P *keep = p, *q0 = p;
        Value v = how == 0 ? Value(p) : how == 1 ? Value(cp) : how == 2 ? Value(std::move(q0)) : how == 3 ? Value(p).rvalue() : Value(p).toConst();
        bool cst = how == 1 || how == 4, dcst = cst || how == 3;
        sym_check(v.type() == type<P*>() && v.type()->isPointer() && v.type()->pointee() == type<P>() && v.type()->pointer() == "*", "pointer type");
        sym_check(v.isConst() == cst && v.isStored() == (how == 2), "status of the value");
        sym_check(bool(v) == !null && !v == bool(null), "boolean test");
        sym_check(v.get<P*>() == keep, "pointer content");
        if (!null) {
            Value d = *v;
            sym_check(d.value() == &x && d.type() == type<P>() && !d.isStored(), "dereferencing yields the object");
            sym_check(d.isConst() == dcst, "constness of the object");
            sym_check(d.get<P>().p == a, "content of the object");
            bool err = raises([&] { d.assign(P(b)); });
            sym_check(err == dcst && x.p == (dcst ? a : b), "assigning through the pointer");
            err = raises([&] { d.call<void>("set", a); });
            sym_check(err == dcst && x.p == a, "mutating through the pointer");
        }
        Value c = v.copy();
        sym_check(c.isStored() && c.get<P*>() == keep && p == keep, "copying a pointer");
        P* q = &y;
        bool err = raises([&] { v.assign(q); });
        sym_check(err == (cst || how == 3), "assigning a pointer");
        sym_check((how == 0 ? p : keep) == (how == 0 ? &y : keep) && c.get<P*>() == keep, "assigned pointer");
        sym_check(x.p == a && y.p == b, "objects are unchanged");
        if (how == 0) sym_check((*v).value() == &y, "dereferencing after assignment");
        c.assign((P*)nullptr);
        sym_check(!c && (how != 0 || p == &y), "a copied pointer is independent");
    }
    sym_check(Counted::live == live, "pointers own nothing");
}

namespace {
enum { NS = 3, MaxObj = 16 };
struct World
{
    int obj[NS]; int64_t content[MaxObj]; const void* addr[MaxObj]; int objs; long base;
    World() : objs(0), base(Counted::live) { for (int& o : obj) o = -1; }
    int make(int64_t c, const void* a) { content[objs] = c; addr[objs] = a; return objs++; }
    void check(Value* v)
    {
        long owned = 0;
        for (int i = 0; i < NS; ++i) {
            bool first = obj[i] >= 0;
            for (int j = 0; j < i; ++j) if (obj[j] == obj[i]) first = false;
            owned += first;
            sym_check(bool(v[i]) == (obj[i] >= 0) && !v[i] == (obj[i] < 0), "boolean test");
            P* g = v[i].call<P*>("get");
            sym_check(g == (obj[i] < 0 ? nullptr : addr[obj[i]]), "pointed object");
            if (obj[i] < 0) continue;
            Value d = *v[i];
            sym_check(d.value() == g && d.type() == type<P>() && !d.isConst() && !d.isStored(), "dereferencing yields the object");
            const P& p = d.get<P>();
            p.check();
            sym_check(p.p == content[obj[i]], "content");
        }
        sym_check(Counted::live == base + owned, "objects are destroyed when their last owner lets go");
    }
};
}

extern "C" void prop_shared()
{
    load();
    long live = Counted::live;
    {
        World w;
        SP s[2]; Value v[NS] = { Value(s[0]), Value(s[1]), Value(SP()) };
        const Value k0(((const SP*)s)[0]);
        int64_t x = sym_i64("x");
        for (int k = 0; k < B_K; ++k) {
            unsigned op = sym_choose(k ? 14 : 13, "op"); if (op == 13) break;     // shorter sequence
            unsigned a = sym_choose(k ? NS : 1, "on"), b = op >= 4 && op <= 8 ? sym_choose(NS, "with") : 0;
            x ^= int64_t(k) << 7;
            switch (op) {
            case 0: v[a].call<void>("reset"); w.obj[a] = -1; break;
            case 1: { P* p = sym_choose(2, "null") ? nullptr : new P(x); v[a].call<void>("reset", p); w.obj[a] = p ? w.make(x, p) : -1; break; }
            case 2: { P* p = new P(x); v[a].assign(SP(p)); w.obj[a] = w.make(x, p); break; }
            case 3: { Value none = type<SP>()->construct((P*)nullptr); P* p = new P(x); Value n = type<SP>()->construct(p); sym_check(!none && none.isStored(), "constructed from a null pointer"); v[a].assign(n); sym_check(n.isStored() && n.get<SP>().get() == p, "construction"); w.obj[a] = w.make(x, p); break; }
            case 4: v[a].assign(v[b]); w.obj[a] = w.obj[b]; break;
            case 5: v[a].assign(v[b].rvalue()); { int o = w.obj[b]; if (a != b) w.obj[b] = -1; w.obj[a] = o; } break;
            case 6: { Value c = v[b].copy(); sym_check(c.isStored() && c.get<SP>() == v[b].get<SP>(), "copy shares the object"); v[a].assign(c); w.obj[a] = w.obj[b]; break; }
            case 7: { Value c = v[b].toConst(); v[a].assign(c); w.obj[a] = w.obj[b]; break; }
            case 8: { bool eq = v[a] == v[b]; sym_check(eq == (w.obj[a] == w.obj[b]), "equality"); break; }
            case 9: if (w.obj[a] >= 0) { (*v[a]).assign(P(~x)); w.content[w.obj[a]] = ~x; } break;
            case 10: { Value r(s[0]); Value m = r.move(); int o = w.obj[0]; w.obj[0] = -1; sym_check(r.isVoid() && m.isStored() && (o < 0 ? !m.get<SP>() : (const void*)m.get<SP>().get() == w.addr[o]) && !s[0], "move transfers the object"); v[a].assign(m); w.obj[a] = o; break; }
            case 11: { sym_check(raises([&] { k0.call<void>("reset"); }) && raises([&] { k0.assign(SP()); }), "a const pointer cannot be reset"); sym_check(bool(k0) == (w.obj[0] >= 0), "const pointer"); break; }
            default: { Value n = type<SP>()->construct(); sym_check(!n && n.type() == type<SP>(), "default construction"); n = type<SP>()->construct(v[a]); sym_check(n.get<SP>() == v[a].get<SP>(), "copy construction"); break; }
            }
        }
        w.check(v);
        if (w.obj[0] >= 0) {           // the count of owners is what it would be in C++
            long n = 0; for (int o : w.obj) n += o == w.obj[0];
            sym_check(s[0].use_count() == n, "number of owners");
        }
    }
    sym_check(Counted::live == live, "everything is released");
}

extern "C" void prop_unique()
{
    load();
    long live = Counted::live;
    {
        World w;
        UP s[2]; Value v[NS] = { Value(s[0]), Value(s[1]), Value(UP()) };
        const Value k0(((const UP*)s)[0]);
        int64_t x = sym_i64("x");
        for (int k = 0; k < B_K; ++k) {
            unsigned op = sym_choose(k ? 13 : 12, "op"); if (op == 12) break;     // shorter sequence
            unsigned a = sym_choose(k ? NS : 1, "on"), b = op >= 4 && op <= 7 ? sym_choose(NS, "with") : 0;
            x ^= int64_t(k) << 7;
            switch (op) {
            case 0: v[a].call<void>("reset"); w.obj[a] = -1; break;
            case 1: { P* p = sym_choose(2, "null") ? nullptr : new P(x); v[a].call<void>("reset", p); w.obj[a] = p ? w.make(x, p) : -1; break; }
            case 2: { P* p = new P(x); v[a].assign(UP(p)); w.obj[a] = w.make(x, p); break; }
            case 3: { Value none = type<UP>()->construct((P*)nullptr); P* p = new P(x); Value n = type<UP>()->construct(p); sym_check(!none && none.isStored(), "constructed from a null pointer"); v[a].assign(n.rvalue()); w.obj[a] = w.make(x, p); break; }
            case 4: sym_check(raises([&] { v[a].assign(v[b]); }), "a unique pointer cannot be copied"); break;
            case 5: v[a].assign(v[b].rvalue()); { int o = w.obj[b]; if (a != b) w.obj[b] = -1; w.obj[a] = o; } break;
            case 6: sym_check(raises([&] { v[b].copy(); }) && raises([&] { type<UP>()->construct(v[b]); }) && raises([&] { cast<UP>(v[b]); }), "a unique pointer cannot be copied"); break;
            case 7: { bool eq = v[a] == v[b]; sym_check(eq == (a == b || (w.obj[a] < 0 && w.obj[b] < 0)), "equality"); break; }
            case 8: { P* p = v[a].call<P*>("release"); sym_check(p == (w.obj[a] < 0 ? nullptr : w.addr[w.obj[a]]), "released object"); if (p) { p->check(); sym_check(p->p == w.content[w.obj[a]], "released content"); delete p; } w.obj[a] = -1; break; }
            case 9: if (w.obj[a] >= 0) { (*v[a]).assign(P(~x)); w.content[w.obj[a]] = ~x; } break;
            case 10: { Value r(s[0]); Value m = r.move(); int o = w.obj[0]; w.obj[0] = -1; sym_check(r.isVoid() && m.isStored() && (const void*)m.get<UP>().get() == (o < 0 ? nullptr : w.addr[o]) && !s[0], "move transfers the object"); v[a].assign(m.rvalue()); w.obj[a] = o; break; }
            default: sym_check(raises([&] { k0.call<void>("reset"); }) && raises([&] { k0.call<P*>("release"); }) && raises([&] { v[a].assign(k0); }), "a const pointer cannot be reset"); sym_check(bool(k0) == (w.obj[0] >= 0), "const pointer"); break;
            }
        }
        w.check(v);
    }
    sym_check(Counted::live == live, "everything is released");
}

extern "C" void prop_types()
{
    load();
    const Type *s = type<SP>(), *u = type<UP>(), *p = type<P*>();
    sym_check(s->isPointer() && s->pointee() == type<P>() && s->pointer() == "std::shared_ptr" && s->is("smartPtr") && !s->is("primitive"), "shared pointer type");
    sym_check(u->isPointer() && u->pointee() == type<P>() && u->pointer() == "std::unique_ptr" && u->is("smartPtr") && !u->is("primitive"), "unique pointer type");
    sym_check(p->isPointer() && p->is("primitive") && !p->is("smartPtr") && !type<P>()->isPointer() && !type<int>()->isPointer(), "raw pointer type");
    sym_check(s->isCopiable() && s->isMovable() && !u->isCopiable() && u->isMovable() && p->isCopiable() && p->isMovable(), "what can be copied and moved");
    sym_check(type("std::shared_ptr<ht::P>") == s && type("std::unique_ptr<ht::P>") == u && type("ht::P*") == p, "names");
    sym_check(s->getValue<size_t>("sizeof") == sizeof(SP) && u->getValue<size_t>("sizeof") == sizeof(UP) && p->getValue<size_t>("sizeof") == sizeof(P*), "sizes");
    const Type *pp = type<P**>(), *sps = type<std::shared_ptr<SP>>();
    sym_check(pp->pointee() == p && sps->pointee() == s, "pointers to pointers");
    P x(sym_i64("x")); P* q = &x; P** qq = &q;
    Value d = **Value(qq);
    sym_check(d.value() == &x && !d.isConst(), "double dereference");
    SP sp(new P(x.p)); std::shared_ptr<SP> ss(new SP(sp));
    Value e = **Value(ss);
    sym_check(e.value() == sp.get() && sp.use_count() == 2, "double dereference of shared pointers");
}
