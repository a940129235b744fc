// Histories of operations on values; typed access.
// @check C06 libs=core,prims,std entries=prop_history,prop_noncopy quick=-DB_K=2 thorough=-DB_K=3 tt=850
// @bounds C06 two values starting in any of 5 states each and two external objects, every sequence of B_K operations out of 13 kinds on any pair of them, arbitrary 64 bit contents
// @check C07 libs=core,prims,std entries=prop_access,prop_levels quick= thorough=
// @bounds C07 11 held types x 10 requested types, held by mutable or const reference, as rvalue or stored, arbitrary contents; families of classes of 4 levels, each level with or without reflected members in all 16 combinations, accessed as every level of their own family or another one
#include "types.h"
#include "types/pointer.h"
using namespace reflect;
using namespace ht;
namespace ht {
// a family of classes: level D has reflected members if bit D of M is set
template<int D, int M> struct Lv : Lv<D - 1, M> { int64_t v; Lv() : v(D) {} int64_t fn() const { return v; } };
template<int M> struct Lv<0, M> { int64_t v; Lv() : v(0) {} int64_t fn() const { return v; } };
template<int D, int M> struct LvParent { typedef Lv<D - 1, M> P; static void add(reflect::Type* type_) { typedef Lv<D, M> T_; reflectParent(P); (void)(T_*)0; } };
template<int M> struct LvParent<0, M> { static void add(reflect::Type*) {} };
}
namespace reflect {
template<int D, int M> struct Reflect< ht::Lv<D, M> >
{
    typedef ht::Lv<D, M> T_;
    static std::string id() { return "ht::Lv" + std::to_string(D) + "_" + std::to_string(M); }
    reflectTemplateLoader()
    static void reflect(Type* type_)
    {
        ht::LvParent<D, M>::add(type_);
        if (!(M >> D & 1)) return;
        reflectPlumbing(); reflectField(v); reflectFn(fn); reflectTypeTrait(level);
    }
};
}
#ifndef B_K
#define B_K 1
#endif

namespace {
struct Obj { int64_t c; bool owned; int refs; void* addr; };       // content, ownership
struct Slot { int obj; bool cst; RefType ref; };                   // obj < 0: void
enum { NS = 2, MaxObj = 24 };

struct World
{
    Value v[NS];
    P ext; const P cext;
    Obj obj[MaxObj]; int objs; Slot s[NS];
    World(int64_t a, int64_t b) : ext(a), cext(b), objs(2)
    {
        obj[0] = Obj{ a, false, 0, &ext }; obj[1] = Obj{ b, false, 0, (void*)&cext };
        for (int i = 0; i < NS; ++i) s[i] = Slot{ -1, false, RefType::Copy };
    }
    int fresh(int64_t c) { obj[objs] = Obj{ c, true, 0, nullptr }; return objs++; }
    void point(int i, int o, bool cst, RefType ref) { s[i] = Slot{ o, cst, ref }; }

    void verify()
    {
        long owned = 0; bool seen[MaxObj] = { };
        for (int i = 0; i < NS; ++i) {
            const Value& x = v[i];
            sym_check(x.isVoid() == (s[i].obj < 0), "void status");
            if (s[i].obj < 0) { sym_check(!x.isStored() && x.type() == type<void>(), "void value"); continue; }
            Obj& o = obj[s[i].obj];
            if (!seen[s[i].obj] && o.owned) {
                owned++;
                if (!o.addr) o.addr = x.value();
            }
            seen[s[i].obj] = true;
            sym_check(x.isStored() == o.owned, "stored status");
            sym_check(x.value() == o.addr, "identity of the object");
            sym_check(x.type() == type<P>() && x.isConst() == s[i].cst && x.refType() == s[i].ref, "type, constness and reference kind");
            const P& p = x.get<P>();
            p.check();
            sym_check(p.p == o.c, "content");
        }
        for (int i = 0; i < objs; ++i)
            for (int j = 0; j < i; ++j)
                if (seen[i] && seen[j]) sym_check(obj[i].addr != obj[j].addr, "different objects share storage");
        sym_check(ext.p == obj[0].c && cext.p == obj[1].c, "external objects");
        sym_check(Counted::live == 2 + owned, "owned objects are released exactly when their last value goes");
    }
    void init(int i, unsigned st, int64_t x)
    {
        switch (st) {
        case 0: break;
        case 1: v[i] = Value(P(x)); point(i, fresh(x), false, RefType::LValue); break;
        case 2: v[i] = Value(ext); point(i, 0, false, RefType::LValue); break;
        case 3: v[i] = Value(cext); point(i, 1, true, RefType::LValue); break;
        default: if (i && s[0].obj >= 0) { v[i] = v[0]; s[i] = s[0]; } break;
        }
    }
    void step(unsigned op, int a, int b, int64_t x)
    {
        Slot sb = s[b];
        switch (op) {
        case 0: case 1: case 2: case 3: init(a, op, x); if (!op) { v[a] = Value(); s[a].obj = -1; } break;
        case 4: v[a] = v[b]; s[a] = sb; break;
        case 5: v[a] = std::move(v[b]); s[a] = sb; if (a != b) { v[b] = Value(); s[b].obj = -1; } break;
        case 6: { Value tmp(v[b]); v[a] = tmp; s[a] = sb; break; }
        case 7: { Value tmp(std::move(v[b])); v[b] = Value(); s[b].obj = -1; v[a] = std::move(tmp); s[a] = sb; break; }
        case 8: {                                    // deep copy
            bool err = raises([&] { v[a] = v[b].copy(); });
            sym_check(err == (sb.obj < 0), "deep copy succeeds iff there is something to copy");
            if (!err) point(a, fresh(obj[sb.obj].c), false, RefType::LValue);
            break;
        }
        case 9: {                                    // deep move
            bool err = raises([&] { v[a] = v[b].move(); });
            sym_check(err == (sb.obj < 0), "deep move succeeds iff there is something to move");
            if (err) break;
            int64_t c = obj[sb.obj].c;
            if (!sb.cst) obj[sb.obj].c = -1;         // what moving a P leaves behind
            s[b].obj = -1;
            point(a, fresh(c), false, RefType::LValue);
            break;
        }
        case 10: v[a] = v[b].rvalue(); s[a] = sb; if (sb.obj >= 0) s[a].ref = RefType::RValue; else s[a].obj = -1; break;
        case 11: v[a] = v[b].toConst(); s[a] = sb; if (sb.obj >= 0) { s[a].ref = RefType::RValue; s[a].cst = true; } break;
        default: {                                   // assign to the content
            bool ok = s[a].obj >= 0 && !s[a].cst && s[a].ref == RefType::LValue;
            bool err;
            if (a == b) err = raises([&] { v[a].assign(P(x)); });
            else err = raises([&] { v[a].assign(v[b]); });
            if (a != b) ok = ok && sb.obj >= 0;
            sym_check(err == !ok, "assignment to the content");
            if (!ok) break;
            if (a == b) obj[s[a].obj].c = x;
            else {
                int64_t c = obj[sb.obj].c;
                if (sb.ref == RefType::RValue && !sb.cst && sb.obj != s[a].obj) obj[sb.obj].c = -1;
                obj[s[a].obj].c = c;
            }
            break;
        }
        }
    }
};
} // namespace

extern "C" void prop_history()
{
    preload();
    long live = Counted::live;
    sym_check(live == 0, "start");
    {
        int64_t a = sym_i64("ext"), b = sym_i64("cext");
        World w(a, b);
        unsigned s0 = sym_choose(4, "state0"), s1 = sym_choose(5, "state1");
        int64_t x0 = sym_i64("x"), x1 = sym_i64("x");
        w.init(0, s0, x0);
        w.init(1, s1, x1);
        w.verify();
        for (int k = 0; k < B_K; ++k) {
            unsigned op = sym_choose(13, "op"); int d = sym_choose(2, "dst");
            int s = op < 4 ? d : int(sym_choose(2, "src"));
            int64_t x = sym_i64("x");
            w.step(op, d, s, x);
            w.verify();
        }
    }
    sym_check(Counted::live == live, "every owned object is destroyed in the end");
}

extern "C" void prop_noncopy()
{
    preload();
    int64_t x = sym_i64("x");
    {
        Value v((NoCopy(x)));
        sym_check(v.isStored() && v.get<NoCopy>().v == x && Counted::live == 1, "storing a movable object");
        Value w(v);
        sym_check(raises([&] { w = v.copy(); }) && w.get<NoCopy>().v == x && w.value() == v.value(), "refused copy changes nothing");
        Value m = v.move();
        sym_check(v.isVoid() && m.get<NoCopy>().v == x && m.value() != w.value() && w.get<NoCopy>().v == -1, "moved object");
        Neither n; n.v = x;
        Value r(n);
        sym_check(r.value() == &n && raises([&] { r.copy(); }) && raises([&] { r.move(); }) && n.v == x && r.value() == &n && !r.isVoid(), "object that is neither copiable nor movable");
    }
    {
        NoMove n; n.v = x; Value v(n);
        Value c = v.copy();
        sym_check(c.isStored() && c.get<NoMove>().v == x && c.value() != &n && n.v == x, "copiable object");
        Value s((NoMove(n)));
        sym_check(s.isStored() && s.get<NoMove>().v == x, "storing a copy");
    }
    sym_check(Counted::live == 0, "leak");
}

namespace {
enum { TP, TC, TG, TU, TI, TPP, TCP, TUP, TIP, TS, TN };
bool isBase(unsigned req, unsigned held)
{
    if (req == held) return true;
    if (req == TP) return held == TC || held == TG;
    if (req == TC) return held == TG;
    if (req == TPP) return held == TCP;
    return false;
}
template<typename T> void readAs(Value& v, bool ok, void* addr)
{
    const T* g = nullptr; T* a = nullptr;
    bool e1 = raises([&] { g = &v.get<T>(); }), e2 = raises([&] { a = &v.as<T>(); });
    sym_check(e1 == !ok && e2 == !ok, "typed access is allowed iff the requested type is a base of the held one");
    if (ok) sym_check((void*)g == addr && (void*)a == addr, "typed access refers to the held object");
}
void readAny(Value& v, unsigned req, bool ok, void* addr)
{
    switch (req) {
    case TP: readAs<P>(v, ok, addr); break; case TC: readAs<C>(v, ok, addr); break; case TG: readAs<G>(v, ok, addr); break; case TU: readAs<U>(v, ok, addr); break;
    case TI: readAs<int>(v, ok, addr); break; case TPP: readAs<P*>(v, ok, addr); break; case TCP: readAs<C*>(v, ok, addr); break; case TUP: readAs<U*>(v, ok, addr); break;
    case TIP: readAs<int*>(v, ok, addr); break; default: readAs<std::string>(v, ok, addr); break;
    }
}
template<typename T> void access(T& obj, unsigned held)
{
    unsigned how = sym_choose(5, "how"), req = sym_choose(TN, "requested");
    bool ok = isBase(req, held);
    sym_cover(ok ? "allowed" : "refused");
    const T& cobj = obj;
    Value v = how == 0 ? Value(obj) : how == 1 ? Value(cobj) : how == 2 ? Value(std::move(obj)) : how == 3 ? Value(obj).rvalue() : Value(obj).toConst();
    sym_check(v.isStored() == (how == 2) && (how == 2 || v.value() == &obj), "held object");
    readAny(v, req, ok, v.value());
}
}

extern "C" void prop_access()
{
    preload(); type<int*>();
    sym_expect("allowed"); sym_expect("refused");
    unsigned held = sym_choose(TN + 1, "held");
    int64_t x = sym_i64("x"); int i = int(x);
    P p(x); C c(x, x); G g; g.g = x; U u; u.u = x;
    P* pp = &p; C* cp = &c; U* up = &u; int* ip = &i; std::string s("text");
    switch (held) {
    case TP: access(p, held); break; case TC: access(c, held); break; case TG: access(g, held); break; case TU: access(u, held); break;
    case TI: access(i, held); break; case TPP: access(pp, held); break; case TCP: access(cp, held); break; case TUP: access(up, held); break;
    case TIP: access(ip, held); break; case TS: access(s, held); break;
    default: { Value v; readAny(v, sym_choose(TN, "requested"), false, nullptr); break; }
    }
}

namespace {
template<int M> void readLevel(Value& v, int req, bool ok, void* addr)
{
    switch (req) {
    case 0: readAs<Lv<0, M>>(v, ok, addr); break; case 1: readAs<Lv<1, M>>(v, ok, addr); break;
    case 2: readAs<Lv<2, M>>(v, ok, addr); break; default: readAs<Lv<3, M>>(v, ok, addr); break;
    }
}
template<int D, int M> void level(int req, bool own, int x)
{
    Lv<D, M> obj; const Lv<D, M>& cobj = obj;
    Value v = x ? Value(obj) : Value(cobj);
    sym_cover(own && req <= D ? "allowed" : "refused");
    if (own) readLevel<M>(v, req, req <= D, &obj);
    else readLevel<(M ^ 4)>(v, req, false, &obj);
}
template<int M> void family(int held, int req, bool own, int x)
{
    switch (held) { case 0: level<0, M>(req, own, x); break; case 1: level<1, M>(req, own, x); break; case 2: level<2, M>(req, own, x); break; default: level<3, M>(req, own, x); break; }
}
template<int M> void families(int m, int held, int req, bool own, int x)
{
    if (m == M) family<M>(held, req, own, x); else families<M - 1>(m, held, req, own, x);
}
template<> void families<-1>(int, int, int, bool, int) {}
}

extern "C" void prop_levels()
{
    preload();
    sym_expect("allowed"); sym_expect("refused");
    int m = int(sym_choose(16, "members")), held = int(sym_choose(4, "held")), req = int(sym_choose(4, "requested"));
    bool own = sym_choose(2, "own family"); int x = int(sym_choose(2, "how"));
    families<15>(m, held, req, own, x);
}
