// Field access.
// @check C10 libs=core,prims,std entries=prop_fields,prop_const_fields,prop_field_types,prop_wide quick= thorough=
// @bounds C10 classes with 8 own and inherited members of 1 to 16 bytes; arbitrary object contents (8 to 64 bit each) and written values; mutable, const and owned values; pointer fields and a class of 70000 bytes
#include "types.h"
using namespace reflect;
using namespace ht;

namespace ht {
struct In { int16_t i; int64_t j; };
struct A { int8_t a; int32_t b; const int64_t k; A() : a(0), b(0), k(0) {} explicit A(int64_t k) : a(0), b(0), k(k) {} };
struct B : A { uint8_t c; int64_t d; bool e; In in; int16_t b2; std::string s; B() : c(0), d(0), e(false), b2(0) {} explicit B(int64_t k) : A(k), c(0), d(0), e(false), b2(0) {} };
struct Deep { char pad[70000]; int32_t at; };
struct Wide { int32_t* const fixed; const int32_t* open; int32_t* plain; const int32_t* const both; Deep in; int64_t far; Wide(int32_t* p) : fixed(p), open(p), plain(p), both(p) {} };
struct Sub : Wide { int16_t last; Sub(int32_t* p) : Wide(p) {} };
}
reflectType(ht::Deep) { reflectField(at); }
reflectType(ht::Wide) { reflectField(fixed); reflectField(open); reflectField(plain); reflectField(both); reflectField(in); reflectField(far); }
reflectType(ht::Sub) { reflectParent(ht::Wide); reflectField(last); }
reflectType(ht::In) { reflectPlumbing(); reflectField(i); reflectField(j); }
reflectType(ht::A) { reflectPlumbing(); reflectField(a); reflectField(b); reflectField(k); }
reflectType(ht::B) { reflectParent(ht::A); reflectPlumbing(); reflectField(c); reflectField(d); reflectField(e); reflectField(in); reflectField(b2); reflectField(s); }

namespace {
const char* const fnames[] = { "a", "b", "c", "d", "e", "b2", "in.i", "in.j", "k" };
struct Snap { int64_t f[9]; };
Snap snap(const B& b) { Snap s = { { b.a, b.b, b.c, b.d, b.e, b.b2, b.in.i, b.in.j, b.k } }; return s; }
Value fieldOf(const Value& v, unsigned f)
{
    if (f == 6) return v.field("in").field("i");
    if (f == 7) return v.field("in").field("j");
    return v.field(fnames[f]);
}
void* addressOf(B& b, unsigned f)
{
    void* p[] = { &b.a, &b.b, &b.c, &b.d, &b.e, &b.b2, &b.in.i, &b.in.j, (void*)&b.k };
    return p[f];
}
int64_t read(Value v, unsigned f)
{
    switch (f) {
    case 0: return v.get<int8_t>(); case 1: return v.get<int32_t>(); case 2: return v.get<uint8_t>(); case 4: return v.get<bool>();
    case 5: case 6: return v.get<int16_t>(); default: return v.get<int64_t>();
    }
}
int64_t fit(int64_t x, unsigned f)
{
    switch (f) {
    case 0: return int8_t(x); case 1: return int32_t(x); case 2: return uint8_t(x); case 4: return x & 1; case 5: case 6: return int16_t(x); default: return x;
    }
}
void write(Value v, unsigned f, int64_t x)
{
    switch (f) {
    case 0: v.assign(int8_t(x)); break; case 1: v.assign(int32_t(x)); break; case 2: v.assign(uint8_t(x)); break; case 4: v.assign(bool(x & 1)); break;
    case 5: case 6: v.assign(int16_t(x)); break; default: v.assign(int64_t(x)); break;
    }
}
void fill(B& b)
{
    b.a = int8_t(sym_u(8, "a")); b.b = int32_t(sym_u(32, "b")); b.c = uint8_t(sym_u(8, "c")); b.d = sym_i64("d"); b.e = sym_u(8, "e") & 1;
    b.b2 = int16_t(sym_u(16, "b2")); b.in.i = int16_t(sym_u(16, "i")); b.in.j = sym_i64("j"); b.s = "text";
}
}

extern "C" void prop_fields()
{
    preload(); type<B>(); type<In>();
    B b(sym_i64("k")); fill(b);
    unsigned f = sym_choose(9, "field"), how = sym_choose(3, "how");
    Snap before = snap(b);
    if (how == 0) {                                    // reference
        Value v(b), fv = fieldOf(v, f);
        sym_check(fv.value() == addressOf(b, f), "field refers to the member itself");
        sym_check(read(fv, f) == before.f[f], "field content");
        sym_check(fv.refType() == RefType::LValue && !fv.isStored() && fv.isConst() == (f == 8), "field reference kind");
        int64_t x = sym_i64("x");
        bool err = raises([&] { write(fv, f, x); });
        sym_check(err == (f == 8), "only const fields refuse assignment");
        Snap after = snap(b);
        for (unsigned i = 0; i < 9; ++i) sym_check(after.f[i] == (i == f && f != 8 ? fit(x, f) : before.f[i]), "writing a field changes that member and nothing else");
        sym_check(b.s == "text" && v.field<std::string>("s") == "text", "text member untouched");
        sym_check(read(fieldOf(v, f), f) == after.f[f], "field read back");
    } else if (how == 1) {                             // through a const object
        const B& cb = b; Value v(cb), fv = fieldOf(v, f);
        sym_check(fv.isConst() && fv.value() == addressOf(b, f) && read(fv, f) == before.f[f], "field of a const object");
        sym_check(raises([&] { write(fv, f, 1); }), "field of a const object can't be assigned");
        Snap after = snap(b);
        for (unsigned i = 0; i < 9; ++i) sym_check(after.f[i] == before.f[i], "refused assignment changes nothing");
    } else {                                           // owned by the value
        Value v((B(b))), fv = fieldOf(v, f);
        sym_check(v.isStored() && v.value() != &b, "stored copy");
        sym_check(read(fv, f) == before.f[f] && fv.isConst() == (f == 8), "field of an owned object");
        if (f == 8) return;
        int64_t x = sym_i64("x");
        write(fv, f, x);
        sym_check(read(fieldOf(v, f), f) == fit(x, f), "field of an owned object read back");
        Snap after = snap(b);
        for (unsigned i = 0; i < 9; ++i) sym_check(after.f[i] == before.f[i], "the original object is unaffected");
    }
}

extern "C" void prop_const_fields()
{
    preload(); type<B>();
    int64_t k = sym_i64("k"), d = sym_i64("d");
    sym_assume(d != INT64_MAX);
    B b(k); b.d = d;
    Value v(b);
    sym_check(v.field<int64_t>("d") == d && v.field<const int64_t&>("d") == d && &v.field<int64_t&>("d") == &b.d, "typed field access");
    sym_check(v.field<int64_t>("k") == k && &v.field<const int64_t&>("k") == &b.k, "typed const field access");
    sym_check(raises([&] { v.field<int64_t&>("k"); }), "a const field isn't available as a mutable reference");
    sym_check(raises([&] { v.toConst().field<int64_t&>("d"); }) && v.toConst().field<int64_t>("d") == d, "a field of a const value isn't available as a mutable reference");
    sym_check(raises([&] { v.field<int32_t>("d"); }) && raises([&] { v.field("nope"); }), "wrong type or name");
    sym_check(v.field<In&>("in").j == b.in.j && &v.field<In&>("in") == &b.in, "class typed field");
    v.field<int64_t&>("d")++;
    sym_check(b.d == int64_t(uint64_t(d) + 1) , "writing through a typed reference");
}

extern "C" void prop_field_types()
{
    preload();
    const Type* t = type<B>();
    B b;
    unsigned i = sym_choose(6, "f");
    struct { const char* n; const Type* t; size_t off; } e[] = {
        { "a", type<int8_t>(), size_t((char*)&b.a - (char*)&b) }, { "b", type<int32_t>(), size_t((char*)&b.b - (char*)&b) }, { "c", type<uint8_t>(), size_t((char*)&b.c - (char*)&b) },
        { "d", type<int64_t>(), size_t((char*)&b.d - (char*)&b) }, { "in", type<In>(), size_t((char*)&b.in - (char*)&b) }, { "s", type<std::string>(), size_t((char*)&b.s - (char*)&b) } };
    const Field& f = t->field(e[i].n);
    sym_check(f.type() == e[i].t && f.offset() == e[i].off && f.name() == e[i].n && !f.argument().isConst() && f.argument().refType() == RefType::Copy, "declared field");
    sym_check(t->field("k").argument().isConst(), "declared const field");
}


extern "C" void prop_wide()
{
    preload();
    const Type* t = type<Sub>();
    int32_t a = int32_t(sym_u(32, "a")), b = int32_t(sym_u(32, "b"));
    int64_t far = sym_i64("far"); int32_t at = int32_t(sym_u(32, "at")); int16_t last = int16_t(sym_u(16, "last"));
    Sub o(&a); o.far = far; o.in.at = at; o.last = last; Value v(o);
    struct { const char* n; const Type* t; bool cst; void* p; } e[] = {
        { "fixed", type<int32_t*>(), true, (void*)&o.fixed }, { "open", type<const int32_t*>(), false, (void*)&o.open }, { "plain", type<int32_t*>(), false, (void*)&o.plain },
        { "both", type<const int32_t*>(), true, (void*)&o.both }, { "in", type<Deep>(), false, &o.in }, { "far", type<int64_t>(), false, &o.far }, { "last", type<int16_t>(), false, &o.last } };
    for (auto& x : e) {
        const Field& f = t->field(x.n);
        sym_check(f.type() == x.t && f.argument().isConst() == x.cst && f.offset() == size_t((char*)x.p - (char*)&o), "declared pointer and far away fields");
        Value fv = v.field(x.n);
        sym_check(fv.value() == x.p && fv.type() == x.t && fv.isConst() == x.cst, "reference to the member");
        sym_check(v.toConst().field(x.n).isConst() && v.toConst().field(x.n).value() == x.p, "reference to the member of a const object");
    }
    sym_check(v.field<int64_t>("far") == far && v.field("in").field<int32_t>("at") == at && v.field("in").field("at").value() == &o.in.at && v.field<int16_t>("last") == last, "content of far away fields");
    int32_t* np = &b;
    bool e1 = raises([&] { v.field("fixed").assign(np); }), e2 = raises([&] { v.field("both").assign((const int32_t*)np); });
    sym_check(e1 && e2 && o.fixed == &a && o.both == &a, "const pointers refuse assignment");
    v.field("plain").assign(np);
    v.field("open").assign((const int32_t*)np);
    sym_check(o.plain == &b && o.open == &b, "pointers to const are assignable themselves");
    int64_t nf = sym_i64("nf"); int16_t nl = int16_t(sym_u(16, "nl")); int32_t nat = int32_t(sym_u(32, "nat"));
    v.field("far").assign(nf); v.field("last").assign(nl); v.field("in").field("at").assign(nat);
    sym_check(o.far == nf && o.last == nl && o.in.at == nat && a == *o.fixed, "writing far away fields");
}
