// Primitive number types.
// @check C18 libs=core,prims,std entries=prop_number,prop_traits,prop_convert,prop_alias quick= thorough=
// @bounds C18 the 14 primitive number types (long double: classification and limits only), every value of the type; every pair of number types for conversions; all 34 alias names and the canonical names
#include "types.h"
#include <limits>
using namespace reflect;
using namespace ht;

#define ALL(F) case 0: F(bool); break; case 1: F(char); break; case 2: F(signed char); break; case 3: F(unsigned char); break; \
    case 4: F(short); break; case 5: F(unsigned short); break; case 6: F(int); break; case 7: F(unsigned); break; case 8: F(long); break; case 9: F(unsigned long); break; \
    case 10: F(long long); break; case 11: F(unsigned long long); break; case 12: F(float); break; case 13: F(double); break;

namespace {
template<typename T> struct Sym { static T get(const char* n) { return T(sym_u(8 * sizeof(T), n)); } };
template<> struct Sym<bool> { static bool get(const char* n) { uint64_t u = sym_u(1, n); return u & 1; } };
template<> struct Sym<float> { static float get(const char* n) { uint32_t u = uint32_t(sym_u(32, n)); float f; __builtin_memcpy(&f, &u, 4); return f; } };
template<> struct Sym<double> { static double get(const char* n) { return sym_f64(n); } };
template<typename T> bool same(T a, T b) { return !__builtin_memcmp(&a, &b, sizeof(T)); }
template<typename T> bool noOverflow(T a, T b) { decltype(a + b) r; return !__builtin_add_overflow(a, b, &r); }
bool noOverflow(float, float) { return true; }
bool noOverflow(double, double) { return true; }
bool noOverflow(bool, bool) { return true; }

template<typename T> struct Numbers
{
    static void run()
    {
        T x = Sym<T>::get("x"), y = Sym<T>::get("y");
        const T cx = x;
        const Type* t = type<T>();
        typedef decltype(x + y) R;

        Value z = t->construct();
        sym_check(z.type() == t && z.isStored() && same(z.get<T>(), T()), "default construction");
        T keep = x;
        for (int how = 0; how < 5; ++how) {
            Value arg(x);
            Value v = how == 0 ? t->construct(x) : how == 1 ? t->construct(cx) : how == 2 ? t->construct(T(x)) : how == 3 ? t->construct(arg) : t->construct(Value(T(x)));
            sym_check(v.type() == t && v.isStored() && v.value() != &x && same(v.get<T>(), keep) && same(x, keep), "copy construction");
        }
        {
            T a = x; Value v(a), w = v.copy();
            sym_check(w.isStored() && w.value() != &a && same(w.get<T>(), x), "copy");
            v.assign(y);
            sym_check(same(a, y) && same(w.get<T>(), x), "assignment writes the value");
            v.assign(w);
            sym_check(same(a, x), "assignment from a value");
            v.call<void>("operator=", T(y));
            sym_check(same(a, y), "assignment from a temporary");
            Value m = w.move();
            sym_check(w.isVoid() && m.isStored() && same(m.get<T>(), x), "move");
        }
        {
            const T a = x; Value v(a);
            sym_check(raises([&] { v.assign(y); }) && same(a, cx), "a const number cannot be assigned");
            sym_check(same(v.copy().get<T>(), cx), "copy of a const number");
        }
        {
            Value p = t->alloc();
            T* q = p.get<T*>(); 
            *q = x;
            sym_check(q != &x && same(p.get<T*>()[0], x), "allocation");
            delete q;
        }
        if (noOverflow(x, y)) {
            T a = x, b = y; Value v(a);
            R want = R(x + y);
            Value r = v + b, r2 = v + Value(b), r3 = Value(cx) + T(b);
            sym_check(r.type() == type<R>() && r2.type() == r.type() && r3.type() == r.type(), "type of a sum");
            bool nan = want != want;       // the payload of a nan is unspecified
            R g = r.get<R>(), g2 = r2.get<R>(), g3 = r3.get<R>();
            sym_check(nan ? g != g && g2 != g2 && g3 != g3 : same(g, want) && same(g2, want) && same(g3, want), "sum");
            sym_check(same(a, x) && same(b, y), "operands of a sum are unchanged");
        }
    }
    static void traits()
    {
        const Type* t = type<T>();
        typedef std::numeric_limits<T> L;
        sym_check(t->is("primitive"), "primitive");
        sym_check(t->template getValue<size_t>("sizeof") == sizeof(T), "size");
        T mn = t->template getValue<T>("min"), mx = t->template getValue<T>("max");
        sym_check(mn == L::min() && mx == L::max(), "limits");
        bool b = std::is_same<T, bool>::value, i = L::is_integer && !b;
        sym_check(t->is("bool") == b && t->is("integer") == i && t->is("float") == !L::is_integer, "classification");
        sym_check(t->is("signed") == (i && L::is_signed) && t->is("unsigned") == (i && !L::is_signed), "signedness");
        sym_check(t->isCopiable() && t->isMovable() && !t->isPointer() && !t->parent(), "kind of type");
        Value v = t->construct();
        sym_check(v.type() == t && v.get<T>() == T(), "default construction");
    }
};
template<typename O> void convert(const Value& v)
{
    O o = O(); Value vo(o);
    bool is = v.type() == vo.type();
    sym_check(raises([&] { v.get<O>(); }) == !is, "reading as another number type");
    sym_check(raises([&] { cast<O>(v); }) == !is, "casting to another number type");
    sym_check(isCastable<O>(v) == is && isCastable<const O&>(v) == is, "castable to another number type");
    sym_check(raises([&] { type<O>()->construct(v); }) == !is, "constructing another number type");
    sym_check(raises([&] { vo + v; }) == !is, "adding another number type");
    sym_check(raises([&] { vo.assign(v); }) == !is, "assigning another number type");
    if (!is) sym_check(o == O(), "refused assignment changes nothing");
}
template<typename T> void converts(unsigned to)
{
    T x = Sym<T>::get("x");
    Value v(x);
    sym_check(v.type() == type<T>(), "type of a number");
    switch (to) {
#define F(O) convert<O>(v); sym_check((type<O>() == v.type()) == (std::is_same<O, T>::value), "types are distinct")
    ALL(F)
#undef F
    }
}
}

static void load()
{
    preload();
    type<char>(); type<signed char>(); type<unsigned char>(); type<short>(); type<unsigned short>(); type<unsigned>(); type<long>(); type<unsigned long>();
    type<long long>(); type<unsigned long long>(); type<float>(); type<double>();
}
extern "C" void prop_number()
{
    load();
#define F(T) Numbers<T>::run()
    switch (sym_choose(14, "type")) { ALL(F) }
#undef F
}
extern "C" void prop_convert()
{
    load();
    unsigned to = sym_choose(14, "to");
#define F(T) converts<T>(to)
    switch (sym_choose(14, "from")) { ALL(F) }
#undef F
}
extern "C" void prop_traits()
{
    load();
#define F(T) Numbers<T>::traits()
    switch (sym_choose(15, "type")) { ALL(F) 
    default: {
        const Type* t = type<long double>();
        sym_check(t->is("float") && !t->is("integer") && t->is("primitive") && t->getValue<size_t>("sizeof") == sizeof(long double) && t->isCopiable(), "long double");
        const Type* v = type<void>();
        sym_check(!v->is("integer") && !v->is("float") && !v->isCopiable(), "void");
    } }
#undef F
}
template<typename T> void named(const char* name)
{
    sym_check(type(name) == type<T>() && type<T>()->id().size(), name);
    sym_check(type(name)->is("sizeof") && type(name)->getValue<size_t>("sizeof") == sizeof(T), name);
}
extern "C" void prop_alias()
{
    load();
#define N(t) named<t>(#t);
    switch (sym_choose(4, "group")) {
    case 0: N(bool) N(char) N(signed char) N(unsigned char) N(short int) N(unsigned short int) N(int) N(unsigned int) N(long int) N(unsigned long int) N(long long int) N(unsigned long long int) N(float) N(double) break;
    case 1: N(short) N(unsigned short) N(long) N(unsigned long) N(long long) N(unsigned long long) N(size_t) N(ssize_t) N(intmax_t) N(uintmax_t) N(intptr_t) N(uintptr_t) break;
    case 2: N(int8_t) N(uint8_t) N(int16_t) N(uint16_t) N(int32_t) N(uint32_t) N(int64_t) N(uint64_t) N(int_fast8_t) N(uint_fast8_t) N(int_fast16_t) N(uint_fast16_t) break;
    default: N(int_fast32_t) N(uint_fast32_t) N(int_fast64_t) N(uint_fast64_t) N(int_least8_t) N(uint_least8_t) N(int_least16_t) N(uint_least16_t) N(int_least32_t) N(uint_least32_t) N(int_least64_t) N(uint_least64_t) break;
    }
    sym_check(raises([] { type("int128_t"); }) && raises([] { type("ulong long"); }), "a name which isn't a type");
}
