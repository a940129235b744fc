// Binding of arguments to parameters against a table written from the C++ rules.
// @check C01 libs=core,prims,std entries=prop_binding,prop_combine quick= thorough=
// @bounds C01 all pairs of arguments over 11 types (class chain of depth 3, unrelated class, class with user conversions, pointers to them, int, Value) x {by value, lvalue ref, rvalue ref} x {const, mutable}
#include "types.h"
using namespace reflect;
using namespace ht;

namespace {
enum { TP, TC, TG, TU, TX, TI, TV, TPP, TCP, TUP, TIP, TN };
const Type* typeOf(unsigned k)
{
    switch (k) {
    case TP: return type<P>(); case TC: return type<C>(); case TG: return type<G>(); case TU: return type<U>();
    case TX: return type<X>(); case TI: return type<int>(); case TV: return type<Value>();
    case TPP: return type<P*>(); case TCP: return type<C*>(); case TUP: return type<U*>(); default: return type<int*>();
    }
}
bool derived(unsigned a, unsigned b)
{
    if (a == b) return true;
    if (a == TC) return b == TP;
    if (a == TG) return b == TP || b == TC;
    if (a == TCP) return b == TPP;
    return false;
}
bool converts(unsigned a, unsigned b) { return a == TX && (b == TP || b == TI); }

Match expected(unsigned a, RefType ar, bool ac, unsigned b, RefType br, bool bc)
{
    if (a == b && ar == br && ac == bc) return Match::Exact;
    if ((a == TV) != (b == TV)) return Match::Exact;
    if (converts(a, b)) return br == RefType::LValue ? Match::None : Match::Partial;
    if (!derived(a, b)) return Match::None;
    switch (br) {
    case RefType::Copy:
        if (ar == RefType::RValue) return Match::Exact;
        return ar == RefType::Copy && ac == bc ? Match::Exact : Match::Partial;
    case RefType::LValue:
        if (bc) return ar == RefType::LValue && ac ? Match::Exact : Match::Partial;
        return ar == RefType::LValue && !ac ? Match::Exact : Match::None;
    case RefType::RValue:
        if (ar != RefType::RValue) return Match::None;
        if (ac && !bc) return Match::None;
        return ac == bc ? Match::Exact : Match::Partial;
    }
    return Match::None;
}
} // namespace

extern "C" void prop_binding()
{
    sym_expect("exact"); sym_expect("partial"); sym_expect("none");
    preload();
    unsigned a = sym_choose(TN, "fromType"), ar = sym_choose(3, "fromRef"), ac = sym_choose(2, "fromConst");
    unsigned b = sym_choose(TN, "toType"), br = sym_choose(3, "toRef"), bc = sym_choose(2, "toConst");
    Argument from(typeOf(a), RefType(ar), ac), to(typeOf(b), RefType(br), bc);
    Match m = from.isConvertibleTo(to);
    sym_cover(m == Match::Exact ? "exact" : m == Match::Partial ? "partial" : "none");
    sym_check(m == expected(a, RefType(ar), ac, b, RefType(br), bc), "argument binding differs from the C++ rules");
    sym_check((from == to) == (a == b && ar == br && ac == bc), "argument equality");
    sym_check(from.isConstRef() == (ac && ar == unsigned(RefType::LValue)), "isConstRef");
    sym_check(from.isTemporary() == (ar != unsigned(RefType::LValue)), "isTemporary");
    sym_check(from.isLValueRef() == (!ac && ar == unsigned(RefType::LValue)), "isLValueRef");
}

extern "C" void prop_combine()
{
    unsigned a = sym_choose(3, "a"), b = sym_choose(3, "b");
    Match m = combine(Match(a), Match(b));
    unsigned want = a < b ? a : b;      // None < Partial < Exact
    sym_check(unsigned(m) == want, "combined match isn't the weakest of the two");
}
