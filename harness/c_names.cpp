// Names and identities of types, templates and pointers included.
// @check C27 libs=core,prims,std entries=prop_identity,prop_order,prop_spelling quick=-DB_K=2 thorough=-DB_K=3
// @bounds C27 each pair out of 36 types (numbers, classes, lists, both maps, raw, shared and unique pointers, nested up to 3 deep), with each of 8 spellings of reference and constness; any one byte of the name of each of 8 types replaced by any other; every order of B_K first uses of 6 templates that nothing else refers to
#include "types.h"
#include "types/std/vector.h"
#include "types/std/map.h"
#include "types/std/smart_ptr.h"
#include "types/pointer.h"
using namespace reflect;
using namespace ht;
#ifndef B_K
#define B_K 2
#endif

namespace {
typedef std::map<std::string, int> MSI;
typedef std::map<int, std::string> MIS;
typedef std::unordered_map<std::string, int> USI;
typedef std::unordered_map<int, std::string> UIS;

template<typename T> struct Tag {};
#define ALL(X) \
    X(bool, "bool", 0) X(char, "char", 0) X(signed char, "signed char", 0) X(unsigned char, "unsigned char", 0) \
    X(short, "short int", 0) X(unsigned short, "unsigned short int", 0) X(int, "int", 0) X(unsigned int, "unsigned int", 0) \
    X(long, "long int", 0) X(unsigned long, "unsigned long int", 0) X(long long, "long long int", 0) X(unsigned long long, "unsigned long long int", 0) \
    X(float, "float", 0) X(double, "double", 0) X(long double, "long double", 0) X(std::string, "std::string", 0) \
    X(P, "ht::P", 0) X(C, "ht::C", 0) X(Value, "reflect::Value", 0)  \
    X(P*, "ht::P*", 1) X(P**, "ht::P**", 1) X(C*, "ht::C*", 1) X(std::string*, "std::string*", 1) \
    X(std::vector<int>, "std::vector<int>", 1) X(std::vector<P>, "std::vector<ht::P>", 1) X(std::vector<P*>, "std::vector<ht::P*>", 1) \
    X(std::vector< std::vector<int> >, "std::vector<std::vector<int>>", 1) X(std::vector<int>*, "std::vector<int>*", 1) \
    X(MSI, "std::map<std::string,int>", 1) X(MIS, "std::map<int,std::string>", 1) X(USI, "std::unordered_map<std::string,int>", 1) X(UIS, "std::unordered_map<int,std::string>", 1) \
    X(std::shared_ptr<P>, "std::shared_ptr<ht::P>", 1) X(std::shared_ptr<C>, "std::shared_ptr<ht::C>", 1) X(std::unique_ptr<P>, "std::unique_ptr<ht::P>", 1) \
    X(std::vector< std::shared_ptr<P> >, "std::vector<std::shared_ptr<ht::P>>", 1)
enum { N = 36 };

template<typename T> const Type* spelled(unsigned how)
{
    switch (how) {
    case 0: return type<T>();
    case 1: return type<T&>();
    case 2: return type<const T&>();
    case 3: return type<T&&>();
    case 4: return type<const T>();
    case 5: return Argument::make<const T&&>().type();
    case 6: return Argument::make<T&>().type();
    default: return Argument::make<T>().type();
    }
}
const Type* nth(unsigned i, unsigned how)
{
    unsigned n = 0;
#define X(T, id, templ) if (i == n++) return spelled<T>(how);
    ALL(X)
#undef X
    return nullptr;
}
std::string nthId(unsigned i)
{
    unsigned n = 0;
#define X(T, id, templ) if (i == n++) return typeId<T>();
    ALL(X)
#undef X
    return "";
}
bool isTemplate(unsigned i)
{
    static const bool all[] = {
#define X(T, id, templ) templ,
    ALL(X)
#undef X
    };
    return all[i];
}
const char* documented(unsigned i)
{
    static const char* all[] = {
#define X(T, id, templ) id,
    ALL(X)
#undef X
    };
    return all[i];
}
}

// The name of a type: the tree decides how numbers are spelled, the templates follow from their parameters.
extern "C" void prop_identity()
{
    unsigned i = sym_choose(N, "type"), how = sym_choose(8, "spelling"), j = i;
    if (!how) j = sym_choose(N, "other");
    const Type* a = nth(i, how); const Type* b = nth(j, 0);
    sym_check(a && b && (a == b) == (i == j), "one type object for each type");
    sym_check((a->id() == b->id()) == (i == j), "different types have different names");
    sym_check(a->id() == nthId(i), "name of a type");
    if (isTemplate(i) || (i >= 12 && i <= 18)) sym_check(a->id() == documented(i), "templates are named after their parameters");
    sym_check(type(a->id()) == a, "a type is found by its name");
    sym_check(type<P>()->isParentOf(a) == (i == 16 || i == 17), "unrelated types");
    Argument x(a, RefType::LValue, false), y(b, RefType::LValue, false);
    sym_check((x == y) == (i == j), "arguments of different types differ");
}

// const in the pointee does not make another type
extern "C" void prop_order()
{
    sym_check(type<const P*>() == type<P*>() && type<P* const>() == type<P*>() && type<const P* const&>() == type<P*>(), "constness of pointees");
    struct U { static const Type* get(unsigned k) {
        switch (k) {
        case 0: return type< std::vector< std::vector<P> > >();
        case 1: return type< std::map<std::string, std::vector<C> > >();
        case 2: return type< std::vector<C>* >();
        case 3: return type< std::shared_ptr< std::vector<C> > >();
        case 4: return type< std::unordered_map<std::string, std::shared_ptr<C> > >();
        default: return type< std::unique_ptr<C> >();
        }
    } };
    static const char* const ids[] = { "std::vector<std::vector<ht::P>>", "std::map<std::string,std::vector<ht::C>>", "std::vector<ht::C>*", "std::shared_ptr<std::vector<ht::C>>", "std::unordered_map<std::string,std::shared_ptr<ht::C>>", "std::unique_ptr<ht::C>" };
    const Type* seen[6] = { nullptr, nullptr, nullptr, nullptr, nullptr, nullptr };
    for (int k = 0; k < B_K; ++k) {
        unsigned n = sym_choose(6, "first use"), m = sym_choose(6, "by name");
        const Type* t = U::get(n);
        sym_check(!seen[n] || seen[n] == t, "the same type every time");
        seen[n] = t;
        sym_check(t->id() == ids[n] && type(ids[n]) == t, "a template is found by name once it was used");
        const Type* found = nullptr;
        bool missing = raises([&] { found = type(ids[m]); });
        if (seen[m]) sym_check(!missing && found == seen[m], "the same type by name");
        if (found) seen[m] = found;
    }
    for (int k = 0; k < 6; ++k) {
        const Type* t = U::get(k);
        sym_check(t && (!seen[k] || seen[k] == t) && t->id() == ids[k], "the same type in the end");
    }
    const Type* inner = type< std::vector<C> >();
    sym_check(U::get(1)->getValue<const Type*>("valueType") == inner && U::get(2)->pointee() == inner && U::get(3)->pointee() == inner && U::get(0)->getValue<const Type*>("valueType") == type< std::vector<P> >(), "types of the parameters");
    sym_check(U::get(2)->pointer() != U::get(3)->pointer() && U::get(3)->pointer() != U::get(5)->pointer() && U::get(5)->pointee() == type<C>() && U::get(1)->getValue<const Type*>("keyType") == type<std::string>(), "types of the parameters");
}

// a name which differs in a single byte is another name
extern "C" void prop_spelling()
{
    static const char* const ids[] = { "ht::P", "ht::P*", "std::vector<ht::P>", "std::vector<ht::C>", "std::shared_ptr<ht::P>", "std::map<std::string,ht::P>", "float", "std::string" };
    const Type* known[] = { type<P>(), type<P*>(), type< std::vector<P> >(), type< std::vector<C> >(), type< std::shared_ptr<P> >(), type< std::map<std::string, P> >(), type<float>(), type<std::string>() };
    const Type* others[] = { type<C>(), type<C*>(), type< std::shared_ptr<C> >(), type< std::map<std::string, C> >() };
    static const char* const otherIds[] = { "ht::C", "ht::C*", "std::shared_ptr<ht::C>", "std::map<std::string,ht::C>" };
    unsigned i = sym_choose(8, "type");
    std::string name = ids[i];
    unsigned pos = sym_choose(name.size(), "position");
    char c = (char)sym_u(8, "byte");
    name[pos] = c;
    const Type* expect = nullptr;
    for (unsigned k = 0; k < 8; ++k) if (name == ids[k]) expect = known[k];
    for (unsigned k = 0; k < 4; ++k) if (name == otherIds[k]) expect = others[k];
    // classes declared in the same namespace, looked up by nothing above
    static const char* const rest[] = { "ht::G", "ht::U", "ht::X" };
    for (const char* r : rest) if (name == r) return;
    const Type* t = nullptr;
    bool missing = raises([&] { t = type(name); });
    sym_check(missing == !expect && t == expect, "a type is found by its own name only");
}
