// Class and pointer relations.
// @check C08 libs=core,prims,std entries=prop_relation,prop_deep,prop_static,prop_members quick=-DB_N=3,-DB_P=3,-DB_D=7,-DB_M=4 thorough=-DB_N=4,-DB_P=3,-DB_D=16,-DB_M=4
// @bounds C08 every forest of B_N dynamically built classes with B_P pointer types of two kinds over them (pointers to pointers included), all pairs and triples; hierarchies of up to B_D levels with a second branch starting at any level, and towers of pointers to them of any height up to B_D; chains of B_M classes, each with or without a field, a function and a trait, with pointers to them and an unrelated class with the same members; the static class and pointer types of types.h
#include "types.h"
#include "types/pointer.h"
#include "types/std/smart_ptr.h"
using namespace reflect;
using namespace ht;

extern "C" void prop_relation()
{
    preload();
    sym_expect("related pointers"); sym_expect("unrelated pointers"); sym_expect("derived"); sym_expect("other kind");
    enum { N = B_N + B_P };
    Type* t[N]; int parent[N], pointee[N], kind[N];
    bool rel[N][N];
    for (int i = 0; i < N; ++i) {
        t[i] = new Type("t" + std::to_string(i));
        parent[i] = pointee[i] = -1; kind[i] = -1;
        if (i < B_N) {
            parent[i] = int(sym_choose(i + 1, "parent")) - 1;
            if (parent[i] >= 0) t[i]->parent(t[parent[i]]);
        } else {
            kind[i] = sym_choose(2, "kind"); pointee[i] = sym_choose(i, "pointee");
            t[i]->setPointer(kind[i] ? "std::shared_ptr" : "*", t[pointee[i]]);
        }
        // rows are filled in order: everything a row depends on has a lower index
        for (int j = 0; j <= i; ++j) {
            for (int s = 0; s < 2; ++s) {
                int a = s ? j : i, b = s ? i : j;
                bool r = a == b;
                if (!r && kind[a] >= 0 && kind[b] >= 0) r = kind[a] == kind[b] && rel[pointee[a]][pointee[b]];
                else if (!r && kind[a] < 0 && parent[a] >= 0) r = a > b && rel[parent[a]][b];
                rel[a][b] = r;
            }
        }
    }
    for (int i = 0; i < N; ++i) {
        sym_check(t[i]->isPointer() == (kind[i] >= 0), "pointer trait");
        sym_check(t[i]->parent() == (parent[i] < 0 ? nullptr : t[parent[i]]), "declared parent");
        if (kind[i] >= 0) {
            sym_check(t[i]->pointee() == t[pointee[i]] && t[i]->pointer() == (kind[i] ? "std::shared_ptr" : "*"), "declared pointee");
            sym_check(raises([&] { t[i]->setPointer("*", t[0]); }) && t[i]->pointee() == t[pointee[i]], "a pointer type stays what it is");
        }
        else sym_check(raises([&] { t[i]->pointee(); }) && raises([&] { t[i]->pointer(); }), "a class has no pointee");
        for (int j = 0; j < N; ++j) {
            sym_check(t[i]->isChildOf(t[j]) == rel[i][j], "child relation");
            sym_check(t[j]->isParentOf(t[i]) == rel[i][j], "parent relation");
            if (kind[i] >= 0 && kind[j] >= 0 && i != j) sym_cover(kind[i] != kind[j] ? "other kind" : rel[i][j] ? "related pointers" : "unrelated pointers");
            if (kind[i] < 0 && i != j && rel[i][j]) sym_cover("derived");
            for (int k = 0; k < N; ++k)
                if (t[i]->isChildOf(t[j]) && t[j]->isChildOf(t[k])) sym_check(t[i]->isChildOf(t[k]), "transitivity");
            if (i != j) sym_check(!(t[i]->isChildOf(t[j]) && t[j]->isChildOf(t[i])) || kind[i] >= 0, "two classes are each other's child");
        }
    }
}

extern "C" void prop_deep()
{
    preload();
    sym_expect("deep");
    // main chain 0 <- 1 <- ... and a branch b leaving it at some level
    Type* t[B_D]; Type* b[B_D];
    unsigned fork = sym_choose(B_D, "fork");
    for (unsigned i = 0; i < B_D; ++i) {
        t[i] = new Type("t" + std::to_string(i));
        if (i) t[i]->parent(t[i - 1]);
    }
    for (unsigned i = fork; i < B_D; ++i) {
        b[i] = new Type("b" + std::to_string(i));
        if (i) b[i]->parent(i == fork ? t[i - 1] : b[i - 1]);
    }
    unsigned i = sym_choose(B_D, "i"), j = sym_choose(B_D, "j"), h = sym_choose(B_D, "height");
    const Type* x = t[i]; const Type* y = t[j];
    const Type* w = i >= fork ? b[i] : t[i];
    for (unsigned k = 0; k < h; ++k) {
        Type* px = new Type(x->id() + "*"); px->setPointer("*", x); x = px;
        Type* py = new Type(y->id() + "*"); py->setPointer("*", y); y = py;
        Type* pw = new Type(w->id() + "*"); pw->setPointer("*", w); w = pw;
    }
    if (i >= j + 3) sym_cover("deep");
    sym_check(x->isChildOf(y) == (i >= j), "child relation in a deep hierarchy");
    sym_check(y->isParentOf(x) == (i >= j), "parent relation in a deep hierarchy");
    if (i >= fork) {
        bool rel = j < fork && i >= j;
        sym_check(w->isChildOf(y) == rel && y->isParentOf(w) == rel, "relation across branches");
        sym_check(!y->isChildOf(w), "relation across branches");
    }
}

extern "C" void prop_static()
{
    preload();
    const Type* c[] = { type<P>(), type<C>(), type<G>(), type<U>(), type<int>(), type<void>() };
    const Type* p[] = { type<P*>(), type<C*>(), type<G*>(), type<U*>(), type<int*>() };
    const Type* s[] = { type<std::shared_ptr<P>>(), type<std::shared_ptr<C>>(), type<std::shared_ptr<G>>(), type<std::shared_ptr<U>>(), type<std::shared_ptr<int>>() };
    const Type* u[] = { type<std::unique_ptr<P>>(), type<std::unique_ptr<C>>(), type<std::unique_ptr<G>>(), type<std::unique_ptr<U>>(), type<std::unique_ptr<int>>() };
    unsigned i = sym_choose(6, "i"), j = sym_choose(6, "j");
    bool r = i == j || (j < i && i < 3);
    sym_check(c[i]->isChildOf(c[j]) == r && c[j]->isParentOf(c[i]) == r, "static classes");
    sym_check(c[i]->isChildOf<P>() == (i < 3) && c[i]->isParentOf<G>() == (i < 3), "typed queries");
    if (i == 5 || j == 5) return;
    sym_check(p[i]->isChildOf(p[j]) == r && s[i]->isChildOf(s[j]) == r && u[i]->isChildOf(u[j]) == r, "static pointers");
    sym_check(!p[i]->isChildOf(s[j]) && !s[i]->isChildOf(p[j]) && !u[i]->isChildOf(s[j]) && !s[i]->isChildOf(u[j]), "pointers of different kinds are unrelated");
    sym_check(!p[i]->isChildOf(c[j]) && !c[i]->isChildOf(p[j]) && !s[i]->isChildOf(c[j]), "pointers and classes are unrelated");
    sym_check(p[i]->pointee() == c[i] && s[i]->pointee() == c[i] && u[i]->pointee() == c[i], "pointees");
    sym_check(p[i]->pointer() == "*" && s[i]->pointer() == "std::shared_ptr" && u[i]->pointer() == "std::unique_ptr", "pointer kinds");
}


// what a class holds doesn't matter for what it's related to
extern "C" void prop_members()
{
    preload();
    Type* t[B_M + 1]; Type* p[B_M + 1];
    unsigned shared = sym_choose(3, "other class");
    for (int i = 0; i <= B_M; ++i) {
        t[i] = new Type(std::string(1, char('a' + i)));
        bool last = i == B_M;
        unsigned with = last ? (shared == 2 ? 7 : 0) : sym_choose(8, "members");
        if (with & 1) t[i]->addField(last ? "f0" : "f" + std::to_string(i), Field::make<int>("f", 0));
        if (with & 2) t[i]->addFunction(last ? "g0" : "g" + std::to_string(i), Function("g", [] (int i) { return i; }));
        if (with & 4) t[i]->addTrait(last ? "h0" : "h" + std::to_string(i));
        if (i && !last) t[i]->parent(t[i - 1]);
        if (last && shared == 1) t[i]->parent(t[0]);
        p[i] = new Type(t[i]->id() + "*"); p[i]->setPointer("*", t[i]);
    }
    for (int i = 0; i <= B_M; ++i) for (int j = 0; j <= B_M; ++j) {
        bool want = i == j || (i == B_M ? shared == 1 && j == 0 : j < i && j != B_M);
        sym_check(t[i]->isChildOf(t[j]) == want && t[j]->isParentOf(t[i]) == want, "class relation");
        sym_check(p[i]->isChildOf(p[j]) == want && p[j]->isParentOf(p[i]) == want, "pointer relation");
        sym_check(!p[i]->isChildOf(t[j]) && !t[i]->isChildOf(p[j]), "pointers and classes are unrelated");
        if (i != j) { Argument a(t[i], RefType::LValue, false), b(t[j], RefType::LValue, true); sym_check((a.isConvertibleTo(b) != Match::None) == want, "binding"); }
    }
}
