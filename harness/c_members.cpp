// Member lookup through a class hierarchy and member registration.
// @check C09 libs=core,prims,std entries=prop_lookup quick=-DB_D=3,-DB_M=2 thorough=-DB_D=3,-DB_M=3
// @bounds C09 chains of B_D classes, each of B_M names declared in each class as field, function, overloaded function or not at all
// @check C11 libs=core,prims,std entries=prop_register quick=-DB_K=4 thorough=-DB_K=5
// @bounds C11 every sequence of B_K registrations of 5 kinds over 2 names, with and without a base class that declares one of them
#include "types.h"
#include <set>
using namespace reflect;
using namespace ht;
#ifndef B_D
#define B_D 2
#define B_M 2
#endif
#ifndef B_K
#define B_K 2
#endif

namespace {
const char* const mnames[4] = { "x", "yy", "a", "none" };
}

extern "C" void prop_lookup()
{
    preload();
    sym_expect("inherited"); sym_expect("shadowed"); sym_expect("unknown");
    Type* t[B_D]; int decl[B_D][B_M];      // 0 none 1 field 2 function 3 overloaded function
    for (int d = 0; d < B_D; ++d) {
        t[d] = new Type("c" + std::to_string(d));
        if (d) t[d]->parent(t[d - 1]);
        for (int m = 0; m < B_M; ++m) {
            decl[d][m] = sym_choose(m && B_M == 2 ? 3 : 4, "decl");
            int tag = d * 10 + m;
            if (decl[d][m] == 1) t[d]->addField<int>(mnames[m], 100 + tag);
            if (decl[d][m] >= 2) t[d]->addFunction(mnames[m], [tag]() -> int { return tag; });
            if (decl[d][m] == 3) t[d]->addFunction(mnames[m], [tag](int i) -> int { return tag + 1000 * i; });
        }
    }
    for (int d = 0; d < B_D; ++d) {
        const Type* ct = t[d];
        std::set<std::string> fields, fns;
        for (int m = 0; m <= B_M; ++m) {
            std::string n = m < B_M ? mnames[m] : mnames[3];
            int f = -1, g = -1, nf = 0, ng = 0;
            if (m < B_M) for (int k = 0; k <= d; ++k) {
                if (decl[k][m] == 1) { f = k; nf++; }
                if (decl[k][m] >= 2) { g = k; ng++; }
            }
            if (f >= 0) fields.insert(n);
            if (g >= 0) fns.insert(n);
            if (f >= 0 && f < d) sym_cover("inherited");
            if (nf > 1 && ng > 0) sym_cover("shadowed");
            if (f < 0 && g < 0) sym_cover("unknown");
            sym_check(ct->hasField(n) == (f >= 0) && ct->hasFunction(n) == (g >= 0), "testing for a member");
            const Field* pf = nullptr; const Overloads* pg = nullptr;
            sym_check(raises([&] { pf = &ct->field(n); }) == (f < 0), "looking up an unknown field raises an error");
            sym_check(raises([&] { pg = &ct->function(n); }) == (g < 0), "looking up an unknown function raises an error");
            if (pf) sym_check(pf->offset() == size_t(100 + f * 10 + m) && pf->name() == n && pf->type() == type<int>(), "the nearest field is found");
            if (pg) {
                sym_check(pg->size() == (decl[g][m] == 3 ? 2u : 1u), "overloads aren't merged across classes");
                sym_check(ct->call<int>(n) == g * 10 + m, "the nearest function is called");
                int r = 0;
                bool err = raises([&] { r = ct->call<int>(n, 5); });
                sym_check(decl[g][m] == 3 ? !err && r == g * 10 + m + 5000 : err, "overload of the nearest class");
            }
            bool own = m < B_M && decl[d][m] == 1, ownFn = m < B_M && decl[d][m] >= 2;
            sym_check(raises([&] { t[d]->field(n); }) == !own, "only own fields can be modified");
            sym_check(raises([&] { t[d]->function(n); }) == !ownFn, "only own functions can be modified");
        }
        std::vector<std::string> lf(fields.begin(), fields.end()), lg(fns.begin(), fns.end());
        sym_check(ct->fields() == lf, "field listing is the sorted set of visible names");
        sym_check(ct->functions() == lg, "function listing is the sorted set of visible names");
    }
}

extern "C" void prop_register()
{
    preload();
    sym_expect("refused field"); sym_expect("refused function"); sym_expect("accepted");
    Type* t = new Type("t");
    bool based = sym_choose(2, "base");
    if (based) {
        Type* b = new Type("base");
        b->addField<int>("x", 7); b->addFunction("yy", []() -> int { return 99; });
        t->parent(b);
    }
    int field[2] = { -1, -1 }, fn[2][2] = { { -1, -1 }, { -1, -1 } };
    for (int k = 0; k < B_K; ++k) {
        unsigned op = sym_choose(5, "op"), m = sym_choose(2, "name");
        std::string n = mnames[m]; bool ok = false, err = false;
        bool hasFn = fn[m][0] >= 0 || fn[m][1] >= 0;
        switch (op) {
        case 0: ok = field[m] < 0 && !hasFn; err = raises([&] { t->addField<int>(n, k); }); if (ok) field[m] = k; break;
        case 1: ok = field[m] < 0 && !hasFn; err = raises([&] { t->addField(n, Field::make<const long>(n, k)); }); if (ok) field[m] = k; break;
        case 2: ok = field[m] < 0 && fn[m][0] < 0; err = raises([&] { t->addFunction(n, [k]() -> int { return k; }); }); if (ok) fn[m][0] = k; break;
        case 3: ok = field[m] < 0 && fn[m][1] < 0; err = raises([&] { t->addFunction(n, [k](int i) -> int { return k + i; }); }); if (ok) fn[m][1] = k; break;
        default: err = raises([&] { t->addField<int&>(n, k); }); break;
        }
        sym_cover(ok ? "accepted" : op >= 2 && op <= 3 ? "refused function" : "refused field");
        sym_check(err == !ok, "a registration is refused iff it conflicts");
        const Type* ct = t;
        for (int i = 0; i < 2; ++i) {
            bool f = field[i] >= 0, g = fn[i][0] >= 0 || fn[i][1] >= 0;
            sym_check(ct->hasField(mnames[i]) == (f || (based && i == 0)), "fields after a registration");
            sym_check(ct->hasFunction(mnames[i]) == (g || (based && i == 1)), "functions after a registration");
            sym_check(raises([&] { t->function(mnames[i]); }) == !g && raises([&] { t->field(mnames[i]); }) == !f, "own members after a registration");
            if (f) sym_check(ct->field(mnames[i]).offset() == size_t(field[i]), "the first field stays");
            else if (based && i == 0) sym_check(ct->field("x").offset() == 7, "inherited field");
            if (g) sym_check(ct->function(mnames[i]).size() == size_t((fn[i][0] >= 0) + (fn[i][1] >= 0)), "number of overloads");
            if (fn[i][0] >= 0) sym_check(ct->call<int>(mnames[i]) == fn[i][0], "registered function");
            if (fn[i][1] >= 0) sym_check(ct->call<int>(mnames[i], 1000) == fn[i][1] + 1000, "registered overload");
            if (!g && based && i == 1) sym_check(ct->call<int>("yy") == 99, "inherited function");
        }
    }
}
