// Printed signatures and descriptions.
// @check C25 libs=core,prims,std entries=prop_signature,prop_signature_fn,prop_type,prop_scope quick=-DB_K=2,-DB_M=2 thorough=-DB_K=4,-DB_M=4
// @bounds C25 signatures of up to B_K arguments and a result over two types of arbitrary two character names and void x {by value, lvalue ref, rvalue ref} x {const, mutable}; types with a parent or none and every sequence of B_M members among 5 kinds, fields at arbitrary offsets below 4096; scopes of depth 3 with every sequence of B_M members among 4 kinds, each with and without traits
#include "types.h"
#include <algorithm>
using namespace reflect;
using namespace ht;
#ifndef B_K
#define B_K 2
#endif
#ifndef B_M
#define B_M 2
#endif

namespace {
struct Line { size_t indent; std::string text; };
typedef std::vector<Line> Lines;
Lines split(const std::string& s)
{
    Lines r; Line l; l.indent = 0; bool lead = true;
    for (size_t i = 0; i <= s.size(); ++i) {
        if (i == s.size() || s[i] == '\n') { if (!lead) r.push_back(l); l.indent = 0; l.text.clear(); lead = true; continue; }
        if (lead && s[i] == ' ') { l.indent++; continue; }
        lead = false; l.text += s[i];
    }
    return r;
}
struct Cursor
{
    Lines l; size_t at;
    explicit Cursor(const std::string& s) : l(split(s)), at(0) {}
    void want(size_t indent, const std::string& text, const char* what)
    {
        sym_check(at < l.size(), "description ends early");
        sym_check(l[at].indent == indent, "indentation of a description");
        sym_check(l[at].text.size() == text.size() && l[at].text == text, what);
        ++at;
    }
};
std::string refOf(RefType r, bool c) { return std::string(c ? " const" : "") + (r == RefType::LValue ? "&" : r == RefType::RValue ? "&&" : ""); }
// the names between brackets are in no particular order
void checkTraits(Cursor& c, size_t indent, bool a, bool b)
{
    if (!a && !b) return;
    sym_check(c.at < c.l.size(), "description ends early");
    const std::string& t = c.l[c.at].text;
    sym_check(c.l[c.at].indent == indent && (a && b ? t == "[ t1 t2 ]" || t == "[ t2 t1 ]" : t == (a ? "[ t1 ]" : "[ t2 ]")), "printed traits");
    c.at++;
}
} // namespace

extern "C" void prop_signature()
{
    sym_expect("none"); sym_expect("many");
    preload();
    char names[2][3] = { { 0 }, { 0 } };
    for (auto& n : names) { sym_bytes(n, 2, "type name"); sym_assume(n[0] != 0 && n[1] != 0); }
    std::string ids[3] = { names[0], names[1], "void" };
    Type* types[2] = { new Type(ids[0]), new Type(ids[1]) };
    std::vector<Argument> args; std::string want;
    size_t n = sym_choose(B_K + 1, "arguments");
    Argument ret;
    for (size_t i = 0; i <= n; ++i) {
        unsigned t = sym_choose(i ? 2 : 3, "type"), r = t == 2 ? 0 : sym_choose(3, "reference"), c = t == 2 ? 0 : sym_choose(2, "const");
        Argument a = t == 2 ? Argument() : Argument(types[t], RefType(r), c);
        std::string text = ids[t] + (t == 2 ? std::string() : refOf(RefType(r), c));
        std::string p = a.print();
        sym_check(p.size() == text.size() && p == text, "printed argument");
        if (!i) { ret = a; want = text + "("; }
        else { args.push_back(a); want += (i > 1 ? ", " : "") + text; }
    }
    want += ")";
    std::string s = signature(ret, args);
    sym_check(s.size() == want.size() && s == want, "printed signature");
    sym_cover(n ? "many" : "none");
}

extern "C" void prop_signature_fn()
{
    sym_expect("done");
    preload(); type<P>();
    std::string s, want;
    switch (sym_choose(7, "function")) {
    case 0: s = signature<void()>(); want = "void()"; break;
    case 1: s = signature<int(const P&, P&&, P, P&)>(); want = "int(" + type<P>()->id() + " const&, " + type<P>()->id() + "&&, " + type<P>()->id() + ", " + type<P>()->id() + "&)"; break;
    case 2: s = signature<const P&(Value, const Value&)>(); want = type<P>()->id() + " const&(reflect::Value, reflect::Value const&)"; break;
    case 3: s = signature<P*(const P*, int*&)>(); want = type<P*>()->id() + "(" + Argument::make<const P*>().print() + ", " + type<int*>()->id() + "&)"; break;
    case 4: { Function f("f", [](int, bool) -> double { return 0; }); s = signature(f); want = "double(int, bool)"; break; }
    case 5: { Function f("f", &P::get); s = signature(f); want = std::string(Argument::make<int64_t>().print()) + "(" + type<P>()->id() + " const&)"; break; }
    case 6: { Function f("f", &P::set); s = signature(f); want = "void(" + type<P>()->id() + "&, " + Argument::make<int64_t>().print() + ")"; break; }
    }
    sym_check(s.size() == want.size() && s == want, "printed signature of a function");
    sym_cover("done");
}

namespace {
struct Members
{
    struct F { size_t offset; std::string text; };
    std::vector<F> fields; // in the order of declaration
    struct G { std::string name; std::vector<std::string> signatures; };
    std::vector<G> fns;
    G& fn(const std::string& n) { for (G& g : fns) if (g.name == n) return g; G g; g.name = n; fns.push_back(g); return fns.back(); }
};
void checkFunctions(Cursor& c, size_t indent, const std::vector<Members::G>& fns)
{
    std::vector<bool> seen(fns.size(), false);
    for (size_t i = 0; i < fns.size(); ++i) {
        sym_check(c.at < c.l.size(), "description ends early");
        size_t k = 0;
        while (k < fns.size() && c.l[c.at].text != fns[k].name + ":") ++k;
        sym_check(k < fns.size() && !seen[k], "each function is listed once");
        if (k >= fns.size()) return;
        seen[k] = true;
        c.want(indent, fns[k].name + ":", "function name");
        for (const std::string& s : fns[k].signatures) c.want(indent + 4, s, "overload");
    }
}
void addFn(Type* t, Members& m, const char* name, unsigned kind)
{
    if (!kind) { t->addFunction(name, [](int) -> int { return 0; }); m.fn(name).signatures.push_back("int(int)"); }
    else { t->addFunction(name, [](const P&, P&) {}); m.fn(name).signatures.push_back("void(" + type<P>()->id() + " const&, " + type<P>()->id() + "&)"); }
}
const char* const fieldNames[] = { "one", "two", "three", "four" };
} // namespace

extern "C" void prop_type()
{
    sym_expect("parent"); sym_expect("fields"); sym_expect("functions"); sym_expect("traits"); sym_expect("empty");
    preload(); type<P>();
    Type* t = new Type("Thing"); Type* b = nullptr;
    Members m; bool traits[2] = { false, false };
    bool based = sym_choose(2, "parent");
    if (based) { b = new Type("Base"); b->addField<int>("base", 16); t->parent(b); sym_cover("parent"); }
    bool fns[2] = { false, false };
    for (int i = 0; i < B_M; ++i) {
        unsigned k = sym_choose(5, "member");
        switch (k) {
        case 0: case 1: {
            size_t offset = sym_u(12, "offset");
            for (const Members::F& f : m.fields) sym_assume(f.offset != offset);
            bool trait = k && sym_choose(2, "trait of the field");
            char hex[20]; snprintf(hex, sizeof hex, "0x%lx", (unsigned long) offset);
            Members::F f; f.offset = offset; f.text = std::string(hex) + ": " + (k ? type<P>()->id() : std::string("int")) + " " + fieldNames[i] + (trait ? " [ t ]" : "");
            m.fields.push_back(f);
            if (k) { t->addField<P>(fieldNames[i], offset); if (trait) t->field(fieldNames[i]).addTrait("t"); }
            else t->addField<int>(fieldNames[i], offset);
            sym_check(t->field(fieldNames[i]).print() == f.text, "printed field");
            sym_cover("fields");
            break;
        }
        case 2: case 3: {
            if (fns[k - 2]) break;
            fns[k - 2] = true;
            addFn(t, m, sym_choose(2, "name") ? "gg" : "f", k - 2);
            sym_cover("functions");
            break;
        }
        case 4: if (traits[i & 1]) break; traits[i & 1] = true; t->addTrait(i & 1 ? "t2" : "t1"); sym_cover("traits"); break;
        }
    }
    std::stable_sort(m.fields.begin(), m.fields.end(), [](const Members::F& a, const Members::F& b) { return a.offset < b.offset; });
    size_t pad = sym_choose(2, "indentation") * 4;
    Cursor c(t->print(pad));
    c.want(pad, "type Thing", "name of a type"); c.want(pad, "{", "bracket");
    if (based) { c.want(pad + 4, "type Base", "name of the parent"); c.want(pad + 4, "{", "bracket"); c.want(pad + 8, "0x10: int base", "field of the parent"); c.want(pad + 4, "}", "bracket"); }
    checkTraits(c, pad + 4, traits[0], traits[1]);
    for (const Members::F& f : m.fields) c.want(pad + 4, f.text, "fields are listed in the order of their offsets");
    checkFunctions(c, pad + 4, m.fns);
    c.want(pad, "}", "bracket");
    sym_check(c.at == c.l.size(), "description lists more than was declared");
    if (m.fields.empty() && m.fns.empty()) sym_cover("empty");
}

extern "C" void prop_scope()
{
    sym_expect("functions"); sym_expect("types"); sym_expect("nested");
    preload(); type<P>();
    static const char* const where[] = { "", "in::", "in::deep::" };
    Scope s("top");
    struct Has { bool exists; bool type[2]; Members m; bool fns[2]; bool trait; } has[3];
    for (Has& h : has) { h.exists = h.trait = false; h.type[0] = h.type[1] = h.fns[0] = h.fns[1] = false; }
    has[0].exists = true;
    for (int i = 0; i < B_M; ++i) {
        unsigned k = sym_choose(4, "member"), w = sym_choose(3, "scope");
        Has& h = has[w];
        std::string p = where[w];
        if (k < 2) {
            if (h.fns[k]) continue;
            h.fns[k] = true;
            if (!k) { s.addFunction(p + "f", [](int) -> int { return 0; }); h.m.fn("f").signatures.push_back("int(int)"); }
            else { s.addFunction(p + "f", [](const P&) {}); h.m.fn("f").signatures.push_back("void(" + type<P>()->id() + " const&)"); }
            sym_cover("functions");
        }
        else if (k == 2) {
            unsigned n = h.type[0];
            if (h.type[n]) continue;
            h.type[n] = true;
            s.addType(p + (n ? "U" : "T"));
            sym_cover("types");
        }
        else {
            if (!h.exists || h.trait) continue;
            h.trait = true;
            (w ? s.scope(w == 1 ? "in" : "in::deep") : &s)->addTrait("t1");
        }
        for (unsigned j = 0; j <= w; ++j) has[j].exists = true;
    }
    if (has[2].exists) sym_cover("nested");
    Cursor c(s.print());
    static const char* const names[] = { "top", "in", "deep" };
    for (unsigned j = 0; j < 3 && has[j].exists; ++j) {
        size_t pad = 4 * j;
        c.want(pad, std::string("scope ") + names[j], "name of a scope"); c.want(pad, "{", "bracket");
        checkTraits(c, pad + 4, has[j].trait, false);
        checkFunctions(c, pad + 4, has[j].m.fns);
        unsigned n = has[j].type[0] + has[j].type[1];
        if (n == 1) c.want(pad + 4, "type T;", "type of a scope");
        if (n == 2) {
            sym_check(c.at + 1 < c.l.size(), "description ends early");
            sym_check((c.l[c.at].text == "type T;" && c.l[c.at + 1].text == "type U;") || (c.l[c.at].text == "type U;" && c.l[c.at + 1].text == "type T;"), "types of a scope");
            c.at += 2;
        }
    }
    for (unsigned j = 3; j-- > 0;) if (has[j].exists) c.want(4 * j, "}", "bracket");
    sym_check(c.at == c.l.size(), "description lists more than was declared");
}
