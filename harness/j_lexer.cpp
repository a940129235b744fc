// Token stream of arbitrary input bytes against an independent reference tokenizer.
// @check J02 libs=core,prims,std,json entries=prop_tokens,prop_tokens_string,prop_tokens_number quick=-DB_N=4,-DB_NS=4,-DB_NN=6 thorough=-DB_N=5,-DB_NS=6,-DB_NN=8
// @bounds J02 every input of up to N bytes over all 256 byte values x 8 option combinations; string bodies of NS free bytes followed by a quote; number texts of up to NN bytes over the number alphabet
#include "sym.h"
#include "json_ref.h"
#include "utils/json.h"
#include <sstream>
using namespace reflect;
using namespace reflect::json;

namespace {
RT kind(Token::Type t)
{
    switch (t) {
    case Token::ObjectStart: return R_OS; case Token::ObjectEnd: return R_OE;
    case Token::ArrayStart: return R_AS; case Token::ArrayEnd: return R_AE;
    case Token::Separator: return R_SEP; case Token::KeySeparator: return R_KEY;
    case Token::String: return R_STR; case Token::Int: return R_INT; case Token::Float: return R_FLT;
    case Token::Bool: return R_BOOL; case Token::Null: return R_NULL; case Token::EOS: return R_EOS;
    default: return R_ERR;
    }
}

void compare(const unsigned char* buf, size_t n, int opts)
{
    std::istringstream ss(std::string((const char*)buf, n));
    Reader reader(ss, Reader::Options(opts));
    Ref ref = { buf, n, 0, bool(opts & Reader::AllowComments), bool(opts & Reader::UnescapeUnicode), bool(opts & Reader::ValidateUnicode), "", false };
    for (size_t k = 0; k <= n + 1; ++k) {
        RT want = ref.next();
        Token tok = reader.nextToken();
        if (want == R_ERR) {
            sym_check(bool(reader.error()), "malformed token not reported");
            sym_cover("malformed");
            return;
        }
        sym_check(!reader.error(), "well-formed token reported as an error");
        sym_check(kind(tok.type()) == want, "token type differs");
        if (want == R_STR) {
            std::string got = tok.asString();
            sym_check(got.size() == ref.text.size() && got == ref.text, "string token content differs");
            sym_cover("string");
        }
        if (want == R_BOOL) sym_check(tok.asBool() == ref.b, "bool token value differs");
        if (want == R_INT || want == R_FLT) sym_cover("number");
        if (want == R_EOS) { sym_cover("eos"); return; }
    }
    sym_fail("more tokens than input bytes");
}
} // namespace

extern "C" void prop_tokens()
{
    sym_expect("malformed"); sym_expect("eos"); sym_expect("number"); sym_expect("string");
    unsigned char buf[B_N];
    size_t n = sym_choose(B_N + 1, "len");
    int opts = sym_choose(8, "opts");
    sym_bytes(buf, n, "text");
    compare(buf, n, opts);
}

extern "C" void prop_tokens_string()
{
    sym_expect("string");
    unsigned char buf[B_NS + 2];
    int opts = sym_choose(8, "opts");
    sym_assume(!(opts & Reader::AllowComments));
    buf[0] = '"'; buf[B_NS + 1] = '"';
    sym_bytes(buf + 1, B_NS, "body");
    compare(buf, B_NS + 2, opts);
}

extern "C" void prop_tokens_number()
{
    sym_expect("number"); sym_expect("malformed");
    unsigned char buf[B_NN];
    static const char alpha[] = "0179-+.eE,";
    size_t n = 1 + sym_choose(B_NN, "len");
    sym_bytes(buf, n, "num");
    for (size_t i = 0; i < n; ++i) {
        unsigned char c = buf[i];
        sym_assume(bool((c >= '0') & (c <= '9')) | (c == '-') | (c == '+') | (c == '.') | (c == 'e') | (c == 'E') | (c == ','));
    }
    (void)alpha;
    compare(buf, n, Reader::Default);
}
