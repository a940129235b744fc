// Symbolic-execution stand-in for the iostreams used by the library: same class names and
// templates (so that mangled names and overloads agree with <iosfwd>), in-memory buffers only,
// with the eof/fail state transitions of the standard (27.7.2.3).
#pragma once
#include <iosfwd>
#include <string>
#include <utility>
#include <cstddef>
#include <cstdio>
#include <cstring>

namespace std {

typedef ptrdiff_t streamsize_verif;

class ios_base {
public:
    typedef unsigned iostate;
    static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
    typedef unsigned openmode;
    static constexpr openmode in = 8, out = 16, app = 1, ate = 2, binary = 4, trunc = 32;
    typedef unsigned fmtflags;
    static constexpr fmtflags dec_ = 0, hex_ = 1;
    typedef int seekdir;
    static constexpr seekdir beg = 0, cur = 1, end = 2;
    ios_base() : st_(0), width_(0), fill_(' '), hex(false), alpha(false), upper(false), base(false), skip(true), prec_(6) {}
    virtual ~ios_base() {}
    std::streamsize width() const { return width_; }
    std::streamsize width(std::streamsize w) { std::streamsize o = width_; width_ = w; return o; }
    std::streamsize precision() const { return prec_; }
    std::streamsize precision(std::streamsize p) { std::streamsize o = prec_; prec_ = p; return o; }
    iostate st_; int width_; char fill_; bool hex, alpha, upper, base, skip; std::streamsize prec_;
};

template<typename C, typename T>
class basic_ios : public ios_base {
public:
    typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
    iostate rdstate() const { return st_; }
    void clear(iostate s = 0) { st_ = s; }
    void setstate(iostate s) { st_ |= s; }
    void _M_setstate(iostate s) { st_ |= s; }
    C fill() const { return this->fill_; }
    C fill(C c) { C o = this->fill_; this->fill_ = c; return o; }
    bool good() const { return st_ == 0; }
    bool eof() const { return st_ & eofbit; }
    bool fail() const { return st_ & (badbit | failbit); }
    bool bad() const { return st_ & badbit; }
    basic_streambuf<C, T>* rdbuf() const { return sb_; }
    basic_streambuf<C, T>* rdbuf(basic_streambuf<C, T>* b) { basic_streambuf<C, T>* o = sb_; sb_ = b; clear(); return o; }
    C widen(char c) const { return C(c); }
    char narrow(C c, char) const { return char(c); }
    explicit operator bool() const { return !fail(); }
    bool operator!() const { return fail(); }
    basic_ios() : sb_(0) {}
    basic_streambuf<C, T>* sb_;
};

template<typename C, typename T>
class basic_streambuf {
public:
    typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
    virtual ~basic_streambuf() {}
    int_type sgetc() { return g_ < ge_ ? T::to_int_type(*g_) : underflow(); }
    int_type sbumpc() { return g_ < ge_ ? T::to_int_type(*g_++) : uflow(); }
    int_type snextc() { return T::eq_int_type(sbumpc(), T::eof()) ? T::eof() : sgetc(); }
    streamsize sgetn(C* s, streamsize n) { return xsgetn(s, n); }
    streamsize in_avail() { return g_ < ge_ ? ge_ - g_ : showmanyc(); }
    int_type sungetc() { return gb_ < g_ ? T::to_int_type(*--g_) : pbackfail(T::eof()); }
    int_type sputbackc(C c) { return gb_ < g_ && g_[-1] == c ? T::to_int_type(*--g_) : pbackfail(T::to_int_type(c)); }
    int_type sputc(C c) { if (p_ < pe_) { *p_++ = c; return T::to_int_type(c); } return overflow(T::to_int_type(c)); }
    streamsize sputn(const C* s, streamsize n) { return xsputn(s, n); }
    int pubsync() { return sync(); }
    pos_type pubseekoff(off_type o, ios_base::seekdir d, ios_base::openmode m = ios_base::in | ios_base::out) { return seekoff(o, d, m); }
    pos_type pubseekpos(pos_type p, ios_base::openmode m = ios_base::in | ios_base::out) { return seekpos(p, m); }
protected:
    basic_streambuf() : gb_(0), g_(0), ge_(0), pb_(0), p_(0), pe_(0) {}
    C* eback() const { return gb_; } C* gptr() const { return g_; } C* egptr() const { return ge_; }
    void setg(C* b, C* g, C* e) { gb_ = b; g_ = g; ge_ = e; }
    void gbump(int n) { g_ += n; }
    C* pbase() const { return pb_; } C* pptr() const { return p_; } C* epptr() const { return pe_; }
    void setp(C* b, C* e) { pb_ = p_ = b; pe_ = e; }
    void pbump(int n) { p_ += n; }
    virtual int sync() { return 0; }
    virtual pos_type seekoff(off_type, ios_base::seekdir, ios_base::openmode) { return pos_type(off_type(-1)); }
    virtual pos_type seekpos(pos_type p, ios_base::openmode m) { return seekoff(off_type(p), ios_base::beg, m); }
    virtual streamsize showmanyc() { return 0; }
    virtual streamsize xsgetn(C* s, streamsize n) { streamsize k = 0; for (; k < n; ++k) { int_type c = sbumpc(); if (T::eq_int_type(c, T::eof())) break; s[k] = T::to_char_type(c); } return k; }
    virtual int_type underflow() { return T::eof(); }
    virtual int_type uflow() { int_type c = underflow(); if (!T::eq_int_type(c, T::eof())) g_++; return c; }
    virtual int_type pbackfail(int_type) { return T::eof(); }
    virtual streamsize xsputn(const C* s, streamsize n) { streamsize k = 0; for (; k < n; ++k) if (T::eq_int_type(sputc(s[k]), T::eof())) break; return k; }
    virtual int_type overflow(int_type = T::eof()) { return T::eof(); }
private:
    C *gb_, *g_, *ge_, *pb_, *p_, *pe_;
};

template<typename C, typename T>
class basic_istream : virtual public basic_ios<C, T> {
public:
    typedef typename T::int_type int_type;
    typedef basic_istream<C, T> Self;
    explicit basic_istream(basic_streambuf<C, T>* b) : gcount_(0) { this->sb_ = b; if (!b) this->setstate(ios_base::badbit); }
    struct sentry {
        explicit sentry(Self& s, bool noskip = false) : ok(false) {
            if (!s.good()) { s.setstate(ios_base::failbit); return; }
            if (!noskip && s.skip) for (;;) {
                int_type c = s.sb_->sgetc();
                if (T::eq_int_type(c, T::eof())) { s.setstate(ios_base::eofbit | ios_base::failbit); return; }
                if (!(c == ' ' || (c >= 9 && c <= 13))) break;
                s.sb_->sbumpc();
            }
            ok = true;
        }
        explicit operator bool() const { return ok; }
        bool ok;
    };

    int_type get() {
        gcount_ = 0;
        if (!this->good()) { this->setstate(ios_base::failbit); return T::eof(); }
        int_type c = this->sb_->sbumpc();
        if (T::eq_int_type(c, T::eof())) { this->setstate(ios_base::eofbit | ios_base::failbit); return T::eof(); }
        gcount_ = 1;
        return c;
    }
    Self& get(C& c) { int_type r = get(); if (!T::eq_int_type(r, T::eof())) c = T::to_char_type(r); return *this; }
    int_type peek() {
        gcount_ = 0;
        if (!this->good()) { this->setstate(ios_base::failbit); return T::eof(); }
        int_type c = this->sb_->sgetc();
        if (T::eq_int_type(c, T::eof())) this->setstate(ios_base::eofbit);
        return c;
    }
    Self& unget() {
        gcount_ = 0;
        this->clear(this->rdstate() & ~ios_base::eofbit);
        if (!this->good()) { this->setstate(ios_base::failbit); return *this; }
        if (T::eq_int_type(this->sb_->sungetc(), T::eof())) this->setstate(ios_base::badbit);
        return *this;
    }
    Self& putback(C c) {
        gcount_ = 0;
        this->clear(this->rdstate() & ~ios_base::eofbit);
        if (!this->good()) { this->setstate(ios_base::failbit); return *this; }
        if (T::eq_int_type(this->sb_->sputbackc(c), T::eof())) this->setstate(ios_base::badbit);
        return *this;
    }
    Self& read(C* s, streamsize n) {
        gcount_ = 0;
        if (!this->good()) { this->setstate(ios_base::failbit); return *this; }
        gcount_ = this->sb_->sgetn(s, n);
        if (gcount_ < n) this->setstate(ios_base::eofbit | ios_base::failbit);
        return *this;
    }
    Self& getline(C* s, streamsize n) { return getline(s, n, C('\n')); }
    Self& getline(C* s, streamsize n, C d) {
        gcount_ = 0;
        streamsize k = 0;
        if (!this->good()) { this->setstate(ios_base::failbit); if (n > 0) *s = C(); return *this; }
        for (;;) {
            int_type c = this->sb_->sgetc();
            if (T::eq_int_type(c, T::eof())) { this->setstate(ios_base::eofbit | (gcount_ ? 0 : ios_base::failbit)); break; }
            if (T::eq_int_type(c, T::to_int_type(d))) { this->sb_->sbumpc(); gcount_++; break; }
            if (k + 1 >= n) { this->setstate(ios_base::failbit); break; }
            s[k++] = T::to_char_type(c); gcount_++;
            this->sb_->sbumpc();
        }
        if (n > 0) s[k] = C();
        return *this;
    }
    Self& ignore(streamsize n = 1, int_type d = T::eof()) {
        gcount_ = 0;
        if (!this->good()) { this->setstate(ios_base::failbit); return *this; }
        while (gcount_ < n) {
            int_type c = this->sb_->sbumpc();
            if (T::eq_int_type(c, T::eof())) { this->setstate(ios_base::eofbit); break; }
            gcount_++;
            if (T::eq_int_type(c, d)) break;
        }
        return *this;
    }
    streamsize gcount() const { return gcount_; }
    streamsize readsome(C* s, streamsize n) { gcount_ = 0; if (!this->good()) { this->setstate(ios_base::failbit); return 0; } streamsize k = this->sb_->in_avail(); return gcount_ = k > 0 ? this->sb_->sgetn(s, k < n ? k : n) : 0; }
    typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
    pos_type tellg() { return this->fail() ? pos_type(off_type(-1)) : this->sb_->pubseekoff(0, ios_base::cur, ios_base::in); }
    Self& seekg(pos_type p) { this->clear(this->rdstate() & ~ios_base::eofbit); if (!this->fail() && this->sb_->pubseekpos(p, ios_base::in) == pos_type(off_type(-1))) this->setstate(ios_base::failbit); return *this; }
    Self& seekg(off_type o, ios_base::seekdir d) { this->clear(this->rdstate() & ~ios_base::eofbit); if (!this->fail() && this->sb_->pubseekoff(o, d, ios_base::in) == pos_type(off_type(-1))) this->setstate(ios_base::failbit); return *this; }
    Self& operator>>(Self& (*f)(Self&)) { return f(*this); }
    Self& operator>>(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
    Self& operator>>(short& v) { return getInt(v); }
    Self& operator>>(unsigned short& v) { return getInt(v); }
    Self& operator>>(int& v) { return getInt(v); }
    Self& operator>>(unsigned& v) { return getInt(v); }
    Self& operator>>(long& v) { return getInt(v); }
    Self& operator>>(unsigned long& v) { return getInt(v); }
    Self& operator>>(long long& v) { return getInt(v); }
    Self& operator>>(unsigned long long& v) { return getInt(v); }
protected:
    // decimal or hexadecimal digits of the range of V, which is clamped to its bounds (with failbit) otherwise
    template<typename V> Self& getInt(V& v) {
        sentry ok(*this);
        if (!ok) return *this;
        V hi = V(-1) > V(0) ? V(-1) : V((1ul << (sizeof(V) * 8 - 1)) - 1), lo = V(-1) > V(0) ? V(0) : V(-hi - 1);
        unsigned base = this->hex ? 16 : 10;
        bool neg = false, any = false, over = false; unsigned long r = 0;
        int_type c = this->sb_->sgetc();
        if (c == '-' || c == '+') { neg = c == '-'; c = this->sb_->snextc(); }
        for (;;) {
            unsigned d = c >= '0' && c <= '9' ? c - '0' : base == 16 && c >= 'a' && c <= 'f' ? c - 'a' + 10 : base == 16 && c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99;
            if (d == 99) break;
            any = true;
            if (r > (~0ul - d) / base) over = true; else r = r * base + d;
            c = this->sb_->snextc();
        }
        if (T::eq_int_type(c, T::eof())) this->setstate(ios_base::eofbit);
        if (!any) { v = 0; this->setstate(ios_base::failbit); return *this; }
        unsigned long max = neg && V(-1) < V(0) ? (unsigned long)hi + 1 : (unsigned long)hi;
        if (over || r > max) { v = neg && V(-1) < V(0) ? lo : hi; this->setstate(ios_base::failbit); }
        else v = neg ? V(0ul - r) : V(r);
        return *this;
    }
    streamsize gcount_;
};
template<typename C, typename T> basic_istream<C, T>& ws(basic_istream<C, T>& i) {
    for (;;) {
        int c = i.rdbuf()->sgetc();
        if (T::eq_int_type(c, T::eof())) { i.setstate(ios_base::eofbit); break; }
        if (!(c == ' ' || (c >= 9 && c <= 13))) break;
        i.rdbuf()->sbumpc();
    }
    return i;
}
template<typename T> basic_istream<char, T>& operator>>(basic_istream<char, T>& i, char& c) {
    typename basic_istream<char, T>::sentry ok(i);
    if (!ok) return i;
    int r = i.rdbuf()->sbumpc();
    if (T::eq_int_type(r, T::eof())) i.setstate(ios_base::eofbit | ios_base::failbit); else c = T::to_char_type(r);
    return i;
}
template<typename T, typename A> basic_istream<char, T>& operator>>(basic_istream<char, T>& i, basic_string<char, T, A>& s) {
    typename basic_istream<char, T>::sentry ok(i);
    if (!ok) return i;
    s.erase();
    streamsize w = i.width(); i.width(0);
    for (streamsize k = 0; w <= 0 || k < w; ++k) {
        int c = i.rdbuf()->sgetc();
        if (T::eq_int_type(c, T::eof())) { i.setstate(ios_base::eofbit); break; }
        if (c == ' ' || (c >= 9 && c <= 13)) break;
        s.push_back(char(c)); i.rdbuf()->sbumpc();
    }
    if (s.empty()) i.setstate(ios_base::failbit);
    return i;
}
template<typename T, typename A> basic_istream<char, T>& getline(basic_istream<char, T>& i, basic_string<char, T, A>& s, char d) {
    typename basic_istream<char, T>::sentry ok(i, true);
    if (!ok) return i;
    s.erase();
    for (bool any = false;; any = true) {
        int c = i.rdbuf()->sbumpc();
        if (T::eq_int_type(c, T::eof())) { i.setstate(any ? ios_base::eofbit : ios_base::eofbit | ios_base::failbit); break; }
        if (char(c) == d) break;
        s.push_back(char(c));
    }
    return i;
}
template<typename T, typename A> basic_istream<char, T>& getline(basic_istream<char, T>& i, basic_string<char, T, A>& s) { return std::getline(i, s, '\n'); }
template<typename C, typename T>
class basic_ostream : virtual public basic_ios<C, T> {
public:
    typedef basic_ostream<C, T> Self;
    explicit basic_ostream(basic_streambuf<C, T>* b) { this->sb_ = b; if (!b) this->setstate(ios_base::badbit); }
    Self& put(C c) { if (!this->good() || T::eq_int_type(this->sb_->sputc(c), T::eof())) this->setstate(ios_base::badbit); return *this; }
    Self& write(const C* s, streamsize n) { if (!this->good() || this->sb_->sputn(s, n) != n) this->setstate(ios_base::badbit); return *this; }
    Self& flush() { if (this->sb_) this->sb_->pubsync(); return *this; }
    Self& operator<<(Self& (*f)(Self&)) { return f(*this); }
    Self& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
    Self& operator<<(bool v) { if (this->alpha) return v ? fmt("true", 4) : fmt("false", 5); return putU(v); }
    typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
    pos_type tellp() { return this->fail() ? pos_type(off_type(-1)) : this->sb_->pubseekoff(0, ios_base::cur, ios_base::out); }
    Self& operator<<(short v) { return putS(v, 16); }
    Self& operator<<(unsigned short v) { return putU(v); }
    Self& operator<<(int v) { return putS(v, 32); }
    Self& operator<<(unsigned v) { return putU(v); }
    Self& operator<<(long v) { return putS(v, 64); }
    Self& operator<<(unsigned long v) { return putU(v); }
    Self& operator<<(long long v) { return putS(v, 64); }
    Self& operator<<(unsigned long long v) { return putU(v); }
    Self& operator<<(const void* p) { write("0x", 2); return putH((unsigned long)p); }
    Self& operator<<(double v) { char b[64]; int n = snprintf(b, sizeof b, "%.*g", (int)this->prec_, v); return fmt(b, n); }
    Self& operator<<(float v) { return *this << (double)v; }
    Self& fmt(const C* s, size_t n) {
        if ((int)n < this->width_) for (size_t i = n; i < (size_t)this->width_; i++) put(this->fill_);
        this->width_ = 0;
        return write(s, n);
    }
protected:
    Self& putU(unsigned long v) { if (this->hex) return putH(v); C b[24]; int n = snprintf(b, sizeof b, "%lu", v); return fmt(b, n); }
    Self& putS(long v, int bits) { if (this->hex) return putH((unsigned long)v & (bits == 64 ? ~0ul : (1ul << bits) - 1)); C b[24]; int n = snprintf(b, sizeof b, "%ld", v); return fmt(b, n); }
    Self& putH(unsigned long v) { C b[24]; int n = this->base && v ? snprintf(b, sizeof b, this->upper ? "0X%lX" : "0x%lx", v) : snprintf(b, sizeof b, this->upper ? "%lX" : "%lx", v); return fmt(b, n); }
};

template<typename T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, const char* s) { return s ? o.fmt(s, strlen(s)) : (o.setstate(ios_base::badbit), o); }
template<typename T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, char c) { return o.fmt(&c, 1); }
template<typename T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, signed char c) { return o << (char)c; }
template<typename T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, unsigned char c) { return o << (char)c; }
template<typename C, typename T> basic_ostream<C, T>& __ostream_insert(basic_ostream<C, T>& o, const C* s, streamsize n) { return o.fmt(s, n); }
template<typename C, typename T> basic_ostream<C, T>& endl(basic_ostream<C, T>& o) { return o.put('\n'); }
template<typename C, typename T> basic_ostream<C, T>& flush(basic_ostream<C, T>& o) { return o; }
inline ios_base& hex(ios_base& b) { b.hex = true; return b; }
inline ios_base& dec(ios_base& b) { b.hex = false; return b; }
inline ios_base& boolalpha(ios_base& b) { b.alpha = true; return b; }
inline ios_base& noboolalpha(ios_base& b) { b.alpha = false; return b; }
inline ios_base& uppercase(ios_base& b) { b.upper = true; return b; }
inline ios_base& nouppercase(ios_base& b) { b.upper = false; return b; }
inline ios_base& showbase(ios_base& b) { b.base = true; return b; }
inline ios_base& noshowbase(ios_base& b) { b.base = false; return b; }
inline ios_base& skipws(ios_base& b) { b.skip = true; return b; }
inline ios_base& noskipws(ios_base& b) { b.skip = false; return b; }
template<typename C, typename T> basic_ostream<C, T>& ends(basic_ostream<C, T>& o) { return o.put(C()); }
struct SetW_ { int n; }; inline SetW_ setw(int n) { SetW_ s = {n}; return s; }
struct SetF_ { char c; }; inline SetF_ setfill(char c) { SetF_ s = {c}; return s; }
struct SetP_ { int n; }; inline SetP_ setprecision(int n) { SetP_ s = {n}; return s; }
template<typename T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, SetW_ s) { o.width_ = s.n; return o; }
template<typename T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, SetF_ s) { o.fill_ = s.c; return o; }
template<typename T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, SetP_ s) { o.prec_ = s.n; return o; }

template<typename C, typename T>
class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> {
public:
    explicit basic_iostream(basic_streambuf<C, T>* b) : basic_istream<C, T>(b), basic_ostream<C, T>(b) {}
};

_GLIBCXX_BEGIN_NAMESPACE_CXX11
// the text read and the text written are the same string; reading starts at the beginning,
// writing at the end
template<typename C, typename T, typename A>
class basic_stringbuf : public basic_streambuf<C, T> {
public:
    typedef typename T::int_type int_type;
    explicit basic_stringbuf(ios_base::openmode m = ios_base::in | ios_base::out) : m_(m) {}
    explicit basic_stringbuf(const basic_string<C, T, A>& s, ios_base::openmode m = ios_base::in | ios_base::out) : buf_(s), m_(m) { sync_(0); if ((m & ios_base::out) && !(m & (ios_base::ate | ios_base::app))) over_ = 0; }
    basic_string<C, T, A> str() const { return buf_; }
    void str(const basic_string<C, T, A>& s) { buf_ = s; over_ = (m_ & ios_base::out) && !(m_ & (ios_base::ate | ios_base::app)) ? 0 : size_t(-1); sync_(0); }
protected:
    void sync_(size_t at) { if (m_ & ios_base::in) this->setg(&buf_[0], &buf_[0] + at, &buf_[0] + buf_.size()); }
    int_type underflow() {
        size_t at = this->gptr() - this->eback();
        if (!(m_ & ios_base::in) || at >= buf_.size()) return T::eof();
        sync_(at);
        return T::to_int_type(buf_[at]);
    }
    int_type overflow(int_type c) { if (T::eq_int_type(c, T::eof())) return T::not_eof(c); C ch = T::to_char_type(c); xsputn(&ch, 1); return c; }
    streamsize xsputn(const C* s, streamsize n) {
        if (!(m_ & ios_base::out)) return 0;
        size_t at = this->gptr() - this->eback();
        if (over_ != size_t(-1)) { // overwrites the initial content
            size_t k = 0;
            for (; k < size_t(n) && over_ < buf_.size(); ++k) buf_[over_++] = s[k];
            if (over_ >= buf_.size()) over_ = size_t(-1);
            if (k < size_t(n)) buf_.append(s + k, n - k);
        }
        else buf_.append(s, n);
        sync_(at);
        return n;
    }
    typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
    pos_type seekoff(off_type o, ios_base::seekdir d, ios_base::openmode m) {
        bool in = m & ios_base::in;
        off_type cur = in ? off_type(this->gptr() - this->eback()) : off_type(over_ == size_t(-1) ? buf_.size() : over_);
        off_type to = o + (d == ios_base::beg ? 0 : d == ios_base::cur ? cur : off_type(buf_.size()));
        if (to < 0 || to > off_type(buf_.size())) return pos_type(off_type(-1));
        if (in) sync_(to);
        if (m & ios_base::out) over_ = size_t(to) == buf_.size() ? size_t(-1) : size_t(to);
        return pos_type(to);
    }
    basic_string<C, T, A> buf_; ios_base::openmode m_; size_t over_ = size_t(-1);
};
template<typename C, typename T, typename A>
class basic_istringstream : public basic_istream<C, T> {
public:
    explicit basic_istringstream(unsigned m = ios_base::in) : basic_istream<C, T>(&b_), b_(m | ios_base::in) {}
    explicit basic_istringstream(const basic_string<C, T, A>& s, unsigned m = ios_base::in) : basic_istream<C, T>(&b_), b_(s, m | ios_base::in) {}
    basic_string<C, T, A> str() const { return b_.str(); }
    void str(const basic_string<C, T, A>& s) { b_.str(s); }
    basic_stringbuf<C, T, A>* rdbuf() const { return const_cast<basic_stringbuf<C, T, A>*>(&b_); }
    basic_stringbuf<C, T, A> b_;
};
template<typename C, typename T, typename A>
class basic_ostringstream : public basic_ostream<C, T> {
public:
    explicit basic_ostringstream(unsigned m = ios_base::out) : basic_ostream<C, T>(&b_), b_(m | ios_base::out) {}
    explicit basic_ostringstream(const basic_string<C, T, A>& s, unsigned m = ios_base::out) : basic_ostream<C, T>(&b_), b_(s, m | ios_base::out) {}
    basic_string<C, T, A> str() const { return b_.str(); }
    void str(const basic_string<C, T, A>& s) { b_.str(s); }
    basic_stringbuf<C, T, A>* rdbuf() const { return const_cast<basic_stringbuf<C, T, A>*>(&b_); }
    basic_stringbuf<C, T, A> b_;
};
template<typename C, typename T, typename A>
class basic_stringstream : public basic_iostream<C, T> {
public:
    explicit basic_stringstream(unsigned m = ios_base::in | ios_base::out) : basic_iostream<C, T>(&b_), b_(m) {}
    explicit basic_stringstream(const basic_string<C, T, A>& s, unsigned m = ios_base::in | ios_base::out) : basic_iostream<C, T>(&b_), b_(s, m) {}
    basic_string<C, T, A> str() const { return b_.str(); }
    void str(const basic_string<C, T, A>& s) { b_.str(s); }
    basic_stringbuf<C, T, A>* rdbuf() const { return const_cast<basic_stringbuf<C, T, A>*>(&b_); }
    basic_stringbuf<C, T, A> b_;
};
_GLIBCXX_END_NAMESPACE_CXX11
// console streams: output discarded
class VerifNullBuf : public basic_streambuf<char, char_traits<char>> { int overflow(int c) { return c == -1 ? 0 : c; } streamsize xsputn(const char*, streamsize n) { return n; } };
class VerifNullOut : public basic_ostream<char, char_traits<char>> { public: VerifNullOut() : basic_ostream(&b) {} VerifNullBuf b; };
static VerifNullOut cout, cerr, clog;
}
