// Standard streams for the symbolic build: in-memory files, byte strings that may hold symbolic characters, and numbers parsed and
// printed by the rules of the standard library. A printed floating value is kept as one opaque item (value, precision, type).
// The native replay uses the real library and real files.
#pragma once
#define VP_STUB_STREAMS 1
#include "../../vp.h"
#include <iosfwd>
#include <bits/postypes.h>
#include <string>
#include <string_view>
#include <stdexcept>
#include <system_error>
#include <limits>
#include <type_traits>
#include <utility>
struct VpNum { double v; int prec; char type; };
struct VpFile { std::string* name; std::string* data; };
inline VpNum* vpNums = nullptr; inline int vpNumCount = 0, vpNumCap = 0; inline VpFile vpFiles[32]; inline int vpFileCount = 0;
inline void vpPutNum(std::string& o, double v, int prec, char type) { if (vpNumCount == vpNumCap) { int n = vpNumCap ? 2 * vpNumCap : 64; VpNum* p = new VpNum[n]; for (int i = 0; i < vpNumCount; i++) p[i] = vpNums[i]; vpNums = p; vpNumCap = n; } vpNums[vpNumCount] = VpNum{v, prec, type}; int k = vpNumCount++; o.push_back('\1'); for (int s = 0; s < 3; s++) { o.push_back((char)('0' + (k & 63))); k >>= 6; } }
inline VpNum const& vpGetNum(const char* p) { int k = (p[1] - '0') | (p[2] - '0') << 6 | (p[3] - '0') << 12; return vpNums[k]; }
inline VpFile* vpFind(const char* n, bool create) { size_t l = 0; while (n[l]) l++; if (l == 0 || (l > 6 && n[0] == 'n' && n[1] == 'o' && n[2] == 'd' && n[3] == 'i' && n[4] == 'r' && n[5] == '/')) return nullptr;
  for (int i = 0; i < vpFileCount; i++) if (*vpFiles[i].name == n) return &vpFiles[i]; if (!create || vpFileCount == 32) return nullptr; vpFiles[vpFileCount] = VpFile{new std::string(n), new std::string()}; return &vpFiles[vpFileCount++]; }
// decimal digits of a value that is not a constant: fresh digits tied to the value (exactly one choice of digits fits)
inline void vpSymDigits(std::string& o, unsigned long long v) { int n = 1; unsigned long long p = 10; while (n < 19 && v >= p) { n++; p *= 10; } if (n == 19 && v >= 10000000000000000000ull) n = 20; unsigned long long r = 0; for (int i = 0; i < n; i++) { unsigned long long d = vp_sym_u("printed digit", 64, i == 0 && n > 1 ? 1 : 0, 9); r = r * 10 + d; o.push_back((char)('0' + d)); } vp_assume(r == v); }
template <class U> inline void vpDigits(std::string& o, U v, unsigned base = 10, bool upper = false) { if (base == 10 && vp_is_sym((long long)v)) { vpSymDigits(o, (unsigned long long)v); return; } char t[72]; int n = 0; do { unsigned d = (unsigned)(v % base); t[n++] = (char)(d < 10 ? '0' + d : (upper ? 'A' : 'a') + (d - 10)); v /= base; } while (v); while (n) o.push_back(t[--n]); }
namespace std {
class ios_base { public:
  using fmtflags = int; using iostate = int; using openmode = int; using seekdir = int; using io_state = int; using open_mode = int;
  static constexpr int boolalpha = 1, dec = 2, fixed = 4, hex = 8, internal = 16, left = 32, oct = 64, right = 128, scientific = 256, showbase = 512, showpoint = 1024, showpos = 2048, skipws = 4096, unitbuf = 8192, uppercase = 16384, adjustfield = 16 | 32 | 128, basefield = 2 | 8 | 64, floatfield = 4 | 256;
  static constexpr int goodbit = 0, badbit = 1, eofbit = 2, failbit = 4; static constexpr int app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32; static constexpr int beg = 0, cur = 1, end = 2;
  class failure : public system_error { public: explicit failure(const string& s) : system_error(make_error_code(errc::io_error), s) {} };
  struct Init {};
  int flags() const { return fl_; } int flags(int f) { int o = fl_; fl_ = f; return o; } int setf(int f) { int o = fl_; fl_ |= f; return o; } int setf(int f, int m) { int o = fl_; fl_ = (fl_ & ~m) | (f & m); return o; } void unsetf(int m) { fl_ &= ~m; }
  streamsize precision() const { return pr_; } streamsize precision(streamsize p) { auto o = pr_; pr_ = p; return o; } streamsize width() const { return wi_; } streamsize width(streamsize p) { auto o = wi_; wi_ = p; return o; } static bool sync_with_stdio(bool = true) { return true; }
  protected: int fl_ = skipws | dec; streamsize pr_ = 6, wi_ = 0; };
template <class C, class T> class basic_streambuf { public: using char_type = C; using traits_type = T; using int_type = typename T::int_type; using pos_type = typename T::pos_type; using off_type = typename T::off_type; virtual ~basic_streambuf() = default;
  int_type sgetc() { return rd_ && r_ < s_->size() ? T::to_int_type((*s_)[r_]) : T::eof(); } int_type sbumpc() { int_type c = sgetc(); if (rd_ && r_ < s_->size()) r_++; return c; } int_type snextc() { if (rd_ && r_ < s_->size()) r_++; return sgetc(); } int_type sungetc() { if (r_ == 0) return T::eof(); r_--; return sgetc(); }
  int_type sputbackc(C c) { if (r_ == 0) return T::eof(); r_--; (*s_)[r_] = c; return T::to_int_type(c); } streamsize in_avail() { return rd_ ? (streamsize)(s_->size() - r_) : -1; }
  streamsize sgetn(C* p, streamsize n) { streamsize k = 0; while (k < n && rd_ && r_ < s_->size()) p[k++] = (*s_)[r_++]; return k; }
  int_type sputc(C c) { if (!wr_) return T::eof(); put(c); return T::to_int_type(c); } streamsize sputn(const C* p, streamsize n) { if (!wr_) return 0; if (app_ || w_ == s_->size()) { s_->append(p, (size_t)n); w_ = s_->size(); } else for (streamsize i = 0; i < n; i++) put(p[i]); return n; }
  pos_type pubseekoff(off_type o, int d, int which = ios_base::in | ios_base::out) { if (!s_) return pos_type(off_type(-1)); off_type b = d == ios_base::beg ? 0 : d == ios_base::end ? (off_type)s_->size() : (which & ios_base::in) ? (off_type)r_ : (off_type)w_; b += o; if (b < 0 || (str_ && b > (off_type)s_->size())) return pos_type(off_type(-1)); if (which & ios_base::in) r_ = (size_t)b; if (which & ios_base::out) w_ = (size_t)b; if (!str_) r_ = w_ = (size_t)b; return pos_type(b); }
  pos_type pubseekpos(pos_type p, int which = ios_base::in | ios_base::out) { return pubseekoff((off_type)p, ios_base::beg, which); } int pubsync() { return 0; } std::string* vpData() { return wr_ ? s_ : nullptr; }
  protected: basic_streambuf() = default; void put(C c) { if (app_) w_ = s_->size(); if (w_ == s_->size()) s_->push_back(c); else if (w_ < s_->size()) (*s_)[w_] = c; else { s_->resize(w_); s_->push_back(c); } w_++; }
  basic_string<C>* s_ = nullptr; size_t r_ = 0, w_ = 0; bool rd_ = false, wr_ = false, app_ = false, str_ = false; };
template <class C, class T> class basic_ios : public ios_base { public: using char_type = C; using traits_type = T; using int_type = typename T::int_type; using pos_type = typename T::pos_type; using off_type = typename T::off_type;
  explicit basic_ios(basic_streambuf<C, T>* b) { init(b); } virtual ~basic_ios() = default; int rdstate() const { return st_; } void clear(int s = 0) { st_ = buf_ ? s : s | badbit; if (st_ & ex_) throw failure("stream"); } void setstate(int s) { clear(st_ | s); } bool good() const { return st_ == 0; } bool eof() const { return st_ & eofbit; } bool fail() const { return st_ & (failbit | badbit); } bool bad() const { return st_ & badbit; }
  explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); } int exceptions() const { return ex_; } void exceptions(int e) { ex_ = e; clear(st_); } C fill() const { return fi_; } C fill(C c) { C o = fi_; fi_ = c; return o; } C widen(char c) const { return c; } char narrow(C c, char) const { return c; }
  basic_streambuf<C, T>* rdbuf() const { return buf_; } basic_streambuf<C, T>* rdbuf(basic_streambuf<C, T>* b) { auto o = buf_; buf_ = b; clear(); return o; } basic_ostream<C, T>* tie() const { return nullptr; } basic_ostream<C, T>* tie(basic_ostream<C, T>*) { return nullptr; } basic_ios& copyfmt(const basic_ios& o) { fl_ = o.fl_; pr_ = o.pr_; wi_ = o.wi_; fi_ = o.fi_; return *this; }
  protected: basic_ios() = default; void init(basic_streambuf<C, T>* b) { buf_ = b; st_ = b ? 0 : badbit; } void mv(basic_ios& o) { fl_ = o.fl_; pr_ = o.pr_; wi_ = o.wi_; st_ = o.st_; ex_ = o.ex_; fi_ = o.fi_; } basic_streambuf<C, T>* buf_ = nullptr; int st_ = 0, ex_ = 0; C fi_ = ' '; };
template <class C, class T> class basic_ostream : virtual public basic_ios<C, T> { public: using int_type = typename T::int_type; using pos_type = typename T::pos_type; using off_type = typename T::off_type; using ios = basic_ios<C, T>; using ios_base = std::ios_base;
  explicit basic_ostream(basic_streambuf<C, T>* b) { this->init(b); } virtual ~basic_ostream() = default;
  class sentry { bool ok_; public: explicit sentry(basic_ostream& o) : ok_(o.good()) { if (!ok_) o.setstate(ios_base::failbit); } explicit operator bool() const { return ok_; } };
  basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); } basic_ostream& operator<<(ios& (*f)(ios&)) { f(*this); return *this; } basic_ostream& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
  basic_ostream& operator<<(bool v) { return (this->fl_ & ios_base::boolalpha) ? text(v ? "true" : "false") : num<long, unsigned long>(v); } basic_ostream& operator<<(short v) { return num<long, unsigned short>(v); } basic_ostream& operator<<(unsigned short v) { return unum(v); } basic_ostream& operator<<(int v) { return num<long, unsigned>(v); } basic_ostream& operator<<(unsigned v) { return unum(v); } basic_ostream& operator<<(long v) { return num<long, unsigned long>(v); } basic_ostream& operator<<(unsigned long v) { return unum(v); } basic_ostream& operator<<(long long v) { return num<long long, unsigned long long>(v); } basic_ostream& operator<<(unsigned long long v) { return unum(v); }
  basic_ostream& operator<<(double v) { return flt(v); } basic_ostream& operator<<(float v) { return flt(v); } basic_ostream& operator<<(long double v) { return flt((double)v); } basic_ostream& operator<<(const void* p) { return unum((unsigned long)p); } basic_ostream& operator<<(basic_streambuf<C, T>* b) { for (auto c = b->sgetc(); !T::eq_int_type(c, T::eof()); c = b->snextc()) this->buf_->sputc(T::to_char_type(c)); return *this; }
  basic_ostream& put(C c) { sentry s(*this); if (s && T::eq_int_type(this->buf_->sputc(c), T::eof())) this->setstate(ios_base::badbit); return *this; } basic_ostream& write(const C* p, streamsize n) { sentry s(*this); if (s && this->buf_->sputn(p, n) != n) this->setstate(ios_base::badbit); return *this; } basic_ostream& flush() { return *this; }
  pos_type tellp() { return this->fail() ? pos_type(off_type(-1)) : this->buf_->pubseekoff(0, ios_base::cur, ios_base::out); } basic_ostream& seekp(pos_type p) { if (!this->fail()) this->buf_->pubseekpos(p, ios_base::out); return *this; } basic_ostream& seekp(off_type o, int d) { if (!this->fail()) this->buf_->pubseekoff(o, d, ios_base::out); return *this; }
  basic_ostream& vpText(std::string const& t) { sentry s(*this); if (!s) return *this; std::string o; long n = (long)this->wi_ - (long)t.size(); bool l = (this->fl_ & ios_base::adjustfield) == ios_base::left; if (!l) for (long i = 0; i < n; i++) o.push_back(this->fi_); o += t; if (l) for (long i = 0; i < n; i++) o.push_back(this->fi_); this->wi_ = 0; if (this->buf_->sputn(o.data(), (streamsize)o.size()) != (streamsize)o.size()) this->setstate(ios_base::badbit); return *this; }
  protected: basic_ostream() = default; unsigned base() const { return this->fl_ & ios_base::hex ? 16 : this->fl_ & ios_base::oct ? 8 : 10; } basic_ostream& text(const char* p) { return vpText(p); }
  template <class S, class U> basic_ostream& num(S v) { if (base() != 10) return unum((U)v); std::string o; if (v < 0) { o.push_back('-'); vpDigits(o, (typename make_unsigned<S>::type)0 - (typename make_unsigned<S>::type)v); } else { if (this->fl_ & ios_base::showpos) o.push_back('+'); vpDigits(o, (typename make_unsigned<S>::type)v); } return vpText(o); }
  template <class U> basic_ostream& unum(U v) { std::string o; if ((this->fl_ & ios_base::showbase) && base() != 10) o += base() == 16 ? "0x" : "0"; vpDigits(o, v, base(), this->fl_ & ios_base::uppercase); return vpText(o); }
  basic_ostream& flt(double v) { std::string o; int f = this->fl_ & ios_base::floatfield; vpPutNum(o, v, (int)this->pr_, f == ios_base::fixed ? 'f' : f == ios_base::scientific ? 'e' : 'g'); sentry s(*this); if (s) this->buf_->sputn(o.data(), (streamsize)o.size()); this->wi_ = 0; return *this; } };
template <class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, char c) { return o.vpText(std::string(1, c)); } template <class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, signed char c) { return o << (char)c; } template <class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, unsigned char c) { return o << (char)c; } template <class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, const char* p) { if (!p) { o.setstate(ios_base::badbit); return o; } return o.vpText(std::string(p)); }
template <class T, class A> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, basic_string<char, T, A> const& s) { return o.vpText(std::string(s.data(), s.size())); } template <class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, basic_string_view<char, T> s) { return o.vpText(std::string(s.data(), s.size())); }
template <class C, class T> basic_ostream<C, T>& endl(basic_ostream<C, T>& o) { return o.put('\n'); } template <class C, class T> basic_ostream<C, T>& ends(basic_ostream<C, T>& o) { return o.put('\0'); } template <class C, class T> basic_ostream<C, T>& flush(basic_ostream<C, T>& o) { return o; }
template <class O, class X, class = typename enable_if<!is_lvalue_reference<O>::value && is_base_of<ios_base, O>::value>::type, class = decltype(declval<basic_ostream<char>&>() << declval<X const&>())> O&& operator<<(O&& o, X const& x) { static_cast<basic_ostream<char>&>(o) << x; return static_cast<O&&>(o); }
template <class C, class T> class basic_istream : virtual public basic_ios<C, T> { public: using int_type = typename T::int_type; using pos_type = typename T::pos_type; using off_type = typename T::off_type; using ios = basic_ios<C, T>; using ios_base = std::ios_base;
  explicit basic_istream(basic_streambuf<C, T>* b) { this->init(b); } virtual ~basic_istream() = default; static bool space(int c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
  class sentry { bool ok_; public: explicit sentry(basic_istream& i, bool noskip = false) : ok_(false) { if (!i.good()) { i.setstate(ios_base::failbit); return; } if (!noskip && (i.fl_ & ios_base::skipws)) { int c = i.buf_->sgetc(); while (c != -1 && space(c)) c = i.buf_->snextc(); if (c == -1) { i.setstate(ios_base::eofbit | ios_base::failbit); return; } } ok_ = true; } explicit operator bool() const { return ok_; } };
  basic_istream& operator>>(basic_istream& (*f)(basic_istream&)) { return f(*this); } basic_istream& operator>>(ios& (*f)(ios&)) { f(*this); return *this; } basic_istream& operator>>(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
  basic_istream& operator>>(bool& v) { long x = 0; int st = integer(x); v = x != 0; if (!(st & ios_base::failbit) && x != 0 && x != 1) { v = true; st |= ios_base::failbit; } if (st) this->setstate(st); return *this; }
  basic_istream& operator>>(short& v) { return narrowed<short>(v); } basic_istream& operator>>(int& v) { return narrowed<int>(v); } basic_istream& operator>>(long& v) { return direct(v); } basic_istream& operator>>(long long& v) { return direct(v); } basic_istream& operator>>(unsigned short& v) { return direct(v); } basic_istream& operator>>(unsigned& v) { return direct(v); } basic_istream& operator>>(unsigned long& v) { return direct(v); } basic_istream& operator>>(unsigned long long& v) { return direct(v); }
  basic_istream& operator>>(double& v) { return flt(v); } basic_istream& operator>>(float& v) { return flt(v); } basic_istream& operator>>(long double& v) { return flt(v); }
  streamsize gcount() const { return gc_; } int_type peek() { gc_ = 0; sentry s(*this, true); if (!s) return T::eof(); int c = this->buf_->sgetc(); if (c == -1) this->setstate(ios_base::eofbit); return c; } int_type get() { gc_ = 0; sentry s(*this, true); if (!s) return T::eof(); int c = this->buf_->sbumpc(); if (c == -1) this->setstate(ios_base::eofbit | ios_base::failbit); else gc_ = 1; return c; } basic_istream& get(C& c) { int x = get(); if (gc_) c = T::to_char_type(x); return *this; }
  basic_istream& unget() { gc_ = 0; this->clear(this->st_ & ~ios_base::eofbit); sentry s(*this, true); if (s && this->buf_->sungetc() == -1) this->setstate(ios_base::badbit); return *this; } basic_istream& putback(C c) { gc_ = 0; this->clear(this->st_ & ~ios_base::eofbit); sentry s(*this, true); if (s && this->buf_->sputbackc(c) == -1) this->setstate(ios_base::badbit); return *this; }
  basic_istream& ignore(streamsize n = 1, int_type d = -1) { gc_ = 0; sentry s(*this, true); if (s) while (gc_ < n || n == numeric_limits<streamsize>::max()) { int c = this->buf_->sbumpc(); if (c == -1) { this->setstate(ios_base::eofbit); break; } gc_++; if (c == d) break; } return *this; }
  basic_istream& read(C* p, streamsize n) { gc_ = 0; sentry s(*this, true); if (s) { gc_ = this->buf_->sgetn(p, n); if (gc_ != n) this->setstate(ios_base::eofbit | ios_base::failbit); } return *this; } streamsize readsome(C* p, streamsize n) { streamsize a = this->buf_->in_avail(); if (a == 0) this->setstate(ios_base::eofbit); gc_ = a <= 0 ? 0 : this->buf_->sgetn(p, n < a ? n : a); return gc_; }
  basic_istream& getline(C* p, streamsize n) { gc_ = 0; streamsize k = 0; sentry s(*this, true); if (s) for (;;) { int c = this->buf_->sgetc(); if (c == -1) { this->setstate(ios_base::eofbit | (gc_ ? 0 : ios_base::failbit)); break; } if (c == '\n') { this->buf_->sbumpc(); gc_++; break; } if (k + 1 >= n) { this->setstate(ios_base::failbit); break; } p[k++] = (C)c; this->buf_->sbumpc(); gc_++; } if (n > 0) p[k] = 0; return *this; }
  pos_type tellg() { sentry s(*this, true); return this->fail() ? pos_type(off_type(-1)) : this->buf_->pubseekoff(0, ios_base::cur, ios_base::in); } basic_istream& seekg(pos_type p) { this->clear(this->st_ & ~ios_base::eofbit); sentry s(*this, true); if (!this->fail() && this->buf_->pubseekpos(p, ios_base::in) == pos_type(off_type(-1))) this->setstate(ios_base::failbit); return *this; } basic_istream& seekg(off_type o, int d) { this->clear(this->st_ & ~ios_base::eofbit); sentry s(*this, true); if (!this->fail() && this->buf_->pubseekoff(o, d, ios_base::in) == pos_type(off_type(-1))) this->setstate(ios_base::failbit); return *this; }
  int sync() { return 0; }
  protected: basic_istream() = default; streamsize gc_ = 0; static int digit(int c, int base) { if ((c >= '0') & (c <= '9')) { int d = c - '0'; return d < base ? d : -1; } if (base == 16) { if ((c >= 'a') & (c <= 'f')) return c - 'a' + 10; if ((c >= 'A') & (c <= 'F')) return c - 'A' + 10; } return -1; }
  template <class V> int integer(V& v) { sentry s(*this); if (!s) return 0; using U = typename make_unsigned<V>::type; int st = 0; auto b = this->buf_; int c = b->sgetc(); bool neg = false; if (c == '-') { neg = true; c = b->snextc(); } else if (c == '+') c = b->snextc();
    int base = this->fl_ & ios_base::hex ? 16 : this->fl_ & ios_base::oct ? 8 : 10; int n = 0; bool over = false; constexpr int safe = sizeof(V) == 8 ? 15 : sizeof(V) == 4 ? 7 : 3; U lim = is_signed<V>::value ? (neg ? (U)numeric_limits<V>::max() + 1 : (U)numeric_limits<V>::max()) : numeric_limits<U>::max(); U r = 0;
    while (c != -1) { int d = digit(c, base); if (d < 0) break; n++; if (n <= safe) r = (U)(r * (U)base + (U)d); else if (r > lim / (U)base || r * (U)base > lim - (U)d) over = true; else r = (U)(r * (U)base + (U)d); c = b->snextc(); }
    if (n == 0) { v = 0; st |= ios_base::failbit; } else if (over) { v = is_signed<V>::value && neg ? numeric_limits<V>::min() : numeric_limits<V>::max(); st |= ios_base::failbit; } else v = neg ? (V)((U)0 - r) : (V)r; if (c == -1) st |= ios_base::eofbit; return st; }
  template <class V> basic_istream& direct(V& v) { if (!this->good()) { sentry s(*this); return *this; } V x = v; int st = integer(x); if (!this->fail()) v = x; if (st) this->setstate(st); return *this; }
  template <class V> basic_istream& narrowed(V& v) { if (!this->good()) { sentry s(*this); return *this; } long x = 0; int st = integer(x); if (this->fail()) return *this; if (x < (long)numeric_limits<V>::min()) { st |= ios_base::failbit; v = numeric_limits<V>::min(); } else if (x > (long)numeric_limits<V>::max()) { st |= ios_base::failbit; v = numeric_limits<V>::max(); } else v = (V)x; if (st) this->setstate(st); return *this; }
  template <class F> basic_istream& flt(F& v) { sentry s(*this); if (!s) return *this; auto b = this->buf_; int c = b->sgetc(); if (c == 1) { char t[4] = {1}; b->sbumpc(); for (int i = 1; i < 4; i++) t[i] = (char)b->sbumpc(); v = (F)vpGetNum(t).v; if (b->sgetc() == -1) this->setstate(ios_base::eofbit); return *this; }
    bool neg = false; if (c == '-' || c == '+') { neg = c == '-'; c = b->snextc(); } int n = 0; double r = 0; while ((c >= '0') & (c <= '9')) { r = r * 10 + (c - '0'); n++; c = b->snextc(); } double p = 1; if (c == '.') { c = b->snextc(); while ((c >= '0') & (c <= '9')) { p *= 10; r = r * 10 + (c - '0'); n++; c = b->snextc(); } } int st = 0; int e = 0; bool eneg = false; if (n && (c == 'e' || c == 'E')) { c = b->snextc(); if (c == '-' || c == '+') { eneg = c == '-'; c = b->snextc(); } int k = 0; while ((c >= '0') & (c <= '9')) { e = e * 10 + (c - '0'); k++; c = b->snextc(); } if (!k) n = 0; } if (!n) { v = 0; st |= ios_base::failbit; } else { r /= p; for (int i = 0; i < e; i++) r = eneg ? r / 10 : r * 10; v = (F)(neg ? -r : r); } if (c == -1) st |= ios_base::eofbit; if (st) this->setstate(st); return *this; } };
template <class T> basic_istream<char, T>& operator>>(basic_istream<char, T>& i, char& c) { typename basic_istream<char, T>::sentry s(i); if (s) { int x = i.rdbuf()->sbumpc(); if (x == -1) i.setstate(ios_base::eofbit | ios_base::failbit); else c = (char)x; } return i; } template <class T> basic_istream<char, T>& operator>>(basic_istream<char, T>& i, unsigned char& c) { char x = (char)c; i >> x; c = (unsigned char)x; return i; } template <class T> basic_istream<char, T>& operator>>(basic_istream<char, T>& i, signed char& c) { char x = (char)c; i >> x; c = (signed char)x; return i; }
template <class C, class T> basic_istream<C, T>& ws(basic_istream<C, T>& i) { typename basic_istream<C, T>::sentry s(i, true); if (!s) return i; int c = i.rdbuf()->sgetc(); while (c != -1 && basic_istream<C, T>::space(c)) c = i.rdbuf()->snextc(); if (c == -1) i.setstate(ios_base::eofbit); return i; }
template <class I, class X, class = typename enable_if<!is_lvalue_reference<I>::value && is_base_of<ios_base, I>::value>::type, class = decltype(declval<basic_istream<char>&>() >> declval<X>())> I&& operator>>(I&& i, X&& x) { static_cast<basic_istream<char>&>(i) >> static_cast<X&&>(x); return static_cast<I&&>(i); }
template <> __attribute__((weak)) basic_istream<char>& operator>>(basic_istream<char>& i, basic_string<char>& o) { basic_istream<char>::sentry s(i); if (!s) return i; o.clear(); streamsize n = i.width(); int st = 0; size_t k = 0; for (;;) { int c = i.rdbuf()->sgetc(); if (c == -1) { st |= ios_base::eofbit; break; } if (basic_istream<char>::space(c) || (n > 0 && (streamsize)k == n)) break; o.push_back((char)c); k++; i.rdbuf()->sbumpc(); } i.width(0); if (!k) st |= ios_base::failbit; if (st) i.setstate(st); return i; }
template <> __attribute__((weak)) basic_istream<char>& getline(basic_istream<char>& i, basic_string<char>& o, char d) { basic_istream<char>::sentry s(i, true); if (!s) return i; o.clear(); int st = 0; size_t k = 0; for (;;) { int c = i.rdbuf()->sbumpc(); if (c == -1) { st |= ios_base::eofbit | (k ? 0 : ios_base::failbit); break; } k++; if ((char)c == d) break; o.push_back((char)c); } if (st) i.setstate(st); return i; }
template <class C, class T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> { public: explicit basic_iostream(basic_streambuf<C, T>* b) { this->init(b); } virtual ~basic_iostream() = default; protected: basic_iostream() = default; };
_GLIBCXX_BEGIN_NAMESPACE_CXX11
template <class C, class T, class A> class basic_stringbuf : public basic_streambuf<C, T> { basic_string<C> d_; public: explicit basic_stringbuf(int m = ios_base::in | ios_base::out) { set("", m); } basic_stringbuf(basic_string<C> const& s, int m = ios_base::in | ios_base::out) { set(s, m); } basic_string<C> str() const { return d_; } void str(basic_string<C> const& s) { d_ = s; this->r_ = 0; this->w_ = this->app_ ? d_.size() : 0; } void set(basic_string<C> const& s, int m) { d_ = s; this->s_ = &d_; this->str_ = true; this->rd_ = m & ios_base::in; this->wr_ = m & (ios_base::out | ios_base::app); this->r_ = 0; this->w_ = (m & (ios_base::ate | ios_base::app)) ? d_.size() : 0; this->app_ = m & ios_base::app; } void vpMove(basic_stringbuf& o) { d_ = o.d_; this->s_ = &d_; this->str_ = true; this->rd_ = o.rd_; this->wr_ = o.wr_; this->app_ = o.app_; this->r_ = o.r_; this->w_ = o.w_; } };
#define VP_SS(N, B, M, F) template <class C, class T, class A> class N : public B<C, T> { basic_stringbuf<C, T, A> b_; public: N() { b_.set("", M); this->init(&b_); } explicit N(int m) { b_.set("", (m) | F); this->init(&b_); } explicit N(basic_string<C> const& s, int m = M) { b_.set(s, (m) | F); this->init(&b_); } N(N&& o) { b_.vpMove(o.b_); this->init(&b_); this->mv(o); } N& operator=(N&& o) { b_.vpMove(o.b_); this->mv(o); return *this; } basic_string<C> str() const { return b_.str(); } void str(basic_string<C> const& s) { b_.str(s); } basic_stringbuf<C, T, A>* rdbuf() const { return const_cast<basic_stringbuf<C, T, A>*>(&b_); } };
VP_SS(basic_istringstream, basic_istream, ios_base::in, ios_base::in) VP_SS(basic_ostringstream, basic_ostream, ios_base::out, ios_base::out) VP_SS(basic_stringstream, basic_iostream, ios_base::in | ios_base::out, 0)
_GLIBCXX_END_NAMESPACE_CXX11
template <class C, class T> class basic_filebuf : public basic_streambuf<C, T> { public: bool is_open() const { return this->s_ != nullptr; }
  basic_filebuf* open(const char* n, int m) { if (is_open()) return nullptr; bool w = m & (ios_base::out | ios_base::app | ios_base::trunc), r = m & ios_base::in; bool mustExist = r && !(m & (ios_base::app | ios_base::trunc)); if ((m & ios_base::trunc) && (m & ios_base::app)) return nullptr; if ((m & ios_base::trunc) && !(m & ios_base::out)) return nullptr; VpFile* f = vpFind(n, w && !mustExist); if (!f) return nullptr; this->s_ = f->data; this->rd_ = r; this->wr_ = w; this->app_ = m & ios_base::app; if ((m & ios_base::trunc) || (w && !r && !(m & ios_base::app))) f->data->clear(); this->r_ = this->w_ = (m & ios_base::ate) ? f->data->size() : 0; if (this->app_) this->w_ = f->data->size(); return this; }
  basic_filebuf* close() { if (!is_open()) return nullptr; this->s_ = nullptr; this->rd_ = this->wr_ = false; return this; } void vpMove(basic_filebuf& o) { this->s_ = o.s_; this->rd_ = o.rd_; this->wr_ = o.wr_; this->app_ = o.app_; this->r_ = o.r_; this->w_ = o.w_; o.close(); } };
#define VP_FS(N, B, M, F) template <class C, class T> class N : public B<C, T> { basic_filebuf<C, T> b_; public: N() { this->init(&b_); } explicit N(const char* n, int m = M) { this->init(&b_); open(n, m); } explicit N(std::string const& n, int m = M) : N(n.c_str(), m) {} N(N&& o) { b_.vpMove(o.b_); this->init(&b_); this->mv(o); } N& operator=(N&& o) { b_.vpMove(o.b_); this->mv(o); return *this; } void open(const char* n, int m = M) { if (b_.open(n, (m) | F)) this->clear(); else this->setstate(ios_base::failbit); } void open(std::string const& n, int m = M) { open(n.c_str(), m); } bool is_open() const { return b_.is_open(); } void close() { if (!b_.close()) this->setstate(ios_base::failbit); } basic_filebuf<C, T>* rdbuf() const { return const_cast<basic_filebuf<C, T>*>(&b_); } };
VP_FS(basic_ifstream, basic_istream, ios_base::in, ios_base::in) VP_FS(basic_ofstream, basic_ostream, ios_base::out, ios_base::out) VP_FS(basic_fstream, basic_iostream, ios_base::in | ios_base::out, 0)
inline ios_base& dec(ios_base& b) { b.setf(ios_base::dec, ios_base::basefield); return b; } inline ios_base& hex(ios_base& b) { b.setf(ios_base::hex, ios_base::basefield); return b; } inline ios_base& oct(ios_base& b) { b.setf(ios_base::oct, ios_base::basefield); return b; } inline ios_base& fixed(ios_base& b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; } inline ios_base& scientific(ios_base& b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; } inline ios_base& left(ios_base& b) { b.setf(ios_base::left, ios_base::adjustfield); return b; } inline ios_base& right(ios_base& b) { b.setf(ios_base::right, ios_base::adjustfield); return b; } inline ios_base& skipws(ios_base& b) { b.setf(ios_base::skipws); return b; } inline ios_base& noskipws(ios_base& b) { b.unsetf(ios_base::skipws); return b; } inline ios_base& boolalpha(ios_base& b) { b.setf(ios_base::boolalpha); return b; } inline ios_base& noboolalpha(ios_base& b) { b.unsetf(ios_base::boolalpha); return b; } inline ios_base& showpos(ios_base& b) { b.setf(ios_base::showpos); return b; } inline ios_base& noshowpos(ios_base& b) { b.unsetf(ios_base::showpos); return b; }
struct VpManip { int k; long v; }; inline VpManip setprecision(int n) { return {0, n}; } inline VpManip setw(int n) { return {1, n}; } inline VpManip setfill(char c) { return {2, c}; }
template <class C, class T> inline basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, VpManip m) { if (m.k == 0) o.precision(m.v); else if (m.k == 1) o.width(m.v); else o.fill((char)m.v); return o; }
template <class C, class T> inline basic_istream<C, T>& operator>>(basic_istream<C, T>& o, VpManip m) { if (m.k == 0) o.precision(m.v); else if (m.k == 1) o.width(m.v); return o; }
inline basic_stringbuf<char> vpOutBuf, vpErrBuf, vpInBuf; inline basic_ostream<char> cout(&vpOutBuf), cerr(&vpErrBuf), clog(&vpErrBuf); inline basic_istream<char> cin(&vpInBuf);
}
