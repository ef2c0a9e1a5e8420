// Library code outside the headers that the harness modules call, provided as IR: standard exception
// classes, container support functions and the throw helpers. Linked only into the symbolic build.
#include <cstring>
#include <exception>
#include <functional>
#include <new>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <map>
#include <list>
#include <variant>
#include <optional>
namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
static const char* dup_(const char* s) { size_t n = 0; while (s[n]) n++; char* p = (char*)::operator new(n + 1); for (size_t i = 0; i <= n; i++) p[i] = s[i]; return p; }
static const char* dup_(const char* s, size_t n) { char* p = (char*)::operator new(n + 1); for (size_t i = 0; i < n; i++) p[i] = s[i]; p[n] = 0; return p; }
struct CowRep { const char* p; };
static const char*& rep(__cow_string* c) { return *(const char**)c; }
static const char* rep(const __cow_string* c) { return *(const char* const*)c; }
__cow_string::__cow_string() { rep(this) = dup_(""); }
__cow_string::__cow_string(const std::string& s) { rep(this) = dup_(s.data(), s.size()); }
__cow_string::__cow_string(const char* s, size_t n) { rep(this) = dup_(s, n); }
__cow_string::__cow_string(const __cow_string& o) noexcept { rep(this) = dup_(rep(&o)); }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { const char* n = dup_(rep(&o)); ::operator delete((void*)rep(this)); rep(this) = n; return *this; }
__cow_string::~__cow_string() { ::operator delete((void*)rep(this)); }
#define VP_EXC(T, B) \
  T::~T() noexcept {}
logic_error::logic_error(const string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return rep(&_M_msg); }
runtime_error::runtime_error(const string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return rep(&_M_msg); }
#define VP_DER(T, B) T::T(const string& s) : B(s) {} T::T(const char* s) : B(s) {} T::~T() noexcept {}
VP_DER(domain_error, logic_error) VP_DER(invalid_argument, logic_error) VP_DER(length_error, logic_error) VP_DER(out_of_range, logic_error)
VP_DER(range_error, runtime_error) VP_DER(overflow_error, runtime_error) VP_DER(underflow_error, runtime_error)
void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
void __throw_bad_function_call() { throw bad_function_call(); }
// red-black tree support as a plain binary search tree: same ordering contract, no rebalancing
static _Rb_tree_node_base* inc_(_Rb_tree_node_base* x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; return x; }
static _Rb_tree_node_base* dec_(_Rb_tree_node_base* x) {
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return inc_(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return inc_(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return dec_(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return dec_(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  _Rb_tree_node_base* y; // node replacing z
  auto repl = [&](_Rb_tree_node_base* a, _Rb_tree_node_base* b) { if (h._M_parent == a) h._M_parent = b; else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b; else a->_M_parent->_M_right = b; if (b) b->_M_parent = a->_M_parent; };
  _Rb_tree_node_base* nl = h._M_left == z ? (h._M_left == h._M_right ? &h : inc_(z)) : h._M_left;
  _Rb_tree_node_base* nr = h._M_right == z ? (h._M_left == h._M_right ? &h : dec_(z)) : h._M_right;
  if (!z->_M_left) repl(z, z->_M_right); else if (!z->_M_right) repl(z, z->_M_left);
  else { y = z->_M_right; while (y->_M_left) y = y->_M_left; if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
  h._M_left = nl; h._M_right = nr; return z; }
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; auto* t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
}
}
extern "C" void vp_throw_bad_alloc() { throw std::bad_alloc(); }
template class std::basic_string<char>;
// small C library functions a rewrite may reach for
#include <cctype>
#include <cerrno>
#include <climits>
#include <cmath>
#include <cstdlib>
extern "C" {
div_t div(int a, int b) noexcept { div_t r; r.quot = a / b; r.rem = a % b; return r; }
ldiv_t ldiv(long a, long b) noexcept { ldiv_t r; r.quot = a / b; r.rem = a % b; return r; }
lldiv_t lldiv(long long a, long long b) noexcept { lldiv_t r; r.quot = a / b; r.rem = a % b; return r; }
int isdigit(int c) noexcept { return (c >= '0') & (c <= '9'); }
int isspace(int c) noexcept { return (c == ' ') | ((c >= 9) & (c <= 13)); }
int isupper(int c) noexcept { return (c >= 'A') & (c <= 'Z'); }
int islower(int c) noexcept { return (c >= 'a') & (c <= 'z'); }
int isalpha(int c) noexcept { return ((c >= 'A') & (c <= 'Z')) | ((c >= 'a') & (c <= 'z')); }
int isalnum(int c) noexcept { return isalpha(c) | isdigit(c); }
int tolower(int c) noexcept { return isupper(c) ? c + 32 : c; }
int toupper(int c) noexcept { return islower(c) ? c - 32 : c; }
static int vp_errno;
int* __errno_location() noexcept { return &vp_errno; }
long strtol(const char* s, char** end, int base) noexcept { const char* p = s; while (isspace((unsigned char)*p)) p++; bool neg = false; if (*p == '+' || *p == '-') neg = *p++ == '-'; if (base == 0) base = 10; bool any = false, over = false; unsigned long v = 0; for (;; p++) { int d = isdigit((unsigned char)*p) ? *p - '0' : isalpha((unsigned char)*p) ? tolower((unsigned char)*p) - 'a' + 10 : 99; if (d >= base) break; any = true; if (v > (LONG_MAX - (unsigned long)d) / (unsigned long)base) over = true; else v = v * (unsigned long)base + (unsigned long)d; } if (end) *end = const_cast<char*>(any ? p : s); if (over) { vp_errno = ERANGE; return neg ? LONG_MIN : LONG_MAX; } return neg ? -(long)v : (long)v; }
long long strtoll(const char* s, char** e, int b) noexcept { return strtol(s, e, b); }
double fdim(double x, double y) noexcept { return x > y ? x - y : 0.0; }
}
extern "C" { char* strchr_(const char* s, int c) __asm__("strchr"); char* strrchr_(const char* s, int c) __asm__("strrchr"); char* strstr_(const char* h, const char* n) __asm__("strstr");
char* strchr_(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
char* strrchr_(const char* s, int c) { const char* r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* strstr_(const char* h, const char* n) { for (;; h++) { const char *a = h, *b = n; while (*b && *a == *b) { a++; b++; } if (!*b) return (char*)h; if (!*h) return nullptr; } } }
