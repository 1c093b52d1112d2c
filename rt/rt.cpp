// Runtime linked into every harness before symbolic execution: the parts of
// libstdc++ that are not in headers (explicit template instantiations come
// from the installed headers; the non-template remainder is written here).
// Not derived from /repo.  Compiled to LLVM IR by setup.sh.
#include <string>
#include <sstream>
#include <istream>
#include <ostream>
#include <locale>
#include <list>
#include <map>
#include <unordered_map>
#include <memory>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <system_error>
#include <functional>
#include <cstring>
#include <cwchar>
#include <cstdlib>
#include <cstdarg>

extern "C" void sym_fatal(const char*) __attribute__((noreturn));

// ---------------------------------------------------------------- libc bits
extern "C" {
size_t strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
size_t wcslen(const wchar_t* s) { size_t n = 0; while (s[n]) ++n; return n; }
int strcmp(const char* a, const char* b)
{ while (*a && *a == *b) { ++a; ++b; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n)
{ while (n && *a && *a == *b) { ++a; ++b; --n; } return n ? (unsigned char)*a - (unsigned char)*b : 0; }
void* rt_memchr(const void* s, int c, size_t n) asm("memchr");
void* rt_memchr(const void* s, int c, size_t n)
{ const unsigned char* p = (const unsigned char*)s; for (; n; --n, ++p) if (*p == (unsigned char)c) return (void*)p; return nullptr; }
wchar_t* wmemcpy(wchar_t* d, const wchar_t* s, size_t n) { memcpy(d, s, n * sizeof(wchar_t)); return d; }
wchar_t* wmemmove(wchar_t* d, const wchar_t* s, size_t n) { memmove(d, s, n * sizeof(wchar_t)); return d; }
wchar_t* wmemset(wchar_t* d, wchar_t c, size_t n) { for (size_t i = 0; i < n; ++i) d[i] = c; return d; }
int wmemcmp(const wchar_t* a, const wchar_t* b, size_t n)
{ for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
wchar_t* rt_wmemchr(const wchar_t* s, wchar_t c, size_t n) asm("wmemchr");
wchar_t* rt_wmemchr(const wchar_t* s, wchar_t c, size_t n)
{ for (; n; --n, ++s) if (*s == c) return (wchar_t*)s; return nullptr; }
}

// --------------------------------------------------------------- exceptions
namespace std {
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_ios_failure(const char* s) { throw runtime_error(s); }

exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
const nothrow_t nothrow = nothrow_t{};

// __cow_string: one pointer to a NUL-terminated, refcounted-by-copy buffer.
static char* cow_dup(const char* s)
{ size_t n = strlen(s); char* p = (char*)malloc(n + 1); memcpy(p, s, n + 1); return p; }
__cow_string::__cow_string() { _M_p = cow_dup(""); }
__cow_string::__cow_string(const std::string& s) { _M_p = cow_dup(s.c_str()); }
__cow_string::__cow_string(const char* s, size_t n)
{ char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; _M_p = p; }
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = cow_dup(o._M_p); }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept
{ if (this != &o) { free((void*)_M_p); _M_p = cow_dup(o._M_p); } return *this; }
__cow_string::~__cow_string() { free((void*)_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept { _M_p = o._M_p; o._M_p = cow_dup(""); }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept
{ const char* t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }

#define ERRCLS(C) \
  C::C(const std::string& s) : ERRBASE(s) {} \
  C::C(const char* s) : ERRBASE(s) {} \
  C::~C() noexcept {}
logic_error::logic_error(const std::string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(std::string(s)) {}
logic_error::logic_error(logic_error&& o) noexcept : _M_msg(std::move(o._M_msg)) {}
logic_error& logic_error::operator=(logic_error&& o) noexcept { _M_msg = std::move(o._M_msg); return *this; }
logic_error::logic_error(const logic_error& o) noexcept : _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const std::string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(std::string(s)) {}
runtime_error::runtime_error(runtime_error&& o) noexcept : _M_msg(std::move(o._M_msg)) {}
runtime_error& runtime_error::operator=(runtime_error&& o) noexcept { _M_msg = std::move(o._M_msg); return *this; }
runtime_error::runtime_error(const runtime_error& o) noexcept : _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
#define ERRBASE logic_error
ERRCLS(domain_error) ERRCLS(invalid_argument) ERRCLS(length_error) ERRCLS(out_of_range)
#undef ERRBASE
#define ERRBASE runtime_error
ERRCLS(range_error) ERRCLS(overflow_error) ERRCLS(underflow_error)
#undef ERRBASE

void terminate() noexcept { sym_fatal("std::terminate called"); }
}

// --------------------------------------------------------------- containers
namespace std { namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const pos) noexcept
{ _M_next = pos; _M_prev = pos->_M_prev; pos->_M_prev->_M_next = this; pos->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept
{ _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept
{
  if (this != last) {
    last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
    _List_node_base* const t = this->_M_prev;
    this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
  }
}
void _List_node_base::_M_reverse() noexcept
{ _List_node_base* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
{
  if (x._M_next != &x) {
    if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev);
      x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
  } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev;
    x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
static const unsigned primes[] = { 2,5,11,13,17,29,37,53,67,79,97,127,163,211,269,347,443,571,733,941,1213,1553,1993,2557,3299,4271,5519,7129,9209,11903,15391,19889,25717,33223,42929,55469,71663,92581,119617,154567,199687 };
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
  for (unsigned p : primes) if (p >= n) { _M_next_resize = p; return p; }
  sym_fatal("hash table too large");
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t n_bkt, size_t n_elt, size_t n_ins) const
{
  if (n_elt + n_ins > _M_next_resize) {
    size_t min = n_elt + n_ins; if (!_M_next_resize && min < 11) min = 11;
    if (min >= n_bkt) { size_t want = min + 1; if (want < n_bkt * 2) want = n_bkt * 2; return { true, _M_next_bkt(want) }; }
    _M_next_resize = n_bkt;
  }
  return { false, 0 };
}
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed)
{ const unsigned char* c = (const unsigned char*)p; size_t h = seed ^ 1469598103934665603ull;
  for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull; return h; }
size_t _Fnv_hash_bytes(const void* p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }

// red-black tree primitives: plain (unbalanced) insertion; order is all that
// the containers' semantics rely on.
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept
{
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
  return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept
{ return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept
{
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
  else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
  return x;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept
{ return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept
{
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) noexcept
{
  auto transplant = [&](_Rb_tree_node_base* u, _Rb_tree_node_base* v) {
    if (h._M_parent == u) h._M_parent = v; else if (u->_M_parent->_M_left == u) u->_M_parent->_M_left = v; else u->_M_parent->_M_right = v;
    if (v) v->_M_parent = u->_M_parent; };
  if (h._M_left == z) h._M_left = z->_M_right || z->_M_parent != &h ? _Rb_tree_increment(z) : &h;
  if (h._M_right == z) h._M_right = z->_M_left || z->_M_parent != &h ? _Rb_tree_decrement(z) : &h;
  if (!z->_M_left) transplant(z, z->_M_right);
  else if (!z->_M_right) transplant(z, z->_M_left);
  else { _Rb_tree_node_base* y = z->_M_right; while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) { transplant(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    transplant(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
  return z;
}
}

// ------------------------------------------------------------------- locale
namespace std {
locale::facet::~facet() {}
__c_locale locale::facet::_S_get_c_locale() { return nullptr; }
__c_locale locale::facet::_S_clone_c_locale(__c_locale&) noexcept { return nullptr; }
void locale::facet::_S_destroy_c_locale(__c_locale&) {}
size_t locale::id::_M_id() const throw()
{ static size_t next = 0; if (!_M_index) _M_index = ++next; return _M_index - 1; }

// classic table
static unsigned short g_ctab[257]; static bool g_ctab_init;
const ctype_base::mask* ctype<char>::classic_table() throw()
{
  if (!g_ctab_init) { g_ctab_init = true;
    for (int c = 0; c < 128; ++c) { unsigned short m = 0;
      bool up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z', dg = c >= '0' && c <= '9';
      if (up) m |= ctype_base::upper | ctype_base::alpha; if (lo) m |= ctype_base::lower | ctype_base::alpha;
      if (dg) m |= ctype_base::digit; if (dg || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f')) m |= ctype_base::xdigit;
      if (c == ' ' || (c >= 9 && c <= 13)) m |= ctype_base::space; if (c == ' ' || c == 9) m |= ctype_base::blank;
      if (c < 32 || c == 127) m |= ctype_base::cntrl; else m |= ctype_base::print;
      if (c > 32 && c < 127 && !up && !lo && !dg) m |= ctype_base::punct;
      g_ctab[c] = m; } }
  return g_ctab;
}
locale::id ctype<char>::id; locale::id ctype<wchar_t>::id;
const size_t ctype<char>::table_size;
static int up1(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static int lo1(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
ctype<char>::ctype(const mask* t, bool del, size_t refs) : facet(refs), _M_c_locale_ctype(nullptr), _M_del(false), _M_toupper(nullptr), _M_tolower(nullptr), _M_table(t ? t : classic_table()), _M_widen_ok(0), _M_narrow_ok(0)
{ memset(_M_widen, 0, sizeof(_M_widen)); memset(_M_narrow, 0, sizeof(_M_narrow)); }
ctype<char>::ctype(__c_locale, const mask* t, bool del, size_t refs) : ctype(t, del, refs) {}
ctype<char>::~ctype() {}
char ctype<char>::do_toupper(char c) const { return (char)up1((unsigned char)c); }
const char* ctype<char>::do_toupper(char* lo, const char* hi) const { for (; lo < hi; ++lo) *lo = do_toupper(*lo); return hi; }
char ctype<char>::do_tolower(char c) const { return (char)lo1((unsigned char)c); }
const char* ctype<char>::do_tolower(char* lo, const char* hi) const { for (; lo < hi; ++lo) *lo = do_tolower(*lo); return hi; }
void ctype<char>::_M_widen_init() const { for (int i = 0; i < 256; ++i) _M_widen[i] = (char)i; _M_widen_ok = 1; }
void ctype<char>::_M_narrow_init() const { for (int i = 0; i < 256; ++i) _M_narrow[i] = (char)i; _M_narrow_ok = 1; }

ctype<wchar_t>::ctype(size_t refs) : __ctype_abstract_base<wchar_t>(refs), _M_c_locale_ctype(nullptr), _M_narrow_ok(false) {}
ctype<wchar_t>::ctype(__c_locale, size_t refs) : ctype(refs) {}
ctype<wchar_t>::~ctype() {}
bool ctype<wchar_t>::do_is(mask m, wchar_t c) const { return c >= 0 && c < 128 && (ctype<char>::classic_table()[c] & m); }
const wchar_t* ctype<wchar_t>::do_is(const wchar_t* lo, const wchar_t* hi, mask* v) const
{ for (; lo < hi; ++lo, ++v) *v = *lo >= 0 && *lo < 128 ? ctype<char>::classic_table()[*lo] : 0; return hi; }
const wchar_t* ctype<wchar_t>::do_scan_is(mask m, const wchar_t* lo, const wchar_t* hi) const { while (lo < hi && !do_is(m, *lo)) ++lo; return lo; }
const wchar_t* ctype<wchar_t>::do_scan_not(mask m, const wchar_t* lo, const wchar_t* hi) const { while (lo < hi && do_is(m, *lo)) ++lo; return lo; }
wchar_t ctype<wchar_t>::do_toupper(wchar_t c) const { return c >= 0 && c < 128 ? up1(c) : c; }
const wchar_t* ctype<wchar_t>::do_toupper(wchar_t* lo, const wchar_t* hi) const { for (; lo < hi; ++lo) *lo = do_toupper(*lo); return hi; }
wchar_t ctype<wchar_t>::do_tolower(wchar_t c) const { return c >= 0 && c < 128 ? lo1(c) : c; }
const wchar_t* ctype<wchar_t>::do_tolower(wchar_t* lo, const wchar_t* hi) const { for (; lo < hi; ++lo) *lo = do_tolower(*lo); return hi; }
wchar_t ctype<wchar_t>::do_widen(char c) const { return (unsigned char)c; }
const char* ctype<wchar_t>::do_widen(const char* lo, const char* hi, wchar_t* d) const { while (lo < hi) *d++ = (unsigned char)*lo++; return hi; }
char ctype<wchar_t>::do_narrow(wchar_t c, char def) const { return c >= 0 && c < 128 ? (char)c : def; }
const wchar_t* ctype<wchar_t>::do_narrow(const wchar_t* lo, const wchar_t* hi, char def, char* d) const { while (lo < hi) *d++ = do_narrow(*lo++, def); return hi; }

template<> void numpunct<char>::_M_initialize_numpunct(__c_locale)
{
  if (!_M_data) _M_data = new __numpunct_cache<char>;
  _M_data->_M_grouping = ""; _M_data->_M_grouping_size = 0; _M_data->_M_use_grouping = false;
  _M_data->_M_decimal_point = '.'; _M_data->_M_thousands_sep = ',';
  for (size_t i = 0; i < __num_base::_S_oend; ++i) _M_data->_M_atoms_out[i] = __num_base::_S_atoms_out[i];
  for (size_t i = 0; i < __num_base::_S_iend; ++i) _M_data->_M_atoms_in[i] = __num_base::_S_atoms_in[i];
  _M_data->_M_truename = "true"; _M_data->_M_truename_size = 4; _M_data->_M_falsename = "false"; _M_data->_M_falsename_size = 5;
}
template<> numpunct<char>::~numpunct() {}
template<> void numpunct<wchar_t>::_M_initialize_numpunct(__c_locale)
{
  if (!_M_data) _M_data = new __numpunct_cache<wchar_t>;
  _M_data->_M_grouping = ""; _M_data->_M_grouping_size = 0; _M_data->_M_use_grouping = false;
  _M_data->_M_decimal_point = L'.'; _M_data->_M_thousands_sep = L',';
  for (size_t i = 0; i < __num_base::_S_oend; ++i) _M_data->_M_atoms_out[i] = (wchar_t)__num_base::_S_atoms_out[i];
  for (size_t i = 0; i < __num_base::_S_iend; ++i) _M_data->_M_atoms_in[i] = (wchar_t)__num_base::_S_atoms_in[i];
  _M_data->_M_truename = L"true"; _M_data->_M_truename_size = 4; _M_data->_M_falsename = L"false"; _M_data->_M_falsename_size = 5;
}
template<> numpunct<wchar_t>::~numpunct() {}
const char* __num_base::_S_atoms_in = "-+xX0123456789abcdefABCDEF";
const char* __num_base::_S_atoms_out = "-+xX0123456789abcdef0123456789ABCDEF";
void __num_base::_S_format_float(const ios_base&, char*, char) throw() { sym_fatal("float formatting"); }
bool __verify_grouping(const char*, size_t, const string&) throw() { return true; }
template<> void __convert_to_v(const char*, float&, ios_base::iostate&, const __c_locale&) throw() { sym_fatal("float parse"); }
template<> void __convert_to_v(const char*, double&, ios_base::iostate&, const __c_locale&) throw() { sym_fatal("float parse"); }
template<> void __convert_to_v(const char*, long double&, ios_base::iostate&, const __c_locale&) throw() { sym_fatal("float parse"); }
}
extern "C" int* __errno_location() { static int e; return &e; }
extern "C" int vsnprintf(char*, size_t, const char*, va_list) { sym_fatal("vsnprintf"); }
namespace std {
int __convert_from_v_stub() { return 0; }

// the classic locale
struct RtLocale {
  alignas(locale::_Impl) char impl[sizeof(locale::_Impl)];
  const locale::facet* facets[64]; const locale::facet* caches[64]; char* names[12];
  bool ready;
};
static RtLocale g_loc;
alignas(locale) static char g_classic[sizeof(locale)];
static locale::_Impl* rt_impl()
{
  locale::_Impl* im = reinterpret_cast<locale::_Impl*>(g_loc.impl);
  if (!g_loc.ready) {
    g_loc.ready = true;
    im->_M_refcount = 1; im->_M_facets = g_loc.facets; im->_M_facets_size = 64; im->_M_caches = g_loc.caches; im->_M_names = g_loc.names;
    auto put = [&](const locale::id& i, const locale::facet* f) { g_loc.facets[i._M_id()] = f; };
    put(ctype<char>::id, new ctype<char>(nullptr, false, 1));
    put(ctype<wchar_t>::id, new ctype<wchar_t>(1));
    put(num_put<char>::id, new num_put<char>(1)); put(num_get<char>::id, new num_get<char>(1));
    put(num_put<wchar_t>::id, new num_put<wchar_t>(1)); put(num_get<wchar_t>::id, new num_get<wchar_t>(1));
    auto* nc = new __numpunct_cache<char>(2); auto* nw = new __numpunct_cache<wchar_t>(2);
    put(numpunct<char>::id, new numpunct<char>(nc, 1)); put(numpunct<wchar_t>::id, new numpunct<wchar_t>(nw, 1));
    g_loc.caches[numpunct<char>::id._M_id()] = nc; g_loc.caches[numpunct<wchar_t>::id._M_id()] = nw;
  }
  return im;
}
void locale::_Impl::_M_install_cache(const facet*, size_t) { sym_fatal("install_cache"); }
locale::locale() throw() : _M_impl(rt_impl()) {}
locale::locale(const locale& o) throw() : _M_impl(o._M_impl) {}
locale::~locale() throw() {}
const locale& locale::operator=(const locale& o) throw() { _M_impl = o._M_impl; return *this; }
bool locale::operator==(const locale& o) const throw() { return _M_impl == o._M_impl; }
const locale& locale::classic() { reinterpret_cast<locale*>(g_classic)->_M_impl = rt_impl(); return *reinterpret_cast<locale*>(g_classic); }
locale locale::global(const locale&) { return locale(); }

// ---------------------------------------------------------------- ios_base
ios_base::ios_base() throw() : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(0), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; _M_ios_locale = locale(); }
void ios_base::_M_call_callbacks(event) throw() {}
void ios_base::_M_dispose_callbacks() throw() { _M_callbacks = nullptr; }
ios_base::_Words& ios_base::_M_grow_words(int, bool) { return _M_word_zero; }
locale ios_base::imbue(const locale& l) throw() { locale o = _M_ios_locale; _M_ios_locale = l; return o; }
void ios_base::register_callback(event_callback, int) {}
ios_base::Init::Init() {}
ios_base::Init::~Init() {}
void ios_base_library_init() {}

template class basic_string<char>;
template class basic_string<wchar_t>;
template class basic_streambuf<char>;
template class basic_streambuf<wchar_t>;
template class basic_ios<char>;
template class basic_ios<wchar_t>;
template class basic_istream<char>;
template class basic_ostream<char>;
template class basic_iostream<char>;
template class basic_istream<wchar_t>;
template class basic_ostream<wchar_t>;
template class basic_iostream<wchar_t>;
template class basic_stringbuf<char>;
template class basic_stringbuf<wchar_t>;
template class basic_stringstream<char>;
template class basic_istringstream<char>;
template class basic_ostringstream<char>;
template class basic_stringstream<wchar_t>;
template class basic_istringstream<wchar_t>;
template class basic_ostringstream<wchar_t>;
template class num_put<char>; template class num_get<char>;
template class num_put<wchar_t>; template class num_get<wchar_t>;
template class numpunct<char>; template class numpunct<wchar_t>;
template ostream& __ostream_insert(ostream&, const char*, streamsize);
template wostream& __ostream_insert(wostream&, const wchar_t*, streamsize);
template ostream& operator<< <>(ostream&, const char*);
template ostream& operator<< <>(ostream&, char);
template ostream& operator<< <>(ostream&, unsigned char);
template ostream& operator<< <>(ostream&, signed char);
template wostream& operator<< <>(wostream&, const wchar_t*);
template wostream& operator<< <>(wostream&, const char*);
template wostream& operator<< <>(wostream&, wchar_t);
template wostream& operator<< <>(wostream&, char);
template istream& operator>> <>(istream&, char&);
template ostream& operator<< <>(ostream&, const string&);
template wostream& operator<< <>(wostream&, const wstring&);
template istream& ws<>(istream&);
template ostream& endl<>(ostream&); template wostream& endl<>(wostream&);
template bool has_facet<ctype<char>>(const locale&);
template const ctype<char>& use_facet<ctype<char>>(const locale&);
template const ctype<wchar_t>& use_facet<ctype<wchar_t>>(const locale&);
template istream& istream::_M_extract<unsigned long>(unsigned long&);
template istream& istream::_M_extract<unsigned short>(unsigned short&);
template istream& istream::_M_extract<unsigned int>(unsigned int&);
template istream& istream::_M_extract<long>(long&);
template wistream& wistream::_M_extract<unsigned long>(unsigned long&);
template wistream& wistream::_M_extract<unsigned short>(unsigned short&);
template wistream& wistream::_M_extract<unsigned int>(unsigned int&);
template wistream& wistream::_M_extract<long>(long&);
template wistream& wistream::_M_extract<bool>(bool&);
template wistream& operator>> <>(wistream&, wchar_t&);
template wistream& ws<>(wistream&);
template istream& getline<>(istream&, string&, char);
template istream& getline<>(istream&, string&);
template istream& operator>> <>(istream&, string&);
template istream& istream::_M_extract<bool>(bool&);
template ostream& ostream::_M_insert<unsigned long>(unsigned long);
template ostream& ostream::_M_insert<long>(long);
template ostream& ostream::_M_insert<bool>(bool);
template wostream& wostream::_M_insert<unsigned long>(unsigned long);
template wostream& wostream::_M_insert<long>(long);
template wostream& wostream::_M_insert<bool>(bool);
}
