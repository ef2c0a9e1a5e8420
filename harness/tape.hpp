// An archive for the boost serialization protocol: a tape of typed cells. Containers go through boost's own code.
#pragma once
#include "vp.h"
#include <boost/serialization/serialization.hpp>
#include <boost/serialization/nvp.hpp>
#include <boost/serialization/version.hpp>
#include <boost/serialization/collection_size_type.hpp>
#include <boost/serialization/item_version_type.hpp>
#include <boost/serialization/library_version_type.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/vector.hpp>
#include <boost/serialization/map.hpp>
#include <string>
#include <type_traits>
#include <vector>
struct Cell { int kind = 0; uint64_t u = 0; double d = 0; std::string s; };
template <bool SAVING> struct Tape {
  using is_saving = std::integral_constant<bool, SAVING>; using is_loading = std::integral_constant<bool, !SAVING>;
  std::vector<Cell>* t; size_t pos = 0; explicit Tape(std::vector<Cell>& c) : t(&c) {}
  boost::serialization::library_version_type get_library_version() const { return boost::serialization::library_version_type(19); }
  template <class T> void register_type(T* = nullptr) {} void reset_object_address(const void*, const void*) {} template <class H> void get_helper(void* = nullptr) {}
  Cell& next(int kind) { if (SAVING) { t->push_back(Cell{}); t->back().kind = kind; return t->back(); } VP_ASSERT(pos < t->size(), "reads what was written"); if (pos >= t->size()) VP_ASSUME(0); Cell& c = (*t)[pos++]; VP_ASSERT(c.kind == kind, "reads the types that were written"); if (c.kind != kind) VP_ASSUME(0); return c; }
  template <class T> void item(T& x) {
    using U = typename std::remove_const<T>::type;
    if constexpr (std::is_same<U, std::string>::value) { Cell& c = next(1); if constexpr (SAVING) c.s = x; else x = c.s; }
    else if constexpr (std::is_floating_point<U>::value) { Cell& c = next(2); if constexpr (SAVING) c.d = (double)x; else x = (U)c.d; }
    else if constexpr (std::is_arithmetic<U>::value || std::is_enum<U>::value) { Cell& c = next(16 + (int)sizeof(U)); if constexpr (SAVING) c.u = (uint64_t)x; else x = (U)c.u; }
    else if constexpr (std::is_same<U, boost::serialization::collection_size_type>::value || std::is_same<U, boost::serialization::item_version_type>::value || std::is_same<U, boost::serialization::library_version_type>::value) { Cell& c = next(3); if constexpr (SAVING) c.u = (uint64_t)(size_t)x; else x = U((size_t)c.u); }
    else boost::serialization::serialize_adl(*this, const_cast<U&>(x), (unsigned)boost::serialization::version<U>::value); }
  template <class T> void item(const boost::serialization::nvp<T>& x) { item(x.value()); }
  template <class T> Tape& operator&(T&& x) { item(x); return *this; }
  template <class T> Tape& operator<<(T&& x) { static_assert(SAVING, ""); item(x); return *this; }
  template <class T> Tape& operator>>(T&& x) { static_assert(!SAVING, ""); item(x); return *this; }
};
template <class T> static std::vector<Cell> saveTape(T const& x) { std::vector<Cell> t; Tape<true> a(t); a << x; return t; }
template <class T> static void loadTape(std::vector<Cell>& t, T& x) { Tape<false> a(t); a >> x; VP_ASSERT(a.pos == t.size(), "reads all that was written"); }
static inline bool sameText(std::string const& a, std::string const& b) { if (a.size() != b.size()) return false; int ok = 1; for (size_t i = 0; i < a.size(); i++) ok &= a[i] == b[i]; return ok; }
static inline void sameTapes(std::vector<Cell> const& a, std::vector<Cell> const& b, const char* label) { VP_ASSERT(a.size() == b.size(), label); if (a.size() != b.size()) return; int ok = 1; for (size_t i = 0; i < a.size(); i++) ok &= (int)((a[i].kind == b[i].kind) & (a[i].u == b[i].u) & vp_same_d(a[i].d, b[i].d) & sameText(a[i].s, b[i].s)); VP_ASSERT(ok, label); }
