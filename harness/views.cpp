#include "elem.hpp"
#include <string>
#include <string_view>
#include <ostream>
#include <ptl/array_ref.hpp>
#include <ptl/string_ref.hpp>
#include <ptl/string.hpp>
#include <ptl/vector.hpp>
#include <ptl/array.hpp>
ELEM(E, ES)
template<typename T> auto amp(T && t) { return std::addressof(t); }
using R = ptl::string_ref; using SV = std::string_view;
using A = ptl::array_ref<E>; using K = ptl::array_ref<const E>;
struct view { const char * p; u64 n; };
extern "C" {
// ---- string_ref
u64 r_sizeof() { return sizeof(R); }
void r_ctor(R * o) { new(o) R; }
void r_ctor_c(R * o, const char * s) { new(o) R(s); }
void r_ctor_n(R * o, const char * s, u64 n) { new(o) R(s, n); }
void r_ctor_sv(R * o, const char * s, u64 n) { new(o) R(SV(s, n)); }
void r_literal(R * o, const char * s, u64 n) { new(o) R(ptl::literals::operator""_sr(s, n)); }
void r_ctor_s(R * o, const ptl::string * s) { new(o) R(*s); }
void r_copy(R * o, const R * r) { new(o) R(*r); }
R * r_asg(R * o, const R * r) { return &(*o = *r); }
const char * r_data(const R * r) { return r->data(); }
u64 r_size(const R * r) { return r->size(); }
bool r_empty(const R * r) { return r->empty(); }
u64 r_max_size() { return R::max_size(); }
const char * r_front(const R * r) { return &r->front(); }
const char * r_back(const R * r) { return &r->back(); }
const char * r_index(const R * r, u64 i) { return &(*r)[i]; }
const char * r_at(const R * r, u64 i) { return &r->at(i); }
void r_remove_prefix(R * r, u64 n) { r->remove_prefix(n); }
void r_remove_suffix(R * r, u64 n) { r->remove_suffix(n); }
void r_substr(R * o, const R * r, u64 i) { new(o) R(r->substr(i)); }
void r_substr_n(R * o, const R * r, u64 i, u64 n) { new(o) R(r->substr(i, n)); }
void r_view(view * v, const R * r) { const SV s = *r; v->p = s.data(); v->n = s.size(); }
#define CMP(N, OP) bool r_##N(const R * a, const R * b) { return *a OP *b; }
CMP(eq, ==) CMP(ne, !=) CMP(lt, <) CMP(gt, >) CMP(le, <=) CMP(ge, >=)
u64 r_hash(const R * r) { return std::hash<R>{}(*r); }
std::ostream * r_print(std::ostream * os, const R * r) { return &(*os << *r); }
#define IT(P, T, N, X) auto P##_##N(T * r) { return std::addressof(*(X)); }
// ---- array_ref
#define REF(P, T, X) \
u64 P##_sizeof() { return sizeof(T); } \
void P##_ctor(T * o) { new(o) T; } \
void P##_ctor_pp(T * o, X * f, X * l) { new(o) T(f, l); } \
void P##_ctor_pn(T * o, X * f, u64 n) { new(o) T(f, n); } \
void P##_ctor_arr3(T * o, X * f) { new(o) T(*reinterpret_cast<X (*)[3]>(f)); } \
void P##_copy(T * o, const T * r) { new(o) T(*r); } \
T * P##_asg(T * o, const T * r) { return std::addressof(*o = *r); } \
X * P##_data(const T * r) { return r->data(); } \
u64 P##_size(const T * r) { return r->size(); } \
bool P##_empty(const T * r) { return r->empty(); } \
X * P##_front(const T * r) { return std::addressof(r->front()); } \
X * P##_back(const T * r) { return std::addressof(r->back()); } \
X * P##_index(const T * r, u64 i) { return std::addressof((*r)[i]); } \
X * P##_at(const T * r, u64 i) { return std::addressof(r->at(i)); } \
void P##_first(T * o, const T * r, u64 n) { new(o) T(r->first(n)); } \
void P##_last(T * o, const T * r, u64 n) { new(o) T(r->last(n)); } \
void P##_subrange(T * o, const T * r, u64 i) { new(o) T(r->subrange(i)); } \
void P##_subrange_n(T * o, const T * r, u64 i, u64 n) { new(o) T(r->subrange(i, n)); }
REF(a, A, E) REF(k, K, const E)
void a_ctor_vec(A * o, ptl::vector<E> * v) { new(o) A(*v); }
void k_ctor_vec(K * o, ptl::vector<E> * v) { new(o) K(*v); }
void k_ctor_cvec(K * o, const ptl::vector<E> * v) { new(o) K(*v); }
void a_ctor_array(A * o, ptl::array<E, 3> * v) { new(o) A(*v); }
void k_ctor_array(K * o, ptl::array<E, 3> * v) { new(o) K(*v); }
void k_ctor_carray(K * o, const ptl::array<E, 3> * v) { new(o) K(*v); }
void k_ctor_aref(K * o, const A * r) { new(o) K(*r); }
void k_ctor_aref_m(K * o, A * r) { new(o) K(*r); }
}
