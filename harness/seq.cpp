#include "elem.hpp"
#include <utility>
#include <array>
#include <tuple>
#include <ptl/array.hpp>
#include <ptl/tuple.hpp>
#ifndef N
#define N 3
#endif
#ifndef FS
#define FS 8
#endif
ELEM(E, ES) ELEM(F, FS) PLAIN(P, PTYPE)
template<typename T> auto amp(T && t) { return std::addressof(t); }
template<typename T, typename U> constexpr bool same{std::is_same_v<T, U>};
using std::get;
#define ARRAY(P, A, E) \
u64 P##_sizeof() { return sizeof(A); } \
void P##_ctor(A * o) { new(o) A; } \
void P##_copy(A * o, const A * a) { new(o) A(*a); } \
void P##_move(A * o, A * a) { new(o) A(std::move(*a)); } \
A * P##_asg(A * o, const A * a) { return amp(*o = *a); } \
A * P##_asg_m(A * o, A * a) { return amp(*o = std::move(*a)); } \
void P##_dtor(A * o) { o->~A(); } \
E * P##_data(A * a) { return a->data(); } \
const E * P##_cdata(const A * a) { return a->data(); } \
u64 P##_size(const A * a) { return a->size(); } \
u64 P##_max_size() { return A::max_size(); } \
bool P##_empty(const A * a) { return a->empty(); } \
E * P##_at(A * a, u64 i) { return amp(a->at(i)); } \
const E * P##_cat(const A * a, u64 i) { return amp(a->at(i)); } \
u64 P##_tsize() { return std::tuple_size<A>::value; } \
void P##_fill(A * a, const E * e) { a->fill(*e); } \
void P##_swap(A * a, A * b) { a->swap(*b); } \
void P##_fswap(A * a, A * b) { swap(*a, *b); } \
bool P##_eq(const A * a, const A * b) { return *a == *b; } \
bool P##_ne(const A * a, const A * b) { return *a != *b; } \
bool P##_lt(const A * a, const A * b) { return *a <  *b; } \
bool P##_gt(const A * a, const A * b) { return *a >  *b; } \
bool P##_le(const A * a, const A * b) { return *a <= *b; } \
bool P##_ge(const A * a, const A * b) { return *a >= *b; } \
const E * P##_begin(A * a) { return a->begin().operator->(); } \
const E * P##_cbegin(const A * a) { return a->begin().operator->(); } \
const E * P##_cbegin2(const A * a) { return a->cbegin().operator->(); } \
const E * P##_end(A * a) { return a->end().operator->(); } \
const E * P##_cend(const A * a) { return a->end().operator->(); } \
const E * P##_cend2(const A * a) { return a->cend().operator->(); } \
const E * P##_rbegin(A * a) { return a->rbegin().base().operator->(); } \
const E * P##_crbegin(const A * a) { return a->rbegin().base().operator->(); } \
const E * P##_crbegin2(const A * a) { return a->crbegin().base().operator->(); } \
const E * P##_rend(A * a) { return a->rend().base().operator->(); } \
const E * P##_crend(const A * a) { return a->rend().base().operator->(); } \
const E * P##_crend2(const A * a) { return a->crend().base().operator->(); }
#define NONEMPTY(P, A, E) \
void P##_ctor_1(A * o, const E * a) { new(o) A{*a}; } \
void P##_ctor_1l(A * o, E * a) { new(o) A{*a}; } \
void P##_ctor_1m(A * o, E * a) { new(o) A{std::move(*a)}; } \
E * P##_index(A * a, u64 i) { return amp((*a)[i]); } \
const E * P##_cindex(const A * a, u64 i) { return amp((*a)[i]); } \
E * P##_front(A * a) { return amp(a->front()); } \
const E * P##_cfront(const A * a) { return amp(a->front()); } \
E * P##_back(A * a) { return amp(a->back()); } \
const E * P##_cback(const A * a) { return amp(a->back()); } \
E * P##_get_first(A * a) { return amp(get<0>(*a)); } \
const E * P##_cget_first(const A * a) { return amp(get<0>(*a)); } \
E * P##_get_last(A * a) { return amp(get<N - 1>(*a)); } \
const E * P##_cget_last(const A * a) { return amp(get<N - 1>(*a)); } \
E * P##_mget_last(A * a) { auto && r = get<N - 1>(std::move(*a)); return std::addressof(r); } \
const E * P##_cmget_last(const A * a) { auto && r = get<N - 1>(std::move(*a)); return std::addressof(r); } \
bool P##_types() { return same<decltype(get<0>(std::declval<A &>())), E &> && same<decltype(get<0>(std::declval<const A &>())), const E &> && same<decltype(get<0>(std::declval<A>())), E &&> && \
	same<decltype(get<0>(std::declval<const A>())), const E &&> && same<std::tuple_element_t<0, A>, E> && same<std::tuple_element_t<N - 1, A>, E>; }
using AE = ptl::array<E, N>; using AI = ptl::array<int, N>; using AP = ptl::array<P, N>;
extern "C" {
ARRAY(e, AE, E) ARRAY(i, AI, int) ARRAY(k, AP, P)
#if N > 0
NONEMPTY(e, AE, E) NONEMPTY(i, AI, int) NONEMPTY(k, AP, P)
#endif
#if N >= 3
void e_ctor_3(AE * o, const E * a, E * b, E * c) { new(o) AE{*a, std::move(*b), *c}; }
void k_ctor_3(AP * o, const P * a, P * b, const P * c) { new(o) AP{*a, std::move(*b), *c}; }
void i_ctor_3(AI * o, const int * a, int * b, short c) { new(o) AI{*a, *b, c}; }
#endif
#if N == 3
void e_guide(AE * o, const E * a, const E * b, const E * c) { new(o) AE(ptl::array{*a, *b, *c}); }
const void * e_bind(const AE * a, u64 i) { auto & [x, y, z] = *a; return i == 0 ? amp(x) : i == 1 ? amp(y) : amp(z); }
#endif
}
// ---- tuple (element order in memory: last to first)
using TP = ptl::tuple<E, F, int>; using T1 = ptl::tuple<E>; using T0 = ptl::tuple<>; using T4 = ptl::tuple<int, char, E, long>; using T2 = ptl::tuple<P, int>;
#define TUPLE(P, T) \
u64 P##_sizeof() { return sizeof(T); } \
u64 P##_tsize() { return std::tuple_size<T>::value; } \
void P##_copy(T * o, const T * a) { new(o) T(*a); } \
void P##_move(T * o, T * a) { new(o) T(std::move(*a)); } \
T * P##_asg(T * o, const T * a) { return amp(*o = *a); } \
T * P##_asg_m(T * o, T * a) { return amp(*o = std::move(*a)); } \
void P##_dtor(T * o) { o->~T(); } \
void P##_swap(T * a, T * b) { a->swap(*b); } \
void P##_fswap(T * a, T * b) { swap(*a, *b); } \
bool P##_eq(const T * a, const T * b) { return *a == *b; } \
bool P##_ne(const T * a, const T * b) { return *a != *b; } \
bool P##_lt(const T * a, const T * b) { return *a <  *b; } \
bool P##_gt(const T * a, const T * b) { return *a >  *b; } \
bool P##_le(const T * a, const T * b) { return *a <= *b; } \
bool P##_ge(const T * a, const T * b) { return *a >= *b; }
#define GET(P, T, I, E) \
E * P##_get##I(T * a) { return std::addressof(a->get<I>()); } \
const E * P##_cget##I(const T * a) { return std::addressof(a->get<I>()); } \
E * P##_mget##I(T * a) { auto && r = std::move(*a).get<I>(); return std::addressof(r); } \
const E * P##_cmget##I(const T * a) { auto && r = std::move(*a).get<I>(); return std::addressof(r); } \
bool P##_types##I() { return same<decltype(std::declval<T &>().get<I>()), E &> && same<decltype(std::declval<const T &>().get<I>()), const E &> && same<decltype(std::declval<T>().get<I>()), E &&> && \
	same<decltype(std::declval<const T>().get<I>()), const E &&> && same<std::tuple_element_t<I, T>, E>; }
extern "C" {
TUPLE(p, TP) TUPLE(o, T1) TUPLE(z, T0) TUPLE(q, T4) TUPLE(k2, T2)
GET(k2, T2, 0, P) GET(k2, T2, 1, int) GET(p, TP, 0, E) GET(p, TP, 1, F) GET(p, TP, 2, int) GET(o, T1, 0, E) GET(q, T4, 0, int) GET(q, T4, 1, char) GET(q, T4, 2, E) GET(q, T4, 3, long)
void z_ctor(T0 * o) { new(o) T0; }
void p_ctor_c(TP * o, const E * e, const F * f, const int * i) { new(o) TP{*e, *f, *i}; }
void p_ctor_m(TP * o, E * e, F * f, int * i) { new(o) TP{std::move(*e), std::move(*f), std::move(*i)}; }
void p_ctor_x(TP * o, E * e, F * f, short i) { new(o) TP{*e, std::move(*f), i}; }
void p_guide(TP * o, const E * e, const F * f, int i) { new(o) TP(ptl::tuple{*e, *f, i}); }
const void * p_bind(TP * a, u64 i) { auto & [x, y, z] = *a; if(i == 0) return amp(x); if(i == 1) return amp(y); return amp(z); }
void o_ctor_c(T1 * o, const E * e) { new(o) T1{*e}; }
void o_ctor_m(T1 * o, E * e) { new(o) T1{std::move(*e)}; }
void q_ctor(T4 * o, int a, char b, const E * c, long d) { new(o) T4{a, b, *c, d}; }
}
