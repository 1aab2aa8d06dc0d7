#include "elem.hpp"
#include <string_view>
#include <ostream>
#include <ptl/vector.hpp>
#include <ptl/string.hpp>
#include <ptl/array.hpp>
#include <ptl/array_ref.hpp>
#include <ptl/string_ref.hpp>
ELEM(E, ES)
template<typename T, typename U> constexpr bool same{std::is_same_v<T, U>};
using i64 = long;
#define P(x) ((x).operator->())
#define SELF(a, b) (std::addressof(a) == std::addressof(b))
// C container, I iterator, K const iterator, T element as seen through I
#define ITER(N, C, I, K, T) \
T * N##_at(C * c, u64 i) { return P(c->begin() + i); } \
T * N##_end(C * c) { return P(c->end()); } \
T * N##_deref(C * c, u64 i) { return std::addressof(*(c->begin() + i)); } \
T * N##_index(C * c, u64 i, i64 d) { return std::addressof((c->begin() + i)[d]); } \
T * N##_preinc(C * c, u64 i) { auto x{c->begin() + i}; auto & r{++x}; return SELF(r, x) ? P(x) : nullptr; } \
T * N##_predec(C * c, u64 i) { auto x{c->begin() + i}; auto & r{--x}; return SELF(r, x) ? P(x) : nullptr; } \
T * N##_postinc(C * c, u64 i, T ** o) { auto x{c->begin() + i}; const auto r{x++}; *o = P(x); return P(r); } \
T * N##_postdec(C * c, u64 i, T ** o) { auto x{c->begin() + i}; const auto r{x--}; *o = P(x); return P(r); } \
T * N##_pluseq(C * c, u64 i, i64 d) { auto x{c->begin() + i}; auto & r{x += d}; return SELF(r, x) ? P(x) : nullptr; } \
T * N##_minuseq(C * c, u64 i, i64 d) { auto x{c->begin() + i}; auto & r{x -= d}; return SELF(r, x) ? P(x) : nullptr; } \
T * N##_plus(C * c, u64 i, i64 d, T ** o) { const auto x{c->begin() + i}; const auto r{x + d}; *o = P(x); return P(r); } \
T * N##_rplus(C * c, u64 i, i64 d, T ** o) { const auto x{c->begin() + i}; const auto r{d + x}; *o = P(x); return P(r); } \
T * N##_minus(C * c, u64 i, i64 d, T ** o) { const auto x{c->begin() + i}; const auto r{x - d}; *o = P(x); return P(r); } \
i64 N##_diff(C * c, u64 i, u64 j) { return (c->begin() + i) - (c->begin() + j); } \
bool N##_eq(C * c, u64 i, u64 j) { return c->begin() + i == c->begin() + j; } \
bool N##_ne(C * c, u64 i, u64 j) { return c->begin() + i != c->begin() + j; } \
bool N##_lt(C * c, u64 i, u64 j) { return c->begin() + i <  c->begin() + j; } \
bool N##_le(C * c, u64 i, u64 j) { return c->begin() + i <= c->begin() + j; } \
bool N##_gt(C * c, u64 i, u64 j) { return c->begin() + i >  c->begin() + j; } \
bool N##_ge(C * c, u64 i, u64 j) { return c->begin() + i >= c->begin() + j; } \
const T * N##_conv(C * c, u64 i) { const K k = c->begin() + i; return P(k); } \
T * N##_copy(C * c, u64 i) { const auto x{c->begin() + i}; const auto y{x}; return P(y); } \
T * N##_asg(C * c, u64 i) { I x; const auto y{c->begin() + i}; x = y; return P(x); } \
bool N##_default() { return I{} == I{} && P(I{}) == nullptr; } \
T * N##_rat(C * c, u64 i) { return std::addressof(*(c->rbegin() + i)); } \
T * N##_rindex(C * c, u64 i) { return std::addressof(c->rbegin()[i]); } \
i64 N##_rlen(C * c) { return c->rend() - c->rbegin(); } \
bool N##_types() { using Tr = std::iterator_traits<I>; return same<decltype(*std::declval<const I &>()), T &> && same<typename Tr::reference, T &> && same<typename Tr::pointer, T *> && \
	same<typename Tr::value_type, std::remove_const_t<T>> && same<typename Tr::difference_type, std::ptrdiff_t> && same<typename Tr::iterator_category, std::random_access_iterator_tag>; }
using V = ptl::vector<E>; using S = ptl::string; using A = ptl::array<E, 5>; using R = ptl::array_ref<E>; using Q = ptl::array_ref<const E>; using X = ptl::string_ref;
extern "C" {
ITER(v, V, V::iterator, V::const_iterator, E) ITER(cv, const V, V::const_iterator, V::const_iterator, const E)
ITER(s, S, S::iterator, S::const_iterator, char) ITER(cs, const S, S::const_iterator, S::const_iterator, const char)
ITER(a, A, A::iterator, A::const_iterator, E) ITER(ca, const A, A::const_iterator, A::const_iterator, const E)
ITER(r, R, R::iterator, R::const_iterator, E) ITER(cr, const R, R::const_iterator, R::const_iterator, const E)
ITER(q, Q, Q::iterator, Q::const_iterator, const E) ITER(cq, const Q, Q::const_iterator, Q::const_iterator, const E)
ITER(x, X, X::iterator, X::const_iterator, const char) ITER(cx, const X, X::const_iterator, X::const_iterator, const char)
#define MIX(N, C, K) bool N##_mixeq(C * c, u64 i, u64 j) { const K k = c->begin() + i; return k == c->begin() + j && !(k != c->begin() + j); }
MIX(a, A, A::const_iterator) MIX(r, R, R::const_iterator) MIX(q, Q, Q::const_iterator) MIX(x, X, X::const_iterator)
#define C(N, C, T) \
const T * N##_cbegin(const C * c) { return P(c->cbegin()); } const T * N##_cend(const C * c) { return P(c->cend()); } \
const T * N##_crat(const C * c, u64 i) { return std::addressof(*(c->crbegin() + i)); } i64 N##_crlen(const C * c) { return c->crend() - c->crbegin(); }
C(v, V, E) C(s, S, char) C(a, A, E) C(r, R, E) C(q, Q, E) C(x, X, char)
}
