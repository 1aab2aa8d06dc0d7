#include <utility>
#include <functional>
#include <stdexcept>
#include <new>
#include <ptl/bitset.hpp>
using u64 = unsigned long;
struct tagged;
namespace ptl { template<> inline constexpr bool enable_bitset_operator_bool<tagged>{true}; }
#define GET(N, I) bool b##N##_get##I(const ptl::bitset<N> * b) { return get<I>(*b); }
#define COMMON(N) \
using B##N = ptl::bitset<N>; using T##N = ptl::bitset<N, tagged>; \
extern "C" { \
void b##N##_ctor(B##N * o) { new(o) B##N; } \
void b##N##_ctor_v(B##N * o, u64 v) { new(o) B##N(v); } \
bool b##N##_at(const B##N * b, u64 i) { return b->at(i); } \
bool b##N##_test(const B##N * b, u64 i) { return b->test(i); } \
bool b##N##_mat(B##N * b, u64 i) { return b->at(i); } \
void b##N##_mat_set(B##N * b, u64 i, bool v) { b->at(i) = v; } \
bool b##N##_all(const B##N * b) { return b->all(); } \
bool b##N##_any(const B##N * b) { return b->any(); } \
bool b##N##_none(const B##N * b) { return b->none(); } \
u64 b##N##_count(const B##N * b) { return b->count(); } \
u64 b##N##_size() { return B##N::size(); } \
u64 b##N##_max_size() { return B##N::max_size(); } \
bool b##N##_empty() { return B##N::empty(); } \
bool b##N##_opbool(const T##N * b) { return static_cast<bool>(*b); } \
B##N * b##N##_and_asg(B##N * a, const B##N * b) { return &(*a &= *b); } \
B##N * b##N##_or_asg(B##N * a, const B##N * b) { return &(*a |= *b); } \
B##N * b##N##_xor_asg(B##N * a, const B##N * b) { return &(*a ^= *b); } \
void b##N##_and(B##N * o, const B##N * a, const B##N * b) { new(o) B##N(*a & *b); } \
void b##N##_or(B##N * o, const B##N * a, const B##N * b) { new(o) B##N(*a | *b); } \
void b##N##_xor(B##N * o, const B##N * a, const B##N * b) { new(o) B##N(*a ^ *b); } \
void b##N##_not(B##N * o, const B##N * a) { new(o) B##N(~*a); } \
B##N * b##N##_shl_asg(B##N * a, u64 n) { return &(*a <<= n); } \
B##N * b##N##_shr_asg(B##N * a, u64 n) { return &(*a >>= n); } \
void b##N##_shl(B##N * o, const B##N * a, u64 n) { new(o) B##N(*a << n); } \
void b##N##_shr(B##N * o, const B##N * a, u64 n) { new(o) B##N(*a >> n); } \
B##N * b##N##_set(B##N * a) { return &a->set(); } \
B##N * b##N##_set_i(B##N * a, u64 i) { return &a->set(i); } \
B##N * b##N##_set_iv(B##N * a, u64 i, bool v) { return &a->set(i, v); } \
B##N * b##N##_reset(B##N * a) { return &a->reset(); } \
B##N * b##N##_reset_i(B##N * a, u64 i) { return &a->reset(i); } \
B##N * b##N##_flip(B##N * a) { return &a->flip(); } \
B##N * b##N##_flip_i(B##N * a, u64 i) { return &a->flip(i); } \
void b##N##_swap(B##N * a, B##N * b) { a->swap(*b); } \
void b##N##_fswap(B##N * a, B##N * b) { swap(*a, *b); } \
void b##N##_copy(B##N * o, const B##N * a) { new(o) B##N(*a); } \
B##N * b##N##_asg(B##N * o, const B##N * a) { return &(*o = *a); } \
bool b##N##_eq(const B##N * a, const B##N * b) { return *a == *b; } \
bool b##N##_ne(const B##N * a, const B##N * b) { return *a != *b; } \
u64 b##N##_hash(const B##N * a, const B##N * b, u64 * r) { *r = std::hash<B##N>{}(*a); return std::hash<B##N>{}(*b); } \
std::ostream * b##N##_print(std::ostream * os, const B##N * a) { return &(*os << *a); } \
std::istream * b##N##_read(std::istream * is, B##N * a) { return &(*is >> *a); } \
}
#define NONZERO(N, M, L) COMMON(N) NZ(N) extern "C" { GET(N, 0) GET(N, M) GET(N, L) }
#define NZ(N) extern "C" { \
bool b##N##_index(const B##N * b, u64 i) { return (*b)[i]; } \
bool b##N##_ref(B##N * b, u64 i) { return (*b)[i]; } \
bool b##N##_ref_not(B##N * b, u64 i) { return ~(*b)[i]; } \
void b##N##_ref_set(B##N * b, u64 i, bool v) { (*b)[i] = v; } \
void b##N##_ref_asg(B##N * a, u64 i, B##N * b, u64 j) { (*a)[i] = (*b)[j]; } \
bool b##N##_ref_chain(B##N * a, u64 i, bool v) { return (*a)[i] = v; } \
bool b##N##_ref_flip(B##N * a, u64 i) { return (*a)[i].flip(); } \
void b##N##_ref_swap(B##N * a, u64 i, B##N * b, u64 j) { auto x{(*a)[i]}; auto y{(*b)[j]}; x.swap(y); } \
void b##N##_ref_fswap(B##N * a, u64 i, B##N * b, u64 j) { swap((*a)[i], (*b)[j]); } \
}
COMMON(0)
NONZERO(3, 1, 2) NONZERO(7, 3, 6) NONZERO(8, 4, 7) NONZERO(9, 4, 8) NONZERO(10, 5, 9) NONZERO(16, 8, 15) NONZERO(17, 8, 16)
NONZERO(31, 15, 30) NONZERO(33, 16, 32) NONZERO(63, 31, 62) NONZERO(64, 32, 63) NONZERO(65, 32, 64) NONZERO(100, 50, 99)
NONZERO(32, 16, 31) NONZERO(128, 64, 127)
#ifdef MORE
COMMON(2) NZ(2) extern "C" { GET(2, 0) GET(2, 1) }
NONZERO(4, 2, 3) NONZERO(5, 2, 4) NONZERO(6, 3, 5) NONZERO(11, 5, 10) NONZERO(12, 6, 11) NONZERO(13, 6, 12) NONZERO(14, 7, 13) NONZERO(15, 7, 14)
NONZERO(24, 12, 23) NONZERO(40, 20, 39) NONZERO(72, 36, 71) NONZERO(127, 64, 126) NONZERO(129, 64, 128)
#endif
COMMON(300) NZ(300)
COMMON(1)
extern "C" { GET(1, 0)
bool b1_index(const B1 * b, u64 i) { return (*b)[i]; }
bool b1_ref(B1 * b, u64 i) { return (*b)[i]; }
bool b1_ref_not(B1 * b, u64 i) { return ~(*b)[i]; }
void b1_ref_set(B1 * b, u64 i, bool v) { (*b)[i] = v; }
void b1_ref_asg(B1 * a, u64 i, B1 * b, u64 j) { (*a)[i] = (*b)[j]; }
bool b1_ref_chain(B1 * a, u64 i, bool v) { return (*a)[i] = v; }
bool b1_ref_flip(B1 * a, u64 i) { return (*a)[i].flip(); }
void b1_ref_swap(B1 * a, u64 i, B1 * b, u64 j) { auto x{(*a)[i]}; auto y{(*b)[j]}; x.swap(y); }
void b1_ref_fswap(B1 * a, u64 i, B1 * b, u64 j) { swap((*a)[i], (*b)[j]); }
}
