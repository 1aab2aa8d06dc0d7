#include "elem.hpp"
#include <ptl/optional.hpp>
ELEM(E, ES) PLAIN(P, PTYPE)
struct L { u64 v; };   // an argument convertible to neither
using O = ptl::optional<E>; using I = ptl::optional<int>; using OP = ptl::optional<P>;
template<typename T> auto amp(T && t) { return std::addressof(t); }
extern "C" {
u64 o_sizeof() { return sizeof(O); }
u64 i_sizeof() { return sizeof(I); }
u64 o_alignof() { return alignof(O) * 256 + alignof(I); }
#define COMMON(P, O, E) \
void P##_ctor(O * o) { new(o) O; } \
void P##_ctor_null(O * o) { new(o) O{std::nullopt}; } \
void P##_copy(O * o, const O * x) { new(o) O{*x}; } \
void P##_move(O * o, O * x) { new(o) O{std::move(*x)}; } \
void P##_from(O * o, const E * x) { new(o) O{*x}; } \
void P##_from_move(O * o, E * x) { new(o) O{std::move(*x)}; } \
void P##_in_place(O * o) { new(o) O{std::in_place}; } \
void P##_in_place_copy(O * o, const E * x) { new(o) O{std::in_place, *x}; } \
void P##_dtor(O * o) { o->~O(); } \
O * P##_asg_null(O * o) { return amp(*o = std::nullopt); } \
O * P##_asg_c(O * o, const O * x) { return amp(*o = *x); } \
O * P##_asg_m(O * o, O * x) { return amp(*o = std::move(*x)); } \
O * P##_asg_v(O * o, const E * x) { return amp(*o = *x); } \
O * P##_asg_vm(O * o, E * x) { return amp(*o = std::move(*x)); } \
const E * P##_arrow_c(const O * o) { return o->operator->(); } \
E * P##_arrow(O * o) { return o->operator->(); } \
const E * P##_deref_c(const O * o) { return amp(**o); } \
E * P##_deref(O * o) { return amp(**o); } \
const E * P##_deref_cr(const O * o) { auto && r = *std::move(*o); return amp(r); } \
E * P##_deref_r(O * o) { auto && r = *std::move(*o); return amp(r); } \
bool P##_bool(const O * o) { return static_cast<bool>(*o); } \
bool P##_has_value(const O * o) { return o->has_value(); } \
const E * P##_value_c(const O * o) { return amp(o->value()); } \
E * P##_value(O * o) { return amp(o->value()); } \
const E * P##_value_cr(const O * o) { auto && r = std::move(*o).value(); return amp(r); } \
E * P##_value_r(O * o) { auto && r = std::move(*o).value(); return amp(r); } \
void P##_value_or(E * r, const O * o, const E * d) { new((void *)r) E(o->value_or(*d)); } \
void P##_value_or_m(E * r, O * o, E * d) { new((void *)r) E(std::move(*o).value_or(std::move(*d))); } \
void P##_reset(O * o) { o->reset(); } \
E * P##_emplace0(O * o) { return amp(o->emplace()); } \
E * P##_emplace_c(O * o, const E * x) { return amp(o->emplace(*x)); } \
E * P##_emplace_m(O * o, E * x) { return amp(o->emplace(std::move(*x))); } \
void P##_swap(O * a, O * b) { a->swap(*b); } \
void P##_fswap(O * a, O * b) { swap(*a, *b); } \
CMP(P, eq, ==, O, E) CMP(P, ne, !=, O, E) CMP(P, lt, <, O, E) CMP(P, le, <=, O, E) CMP(P, gt, >, O, E) CMP(P, ge, >=, O, E)
#define CMP(P, n, op, O, E) \
bool P##_##n(const O * a, const O * b) { return *a op *b; } \
bool P##_##n##_null(const O * a) { return *a op std::nullopt; } \
bool P##_null_##n(const O * a) { return std::nullopt op *a; } \
bool P##_##n##_val(const O * a, const E * b) { return *a op *b; } \
bool P##_val_##n(const E * a, const O * b) { return *a op *b; }
COMMON(o, O, E) COMMON(i, I, int) COMMON(p, OP, P)
void o_in_place_l(O * o, long v) { new(o) O{std::in_place, v}; }
void o_in_place_lc(O * o, long v, const E * x) { new(o) O{std::in_place, v, *x}; }
E * o_emplace_l(O * o, long v) { return amp(o->emplace(v)); }
E * o_emplace_lc(O * o, long v, const E * x) { return amp(o->emplace(v, *x)); }
int i_value_or_l(const I * o, long d) { return o->value_or(d); }
int i_value_or_lr(I * o, long d) { return std::move(*o).value_or(d); }
}
