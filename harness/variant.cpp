#include "elem.hpp"
#include <ptl/variant.hpp>
#ifndef FS
#define FS 8
#endif
#ifdef PLAINV   // every alternative is trivially copyable; the sizes differ and equality is not equality of the bytes
PLAIN(E, short) PLAIN(F, long)
#else
ELEM(E, ES)
struct F { F() noexcept; F(const F &) noexcept; F(F &&) noexcept; explicit F(long); auto operator=(const F &) -> F &; auto operator=(F &&) noexcept -> F &; ~F() noexcept;
	auto operator&() noexcept -> F *; auto operator&() const noexcept -> const F *; unsigned char raw[FS]; };
bool operator==(const F &, const F &) noexcept; bool operator!=(const F &, const F &) noexcept; bool operator< (const F &, const F &) noexcept;
bool operator> (const F &, const F &) noexcept; bool operator<=(const F &, const F &) noexcept; bool operator>=(const F &, const F &) noexcept;
void swap(F &, F &) noexcept;
#endif
using V = ptl::variant<E, F, int>;
#define OPS(T) long operator()(T &); long operator()(const T &); long operator()(T &&); long operator()(const T &&);
struct Vis { OPS(E) OPS(F) OPS(int) };
struct VE { OPS(E) VE(const VE &) noexcept; VE(VE &&) noexcept; }; struct VF { OPS(F) VF(const VF &) noexcept; VF(VF &&) noexcept; }; struct VI { OPS(int) VI(const VI &) noexcept; VI(VI &&) noexcept; };
struct VV { void operator()(E &); void operator()(F &); void operator()(int &); };
struct VR { E & operator()(E &); E & operator()(F &); E & operator()(int &); };
struct WE { E & operator()(E &); WE(const WE &) noexcept; WE(WE &&) noexcept; };
struct WO { E & operator()(F &); E & operator()(int &); WO(const WO &) noexcept; WO(WO &&) noexcept; };
template<typename T> auto amp(T && t) { return std::addressof(t); }
extern "C" {
u64 v_sizeof() { return sizeof(V); }
u64 v_alignof() { return alignof(V); }
void v_ctor(V * o) { new(o) V; }
void v_copy(V * o, const V * x) { new(o) V{*x}; }
void v_move(V * o, V * x) { new(o) V{std::move(*x)}; }
void v_dtor(V * o) { o->~V(); }
V * v_asg_c(V * o, const V * x) { return amp(*o = *x); }
V * v_asg_m(V * o, V * x) { return amp(*o = std::move(*x)); }
void v_swap(V * a, V * b) { a->swap(*b); }
void v_fswap(V * a, V * b) { swap(*a, *b); }
#define TYPE(T) \
void v_from_##T(V * o, const T * x) { new(o) V{*x}; } \
void v_from_m_##T(V * o, T * x) { new(o) V{std::move(*x)}; } \
void v_from_l_##T(V * o, T * x) { new(o) V{*x}; } \
void v_inpt_##T(V * o, const T * x) { new(o) V{std::in_place_type<T>, *x}; } \
void v_inpt0_##T(V * o) { new(o) V{std::in_place_type<T>}; } \
V * v_asg_##T(V * o, const T * x) { return amp(*o = *x); } \
V * v_asg_m_##T(V * o, T * x) { return amp(*o = std::move(*x)); } \
V * v_asg_l_##T(V * o, T * x) { return amp(*o = *x); } \
T * v_emplace_##T(V * o, const T * x) { return amp(o->emplace<T>(*x)); } \
T * v_emplace_m_##T(V * o, T * x) { return amp(o->emplace<T>(std::move(*x))); } \
T * v_emplace0_##T(V * o) { return amp(o->emplace<T>()); } \
bool v_holds_##T(const V * o) { return o->holds<T>(); } \
const T * v_get_if_c_##T(const V * o) { return o->get_if<T>(); } \
T * v_get_if_##T(V * o) { return o->get_if<T>(); } \
const T * v_get_c_##T(const V * o) { return amp(o->get<T>()); } \
T * v_get_##T(V * o) { return amp(o->get<T>()); } \
const T * v_get_cr_##T(const V * o) { auto && r = std::move(*o).get<T>(); return amp(r); } \
T * v_get_r_##T(V * o) { auto && r = std::move(*o).get<T>(); return amp(r); }
TYPE(E) TYPE(F) TYPE(int)
#define INDEX(I, T) \
void v_inpi_##T(V * o, const T * x) { new(o) V{std::in_place_index<I>, *x}; } \
void v_inpi0_##T(V * o) { new(o) V{std::in_place_index<I>}; } \
T * v_emplacei_##T(V * o, const T * x) { return amp(o->emplace<I>(*x)); } \
T * v_emplacei0_##T(V * o) { return amp(o->emplace<I>()); }
INDEX(0, E) INDEX(1, F) INDEX(2, int)
#ifndef PLAINV
void v_inpi_args(V * o, long a, const E * x) { new(o) V{std::in_place_index<0>, a, *x}; }
void v_inpt_args(V * o, long a, const E * x) { new(o) V{std::in_place_type<E>, a, *x}; }
E * v_emplace_args(V * o, long a, const E * x) { return amp(o->emplace<E>(a, *x)); }
E * v_emplacei_args(V * o, long a, const E * x) { return amp(o->emplace<0>(a, *x)); }
F * v_emplace_long(V * o, long a) { return amp(o->emplace<F>(a)); }
#endif
long v_visit(V * o, Vis * v) { return o->visit(*v); }
long v_visit_c(const V * o, Vis * v) { return o->visit(*v); }
long v_visit_r(V * o, Vis * v) { return std::move(*o).visit(*v); }
long v_visit_cr(const V * o, Vis * v) { return std::move(*o).visit(*v); }
long v_visit_rv(V * o, Vis * v) { return o->visit(std::move(*v)); }
long v_visit3(V * o, VE * a, VF * b, VI * c) { return o->visit(std::move(*a), std::move(*b), std::move(*c)); }
long v_visit3_c(const V * o, VE * a, VF * b, VI * c) { return o->visit(std::move(*a), std::move(*b), std::move(*c)); }
long v_visit3_r(V * o, VE * a, VF * b, VI * c) { return std::move(*o).visit(std::move(*a), std::move(*b), std::move(*c)); }
void v_visit_void(V * o, VV * v) { o->visit(*v); }
E * v_visit2_ref(V * o, WE * a, WO * b) { return amp(o->visit(std::move(*a), std::move(*b))); }
E * v_visit_ref(V * o, VR * v) { return amp(o->visit(*v)); }
#define CMP(n, op) bool v_##n(const V * a, const V * b) { return *a op *b; }
CMP(eq, ==) CMP(ne, !=) CMP(lt, <) CMP(le, <=) CMP(gt, >) CMP(ge, >=)
}
