#include "elem.hpp"
#include <ptl/optional.hpp>
#include <ptl/optional_ref.hpp>
#include <ptl/variant_ref.hpp>
#include <ptl/function_ref.hpp>
#include <optional>
ELEM(E, ES)
#ifdef FZ   // callables with a state of that many bytes
#define STATE unsigned char state[FZ];
#else
#define STATE
#endif
struct F { F(const F &) noexcept; F(F &&) noexcept; ~F() noexcept; auto operator&() noexcept -> F *; auto operator&() const noexcept -> const F *; unsigned char raw[8]; };
template<typename T> auto amp(T && t) { return std::addressof(t); }
using R = ptl::optional_ref<E>; using C = ptl::optional_ref<const E>; using I = ptl::optional_ref<int>; using CI = ptl::optional_ref<const int>;
using VR = ptl::variant_ref<E, const F, int, const int>;
struct Vis { STATE long operator()(E &); long operator()(const F &); long operator()(int &); long operator()(const int &); };
struct VE { long operator()(E &); VE(const VE &) noexcept; VE(VE &&) noexcept; }; struct VF { long operator()(const F &); VF(const VF &) noexcept; VF(VF &&) noexcept; };
struct VI { long operator()(int &); long operator()(const int &); VI(const VI &) noexcept; VI(VI &&) noexcept; };
struct WA { STATE E & operator()(E &); E & operator()(const F &); E & operator()(int &); E & operator()(const int &); };
struct WE { E & operator()(E &); WE(const WE &) noexcept; WE(WE &&) noexcept; };
struct WO { E & operator()(const F &); E & operator()(int &); E & operator()(const int &); WO(const WO &) noexcept; WO(WO &&) noexcept; };
struct VV { STATE void operator()(E &); void operator()(const F &); void operator()(int &); void operator()(const int &); };
extern "C" {
// ---- optional_ref
u64 r_sizeof() { return sizeof(R); }
void r_ctor(R * r) { new(r) R; }
void r_null(R * r) { new(r) R{std::nullopt}; }
void r_val(R * r, E * e) { new(r) R{*e}; }
void c_val(C * r, const E * e) { new(r) C{*e}; }
void r_opt(R * r, ptl::optional<E> * o) { new(r) R{*o}; }
void c_opt(C * r, ptl::optional<E> * o) { new(r) C{*o}; }
void c_copt(C * r, const ptl::optional<E> * o) { new(r) C{*o}; }
void r_ptr(R * r, E ** p) { new(r) R{*p}; }
void c_ptr(C * r, E * const * p) { new(r) C{*p}; }
void r_ref(C * r, R * o) { new(r) C{*o}; }
void r_copy(R * r, const R * o) { new(r) R{*o}; }
void r_move(R * r, R * o) { new(r) R{std::move(*o)}; }
R * r_asg(R * r, const R * o) { return amp(*r = *o); }
R * r_asg_m(R * r, R * o) { return amp(*r = std::move(*o)); }
R * r_asg_val(R * r, E * e) { return amp(*r = *e); }
R * r_asg_null(R * r) { return amp(*r = std::nullopt); }
E * r_arrow(const R * r) { return r->operator->(); }
E * r_deref(const R * r) { return amp(**r); }
bool r_bool(const R * r) { return static_cast<bool>(*r); }
bool r_has(const R * r) { return r->has_value(); }
E * r_value(const R * r) { return amp(r->value()); }
void r_value_or(E * out, const R * r, const E * d) { new(out) E(r->value_or(*d)); }
void r_value_or_m(E * out, const R * r, E * d) { new(out) E(r->value_or(std::move(*d))); }
int i_value_or(const I * r, long d) { return r->value_or(d); }
int * i_value(const I * r) { return &r->value(); }
void i_val(I * r, int * e) { new(r) I{*e}; }
void ci_val(CI * r, const int * e) { new(r) CI{*e}; }
void i_opt(I * r, std::optional<int> * o) { new(r) I{*o}; }
void i_popt(I * r, ptl::optional<int> * o) { new(r) I{*o}; }
void ci_copt(CI * r, const std::optional<int> * o) { new(r) CI{*o}; }
void i_ptr(I * r, int ** p) { new(r) I{*p}; }
I * i_asg_val(I * r, int * e) { return &(*r = *e); }
int * i_deref(const I * r) { return &**r; }
bool i_bool(const I * r) { return static_cast<bool>(*r); }
// ---- variant_ref
u64 v_sizeof() { return sizeof(VR); }
void v_E(VR * r, E * e) { new(r) VR{*e}; }
void v_F(VR * r, F * e) { new(r) VR{*e}; }
void v_cF(VR * r, const F * e) { new(r) VR{*e}; }
void v_rF(VR * r, F * e) { new(r) VR{std::move(*e)}; }
void v_i(VR * r, int * e) { new(r) VR{*e}; }
void v_ci(VR * r, const int * e) { new(r) VR{*e}; }
void v_ri(VR * r, int * e) { new(r) VR{std::move(*e)}; }
void v_copy(VR * r, const VR * o) { new(r) VR{*o}; }
void v_move(VR * r, VR * o) { new(r) VR{std::move(*o)}; }
VR * v_asg(VR * r, const VR * o) { return amp(*r = *o); }
VR * v_asg_m(VR * r, VR * o) { return amp(*r = std::move(*o)); }
VR * v_asg_E(VR * r, E * e) { return amp(*r = *e); }
VR * v_asg_cF(VR * r, const F * e) { return amp(*r = *e); }
VR * v_asg_i(VR * r, int * e) { return amp(*r = *e); }
#define ACC(n, T) bool v_holds_##n(const VR * r) { return r->holds<T>(); } T * v_get_if_##n(const VR * r) { return r->get_if<T>(); } T * v_get_##n(const VR * r) { return amp(r->get<T>()); }
ACC(E, E) ACC(cF, const F) ACC(i, int) ACC(ci, const int)
long v_visit(const VR * r, Vis * v) { return r->visit(*v); }
long v_visit_rv(const VR * r, Vis * v) { return r->visit(std::move(*v)); }
void v_visit_void(const VR * r, VV * v) { r->visit(*v); }
E * v_visit_ref(const VR * r, WA * v) { return amp(r->visit(*v)); }
E * v_visit2_ref(const VR * r, WE * a, WO * b) { return amp(r->visit(std::move(*a), std::move(*b))); }
long v_visit3(const VR * r, VE * a, VF * b, VI * c) { return r->visit(std::move(*a), std::move(*b), std::move(*c)); }
}
// ---- function_ref
struct M { M(M &&) noexcept; ~M() noexcept; unsigned char raw[8]; };
struct Fun { STATE auto operator&() noexcept -> Fun *; auto operator&() const noexcept -> const Fun *; long operator()(long, const E &, M); E & operator()(E &); void operator()(); };
struct Fcc { STATE auto operator&() noexcept -> Fcc *; auto operator&() const noexcept -> const Fcc *; long operator()(long, const E &, M) const; E & operator()(E &) const; void operator()() const; };
struct Fbo { STATE auto operator&() noexcept -> Fbo *; auto operator&() const noexcept -> const Fbo *; long operator()(long, const E &, M); long operator()(long, const E &, M) const; E & operator()(E &); E & operator()(E &) const; void operator()(); void operator()() const; };
struct Fne { STATE auto operator&() noexcept -> Fne *; auto operator&() const noexcept -> const Fne *; long operator()(long, const E &, M) noexcept; long operator()(long, const E &, M) const noexcept; };
struct Fin { STATE int operator()(int); };
using A0 = ptl::function_ref<long(long, const E &, M)>;
using A1 = ptl::function_ref<long(long, const E &, M) const>;
using A2 = ptl::function_ref<long(long, const E &, M) noexcept>;
using A3 = ptl::function_ref<long(long, const E &, M) const noexcept>;
using B0 = ptl::function_ref<E &(E &)>;
using B1 = ptl::function_ref<E &(E &) const>;
using D0 = ptl::function_ref<void()>;
using D1 = ptl::function_ref<void() const>;
using L0 = ptl::function_ref<long(int)>;
using FA = long(long, const E &, M); using FAN = long(long, const E &, M) noexcept; using FB = E &(E &); using FD = void();
extern "C" {
u64 f_sizeof() { return sizeof(A0); }
#define BIND(n, A, F) void f_bind_##n(A * r, F * f) { new(r) A{*f}; }
BIND(A0_Fun, A0, Fun) BIND(A0_Fcc, A0, Fcc) BIND(A0_cFcc, A0, const Fcc) BIND(A0_Fbo, A0, Fbo) BIND(A0_cFbo, A0, const Fbo)
BIND(A1_Fcc, A1, Fcc) BIND(A1_cFcc, A1, const Fcc) BIND(A1_Fbo, A1, Fbo) BIND(A1_cFbo, A1, const Fbo)
BIND(A2_Fne, A2, Fne) BIND(A2_cFne, A2, const Fne) BIND(A3_Fne, A3, Fne) BIND(A3_cFne, A3, const Fne)
BIND(B0_Fun, B0, Fun) BIND(B0_cFbo, B0, const Fbo) BIND(B1_Fbo, B1, Fbo) BIND(D0_Fun, D0, Fun) BIND(D0_Fbo, D0, Fbo) BIND(D1_Fbo, D1, Fbo) BIND(L0_Fin, L0, Fin)
void f_bind_A0_rv(A0 * r, Fun * f) { new(r) A0{std::move(*f)}; }
#define BINDF(n, A, F) void f_bind_##n(A * r, F * f) { new(r) A{f}; }
BINDF(A0_fn, A0, FA) BINDF(A0_fnn, A0, FAN) BINDF(A1_fn, A1, FA) BINDF(A2_fnn, A2, FAN) BINDF(A3_fnn, A3, FAN) BINDF(B0_fn, B0, FB) BINDF(B1_fn, B1, FB) BINDF(D0_fn, D0, FD) BINDF(D1_fn, D1, FD)
#define CALLA(A) long f_call_##A(const A * r, long a, const E * e, M * m) { return (*r)(a, *e, std::move(*m)); } \
void f_copy_##A(A * r, const A * o) { new(r) A{*o}; } A * f_asg_##A(A * r, const A * o) { return amp(*r = *o); }
CALLA(A0) CALLA(A1) CALLA(A2) CALLA(A3)
E * f_call_B0(const B0 * r, E * e) { return amp((*r)(*e)); }
E * f_call_B1(const B1 * r, E * e) { return amp((*r)(*e)); }
void f_call_D0(const D0 * r) { (*r)(); }
void f_call_D1(const D1 * r) { (*r)(); }
long f_call_L0(const L0 * r, int i) { return (*r)(i); }
A0 * f_asg_A0_Fbo(A0 * r, Fbo * f) { return amp(*r = A0{*f}); }
A0 * f_asg_A0_fn(A0 * r, FA * f) { return amp(*r = f); }
// binding followed by a call: the trampoline chosen at binding time must reach the target
#define RUN(n, A, F) long f_run_##n(F * f, long a, const E * e, M * m) { const A r{*f}; return r(a, *e, std::move(*m)); }
#define RUNC(n, A, F) long f_runc_##n(F * f, F * g, long a, const E * e, M * m) { A r{*f}; A s{*g}; s = r; const A t{s}; return t(a, *e, std::move(*m)); }
#define BOTH(n, A, F) RUN(n, A, F) RUNC(n, A, F)
BOTH(A0_Fun, A0, Fun) BOTH(A0_Fcc, A0, Fcc) BOTH(A0_cFcc, A0, const Fcc) BOTH(A0_Fbo, A0, Fbo) BOTH(A0_cFbo, A0, const Fbo)
BOTH(A1_Fcc, A1, Fcc) BOTH(A1_cFcc, A1, const Fcc) BOTH(A1_Fbo, A1, Fbo) BOTH(A1_cFbo, A1, const Fbo)
BOTH(A2_Fne, A2, Fne) BOTH(A2_cFne, A2, const Fne) BOTH(A3_Fne, A3, Fne) BOTH(A3_cFne, A3, const Fne)
#define RUNF(n, A, F) long f_run_##n(F * f, long a, const E * e, M * m) { const A r{f}; return r(a, *e, std::move(*m)); } \
long f_runc_##n(F * f, F * g, long a, const E * e, M * m) { A r{f}; A s{g}; s = r; const A t{s}; return t(a, *e, std::move(*m)); }
RUNF(A0_fn, A0, FA) RUNF(A0_fnn, A0, FAN) RUNF(A1_fn, A1, FA) RUNF(A2_fnn, A2, FAN) RUNF(A3_fnn, A3, FAN)
long f_run_A0_rv(Fun * f, long a, const E * e, M * m) { return A0{std::move(*f)}(a, *e, std::move(*m)); }
E * f_run_B0_Fun(Fun * f, E * e) { return amp(B0{*f}(*e)); }
E * f_run_B0_cFbo(const Fbo * f, E * e) { return amp(B0{*f}(*e)); }
E * f_run_B1_Fbo(Fbo * f, E * e) { return amp(B1{*f}(*e)); }
E * f_run_B0_fn(FB * f, E * e) { return amp(B0{f}(*e)); }
void f_run_D0_Fun(Fun * f) { D0{*f}(); }
void f_run_D0_Fbo(Fbo * f) { D0{*f}(); }
void f_run_D1_Fbo(Fbo * f) { D1{*f}(); }
void f_run_D0_fn(FD * f) { D0{f}(); }
long f_run_L0_Fin(Fin * f, int i) { return L0{*f}(i); }
}
