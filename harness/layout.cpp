#include "elem.hpp"
#include <string_view>
#include <ostream>
#include <stdexcept>
#include <ptl/vector.hpp>
#include <ptl/string.hpp>
#include <ptl/bitset.hpp>
#include <ptl/optional.hpp>
#include <ptl/variant.hpp>
#include <ptl/tuple.hpp>
#include <ptl/array.hpp>
#include <ptl/optional_ref.hpp>
#include <ptl/variant_ref.hpp>
#include <ptl/array_ref.hpp>
#include <ptl/string_ref.hpp>
#include <ptl/function_ref.hpp>
ELEM(E, ES) ELEM(E1, 1) ELEM(E3, 3) ELEM(E24, 24)
using V = ptl::vector<E>; using S = ptl::string;
#define SIZE(N, ...) u64 z_##N() { return sizeof(__VA_ARGS__); }
extern "C" {
SIZE(v_char, ptl::vector<char>) SIZE(v_double, ptl::vector<double>) SIZE(v_E1, ptl::vector<E1>) SIZE(v_E, ptl::vector<E>) SIZE(v_E24, ptl::vector<E24>) SIZE(v_v, ptl::vector<ptl::vector<int>>)
SIZE(s, ptl::string)
SIZE(b0, ptl::bitset<0>) SIZE(b1, ptl::bitset<1>) SIZE(b8, ptl::bitset<8>) SIZE(b9, ptl::bitset<9>) SIZE(b64, ptl::bitset<64>) SIZE(b65, ptl::bitset<65>) SIZE(b1000, ptl::bitset<1000>)
SIZE(o_char, ptl::optional<char>) SIZE(o_int, ptl::optional<int>) SIZE(o_double, ptl::optional<double>) SIZE(o_E3, ptl::optional<E3>) SIZE(o_E24, ptl::optional<E24>) SIZE(o_s, ptl::optional<ptl::string>)
SIZE(w_char, ptl::variant<char>) SIZE(w_int_char, ptl::variant<int, char>) SIZE(w_char_double, ptl::variant<char, double>) SIZE(w_E, ptl::variant<E1, E24, E3>) SIZE(w_s, ptl::variant<int, ptl::string>)
SIZE(t_char_double_char, ptl::tuple<char, double, char>) SIZE(t_E, ptl::tuple<E1, E24, E3>) SIZE(t_int, ptl::tuple<int>)
SIZE(a_char3, ptl::array<char, 3>) SIZE(a_double5, ptl::array<double, 5>) SIZE(a_E3, ptl::array<E3, 7>)
SIZE(or_char, ptl::optional_ref<char>) SIZE(or_E, ptl::optional_ref<const E24>) SIZE(wr, ptl::variant_ref<char, E24, const int>) SIZE(wr1, ptl::variant_ref<char>)
SIZE(ar_char, ptl::array_ref<char>) SIZE(ar_E, ptl::array_ref<const E24>) SIZE(sr, ptl::string_ref) SIZE(fr, ptl::function_ref<void()>) SIZE(frc, ptl::function_ref<E &(E &, long, int) const noexcept>)
void v_ctor(V * o) { new(o) V; }
void v_ctor_range(V * o, const E * f, const E * l) { new(o) V(f, l); }
void v_ctor_move(V * o, V * v) { new(o) V(std::move(*v)); }
void v_reserve(V * v, u64 n) { v->reserve(n); }
void v_push(V * v, const E * x) { v->push_back(*x); }
u64 v_size(const V * v) { return v->size(); }
u64 v_capacity(const V * v) { return v->capacity(); }
const E * v_data(const V * v) { return v->data(); }
void v_dtor(V * v) { v->~V(); }
void s_ctor(S * o) { new(o) S; }
void s_ctor_range(S * o, const char * f, const char * l) { new(o) S(f, l); }
void s_ctor_move(S * o, S * v) { new(o) S(std::move(*v)); }
void s_reserve(S * v, u64 n) { v->reserve(n); }
void s_push(S * v, char c) { v->push_back(c); }
void s_pop(S * v) { v->pop_back(); }
u64 s_size(const S * v) { return v->size(); }
u64 s_capacity(const S * v) { return v->capacity(); }
const char * s_data(const S * v) { return v->data(); }
void s_dtor(S * v) { v->~S(); }
void b_set(ptl::bitset<19> * b, u64 i) { b->set(i); }
void b_ctor(ptl::bitset<19> * b, u64 v) { new(b) ptl::bitset<19>(v); }
bool b_test(const ptl::bitset<19> * b, u64 i) { return b->test(i); }
void b0_ctor(ptl::bitset<0> * b) { new(b) ptl::bitset<0>; }
}
