#include <utility>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <new>
#include <ostream>
#include <ptl/string.hpp>
using u64 = unsigned long; using S = ptl::string; using SV = std::string_view; using IL = std::initializer_list<char>;
// single-pass iterator
struct In {
	using iterator_category = std::input_iterator_tag; using value_type = char; using difference_type = std::ptrdiff_t; using pointer = const char *; using reference = const char &;
	const char * p;
	auto operator*() const -> const char & { return *p; }
	auto operator++() -> In & { ++p; return *this; }
	auto operator++(int) -> In { auto t{*this}; ++p; return t; }
	friend bool operator==(In a, In b) { return a.p == b.p; }
	friend bool operator!=(In a, In b) { return a.p != b.p; }
};
#define AT(i) (s->cbegin() + (i))
extern "C" {
void s_ctor(S * o) { new(o) S; }
void s_ctor_copy(S * o, const S * s) { new(o) S(*s); }
void s_ctor_move(S * o, S * s) { new(o) S(std::move(*s)); }
void s_ctor_range(S * o, const char * f, const char * l) { new(o) S(f, l); }
void s_ctor_input(S * o, const char * f, const char * l) { new(o) S(In{f}, In{l}); }
void s_ctor_sv(S * o, const char * f, u64 n) { new(o) S(SV(f, n)); }
void s_ctor_n(S * o, u64 n, char c) { new(o) S(n, c); }
void s_ctor_il(S * o, IL il) { new(o) S(il); }
void s_literal(S * o, const char * f, u64 n) { new(o) S(ptl::literals::operator""_s(f, n)); }
void s_dtor(S * s) { s->~S(); }
S * s_asg_copy(S * s, const S * t) { return &(*s = *t); }
S * s_asg_move(S * s, S * t) { return &(*s = std::move(*t)); }
S * s_asg_sv(S * s, const char * f, u64 n) { return &(*s = SV(f, n)); }
S * s_asg_il(S * s, IL il) { return &(*s = il); }
void s_assign_range(S * s, const char * f, const char * l) { s->assign(f, l); }
void s_assign_input(S * s, const char * f, const char * l) { s->assign(In{f}, In{l}); }
void s_assign_sv(S * s, const char * f, u64 n) { s->assign(SV(f, n)); }
void s_assign_il(S * s, IL il) { s->assign(il); }
void s_assign_nv(S * s, u64 n, char c) { s->assign(n, c); }
S * s_pluseq_sv(S * s, const char * f, u64 n) { return &(*s += SV(f, n)); }
S * s_pluseq_il(S * s, IL il) { return &(*s += il); }
S * s_pluseq_ch(S * s, char c) { return &(*s += c); }
S * s_pluseq_s(S * s, const S * t) { return &(*s += *t); }
void s_append_range(S * s, const char * f, const char * l) { s->append(f, l); }
void s_append_input(S * s, const char * f, const char * l) { s->append(In{f}, In{l}); }
void s_append_sv(S * s, const char * f, u64 n) { s->append(SV(f, n)); }
void s_append_il(S * s, IL il) { s->append(il); }
void s_append_nv(S * s, u64 n, char c) { s->append(n, c); }
void s_plus_sv_s(S * o, const char * f, u64 n, const S * s) { new(o) S(SV(f, n) + *s); }
void s_plus_s_sv(S * o, const S * s, const char * f, u64 n) { new(o) S(*s + SV(f, n)); }
void s_plus_c_s(S * o, char c, const S * s) { new(o) S(c + *s); }
void s_plus_s_c(S * o, const S * s, char c) { new(o) S(*s + c); }
void s_plus_s_s(S * o, const S * s, const S * t) { new(o) S(*s + *t); }
char * s_index(S * s, u64 i) { return &(*s)[i]; }
const char * s_cindex(const S * s, u64 i) { return &(*s)[i]; }
char * s_at(S * s, u64 i) { return &s->at(i); }
const char * s_cat(const S * s, u64 i) { return &s->at(i); }
char * s_front(S * s) { return &s->front(); }
const char * s_cfront(const S * s) { return &s->front(); }
char * s_back(S * s) { return &s->back(); }
const char * s_cback(const S * s) { return &s->back(); }
char * s_data(S * s) { return s->data(); }
const char * s_cdata(const S * s) { return s->data(); }
const char * s_cstr(const S * s) { return s->c_str(); }
bool s_empty(const S * s) { return s->empty(); }
u64 s_size(const S * s) { return s->size(); }
u64 s_capacity(const S * s) { return s->capacity(); }
u64 s_max_size() { return S::max_size(); }
char * s_push(S * s, char c) { return &s->push_back(c); }
void s_pop(S * s) { s->pop_back(); }
void s_reserve(S * s, u64 n) { s->reserve(n); }
void s_resize(S * s, u64 n) { s->resize(n); }
void s_resize_v(S * s, u64 n, char c) { s->resize(n, c); }
void s_shrink(S * s) { s->shrink_to_fit(); }
void s_clear(S * s) { s->clear(); }
const char * s_erase(S * s, u64 p) { return s->erase(AT(p)).operator->(); }
const char * s_erase_r(S * s, u64 p, u64 q) { return s->erase(AT(p), AT(q)).operator->(); }
const char * s_insert_range(S * s, u64 p, const char * f, const char * l) { return s->insert(AT(p), f, l).operator->(); }
const char * s_insert_input(S * s, u64 p, const char * f, const char * l) { return s->insert(AT(p), In{f}, In{l}).operator->(); }
const char * s_insert_sv(S * s, u64 p, const char * f, u64 n) { return s->insert(AT(p), SV(f, n)).operator->(); }
const char * s_insert_il(S * s, u64 p, IL il) { return s->insert(AT(p), il).operator->(); }
const char * s_insert_ch(S * s, u64 p, char c) { return s->insert(AT(p), c).operator->(); }
const char * s_insert_nv(S * s, u64 p, u64 n, char c) { return s->insert(AT(p), n, c).operator->(); }
S * s_replace_range(S * s, u64 p, u64 q, const char * f, const char * l) { return &s->replace(AT(p), AT(q), f, l); }
S * s_replace_input(S * s, u64 p, u64 q, const char * f, const char * l) { return &s->replace(AT(p), AT(q), In{f}, In{l}); }
S * s_replace_sv(S * s, u64 p, u64 q, const char * f, u64 n) { return &s->replace(AT(p), AT(q), SV(f, n)); }
S * s_replace_il(S * s, u64 p, u64 q, IL il) { return &s->replace(AT(p), AT(q), il); }
S * s_replace_nv(S * s, u64 p, u64 q, u64 n, char c) { return &s->replace(AT(p), AT(q), n, c); }
void s_substr(S * o, const S * s, u64 a) { new(o) S(s->substr(a)); }
void s_substr_n(S * o, const S * s, u64 a, u64 n) { new(o) S(s->substr(a, n)); }
void s_substr_m(S * o, S * s, u64 a) { new(o) S(std::move(*s).substr(a)); }
void s_substr_mn(S * o, S * s, u64 a, u64 n) { new(o) S(std::move(*s).substr(a, n)); }
struct view { const char * p; u64 n; };
void s_view(const S * s, view * r) { SV v = *s; r->p = v.data(); r->n = v.size(); }
void s_swap(S * a, S * b) { a->swap(*b); }
void s_fswap(S * a, S * b) { swap(*a, *b); }
#define CMP(N, OP) \
bool s_##N##_ss(const S * a, const S * b) { return *a OP *b; } \
bool s_##N##_vs(const char * f, u64 n, const S * b) { return SV(f, n) OP *b; } \
bool s_##N##_sv(const S * a, const char * f, u64 n) { return *a OP SV(f, n); }
CMP(eq, ==) CMP(ne, !=) CMP(lt, <) CMP(gt, >) CMP(le, <=) CMP(ge, >=)
u64 s_hash(const S * s) { return std::hash<S>{}(*s); }
void s_print(std::ostream * os, const S * s) { *os << *s; }
#define IT(N, X) const char * s_##N(S * s) { return X; }
#define CIT(N, X) const char * s_##N(const S * s) { return X; }
IT(begin, s->begin().operator->()) CIT(cbegin, s->begin().operator->()) CIT(cbegin2, s->cbegin().operator->())
IT(end, s->end().operator->()) CIT(cend, s->end().operator->()) CIT(cend2, s->cend().operator->())
IT(rbegin, s->rbegin().base().operator->()) CIT(crbegin, s->rbegin().base().operator->()) CIT(crbegin2, s->crbegin().base().operator->())
IT(rend, s->rend().base().operator->()) CIT(crend, s->rend().base().operator->()) CIT(crend2, s->crend().base().operator->())
}
