#include "elem.hpp"
#include <ptl/vector.hpp>
#ifdef SCALAR   // an arithmetic type of that many bytes with its built-in operations
#if SCALAR == 1
using E = signed char;
#elif SCALAR == 2
using E = short;
#else
using E = long;
#endif
#else
ELEM(E, ES)
#endif
// single-pass iterator
struct In {
	using iterator_category = std::input_iterator_tag; using value_type = E; using difference_type = std::ptrdiff_t; using pointer = const E *; using reference = const E &;
	const E * p;
	auto operator*() const -> const E & { return *p; }
	auto operator++() -> In & { ++p; return *this; }
	auto operator++(int) -> In { auto t{*this}; ++p; return t; }
	friend bool operator==(In a, In b) { return a.p == b.p; }
	friend bool operator!=(In a, In b) { return a.p != b.p; }
};
using V = ptl::vector<E>; using IL = std::initializer_list<E>;
using M = std::move_iterator<E *>;
extern "C" {
void v_ctor(V * o) { new(o) V; }
void v_ctor_copy(V * o, const V * s) { new(o) V(*s); }
void v_ctor_move(V * o, V * s) { new(o) V(std::move(*s)); }
void v_ctor_range(V * o, const E * f, const E * l) { new(o) V(f, l); }
void v_ctor_input(V * o, const E * f, const E * l) { new(o) V(In{f}, In{l}); }
void v_ctor_n(V * o, u64 n) { new(o) V(n); }
void v_ctor_nv(V * o, u64 n, const E * x) { new(o) V(n, *x); }
void v_ctor_il(V * o, IL il) { new(o) V(il); }
void v_dtor(V * v) { v->~V(); }
V * v_asg_copy(V * v, const V * s) { return std::addressof(*v = *s); }
V * v_asg_move(V * v, V * s) { return std::addressof(*v = std::move(*s)); }
V * v_asg_il(V * v, IL il) { return std::addressof(*v = il); }
void v_assign_range(V * v, const E * f, const E * l) { v->assign(f, l); }
void v_assign_mrange(V * v, E * f, E * l) { v->assign(M{f}, M{l}); }
void v_assign_input(V * v, const E * f, const E * l) { v->assign(In{f}, In{l}); }
void v_assign_il(V * v, IL il) { v->assign(il); }
void v_assign_nv(V * v, u64 n, const E * x) { v->assign(n, *x); }
E * v_index(V * v, u64 i) { return std::addressof((*v)[i]); }
const E * v_cindex(const V * v, u64 i) { return std::addressof((*v)[i]); }
E * v_at(V * v, u64 i) { return std::addressof(v->at(i)); }
const E * v_cat(const V * v, u64 i) { return std::addressof(v->at(i)); }
E * v_front(V * v) { return std::addressof(v->front()); }
const E * v_cfront(const V * v) { return std::addressof(v->front()); }
E * v_back(V * v) { return std::addressof(v->back()); }
const E * v_cback(const V * v) { return std::addressof(v->back()); }
E * v_data(V * v) { return v->data(); }
const E * v_cdata(const V * v) { return v->data(); }
bool v_empty(const V * v) { return v->empty(); }
u64 v_size(const V * v) { return v->size(); }
u64 v_capacity(const V * v) { return v->capacity(); }
u64 v_max_size() { return V::max_size(); }
E * v_push(V * v, const E * x) { return std::addressof(v->push_back(*x)); }
E * v_push_move(V * v, E * x) { return std::addressof(v->push_back(std::move(*x))); }
E * v_emplace_back(V * v, long x) { return std::addressof(v->emplace_back(x)); }
#ifndef SCALAR
E * v_emplace_back2(V * v, long x, const E * y) { return std::addressof(v->emplace_back(x, *y)); }
#endif
void v_pop(V * v) { v->pop_back(); }
void v_reserve(V * v, u64 n) { v->reserve(n); }
void v_resize(V * v, u64 n) { v->resize(n); }
void v_resize_v(V * v, u64 n, const E * x) { v->resize(n, *x); }
void v_shrink(V * v) { v->shrink_to_fit(); }
void v_clear(V * v) { v->clear(); }
const E * v_erase(V * v, u64 pos) { return v->erase(v->cbegin() + pos).operator->(); }
const E * v_erase_r(V * v, u64 a, u64 b) { return v->erase(v->cbegin() + a, v->cbegin() + b).operator->(); }
const E * v_insert(V * v, u64 pos, const E * x) { return v->insert(v->cbegin() + pos, *x).operator->(); }
const E * v_insert_move(V * v, u64 pos, E * x) { return v->insert(v->cbegin() + pos, std::move(*x)).operator->(); }
const E * v_insert_nv(V * v, u64 pos, u64 n, const E * x) { return v->insert(v->cbegin() + pos, n, *x).operator->(); }
const E * v_insert_range(V * v, u64 pos, const E * f, const E * l) { return v->insert(v->cbegin() + pos, f, l).operator->(); }
const E * v_insert_mrange(V * v, u64 pos, E * f, E * l) { return v->insert(v->cbegin() + pos, M{f}, M{l}).operator->(); }
const E * v_insert_input(V * v, u64 pos, const E * f, const E * l) { return v->insert(v->cbegin() + pos, In{f}, In{l}).operator->(); }
const E * v_insert_il(V * v, u64 pos, IL il) { return v->insert(v->cbegin() + pos, il).operator->(); }
const E * v_emplace(V * v, u64 pos, long x) { return v->emplace(v->cbegin() + pos, x).operator->(); }
#ifndef SCALAR
const E * v_emplace2(V * v, u64 pos, long x, const E * y) { return v->emplace(v->cbegin() + pos, x, *y).operator->(); }
#endif
void v_swap(V * a, V * b) { a->swap(*b); }
void v_fswap(V * a, V * b) { swap(*a, *b); }
bool v_eq(const V * a, const V * b) { return *a == *b; }
bool v_ne(const V * a, const V * b) { return *a != *b; }
bool v_lt(const V * a, const V * b) { return *a <  *b; }
bool v_gt(const V * a, const V * b) { return *a >  *b; }
bool v_le(const V * a, const V * b) { return *a <= *b; }
bool v_ge(const V * a, const V * b) { return *a >= *b; }
const E * v_begin(V * v) { return v->begin().operator->(); }
const E * v_cbegin(const V * v) { return v->begin().operator->(); }
const E * v_cbegin2(const V * v) { return v->cbegin().operator->(); }
const E * v_end(V * v) { return v->end().operator->(); }
const E * v_cend(const V * v) { return v->end().operator->(); }
const E * v_cend2(const V * v) { return v->cend().operator->(); }
const E * v_rbegin(V * v) { return v->rbegin().base().operator->(); }
const E * v_crbegin(const V * v) { return v->rbegin().base().operator->(); }
const E * v_crbegin2(const V * v) { return v->crbegin().base().operator->(); }
const E * v_rend(V * v) { return v->rend().base().operator->(); }
const E * v_crend(const V * v) { return v->rend().base().operator->(); }
const E * v_crend2(const V * v) { return v->crend().base().operator->(); }
}
