// more alternatives than a signed byte can count
#include "elem.hpp"
#include <ptl/variant.hpp>
#define MANY 131
template<unsigned N> struct Tag { int v; };
template<unsigned N> bool operator==(const Tag<N> & a, const Tag<N> & b) noexcept { return a.v == b.v; }
template<unsigned N> bool operator< (const Tag<N> & a, const Tag<N> & b) noexcept { return a.v < b.v; }
template<typename> struct many; template<std::size_t... I> struct many<std::index_sequence<I...>> { using type = ptl::variant<Tag<I>...>; };
using W = many<std::make_index_sequence<MANY>>::type;
struct Ident { template<unsigned N> int operator()(const Tag<N> & t) { return N + 1000 * (t.v & 1); } };
#define AT 130
extern "C" {
#if PART == 1
void w_copy(W * o, const W * x) { new(o) W{*x}; }
void w_from(W * o, const Tag<AT> * x) { new(o) W{*x}; }
Tag<AT> * w_emplace(W * o, const Tag<AT> * x) { return &o->emplace<AT>(*x); }
bool w_holds(const W * o) { return o->holds<Tag<AT>>(); }
Tag<AT> * w_get(W * o) { return &o->get<Tag<AT>>(); }
Tag<AT> * w_get_if(W * o) { return o->get_if<Tag<AT>>(); }
W * w_asg_m(W * o, W * x) { return &(*o = std::move(*x)); }
#else
void w_swap(W * a, W * b) { a->swap(*b); }
int w_visit(const W * o, Ident * i) { return o->visit(*i); }
bool w_eq(const W * a, const W * b) { return *a == *b; }
bool w_lt(const W * a, const W * b) { return *a < *b; }
#endif
}
