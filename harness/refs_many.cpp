// variant_ref with more alternatives than a byte can count
#include "elem.hpp"
#include <ptl/variant_ref.hpp>
#define MANY 260
template<typename> struct many; template<std::size_t... I> struct many<std::index_sequence<I...>> { using type = ptl::variant_ref<char[I + 1]...>; };
using W = many<std::make_index_sequence<MANY>>::type;
#define T(i) char[i + 1]
struct Size { template<std::size_t N> long operator()(char (& a)[N]) { return N + 1000 * (a[0] & 1); } };
extern "C" {
#if PART == 1
bool m_holds(const W * o) { return o->holds<T(259)>(); }
void * m_get_if(const W * o) { return o->get_if<T(259)>(); }
void * m_get(const W * o) { return std::addressof(o->get<T(259)>()); }
void m_bind(W * o, void * x) { new(o) W{*static_cast<char(*)[260]>(x)}; }
bool m_holds_low(const W * o) { return o->holds<T(3)>(); }
void * m_get_if_low(const W * o) { return o->get_if<T(3)>(); }
#else
void m_copy(W * o, const W * x) { new(o) W{*x}; }
W * m_asg(W * o, const W * x) { return std::addressof(*o = *x); }
long m_visit(const W * o, Size * v) { return o->visit(*v); }
#endif
}
