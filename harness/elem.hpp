// Opaque element types: every special member is external, so the verifier knows nothing about an element
// but the trusted contract of vcg/lib.py. operator& is hostile on purpose.
#pragma once
#include <cstddef>
#include <utility>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <new>
#ifndef ES
#define ES 16
#endif
using u64 = unsigned long;
#ifdef NX   // no element operation throws
#define NX_ noexcept
#else
#define NX_
#endif
#ifdef TRIVIAL
// trivially copyable and default constructible, 8 bytes; the comparisons and other constructors are the user's
#define ELEM(N, SIZE) struct N { N() = default; explicit N(long); N(long, const N &); \
	auto operator&() noexcept -> N *; auto operator&() const noexcept -> const N *; long raw; }; \
	bool operator==(const N &, const N &) noexcept; bool operator!=(const N &, const N &) noexcept; \
	bool operator< (const N &, const N &) noexcept; bool operator> (const N &, const N &) noexcept; \
	bool operator<=(const N &, const N &) noexcept; bool operator>=(const N &, const N &) noexcept;
#else
#define ELEM(N, SIZE) struct N { N() NX_; N(const N &) NX_; N(N &&) noexcept; explicit N(long) NX_; N(long, const N &) NX_; \
	auto operator=(const N &) NX_ -> N &; auto operator=(N &&) noexcept -> N &; ~N() noexcept; \
	auto operator&() noexcept -> N *; auto operator&() const noexcept -> const N *; \
	unsigned char raw[SIZE]; }; \
	bool operator==(const N &, const N &) noexcept; bool operator!=(const N &, const N &) noexcept; \
	bool operator< (const N &, const N &) noexcept; bool operator> (const N &, const N &) noexcept; \
	bool operator<=(const N &, const N &) noexcept; bool operator>=(const N &, const N &) noexcept; \
	void swap(N &, N &) noexcept;
#endif

// trivially copyable, but the comparisons are the user's: equality is not equality of the bytes
struct pair_of_longs { long raw[2]; };
#define PLAIN(N, TYPE) struct N { TYPE raw; auto operator&() noexcept -> N *; auto operator&() const noexcept -> const N *; }; \
	bool operator==(const N &, const N &) noexcept; bool operator!=(const N &, const N &) noexcept; \
	bool operator< (const N &, const N &) noexcept; bool operator> (const N &, const N &) noexcept; \
	bool operator<=(const N &, const N &) noexcept; bool operator>=(const N &, const N &) noexcept;

#ifndef PS
#define PTYPE int
#elif PS == 1
#define PTYPE signed char
#elif PS == 2
#define PTYPE short
#elif PS == 8
#define PTYPE long
#elif PS == 16
#define PTYPE pair_of_longs
#endif
