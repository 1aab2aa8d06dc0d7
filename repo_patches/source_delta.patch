From 6e69c83e65d56ed1721dcbdc120301f958085147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:06 +0000
Subject: [PATCH 01/15] fix: bitset::reference::operator bool recursed
 infinitely

self is a non-const bitset, so self[index] yields another reference whose
conversion to bool calls the same operator again.
---
 inc/ptl/bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/bitset.hpp b/inc/ptl/bitset.hpp
index 62c9a0e..aa20657 100644
--- a/inc/ptl/bitset.hpp
+++ b/inc/ptl/bitset.hpp
@@ -95,7 +95,7 @@ namespace ptl {
 			}
 
 			constexpr
-			operator bool() const noexcept { return self[index]; }
+			operator bool() const noexcept { return static_cast<const bitset &>(self)[index]; }
 			constexpr
 			auto operator~() const noexcept -> bool { return !static_cast<bool>(*this); }
 
-- 
2.43.0


From 9cb400bc7d62272c7984aa3faff4871cea38c45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:06 +0000
Subject: [PATCH 02/15] fix: bitset::reference::swap ignored equal indices of
 different bitsets

swap(a[3], b[3]) returned without exchanging the bits.
---
 inc/ptl/bitset.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/inc/ptl/bitset.hpp b/inc/ptl/bitset.hpp
index aa20657..d942e69 100644
--- a/inc/ptl/bitset.hpp
+++ b/inc/ptl/bitset.hpp
@@ -107,7 +107,6 @@ namespace ptl {
 
 			constexpr
 			void swap(reference & other) noexcept {
-				if(index == other.index) return;
 				const auto lhs{static_cast<bool>(*this)};
 				const auto rhs{static_cast<bool>(other)};
 				if(lhs == rhs) return;
-- 
2.43.0


From 49c886e42d81cb0e6263c2bee75b9784d05c58b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:06 +0000
Subject: [PATCH 03/15] fix: bitset extraction failed at end of input after
 extracting digits

is.get() at end of input sets failbit although digits were extracted, and
is.unget() cannot restore a stream that is at its end.
---
 inc/ptl/bitset.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/ptl/bitset.hpp b/inc/ptl/bitset.hpp
index d942e69..8e633ac 100644
--- a/inc/ptl/bitset.hpp
+++ b/inc/ptl/bitset.hpp
@@ -339,7 +339,8 @@ namespace ptl {
 			if(const std::istream::sentry s{is}; s) {
 				auto extracted{false};
 				for(size_type i{0}; i < Size; ++i) {
-					if(const auto c{is.get()}; c == '0' || c == '1') {
+					if(const auto c{is.peek()}; c == '0' || c == '1') {
+						is.get();
 						if(!extracted) {
 							extracted = true;
 							self.reset();
@@ -347,7 +348,6 @@ namespace ptl {
 						self <<= 1;
 						if(c == '1') self.set(0);
 					} else {
-						is.unget();
 						if(!extracted) is.setstate(std::ios::failbit);
 						break;
 					}
-- 
2.43.0


From 15e5430be8fcda43963704ef56c7e5cd41ffc8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:06 +0000
Subject: [PATCH 04/15] fix: vector::erase of an empty range self-moved all
 following elements

Move assigning an element to itself leaves it in an unspecified state, e.g.
empties a std::string.
---
 inc/ptl/vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index 022cba1..6f7f457 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -340,6 +340,7 @@ namespace ptl {
 		auto erase(const_iterator pos) noexcept -> iterator { return erase(pos, pos + 1); } //TODO: [C++??] precondition(pos != end());
 		auto erase(const_iterator first, const_iterator last) noexcept -> iterator { //TODO: [C++??] precondition(begin() <= first && first <= last && last <= end());
 			const auto count{static_cast<size_type>(std::distance(first, last))};
+			if(count == 0) return first;
 			std::move(const_cast<Type *>(last.ptr), data() + size(), const_cast<Type *>(first.ptr));
 			std::destroy(data() + size() - count, data() + size());
 			storage.set_size(size() - count);
-- 
2.43.0


From a040cb8a653a4f6131cbcbd4176d30abed2843ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:01 +0000
Subject: [PATCH 05/15] fix: vector::insert/assign corrupted memory for counts
 close to SIZE_MAX

size() + count wrapped around, so the in-place path was taken.
---
 inc/ptl/vector.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index 6f7f457..16a89ed 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -188,7 +188,7 @@ namespace ptl {
 
 		template<typename Func>
 		void assign_impl(std::size_t required_size, Func func) {
-			if(size() + required_size <= capacity()) { //no need for allocation nor double buffering
+			if(required_size <= capacity() - size()) { //no need for allocation nor double buffering
 				func(data() + size());
 				std::rotate(data(), data() + size(), data() + size() + required_size);
 				std::destroy_n(data() + required_size, size());
@@ -204,11 +204,12 @@ namespace ptl {
 		template<typename Func>
 		auto insert_impl(contiguous_iterator<true> pos, std::size_t required_size, Func func) {
 			const auto offset{pos.ptr - data()};
-			if(size() + required_size <= capacity()) { //no need for allocation nor double buffering
+			if(required_size <= capacity() - size()) { //no need for allocation nor double buffering
 				func(data() + size());
 				std::rotate(const_cast<Type *>(pos.ptr), data() + size(), data() + size() + required_size);
 				storage.set_size(size() + required_size);
 			} else { //do single allocation
+				if(required_size > max_size() - size()) throw std::length_error{"ptl::vector - insertion attempting to exceed max_size"};
 				storage_t tmp{size() + std::max(size(), required_size)}; //TODO: evaluate performance of growth influenced by max(size, required_size)
 				func(tmp.data() + offset);
 				std::uninitialized_move_n(data(), offset, tmp.data());
-- 
2.43.0


From e854f8f246d6da3a3672cbbfa9c775a8862c6d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:01 +0000
Subject: [PATCH 06/15] fix: string(count, ch) corrupted memory for counts
 close to SIZE_MAX

The rounded up capacity wrapped around, so too little memory was allocated.
---
 inc/ptl/string.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inc/ptl/string.hpp b/inc/ptl/string.hpp
index 317ff17..453a78a 100644
--- a/inc/ptl/string.hpp
+++ b/inc/ptl/string.hpp
@@ -54,6 +54,7 @@ namespace ptl {
 
 			storage_t(std::size_t required) {
 				if(required > sso_size) {
+					if(required > max_size()) throw std::length_error{"ptl::string - exceeding max_size"};
 					dealloc = +[](char * ptr) noexcept { delete[] ptr; }; 
 					heap.siz = 0;
 					//minimum heap allocation: 2xSSO to prevent multiple allocations on push_back/etc. after initially exceeding SSO
-- 
2.43.0


From 5b194dfd4cdf9e97777bfcd0ca10c980920197be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:01 +0000
Subject: [PATCH 07/15] fix: string append/insert/replace(count, ch) corrupted
 memory for counts close to SIZE_MAX

size() + count wrapped around, so the string was shrunk and then filled beyond its end.
---
 inc/ptl/string.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/inc/ptl/string.hpp b/inc/ptl/string.hpp
index 453a78a..e4e5d5f 100644
--- a/inc/ptl/string.hpp
+++ b/inc/ptl/string.hpp
@@ -248,6 +248,7 @@ namespace ptl {
 		template<typename Func>
 		void append_no_aliasing(std::size_t additional_size, Func fill) {
 			const auto old{size()};
+			if(additional_size > max_size() - old) throw std::length_error{"ptl::string::append - exceeding max_size"};
 			resize(old + additional_size);
 			fill(old);
 		}
@@ -262,6 +263,7 @@ namespace ptl {
 		auto insert_no_aliasing(contiguous_iterator<true> pos, std::size_t additional_size, Func fill) {
 			const auto old{size()};
 			const auto offset{pos.ptr - data()};
+			if(additional_size > max_size() - old) throw std::length_error{"ptl::string::insert - exceeding max_size"};
 			resize(old + additional_size);
 			std::copy_backward(data() + offset, data() + old, data() + size());
 			fill();
@@ -273,6 +275,7 @@ namespace ptl {
 			const auto offset{first.ptr - data()};
 			if(const auto count{static_cast<std::size_t>(last - first)}; count < required_size) { //not enough space in target location
 				const auto old{size()};
+				if(required_size - count > max_size() - old) throw std::length_error{"ptl::string::replace - exceeding max_size"};
 				resize(size() + (required_size - count));
 				std::copy_backward(data() + offset + count, data() + old, data() + size());
 				fill(offset);
-- 
2.43.0


From dc872e182bf63ad778f7390afa2d86f88ef1b29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:01 +0000
Subject: [PATCH 08/15] fix: string literal operators truncated literals with
 embedded NULs

---
 inc/ptl/string.hpp     | 2 +-
 inc/ptl/string_ref.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/ptl/string.hpp b/inc/ptl/string.hpp
index e4e5d5f..8d18fbf 100644
--- a/inc/ptl/string.hpp
+++ b/inc/ptl/string.hpp
@@ -624,7 +624,7 @@ namespace ptl {
 
 	namespace literals {
 		inline
-		auto operator""_s(const char * ptr, std::size_t) noexcept -> string { return string{ptr}; }
+		auto operator""_s(const char * ptr, std::size_t size) noexcept -> string { return string{std::string_view{ptr, size}}; }
 	}
 }
 
diff --git a/inc/ptl/string_ref.hpp b/inc/ptl/string_ref.hpp
index 1fad606..ab92bb5 100644
--- a/inc/ptl/string_ref.hpp
+++ b/inc/ptl/string_ref.hpp
@@ -225,7 +225,7 @@ namespace ptl {
 	namespace literals {
 		inline
 		constexpr
-		auto operator""_sr(const char * ptr, std::size_t) noexcept -> string_ref { return ptr; }
+		auto operator""_sr(const char * ptr, std::size_t size) noexcept -> string_ref { return {ptr, size}; }
 	}
 }
 
-- 
2.43.0


From 5ef2af75a8a508cd3b5f3668e0889e79117b5366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:01 +0000
Subject: [PATCH 09/15] fix: operator""_s terminated when the allocation failed

Literals exceeding the small buffer allocate, so the operator must not be noexcept.
---
 inc/ptl/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/string.hpp b/inc/ptl/string.hpp
index 8d18fbf..1bcd708 100644
--- a/inc/ptl/string.hpp
+++ b/inc/ptl/string.hpp
@@ -624,7 +624,7 @@ namespace ptl {
 
 	namespace literals {
 		inline
-		auto operator""_s(const char * ptr, std::size_t size) noexcept -> string { return string{std::string_view{ptr, size}}; }
+		auto operator""_s(const char * ptr, std::size_t size) -> string { return string{std::string_view{ptr, size}}; }
 	}
 }
 
-- 
2.43.0


From 120dd02068243e8193c117ae8e7b299bac9faa68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:01 +0000
Subject: [PATCH 10/15] fix: vector::resize reallocated and dropped reserved
 capacity

Growing within the capacity acquired a new, possibly smaller buffer, which
invalidated references and undid reserve().
---
 inc/ptl/vector.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index 16a89ed..144e7fa 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -224,7 +224,10 @@ namespace ptl {
 		void resize_impl(std::size_t new_size, Func func) {
 			if(new_size == size()) return;
 			if(new_size < size()) erase(begin() + new_size, end());
-			else {
+			else if(new_size <= capacity()) { //no need for allocation
+				func(data() + size(), new_size - size());
+				storage.set_size(new_size);
+			} else {
 				storage_t tmp{new_size};
 				func(tmp.data() + size(), new_size - size());
 				std::uninitialized_move_n(data(), size(), tmp.data());
-- 
2.43.0


From bb4325d59a3846357b7a58d47225d06c8cf1960f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:01 +0000
Subject: [PATCH 11/15] fix: variant copy assignment read its source after
 destroying the old value

If the source is owned by the current alternative, it is gone by then.
---
 inc/ptl/variant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/variant.hpp b/inc/ptl/variant.hpp
index 4ca70a5..98c33ed 100644
--- a/inc/ptl/variant.hpp
+++ b/inc/ptl/variant.hpp
@@ -225,7 +225,7 @@ namespace ptl {
 				variant tmp{other};
 				internal_variant::destroy(indices_t{}, type, storage);
 				internal_variant::assign<true>(indices_t{}, tmp.type, storage, tmp.storage);
-				type = other.type;
+				type = tmp.type;
 			}
 			return *this;
 		}
-- 
2.43.0


From cdd8c3b527a794cf308a0a58c9ffc2a5f40050ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:01 +0000
Subject: [PATCH 12/15] fix: function_ref with const signature called the
 non-const overload of its target

---
 inc/ptl/function_ref.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/function_ref.hpp b/inc/ptl/function_ref.hpp
index bad1646..d9f5734 100644
--- a/inc/ptl/function_ref.hpp
+++ b/inc/ptl/function_ref.hpp
@@ -112,7 +112,7 @@ namespace ptl {
 
 		template<typename F, typename T = std::remove_reference_t<F>, typename = std::enable_if_t<!std::is_same_v<function_ref, internal_function_ref::remove_cvref_t<F>> && !std::is_member_pointer_v<T> && traits::template is_invocable_using<typename traits::template const_<T> &>>>//TODO: [C++20] replace with concepts/requires-clause
 		constexpr
-		function_ref(F && func) noexcept : storage{std::addressof(func)}, dispatch{traits::template functor<T>} {}
+		function_ref(F && func) noexcept : storage{std::addressof(static_cast<typename traits::template const_<T> &>(func))}, dispatch{traits::template functor<typename traits::template const_<T>>} {}
 
 		constexpr
 		function_ref(const function_ref &) noexcept =default;
-- 
2.43.0


From 9060db62eefeddf288a00c329e10c20822f82b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:27 +0000
Subject: [PATCH 13/15] fix: variant::emplace required every alternative to
 accept the arguments

The non-throwing path dispatched over all alternatives and therefore failed to
compile unless each of them was constructible from the given arguments.
---
 inc/ptl/variant.hpp | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/inc/ptl/variant.hpp b/inc/ptl/variant.hpp
index 98c33ed..60dc2b8 100644
--- a/inc/ptl/variant.hpp
+++ b/inc/ptl/variant.hpp
@@ -120,14 +120,6 @@ namespace ptl {
 			return visit<Move>(indices, type, storage, combined_visitor{std::forward<Visitors>(visitors)...});
 		}
 
-		template<std::size_t... Indices, typename Storage, typename... Args>
-		constexpr
-		void emplace(std::index_sequence<Indices...>, std::size_t type, Storage & storage, Args &&... args) {  //TODO: [C++??] precondition(union in storage is uninitialized);
-			using Dispatch = void(*)(Storage &, Args &&...);
-			constexpr Dispatch dispatch[]{+[](Storage & storage, Args &&... args) { storage.template set<Indices>(std::forward<Args>(args)...); }...};
-			dispatch[type](storage, std::forward<Args>(args)...);
-		}
-
 		template<bool Move, typename Storage, std::size_t... Indices>
 		constexpr
 		void assign(std::index_sequence<Indices...>, std::size_t type, Storage & lhs, std::conditional_t<Move, Storage, const Storage> & rhs) noexcept(Move) { //TODO: [C++??] precondition(lhs is uninitialized);
@@ -254,7 +246,7 @@ namespace ptl {
 			if constexpr(std::is_nothrow_constructible_v<T, Args...>) {
 				internal_variant::destroy(indices_t{}, type, storage);
 				constexpr auto index{internal_variant::determine_index<std::decay_t<T>, Head, Tail...>()};
-				internal_variant::emplace(indices_t{}, index, storage, std::forward<Args>(args)...);
+				storage.template set<index>(std::forward<Args>(args)...);
 				type = index;
 			} else {
 				variant tmp{std::in_place_type<T>, std::forward<Args>(args)...};
-- 
2.43.0


From a144bef68fb92227ea2d2f4b25f194595cd3698b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:00 +0000
Subject: [PATCH 14/15] fix: function_ref returned a dangling reference for
 signatures with a reference result

---
 inc/ptl/function_ref.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/function_ref.hpp b/inc/ptl/function_ref.hpp
index d9f5734..0eff1b3 100644
--- a/inc/ptl/function_ref.hpp
+++ b/inc/ptl/function_ref.hpp
@@ -44,7 +44,7 @@ namespace ptl {
 
 		template<typename R, typename F, typename... Args, typename = std::enable_if_t<std::is_invocable_r_v<R, F, Args...>>> //TODO: [C++20] replace with concepts/requires-clause
 		constexpr
-		auto invoke_r(F && f, Args &&... args) noexcept(std::is_nothrow_invocable_r_v<R, F, Args...>) { //TODO: [C++23] replace with std::invoke_r
+		auto invoke_r(F && f, Args &&... args) noexcept(std::is_nothrow_invocable_r_v<R, F, Args...>) -> R { //TODO: [C++23] replace with std::invoke_r
 			if constexpr(std::is_void_v<R>) std::invoke(std::forward<F>(f), std::forward<Args>(args)...);
 			else return std::invoke(std::forward<F>(f), std::forward<Args>(args)...);
 		}
-- 
2.43.0


From f3b6b389773b43ff412750e8ec9d6457fd215a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:10 +0000
Subject: [PATCH 15/15] fix: array's constructor checked the convertibility of
 its arguments in the wrong direction

---
 inc/ptl/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/array.hpp b/inc/ptl/array.hpp
index dc13c95..1210835 100644
--- a/inc/ptl/array.hpp
+++ b/inc/ptl/array.hpp
@@ -174,7 +174,7 @@ namespace ptl {
 		using reverse_iterator       = std::reverse_iterator<      iterator>;
 		using const_reverse_iterator = std::reverse_iterator<const_iterator>;
 
-		template<typename... Args, typename = std::enable_if_t<(std::is_convertible_v<Type, Args> &&...)>> //TODO: [C++20] replace with concepts/requires-clause
+		template<typename... Args, typename = std::enable_if_t<(std::is_convertible_v<Args, Type> &&...)>> //TODO: [C++20] replace with concepts/requires-clause
 		constexpr
 		array(Args &&... args) : values{std::forward<Args>(args)...} {}
 
-- 
2.43.0

