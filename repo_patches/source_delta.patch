From 29782a90b501e7d1d7768ab1aa74e443c4dfb133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:23 +0000
Subject: [PATCH 01/31] fix: variant2: swapping a variant2 with itself must be
 a no-op

---
 include/dice/template-library/variant2.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dice/template-library/variant2.hpp b/include/dice/template-library/variant2.hpp
index 9f672f8..7d7d921 100644
--- a/include/dice/template-library/variant2.hpp
+++ b/include/dice/template-library/variant2.hpp
@@ -716,6 +716,10 @@ namespace dice::template_library {
         }
 
         friend constexpr void swap(variant2 &lhs, variant2 &rhs) noexcept(std::is_nothrow_move_assignable_v<variant2>) {
+            if (&lhs == &rhs) [[unlikely]] {
+                return; // self-move is not allowed
+            }
+
             variant2 tmp = std::move(lhs);
             lhs = std::move(rhs);
             rhs = std::move(tmp);
-- 
2.43.0


From 6888f08e873bc9a49337c98f19a7c8db5a19cf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:23 +0000
Subject: [PATCH 02/31] fix: variant2: exception specification of the
 converting move constructors must depend on the move constructor

---
 include/dice/template-library/variant2.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/variant2.hpp b/include/dice/template-library/variant2.hpp
index 7d7d921..3c70174 100644
--- a/include/dice/template-library/variant2.hpp
+++ b/include/dice/template-library/variant2.hpp
@@ -261,7 +261,7 @@ namespace dice::template_library {
             new (&a_) T{value};
         }
 
-        constexpr variant2(T &&value) noexcept(std::is_nothrow_copy_constructible_v<T>)
+        constexpr variant2(T &&value) noexcept(std::is_nothrow_move_constructible_v<T>)
             : discriminant_{discriminant_type::First} {
             new (&a_) T{std::move(value)};
         }
@@ -271,7 +271,7 @@ namespace dice::template_library {
             new (&b_) U{value};
         }
 
-        constexpr variant2(U &&value) noexcept(std::is_nothrow_copy_constructible_v<U>)
+        constexpr variant2(U &&value) noexcept(std::is_nothrow_move_constructible_v<U>)
             : discriminant_{discriminant_type::Second} {
             new (&b_) U{std::move(value)};
         }
-- 
2.43.0


From 8528e27c9516ce3c605cf8f4249ccf391a65e7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:32 +0000
Subject: [PATCH 03/31] fix: variant2: trivial assignment requires trivial
 construction and destruction

---
 include/dice/template-library/variant2.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/dice/template-library/variant2.hpp b/include/dice/template-library/variant2.hpp
index 3c70174..8cba322 100644
--- a/include/dice/template-library/variant2.hpp
+++ b/include/dice/template-library/variant2.hpp
@@ -93,6 +93,18 @@ namespace dice::template_library {
             using type = ::dice::template_library::variant2<T, U>;
         };
 
+        // assigning a variant can replace one alternative by the other, therefore
+        // construction and destruction need to be trivial as well
+        template<typename X>
+        concept trivially_copy_assignable = std::is_trivially_copy_assignable_v<X>
+                                            && std::is_trivially_copy_constructible_v<X>
+                                            && std::is_trivially_destructible_v<X>;
+
+        template<typename X>
+        concept trivially_move_assignable = std::is_trivially_move_assignable_v<X>
+                                            && std::is_trivially_move_constructible_v<X>
+                                            && std::is_trivially_destructible_v<X>;
+
         template<typename Self, typename F>
         constexpr decltype(auto) visit_impl(Self &&self, F &&visitor) {
             using discriminant_type = typename std::remove_cvref_t<Self>::discriminant_type;
@@ -327,14 +339,14 @@ namespace dice::template_library {
         }
 
         constexpr variant2 &operator=(variant2 const &other) noexcept
-            requires (std::is_trivially_copy_assignable_v<T> && std::is_trivially_copy_assignable_v<U>)
+            requires (detail_variant2::trivially_copy_assignable<T> && detail_variant2::trivially_copy_assignable<U>)
             = default;
 
         constexpr variant2 &
         operator=(variant2 const &other) noexcept(std::is_nothrow_copy_assignable_v<T> && std::is_nothrow_destructible_v<T>
                                                   && std::is_nothrow_copy_constructible_v<T> && std::is_nothrow_copy_assignable_v<U>
                                                   && std::is_nothrow_destructible_v<U> && std::is_nothrow_copy_constructible_v<U>)
-            requires (!std::is_trivially_copy_assignable_v<T> || !std::is_trivially_copy_assignable_v<U>)
+            requires (!detail_variant2::trivially_copy_assignable<T> || !detail_variant2::trivially_copy_assignable<U>)
         {
             if (this == &other) [[unlikely]] {
                 return *this;
@@ -418,14 +430,14 @@ namespace dice::template_library {
         }
 
         constexpr variant2 &operator=(variant2 &&other) noexcept
-            requires (std::is_trivially_move_assignable_v<T> && std::is_trivially_move_assignable_v<U>)
+            requires (detail_variant2::trivially_move_assignable<T> && detail_variant2::trivially_move_assignable<U>)
             = default;
 
         constexpr variant2 &
         operator=(variant2 &&other) noexcept(std::is_nothrow_move_assignable_v<T> && std::is_nothrow_destructible_v<T>
                                              && std::is_nothrow_move_constructible_v<T> && std::is_nothrow_move_assignable_v<U>
                                              && std::is_nothrow_destructible_v<U> && std::is_nothrow_move_constructible_v<U>)
-            requires (!std::is_trivially_move_assignable_v<T> || !std::is_trivially_move_assignable_v<U>)
+            requires (!detail_variant2::trivially_move_assignable<T> || !detail_variant2::trivially_move_assignable<U>)
         {
             assert(this != &other);
 
-- 
2.43.0


From 228919e3d0237f432bcafc7a0894ea2d8dc5c4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:40 +0000
Subject: [PATCH 04/31] fix: variant2: hashing a valueless variant2 must not
 terminate

---
 include/dice/template-library/variant2.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dice/template-library/variant2.hpp b/include/dice/template-library/variant2.hpp
index 8cba322..bf7e939 100644
--- a/include/dice/template-library/variant2.hpp
+++ b/include/dice/template-library/variant2.hpp
@@ -41,6 +41,10 @@ namespace std {
     template<typename T, typename U>
     struct hash<::dice::template_library::variant2<T, U>> {
         [[nodiscard]] size_t operator()(::dice::template_library::variant2<T, U> const &var) const noexcept {
+            if (var.valueless_by_exception()) [[unlikely]] {
+                return hash<size_t>{}(variant_npos);
+            }
+
             return visit([]<typename X>(X const &x) noexcept {
                 // this is as far as I can tell what std::variant does
                 if constexpr (std::is_same_v<X, T>) {
-- 
2.43.0


From b606455f83b7261376aeb2512bb1404eedb7a99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:39 +0000
Subject: [PATCH 05/31] fix: static_string: copy all bytes of wide characters

---
 include/dice/template-library/static_string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/static_string.hpp b/include/dice/template-library/static_string.hpp
index c05fa48..c1d0c11 100644
--- a/include/dice/template-library/static_string.hpp
+++ b/include/dice/template-library/static_string.hpp
@@ -49,7 +49,7 @@ namespace dice::template_library {
 
             if (size_ != 0) {
                 data_ = std::allocator_traits<allocator_type>::allocate(alloc_, size_);
-                std::memcpy(std::to_address(data_), std::to_address(other.data_), size_);
+                std::memcpy(std::to_address(data_), std::to_address(other.data_), size_ * sizeof(value_type));
             } else {
                 data_ = nullptr;
             }
@@ -69,7 +69,7 @@ namespace dice::template_library {
             }
 
             data_ = std::allocator_traits<allocator_type>::allocate(alloc_, size_);
-            std::memcpy(std::to_address(data_), sv.data(), size_);
+            std::memcpy(std::to_address(data_), sv.data(), size_ * sizeof(value_type));
         }
 
         basic_static_string(basic_static_string const &other) : basic_static_string{static_cast<view_type>(other), other.alloc_} {
-- 
2.43.0


From 60b346d9f21ab4ee2d4f5fca13402b32be1a527d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:46 +0000
Subject: [PATCH 06/31] fix: static_string: copy assignment must release with
 the old allocator and survive a failing allocation

---
 .../dice/template-library/static_string.hpp   | 27 ++++++++++++-------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/include/dice/template-library/static_string.hpp b/include/dice/template-library/static_string.hpp
index c1d0c11..be4fd6e 100644
--- a/include/dice/template-library/static_string.hpp
+++ b/include/dice/template-library/static_string.hpp
@@ -40,18 +40,26 @@ namespace dice::template_library {
             swap(a.size_, b.size_);
         }
 
-        void copy_assign_from_other(basic_static_string const &other) {
+        void copy_assign_from_other(basic_static_string const &other, allocator_type const &new_alloc) {
+            // allocate before releasing the old contents, so that nothing changes if the allocation fails
+            allocator_type alloc{new_alloc};
+            pointer data = nullptr;
+
+            if (other.size_ != 0) {
+                data = std::allocator_traits<allocator_type>::allocate(alloc, other.size_);
+                std::memcpy(std::to_address(data), std::to_address(other.data_), other.size_ * sizeof(value_type));
+            }
+
             if (size_ != 0) {
+                // the old contents belong to the old allocator
                 std::allocator_traits<allocator_type>::deallocate(alloc_, data_, size_);
             }
 
+            data_ = data;
             size_ = other.size_;
 
-            if (size_ != 0) {
-                data_ = std::allocator_traits<allocator_type>::allocate(alloc_, size_);
-                std::memcpy(std::to_address(data_), std::to_address(other.data_), size_ * sizeof(value_type));
-            } else {
-                data_ = nullptr;
+            if constexpr (std::allocator_traits<allocator_type>::propagate_on_container_copy_assignment::value) {
+                alloc_ = std::move(alloc);
             }
         }
 
@@ -81,10 +89,11 @@ namespace dice::template_library {
             }
 
             if constexpr (std::allocator_traits<allocator_type>::propagate_on_container_copy_assignment::value) {
-                alloc_ = other.alloc_;
+                copy_assign_from_other(other, other.alloc_);
+            } else {
+                copy_assign_from_other(other, alloc_);
             }
 
-            copy_assign_from_other(other);
             return *this;
         }
 
@@ -110,7 +119,7 @@ namespace dice::template_library {
                 }
 
                 // alloc_ != other.alloc_ and not allowed to propagate, need to copy
-                copy_assign_from_other(other);
+                copy_assign_from_other(other, alloc_);
                 return *this;
             }
         }
-- 
2.43.0


From 3a9f7f1cb46bd319ff6e84545be00f7175191f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:54 +0000
Subject: [PATCH 07/31] fix: pool_allocator: reject allocation sizes that do
 not fit size_t

---
 include/dice/template-library/pool_allocator.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/dice/template-library/pool_allocator.hpp b/include/dice/template-library/pool_allocator.hpp
index 65afc3f..f0f8677 100644
--- a/include/dice/template-library/pool_allocator.hpp
+++ b/include/dice/template-library/pool_allocator.hpp
@@ -8,6 +8,7 @@
 #include <cstddef>
 #include <type_traits>
 #include <memory>
+#include <new>
 
 namespace dice::template_library {
 
@@ -176,6 +177,10 @@ namespace dice::template_library {
 		}
 
 		pointer allocate(size_t n) {
+			if (n > static_cast<size_t>(-1) / sizeof(T)) [[unlikely]] {
+				throw std::bad_array_new_length{};
+			}
+
 			return static_cast<pointer>(pool_->allocate(sizeof(T) * n));
 		}
 
-- 
2.43.0


From 97dac30a9613cc857fdf7db58e343bc2d28f4d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:54 +0000
Subject: [PATCH 08/31] fix: pool_allocator: a moved-from allocator must keep
 its pool

---
 include/dice/template-library/pool_allocator.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/dice/template-library/pool_allocator.hpp b/include/dice/template-library/pool_allocator.hpp
index f0f8677..504881d 100644
--- a/include/dice/template-library/pool_allocator.hpp
+++ b/include/dice/template-library/pool_allocator.hpp
@@ -161,10 +161,9 @@ namespace dice::template_library {
 			: pool_{std::move(underlying_pool)} {
 		}
 
+		// not movable, because a moved-from allocator must stay usable and equal to its old value
 		pool_allocator(pool_allocator const &other) noexcept = default;
-		pool_allocator(pool_allocator &&other) noexcept = default;
 		pool_allocator &operator=(pool_allocator const &other) noexcept = default;
-		pool_allocator &operator=(pool_allocator &&other) noexcept = default;
 		~pool_allocator() noexcept = default;
 
 		template<typename U>
-- 
2.43.0


From 437e3881089e944a6cd7be073e0da48cd4c38258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:54 +0000
Subject: [PATCH 09/31] fix: limit_allocator: the accounted size must not wrap
 around

---
 include/dice/template-library/limit_allocator.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dice/template-library/limit_allocator.hpp b/include/dice/template-library/limit_allocator.hpp
index e836280..d828cdb 100644
--- a/include/dice/template-library/limit_allocator.hpp
+++ b/include/dice/template-library/limit_allocator.hpp
@@ -137,6 +137,10 @@ namespace dice::template_library {
 		}
 
 		constexpr pointer allocate(size_t n) {
+			if (n > static_cast<size_t>(-1) / sizeof(T)) [[unlikely]] {
+				throw std::bad_array_new_length{};
+			}
+
 			control_block_->allocate(n * sizeof(T));
 
 			try {
-- 
2.43.0


From 20dc286860663b3e379ab85d09486cacc05a3415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:54 +0000
Subject: [PATCH 10/31] fix: limit_allocator: unsynchronized allocators must be
 rebindable

---
 include/dice/template-library/limit_allocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/limit_allocator.hpp b/include/dice/template-library/limit_allocator.hpp
index d828cdb..a1eece3 100644
--- a/include/dice/template-library/limit_allocator.hpp
+++ b/include/dice/template-library/limit_allocator.hpp
@@ -115,7 +115,7 @@ namespace dice::template_library {
 		constexpr ~limit_allocator() = default;
 
 		template<typename U>
-		constexpr limit_allocator(limit_allocator<U, Allocator> const &other) noexcept(std::is_nothrow_constructible_v<upstream_allocator_type, typename limit_allocator<U, Allocator>::upstream_allocator_type const &>)
+		constexpr limit_allocator(limit_allocator<U, Allocator, syncness> const &other) noexcept(std::is_nothrow_constructible_v<upstream_allocator_type, typename limit_allocator<U, Allocator, syncness>::upstream_allocator_type const &>)
 			: control_block_{other.control_block_},
 			  inner_{other.inner_} {
 		}
-- 
2.43.0


From f091849157d57c0217b81f5d13d63c120c01c332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:24 +0000
Subject: [PATCH 11/31] fix: limit_allocator: a moved-from allocator must keep
 its limit

---
 include/dice/template-library/limit_allocator.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/limit_allocator.hpp b/include/dice/template-library/limit_allocator.hpp
index a1eece3..0e2f929 100644
--- a/include/dice/template-library/limit_allocator.hpp
+++ b/include/dice/template-library/limit_allocator.hpp
@@ -109,9 +109,17 @@ namespace dice::template_library {
         }
 
 		constexpr limit_allocator(limit_allocator const &other) noexcept(std::is_nothrow_move_constructible_v<upstream_allocator_type>) = default;
-		constexpr limit_allocator(limit_allocator &&other) noexcept(std::is_nothrow_copy_constructible_v<upstream_allocator_type>) = default;
+		// the control block is copied, because a moved-from allocator must stay usable
+		constexpr limit_allocator(limit_allocator &&other) noexcept(std::is_nothrow_move_constructible_v<upstream_allocator_type>)
+			: control_block_{other.control_block_},
+			  inner_{std::move(other.inner_)} {
+		}
 		constexpr limit_allocator &operator=(limit_allocator const &other) noexcept(std::is_nothrow_copy_assignable_v<upstream_allocator_type>) = default;
-		constexpr limit_allocator &operator=(limit_allocator &&other) noexcept(std::is_nothrow_move_assignable_v<upstream_allocator_type>) = default;
+		constexpr limit_allocator &operator=(limit_allocator &&other) noexcept(std::is_nothrow_move_assignable_v<upstream_allocator_type>) {
+			control_block_ = other.control_block_;
+			inner_ = std::move(other.inner_);
+			return *this;
+		}
 		constexpr ~limit_allocator() = default;
 
 		template<typename U>
-- 
2.43.0


From 2c3548ae9deaeadc3f70931a86747641194e3cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:24 +0000
Subject: [PATCH 12/31] fix: pool_allocator: respect the alignment of the
 allocated type

---
 .../dice/template-library/pool_allocator.hpp  | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/pool_allocator.hpp b/include/dice/template-library/pool_allocator.hpp
index 504881d..4d4a88e 100644
--- a/include/dice/template-library/pool_allocator.hpp
+++ b/include/dice/template-library/pool_allocator.hpp
@@ -149,6 +149,14 @@ namespace dice::template_library {
 
     	std::shared_ptr<pool<bucket_sizes...>> pool_;
 
+		/**
+		 * The elements of a bucket are adjacent, so they are only aligned to the (pointer-aligned) bucket size.
+		 * If that is not enough for T the allocations are directly fulfilled via an aligned `new`.
+		 */
+		static constexpr bool pool_is_aligned = alignof(T) <= alignof(void *)
+												|| (alignof(T) <= __STDCPP_DEFAULT_NEW_ALIGNMENT__
+													&& ((bucket_sizes < sizeof(T) || bucket_sizes % alignof(T) == 0) && ...));
+
 	public:
 		/**
 		 * Creates a pool_allocator with a default constructed pool
@@ -180,11 +188,19 @@ namespace dice::template_library {
 				throw std::bad_array_new_length{};
 			}
 
-			return static_cast<pointer>(pool_->allocate(sizeof(T) * n));
+			if constexpr (!pool_is_aligned) {
+				return static_cast<pointer>(::operator new(sizeof(T) * n, std::align_val_t{alignof(T)}));
+			} else {
+				return static_cast<pointer>(pool_->allocate(sizeof(T) * n));
+			}
 		}
 
 		void deallocate(pointer ptr, size_t n) {
-			pool_->deallocate(ptr, sizeof(T) * n);
+			if constexpr (!pool_is_aligned) {
+				::operator delete(ptr, std::align_val_t{alignof(T)});
+			} else {
+				pool_->deallocate(ptr, sizeof(T) * n);
+			}
 		}
 
 		pool_allocator select_on_container_copy_construction() const {
-- 
2.43.0


From 3193b6a3e5dfe7a9e360c949a5f1c896712bc974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:24 +0000
Subject: [PATCH 13/31] fix: inplace_polymorphic: dropping a trivially
 destructible value must leave it valueless

---
 include/dice/template-library/inplace_polymorphic.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/inplace_polymorphic.hpp b/include/dice/template-library/inplace_polymorphic.hpp
index d354c6c..aad24b7 100644
--- a/include/dice/template-library/inplace_polymorphic.hpp
+++ b/include/dice/template-library/inplace_polymorphic.hpp
@@ -77,7 +77,8 @@ namespace dice::template_library {
 
 		void drop() noexcept {
 			if constexpr ((std::is_trivially_destructible_v<Ts> && ...)) {
-				// noop
+				// nothing to destroy
+				valueless_ = true;
 			} else {
 				if (!valueless_) {
 					(**this).~Base();
-- 
2.43.0


From 4796cbc938ed2335330dd506e1d765a696746e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:42 +0000
Subject: [PATCH 14/31] fix: channel: an operation that fails with an element's
 exception passes its wake-up on and loses no element

---
 include/dice/template-library/channel.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/dice/template-library/channel.hpp b/include/dice/template-library/channel.hpp
index d5b685e..d6a8324 100644
--- a/include/dice/template-library/channel.hpp
+++ b/include/dice/template-library/channel.hpp
@@ -97,7 +97,13 @@ namespace dice::template_library {
                     return false;
                 }
 
-                queue_.emplace_back(std::forward<Args>(args)...);
+                try {
+                    queue_.emplace_back(std::forward<Args>(args)...);
+                } catch (...) {
+                    // this call might have consumed a notification for space it did not use, pass it on
+                    queue_not_full_.notify_one();
+                    throw;
+                }
             }
 
             queue_not_empty_.notify_one();
@@ -185,7 +191,14 @@ namespace dice::template_library {
                 return std::nullopt;
             }
 
-            auto ret = std::move(queue_.front());
+            std::optional<value_type> ret;
+            try {
+                ret.emplace(std::move(queue_.front()));
+            } catch (...) {
+                // this call might have consumed a notification for the element it did not take, pass it on
+                queue_not_empty_.notify_one();
+                throw;
+            }
             queue_.pop_front();
 
 			lock.unlock();
@@ -203,7 +216,7 @@ namespace dice::template_library {
                 return std::nullopt;
             }
 
-            auto ret = std::move(queue_.front());
+            std::optional<value_type> ret{std::move(queue_.front())};
             queue_.pop_front();
 
             lock.unlock();
-- 
2.43.0


From dee17ef8dbfd6009307ffc42accdb9c8536da657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:43 +0000
Subject: [PATCH 15/31] fix: exchange_channel: a pop that fails with the
 element's exception passes its wake-up on and loses no element

---
 .../dice/template-library/exchange_channel.hpp    | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/exchange_channel.hpp b/include/dice/template-library/exchange_channel.hpp
index a6d75ed..8a6041a 100644
--- a/include/dice/template-library/exchange_channel.hpp
+++ b/include/dice/template-library/exchange_channel.hpp
@@ -132,7 +132,16 @@ namespace dice::template_library {
                 return std::nullopt;
             }
 
-            return *std::exchange(value_, std::nullopt);
+            std::optional<value_type> ret;
+            try {
+                ret.emplace(std::move(*value_));
+            } catch (...) {
+                // this call might have consumed a notification for the element it did not take, pass it on
+                has_value_.notify_one();
+                throw;
+            }
+            value_.reset();
+            return ret;
         }
 
         /**
@@ -145,7 +154,9 @@ namespace dice::template_library {
                 return std::nullopt;
             }
 
-            return *std::exchange(value_, std::nullopt);
+            std::optional<value_type> ret{std::move(*value_)};
+            value_.reset();
+            return ret;
         }
 
         struct iterator {
-- 
2.43.0


From 2c08c4ee4e9c589c846c40bffd7f19259508071b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:51 +0000
Subject: [PATCH 16/31] fix: mutex, shared_mutex: guards of mutexes with
 another lock type, swapping guards

---
 include/dice/template-library/mutex.hpp        | 10 +++++-----
 include/dice/template-library/shared_mutex.hpp | 18 +++++++++---------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/dice/template-library/mutex.hpp b/include/dice/template-library/mutex.hpp
index 39746f0..22c7498 100644
--- a/include/dice/template-library/mutex.hpp
+++ b/include/dice/template-library/mutex.hpp
@@ -54,7 +54,7 @@ namespace dice::template_library {
             return *value_ptr_;
         }
 
-        friend void swap(mutex_guard const &lhs, mutex_guard const &rhs) noexcept {
+        friend void swap(mutex_guard &lhs, mutex_guard &rhs) noexcept {
             using std::swap;
             swap(lhs.value_ptr_, rhs.value_ptr_);
             swap(lhs.lock_, rhs.lock_);
@@ -108,8 +108,8 @@ namespace dice::template_library {
          * @return mutex guard for the inner value
          * @throws std::system_error in case the underlying mutex implementation throws it
          */
-        [[nodiscard]] mutex_guard<value_type> lock() {
-            return mutex_guard<value_type>{std::unique_lock<mutex_type>{mutex_}, value_};
+        [[nodiscard]] mutex_guard<value_type, mutex_type> lock() {
+            return mutex_guard<value_type, mutex_type>{std::unique_lock<mutex_type>{mutex_}, value_};
         }
 
 		/**
@@ -119,13 +119,13 @@ namespace dice::template_library {
          * @return nullopt in case the mutex could not be locked, otherwise a mutex guard for the inner value
          * @throws std::system_error in case the underlying mutex implementation throws it
          */
-        [[nodiscard]] std::optional<mutex_guard<value_type>> try_lock() {
+        [[nodiscard]] std::optional<mutex_guard<value_type, mutex_type>> try_lock() {
             std::unique_lock<mutex_type> lock{mutex_, std::try_to_lock};
             if (!lock.owns_lock()) {
                 return std::nullopt;
             }
 
-            return mutex_guard<value_type>{std::move(lock), value_};
+            return mutex_guard<value_type, mutex_type>{std::move(lock), value_};
         }
     };
 
diff --git a/include/dice/template-library/shared_mutex.hpp b/include/dice/template-library/shared_mutex.hpp
index 52b43cd..1be577f 100644
--- a/include/dice/template-library/shared_mutex.hpp
+++ b/include/dice/template-library/shared_mutex.hpp
@@ -56,7 +56,7 @@ namespace dice::template_library {
             return *value_ptr_;
         }
 
-        friend void swap(shared_mutex_guard const &lhs, shared_mutex_guard const &rhs) noexcept {
+        friend void swap(shared_mutex_guard &lhs, shared_mutex_guard &rhs) noexcept {
             using std::swap;
             swap(lhs.value_ptr_, rhs.value_ptr_);
             swap(lhs.lock_, rhs.lock_);
@@ -110,8 +110,8 @@ namespace dice::template_library {
          * @return mutex guard for the inner value
          * @throws std::system_error in case the underlying mutex implementation throws it
          */
-        [[nodiscard]] shared_mutex_guard<value_type> lock() {
-            return shared_mutex_guard<value_type>{std::unique_lock<mutex_type>{mutex_}, value_};
+        [[nodiscard]] shared_mutex_guard<value_type, mutex_type> lock() {
+            return shared_mutex_guard<value_type, mutex_type>{std::unique_lock<mutex_type>{mutex_}, value_};
         }
 
 		/**
@@ -121,13 +121,13 @@ namespace dice::template_library {
          * @return nullopt in case the mutex could not be locked, otherwise a mutex guard for the inner value
          * @throws std::system_error in case the underlying mutex implementation throws it
          */
-        [[nodiscard]] std::optional<shared_mutex_guard<value_type>> try_lock() {
+        [[nodiscard]] std::optional<shared_mutex_guard<value_type, mutex_type>> try_lock() {
             std::unique_lock<mutex_type> lock{mutex_, std::try_to_lock};
             if (!lock.owns_lock()) {
                 return std::nullopt;
             }
 
-            return shared_mutex_guard<value_type>{std::move(lock), value_};
+            return shared_mutex_guard<value_type, mutex_type>{std::move(lock), value_};
         }
 
         /**
@@ -137,8 +137,8 @@ namespace dice::template_library {
          * @return mutex guard for the inner value
          * @throws std::system_error in case the underlying mutex implementation throws it
          */
-        [[nodiscard]] shared_mutex_guard<value_type const> lock_shared() const {
-            return shared_mutex_guard<value_type const>{std::shared_lock<mutex_type>{mutex_}, value_};
+        [[nodiscard]] shared_mutex_guard<value_type const, mutex_type> lock_shared() const {
+            return shared_mutex_guard<value_type const, mutex_type>{std::shared_lock<mutex_type>{mutex_}, value_};
         }
 
         /**
@@ -148,13 +148,13 @@ namespace dice::template_library {
          * @return nullopt in case the mutex could not be locked, otherwise a mutex guard for the inner value
          * @throws std::system_error in case the underlying mutex implementation throws it
          */
-        [[nodiscard]] std::optional<shared_mutex_guard<value_type const>> try_lock_shared() const {
+        [[nodiscard]] std::optional<shared_mutex_guard<value_type const, mutex_type>> try_lock_shared() const {
             std::shared_lock<mutex_type> lock{mutex_, std::try_to_lock};
             if (!lock.owns_lock()) {
                 return std::nullopt;
             }
 
-            return shared_mutex_guard<value_type const>{std::move(lock), value_};
+            return shared_mutex_guard<value_type const, mutex_type>{std::move(lock), value_};
         }
     };
 
-- 
2.43.0


From fb731c1ca7b7fa8677c3c988c9c0a4ccb784d612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:36 +0000
Subject: [PATCH 17/31] fix: pointer_tag_pair: store the converted pointer, not
 the original one

---
 include/dice/template-library/pointer_tag_pair.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dice/template-library/pointer_tag_pair.hpp b/include/dice/template-library/pointer_tag_pair.hpp
index 5bc1ab5..3b92b42 100644
--- a/include/dice/template-library/pointer_tag_pair.hpp
+++ b/include/dice/template-library/pointer_tag_pair.hpp
@@ -67,18 +67,18 @@ namespace dice::template_library {
         template<detail_pointer_tag_pair::taggable_pointer<T> P>
         requires (BitsRequested <= detail_pointer_tag_pair::taggable_bits_available<std::remove_pointer_t<P>>())
         pointer_tag_pair(P const pointer, Tag const tag) noexcept
-            : pointer_tag_pair{reinterpret_cast<uintptr_t>(pointer) | static_cast<uintptr_t>(tag)} {
-            assert((reinterpret_cast<uintptr_t>(pointer) & tag_mask) == 0);
+            : pointer_tag_pair{reinterpret_cast<uintptr_t>(static_cast<T *>(pointer)) | static_cast<uintptr_t>(tag)} {
+            assert((reinterpret_cast<uintptr_t>(static_cast<T *>(pointer)) & tag_mask) == 0);
             assert(static_cast<uintptr_t>(tag) <= tag_mask);
         }
 
         template<unsigned PromisedAlignment, detail_pointer_tag_pair::taggable_pointer<T> P>
         requires (BitsRequested <= detail_pointer_tag_pair::taggable_bits_available<std::remove_pointer_t<P>, PromisedAlignment>())
         [[nodiscard]] static pointer_tag_pair from_overaligned(P const pointer, Tag const tag) noexcept {
-            assert((reinterpret_cast<uintptr_t>(pointer) & tag_mask) == 0);
+            assert((reinterpret_cast<uintptr_t>(static_cast<T *>(pointer)) & tag_mask) == 0);
             assert(static_cast<uintptr_t>(tag) <= tag_mask);
 
-            return pointer_tag_pair{reinterpret_cast<uintptr_t>(pointer) | static_cast<uintptr_t>(tag)};
+            return pointer_tag_pair{reinterpret_cast<uintptr_t>(static_cast<T *>(pointer)) | static_cast<uintptr_t>(tag)};
         }
 
         [[nodiscard]] static pointer_tag_pair from_tagged(tagged_pointer_type const pointer) noexcept {
-- 
2.43.0


From 78467e911a741e038de375b81b2ff5241ee2a4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:06 +0000
Subject: [PATCH 18/31] fix: switch_cases: instantiate only cases in the range,
 with the type of the condition

---
 include/dice/template-library/switch_cases.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dice/template-library/switch_cases.hpp b/include/dice/template-library/switch_cases.hpp
index dbea69e..d230574 100644
--- a/include/dice/template-library/switch_cases.hpp
+++ b/include/dice/template-library/switch_cases.hpp
@@ -14,7 +14,7 @@ namespace dice::template_library {
 		constexpr decltype(auto) execute_case(decltype(i) value, F &&cases_function) {
 			if constexpr (i < ((max == min) ? max : max - 1)) {
 				if (value != i) {
-					return execute_case<i + 1, max, min>(value, std::forward<F>(cases_function));
+					return execute_case<static_cast<decltype(i)>(i + 1), max, min>(value, std::forward<F>(cases_function));
 				}
 			}
 
@@ -84,7 +84,7 @@ namespace dice::template_library {
 	 */
 	template<std::integral auto first, decltype(first) last, typename F>
 	constexpr decltype(auto) switch_cases(decltype(first) condition, F &&cases_function) {
-		return switch_cases<first, last>(condition, std::forward<F>(cases_function), detail_switch_cases::unreachable<F, first>);
+		return switch_cases<first, last>(condition, std::forward<F>(cases_function), detail_switch_cases::unreachable<F, std::min(first, last)>);
 	}
 
 	/**
@@ -121,7 +121,7 @@ namespace dice::template_library {
 	 */
 	template<std::integral auto last, typename F>
 	constexpr decltype(auto) switch_cases(decltype(last) condition, F &&cases_function) {
-		return switch_cases<decltype(last){}, last>(condition, std::forward<F>(cases_function), detail_switch_cases::unreachable<F, last>);
+		return switch_cases<decltype(last){}, last>(condition, std::forward<F>(cases_function), detail_switch_cases::unreachable<F, std::min(decltype(last){}, last)>);
 	}
 
 	/**
-- 
2.43.0


From 9ada9616306b3136e2c0d2d6050fcb7e3efb798a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:06 +0000
Subject: [PATCH 19/31] fix: for_range: call the function with values of the
 type of the range

---
 include/dice/template-library/for.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/for.hpp b/include/dice/template-library/for.hpp
index 4abfdd8..d3ff6ee 100644
--- a/include/dice/template-library/for.hpp
+++ b/include/dice/template-library/for.hpp
@@ -41,13 +41,13 @@ namespace dice::template_library {
 	constexpr void for_range(F &&f) {
 		if constexpr (first < last) {
 			auto const impl = [&f]<auto... xs>(std::integer_sequence<decltype(first), xs...>) {
-				for_values<(first + xs)...>(std::forward<F>(f));
+				for_values<static_cast<decltype(first)>(first + xs)...>(std::forward<F>(f));
 			};
 
 			impl(std::make_integer_sequence<decltype(first), last - first>{});
 		} else {
 			auto const impl = [&f]<auto... xs>(std::integer_sequence<decltype(first), xs...>) {
-				for_values<(first - xs)...>(std::forward<F>(f));
+				for_values<static_cast<decltype(first)>(first - xs)...>(std::forward<F>(f));
 			};
 
 			impl(std::make_integer_sequence<decltype(first), first - last>{});
-- 
2.43.0


From ea2c46621d6256ddea7f1bdd6e088540ef822e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:06 +0000
Subject: [PATCH 20/31] fix: tuple_fold, tuple_type_fold: return the
 accumulator by value

---
 include/dice/template-library/tuple_algorithm.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/tuple_algorithm.hpp b/include/dice/template-library/tuple_algorithm.hpp
index 2c01327..79bcdaf 100644
--- a/include/dice/template-library/tuple_algorithm.hpp
+++ b/include/dice/template-library/tuple_algorithm.hpp
@@ -63,7 +63,7 @@ namespace dice::template_library {
 	 * @return the final value of the accumulator
 	 */
 	template<typename Tuple, typename Acc, typename FoldF>
-	constexpr Acc tuple_fold(Tuple const &tuple, Acc &&init, FoldF &&f) noexcept {
+	constexpr std::decay_t<Acc> tuple_fold(Tuple const &tuple, Acc &&init, FoldF &&f) noexcept {
 		return tuple_algo_detail::tuple_fold_impl(std::make_index_sequence<std::tuple_size_v<std::remove_cvref_t<Tuple>>>{}, tuple, std::forward<Acc>(init), std::forward<FoldF>(f));
 	}
 
@@ -77,7 +77,7 @@ namespace dice::template_library {
 	 * @return the final value of the accumulator
 	 */
 	template<typename Tuple, typename Acc, typename FoldF>
-	constexpr Acc tuple_type_fold(Acc &&init, FoldF &&f) noexcept {
+	constexpr std::decay_t<Acc> tuple_type_fold(Acc &&init, FoldF &&f) noexcept {
 		return tuple_algo_detail::tuple_type_fold_impl<Tuple>(std::make_index_sequence<std::tuple_size_v<Tuple>>{}, std::forward<Acc>(init), std::forward<FoldF>(f));
 	}
 
-- 
2.43.0


From fb6eb038c284cca5fe6f28c8d98e66c27017412b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:06 +0000
Subject: [PATCH 21/31] fix: integral_template_variant: copying may throw if
 copying an alternative may

---
 include/dice/template-library/integral_template_variant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/integral_template_variant.hpp b/include/dice/template-library/integral_template_variant.hpp
index fdbe8ee..ae7fe98 100644
--- a/include/dice/template-library/integral_template_variant.hpp
+++ b/include/dice/template-library/integral_template_variant.hpp
@@ -62,7 +62,7 @@ namespace dice::template_library {
 
 	public:
 		constexpr integral_template_variant() noexcept(std::is_nothrow_default_constructible_v<underlying_type>) = default;
-		constexpr integral_template_variant(integral_template_variant const &other) noexcept(std::is_copy_constructible_v<underlying_type>) = default;
+		constexpr integral_template_variant(integral_template_variant const &other) noexcept(std::is_nothrow_copy_constructible_v<underlying_type>) = default;
 		constexpr integral_template_variant(integral_template_variant &&other) noexcept(std::is_nothrow_move_constructible_v<underlying_type>) = default;
 		constexpr integral_template_variant &operator=(integral_template_variant const &other) noexcept(std::is_nothrow_copy_assignable_v<underlying_type>) = default;
 		constexpr integral_template_variant &operator=(integral_template_variant &&other) noexcept(std::is_nothrow_move_assignable_v<underlying_type>) = default;
-- 
2.43.0


From 69fe6aa657bae49950a811defe062695b22a96f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:50 +0000
Subject: [PATCH 22/31] fix: range: do not step past the limits of the integer
 type

---
 include/dice/template-library/ranges.hpp | 59 ++++++++++++++++--------
 1 file changed, 40 insertions(+), 19 deletions(-)

diff --git a/include/dice/template-library/ranges.hpp b/include/dice/template-library/ranges.hpp
index 1c94625..0cc5935 100644
--- a/include/dice/template-library/ranges.hpp
+++ b/include/dice/template-library/ranges.hpp
@@ -4,6 +4,8 @@
 #include <dice/template-library/next_to_range.hpp>
 
 #include <algorithm>
+#include <cstddef>
+#include <cstdint>
 #include <functional>
 #include <ranges>
 #include <set>
@@ -353,6 +355,34 @@ namespace dice::template_library {
 			T stop_;
 			S step_;
 
+			// distance from current_ to stop_ in the direction of step_, 0 if stop_ is not in that direction
+			[[nodiscard]] constexpr auto span() const noexcept
+					requires (std::integral<T> && std::integral<S>)
+			{
+				using distance_t = std::make_unsigned_t<std::common_type_t<T, S, uintmax_t>>;
+
+				if (step_ > S{}) {
+					return current_ < stop_ ? static_cast<distance_t>(stop_) - static_cast<distance_t>(current_) : distance_t{};
+				} else {
+					return current_ > stop_ ? static_cast<distance_t>(current_) - static_cast<distance_t>(stop_) : distance_t{};
+				}
+			}
+
+			[[nodiscard]] constexpr auto step_size() const noexcept
+					requires (std::integral<T> && std::integral<S>)
+			{
+				using distance_t = std::make_unsigned_t<std::common_type_t<T, S, uintmax_t>>;
+				return step_ > S{} ? static_cast<distance_t>(step_) : distance_t{} - static_cast<distance_t>(step_);
+			}
+
+			// element at offset off from current_, computed without overflow for all elements in range
+			[[nodiscard]] constexpr T element(size_t off) const noexcept
+					requires (std::integral<T> && std::integral<S>)
+			{
+				using distance_t = std::make_unsigned_t<std::common_type_t<T, S, uintmax_t>>;
+				return static_cast<T>(static_cast<distance_t>(current_) + static_cast<distance_t>(off) * static_cast<distance_t>(step_));
+			}
+
 		public:
             range_iterator() noexcept
                     requires (std::is_default_constructible_v<T> && std::is_constructible_v<S, int>)
@@ -379,29 +409,20 @@ namespace dice::template_library {
 					}
 				}
 
-				return std::exchange(current_, current_ + step_);
+				if constexpr (std::integral<T> && std::integral<S>) {
+					// do not step past stop_, the result might not be representable
+					return std::exchange(current_, span() <= step_size() ? stop_ : element(1));
+				} else {
+					return std::exchange(current_, current_ + step_);
+				}
 			}
 
             [[nodiscard]] constexpr size_t remaining() const noexcept
                     requires (std::integral<T> && std::integral<S>)
             {
-				if (current_ <= stop_) {
-					// forward
-					if (step_ < S{}) {
-						// wrong direction
-						return 0;
-					}
-
-					return static_cast<size_t>((stop_ - current_ + step_ - 1) / step_);
-				} else {
-					// backward
-					if (step_ > S{}) {
-						// wrong direction
-						return 0;
-					}
-
-					return static_cast<size_t>((current_ - stop_ + -step_ - 1) / -step_);
-				}
+				auto const distance = span();
+				auto const size = step_size();
+				return static_cast<size_t>(distance / size + (distance % size != 0));
 			}
 
             [[nodiscard]] constexpr std::optional<T> nth(size_t off) noexcept
@@ -413,7 +434,7 @@ namespace dice::template_library {
 					return std::nullopt;
 				}
 
-				current_ += static_cast<T>(off) * step_;
+				current_ = element(off);
 				return next();
 			}
 
-- 
2.43.0


From d13923778f7d914807e9b22ae93734822b7f308b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:32 +0000
Subject: [PATCH 23/31] fix: range: elements from the back must be elements of
 the range

---
 include/dice/template-library/ranges.hpp | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/include/dice/template-library/ranges.hpp b/include/dice/template-library/ranges.hpp
index 0cc5935..942ad60 100644
--- a/include/dice/template-library/ranges.hpp
+++ b/include/dice/template-library/ranges.hpp
@@ -441,19 +441,13 @@ namespace dice::template_library {
             [[nodiscard]] constexpr std::optional<T> next_back() noexcept
                     requires (std::integral<T> && std::integral<S>)
             {
-				if (step_ > S{}) {
-					if (current_ >= stop_) {
-						return std::nullopt;
-					}
-					stop_ -= step_;
-					return stop_;
-				} else {
-					if (current_ <= stop_) {
-						return std::nullopt;
-					}
-					stop_ -= step_;
-					return stop_;
+				auto const rem = remaining();
+				if (rem == 0) {
+					return std::nullopt;
 				}
+
+				stop_ = element(rem - 1);
+				return stop_;
 			}
 
             [[nodiscard]] constexpr std::optional<T> nth_back(size_t off) noexcept
@@ -465,8 +459,8 @@ namespace dice::template_library {
 					return std::nullopt;
 				}
 
-				stop_ -= static_cast<T>(off) * step_;
-				return next_back();
+				stop_ = element(rem - 1 - off);
+				return stop_;
 			}
 		};
 	}// namespace ranges_algo_detail
-- 
2.43.0


From 93ab4be1f9e2bb9e13af60cbada54b1c3d989cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:32 +0000
Subject: [PATCH 24/31] fix: next_to_iter: copying a mutable iterator must not
 skip an element

---
 include/dice/template-library/next_to_range.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/next_to_range.hpp b/include/dice/template-library/next_to_range.hpp
index 38ed862..95ceb99 100644
--- a/include/dice/template-library/next_to_range.hpp
+++ b/include/dice/template-library/next_to_range.hpp
@@ -131,7 +131,9 @@ namespace dice::template_library {
 		public:
             template<typename... Args>
             explicit constexpr next_to_iter_impl(Args &&...args)
-                    requires (std::is_constructible_v<Iter, decltype(std::forward<Args>(args))...>)
+                    requires (std::is_constructible_v<Iter, decltype(std::forward<Args>(args))...>
+                              // copying and moving must not go through here, otherwise the current element would be lost
+                              && !(sizeof...(Args) == 1 && (std::is_same_v<std::remove_cvref_t<Args>, next_to_iter_impl> && ...)))
                 : Iter{std::forward<Args>(args)...},
                   cur_{next()} {
             }
-- 
2.43.0


From d7d19280cf52cb3080454b9ff16d82169c8bd259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:18 +0000
Subject: [PATCH 25/31] fix: next_to_view: crbegin needs only what rbegin needs

---
 include/dice/template-library/next_to_range.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/next_to_range.hpp b/include/dice/template-library/next_to_range.hpp
index 95ceb99..a6e7054 100644
--- a/include/dice/template-library/next_to_range.hpp
+++ b/include/dice/template-library/next_to_range.hpp
@@ -473,7 +473,7 @@ namespace dice::template_library {
 			return next_back_to_reverse_iter<Iter>{iter_};
 		}
 
-		[[nodiscard]] constexpr auto crbegin() const requires (nth_back_iterator<Iter>) {
+		[[nodiscard]] constexpr auto crbegin() const requires (next_back_iterator<Iter>) {
 			return rbegin();
 		}
 
-- 
2.43.0


From 6597ee87bb60416008d6c07985cccd27c2e2232a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:48 +0000
Subject: [PATCH 26/31] fix: is_sorted_unique: do not revisit elements of
 single-pass ranges

---
 include/dice/template-library/ranges.hpp | 28 +++++++++++++++++-------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/dice/template-library/ranges.hpp b/include/dice/template-library/ranges.hpp
index 942ad60..06a9ee5 100644
--- a/include/dice/template-library/ranges.hpp
+++ b/include/dice/template-library/ranges.hpp
@@ -558,15 +558,27 @@ namespace dice::template_library {
                 return true;
             }
 
-            auto it = first;
-            while (++it != last) {
-                // We require that 'prev' is strictly less than 'curr'.
-                // cmp(a, b) ~ a < b
-                // <-> !cmp(a, b) ~ a >= b
-                if (!std::invoke(cmp, std::invoke(proj, *first), std::invoke(proj, *it))) {
-                    return false;
+            if constexpr (std::forward_iterator<I>) {
+                auto it = first;
+                while (++it != last) {
+                    // We require that 'prev' is strictly less than 'curr'.
+                    // cmp(a, b) ~ a < b
+                    // <-> !cmp(a, b) ~ a >= b
+                    if (!std::invoke(cmp, std::invoke(proj, *first), std::invoke(proj, *it))) {
+                        return false;
+                    }
+                    first = it;
+                }
+            } else {
+                // single-pass: 'first' must not be dereferenced anymore once any copy of it was incremented
+                std::iter_value_t<I> prev = *first;
+                while (++first != last) {
+                    std::iter_value_t<I> curr = *first;
+                    if (!std::invoke(cmp, std::invoke(proj, prev), std::invoke(proj, curr))) {
+                        return false;
+                    }
+                    prev = std::move(curr);
                 }
-                first = it;
             }
             return true;
         }
-- 
2.43.0


From 45c41f7d055b09c84ae94dc07dd948b430d7e828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:46 +0000
Subject: [PATCH 27/31] fix: all_equal: compare with a copy of the first
 element, not with a proxy for it

---
 include/dice/template-library/ranges.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/ranges.hpp b/include/dice/template-library/ranges.hpp
index 06a9ee5..a0d7b30 100644
--- a/include/dice/template-library/ranges.hpp
+++ b/include/dice/template-library/ranges.hpp
@@ -181,11 +181,12 @@ namespace dice::template_library {
                 return true;
             }
 
-            auto const first_element = *first;
+            // must be a value: what a proxy refers to might change with ++first
+            std::iter_value_t<I> const first_element = *first;
             ++first;
 
             // Check if all subsequent elements in the range match the first one.
-            return std::ranges::subrange(first, last)
+            return std::ranges::subrange(std::move(first), std::move(last))
                    | dice::template_library::all_of([&](auto const &current_element) {
                          return std::invoke(pred, current_element, first_element);
                      });
-- 
2.43.0


From 471ddf62035212fd0b1428345ac2279b436fd567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:32 +0000
Subject: [PATCH 28/31] fix: fmt_join: separators that are strings

---
 include/dice/template-library/fmt_join.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/fmt_join.hpp b/include/dice/template-library/fmt_join.hpp
index 6d79999..74f538b 100644
--- a/include/dice/template-library/fmt_join.hpp
+++ b/include/dice/template-library/fmt_join.hpp
@@ -1,9 +1,14 @@
 #ifndef DICE_TEMPLATE_LIBRARY_FMT_JOIN_HPP
 #define DICE_TEMPLATE_LIBRARY_FMT_JOIN_HPP
 
+#include <algorithm>
+#include <concepts>
 #include <format>
+#include <initializer_list>
 #include <iterator>
 #include <ranges>
+#include <string_view>
+#include <utility>
 #include <vector>
 
 namespace dice::template_library {
@@ -67,8 +72,11 @@ namespace std {
 
 			while (it != end) {
 				// format separator
-				if constexpr (std::ranges::range<Sep const &>) {
-					format_ctx.advance_to(std::ranges::copy(join_obj.separator, format_ctx.out()));
+				if constexpr (std::convertible_to<Sep const &, std::basic_string_view<CharT>>) {
+					std::basic_string_view<CharT> const separator{join_obj.separator};
+					format_ctx.advance_to(std::ranges::copy(separator, format_ctx.out()).out);
+				} else if constexpr (std::ranges::range<Sep const &>) {
+					format_ctx.advance_to(std::ranges::copy(join_obj.separator, format_ctx.out()).out);
 				} else {
 					// otherwise single character
 					*format_ctx.out()++ = join_obj.separator;
-- 
2.43.0


From 9756f235a40a0282d449e66982f4ce0094168ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:33 +0000
Subject: [PATCH 29/31] fix: fmt_join: ranges that cannot be iterated if they
 are const

---
 include/dice/template-library/fmt_join.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/fmt_join.hpp b/include/dice/template-library/fmt_join.hpp
index 74f538b..6229d82 100644
--- a/include/dice/template-library/fmt_join.hpp
+++ b/include/dice/template-library/fmt_join.hpp
@@ -8,6 +8,7 @@
 #include <iterator>
 #include <ranges>
 #include <string_view>
+#include <type_traits>
 #include <utility>
 #include <vector>
 
@@ -57,7 +58,11 @@ namespace std {
 			return element_formatter_.parse(parse_ctx);
 		}
 
-		auto format(dice::template_library::fmt_join_algo_detail::joiner<R, Sep> const &join_obj, auto &format_ctx) const {
+		// some ranges (e.g. std::views::filter) can only be iterated if they are not const
+		template<typename Joiner, typename FormatContext>
+			requires (std::same_as<std::remove_const_t<Joiner>, dice::template_library::fmt_join_algo_detail::joiner<R, Sep>>
+					  && std::ranges::input_range<decltype((std::declval<Joiner &>().range))>)
+		auto format(Joiner &join_obj, FormatContext &format_ctx) const {
 			auto it = std::ranges::begin(join_obj.range);
 			auto const end = std::ranges::end(join_obj.range);
 
-- 
2.43.0


From 3120638dec451c5b9f06a12073aebbe147881296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:56 +0000
Subject: [PATCH 30/31] fix: format_to_ostream: wide streams need the formatter
 for wide characters

---
 include/dice/template-library/format_to_ostream.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/format_to_ostream.hpp b/include/dice/template-library/format_to_ostream.hpp
index 01e6e98..079cea0 100644
--- a/include/dice/template-library/format_to_ostream.hpp
+++ b/include/dice/template-library/format_to_ostream.hpp
@@ -47,7 +47,12 @@ namespace dice::template_library {
  */
 template<typename T, typename Char = char, typename CharTraits = std::char_traits<char>, typename = std::enable_if_t<std::formattable<T, Char> && !dice::template_library::is_ostreamable_v<T, Char, CharTraits>>>
 std::basic_ostream<Char, CharTraits> &operator<<(std::basic_ostream<Char, CharTraits> &stream, T const &value) {
-    std::format_to(std::ostreambuf_iterator<Char, CharTraits>{stream}, "{}", value);
+    std::ostreambuf_iterator<Char, CharTraits> const out{stream};
+    if constexpr (std::is_same_v<Char, wchar_t>) {
+        std::format_to(out, L"{}", value);
+    } else {
+        std::format_to(out, "{}", value);
+    }
     return stream;
 }
 
-- 
2.43.0


From 0f587c823ff7bb46c2e7720723b6c51e40be3b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:56 +0000
Subject: [PATCH 31/31] fix: format_to_ostream: respect and report failures of
 the stream

---
 .../dice/template-library/format_to_ostream.hpp  | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/dice/template-library/format_to_ostream.hpp b/include/dice/template-library/format_to_ostream.hpp
index 079cea0..e65dd37 100644
--- a/include/dice/template-library/format_to_ostream.hpp
+++ b/include/dice/template-library/format_to_ostream.hpp
@@ -47,11 +47,21 @@ namespace dice::template_library {
  */
 template<typename T, typename Char = char, typename CharTraits = std::char_traits<char>, typename = std::enable_if_t<std::formattable<T, Char> && !dice::template_library::is_ostreamable_v<T, Char, CharTraits>>>
 std::basic_ostream<Char, CharTraits> &operator<<(std::basic_ostream<Char, CharTraits> &stream, T const &value) {
-    std::ostreambuf_iterator<Char, CharTraits> const out{stream};
+    typename std::basic_ostream<Char, CharTraits>::sentry const ok{stream};
+    if (!ok) {
+        // like any other operator<<: nothing is written to a failed stream
+        return stream;
+    }
+
+    std::ostreambuf_iterator<Char, CharTraits> out{stream};
     if constexpr (std::is_same_v<Char, wchar_t>) {
-        std::format_to(out, L"{}", value);
+        out = std::format_to(out, L"{}", value);
     } else {
-        std::format_to(out, "{}", value);
+        out = std::format_to(out, "{}", value);
+    }
+
+    if (out.failed()) {
+        stream.setstate(std::ios_base::badbit);
     }
     return stream;
 }
-- 
2.43.0

