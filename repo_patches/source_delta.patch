From 95283dad104547992bcf6ee98658f42fab21c5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 1/4] fix: sha2: return early from update when n is zero

update( nullptr, 0 ) with a partially filled block called memcpy with a null
source pointer, which is undefined. All other algorithms return early.
---
 include/boost/hash2/sha2.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/hash2/sha2.hpp b/include/boost/hash2/sha2.hpp
index 98493ed..a2c9d6d 100644
--- a/include/boost/hash2/sha2.hpp
+++ b/include/boost/hash2/sha2.hpp
@@ -54,6 +54,8 @@ struct sha2_base
 
         BOOST_ASSERT( m_ == n_ % N );
 
+        if( n == 0 ) return;
+
         n_ += n;
 
         if( m_ > 0 )
-- 
2.43.0


From fe0a8b26eddf70fb1ffb24033f46fce8c132c104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 2/4] fix: hash_append: map -0.0 to +0.0 independently of the
 rounding mode

v + 0 is -0.0 for v == -0.0 when rounding downward, so equal values
produced different messages depending on the floating point environment.
---
 include/boost/hash2/hash_append.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/boost/hash2/hash_append.hpp b/include/boost/hash2/hash_append.hpp
index aacf57d..d874464 100644
--- a/include/boost/hash2/hash_append.hpp
+++ b/include/boost/hash2/hash_append.hpp
@@ -213,7 +213,13 @@ template<class Hash, class Flavor, class T>
     typename std::enable_if< std::is_floating_point<T>::value && sizeof(T) == 4, void >::type
     do_hash_append( Hash& h, Flavor const& f, T const& v )
 {
-    hash2::hash_append( h, f, detail::bit_cast<std::uint32_t>( v + 0 ) );
+    std::uint32_t w = detail::bit_cast<std::uint32_t>( v );
+
+    // negative zero compares equal to positive zero; adding zero isn't
+    // enough, because the result depends on the rounding mode
+    if( w == 0x80000000u ) w = 0;
+
+    hash2::hash_append( h, f, w );
 }
 
 template<class Hash, class Flavor, class T>
@@ -221,7 +227,13 @@ template<class Hash, class Flavor, class T>
     typename std::enable_if< std::is_floating_point<T>::value && sizeof(T) == 8, void >::type
     do_hash_append( Hash& h, Flavor const& f, T const& v )
 {
-    hash2::hash_append( h, f, detail::bit_cast<std::uint64_t>( v + 0 ) );
+    std::uint64_t w = detail::bit_cast<std::uint64_t>( v );
+
+    // negative zero compares equal to positive zero; adding zero isn't
+    // enough, because the result depends on the rounding mode
+    if( w == 0x8000000000000000ull ) w = 0;
+
+    hash2::hash_append( h, f, w );
 }
 
 // std::nullptr_t
-- 
2.43.0


From 4831d7fb9ac0a35a8ab10cc8cccb32344867d7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:09 +0000
Subject: [PATCH 3/4] fix: get_integral_result: do the 16-bit contraction in
 unsigned arithmetic

---
 include/boost/hash2/get_integral_result.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/hash2/get_integral_result.hpp b/include/boost/hash2/get_integral_result.hpp
index c6742f4..7ed1891 100644
--- a/include/boost/hash2/get_integral_result.hpp
+++ b/include/boost/hash2/get_integral_result.hpp
@@ -144,7 +144,7 @@ template<class T, class R>
 
     constexpr auto m = detail::get_result_multiplier<U, R>();
 
-    return static_cast<T>( static_cast<U>( ( r * m ) >> ( std::numeric_limits<R>::digits - std::numeric_limits<U>::digits ) ) );
+    return static_cast<T>( static_cast<U>( ( 1u * r * m ) >> ( std::numeric_limits<R>::digits - std::numeric_limits<U>::digits ) ) );
 }
 
 // identity or expansion
-- 
2.43.0


From 35506e911e8723a61c41895a2f5110857728f338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:24 +0000
Subject: [PATCH 4/4] fix: xxhash_32: count the bytes in 64 bits, as the other
 algorithms do

With a 32 bit std::size_t the count wrapped, and a stream of between 2^32 and
2^32 + 15 bytes was finished as if it were shorter than one block.
---
 include/boost/hash2/xxhash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/hash2/xxhash.hpp b/include/boost/hash2/xxhash.hpp
index 263314c..08b2bb6 100644
--- a/include/boost/hash2/xxhash.hpp
+++ b/include/boost/hash2/xxhash.hpp
@@ -47,7 +47,7 @@ private:
     unsigned char buffer_[ 16 ] = {};
     std::size_t m_ = 0; // == n_ % 16
 
-    std::size_t n_ = 0;
+    std::uint64_t n_ = 0;
 
 private:
 
-- 
2.43.0

