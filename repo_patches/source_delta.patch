From 854f2382acb1eb72b466771771fe60b6002452be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 01/30] fix: reset the block when deserializing a Random at the
 start of its stream

Deserializing into a Random that had already been used kept its stale block,
so the result compared unequal to the Random that had been serialized.
---
 include/rapidcheck/Random.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/rapidcheck/Random.hpp b/include/rapidcheck/Random.hpp
index a2559b8..cb9619e 100644
--- a/include/rapidcheck/Random.hpp
+++ b/include/rapidcheck/Random.hpp
@@ -28,6 +28,7 @@ Iterator deserialize(Iterator begin, Iterator end, Random &output) {
   iit = deserializeCompact(iit, end, counter);
   // Normally, the block is calculated lazily if counter is divisible by 4 so
   // let's simulate this.
+  output.m_block = Random::Block();
   if (counter != 0) {
     const auto blki =
         ((counter - 1) % std::tuple_size<Random::Block>::value) + 1;
-- 
2.43.0


From 3688efe34ee2cc233b897b46bb6770bc70dc8a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 02/30] fix: reject truncated or invalid Random states when
 deserializing

The last byte was read without checking for the end of the input, so a
truncated reproduce string caused an out of bounds read. A bit count above 64
was accepted as well, which later leads to an invalid shift.
---
 include/rapidcheck/Random.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/rapidcheck/Random.hpp b/include/rapidcheck/Random.hpp
index cb9619e..d6a6d7f 100644
--- a/include/rapidcheck/Random.hpp
+++ b/include/rapidcheck/Random.hpp
@@ -40,7 +40,14 @@ Iterator deserialize(Iterator begin, Iterator end, Random &output) {
   }
   output.m_counter = counter;
 
-  output.m_bitsi = *iit;
+  if (iit == end) {
+    throw SerializationException("Unexpected end of input");
+  }
+  const auto bitsi = static_cast<uint8_t>(*iit);
+  if (bitsi > Random::kBits) {
+    throw SerializationException("Invalid number of bits");
+  }
+  output.m_bitsi = bitsi;
   return ++iit;
 }
 
-- 
2.43.0


From 44d0e47378849e3d24c582991771cdb7ea2b1479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 03/30] fix: do not trust the length prefix when deserializing
 strings

A corrupt length in a reproduce string made std::string::reserve throw
length_error or allocate an arbitrary amount of memory.
---
 include/rapidcheck/detail/Serialization.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rapidcheck/detail/Serialization.hpp b/include/rapidcheck/detail/Serialization.hpp
index a0e8e1e..51d0349 100644
--- a/include/rapidcheck/detail/Serialization.hpp
+++ b/include/rapidcheck/detail/Serialization.hpp
@@ -54,8 +54,8 @@ Iterator deserialize(Iterator begin, Iterator end, std::string &output) {
   std::size_t len;
   iit = deserializeCompact(iit, end, len);
 
+  // Do not reserve `len` up front since it has not been validated yet.
   output.clear();
-  output.reserve(len);
   while (output.size() < len) {
     if (iit == end) {
       throw SerializationException("Unexpected end of input");
-- 
2.43.0


From 7e5fdc17d99658eab3723e4eec4468d9f0565614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 04/30] fix: reject overlong integers when deserializing
 compact integers

More continuation bytes than the type has room for caused a shift by at least
the width of the type.
---
 include/rapidcheck/detail/Serialization.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/rapidcheck/detail/Serialization.hpp b/include/rapidcheck/detail/Serialization.hpp
index 51d0349..f7f4468 100644
--- a/include/rapidcheck/detail/Serialization.hpp
+++ b/include/rapidcheck/detail/Serialization.hpp
@@ -189,6 +189,10 @@ Iterator deserializeCompact(Iterator begin, Iterator end, T &output) {
   UInt uvalue = 0;
   int nbits = 0;
   for (auto it = begin; it != end; it++) {
+    if (nbits >= std::numeric_limits<UInt>::digits) {
+      throw SerializationException("Integer is too large");
+    }
+
     auto x = static_cast<std::uint8_t>(*it);
     uvalue |= static_cast<UInt>(x & 0x7F) << nbits;
     nbits += 7;
-- 
2.43.0


From 98c8a6e14e98f040bd746a2ac1aa9c00709efb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 05/30] fix: do not allocate for every possible success before
 running a property

---
 src/detail/Testing.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/detail/Testing.cpp b/src/detail/Testing.cpp
index 8ec5b6e..87b627f 100644
--- a/src/detail/Testing.cpp
+++ b/src/detail/Testing.cpp
@@ -35,7 +35,6 @@ SearchResult searchProperty(const Property &property,
   searchResult.type = SearchResult::Type::Success;
   searchResult.numSuccess = 0;
   searchResult.numDiscarded = 0;
-  searchResult.tags.reserve(params.maxSuccess);
 
   const auto maxDiscard = params.maxDiscardRatio * params.maxSuccess;
 
-- 
2.43.0


From d02dbcb978ff80a55120189cd2a4680c45dab0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 06/30] fix: avoid integer overflow in case sizes and the
 discard limit

---
 src/detail/Testing.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/detail/Testing.cpp b/src/detail/Testing.cpp
index 87b627f..c1810eb 100644
--- a/src/detail/Testing.cpp
+++ b/src/detail/Testing.cpp
@@ -1,5 +1,8 @@
 #include "Testing.h"
 
+#include <cstdint>
+#include <limits>
+
 #include "rapidcheck/BeforeMinimalTestCase.h"
 #include "rapidcheck/shrinkable/Operations.h"
 
@@ -12,20 +15,26 @@ int sizeFor(const TestParams &params, int i) {
   // multiple of the number of sizes (i.e. maxSize + 1). Another thing is that
   // we always want to ensure that the maximum size is actually used.
 
-  const auto numSizes = params.maxSize + 1;
+  const auto maxSize = static_cast<int64_t>(params.maxSize);
+  const auto numSizes = maxSize + 1;
   const auto numRegular = (params.maxSuccess / numSizes) * numSizes;
   if (i < numRegular) {
-    return i % numSizes;
+    return static_cast<int>(i % numSizes);
   }
 
   const auto numRest = params.maxSuccess - numRegular;
   if (numRest == 1) {
     return 0;
   } else {
-    return ((i % numSizes) * params.maxSize) / (numRest - 1);
+    return static_cast<int>(((i % numSizes) * maxSize) / (numRest - 1));
   }
 }
 
+int addSizes(int a, int b) {
+  const auto maxInt = std::numeric_limits<int>::max();
+  return (a > (maxInt - b)) ? maxInt : (a + b);
+}
+
 } // namespace
 
 SearchResult searchProperty(const Property &property,
@@ -36,13 +45,14 @@ SearchResult searchProperty(const Property &property,
   searchResult.numSuccess = 0;
   searchResult.numDiscarded = 0;
 
-  const auto maxDiscard = params.maxDiscardRatio * params.maxSuccess;
+  const auto maxDiscard =
+      static_cast<int64_t>(params.maxDiscardRatio) * params.maxSuccess;
 
   auto recentDiscards = 0;
   auto r = Random(params.seed);
   while (searchResult.numSuccess < params.maxSuccess) {
-    const auto size =
-        sizeFor(params, searchResult.numSuccess) + (recentDiscards / 10);
+    const auto size = addSizes(sizeFor(params, searchResult.numSuccess),
+                               recentDiscards / 10);
     const auto random = r.split();
 
     auto shrinkable = property(random, size);
-- 
2.43.0


From 820f530f4c4e696a40d30228e7b580abc76ad6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:12 +0000
Subject: [PATCH 07/30] fix: do not use a destroyed key function when shrinking
 unique containers

---
 include/rapidcheck/gen/Container.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/rapidcheck/gen/Container.hpp b/include/rapidcheck/gen/Container.hpp
index adfd837..e7258af 100644
--- a/include/rapidcheck/gen/Container.hpp
+++ b/include/rapidcheck/gen/Container.hpp
@@ -266,13 +266,15 @@ public:
       keys->insert(m_f(shrinkable.value()));
     }
 
+    // The returned sequence may outlive this object so it needs its own copy.
+    const auto f = m_f;
     return shrink::eachElement(shrinkables,
-                               [this, keys](const Shrinkable<T> &s) {
-                                 const auto valueKey = m_f(s.value());
+                               [f, keys](const Shrinkable<T> &s) {
+                                 const auto valueKey = f(s.value());
                                  return seq::filter(
                                      s.shrinks(),
-                                     [this, keys, valueKey](const Shrinkable<T> &shrink) {
-                                       const auto shrinkKey = m_f(shrink.value());
+                                     [f, keys, valueKey](const Shrinkable<T> &shrink) {
+                                       const auto shrinkKey = f(shrink.value());
                                        return (!(valueKey < shrinkKey) &&
                                                !(shrinkKey < valueKey)) ||
                                            keys->count(shrinkKey) == 0;
-- 
2.43.0


From 13ed13dd72a1a1c210a5fad42d2c55a3a8581187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 08/30] fix: allow copying moved-from Shrinkables and Gens

---
 include/rapidcheck/Gen.hpp        | 9 +++++++--
 include/rapidcheck/Shrinkable.hpp | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/rapidcheck/Gen.hpp b/include/rapidcheck/Gen.hpp
index 0c48004..a59f51b 100644
--- a/include/rapidcheck/Gen.hpp
+++ b/include/rapidcheck/Gen.hpp
@@ -95,12 +95,17 @@ Gen<T> Gen<T>::as(const std::string &name) const {
 template <typename T>
 Gen<T>::Gen(const Gen &other) noexcept : m_impl(other.m_impl),
                                          m_name(other.m_name) {
-  m_impl->retain();
+  // May be null if other has been moved from
+  if (m_impl) {
+    m_impl->retain();
+  }
 }
 
 template <typename T>
 Gen<T> &Gen<T>::operator=(const Gen &rhs) noexcept {
-  rhs.m_impl->retain();
+  if (rhs.m_impl) {
+    rhs.m_impl->retain();
+  }
   if (m_impl) {
     m_impl->release();
   }
diff --git a/include/rapidcheck/Shrinkable.hpp b/include/rapidcheck/Shrinkable.hpp
index 20e0f7b..4c21bf2 100644
--- a/include/rapidcheck/Shrinkable.hpp
+++ b/include/rapidcheck/Shrinkable.hpp
@@ -56,7 +56,10 @@ Seq<Shrinkable<T>> Shrinkable<T>::shrinks() const noexcept {
 template <typename T>
 Shrinkable<T>::Shrinkable(const Shrinkable &other) noexcept
     : m_impl(other.m_impl) {
-  m_impl->retain();
+  // May be null if other has been moved from
+  if (m_impl) {
+    m_impl->retain();
+  }
 }
 
 template <typename T>
@@ -66,7 +69,9 @@ Shrinkable<T>::Shrinkable(Shrinkable &&other) noexcept : m_impl(other.m_impl) {
 
 template <typename T>
 Shrinkable<T> &Shrinkable<T>::operator=(const Shrinkable &other) noexcept {
-  other.m_impl->retain();
+  if (other.m_impl) {
+    other.m_impl->retain();
+  }
   if (m_impl) {
     m_impl->release();
   }
-- 
2.43.0


From 64b5529419b568007437d8bfbf751633fb902f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 09/30] fix: avoid signed overflow when shrinking across wide
 ranges

shrink::towards computed value - target in the signed type, which
overflows when they are further apart than the type's maximum, e.g.
when shrinking values of inRange(INT_MIN, INT_MAX).
---
 include/rapidcheck/shrink/Shrink.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/rapidcheck/shrink/Shrink.hpp b/include/rapidcheck/shrink/Shrink.hpp
index 9ac4bc2..1aad78a 100644
--- a/include/rapidcheck/shrink/Shrink.hpp
+++ b/include/rapidcheck/shrink/Shrink.hpp
@@ -18,7 +18,9 @@ public:
 
   TowardsSeq(T value, T target)
       : m_value(value)
-      , m_diff((target < value) ? (value - target) : (target - value))
+      , m_diff((target < value)
+                   ? (static_cast<UInt>(value) - static_cast<UInt>(target))
+                   : (static_cast<UInt>(target) - static_cast<UInt>(value)))
       , m_down(target < value) {}
 
   Maybe<T> operator()() {
-- 
2.43.0


From 43a18a2ada09b2c709b1ff0814d90728b68e2dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:27 +0000
Subject: [PATCH 10/30] fix: avoid integer overflow when generating numbers at
 huge sizes

size * numBits overflows for sizes above INT_MAX / 64, giving a negative
shift amount and the value zero.
---
 include/rapidcheck/detail/BitStream.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/rapidcheck/detail/BitStream.hpp b/include/rapidcheck/detail/BitStream.hpp
index a4a2157..36ac46a 100644
--- a/include/rapidcheck/detail/BitStream.hpp
+++ b/include/rapidcheck/detail/BitStream.hpp
@@ -85,7 +85,10 @@ T BitStream<Source>::next(int nbits, std::false_type) {
 template <typename Source>
 template <typename T>
 T BitStream<Source>::nextWithSize(int size) {
-  return next<T>((size * numBits<T>() + (kNominalSize / 2)) / kNominalSize);
+  // Sizes above nominal yield the full width, clamping avoids overflow.
+  const int clampedSize = (size < kNominalSize) ? size : kNominalSize;
+  return next<T>((clampedSize * numBits<T>() + (kNominalSize / 2)) /
+                 kNominalSize);
 }
 
 template <typename Source>
-- 
2.43.0


From f1498bb24234ec71b0d2274199cf8cb2894ea653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:23 +0000
Subject: [PATCH 11/30] fix: avoid integer overflow of the retry size in
 suchThat and containers

Retries increment the size, which overflows when already at INT_MAX.
---
 include/rapidcheck/gen/Container.hpp | 6 +++++-
 include/rapidcheck/gen/Predicate.hpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/rapidcheck/gen/Container.hpp b/include/rapidcheck/gen/Container.hpp
index e7258af..bfb5faf 100644
--- a/include/rapidcheck/gen/Container.hpp
+++ b/include/rapidcheck/gen/Container.hpp
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <limits>
+
 #include "rapidcheck/gen/Arbitrary.h"
 #include "rapidcheck/gen/Tuple.h"
 #include "rapidcheck/gen/detail/ShrinkValueIterator.h"
@@ -51,7 +53,9 @@ Shrinkables<T> generateShrinkables(const Random &random,
                                 std::to_string(count) +
                                 " values for container");
       }
-      currentSize++;
+      if (currentSize < std::numeric_limits<int>::max()) {
+        currentSize++;
+      }
     }
   }
 
diff --git a/include/rapidcheck/gen/Predicate.hpp b/include/rapidcheck/gen/Predicate.hpp
index 5ab6290..6cd257b 100644
--- a/include/rapidcheck/gen/Predicate.hpp
+++ b/include/rapidcheck/gen/Predicate.hpp
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <limits>
+
 namespace rc {
 namespace gen {
 namespace detail {
@@ -22,7 +24,9 @@ public:
       if (shrinkable) {
         return std::move(*shrinkable);
       }
-      currentSize++;
+      if (currentSize < std::numeric_limits<int>::max()) {
+        currentSize++;
+      }
     }
 
     throw GenerationFailure(
-- 
2.43.0


From 7ad9fc41fa8355a2b567c5d2cef0a8cd004c0ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:16 +0000
Subject: [PATCH 12/30] fix: shrink wide characters without truncating them to
 char

---
 include/rapidcheck/shrink/Shrink.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/rapidcheck/shrink/Shrink.hpp b/include/rapidcheck/shrink/Shrink.hpp
index 1aad78a..470265e 100644
--- a/include/rapidcheck/shrink/Shrink.hpp
+++ b/include/rapidcheck/shrink/Shrink.hpp
@@ -189,14 +189,14 @@ Seq<bool> boolean(bool value) { return value ? seq::just(false) : Seq<bool>(); }
 
 template <typename T>
 Seq<T> character(T value) {
-  const auto &locale = std::locale::classic();
-  auto shrinks = seq::cast<T>(seq::concat(
-      seq::fromContainer(std::string("abc")),
-      // TODO this seems a bit hacky
-      std::islower(static_cast<char>(value), locale)
-          ? Seq<char>()
-          : seq::just(static_cast<char>(std::tolower(value, locale))),
-      seq::fromContainer(std::string("ABC123 \n"))));
+  // Must not go through `char` or a locale facet since `T` may be wider.
+  const bool lower = (value >= T('a')) && (value <= T('z'));
+  const bool upper = (value >= T('A')) && (value <= T('Z'));
+  auto shrinks = seq::concat(
+      seq::cast<T>(seq::fromContainer(std::string("abc"))),
+      lower ? Seq<T>()
+            : seq::just(upper ? static_cast<T>(value - T('A') + T('a')) : value),
+      seq::cast<T>(seq::fromContainer(std::string("ABC123 \n"))));
 
   return seq::takeWhile(std::move(shrinks), [=](T x) { return x != value; });
 }
-- 
2.43.0


From 7495889b9be3e601f1840d5d41ff5df13549bf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:41 +0000
Subject: [PATCH 13/30] fix: generate letters as often as other common
 characters for signed character types

---
 include/rapidcheck/gen/Text.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/rapidcheck/gen/Text.hpp b/include/rapidcheck/gen/Text.hpp
index 146b709..5c13e39 100644
--- a/include/rapidcheck/gen/Text.hpp
+++ b/include/rapidcheck/gen/Text.hpp
@@ -9,6 +9,13 @@ namespace rc {
 namespace gen {
 namespace detail {
 
+// Draws a 7-bit character. The bits are drawn as an unsigned type since they
+// would be sign extended to negative values for signed character types.
+template <typename T, typename Stream>
+T nextSmallCharacter(Stream &stream) {
+  return static_cast<T>(stream.template next<unsigned char>(7));
+}
+
 template <typename String>
 class StringGen;
 
@@ -27,7 +34,7 @@ public:
       bool small = stream.next<bool>();
       T value;
       do {
-        value = small ? stream.next<T>(7) : stream.next<T>();
+        value = small ? nextSmallCharacter<T>(stream) : stream.next<T>();
       } while (value == '\0');
       str.push_back(value);
     }
@@ -56,7 +63,8 @@ Gen<T> character() {
     auto stream = ::rc::detail::bitStreamOf(random);
     bool small = stream.next<bool>();
     T value;
-    while ((value = small ? stream.next<T>(7) : stream.next<T>()) == '\0') {
+    while ((value = small ? detail::nextSmallCharacter<T>(stream)
+                          : stream.next<T>()) == '\0') {
       // Do nothing
     }
 
-- 
2.43.0


From 45be0a8e5729c2eadf0fb7b592a664bff7a7cdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:43 +0000
Subject: [PATCH 14/30] fix: avoid integer overflow in gen::maybe at the
 maximum size

---
 include/rapidcheck/gen/Maybe.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rapidcheck/gen/Maybe.hpp b/include/rapidcheck/gen/Maybe.hpp
index 8991743..9dcc15e 100644
--- a/include/rapidcheck/gen/Maybe.hpp
+++ b/include/rapidcheck/gen/Maybe.hpp
@@ -12,7 +12,7 @@ public:
 
   Shrinkable<Maybe<T>> operator()(const Random &random, int size) const {
     auto r = random;
-    const auto x = r.split().next() % (size + 1);
+    const auto x = r.split().next() % (static_cast<uint64_t>(size) + 1);
     if (x == 0) {
       return shrinkable::lambda([]{ return Maybe<T>(); });
     }
-- 
2.43.0


From 6b825c3a9db5fb344a0bba86928155a5ac168016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:23 +0000
Subject: [PATCH 15/30] fix: saturate scaled sizes that do not fit in an int

---
 include/rapidcheck/gen/Transform.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/rapidcheck/gen/Transform.hpp b/include/rapidcheck/gen/Transform.hpp
index e9433fa..a705e25 100644
--- a/include/rapidcheck/gen/Transform.hpp
+++ b/include/rapidcheck/gen/Transform.hpp
@@ -1,5 +1,8 @@
 #pragma once
 
+#include <algorithm>
+#include <limits>
+
 #include "rapidcheck/shrinkable/Transform.h"
 #include "rapidcheck/gen/Arbitrary.h"
 #include "rapidcheck/gen/Tuple.h"
@@ -120,7 +123,9 @@ Gen<T> resize(int size, Gen<T> gen) {
 template <typename T>
 Gen<T> scale(double scale, Gen<T> gen) {
   return [=](const Random &random, int size) {
-    return gen(random, static_cast<int>(size * scale));
+    // Converting a value that doesn't fit is undefined
+    const double maxSize = std::numeric_limits<int>::max();
+    return gen(random, static_cast<int>(std::min(size * scale, maxSize)));
   };
 }
 
-- 
2.43.0


From 2debfe50c6eb8dd2568c15a93deaeecaddd74c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:27 +0000
Subject: [PATCH 16/30] fix: allow copy assignment from an empty Seq

---
 include/rapidcheck/Seq.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rapidcheck/Seq.hpp b/include/rapidcheck/Seq.hpp
index 5962f1f..eac8f55 100644
--- a/include/rapidcheck/Seq.hpp
+++ b/include/rapidcheck/Seq.hpp
@@ -55,7 +55,7 @@ Seq<T>::Seq(const Seq &other)
 
 template <typename T>
 Seq<T> &Seq<T>::operator=(const Seq &rhs) {
-  m_impl = rhs.m_impl->copy();
+  m_impl = rhs.m_impl ? rhs.m_impl->copy() : nullptr;
   return *this;
 }
 
-- 
2.43.0


From 71b19df66f914bdb5e30f867a988c56263e0f8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:28 +0000
Subject: [PATCH 17/30] fix: do not loop forever when cycling an empty Seq

---
 include/rapidcheck/seq/Transform.hpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/rapidcheck/seq/Transform.hpp b/include/rapidcheck/seq/Transform.hpp
index 9d7cc7e..6486e16 100644
--- a/include/rapidcheck/seq/Transform.hpp
+++ b/include/rapidcheck/seq/Transform.hpp
@@ -235,6 +235,28 @@ private:
   Seq<Seq<T>> m_seqs;
 };
 
+template <typename T>
+class CycleSeq {
+public:
+  CycleSeq(Seq<T> seq)
+      : m_seq(std::move(seq)) {}
+
+  Maybe<T> operator()() {
+    auto value = m_lap.next();
+    if (value) {
+      return value;
+    }
+
+    // Otherwise, next lap. If that one is empty, all of them are.
+    m_lap = m_seq;
+    return m_lap.next();
+  }
+
+private:
+  Seq<T> m_seq;
+  Seq<T> m_lap;
+};
+
 template <typename T, std::size_t N>
 class ConcatSeq {
 public:
@@ -375,7 +397,7 @@ mapMaybe(Seq<T> seq, Mapper &&mapper) {
 
 template <typename T>
 Seq<T> cycle(Seq<T> seq) {
-  return seq::join(seq::repeat(std::move(seq)));
+  return makeSeq<detail::CycleSeq<T>>(std::move(seq));
 }
 
 template <typename T, typename U>
-- 
2.43.0


From 2bf09784c61f37ea7a0a393c94ea34eace665ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:16 +0000
Subject: [PATCH 18/30] fix: run properties in a fresh implicit scope

Shrinking and describing a counterexample runs user code, such as nested bodies,
outside of the property body. When the property was tested from within another
property, logging, tags and generated values of that code ended up in the
enclosing case.
---
 src/detail/Testing.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/detail/Testing.cpp b/src/detail/Testing.cpp
index c1810eb..8116de1 100644
--- a/src/detail/Testing.cpp
+++ b/src/detail/Testing.cpp
@@ -4,6 +4,7 @@
 #include <limits>
 
 #include "rapidcheck/BeforeMinimalTestCase.h"
+#include "rapidcheck/detail/ImplicitParam.h"
 #include "rapidcheck/shrinkable/Operations.h"
 
 namespace rc {
@@ -121,6 +122,11 @@ namespace {
 TestResult doTestProperty(const Property &property,
                           const TestParams &params,
                           TestListener &listener) {
+  // Shrinking and describing the counterexample may run user code outside of
+  // the property itself. If we are being run from within another property, that
+  // code must not log to, tag or generate values for that property.
+  ImplicitScope newScope;
+
   const auto searchResult = searchProperty(property, params, listener);
   if (searchResult.type == SearchResult::Type::Success) {
     SuccessResult success;
@@ -172,6 +178,8 @@ TestResult testProperty(const Property &property,
 
 TestResult reproduceProperty(const Property &property,
                              const Reproduce &reproduce) {
+  ImplicitScope newScope;
+
   const auto shrinkable = property(reproduce.random, reproduce.size);
   const auto minShrinkable =
       shrinkable::walkPath(shrinkable, reproduce.shrinkPath);
-- 
2.43.0


From 508fd7c4b7be823a706ad5f1c321e53a2386607e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:52 +0000
Subject: [PATCH 19/30] fix: destroy the temporary when copy assigning a
 Variant

When the alternatives differed, the moved-from temporary copy was never
destroyed and whatever it still owned leaked.
---
 include/rapidcheck/detail/Variant.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/rapidcheck/detail/Variant.hpp b/include/rapidcheck/detail/Variant.hpp
index e1b2da0..f9f4c16 100644
--- a/include/rapidcheck/detail/Variant.hpp
+++ b/include/rapidcheck/detail/Variant.hpp
@@ -169,6 +169,7 @@ operator=(const Variant &rhs) noexcept(
     copy(rhs.m_typeIndex, &tmp, &rhs.m_storage);
     destroy(m_typeIndex, &m_storage);
     move(rhs.m_typeIndex, &m_storage, &tmp);
+    destroy(rhs.m_typeIndex, &tmp);
     m_typeIndex = rhs.m_typeIndex;
   }
 
-- 
2.43.0


From 22d359859b1d615975e95f82139a44501fd29568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:52 +0000
Subject: [PATCH 20/30] fix: allow copying a part of a Variant's own value to
 it

The old value was destroyed before the new one was copied from it.
---
 include/rapidcheck/detail/Variant.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/rapidcheck/detail/Variant.hpp b/include/rapidcheck/detail/Variant.hpp
index f9f4c16..02856de 100644
--- a/include/rapidcheck/detail/Variant.hpp
+++ b/include/rapidcheck/detail/Variant.hpp
@@ -45,9 +45,11 @@ operator=(const T &value) noexcept {
   if (newIndex == m_typeIndex) {
     *reinterpret_cast<T *>(&m_storage) = value;
   } else {
+    // The value may be a part of what is about to be destroyed
+    T tmp(value);
     destroy(m_typeIndex, &m_storage);
     m_typeIndex = newIndex;
-    new (&m_storage) T(value);
+    new (&m_storage) T(std::move(tmp));
   }
   return *this;
 }
-- 
2.43.0


From 1da7e7a5cba678b9186bd56d3c768d8c3bc562e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:31 +0000
Subject: [PATCH 21/30] fix: do not terminate when copying a value into a
 Variant throws

The assignment was noexcept even for types whose copy operations may throw.
---
 include/rapidcheck/detail/Variant.h   | 4 +++-
 include/rapidcheck/detail/Variant.hpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/rapidcheck/detail/Variant.h b/include/rapidcheck/detail/Variant.h
index bc17851..0044e9f 100644
--- a/include/rapidcheck/detail/Variant.h
+++ b/include/rapidcheck/detail/Variant.h
@@ -29,7 +29,9 @@ public:
   template <typename T,
             typename = typename std::enable_if<
                 std::is_nothrow_move_constructible<T>::value>::type>
-  Variant &operator=(const T &value) noexcept;
+  Variant &operator=(const T &value) noexcept(
+      std::is_nothrow_copy_constructible<T>::value
+          &&std::is_nothrow_copy_assignable<T>::value);
 
   /// Move-assigns the given value to this `Variant`.
   template <typename T,
diff --git a/include/rapidcheck/detail/Variant.hpp b/include/rapidcheck/detail/Variant.hpp
index 02856de..c65e5d8 100644
--- a/include/rapidcheck/detail/Variant.hpp
+++ b/include/rapidcheck/detail/Variant.hpp
@@ -38,7 +38,9 @@ Variant<Type, Types...>::Variant(T &&value) noexcept(
 template <typename Type, typename... Types>
 template <typename T, typename>
 Variant<Type, Types...> &Variant<Type, Types...>::
-operator=(const T &value) noexcept {
+operator=(const T &value) noexcept(
+    std::is_nothrow_copy_constructible<T>::value
+        &&std::is_nothrow_copy_assignable<T>::value) {
   static_assert(isValidType<T>(), "T is not a valid type of this variant");
 
   const auto newIndex = indexOfType<T>();
-- 
2.43.0


From aec555cde8368e266f96048de7d3876af26943d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:12 +0000
Subject: [PATCH 22/30] fix: escape backslashes when showing strings

A backslash was printed as is, so a newline and a backslash followed by the
letter n were shown the same way.
---
 src/Show.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Show.cpp b/src/Show.cpp
index ae5272b..e487bf8 100644
--- a/src/Show.cpp
+++ b/src/Show.cpp
@@ -16,7 +16,7 @@ void showValue(const std::string &value, std::ostream &os) {
     if (!std::isspace(c, locale) && std::isprint(c, locale)) {
       switch (c) {
       case '\\':
-        os << "\\";
+        os << "\\\\";
         break;
       case '"':
         os << "\\\"";
-- 
2.43.0


From 5d3f3940e454ecbe8ab35b965648f1665fdd6536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:12 +0000
Subject: [PATCH 23/30] fix: show unprintable characters with exactly two
 hexadecimal digits

std::setprecision does not affect integers, so \x01 followed by 0 and \x10
were shown the same way. It also stayed in effect on the stream, so that
floating point values shown later lost digits.
---
 src/Show.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Show.cpp b/src/Show.cpp
index e487bf8..ee87da6 100644
--- a/src/Show.cpp
+++ b/src/Show.cpp
@@ -55,9 +55,11 @@ void showValue(const std::string &value, std::ostream &os) {
         break;
       default:
         auto flags = os.flags();
+        auto fill = os.fill('0');
         os << "\\x";
-        os << std::hex << std::setprecision(2) << std::uppercase
+        os << std::hex << std::right << std::setw(2) << std::uppercase
            << static_cast<int>(c & 0xFF);
+        os.fill(fill);
         os.flags(flags);
       }
     }
-- 
2.43.0


From 3d69c06f6d8b109e2b2c5faf126701fb40a29bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:13 +0000
Subject: [PATCH 24/30] fix: show null pointers instead of dereferencing them

---
 include/rapidcheck/Show.hpp | 4 ++++
 src/Show.cpp                | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/rapidcheck/Show.hpp b/include/rapidcheck/Show.hpp
index b3fe559..a83aee9 100644
--- a/include/rapidcheck/Show.hpp
+++ b/include/rapidcheck/Show.hpp
@@ -63,6 +63,10 @@ void showValue(const char *value, std::ostream &os);
 
 template <typename T>
 void showValue(T *p, std::ostream &os) {
+  if (!p) {
+    os << "nullptr";
+    return;
+  }
   show(*p, os);
   auto flags = os.flags();
   os << " (" << std::hex << std::showbase << p << ")";
diff --git a/src/Show.cpp b/src/Show.cpp
index ee87da6..edf828d 100644
--- a/src/Show.cpp
+++ b/src/Show.cpp
@@ -68,6 +68,10 @@ void showValue(const std::string &value, std::ostream &os) {
 }
 
 void showValue(const char *value, std::ostream &os) {
+  if (!value) {
+    os << "nullptr";
+    return;
+  }
   show(std::string(value), os);
 }
 
-- 
2.43.0


From b3b2c64d8b26e4a85c44d87e4aad983674a1dc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:13 +0000
Subject: [PATCH 25/30] fix: show the address of pointers to characters

Streaming a pointer to a character writes the characters that follow it, which
reads past the end of anything that is not a null terminated string, such as
the char owned by a std::unique_ptr<char>.
---
 include/rapidcheck/Show.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rapidcheck/Show.hpp b/include/rapidcheck/Show.hpp
index a83aee9..276e10b 100644
--- a/include/rapidcheck/Show.hpp
+++ b/include/rapidcheck/Show.hpp
@@ -69,7 +69,7 @@ void showValue(T *p, std::ostream &os) {
   }
   show(*p, os);
   auto flags = os.flags();
-  os << " (" << std::hex << std::showbase << p << ")";
+  os << " (" << std::hex << std::showbase << (const void *)p << ")";
   os.flags(flags);
 }
 
-- 
2.43.0


From 0450a51ff968d307e29f8bf089b2f0b9802e7825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:13 +0000
Subject: [PATCH 26/30] fix: make boost::optional showable through rc::show

rc::show did not find the showValue overload for boost::optional, so using
boost::optional as the argument of a property did not compile.
---
 .../boost/include/rapidcheck/gen/boost/Optional.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/extras/boost/include/rapidcheck/gen/boost/Optional.hpp b/extras/boost/include/rapidcheck/gen/boost/Optional.hpp
index aeb4212..e1d84d6 100644
--- a/extras/boost/include/rapidcheck/gen/boost/Optional.hpp
+++ b/extras/boost/include/rapidcheck/gen/boost/Optional.hpp
@@ -32,4 +32,17 @@ void showValue(const boost::optional<T> &x, std::ostream &os) {
   }
 }
 
+namespace detail {
+
+// The overload above is declared after `show` and is not found through ADL.
+// Without this, the stream operator of boost::optional would be used which
+// requires a separate header.
+template <typename T>
+struct ShowDefault<::boost::optional<T>, false, true> {
+  static void show(const ::boost::optional<T> &value, std::ostream &os) {
+    rc::showValue(value, os);
+  }
+};
+
+} // namespace detail
 } // namespace rc
-- 
2.43.0


From 5a995a95bd4a72639d5e3ac7007939058dea571c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:21 +0000
Subject: [PATCH 27/30] fix: do not release a Gen or Shrinkable before it has
 been assigned from

Move assigning one to itself left it empty so that the next use crashed, and
assigning one that was only kept alive by the old value read freed memory.
---
 include/rapidcheck/Gen.hpp        | 22 ++++++++--------------
 include/rapidcheck/Shrinkable.hpp | 19 +++++++------------
 2 files changed, 15 insertions(+), 26 deletions(-)

diff --git a/include/rapidcheck/Gen.hpp b/include/rapidcheck/Gen.hpp
index a59f51b..5d75ade 100644
--- a/include/rapidcheck/Gen.hpp
+++ b/include/rapidcheck/Gen.hpp
@@ -103,14 +103,10 @@ Gen<T>::Gen(const Gen &other) noexcept : m_impl(other.m_impl),
 
 template <typename T>
 Gen<T> &Gen<T>::operator=(const Gen &rhs) noexcept {
-  if (rhs.m_impl) {
-    rhs.m_impl->retain();
-  }
-  if (m_impl) {
-    m_impl->release();
-  }
-  m_impl = rhs.m_impl;
-  m_name = rhs.m_name;
+  // Releasing the old value may destroy rhs so it has to be done last
+  Gen copy(rhs);
+  std::swap(m_impl, copy.m_impl);
+  std::swap(m_name, copy.m_name);
   return *this;
 }
 
@@ -122,12 +118,10 @@ Gen<T>::Gen(Gen &&other) noexcept : m_impl(other.m_impl),
 
 template <typename T>
 Gen<T> &Gen<T>::operator=(Gen &&rhs) noexcept {
-  if (m_impl) {
-    m_impl->release();
-  }
-  m_impl = rhs.m_impl;
-  rhs.m_impl = nullptr;
-  m_name = std::move(rhs.m_name);
+  // Releasing the old value may destroy rhs so it has to be done last
+  Gen moved(std::move(rhs));
+  std::swap(m_impl, moved.m_impl);
+  std::swap(m_name, moved.m_name);
   return *this;
 }
 
diff --git a/include/rapidcheck/Shrinkable.hpp b/include/rapidcheck/Shrinkable.hpp
index 4c21bf2..c65cd10 100644
--- a/include/rapidcheck/Shrinkable.hpp
+++ b/include/rapidcheck/Shrinkable.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <atomic>
+#include <utility>
 
 namespace rc {
 
@@ -69,23 +70,17 @@ Shrinkable<T>::Shrinkable(Shrinkable &&other) noexcept : m_impl(other.m_impl) {
 
 template <typename T>
 Shrinkable<T> &Shrinkable<T>::operator=(const Shrinkable &other) noexcept {
-  if (other.m_impl) {
-    other.m_impl->retain();
-  }
-  if (m_impl) {
-    m_impl->release();
-  }
-  m_impl = other.m_impl;
+  // Releasing the old value may destroy other so it has to be done last
+  Shrinkable copy(other);
+  std::swap(m_impl, copy.m_impl);
   return *this;
 }
 
 template <typename T>
 Shrinkable<T> &Shrinkable<T>::operator=(Shrinkable &&other) noexcept {
-  if (m_impl) {
-    m_impl->release();
-  }
-  m_impl = other.m_impl;
-  other.m_impl = nullptr;
+  // Releasing the old value may destroy other so it has to be done last
+  Shrinkable moved(std::move(other));
+  std::swap(m_impl, moved.m_impl);
   return *this;
 }
 
-- 
2.43.0


From 5a38a7e7a0ed3db051f40af1e934baf0a87f6829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:49 +0000
Subject: [PATCH 28/30] fix: restore the format of the stream after printing a
 distribution

Floating point values that were written to the same stream (std::cerr for
rc::check) after a report with a distribution had only two decimals.
---
 src/detail/Results.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/detail/Results.cpp b/src/detail/Results.cpp
index f50e177..af1749c 100644
--- a/src/detail/Results.cpp
+++ b/src/detail/Results.cpp
@@ -100,6 +100,8 @@ void printDistribution(const SuccessResult &result, std::ostream &os) {
       end(entries),
       [](const Entry &p1, const Entry &p2) { return p2.second < p1.second; });
 
+  const auto flags = os.flags();
+  const auto precision = os.precision();
   for (const auto &entry : entries) {
     const auto percent =
         (static_cast<double>(entry.second) / result.numSuccess) * 100.0;
@@ -113,6 +115,8 @@ void printDistribution(const SuccessResult &result, std::ostream &os) {
     }
     os << std::endl;
   }
+  os.flags(flags);
+  os.precision(precision);
 }
 }
 
-- 
2.43.0


From ca40b9e7a60c0a1311e47de6c570b616fbcff4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:47 +0000
Subject: [PATCH 29/30] fix: let the doctest adapter compile (its namespace hid
 doctest's own)

---
 extras/doctest/include/rapidcheck/doctest.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extras/doctest/include/rapidcheck/doctest.h b/extras/doctest/include/rapidcheck/doctest.h
index 65229cd..8e8b1f9 100644
--- a/extras/doctest/include/rapidcheck/doctest.h
+++ b/extras/doctest/include/rapidcheck/doctest.h
@@ -41,6 +41,10 @@ void check(const char*          d,
            bool                 v = false,
            std::source_location s = std::source_location::current())
 {
+  // The macros of doctest refer to the namespace 'doctest', which would otherwise
+  // be taken for this one.
+  namespace doctest = ::doctest;
+
   using namespace rc::detail;
   using namespace doctest::detail;
 
-- 
2.43.0


From 552689ea850793df7a035530c6b2dfc3761ac011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:05 +0000
Subject: [PATCH 30/30] fix: tear fixtures down when a case fails or is
 discarded

---
 include/rapidcheck/detail/ExecFixture.h | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/rapidcheck/detail/ExecFixture.h b/include/rapidcheck/detail/ExecFixture.h
index d188d56..4d414b7 100644
--- a/include/rapidcheck/detail/ExecFixture.h
+++ b/include/rapidcheck/detail/ExecFixture.h
@@ -14,9 +14,24 @@ struct ExecFixture<Fixture, TypeList<Args...>> {
   static void exec(Args &&... args) {
     Fixture fixture;
     fixture.rapidCheck_fixtureSetUp();
-    fixture(std::forward<Args>(args)...);
+    try {
+      fixture(std::forward<Args>(args)...);
+    } catch (...) {
+      // Cases that fail or are discarded do so by throwing.
+      tearDownAfterThrow(fixture);
+      throw;
+    }
     fixture.rapidCheck_fixtureTearDown();
   }
+
+private:
+  static void tearDownAfterThrow(Fixture &fixture) {
+    try {
+      fixture.rapidCheck_fixtureTearDown();
+    } catch (...) {
+      // What the body threw takes precedence.
+    }
+  }
 };
 
 } // namespace detail
-- 
2.43.0

