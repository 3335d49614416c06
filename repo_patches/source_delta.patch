From 5680c077011ab4a8a61a7fca1d552c666b963fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:22 +0000
Subject: [PATCH 1/6] fix: round extracted floats once, to the requested type

ExtractFloat parsed with strtold and narrowed the result, rounding twice:
about 1 in 400k doubles did not survive format and extract (for example
0x1.b51bd26a637d5p+879).
---
 include/lexi/float.hpp | 2 ++
 src/float.cpp          | 8 ++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/lexi/float.hpp b/include/lexi/float.hpp
index caf710e..018d814 100644
--- a/include/lexi/float.hpp
+++ b/include/lexi/float.hpp
@@ -52,6 +52,8 @@ public:
 class ExtractFloat
 {
 protected:
+    float float_;
+    double double_;
     long double data_;
 
 public:
diff --git a/src/float.cpp b/src/float.cpp
index 52f7535..b218482 100644
--- a/src/float.cpp
+++ b/src/float.cpp
@@ -137,6 +137,10 @@ FormatFloat::operator std::string() const
 ExtractFloat::ExtractFloat(const std::string &string)
 {
     // TODO: optimize this.
+    // Parse for each type separately: narrowing a wider result would round
+    // twice, and may miss the nearest value.
+    float_ = std::strtof(string.data(), nullptr);
+    double_ = std::strtod(string.data(), nullptr);
     data_ = std::strtold(string.data(), nullptr);
 }
 
@@ -145,7 +149,7 @@ ExtractFloat::ExtractFloat(const std::string &string)
  */
 ExtractFloat::operator float() const
 {
-    return data_;
+    return float_;
 }
 
 
@@ -153,7 +157,7 @@ ExtractFloat::operator float() const
  */
 ExtractFloat::operator double() const
 {
-    return data_;
+    return double_;
 }
 
 
-- 
2.43.0


From 1ec225f21e0eeed020fae162f9b7d0fb50b6edc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:22 +0000
Subject: [PATCH 2/6] fix: generateDigits read past the end of the power-of-ten
 table

-kappa reaches 16 in the fractional loop, but the table only had ten
entries: the rounding step then used whatever followed it in memory.
---
 src/detail/dtoa.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/detail/dtoa.cpp b/src/detail/dtoa.cpp
index d925785..f05edc9 100644
--- a/src/detail/dtoa.cpp
+++ b/src/detail/dtoa.cpp
@@ -31,7 +31,12 @@ static const char DIGITS[200] = {
     '9', '0', '9', '1', '9', '2', '9', '3', '9', '4', '9', '5', '9', '6', '9', '7', '9', '8', '9', '9'
 };
 static const char *DIGITS_PTR = DIGITS;
-static const uint32_t POWER10[] = {1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000};
+static const uint64_t POWER10[] = {
+    1ULL, 10ULL, 100ULL, 1000ULL, 10000ULL, 100000ULL, 1000000ULL, 10000000ULL, 100000000ULL, 1000000000ULL,
+    10000000000ULL, 100000000000ULL, 1000000000000ULL, 10000000000000ULL, 100000000000000ULL,
+    1000000000000000ULL, 10000000000000000ULL, 100000000000000000ULL, 1000000000000000000ULL,
+    10000000000000000000ULL
+};
 static const uint64_t CACHED_POWERS_F[] = {
     0XFA8FD5A0081C0288ULL,
     0XBAAEE17FA23EBF76ULL,
-- 
2.43.0


From 23dc50828eadd1d2843da9292d9876569ff97138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:22 +0000
Subject: [PATCH 3/6] fix: BigInteger whole-word left shift moved the wrong
 digits

With more than one digit, the move started at the most significant digit:
it dropped the lower digits and read and wrote past the array.
---
 src/detail/bigint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/detail/bigint.cpp b/src/detail/bigint.cpp
index b3cfba8..0917ad5 100644
--- a/src/detail/bigint.cpp
+++ b/src/detail/bigint.cpp
@@ -331,7 +331,7 @@ BigInteger & BigInteger::operator<<=(size_t shift)
     LEXI_ASSERT(count_ + offset <= capacity, "BigInteger::operator<<= would exceeds bounds.");
 
     if (interShift == 0) {
-        memmove(&digits_[count_ - 1 + offset], &digits_[count_ - 1], count_ * sizeof(uint64_t));
+        memmove(&digits_[offset], &digits_[0], count_ * sizeof(uint64_t));
         count_ += offset;
     }
     else {
-- 
2.43.0


From 1ace7a34034691c42470b639534544780b2a6346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:52 +0000
Subject: [PATCH 4/6] fix: BigInteger left shift wrote one digit past the end
 at capacity

The digit holding the bits shifted out of the top was written without
checking that there is room for it, overwriting the digit count.
---
 src/detail/bigint.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/detail/bigint.cpp b/src/detail/bigint.cpp
index 0917ad5..28de26d 100644
--- a/src/detail/bigint.cpp
+++ b/src/detail/bigint.cpp
@@ -335,13 +335,17 @@ BigInteger & BigInteger::operator<<=(size_t shift)
         count_ += offset;
     }
     else {
-        digits_[count_] = 0;
-        for (size_t i = count_; i > 0; i--) {
+        const uint64_t carry = digits_[count_ - 1] >> (INT64_BYTE - interShift);
+        if (carry) {
+            LEXI_ASSERT(count_ + offset < capacity, "BigInteger::operator<<= would exceeds bounds.");
+            digits_[count_ + offset] = carry;
+        }
+        for (size_t i = count_ - 1; i > 0; i--) {
             digits_[i + offset] = (digits_[i] << interShift) | (digits_[i - 1] >> (INT64_BYTE - interShift));
         }
         digits_[offset] = digits_[0] << interShift;
         count_ += offset;
-        if (digits_[count_]) {
+        if (carry) {
             count_++;
         }
     }
-- 
2.43.0


From 37194349b470bc0e37d101acb3c67995d2e82327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:09 +0000
Subject: [PATCH 5/6] fix: BigInteger::difference lost a borrow through an
 all-ones digit

Subtracting an incoming borrow and a digit of all ones wraps back to the
original digit, which was taken for no borrow.
---
 src/detail/bigint.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/detail/bigint.cpp b/src/detail/bigint.cpp
index 28de26d..4d5a3ae 100644
--- a/src/detail/bigint.cpp
+++ b/src/detail/bigint.cpp
@@ -412,11 +412,14 @@ bool BigInteger::difference(const BigInteger &other,
 
     uint64_t borrow = 0;
     for (size_t i = 0; i < a->count_; i++) {
-        uint64_t d = a->digits_[i] - borrow;
+        const uint64_t digit = a->digits_[i];
+        uint64_t d = digit - borrow;
+        borrow = (d > digit) ? 1 : 0;
         if (i < b->count_) {
+            const uint64_t tmp = d;
             d -= b->digits_[i];
+            borrow |= (d > tmp) ? 1 : 0;
         }
-        borrow = (d > a->digits_[i]) ? 1 : 0;
         out->digits_[i] = d;
         if (d != 0) {
             out->count_ = i + 1;
-- 
2.43.0


From fbe57c777f8758ad06342d7155b55c4539ab2f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:10 +0000
Subject: [PATCH 6/6] fix: copied integer and float formatters pointed into the
 original

The default copy kept the first and last pointers of the source object,
so a copy dangled once the source was destroyed or reassigned.
---
 include/lexi/float.hpp |  2 ++
 include/lexi/int.hpp   |  2 ++
 src/float.cpp          | 23 +++++++++++++++++++++++
 src/int.cpp            | 25 +++++++++++++++++++++++++
 4 files changed, 52 insertions(+)

diff --git a/include/lexi/float.hpp b/include/lexi/float.hpp
index 018d814..4a2b128 100644
--- a/include/lexi/float.hpp
+++ b/include/lexi/float.hpp
@@ -31,6 +31,8 @@ public:
     FormatFloat(float value);
     FormatFloat(double value);
     FormatFloat(long double value);
+    FormatFloat(const FormatFloat &other);
+    FormatFloat & operator=(const FormatFloat &other);
 
     // DATA
     size_t size() const;
diff --git a/include/lexi/int.hpp b/include/lexi/int.hpp
index bd6e3ae..afd22ae 100644
--- a/include/lexi/int.hpp
+++ b/include/lexi/int.hpp
@@ -36,6 +36,8 @@ public:
     FormatInt(unsigned long value);
     FormatInt(long long value);
     FormatInt(unsigned long long value);
+    FormatInt(const FormatInt &other);
+    FormatInt & operator=(const FormatInt &other);
 
     // DATA
     size_t size() const;
diff --git a/src/float.cpp b/src/float.cpp
index b218482..7bf2694 100644
--- a/src/float.cpp
+++ b/src/float.cpp
@@ -68,6 +68,29 @@ FormatFloat::FormatFloat(long double value)
 }
 
 
+/** \brief Copy constructor, points into its own buffer.
+ */
+FormatFloat::FormatFloat(const FormatFloat &other):
+    first(buffer_),
+    last(buffer_ + other.size())
+{
+    memcpy(buffer_, other.buffer_, other.size() + 1);
+}
+
+
+/** \brief Copy assignment operator, points into its own buffer.
+ */
+FormatFloat & FormatFloat::operator=(const FormatFloat &other)
+{
+    if (this != &other) {
+        first = buffer_;
+        last = buffer_ + other.size();
+        memcpy(buffer_, other.buffer_, other.size() + 1);
+    }
+    return *this;
+}
+
+
 /** \brief Size of current buffer.
  */
 size_t FormatFloat::size() const
diff --git a/src/int.cpp b/src/int.cpp
index 93884db..b02383d 100644
--- a/src/int.cpp
+++ b/src/int.cpp
@@ -9,6 +9,8 @@
 #include "lexi/detail/architecture.hpp"
 #include "lexi/detail/itoa.hpp"
 
+#include <cstring>
+
 
 namespace lexi
 {
@@ -110,6 +112,29 @@ FormatInt::FormatInt(unsigned long long value)
 }
 
 
+/** \brief Copy constructor, points into its own buffer.
+ */
+FormatInt::FormatInt(const FormatInt &other):
+    first(buffer_),
+    last(buffer_ + other.size())
+{
+    memcpy(buffer_, other.buffer_, other.size() + 1);
+}
+
+
+/** \brief Copy assignment operator, points into its own buffer.
+ */
+FormatInt & FormatInt::operator=(const FormatInt &other)
+{
+    if (this != &other) {
+        first = buffer_;
+        last = buffer_ + other.size();
+        memcpy(buffer_, other.buffer_, other.size() + 1);
+    }
+    return *this;
+}
+
+
 /** \brief Number of characters written to the output buffer.
  */
 size_t FormatInt::size() const
-- 
2.43.0

