From dec891596b4ff900f02b0a852d3f936aa207aedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:07 +0000
Subject: [PATCH 01/76] fix: swap of a built-in integer with itself no longer
 zeroes it

---
 src/estd/utility.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/estd/utility.h b/src/estd/utility.h
index 18090e2..efd4be6 100644
--- a/src/estd/utility.h
+++ b/src/estd/utility.h
@@ -195,6 +195,9 @@ namespace internal {
 template <class T>
 inline void xor_swap(T& a, T& b)
 {
+    // swapping an object with itself would otherwise zero it
+    if(&a == &b) return;
+
     a ^= b;
     b ^= a;
     a ^= b;
-- 
2.43.0


From 4b3c055004ac525bb64aff8943e87c1ab537c2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:07 +0000
Subject: [PATCH 02/76] fix: make_heap on an empty range no longer reads out of
 bounds

---
 src/estd/internal/algorithm/heap.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/estd/internal/algorithm/heap.h b/src/estd/internal/algorithm/heap.h
index 790770a..17763b1 100644
--- a/src/estd/internal/algorithm/heap.h
+++ b/src/estd/internal/algorithm/heap.h
@@ -162,6 +162,9 @@ struct heap
 
     void make()
     {
+        // an empty range is already a heap
+        if(first_ == last_) return;
+
         int last_nonleaf_idx = (size() - 1) / k;
         // FIX: this is not sufficient, because restore_up doesn't evaluate all children
         //while(!restore_up());
-- 
2.43.0


From 2481de09d8f0d438c4d50fb80a05d10b9817d9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:08 +0000
Subject: [PATCH 03/76] fix: to_chars uses the whole buffer, never writes
 before it, and converts the lowest negative value

---
 src/estd/internal/charconv.hpp         | 19 ++++++++++++-------
 src/estd/internal/charconv/reverse.hpp | 12 ++++++------
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/estd/internal/charconv.hpp b/src/estd/internal/charconv.hpp
index 088fcb5..f38312d 100644
--- a/src/estd/internal/charconv.hpp
+++ b/src/estd/internal/charconv.hpp
@@ -51,27 +51,32 @@ inline detail::to_chars_result<CharIt> to_chars_integer_opt(
     static_assert(is_same<typename cbase_type::char_type, char_type>::value, "CharIt must align with cbase");
 #endif
 
-    if(numeric_limits::is_signed && negative) value *= -1;
-
-    while(first != --last)
+    while(first != last)
     {
 // EXPERIMENTAL, not sure if this helps at all
 #if FEATURE_ESTD_TO_CHARS_LIBC_DIV
         using d = div<Int>;
-        const typename d::result v = d::eval(value, base());
-        *last = cbase_type::to_char(v.rem);
+        const typename d::result v = d::eval(value, static_cast<int>(base()));
+        const int digit = static_cast<int>(v.rem);
         value = v.quot;
 #else
         // DEBT: Pretty sure there's a div and mod combined operation, use that
         // i.e. https://riscv.org/wp-content/uploads/2017/05/riscv-spec-v2.2.pdf page 36 section 6.2
-        *last = cbase.to_char(value % base());
-        value /= base();
+        // signed division, since the lowest negative value has no positive counterpart
+        const int digit = static_cast<int>(value % static_cast<int>(base()));
+        value /= static_cast<int>(base());
 #endif
+        *--last = cbase.to_char(negative ? -digit : digit);
 
         if(value == 0)
         {
             if(numeric_limits::is_signed && negative)
+            {
+                // no room left for the sign
+                if(first == last) break;
+
                 *--last = '-';
+            }
 
 #ifdef __cpp_initializer_lists
             return result_type{last, estd::errc(0)};
diff --git a/src/estd/internal/charconv/reverse.hpp b/src/estd/internal/charconv/reverse.hpp
index c3a2711..f3c91c9 100644
--- a/src/estd/internal/charconv/reverse.hpp
+++ b/src/estd/internal/charconv/reverse.hpp
@@ -15,18 +15,18 @@ to_chars_result to_chars_integer_reverse(char* first, char* last, TInt value, co
     typedef cbase<char, b, classic_locale_type> cbase_type;
     typedef typename cbase_type::char_type char_type;
 
-    if(estd::numeric_limits<TInt>::is_signed && value < 0)
-    {
-        *first++ = '-';
-        value *= -1;
-    }
+    const bool negative = estd::numeric_limits<TInt>::is_signed && value < 0;
+
+    if(negative && first != last) *first++ = '-';
 
     char_type* current = first;
 
     while(current != last)
     {
         // DEBT: instance method in case its runtime casing
-        *current = cbase_type().to_char(value % base);
+        // signed division, since the lowest negative value has no positive counterpart
+        const int digit = static_cast<int>(value % base);
+        *current = cbase_type().to_char(negative ? -digit : digit);
         value /= base;
 
         current++;
-- 
2.43.0


From 99d8ddd1766649477550423a5729edee79d77538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:00 +0000
Subject: [PATCH 04/76] fix: from_chars on empty and sign-only input, negative
 text followed by other characters, the lowest value, and overflow in other
 bases

---
 src/estd/internal/charconv/from_chars.hpp | 34 +++++++++++------------
 src/estd/internal/raise_and_add.h         |  3 +-
 2 files changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/estd/internal/charconv/from_chars.hpp b/src/estd/internal/charconv/from_chars.hpp
index 8fb20cd..fe1142a 100644
--- a/src/estd/internal/charconv/from_chars.hpp
+++ b/src/estd/internal/charconv/from_chars.hpp
@@ -24,7 +24,7 @@ detail::from_chars_result<CharIt> from_chars_integer(CharIt first, CharIt last,
 #endif
 
     CharIt current = first;
-    bool negate;
+    bool negate = false;
     // "If no characters match the pattern or if the value obtained by parsing
     // the matched characters is not representable in the type of value, value is unmodified," [1]
     T local_value = 0;
@@ -40,27 +40,40 @@ detail::from_chars_result<CharIt> from_chars_integer(CharIt first, CharIt last,
     while (estd::internal::ascii_isspace(*current))
         current++; */
 
-    if (estd::is_signed<T>::value)
+    if (estd::is_signed<T>::value && current != last)
     {
         negate = *current == '-';
 
         if (negate) ++current;
     }
 
+    // no digits at all, neither an empty range nor a lone sign match the pattern
+    if (current == last || !cbase_type::is_in_base(*current, base))
+    {
+#ifdef FEATURE_CPP_INITIALIZER_LIST
+        return result_type{first, estd::errc::invalid_argument};
+#else
+        return result_type(first, estd::errc::invalid_argument);
+#endif
+    }
+
     while (current != last)
     {
         // DEBT: Use has_value() and friends for clarity here
         const optional_type digit = cbase_type::from_char(*current, base);
         if (digit.has_value())
         {
-            bool success = raise_and_add(local_value, base, digit.value());
+            // accumulate towards the sign we've got, the lowest value has no positive counterpart
+            bool success = negate ?
+                raise_and_sub(local_value, base, digit.value()) :
+                raise_and_add(local_value, base, digit.value());
 
             // If we didn't succeed, that means we overflowed
             if (!success)
             {
                 // skip to either end or next spot which isn't a number
                 // "ptr points at the first character not matching the pattern." [1]
-                while (++current != last && cbase_type::is_in_base(*current)) {}
+                while (++current != last && cbase_type::is_in_base(*current, base)) {}
 
 #ifdef FEATURE_CPP_INITIALIZER_LIST
                 return result_type{current, estd::errc::result_out_of_range};
@@ -69,15 +82,6 @@ detail::from_chars_result<CharIt> from_chars_integer(CharIt first, CharIt last,
 #endif
             }
         }
-        else if(current == first)
-        {
-            return result_type
-#ifdef FEATURE_CPP_INITIALIZER_LIST
-                {current, estd::errc::invalid_argument};
-#else
-            (current, estd::errc::invalid_argument);
-#endif
-        }
         else
         {
             value = local_value;
@@ -90,10 +94,6 @@ detail::from_chars_result<CharIt> from_chars_integer(CharIt first, CharIt last,
         ++current;
     }
 
-    // prepend with constexpr so we can optimize out non-signed flavors
-    if (estd::is_signed<T>::value && negate)
-        local_value = -local_value;
-
     value = local_value;
 #ifdef FEATURE_CPP_INITIALIZER_LIST
     return result_type{last,estd::errc(0)};
diff --git a/src/estd/internal/raise_and_add.h b/src/estd/internal/raise_and_add.h
index f4fb526..726c41d 100644
--- a/src/estd/internal/raise_and_add.h
+++ b/src/estd/internal/raise_and_add.h
@@ -33,8 +33,7 @@ inline raise_and_add(_Tp& __val, const unsigned short __base, unsigned char __c)
 }   */
 
 template<typename T, typename Subtrahend>
-typename estd::enable_if<estd::is_signed<T>::value, bool>::type
-inline raise_and_sub(T& __val, const unsigned short __base, Subtrahend sub)
+bool inline raise_and_sub(T& __val, const unsigned short __base, Subtrahend sub)
 {
     if (__builtin_mul_overflow(__val, __base, &__val)
         || __builtin_sub_overflow(__val, sub, &__val))
-- 
2.43.0


From 54058ce15f399c6c3cfed7c6caf870556e7edb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:40 +0000
Subject: [PATCH 05/76] fix: octal length of 16 and 64 bit integers is 6 and 22
 digits

---
 src/estd/internal/limits/traits.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/estd/internal/limits/traits.h b/src/estd/internal/limits/traits.h
index 4153773..f0d47a1 100644
--- a/src/estd/internal/limits/traits.h
+++ b/src/estd/internal/limits/traits.h
@@ -32,10 +32,9 @@ template <unsigned bits>
 struct uint_strlen<16, bits> :
     estd::integral_constant<unsigned, bits / 4> {};
 
-// DEBT: calculation approximate, higher the bitcount the more wasted space
 template <unsigned bits>
 struct uint_strlen<8, bits> :
-    estd::integral_constant<unsigned, (bits + 1) / 3> {};
+    estd::integral_constant<unsigned, (bits + 2) / 3> {};
 
 // Not the same as boost's version
 template <class T, bool is_signed_>
-- 
2.43.0


From c832ee7d6636af49ef888db0962e81185af2e2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:40 +0000
Subject: [PATCH 06/76] fix: ctype lower case covers a to z, and is() tests
 every requested category

---
 src/estd/internal/locale/ctype.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/estd/internal/locale/ctype.h b/src/estd/internal/locale/ctype.h
index ce77fad..0958491 100644
--- a/src/estd/internal/locale/ctype.h
+++ b/src/estd/internal/locale/ctype.h
@@ -73,7 +73,7 @@ public:
 
     static bool islower(char ch)
     {
-        return 'a' <= ch && ch <= 'a';
+        return 'a' <= ch && ch <= 'z';
     }
 
     typedef char char_type;
@@ -94,7 +94,7 @@ public:
             if(estd::cbase<char, 16, locale_type>::is_in_base(ch))
                 return true;
         }
-        else if(m & digit)
+        if(m & digit)
         {
             if(estd::cbase<char, 10, locale_type>::is_in_base(ch))
                 return true;
@@ -103,10 +103,21 @@ public:
         {
             if(isupper(ch)) return true;
         }
-        else if(m & lower)
+        if(m & lower)
         {
             if(islower(ch)) return true;
         }
+        if(m & alpha)
+        {
+            if(isupper(ch) || islower(ch)) return true;
+        }
+        if(m & punct)
+        {
+            // printable, and neither alphanumeric nor space
+            if('!' <= ch && ch <= '~' &&
+                !estd::cbase<char, 10, locale_type>::is_in_base(ch) &&
+                !isupper(ch) && !islower(ch)) return true;
+        }
         return false;
     }
 };
-- 
2.43.0


From e694c69b99ade97cc6745c67ddf5d31b64103ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:11 +0000
Subject: [PATCH 07/76] fix: array back() returns the last element

---
 src/estd/internal/array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/array.h b/src/estd/internal/array.h
index ac95c54..fe3967f 100644
--- a/src/estd/internal/array.h
+++ b/src/estd/internal/array.h
@@ -151,8 +151,8 @@ struct array : Impl
     reference front() { return *begin(); }
     constexpr const_reference front() const { return *begin(); }
 
-    reference back() { return *base_type::end(); }
-    constexpr const_reference back() const { return *base_type::end(); }
+    reference back() { return *(end() - 1); }
+    constexpr const_reference back() const { return *(end() - 1); }
 
     reference operator[](size_type pos) { return *base_type::get_at(pos); }
     constexpr const_reference operator[](size_type pos) const
-- 
2.43.0


From a91ea1ab07fde046aebd248a603f691ccb74436f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:11 +0000
Subject: [PATCH 08/76] fix: subspan without a count ends at the end of the
 span, first<count>() compiles

---
 src/estd/span.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/span.h b/src/estd/span.h
index 83fe184..a0ee13b 100644
--- a/src/estd/span.h
+++ b/src/estd/span.h
@@ -43,7 +43,7 @@ public:
     template <estd::size_t count>
     constexpr span<T, count> first() const
     {
-        return data_;
+        return span<T, count>(data_);
     }
 
     constexpr span<T> first(size_type count) const
@@ -200,7 +200,7 @@ public:
 
     span<element_type> subspan(size_type offset, size_type count = detail::dynamic_extent())
     {
-        if(count == detail::dynamic_extent::value) count = base_type::size();
+        if(count == detail::dynamic_extent::value) count = base_type::size() - offset;
 
         pointer data = base_type::data();
 
-- 
2.43.0


From d5a89baed27f5d6dcbd5d841ed7836ada9e57b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:25 +0000
Subject: [PATCH 09/76] fix: string searches stay inside the text, count
 elements, and report positions from the start

---
 src/estd/internal/container/starts_with.h |  9 +--
 src/estd/internal/runtime_array.h         | 71 +++++++++++++----------
 2 files changed, 44 insertions(+), 36 deletions(-)

diff --git a/src/estd/internal/container/starts_with.h b/src/estd/internal/container/starts_with.h
index dae9c13..df70176 100644
--- a/src/estd/internal/container/starts_with.h
+++ b/src/estd/internal/container/starts_with.h
@@ -12,17 +12,18 @@ inline ESTD_CPP_CONSTEXPR(14) bool starts_with_n(It1 lhs, It2 rhs, int count_lhs
 {
     // DEBT: Using signed int here is fiddly, since incoming count likely won't be signed
 
-    while(count_lhs-- && count_rhs--)
+    // if rhs is longer than we are, then it's a fail
+    if(count_rhs > count_lhs) return false;
+
+    while(count_rhs--)
         if(*lhs++ != *rhs++)
         {
             return false;
         }
 
-    // if compare_to is longer than we are, then it's also a fail
-    return count_lhs != -1;
+    return true;
 }
 
-
 // Compare two strings, assumes rhs is null terminated
 template <typename It1, typename It2>
 inline ESTD_CPP_CONSTEXPR(14) bool starts_with_n(It1 lhs, It2 rhs, int count)
diff --git a/src/estd/internal/runtime_array.h b/src/estd/internal/runtime_array.h
index a189959..ef22f97 100644
--- a/src/estd/internal/runtime_array.h
+++ b/src/estd/internal/runtime_array.h
@@ -153,6 +153,8 @@ protected:
 
     ESTD_CPP_CONSTEXPR(14) bool starts_with(const_reference ch) const
     {
+        if(size() == 0) return false;
+
         const bool r = *clock(0, 1) == ch;
 
         cunlock();
@@ -170,6 +172,8 @@ protected:
 
     ESTD_CPP_CONSTEXPR(14) bool ends_with(const_reference ch) const
     {
+        if(size() == 0) return false;
+
         const bool r = *clock(size() - 1, 1) == ch;
 
         cunlock();
@@ -398,17 +402,18 @@ public:
     ESTD_CPP_CONSTEXPR(14) size_type find(
         const_pointer s, size_type pos, size_type count, size_type npos) const
     {
-        const_pointer data = clock();
-        const_pointer end = data + size();
+        const size_type sz = size();
+
+        if(pos > sz || count > sz - pos) return npos;
 
-        data += pos;
+        const_pointer data = clock();
 
-        for(const_pointer i = data; i != end; ++i)
+        for(size_type last = sz - count; pos <= last; ++pos)
         {
-            if(memcmp(s, i, count) == 0)
+            if(memcmp(s, data + pos, count * sizeof(value_type)) == 0)
             {
                 cunlock();
-                return i - data;
+                return pos;
             }
         }
 
@@ -428,37 +433,24 @@ public:
         const_pointer s, size_type pos, size_type count, size_type npos) const
     {
         const size_type sz = size();
-        if(pos >= sz) pos = sz - 1;
 
-        unsigned remainder = sz - pos;
+        if(count > sz) return npos;
 
-        // if remaining characters including & after pos wouldn't fit 's'
-        // i.e. "Hello" finding "llo" at pos 4 ("o" = remainder 1, count 3)
-        if(remainder < count)
-        {
-            // Make sure there's enough room to move backwards for a useful
-            // comparison
-            // i.e. "Hello" finding "llo" at pos 4 (can we move back 2 to pos=2 reach a new remainder of 3?)
-            if(pos < count - remainder) return npos;
-
-            // skip over compares that can't succeed where pos is too close
-            // to end
-            // i.e. "Hello" finding "llo" at pos 4 ("o") moves back 2
-            pos -= count - remainder;
-        }
+        // skip over compares that can't succeed where pos is too close to end
+        // i.e. "Hello" finding "llo" at pos 4 ("o") moves back 2
+        if(pos > sz - count) pos = sz - count;
 
         const_pointer data = clock();
-        const_pointer rend = data - 1;
-
-        data += pos;
 
-        for(; data != rend; --pos, --data)
+        for(;; --pos)
         {
-            if(memcmp(s, data, count) == 0)
+            if(memcmp(s, data + pos, count * sizeof(value_type)) == 0)
             {
                 cunlock();
                 return pos;
             }
+
+            if(pos == 0) break;
         }
 
         cunlock();
@@ -469,6 +461,8 @@ public:
     ESTD_CPP_CONSTEXPR(14) size_type find_first_of(
         const_pointer s, size_type pos, size_type count, size_type npos) const
     {
+        if(pos >= size()) return npos;
+
         const_pointer data = clock();
         const_pointer end = data + size();
 
@@ -482,17 +476,30 @@ public:
     ESTD_CPP_CONSTEXPR(14) size_type find_last_of(
         const_pointer s, size_type pos, size_type count, size_type npos) const
     {
-        if(pos == npos) pos = size() - 1;   // DEBT: I think this line should go back up to string
+        const size_type sz = size();
+
+        if(sz == 0) return npos;
+        if(pos >= sz) pos = sz - 1;
 
         const_pointer data = clock();
-        const_pointer rend = data - 1;
 
-        const_pointer found = estd::internal::find_last_of(
-            rend, data + pos, s, s + count);
+        for(const_pointer i = data + pos;; --i)
+        {
+            for(size_type j = 0; j < count; ++j)
+            {
+                if(*i == s[j])
+                {
+                    cunlock();
+                    return i - data;
+                }
+            }
+
+            if(i == data) break;
+        }
 
         cunlock();
 
-        return found == rend ? npos : (found - data);
+        return npos;
     }
 
     template <class Impl2>
-- 
2.43.0


From 8d4a4bedc014f0e1dfb8a473526084f05512dd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:25 +0000
Subject: [PATCH 10/76] fix: empty() of views and constant strings

---
 src/estd/internal/impl/allocated_array.h | 2 ++
 src/estd/internal/impl/dynamic_array.h   | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/impl/allocated_array.h b/src/estd/internal/impl/allocated_array.h
index 53dfcf5..a2b1016 100644
--- a/src/estd/internal/impl/allocated_array.h
+++ b/src/estd/internal/impl/allocated_array.h
@@ -14,6 +14,8 @@ struct allocated_array : estd::handle_descriptor<Allocator>
 
     ESTD_CPP_DEFAULT_CTOR(allocated_array)
     ESTD_CPP_FORWARDING_CTOR(allocated_array)
+
+    constexpr bool empty() const { return base_type::size() == 0; }
 };
 
 
diff --git a/src/estd/internal/impl/dynamic_array.h b/src/estd/internal/impl/dynamic_array.h
index c855988..a55b874 100644
--- a/src/estd/internal/impl/dynamic_array.h
+++ b/src/estd/internal/impl/dynamic_array.h
@@ -226,7 +226,7 @@ public:
 
     ESTD_CPP_CONSTEXPR_RET bool empty(const handle_descriptor& hd) const
     {
-        return hd.size() > 0;
+        return hd.size() == 0;
     }
 
     ESTD_CPP_CONSTEXPR_RET size_type size(const handle_descriptor& hd) const
-- 
2.43.0


From a0289f55e28fe6712a07232b5537ef174ddad9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:25 +0000
Subject: [PATCH 11/76] fix: substr limits the count to the rest of the view

---
 src/estd/string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/string_view.h b/src/estd/string_view.h
index 2ed3669..a5bff94 100644
--- a/src/estd/string_view.h
+++ b/src/estd/string_view.h
@@ -112,7 +112,7 @@ public:
         basic_string_view copy(*this);
 
         copy.remove_prefix(pos);
-        if(count != base_type::npos)
+        if(count < copy.size())
         {
             allocator_type& a = copy.get_allocator();
 
-- 
2.43.0


From 14814b3590361d003363cb31b80063c1a94eebda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:59 +0000
Subject: [PATCH 12/76] fix: const_string buffers over 255 characters lost the
 high byte of their size

---
 src/estd/allocators/fixed.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/allocators/fixed.h b/src/estd/allocators/fixed.h
index bc3e8fd..8222689 100644
--- a/src/estd/allocators/fixed.h
+++ b/src/estd/allocators/fixed.h
@@ -199,7 +199,7 @@ public:
 // NOTE: uninitialized_array is handy to use for TBuffer to avoid value-init of all the elements
 template <
         class T, size_t len, class Buffer = T[len],
-        class Size = typename internal::deduce_fixed_size_t<len>::size_type>
+        class Size = conditional_t<len == 0, size_t, typename internal::deduce_fixed_size_t<len>::size_type>>
 struct single_fixedbuf_allocator : public
         single_allocator_base<T, Buffer, Size>
 {
-- 
2.43.0


From 2cde2d0564ef5a622f2f4786f6cda6ae41854cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:59 +0000
Subject: [PATCH 13/76] fix: vector insert constructed from the pointer, erase
 moved bytes instead of elements

---
 src/estd/internal/dynamic_array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index 0e83625..a09aab3 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -335,7 +335,7 @@ protected:
         // to_insert_pos to to_insert_pos + 1
         copy_assist(data + to_insert_pos, data + sz, data + sz + 1);
 
-        new (data + to_insert_pos) value_type(to_insert_value);
+        new (data + to_insert_pos) value_type(*to_insert_value);
 
         unlock();
     }
@@ -500,7 +500,7 @@ public:
         else
             impl().size(prev_size - count);
 
-        memmove(raw, raw + count, prev_size - (index + count));
+        memmove(raw, raw + count, (prev_size - (index + count)) * sizeof(value_type));
 
         unlock();
     }
-- 
2.43.0


From 5ad7b49d32f7d0968b5ba89e575917f47b4bf77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:59 +0000
Subject: [PATCH 14/76] fix: dynamic array range assign did not compile

---
 src/estd/internal/container/specializer.h | 2 +-
 src/estd/internal/dynamic_array.h         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/container/specializer.h b/src/estd/internal/container/specializer.h
index 75234fd..691dda7 100644
--- a/src/estd/internal/container/specializer.h
+++ b/src/estd/internal/container/specializer.h
@@ -111,7 +111,7 @@ struct dynamic_array_helper<Impl, enable_if_t<
 
     // copies into da from first to last
     template <class InputIt>
-    void copy_from(array& da, unsigned pos, InputIt first, InputIt last)
+    static void copy_from(array& da, unsigned pos, InputIt first, InputIt last)
     {
         pointer raw = da.lock(pos);
 
diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index a09aab3..ce4ae17 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -406,7 +406,7 @@ public:
     {
         ensure_total_size(last - first, 0, true);
 
-        helper::copy(*this, 0, first, last);
+        helper::copy_from(*this, 0, first, last);
     }
 
 //protected:
-- 
2.43.0


From 2022d6dadf5fd9e714a9453be99ea46fb72f7384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:59 +0000
Subject: [PATCH 15/76] fix: dynamic array growth ignored the null terminator
 and wrapped in a small size_type

---
 src/estd/internal/dynamic_array.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index ce4ae17..20dedf8 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -129,8 +129,12 @@ protected:
     // - traditional dynamic memory scenarios (i.e. classic malloc/realloc/free behaviors)
     // - advanced and not yet implemented fragmented locking dynamic memory
 
-    bool ensure_total_capacity(size_type new_size, size_type pad = 0)
+    // new_size is a full size_t so that a sum of sizes never wraps around a smaller size_type
+    bool ensure_total_capacity(size_t new_size, size_type pad = 0)
     {
+        // null termination occupies one element beyond size
+        if(impl_type::uses_termination()) ++new_size;
+
         if(new_size > capacity())
         {
             // TODO: Do an assert here, or return true/false to indicate success
@@ -141,7 +145,7 @@ protected:
     }
 
     // internal method for reassigning size, ensuring capacity is available
-    ESTD_CPP_CONSTEXPR(14) bool ensure_total_size(size_type new_size, size_type pad = 0, bool shrink = false)
+    ESTD_CPP_CONSTEXPR(14) bool ensure_total_size(size_t new_size, size_type pad = 0, bool shrink = false)
     {
         if(ensure_total_capacity(new_size, pad) == false)
             return false;
@@ -166,14 +170,14 @@ protected:
         // above 0 and less than ... something
 
 #if FEATURE_ESTD_DYNAMIC_ARRAY_BOUNDS_CHECK
-        const bool success = ensure_total_capacity(starting_size + increase_by, pad);
+        const bool success = ensure_total_capacity(size_t(starting_size) + increase_by, pad);
 
         if(success)
             return grow_result(starting_size, increase_by);
         else
             return grow_result(unexpect_t(), starting_size, size() - starting_size);
 #else
-        ensure_total_capacity(starting_size + increase_by, pad);
+        ensure_total_capacity(size_t(starting_size) + increase_by, pad);
         return starting_size;
 #endif
     }
@@ -305,7 +309,7 @@ protected:
     {
         const size_type sz = impl().size();
         const size_type input_sz = last - first;
-        if(ensure_total_size(sz + input_sz) == false) return false;
+        if(ensure_total_size(size_t(sz) + input_sz) == false) return false;
 
         pointer data = lock();
 
@@ -327,7 +331,7 @@ protected:
         // NOTE: may not be very efficient (underlying allocator may need to realloc/copy etc.
         // so later consider doing the insert operation at that level)
         const size_type sz = impl().size();
-        ensure_total_size(sz + 1);
+        ensure_total_size(size_t(sz) + 1);
 
         pointer data = lock();
 
-- 
2.43.0


From 939c8bd63fbae57a0f49d4671f677abb07f37075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:59 +0000
Subject: [PATCH 16/76] fix: reserve and shrink_to_fit reallocated buffers that
 are fixed or large enough

---
 src/estd/internal/dynamic_array.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index 20dedf8..aea5225 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -401,6 +401,8 @@ public:
     {
         if(!impl().is_allocated())
             return impl().allocate(new_cap);
+        else if(new_cap <= capacity())
+            return true;
         else
             return impl().reallocate(new_cap);
     }
@@ -713,7 +715,9 @@ public:
 
     void shrink_to_fit()
     {
-        reserve(size());
+        // fixed buffers never change their capacity
+        if(!impl_type::is_always_allocated())
+            impl().reallocate(size() + (impl_type::uses_termination() ? 1 : 0));
     }
 };
 
-- 
2.43.0


From 1a96362aedc66f4d9767e29a7af5fcb2db781494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:16 +0000
Subject: [PATCH 17/76] fix: emplace_back and pop_back did not compile with a
 stateless allocator

---
 src/estd/internal/impl/handle_desc.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/impl/handle_desc.h b/src/estd/internal/impl/handle_desc.h
index a31f7c7..6524052 100644
--- a/src/estd/internal/impl/handle_desc.h
+++ b/src/estd/internal/impl/handle_desc.h
@@ -231,7 +231,7 @@ public:
     template <class ...TArgs>
     void construct(size_type pos, TArgs&&...args)
     {
-        allocator_type& a = base_t::get_allocator();
+        typename base_t::allocator_ref a = base_t::get_allocator();
         allocator_traits::construct(a, &lock(pos, 1), std::forward<TArgs>(args)...);
         unlock();
     }
@@ -239,7 +239,7 @@ public:
 
     void destroy(size_type pos)
     {
-        allocator_type& a = base_t::get_allocator();
+        typename base_t::allocator_ref a = base_t::get_allocator();
         allocator_traits::destroy(a, &lock(pos, 1));
         unlock();
     }
-- 
2.43.0


From be5740be35d56b28d1b72e081a1b84c121d9384d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:19 +0000
Subject: [PATCH 18/76] fix: inserting a vector element into its own vector
 inserted another value

---
 src/estd/internal/dynamic_array.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index aea5225..095c5af 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -331,6 +331,9 @@ protected:
         // NOTE: may not be very efficient (underlying allocator may need to realloc/copy etc.
         // so later consider doing the insert operation at that level)
         const size_type sz = impl().size();
+        // may be one of our own elements, which are about to move
+        value_type value(*to_insert_value);
+
         ensure_total_size(size_t(sz) + 1);
 
         pointer data = lock();
@@ -339,7 +342,7 @@ protected:
         // to_insert_pos to to_insert_pos + 1
         copy_assist(data + to_insert_pos, data + sz, data + sz + 1);
 
-        new (data + to_insert_pos) value_type(*to_insert_value);
+        new (data + to_insert_pos) value_type(value);
 
         unlock();
     }
@@ -610,7 +613,10 @@ public:
 
     append_result push_back(const value_type& value)
     {
-        return append(&value, 1);
+        // may be one of our own elements, which growing can relocate
+        const value_type v(value);
+
+        return append(&v, 1);
     }
 
 #ifdef __cpp_rvalue_references
-- 
2.43.0


From 6293e3cb7594f0f46af9c4ec2f608aee928d1961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:01 +0000
Subject: [PATCH 19/76] fix: lengths of 256 and more wrapped in a small
 size_type when growing or searching

---
 src/estd/internal/container/specializer.h |  2 +-
 src/estd/internal/dynamic_array.h         | 23 ++++++++++++-----------
 src/estd/internal/layer1/string.h         |  2 +-
 src/estd/internal/runtime_array.h         | 10 +++++-----
 src/estd/internal/string.h                | 20 ++++++++++----------
 5 files changed, 29 insertions(+), 28 deletions(-)

diff --git a/src/estd/internal/container/specializer.h b/src/estd/internal/container/specializer.h
index 691dda7..922176b 100644
--- a/src/estd/internal/container/specializer.h
+++ b/src/estd/internal/container/specializer.h
@@ -128,7 +128,7 @@ struct dynamic_array_helper<Impl, enable_if_t<
     static size_type
         append(dynamic_array& a, const allocated_array<Impl2>& copy_from)
     {
-        size_type len = copy_from.size();
+        const size_t len = copy_from.size();
         auto r = a.grow(len);
         const size_type current_size = r.starting_size;
         pointer raw = a.lock(current_size);
diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index 095c5af..5b84e42 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -158,7 +158,7 @@ protected:
     }
 
     // internal method for auto increasing capacity based on pre-set amount
-    grow_result ensure_additional_capacity(size_type increase_by)
+    grow_result ensure_additional_capacity(size_t increase_by)
     {
         // DEBT: fixed allocators IIRC have matching capacity() and max_size()
         // possibly resulting in big and crusty code here
@@ -170,14 +170,14 @@ protected:
         // above 0 and less than ... something
 
 #if FEATURE_ESTD_DYNAMIC_ARRAY_BOUNDS_CHECK
-        const bool success = ensure_total_capacity(size_t(starting_size) + increase_by, pad);
+        const bool success = ensure_total_capacity(starting_size + increase_by, pad);
 
         if(success)
             return grow_result(starting_size, increase_by);
         else
             return grow_result(unexpect_t(), starting_size, size() - starting_size);
 #else
-        ensure_total_capacity(size_t(starting_size) + increase_by, pad);
+        ensure_total_capacity(starting_size + increase_by, pad);
         return starting_size;
 #endif
     }
@@ -187,7 +187,7 @@ protected:
     // (standard version also inserts or removes characters if requested,
     //  this one ONLY replaces the entire buffer)
     // TODO: change to assign
-    void assign(const_pointer buf, size_type len)   // NOLINT
+    void assign(const_pointer buf, size_t len)   // NOLINT
     {
         ensure_total_size(len);
 
@@ -308,8 +308,8 @@ protected:
     bool raw_insert(unsigned to_insert_pos, InputIt first, InputIt last)
     {
         const size_type sz = impl().size();
-        const size_type input_sz = last - first;
-        if(ensure_total_size(size_t(sz) + input_sz) == false) return false;
+        const size_t input_sz = last - first;
+        if(ensure_total_size(sz + input_sz) == false) return false;
 
         pointer data = lock();
 
@@ -387,7 +387,7 @@ public:
 
     constexpr size_type capacity() const { return impl().capacity(); }
 
-    ESTD_CPP_CONSTEXPR(14) bool resize(size_type count)
+    ESTD_CPP_CONSTEXPR(14) bool resize(size_t count)
     {
         return ensure_total_size(count);
     }
@@ -400,7 +400,8 @@ public:
     // we deviate from spec because we don't use exceptions, so a manual check for reserve failure is required
     // return true = successful reserve, false = fail
     // NOTE: This is kind of a lie, because reallocate will call abort() for fixed allocators
-    ESTD_CPP_CONSTEXPR(14) bool reserve(size_type new_cap)
+    // new_cap is a full size_t so that a large request never wraps around a smaller size_type
+    ESTD_CPP_CONSTEXPR(14) bool reserve(size_t new_cap)
     {
         if(!impl().is_allocated())
             return impl().allocate(new_cap);
@@ -428,7 +429,7 @@ public:
     // - classic malloc/realloc/free
     // - not-yet-implemented fragment-adapting locking memory
     /// @returns size before growth
-    grow_result grow(size_type by_amount)
+    grow_result grow(size_t by_amount)
     {
         grow_result r = ensure_additional_capacity(by_amount);
 
@@ -463,7 +464,7 @@ public:
     // somewhat non standard, but considered a real API in estd
     // in theory this might go a little faster than the iterator
     // version
-    append_result append(const value_type* buf, size_type len)
+    append_result append(const value_type* buf, size_t len)
     {
         grow_result r = grow(len);
         const size_type current_size = r.starting_size;
@@ -549,7 +550,7 @@ public:
     append_result append(const experimental::private_array<TImpl2>& source)
     {
         //typedef typename experimental::private_array<TImpl2>::const_iterator iterator;
-        size_type len = source.size();
+        size_t len = source.size();
 
         grow_result r = grow(len);
         const size_type pre_growth_size = r.starting_size;
diff --git a/src/estd/internal/layer1/string.h b/src/estd/internal/layer1/string.h
index d426196..a631079 100644
--- a/src/estd/internal/layer1/string.h
+++ b/src/estd/internal/layer1/string.h
@@ -32,7 +32,7 @@ public:
         base_type::operator =(s);
     }
 
-    basic_string(const_pointer s, size_type count)        // NOLINT
+    basic_string(const_pointer s, size_t count)        // NOLINT
     {
         base_type::assign(s, count);
     }
diff --git a/src/estd/internal/runtime_array.h b/src/estd/internal/runtime_array.h
index ef22f97..813dccc 100644
--- a/src/estd/internal/runtime_array.h
+++ b/src/estd/internal/runtime_array.h
@@ -400,7 +400,7 @@ public:
     /// @param npos value representing 'not found'
     /// @return
     ESTD_CPP_CONSTEXPR(14) size_type find(
-        const_pointer s, size_type pos, size_type count, size_type npos) const
+        const_pointer s, size_type pos, size_t count, size_type npos) const
     {
         const size_type sz = size();
 
@@ -430,7 +430,7 @@ public:
     /// @param npos value representing 'not found'
     /// @return
     ESTD_CPP_CONSTEXPR(14) size_type rfind(
-        const_pointer s, size_type pos, size_type count, size_type npos) const
+        const_pointer s, size_type pos, size_t count, size_type npos) const
     {
         const size_type sz = size();
 
@@ -459,7 +459,7 @@ public:
     }
 
     ESTD_CPP_CONSTEXPR(14) size_type find_first_of(
-        const_pointer s, size_type pos, size_type count, size_type npos) const
+        const_pointer s, size_type pos, size_t count, size_type npos) const
     {
         if(pos >= size()) return npos;
 
@@ -474,7 +474,7 @@ public:
     }
 
     ESTD_CPP_CONSTEXPR(14) size_type find_last_of(
-        const_pointer s, size_type pos, size_type count, size_type npos) const
+        const_pointer s, size_type pos, size_t count, size_type npos) const
     {
         const size_type sz = size();
 
@@ -485,7 +485,7 @@ public:
 
         for(const_pointer i = data + pos;; --i)
         {
-            for(size_type j = 0; j < count; ++j)
+            for(size_t j = 0; j < count; ++j)
             {
                 if(*i == s[j])
                 {
diff --git a/src/estd/internal/string.h b/src/estd/internal/string.h
index 62974c3..eaa5468 100644
--- a/src/estd/internal/string.h
+++ b/src/estd/internal/string.h
@@ -58,7 +58,7 @@ protected:
     ESTD_CPP_FORWARDING_CTOR(basic_string)
 
     template <typename InputIt>
-    int compare(InputIt s, size_type s_size) const
+    int compare(InputIt s, size_t s_size) const
     {
         size_type raw_size = base_type::size();
 
@@ -158,14 +158,14 @@ public:
     }
 
 
-    ESTD_CPP_CONSTEXPR(14) size_type find(const_pointer s, size_type pos, size_type count) const
+    ESTD_CPP_CONSTEXPR(14) size_type find(const_pointer s, size_type pos, size_t count) const
     {
         return base_type::find(s, pos, count, npos);
     }
 
     ESTD_CPP_CONSTEXPR(14) size_type find(const_pointer s, size_type pos = 0) const
     {
-        size_type count = traits_type::length(s);
+        const size_t count = traits_type::length(s);
 
         return find(s, pos, count);
     }
@@ -181,14 +181,14 @@ public:
     }
 
     ESTD_CPP_CONSTEXPR(14) size_type rfind(
-        const_pointer s, size_type pos, size_type count) const
+        const_pointer s, size_type pos, size_t count) const
     {
         return base_type::rfind(s, pos, count, npos);
     }
 
     ESTD_CPP_CONSTEXPR(14) size_type rfind(const_pointer s, size_type pos = npos) const
     {
-        size_type count = traits_type::length(s);
+        const size_t count = traits_type::length(s);
 
         return rfind(s, pos, count);
     }
@@ -204,7 +204,7 @@ public:
     }
 
     ESTD_CPP_CONSTEXPR(14) size_type find_first_of(
-        const_pointer s, size_type pos, size_type count) const
+        const_pointer s, size_type pos, size_t count) const
     {
         return base_type::find_first_of(s, pos, count, npos);
     }
@@ -226,7 +226,7 @@ public:
     }
 
     ESTD_CPP_CONSTEXPR(14) size_type find_last_of(
-        const_pointer s, size_type pos, size_type count) const
+        const_pointer s, size_type pos, size_t count) const
     {
         return base_type::find_last_of(s, pos, count, npos);
     }
@@ -259,7 +259,7 @@ public:
         return {};
     }
 
-    ESTD_CPP_CONSTEXPR(14) basic_string& insert(size_type index, const_pointer s, size_type count)
+    ESTD_CPP_CONSTEXPR(14) basic_string& insert(size_type index, const_pointer s, size_t count)
     {
         assert_mutable();
 
@@ -360,7 +360,7 @@ public:
         return *this;
     }
 
-    basic_string& append(size_type count, value_type c) // NOLINT
+    basic_string& append(size_t count, value_type c) // NOLINT
     {
         // NOTE: Minor optimization opportunity (don't push around size/null term a bunch of times)
         while(count--) *this += c;
@@ -375,7 +375,7 @@ public:
         return *this;
     }
 
-    basic_string& append(const_pointer s, size_type count)  // NOLINT
+    basic_string& append(const_pointer s, size_t count)  // NOLINT
     {
         assert_append(base_type::append(s, count));
         return *this;
-- 
2.43.0


From b085e773d78382ab5a2db219f532278dc1a58961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:01 +0000
Subject: [PATCH 20/76] fix: copying with a count of npos read beyond the end
 of the array

---
 src/estd/internal/container/specializer.h | 8 ++++----
 src/estd/internal/runtime_array.h         | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/estd/internal/container/specializer.h b/src/estd/internal/container/specializer.h
index 922176b..e9203ae 100644
--- a/src/estd/internal/container/specializer.h
+++ b/src/estd/internal/container/specializer.h
@@ -35,7 +35,7 @@ struct dynamic_array_helper<Impl, enable_if_t<
     // copy from us to outside dest/other
     static size_type copy_to(const array& a,
         typename estd::remove_const<value_type>::type* dest,
-        size_type count, size_type pos = 0)
+        size_t count, size_type pos = 0)
     {
         auto src = a.create_iterator(pos);
 
@@ -44,7 +44,7 @@ struct dynamic_array_helper<Impl, enable_if_t<
         // TODO: since we aren't gonna throw an exception, determine what to do if
         // pos > size()
 
-        if(pos + count > a.size())
+        if(count > a.size() - pos)
             count = a.size() - pos;
 
         estd::copy_n(src, count, dest);
@@ -177,14 +177,14 @@ struct dynamic_array_helper<Impl, enable_if_t<
     // copy from us to outside dest/other
     static size_type copy_to(const array& a,
         typename estd::remove_const<value_type>::type* dest,
-        size_type count, size_type pos = 0)
+        size_t count, size_type pos = 0)
     {
         const value_type* src = a.clock(pos, count);
 
         // TODO: since we aren't gonna throw an exception, determine what to do if
         // pos > size()
 
-        if(pos + count > a.size())
+        if(count > a.size() - pos)
             count = a.size() - pos;
 
         // TODO: Do the m_impl.copy_from here
diff --git a/src/estd/internal/runtime_array.h b/src/estd/internal/runtime_array.h
index 813dccc..ae9ce85 100644
--- a/src/estd/internal/runtime_array.h
+++ b/src/estd/internal/runtime_array.h
@@ -369,7 +369,7 @@ public:
     // copy (into dest)
     // officially only for basic_string, but lives happily here in allocated_array
     size_type copy(typename estd::remove_const<value_type>::type* dest,
-                   size_type count, size_type pos = 0) const
+                   size_t count, size_type pos = 0) const
     {
         return helper::copy_to(*this, dest, count, pos);
     }
-- 
2.43.0


From 266d2e664820159c6a30fe779008c4f447a7a3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:42 +0000
Subject: [PATCH 21/76] fix: a moved deque or queue kept using the storage of
 the one it was moved from

---
 src/estd/queue.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/estd/queue.h b/src/estd/queue.h
index 353d0b0..dce06c2 100644
--- a/src/estd/queue.h
+++ b/src/estd/queue.h
@@ -191,9 +191,10 @@ public:
 #ifdef FEATURE_CPP_MOVESEMANTIC
     constexpr deque(deque&& move_from) :
         m_array(std::move(move_from.m_array)),
-        m_front(std::move(move_from.m_front)),
-        m_back(std::move(move_from.m_back)),
-        m_empty(std::move(move_from.m_empty))
+        // positions are relative to our own array, not to the moved from one
+        m_front(m_array.begin() + (move_from.m_front - move_from.m_array.begin())),
+        m_back(m_array.begin() + (move_from.m_back - move_from.m_array.begin())),
+        m_empty(move_from.m_empty)
     {}
 #endif
     
-- 
2.43.0


From 241e13fe9d8675f2fdb8e8e497ced0bf7f3d41d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:42 +0000
Subject: [PATCH 22/76] fix: deque emplace_front overwrote the front element

---
 src/estd/queue.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/estd/queue.h b/src/estd/queue.h
index dce06c2..68e0f4d 100644
--- a/src/estd/queue.h
+++ b/src/estd/queue.h
@@ -380,11 +380,12 @@ public:
     template <class ...TArgs>
     reference emplace_front(TArgs&&...args)
     {
+        decrement(&m_front);
+
         value_type& retval = *m_front;
 
         new (&retval) value_type(std::forward<TArgs>(args)...);
 
-        decrement(&m_front);
         m_empty = false;
 
         return retval;
-- 
2.43.0


From 37da7f6bd911dac86f0ef3ea51d9531131bb7a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:42 +0000
Subject: [PATCH 23/76] fix: push to a full deque and pop from an empty one
 corrupted it and reported success

---
 src/estd/queue.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/estd/queue.h b/src/estd/queue.h
index 68e0f4d..5e9b5fa 100644
--- a/src/estd/queue.h
+++ b/src/estd/queue.h
@@ -269,6 +269,9 @@ public:
 
     bool empty() const { return m_empty; }
 
+    // front and back also meet when empty
+    bool full() const { return !m_empty && m_front == m_back; }
+
     size_type size() const
     {
         if(empty()) return 0;
@@ -284,6 +287,8 @@ public:
 
     bool push_back(const_reference value)
     {
+        if(full()) return false;
+
         *m_back++ = value;
         m_empty = false;
 
@@ -303,6 +308,8 @@ public:
     ///
     bool push_front(const_reference value)
     {
+        if(full()) return false;
+
         // NOTE: doesn't do a before-begin style, but for consistency probably should
         evaluate_rollunder((const_array_iterator*)&m_front);
         m_front--; // due to the non-before-begin approach. confusing
@@ -317,6 +324,8 @@ public:
 
     bool pop_back()
     {
+        if(m_empty) return false;
+
         back().~value_type();
 
         decrement(&m_back);
@@ -328,6 +337,8 @@ public:
 
     bool pop_front()
     {
+        if(m_empty) return false;
+
         front().~value_type();
 
         m_front++;
@@ -408,6 +419,8 @@ public:
 #ifdef FEATURE_CPP_MOVESEMANTIC
     bool push_back(value_type&& value)
     {
+        if(full()) return false;
+
         value_type& back = *m_back++;
 
         new (&back) value_type(std::move(value));
-- 
2.43.0


From 9fc1d7cd804c16ae9f60ed4fde23e5842aaf1bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:42 +0000
Subject: [PATCH 24/76] fix: iterating a full deque visited no element

---
 src/estd/queue.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/estd/queue.h b/src/estd/queue.h
index 5e9b5fa..a67fe1d 100644
--- a/src/estd/queue.h
+++ b/src/estd/queue.h
@@ -216,17 +216,21 @@ public:
     {
         const deque& parent;
         array_iterator current;
+        // front and back are at the same position in a full deque
+        bool at_end;
 
         // DEBT: Do we need a copy constructor here?
 
-        ESTD_CPP_CONSTEXPR_RET forward_iterator(const deque& parent, array_iterator current)
+        ESTD_CPP_CONSTEXPR_RET forward_iterator(const deque& parent, array_iterator current, bool at_end = false)
             : parent(parent),
-              current(current)
+              current(current),
+              at_end(at_end)
         {}
 
         forward_iterator& operator++()
         {
             parent.increment(&current);
+            at_end = current == parent.m_back;
             return *this;
         }
 
@@ -234,6 +238,7 @@ public:
         forward_iterator& operator--()
         {
             parent.decrement(&current);
+            at_end = false;
             return *this;
         }
 
@@ -251,21 +256,21 @@ public:
 
         bool operator==(const forward_iterator& compare_to) const
         {
-            return compare_to.current == current;
+            return compare_to.current == current && compare_to.at_end == at_end;
         }
 
         bool operator!=(const forward_iterator& compare_to) const
         {
-            return compare_to.current != current;
+            return !operator==(compare_to);
         }
     };
 
     typedef forward_iterator iterator;
     typedef const iterator const_iterator;
 
-    iterator begin() { return iterator(*this, m_front); }
+    iterator begin() { return iterator(*this, m_front, m_empty); }
 
-    iterator end() { return iterator(*this, m_back); }
+    iterator end() { return iterator(*this, m_back, true); }
 
     bool empty() const { return m_empty; }
 
-- 
2.43.0


From 9fd85640a03ab7814d0893c6d7db7f8ea350211e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:42 +0000
Subject: [PATCH 25/76] fix: top of a const stack returned a reference to a
 temporary

---
 src/estd/stack.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/stack.h b/src/estd/stack.h
index 9c7f9e8..23d9a0a 100644
--- a/src/estd/stack.h
+++ b/src/estd/stack.h
@@ -35,7 +35,7 @@ public:
     void pop() { c.pop_back(); }
 
     accessor top() { return c.back(); }
-    const accessor& top() const { return c.back(); }
+    const accessor top() const { return c.back(); }
 
     size_type size() const { return c.size(); }
     bool empty() const { return c.empty(); }
-- 
2.43.0


From 20a81102ace2d23b989f8e290ba6b81d187f7eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:47 +0000
Subject: [PATCH 26/76] fix: conversion of a const accessor to its value did
 not compile

---
 src/estd/internal/container/locking_accessor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/container/locking_accessor.h b/src/estd/internal/container/locking_accessor.h
index 7fb1e80..7486d8d 100644
--- a/src/estd/internal/container/locking_accessor.h
+++ b/src/estd/internal/container/locking_accessor.h
@@ -48,7 +48,7 @@ public:
 
     // DEBT: Leaves unlocked!
     operator locked_type() { return lock(); }
-    explicit operator const_locked_type() const { return lock(); }
+    explicit operator const_locked_type() const { return clock(); }
 
     this_type& operator=(const value_type& copy_from)
     {
-- 
2.43.0


From 9de9ef493eaab66cf344afa0f90935dc3c56168d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:54 +0000
Subject: [PATCH 27/76] fix: back of a const deque and decrementing its
 iterator did not compile

---
 src/estd/queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/queue.h b/src/estd/queue.h
index a67fe1d..bf242b4 100644
--- a/src/estd/queue.h
+++ b/src/estd/queue.h
@@ -150,7 +150,7 @@ class deque : protected TPolicy
             --(*i);
     }
 
-    void decrement(array_iterator* i)
+    void decrement(array_iterator* i) const
     {
         decrement((const_array_iterator*)i);
     }
-- 
2.43.0


From 63c0e3d4c726f1f1c51b565959a5b739dd47ff53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:03 +0000
Subject: [PATCH 28/76] fix: top of a const stack over a deque did not compile

---
 src/estd/stack.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/stack.h b/src/estd/stack.h
index 23d9a0a..dd98da9 100644
--- a/src/estd/stack.h
+++ b/src/estd/stack.h
@@ -35,7 +35,7 @@ public:
     void pop() { c.pop_back(); }
 
     accessor top() { return c.back(); }
-    const accessor top() const { return c.back(); }
+    auto top() const -> decltype(c.back()) { return c.back(); }
 
     size_type size() const { return c.size(); }
     bool empty() const { return c.empty(); }
-- 
2.43.0


From 08016e0b3547369c6ac367c007bab2b466ebbb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:19 +0000
Subject: [PATCH 29/76] fix: hash of an empty optional does not read the absent
 value

---
 src/estd/optional.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/estd/optional.h b/src/estd/optional.h
index 6a54c65..ecd33c8 100644
--- a/src/estd/optional.h
+++ b/src/estd/optional.h
@@ -453,6 +453,19 @@ struct hash<optional<T, Base>>
     {
         using underlying = hash<estd::remove_const_t<T>>;
 
+        // There is no value to look at when empty
+        return v.has_value() ? underlying{}(*v) : 0;
+    }
+};
+
+// null value flavor always carries a value, which when empty is the null one
+template <class T, T null_value>
+struct hash<optional<T, internal::layer1::optional_base<T, 0, null_value>>>
+{
+    constexpr size_t operator()(const optional<T, internal::layer1::optional_base<T, 0, null_value>>& v) const
+    {
+        using underlying = hash<estd::remove_const_t<T>>;
+
         return underlying{}(*v);
     }
 };
-- 
2.43.0


From 7985e153af6c50b093f1693b0d4e4bad1d389804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:24 +0000
Subject: [PATCH 30/76] fix: moving an expected moves whichever of value and
 error it holds

---
 src/estd/internal/expected.h        |  7 +++++++
 src/estd/internal/variant/storage.h | 16 ++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/src/estd/internal/expected.h b/src/estd/internal/expected.h
index 66055cd..d136cb2 100644
--- a/src/estd/internal/expected.h
+++ b/src/estd/internal/expected.h
@@ -120,6 +120,13 @@ protected:
     {
     }
 
+#if __cpp_rvalue_references
+    expected(expected&& move_from, bool has_value) :
+        storage(std::move(move_from.storage), has_value ? VALUE : ERROR)
+    {
+    }
+#endif
+
     ESTD_CPP_CONSTEXPR_RET expected() :
         storage(in_place_index_t<0>()) {}
 
diff --git a/src/estd/internal/variant/storage.h b/src/estd/internal/variant/storage.h
index 1fea032..9b62bfe 100644
--- a/src/estd/internal/variant/storage.h
+++ b/src/estd/internal/variant/storage.h
@@ -259,6 +259,18 @@ struct variant_storage_base : variant_storage_tag
         }
     };
 
+    struct moving_constructor_functor
+    {
+        template <size_t I, class T_i>
+        bool operator()(variadic::type<I, T_i>, this_type& v, this_type& move_from, const size_type index)
+        {
+            if(index != I) return false;
+
+            v.template emplace<I>(std::move(*move_from.template get<I>()));
+            return true;
+        }
+    };
+
 
 
 private:
@@ -577,6 +589,10 @@ public:
         //dummy{visit_instance(copying_constructor_functor{}, nullptr, copy_from, index)}
         dummy{visit(copying_constructor_functor{}, nullptr, *this, copy_from, index)}
     {}
+
+    variant_storage_base(variant_storage_base&& move_from, size_type index) :
+        dummy{visit(moving_constructor_functor{}, nullptr, *this, move_from, index)}
+    {}
 };
 
 
-- 
2.43.0


From af58f5e0c5cf720c01900f7ba14e6cfd64719edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:24 +0000
Subject: [PATCH 31/76] fix: value of a const expected and dereferencing an
 rvalue expected did not compile

---
 src/estd/expected.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/estd/expected.h b/src/estd/expected.h
index b0b7fb6..87b3770 100644
--- a/src/estd/expected.h
+++ b/src/estd/expected.h
@@ -71,7 +71,7 @@ class expected : public internal::expected<T, E>
             base_type::destroy_error();
     }
 
-    void assert_has_value()
+    void assert_has_value() const
     {
         if(!has_value_)
 #if __cpp_exceptions
@@ -256,12 +256,12 @@ public:
 #if __cpp_rvalue_references
     nonvoid_value_type&& operator*() &&
     {
-        return base_type::value();
+        return std::move(base_type::value());
     }
 
     const nonvoid_value_type&& operator*() const&&
     {
-        return base_type::value();
+        return std::move(base_type::value());
     }
 #endif
 
-- 
2.43.0


From e7dd59389e10ba41699f76102f93beb3db23d7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:50 +0000
Subject: [PATCH 32/76] fix: assigning a variant to itself does not copy from
 the destroyed alternative

---
 src/estd/internal/variant.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/estd/internal/variant.h b/src/estd/internal/variant.h
index 6e98476..374fd41 100644
--- a/src/estd/internal/variant.h
+++ b/src/estd/internal/variant.h
@@ -310,6 +310,9 @@ public:
     // DEBT: Needs more work, but coming along
     variant& operator=(const variant& rhs)
     {
+        // Alternatives which cannot be assigned are destroyed and constructed again
+        if(this == &rhs) return *this;
+
         if(rhs.valueless_by_exception())
         {
             destroy_if_valid();
@@ -329,6 +332,9 @@ public:
 
     variant& operator=(variant&& rhs)
     {
+        // Alternatives which cannot be assigned are destroyed and constructed again
+        if(this == &rhs) return *this;
+
         if(rhs.valueless_by_exception())
         {
             destroy_if_valid();
-- 
2.43.0


From 1c981407c737b171be31cac893b51be53b268039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:50 +0000
Subject: [PATCH 33/76] fix: emplacing a variant alternative by index selects
 that index when its type is repeated

---
 src/estd/internal/variant.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/variant.h b/src/estd/internal/variant.h
index 374fd41..52ea9f6 100644
--- a/src/estd/internal/variant.h
+++ b/src/estd/internal/variant.h
@@ -371,7 +371,17 @@ public:
     {
         typedef variant_alternative_t<I> T_i;
 
-        return emplace<T_i>(std::forward<TArgs>(args)...);
+        destroy_if_valid();
+
+        // Unset index just in case exception is thrown during construction
+        index_ = variant_npos();
+
+        T_i* const v = base_type::template emplace<T_i>(std::forward<TArgs>(args)...);
+
+        // The type alone does not tell which one when it is repeated
+        index_ = I;
+
+        return *v;
     }
 };
 
-- 
2.43.0


From bc84323b8f419d9ffd8f826a516cc28c987f25c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:31 +0000
Subject: [PATCH 34/76] fix: last day of a month did not compile and took
 September for 31 days

---
 src/estd/internal/chrono/formatter.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/estd/internal/chrono/formatter.hpp b/src/estd/internal/chrono/formatter.hpp
index 8cc5f08..5f45d15 100644
--- a/src/estd/internal/chrono/formatter.hpp
+++ b/src/estd/internal/chrono/formatter.hpp
@@ -91,13 +91,14 @@ public:
     {
         switch(month_.value())
         {
-            case 2: return year_.is_leap() ? day(29) : day(28);
+            case 2: return year_.is_leap() ? chrono::day(29) : chrono::day(28);
 
-            case 4: return day(30);
-            case 6: return day(30);
-            case 11: return day(30);
+            case 4: return chrono::day(30);
+            case 6: return chrono::day(30);
+            case 9: return chrono::day(30);
+            case 11: return chrono::day(30);
 
-            default:    return day(31);
+            default:    return chrono::day(31);
         }
     }
 
-- 
2.43.0


From deb17c58b88d6be868fd3957f15439f544ed633b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:31 +0000
Subject: [PATCH 35/76] fix: leap years which are not a multiple of 400 are
 leap years

---
 src/estd/internal/chrono/units.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/chrono/units.hpp b/src/estd/internal/chrono/units.hpp
index 4ca044b..c171bc2 100644
--- a/src/estd/internal/chrono/units.hpp
+++ b/src/estd/internal/chrono/units.hpp
@@ -76,7 +76,7 @@ public:
     static constexpr year min() NOEXCEPT { return year(-32767); }
     static constexpr year max() NOEXCEPT { return year(32767); }
 
-    constexpr bool is_leap() const NOEXCEPT { return value_ % 400 == 0; }
+    constexpr bool is_leap() const NOEXCEPT { return (value_ % 4 == 0 && value_ % 100 != 0) || value_ % 400 == 0; }
 
     // upper end of 16-bit value can never be out of range
     constexpr bool ok() const NOEXCEPT { return *this >= min(); }
-- 
2.43.0


From 7cf435f175a095cffec9b2710dc2b4cf7aeb8107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:14 +0000
Subject: [PATCH 36/76] fix: seconds of hh_mm_ss beyond 255 minutes

---
 src/estd/internal/chrono/formatter.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/chrono/formatter.hpp b/src/estd/internal/chrono/formatter.hpp
index 5f45d15..5570666 100644
--- a/src/estd/internal/chrono/formatter.hpp
+++ b/src/estd/internal/chrono/formatter.hpp
@@ -184,7 +184,8 @@ public:
     inline seconds_type seconds() const NOEXCEPT
     {
         duration_type a = _abs();
-        auto v = a - minutes_type{a};
+        // minutes_type is too narrow for all the minutes of several hours
+        auto v = a - duration<rep, chrono::minutes::period>{a};
         return seconds_type{v};
     }
 
-- 
2.43.0


From 6651084b5089c25d10fc2744b8148ade06f9d286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:05 +0000
Subject: [PATCH 37/76] fix: writing more than fits into a span stream buffer
 overran the span

---
 src/estd/internal/impl/streambuf/span.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/impl/streambuf/span.h b/src/estd/internal/impl/streambuf/span.h
index 1eee046..3f81324 100644
--- a/src/estd/internal/impl/streambuf/span.h
+++ b/src/estd/internal/impl/streambuf/span.h
@@ -77,7 +77,9 @@ struct out_span_streambuf :
 
     streamsize xsputn(const char_type* s, streamsize count)
     {
-        // TODO: do proper bounds checking here
+        const streamsize remaining = epptr() - pptr();
+        if(count > remaining) count = remaining;
+
         memcpy(pptr(), s, count);
         this->pbump(count);
         return count;
-- 
2.43.0


From a227bdfbc4151f71bd912bd7dc22f4e9bfb34092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:05 +0000
Subject: [PATCH 38/76] fix: reading a span stream buffer of more than 65535
 characters

---
 src/estd/internal/impl/streambuf/span.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/impl/streambuf/span.h b/src/estd/internal/impl/streambuf/span.h
index 3f81324..cb0baec 100644
--- a/src/estd/internal/impl/streambuf/span.h
+++ b/src/estd/internal/impl/streambuf/span.h
@@ -141,13 +141,13 @@ template <class TChar,
         std::size_t Extent = detail::dynamic_extent::value,
         class TBase = estd::experimental::instance_provider<estd::span<TChar, Extent> > >
 struct in_span_streambuf :
-        in_pos_streambuf_base<TCharTraits>,
+        in_pos_streambuf_base<TCharTraits, typename TBase::value_type::size_type>,
 
         streambuf_gptr_tag,
 
         TBase
 {
-    typedef in_pos_streambuf_base<TCharTraits> base_pos_type;
+    typedef in_pos_streambuf_base<TCharTraits, typename TBase::value_type::size_type> base_pos_type;
     typedef TBase base_type;
 
     using typename base_pos_type::traits_type;
-- 
2.43.0


From db028e4310b21a4c7954ff5db6d9ee5a8c14adb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:05 +0000
Subject: [PATCH 39/76] fix: character 0xFF of a const span was taken for the
 end of file

---
 src/estd/internal/impl/streambuf/span.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/impl/streambuf/span.h b/src/estd/internal/impl/streambuf/span.h
index cb0baec..c3fbd8c 100644
--- a/src/estd/internal/impl/streambuf/span.h
+++ b/src/estd/internal/impl/streambuf/span.h
@@ -137,7 +137,7 @@ public:
 // be implemented in a derived class
 // DEBT: Refactor this to take CharTraits directly
 template <class TChar,
-        class TCharTraits =  estd::char_traits<TChar>,
+        class TCharTraits =  estd::char_traits<typename remove_const<TChar>::type>,
         std::size_t Extent = detail::dynamic_extent::value,
         class TBase = estd::experimental::instance_provider<estd::span<TChar, Extent> > >
 struct in_span_streambuf :
-- 
2.43.0


From 8e0bd9d252bbcb86c53192502f1b7aa80d42af80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:05 +0000
Subject: [PATCH 40/76] fix: relative seek of a string stream buffer reported
 failure

---
 src/estd/internal/impl/streambuf/string.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/estd/internal/impl/streambuf/string.h b/src/estd/internal/impl/streambuf/string.h
index 64eef37..38f7204 100644
--- a/src/estd/internal/impl/streambuf/string.h
+++ b/src/estd/internal/impl/streambuf/string.h
@@ -137,7 +137,10 @@ struct basic_stringbuf :
 
             case ios_base::cur:
                 if(which & ios_base::in)
+                {
                     in_base_type::gbump(off);
+                    return pos();
+                }
                 break;
 
             case ios_base::end:
-- 
2.43.0


From c29727348baa7f4ce1b8c28e1d77ff283e58c0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:37 +0000
Subject: [PATCH 41/76] fix: characters 0 and 0xFF were dropped by the buffered
 output stream buffer

---
 src/estd/internal/impl/streambuf/buffer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/impl/streambuf/buffer.h b/src/estd/internal/impl/streambuf/buffer.h
index d88b72e..9ebaa33 100644
--- a/src/estd/internal/impl/streambuf/buffer.h
+++ b/src/estd/internal/impl/streambuf/buffer.h
@@ -70,7 +70,7 @@ protected:
             if(ll_sync() != 0)  return traits_type::eof();
         }
 
-        if(traits_type::not_eof(ch))
+        if(ch != traits_type::eof())
         {
             buf_ += traits_type::to_char_type(ch);
         }
@@ -102,7 +102,7 @@ public:
 
     int_type sputc(char_type ch)
     {
-        return overflow(ch);
+        return overflow(traits_type::to_int_type(ch));
     }
 };
 
-- 
2.43.0


From 01894316a8e0e661726b692e417cd48908398867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:37 +0000
Subject: [PATCH 42/76] fix: buffered output stream buffer reported characters
 it did not take

---
 src/estd/internal/impl/streambuf/buffer.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/impl/streambuf/buffer.h b/src/estd/internal/impl/streambuf/buffer.h
index 9ebaa33..ed17120 100644
--- a/src/estd/internal/impl/streambuf/buffer.h
+++ b/src/estd/internal/impl/streambuf/buffer.h
@@ -84,7 +84,9 @@ protected:
     {
         const estd::streamsize maximum = remaining();
 
-        buf_.append(s, count > maximum ? maximum : count);
+        if(count > maximum) count = maximum;
+
+        buf_.append(s, count);
 
         // wrapper sputn handles this via 'overflow' - a little clumsy though
         //if(full())
-- 
2.43.0


From 3e46ae2bf5efc4e0666667782222be8b226e8a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:47 +0000
Subject: [PATCH 43/76] fix: character 0xFF was lost when writing past a full
 output stream buffer

---
 src/estd/streambuf.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/streambuf.h b/src/estd/streambuf.h
index 1ef327d..169c2c2 100644
--- a/src/estd/streambuf.h
+++ b/src/estd/streambuf.h
@@ -135,7 +135,7 @@ public:
         {
             s += written;
 
-            if(this->overflow(*s) != traits_type::eof())
+            if(this->overflow(traits_type::to_int_type(*s)) != traits_type::eof())
             {
                 // getting here means one more character was placed into put area
                 count -= ++written;
-- 
2.43.0


From 0b022cddf6f6e3b183518c63d5296528b41694dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:38 +0000
Subject: [PATCH 44/76] fix: fill characters from '@' on were not kept

---
 src/estd/internal/ios_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/ios_base.h b/src/estd/internal/ios_base.h
index c670124..b960a2f 100644
--- a/src/estd/internal/ios_base.h
+++ b/src/estd/internal/ios_base.h
@@ -225,7 +225,7 @@ protected:
         positioning alignment : 2;  // DEBT: Unused
 
         // DEBT: Presumes ASCII, 7-bit.  Unicode and friends are out
-        char fillchar : 6;          // + 32 (from ' ' to '`' ASCII)
+        unsigned char fillchar : 6; // + 32 (from ' ' to '`' ASCII)
         //bool showbase : 1;          // DEBT: Unused
 
         ESTD_CPP_CONSTEXPR_RET ostream_internal() :
-- 
2.43.0


From ca35b30a7b02e5290d07aec702960278b65a1ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:38 +0000
Subject: [PATCH 45/76] fix: seekp did not return

---
 src/estd/internal/ostream.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/estd/internal/ostream.h b/src/estd/internal/ostream.h
index fd064cc..7ab3fd4 100644
--- a/src/estd/internal/ostream.h
+++ b/src/estd/internal/ostream.h
@@ -156,6 +156,7 @@ public:
     __ostream_type& seekp(off_type off, ios_base::seekdir dir)
     {
         this->rdbuf()->pubseekoff(off, dir, ios_base::out);
+        return *this;
     }
 
     // When the time comes, these will replace the old virtual ones
-- 
2.43.0


From 13bd0ddeb063d30bd45e26ca49ed6de0266a3c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:38 +0000
Subject: [PATCH 46/76] fix: num_put put nothing when no adjustment is set and
 the field is wider

---
 src/estd/internal/locale/num_put.h | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/estd/internal/locale/num_put.h b/src/estd/internal/locale/num_put.h
index 37ecf0b..ba7369a 100644
--- a/src/estd/internal/locale/num_put.h
+++ b/src/estd/internal/locale/num_put.h
@@ -154,12 +154,7 @@ private:
             width -= result_width;
 
             const ios_base::fmtflags adj = str.flags() & ios_base::adjustfield;
-            if(adj == ios_base::right)
-            {
-                out = fill_n(out, width, fill);
-                return copy(result.ptr, buffer + N, out);
-            }
-            else if(adj == ios_base::left)
+            if(adj == ios_base::left)
             {
                 out = copy(result.ptr, buffer + N, out);
                 return fill_n(out, width, fill);
@@ -167,7 +162,8 @@ private:
             else
             {
                 // DEBT: 'internal' flavor, needs work
-                return out;
+                out = fill_n(out, width, fill);
+                return copy(result.ptr, buffer + N, out);
             }
         }
         else
-- 
2.43.0


From 4a4be89674d1856e003fd7f0db55aaaee53b866d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:38 +0000
Subject: [PATCH 47/76] fix: getline wrote its terminator past the buffer and
 failed on every delimiter

---
 src/estd/internal/istream.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/estd/internal/istream.h b/src/estd/internal/istream.h
index c8d2b42..846e1a3 100644
--- a/src/estd/internal/istream.h
+++ b/src/estd/internal/istream.h
@@ -175,21 +175,31 @@ public:
 
         for (;;)
         {
-            int_type c = stream->sbumpc();
+            int_type c = stream->sgetc();
 
-            if (traits_type::eq(c, traits_type::eof()))
+            if (c == traits_type::eof())
             {
                 this->setstate(base_type::eofbit);
                 break;
             }
 
-            if (!count-- || traits_type::eq(c, delim))
+            const char_type ch = traits_type::to_char_type(c);
+
+            if (traits_type::eq(ch, delim))
+            {
+                stream->sbumpc();
+                break;
+            }
+
+            // leave room for the terminator
+            if (--count <= 0)
             {
                 this->setstate(base_type::failbit);
                 break;
             }
 
-            *s++ = c;
+            stream->sbumpc();
+            *s++ = ch;
 #if FEATURE_ESTD_IOS_GCOUNT
             _gcount++;
 #endif
-- 
2.43.0


From 121553d2e34bad61d9ab7541534732a3094cae12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:38 +0000
Subject: [PATCH 48/76] fix: readsome at end of file read without bounds

---
 src/estd/internal/istream.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/estd/internal/istream.h b/src/estd/internal/istream.h
index 846e1a3..d49fdd8 100644
--- a/src/estd/internal/istream.h
+++ b/src/estd/internal/istream.h
@@ -142,6 +142,9 @@ public:
         // otherwise read all of count
         streamsize m = estd::min(count, rdbuf.in_avail());
 
+        // in_avail yields -1 at end of file
+        if(m < 0) m = 0;
+
 #if FEATURE_ESTD_IOS_GCOUNT
         _gcount = m;
 #endif
-- 
2.43.0


From cac69e21995ce50bc13de5a3aab22ac38e227d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:38 +0000
Subject: [PATCH 49/76] fix: read of fewer characters than asked for did not
 fail

---
 src/estd/internal/istream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/istream.h b/src/estd/internal/istream.h
index d49fdd8..8f565ae 100644
--- a/src/estd/internal/istream.h
+++ b/src/estd/internal/istream.h
@@ -158,7 +158,7 @@ public:
         // all over the place
         if (this->rdbuf()->sgetn(s, n) != n)
             // TODO: Consider setting _gcount here to what *was* returned
-            this->setstate(base_type::eofbit);
+            this->setstate(base_type::failbit | base_type::eofbit);
 
 #if FEATURE_ESTD_IOS_GCOUNT
         _gcount = n;
-- 
2.43.0


From 515dca7f6b8b19c677bb8ab7c988900030451a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:38 +0000
Subject: [PATCH 50/76] fix: extracting character 0 did not store it

---
 src/estd/istream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/istream.h b/src/estd/istream.h
index 007f613..ea5367d 100644
--- a/src/estd/istream.h
+++ b/src/estd/istream.h
@@ -161,7 +161,7 @@ detail::basic_istream<Streambuf, Base>& operator >>(
 
     const typename traits::int_type c = in.get();
 
-    if(traits::not_eof(c))  value = traits::to_char_type(c);
+    if(c != traits::eof())  value = traits::to_char_type(c);
 
     return in;
 }
-- 
2.43.0


From efc0f0112746c58c72a095bf656dba5184516fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:12 +0000
Subject: [PATCH 51/76] fix: a sign without digits was extracted as number 0

---
 src/estd/internal/locale/iterated/num_get.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/locale/iterated/num_get.h b/src/estd/internal/locale/iterated/num_get.h
index 34995e6..76c04f2 100644
--- a/src/estd/internal/locale/iterated/num_get.h
+++ b/src/estd/internal/locale/iterated/num_get.h
@@ -213,7 +213,7 @@ struct num_get
                 // to ensure this hyphen compare is proper
                 if (is_signed<T>() && c == ctype_type::widen('-'))
                 {
-                    state_.state_ = NominalNegative;
+                    state_.state_ = FirstNegative;
                     return false;
                 }
                 else
@@ -234,6 +234,7 @@ struct num_get
                     return false;
 
             case FirstNegative:
+                state_.state_ = NominalNegative;
                 if(nominal<false>(c, err, v))
                 {
                     // "if the conversion function fails std::ios_base::failbit is assigned to err" [1]
-- 
2.43.0


From c7aa2b5c6dba34cf6f45286d0195da14ab115e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:12 +0000
Subject: [PATCH 52/76] fix: digits after the one overflowing a number were
 left, other characters consumed

---
 src/estd/internal/locale/iterated/num_get.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/locale/iterated/num_get.h b/src/estd/internal/locale/iterated/num_get.h
index 76c04f2..a10aea2 100644
--- a/src/estd/internal/locale/iterated/num_get.h
+++ b/src/estd/internal/locale/iterated/num_get.h
@@ -252,7 +252,7 @@ struct num_get
 
             case Overflow:
                 // Merely consumed numbers in this mode
-                return cbase_type::from_char(c).has_value();
+                return !cbase_type::from_char(c).has_value();
 
             // FIX: Just to satisfy compilation
             default:
-- 
2.43.0


From e1f53242c5292879b06f9ac1e052b646ae1693d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:17 +0000
Subject: [PATCH 53/76] fix: extracting a number from nothing or from a sign
 alone did not fail

---
 src/estd/internal/locale/num_get.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/estd/internal/locale/num_get.h b/src/estd/internal/locale/num_get.h
index 3282384..05792a0 100644
--- a/src/estd/internal/locale/num_get.h
+++ b/src/estd/internal/locale/num_get.h
@@ -70,6 +70,9 @@ private:
             }
 
             err |= ios_base::eofbit;
+            // nothing, or a sign alone, is no number
+            if(n.state_.state_ == n.Start || n.state_.state_ == n.FirstNegative)
+                err |= ios_base::failbit;
             n.finalize(v, is_integer());
             return i;
         }
-- 
2.43.0


From bd97c495d14192435d206b4e14d1db86c21e98fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:19 +0000
Subject: [PATCH 54/76] fix: a character which could not be put did not fail
 the stream

---
 src/estd/internal/ostream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/ostream.h b/src/estd/internal/ostream.h
index 7ab3fd4..2c5fa74 100644
--- a/src/estd/internal/ostream.h
+++ b/src/estd/internal/ostream.h
@@ -171,7 +171,7 @@ public:
     __ostream_type& put(char_type ch, bool bypass_sentry = false)
     {
         if (this->rdbuf()->sputc(ch) == estd::char_traits<char_type>::eof())
-            this->setstate(base_type::eofbit);
+            this->setstate(base_type::badbit | base_type::eofbit);
 
         if (!bypass_sentry)
             sentry::destroy(*this);
-- 
2.43.0


From f66857ae3ec53a4949b6939a75b30c8f4cdd8ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:19 +0000
Subject: [PATCH 55/76] fix: numbers were not padded without an adjustment flag

---
 src/estd/internal/ostream/integer.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/ostream/integer.h b/src/estd/internal/ostream/integer.h
index 1316b71..68a581f 100644
--- a/src/estd/internal/ostream/integer.h
+++ b/src/estd/internal/ostream/integer.h
@@ -17,13 +17,15 @@ void write_filled_buffer(
     const streamsize pad = out.width();
     out.width(0);
 
-    if(out.flags() & ios_base::right)   out.fill_n(pad - sz);
+    const bool left = (out.flags() & ios_base::adjustfield) == ios_base::left;
+
+    if(!left)   out.fill_n(pad - sz);
 #endif
 
     out.write(buffer, sz);
 
 #if FEATURE_ESTD_OSTREAM_SETW
-    if(out.flags() & ios_base::left)    out.fill_n(pad - sz);
+    if(left)    out.fill_n(pad - sz);
 #endif
 }
 
-- 
2.43.0


From 6ed9da44888fb53ecc23b82a16a28248b26614bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:52 +0000
Subject: [PATCH 56/76] fix: a bool was put as the character of that code

---
 src/estd/internal/ostream/integer.h |  2 +-
 src/estd/ostream.h                  | 22 ++++++++++++++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/ostream/integer.h b/src/estd/internal/ostream/integer.h
index 68a581f..4c12423 100644
--- a/src/estd/internal/ostream/integer.h
+++ b/src/estd/internal/ostream/integer.h
@@ -10,7 +10,7 @@ namespace internal {
 template <class Streambuf, class Base>
 void write_filled_buffer(
     detail::basic_ostream<Streambuf, Base>& out,
-    typename remove_cvref<Streambuf>::type::char_type* buffer,
+    const typename remove_cvref<Streambuf>::type::char_type* buffer,
     unsigned sz)
 {
 #if FEATURE_ESTD_OSTREAM_SETW
diff --git a/src/estd/ostream.h b/src/estd/ostream.h
index 4f23357..341d3dd 100644
--- a/src/estd/ostream.h
+++ b/src/estd/ostream.h
@@ -55,6 +55,28 @@ typename estd::enable_if<estd::numeric_limits<T>::is_integer, basic_ostream<TStr
     return out_int_helper(out, value);
 }
 
+// exactly bool: nothing is to convert to it
+template <class TStreambuf, class TBase, typename T>
+typename estd::enable_if<estd::is_same<T, bool>::value, basic_ostream<TStreambuf, TBase>&>::type
+    operator<<(basic_ostream<TStreambuf, TBase>& out, T value)
+{
+    typedef typename TBase::char_type char_type;
+
+    if(out.flags() & ios_base::boolalpha)
+    {
+        typedef numpunct<char_type, typename TBase::locale_type> punct;
+        layer2::const_string name = value ? punct::truename() : punct::falsename();
+        internal::write_filled_buffer(out, name.data(), TBase::traits_type::length(name.data()));
+    }
+    else
+    {
+        const char_type digit = value ? '1' : '0';
+        internal::write_filled_buffer(out, &digit, 1);
+    }
+
+    return out;
+}
+
 template <class TStreambuf, class TBase, typename T>
 typename enable_if<is_floating_point<T>::value, basic_ostream<TStreambuf, TBase>&>::type
 operator <<(basic_ostream<TStreambuf, TBase>& out, T)
-- 
2.43.0


From 6c26ed08480425c5bf33db07aa6f86645f093c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:09 +0000
Subject: [PATCH 57/76] fix: adjacent matches were not all removed from a
 forward list

---
 src/estd/forward_list.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/estd/forward_list.h b/src/estd/forward_list.h
index 81ca246..959ad78 100644
--- a/src/estd/forward_list.h
+++ b/src/estd/forward_list.h
@@ -221,10 +221,13 @@ public:
                 else
                     set_next(previous, _next);
 
+                get_traits().deallocate(current);
+
                 if (first_only) return;
             }
+            else
+                previous = current;
 
-            previous = current;
             current = _next;
         }
     }
@@ -261,12 +264,15 @@ public:
                     // then instead of splicing, we are replacing the front node
                     base_t::m_front = _next;
                 else
-                    set_next(previous, next(current));
+                    set_next(previous, _next);
+
+                get_traits().deallocate(current);
 
                 if(first_only) return;
             }
+            else
+                previous = current;
 
-            previous = current;
             current = _next;
         }
 #endif
-- 
2.43.0


From f90a808017a323db4636c25b2fbed72acc9c695e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:09 +0000
Subject: [PATCH 58/76] fix: erase_after did not deallocate the node

---
 src/estd/forward_list.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/estd/forward_list.h b/src/estd/forward_list.h
index 959ad78..ba8d7d3 100644
--- a/src/estd/forward_list.h
+++ b/src/estd/forward_list.h
@@ -161,6 +161,8 @@ public:
 
         set_next(node_to_erase_after, node_following_erased);
 
+        get_traits().deallocate(node_to_erase);
+
         return iterator(node_following_erased, base_t::traits);
     }
 
-- 
2.43.0


From 30e6ae571cfd1362eb4700352fb34105879695e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:09 +0000
Subject: [PATCH 59/76] fix: push_back kept the stale link of the node

---
 src/estd/internal/list_node.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/estd/internal/list_node.h b/src/estd/internal/list_node.h
index ff5d4ba..70eef91 100644
--- a/src/estd/internal/list_node.h
+++ b/src/estd/internal/list_node.h
@@ -378,6 +378,9 @@ protected:
             base_type::m_front = new_back;
         }
 
+        // it is the last now, wherever it used to be linked to
+        base_type::set_next(new_back, base_type::after_end_node());
+
         // set the current 'back' tracker to this new_back
         base_type::m_back = new_back;
     }
-- 
2.43.0


From 446c164e05fe4dad848d60fedaccd2c219973b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:09 +0000
Subject: [PATCH 60/76] fix: popping the last element of a list with back kept
 it as the back

---
 src/estd/internal/list_node.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/estd/internal/list_node.h b/src/estd/internal/list_node.h
index 70eef91..3e30119 100644
--- a/src/estd/internal/list_node.h
+++ b/src/estd/internal/list_node.h
@@ -418,6 +418,15 @@ public:
         set_front(base_type::get_traits().allocate(value));
     }
 
+    void pop_front()
+    {
+        base_type::pop_front();
+
+        // nothing left, so no back either
+        if(base_type::empty())
+            base_type::m_back = base_type::after_end_node();
+    }
+
 };
 
 }
-- 
2.43.0


From ffdff75242975033b6d0ca637435323c1c233d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:38 +0000
Subject: [PATCH 61/76] fix: cref did not compile

---
 src/estd/functional.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/functional.h b/src/estd/functional.h
index dc23f7e..2c265f8 100644
--- a/src/estd/functional.h
+++ b/src/estd/functional.h
@@ -82,9 +82,9 @@ reference_wrapper<T> ref(T& t) NOEXCEPT
 }
 
 template <class T>
-reference_wrapper<T> cref(const T& t) NOEXCEPT
+reference_wrapper<const T> cref(const T& t) NOEXCEPT
 {
-    return reference_wrapper<T>(t);
+    return reference_wrapper<const T>(t);
 }
 
 #if defined (FEATURE_CPP_VARIADIC) && defined (FEATURE_CPP_MOVESEMANTIC)
-- 
2.43.0


From ac0412566cf958595876d59c25630bea46079348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:24 +0000
Subject: [PATCH 62/76] fix: copy of a thisify function referred to its source

---
 src/estd/internal/functional.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/estd/internal/functional.h b/src/estd/internal/functional.h
index 33d274e..9980edb 100644
--- a/src/estd/internal/functional.h
+++ b/src/estd/internal/functional.h
@@ -312,6 +312,13 @@ public:
     {
     }
 
+    // Each refers to its very own m_
+    constexpr thisify_function(const thisify_function& copy_from) :
+        base_type(&m_),
+        m_(copy_from.m_)
+    {
+    }
+
     // UNUSED, and you're probably better off using inline_function
     template <class T, function_type<T> f>
     static thisify_function create(T* foreign_this)
-- 
2.43.0


From 9449f83eae278f127865b445c9ffb4ed69e2a01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:24 +0000
Subject: [PATCH 63/76] fix: copy of an inline function referred to its source

---
 src/estd/functional.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/estd/functional.h b/src/estd/functional.h
index 2c265f8..b1eb337 100644
--- a/src/estd/functional.h
+++ b/src/estd/functional.h
@@ -287,8 +287,15 @@ public:
 
     }
 
+    // Each refers to its very own m
+    inline_function(const inline_function& copy_from) :
+        base_type(&m),
+        m(copy_from.m)
+    {
+
+    }
+
     /*
-    inline_function(const inline_function& copy_from) = default;
     inline_function(inline_function&& move_from) :
         base_type(std::move(move_from)),
         m(std::move(move_from.m))
-- 
2.43.0


From d15d3f9fc38852a45ff0ee738c1d0543a22f4fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:24 +0000
Subject: [PATCH 64/76] fix: function moved from the lvalue functor it was
 given

---
 src/estd/functional.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/estd/functional.h b/src/estd/functional.h
index b1eb337..9a5c1ef 100644
--- a/src/estd/functional.h
+++ b/src/estd/functional.h
@@ -179,7 +179,7 @@ public:
         typedef typename base_type::template model<incoming_function_type> model_type;
         //allocator_traits::rebind_alloc<model_type>
         // FIX: Don't want to dynamically allocate memory quite this way
-        auto m = new model_type(std::move(t));
+        auto m = new model_type(incoming_function_type(std::forward<T>(t)));
         base_type::m = m;
     }
 
@@ -190,7 +190,7 @@ public:
     {
         typedef typename estd::decay<T>::type incoming_function_type;
         typedef typename base_type::template model<incoming_function_type> model_type;
-        auto m = new model_type(std::forward<T>(t));
+        auto m = new model_type(incoming_function_type(std::forward<T>(t)));
         base_type::m = m;
     }
 
@@ -230,8 +230,9 @@ public:
     template <typename F>
     function& operator=(F&& f)
     {
+        function temp(std::forward<F>(f));
         reset();
-        new (this) function(std::move(f));
+        new (this) function(std::move(temp));
         return *this;
     }
 
-- 
2.43.0


From 15c6fa8f8cdcafd0797ab5310e73363adb562ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:45 +0000
Subject: [PATCH 65/76] fix: copies of a function deleted its functor twice

---
 src/estd/functional.h | 49 ++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 44 insertions(+), 5 deletions(-)

diff --git a/src/estd/functional.h b/src/estd/functional.h
index 9a5c1ef..0d5bbea 100644
--- a/src/estd/functional.h
+++ b/src/estd/functional.h
@@ -146,8 +146,33 @@ private:
         delete (model_type*) c;
     }
 
+    typedef model_base* (*cloner_type)(const model_base*);
+
+    // functor which cannot be copied: a copy of its function is empty
+    template <class Model>
+    static model_base* clone(const Model*, ...) { return nullptr; }
+
+    template <class Model, class F>
+    static auto clone(const Model* c, F*) -> decltype(F(c->f), (model_base*) nullptr)
+    {
+        return new Model(F(c->f));
+    }
+
+    template <class F>
+    static model_base* cloner(const model_base* c)
+    {
+        typedef typename estd::decay_t<F> incoming_function_type;
+        typedef typename base_type::template model<incoming_function_type> model_type;
+
+        return c == nullptr ? nullptr : clone((const model_type*) c, (incoming_function_type*) nullptr);
+    }
+
+    template <class F>
+    using enable_functor = estd::enable_if_t<!estd::is_same<estd::decay_t<F>, function>::value, bool>;
+
     // Jumping through some hoops to avoid overhead of a virtual destructor.  On a plus note
     const deleter_type _deleter;
+    const cloner_type _cloner;
 
     void reset()
     {
@@ -170,10 +195,11 @@ public:
         estd::enable_if_t<!estd::is_base_of<function_base_tag,
             estd::remove_cv_t<T>
             >::value, bool> = true> */
-    template <typename T>
+    template <typename T, enable_functor<T> = true>
     function(T&& t) :
         allocator_provider_type(TAllocator()),
-        _deleter{deleter<T>}
+        _deleter{deleter<T>},
+        _cloner{cloner<T>}
     {
         typedef typename estd::decay<T>::type incoming_function_type;
         typedef typename base_type::template model<incoming_function_type> model_type;
@@ -186,7 +212,8 @@ public:
     template <typename T>
     function(T&& t, TAllocator& allocator) :
         allocator_provider_type(allocator),
-        _deleter{deleter<T>}
+        _deleter{deleter<T>},
+        _cloner{cloner<T>}
     {
         typedef typename estd::decay<T>::type incoming_function_type;
         typedef typename base_type::template model<incoming_function_type> model_type;
@@ -209,13 +236,20 @@ public:
         auto h = allocator_traits::allocate(alloc, sizeof(model_type));
     } */
 
-    function(const function& other) = default;
+    function(const function& other) :
+        allocator_provider_type(other),
+        _deleter{other._deleter},
+        _cloner{other._cloner}
+    {
+        base_type::m = _cloner(other.getm());
+    }
 
 #ifdef FEATURE_CPP_MOVESEMANTIC
     // FIX: SFINAE remove this when nullable == false
     function(function&& other) NOEXCEPT :
         allocator_provider_type(std::move(other)),
-        _deleter{other._deleter}
+        _deleter{other._deleter},
+        _cloner{other._cloner}
     {
         base_type::m = other.getm();
         other.clear();
@@ -227,6 +261,11 @@ public:
         reset();
     }
 
+    function& operator=(const function& other)
+    {
+        return *this = function(other);
+    }
+
     template <typename F>
     function& operator=(F&& f)
     {
-- 
2.43.0


From b86fd11728fd2506e61bfb8c4c6c28a921c65daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:10 +0000
Subject: [PATCH 66/76] fix: invoke of a functor was ambiguous

---
 src/estd/internal/invoke.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/estd/internal/invoke.h b/src/estd/internal/invoke.h
index 13b196f..e57a1a7 100644
--- a/src/estd/internal/invoke.h
+++ b/src/estd/internal/invoke.h
@@ -16,7 +16,7 @@ template <class T>
 constexpr bool is_reference_wrapper_v = is_reference_wrapper<T>::value;
 
 template <class T, class Type, class T1, class... Args>
-decltype(auto) INVOKE(Type T::* f, T1&& t1, Args&&... args)
+decltype(auto) do_invoke(Type T::* f, T1&& t1, Args&&... args)
 {
     if constexpr (std::is_member_function_pointer_v<decltype(f)>) {
         if constexpr (estd::is_base_of_v<T, std::decay_t<T1>>)
@@ -38,7 +38,7 @@ decltype(auto) INVOKE(Type T::* f, T1&& t1, Args&&... args)
 }
 
 template <class F, class... Args>
-decltype(auto) INVOKE(F&& f, Args&&... args)
+decltype(auto) do_invoke(F&& f, Args&&... args)
 {
       return std::forward<F>(f)(std::forward<Args>(args)...);
 }
@@ -49,7 +49,7 @@ template< class F, class... Args>
 estd::invoke_result_t<F, Args...> invoke(F&& f, Args&&... args)
   noexcept(std::is_nothrow_invocable_v<F, Args...>)
 {
-    return detail::INVOKE(std::forward<F>(f), std::forward<Args>(args)...);
+    return detail::do_invoke(std::forward<F>(f), std::forward<Args>(args)...);
 }
 
 
-- 
2.43.0


From 398fb26b40b8e1dbeba2cf5943b7d5ffe65c1074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:21 +0000
Subject: [PATCH 67/76] fix: unordered containers read beyond their slots

---
 src/estd/internal/container/unordered/base.h | 6 +++---
 src/estd/internal/container/unordered_map.h  | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/estd/internal/container/unordered/base.h b/src/estd/internal/container/unordered/base.h
index 9be2a91..be97ac8 100644
--- a/src/estd/internal/container/unordered/base.h
+++ b/src/estd/internal/container/unordered/base.h
@@ -93,7 +93,7 @@ protected:
     template <class It, class It2>
     static ESTD_CPP_CONSTEXPR(14) It skip_empty(It it, It2 end)
     {
-        for(; traits::is_empty(*it) && it != end; ++it)   {}
+        for(; it != end && traits::is_empty(*it); ++it)   {}
 
         return it;
     }
@@ -107,7 +107,7 @@ protected:
     template <class Control>
     ESTD_CPP_CONSTEXPR(14) Control skip_sparse(Control p, unsigned n) const
     {
-        for(; traits::is_sparse(*p, n) && p != container_.cend(); ++p)    {}
+        for(; p != container_.cend() && traits::is_sparse(*p, n); ++p)    {}
 
         return p;
     }
@@ -389,7 +389,7 @@ protected:
 
             // skip over any sparse entries belonging to this bucket.  They are invisible
             // null entries for this iterator
-            for(; traits::is_sparse(*it_, n_) && it_ != parent_->container_.cend(); ++it_)   {}
+            for(; it_ != parent_->container_.cend() && traits::is_sparse(*it_, n_); ++it_)   {}
 
             return *this;
         }
diff --git a/src/estd/internal/container/unordered_map.h b/src/estd/internal/container/unordered_map.h
index a9bda66..56b108c 100644
--- a/src/estd/internal/container/unordered_map.h
+++ b/src/estd/internal/container/unordered_map.h
@@ -151,7 +151,7 @@ public:
     {
         --start;
 
-        for(; is_sparse(*pos, n) && pos != start; --pos)
+        for(; pos != start && is_sparse(*pos, n); --pos)
             gc_sparse_ll(pos);
     }
 
@@ -164,7 +164,7 @@ public:
 
         // get to end of identified bucket, skipping past sparse and active bucket items
         // DEBT: Be careful of index(0)
-        for(;(is_sparse(*pos, n) || index(pos->first) == n) && pos != container_.cend(); ++pos)
+        for(; pos != container_.cend() && (is_sparse(*pos, n) || index(pos->first) == n); ++pos)
         {
         }
 
-- 
2.43.0


From 9834b64dbd5561de04aa9555b4e64bb33e4ce472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:21 +0000
Subject: [PATCH 68/76] fix: elements after an erased one were lost in buckets
 from 64 on

---
 src/estd/internal/container/unordered/traits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/container/unordered/traits.h b/src/estd/internal/container/unordered/traits.h
index 7603817..322da7f 100644
--- a/src/estd/internal/container/unordered/traits.h
+++ b/src/estd/internal/container/unordered/traits.h
@@ -89,7 +89,7 @@ struct unordered_map_traits_control
             // aka "sparse" - exists specifically to mark as deleted, but physically unmoved
             uint16_t marked_for_gc : 1;
             // which bucket this empty slot *used to* belong to
-            uint16_t bucket : 6;
+            uint16_t bucket : 15;
         };
 
         uint16_t raw;
-- 
2.43.0


From 6940c7087862342ba3c7f064fe7a42866cb569f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:21 +0000
Subject: [PATCH 69/76] fix: slots never used were taken for erased ones

---
 src/estd/internal/container/unordered/traits.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/estd/internal/container/unordered/traits.h b/src/estd/internal/container/unordered/traits.h
index 322da7f..c7d3071 100644
--- a/src/estd/internal/container/unordered/traits.h
+++ b/src/estd/internal/container/unordered/traits.h
@@ -181,6 +181,8 @@ struct unordered_map_traits :
     static ESTD_CPP_CONSTEXPR(14) void set_null(control_type* v)
     {
         nullable{}.set(&v->first);
+        // never used and reused slots alike are not sparse
+        v->second.raw = 0;
     }
 
 private:
-- 
2.43.0


From a47d654b10c1e88206b685ca6d4016bc2eceb6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:21 +0000
Subject: [PATCH 70/76] fix: insert after an erase duplicated keys and cut off
 other buckets

---
 src/estd/internal/container/unordered/base.h  | 28 +++++++++++++++----
 .../internal/container/unordered/traits.h     |  6 ++++
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/estd/internal/container/unordered/base.h b/src/estd/internal/container/unordered/base.h
index be97ac8..1d5d79f 100644
--- a/src/estd/internal/container/unordered/base.h
+++ b/src/estd/internal/container/unordered/base.h
@@ -216,15 +216,33 @@ protected:
         // linear probing
 
         control_pointer it = &container_[n];
+        // first sparse spot of this bucket, if any
+        control_pointer sparse = nullptr;
 
-        // Move over occupied spots.  Sparse does NOT count as occupied
+        // Move over occupied spots.  Sparse does NOT count as occupied, but only this
+        // bucket may reuse it, and the key may still follow it
         // DEBT: optimize is_null/is_sparse together
-        for(;traits::is_empty(*it) == false; ++it)
+        for(;; ++it)
         {
-            // if we get to the complete end, that's a fail
+            // if we get to the complete end, that's a fail unless there was a sparse spot
+            if(it == container_.cend())   return { sparse, sparse != nullptr };
+
+            if(traits::is_sparse(*it, n))
+            {
+                if(sparse == nullptr)   sparse = it;
+                continue;
+            }
+
+            if(traits::is_empty(*it))
+            {
+                if(sparse != nullptr)   return { sparse, true };
+                if(traits::is_sparse(*it))    return { nullptr, false };
+                break;
+            }
+
             // if we've moved to the next bucket, that's also a fail
-            if(it == container_.cend() || index(base_type::key(*it)) != n)
-                return { nullptr, false };
+            if(index(base_type::key(*it)) != n)
+                return { sparse, sparse != nullptr };
             else if(!permit_duplicates)
             {
                 if(key_eq_c(key, *it))
diff --git a/src/estd/internal/container/unordered/traits.h b/src/estd/internal/container/unordered/traits.h
index c7d3071..e364a85 100644
--- a/src/estd/internal/container/unordered/traits.h
+++ b/src/estd/internal/container/unordered/traits.h
@@ -163,6 +163,12 @@ struct unordered_map_traits :
             v.second.bucket == n;
     }
 
+    /// Determines if this ref is sparse, whatever the bucket
+    static constexpr bool is_sparse(const control_type& v)
+    {
+        return is_empty(v) && v.second.marked_for_gc;
+    }
+
     template <class K, class T2>
     static constexpr const Key& key(const pair<K, T2>& v) { return v.first; }
 
-- 
2.43.0


From 10111de1e20a7c78a183244ff3de82a10c4847c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:21 +0000
Subject: [PATCH 71/76] fix: clear of an unordered map destroyed its empty
 slots

---
 src/estd/internal/container/unordered_map.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/container/unordered_map.h b/src/estd/internal/container/unordered_map.h
index 56b108c..614fef1 100644
--- a/src/estd/internal/container/unordered_map.h
+++ b/src/estd/internal/container/unordered_map.h
@@ -181,7 +181,11 @@ public:
 
     ESTD_CPP_CONSTEXPR(14) void clear()
     {
-        for(control_type& v : container_)   destruct(&v);
+        for(control_type& v : container_)
+        {
+            if(is_empty(v))     base_type::set_null(&v);
+            else                destruct(&v);
+        }
     }
 
     mapped_type& operator[](const key_type& key)
-- 
2.43.0


From 223531f91a68cc3b74bfdba7e1f63f9fca54394b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:21 +0000
Subject: [PATCH 72/76] fix: erasing from the middle of a bucket lost the
 elements after it

---
 src/estd/internal/container/unordered/base.h | 30 ++++++++++----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/estd/internal/container/unordered/base.h b/src/estd/internal/container/unordered/base.h
index 1d5d79f..c57d2f1 100644
--- a/src/estd/internal/container/unordered/base.h
+++ b/src/estd/internal/container/unordered/base.h
@@ -466,25 +466,25 @@ protected:
     // deviates from std in that other iterators part of this bucket could be invalidated
     void erase_and_gc_ll(control_pointer pos)
     {
-        auto start = pos;
+        const auto start = pos;
+        auto last = pos;
+        const size_type n = index(traits::key(*pos));
 
-        destruct(pos);
-
-        ++pos;
+        // Find last one in bucket, skipping over its sparse ones
+        for(++pos; pos != container_.cend(); ++pos)
+        {
+            if(traits::is_sparse(*pos, n)) continue;
+            if(traits::is_empty(*pos) || index(traits::key(*pos)) != n) break;
+            last = pos;
+        }
 
-        // No housekeeping if next guy is null (sparse is OK, but
-        // not yet accounted for here)
-        if (base_type::is_empty(*pos))
-            return;
+        if(last != start)   traits::swap(*last, *start);
 
-        // Quick-deduce our bucket#
-        size_type n = start - container_.cbegin();
-        // Find last one in bucket
-        for(;n == index(traits::key(*pos)) && pos < container_.cend(); ++pos) {}
-        // Decrement to position on actual last one in bucket
-        --pos;
+        destruct(last);
 
-        traits::swap(*pos, *start);
+        // Sparse ones past the new end of bucket are no longer needed
+        for(pos = last + 1; pos != container_.cend() && traits::is_sparse(*pos, n); ++pos)
+            base_type::set_null(pos);
     }
 
 public:
-- 
2.43.0


From 3a8ed7b49f8ceb2a73c1ce0855f697361882c281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:21 +0000
Subject: [PATCH 73/76] fix: insert_or_assign constructed over the element and
 reported an insertion

---
 src/estd/internal/container/unordered_map.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/estd/internal/container/unordered_map.h b/src/estd/internal/container/unordered_map.h
index 614fef1..3cf0235 100644
--- a/src/estd/internal/container/unordered_map.h
+++ b/src/estd/internal/container/unordered_map.h
@@ -285,9 +285,8 @@ public:
         if(found.second != npos())
         {
             control_pointer cp = found.first;
-            mapped_type& p = cp->second.mapped();
-            new (&p) mapped_type(std::forward<M>(obj));
-            return { { this, cast(cp) }, true };
+            cp->second.mapped() = std::forward<M>(obj);
+            return { { this, cast(cp) }, false };
         }
         else
         {
-- 
2.43.0


From 2a776e50aa30e49a5f06ab6df643e8b571c73ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:50 +0000
Subject: [PATCH 74/76] fix: tuple visit returned whether the index was other
 than 0

visit yields the index of the element the functor stopped at, or -1. Cut down to
a bool, stopping at the first element read as false and at none as true.
---
 src/estd/internal/tuple.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/estd/internal/tuple.h b/src/estd/internal/tuple.h
index 204b43a..33bac9b 100644
--- a/src/estd/internal/tuple.h
+++ b/src/estd/internal/tuple.h
@@ -24,7 +24,7 @@ class tuple<sparse>
 public:
     //static CONSTEXPR int index = 0;
     template <class F, class ...Args>
-    constexpr bool visit(F&&, Args&&...) const { return {}; }
+    constexpr int visit(F&&, Args&&...) const { return -1; }
 };
 
 
@@ -64,14 +64,14 @@ public:
 
     // EXPERIMENTAL, though I think I'm wanting to keep it
     template <class F, class ...Args2>
-    bool visit(F&& f, Args2&&...args)
+    int visit(F&& f, Args2&&...args)
     {
         return types::visitor::visit(internal::visit_tuple_functor{}, *this, f,
             std::forward<Args2>(args)...);
     }
 
     template <class F, class ...Args2>
-    constexpr bool visit(F&& f, Args2&&...args) const
+    constexpr int visit(F&& f, Args2&&...args) const
     {
         return types::visitor::visit(internal::visit_tuple_functor{}, *this, f,
             std::forward<Args2>(args)...);
-- 
2.43.0


From fee468e43d04cd3132c2bc211347f928514f7ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:07 +0000
Subject: [PATCH 75/76] fix: value visitors did not compile as C++17

visitor_value is an aggregate there and its in_place_index_t base cannot be
copy-initialised from {}. Same constructor as visitor_index.
---
 src/estd/internal/variadic/visitor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/variadic/visitor.h b/src/estd/internal/variadic/visitor.h
index c24342f..e57cb9f 100644
--- a/src/estd/internal/variadic/visitor.h
+++ b/src/estd/internal/variadic/visitor.h
@@ -172,7 +172,7 @@ struct visitor_value :
     internal::visitor_index<I>,
     integral_constant<T, v>
 {
-
+    constexpr visitor_value() : internal::visitor_index<I>()    {}
 };
 
 template <size_t I, class T>
-- 
2.43.0


From 5bf956558e3d0b645f2c78fd0249a67174de3e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:07 +0000
Subject: [PATCH 76/76] fix: apply of a const tuple did not compile

tuple_size was not defined for it.
---
 src/estd/tuple.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/estd/tuple.h b/src/estd/tuple.h
index 035990d..1f68fd7 100644
--- a/src/estd/tuple.h
+++ b/src/estd/tuple.h
@@ -64,6 +64,11 @@ struct tuple_size<estd::tuple<TArgs...> >
 {
 };
 
+template <class ...TArgs>
+struct tuple_size<const estd::tuple<TArgs...> > : tuple_size<estd::tuple<TArgs...> >
+{
+};
+
 #endif
 
 
-- 
2.43.0

