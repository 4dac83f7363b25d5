From c2137dc718fedf45f2249567e18ef16bddd3c97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:12 +0000
Subject: [PATCH 01/26] fix: SIMD string scanners ignored an escape pending
 from the previous buffer

findStringEndSIMD/NEON/AVX2 received is_escaped but never consumed the escaped
first character, so a string split right after a backslash ended at an escaped
quote when at least one vector of data followed.
---
 include/json_struct/json_struct.h | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 9bcf75c..befca8a 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -448,6 +448,13 @@ inline size_t findStringEndSIMD(const char *JSON_STRUCT_RESTRICT data, size_t le
   const __m128i quote = _mm_set1_epi8('"');
   const __m128i backslash = _mm_set1_epi8('\\');
 
+  // An escape left pending by the previous buffer consumes the first character
+  if (is_escaped && current < end)
+  {
+    is_escaped = false;
+    current++;
+  }
+
   while (current + 16 <= end)
   {
     __m128i chunk = _mm_loadu_si128(reinterpret_cast<const __m128i *>(current));
@@ -537,6 +544,13 @@ inline size_t findStringEndNEON(const char *JSON_STRUCT_RESTRICT data, size_t le
   const uint8x16_t quote = vdupq_n_u8('"');
   const uint8x16_t backslash = vdupq_n_u8('\\');
 
+  // An escape left pending by the previous buffer consumes the first character
+  if (is_escaped && current < end)
+  {
+    is_escaped = false;
+    current++;
+  }
+
   while (current + 16 <= end)
   {
     uint8x16_t chunk = vld1q_u8(reinterpret_cast<const uint8_t *>(current));
@@ -1143,6 +1157,13 @@ inline size_t findStringEndAVX2(const char *JSON_STRUCT_RESTRICT data, size_t le
   const __m256i quote = _mm256_set1_epi8('"');
   const __m256i backslash = _mm256_set1_epi8('\\');
 
+  // An escape left pending by the previous buffer consumes the first character
+  if (is_escaped && current < end)
+  {
+    is_escaped = false;
+    current++;
+  }
+
   while (current + 32 <= end)
   {
     __m256i chunk = _mm256_loadu_si256(reinterpret_cast<const __m256i *>(current));
-- 
2.43.0


From a1a089f235bcf25602fc61fde52d77af7b977528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:07 +0000
Subject: [PATCH 02/26] fix: a buffer ending right after a complete name or
 array element lost it

populateNextTokenFromDataRef kept a completed name only in a local token; when
the buffer ended before the delimiter (or before the value started) the name, or
the anonymous array element, was dropped and the next buffer produced an empty
one. Keep it in the intermediate token and pick it up when the delimiter is found.
---
 include/json_struct/json_struct.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index befca8a..9f82c71 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2739,6 +2739,13 @@ inline Error Tokenizer::populateNextTokenFromDataRef(Token &next_token, const Da
       cursor_index += diff;
       resetForNewValue();
       expecting_prop_or_anonymous_data = false;
+      if (intermediate_token.active)
+      {
+        // the name was completed in an earlier buffer
+        tmp_token.name = DataRef(intermediate_token.name);
+        tmp_token.name_type =
+          Internal::getType(intermediate_token.name_type, tmp_token.name.data, tmp_token.name.size);
+      }
       if (token_state == InTokenState::FindingName)
       {
         populate_anonymous_token(tmp_token.name, tmp_token.name_type, next_token);
@@ -2825,6 +2832,14 @@ inline Error Tokenizer::populateNextTokenFromDataRef(Token &next_token, const Da
       break;
     }
   }
+  if (!intermediate_token.active &&
+      (token_state == InTokenState::FindingDelimiter || token_state == InTokenState::FindingData))
+  {
+    // the buffer ended right after a complete name: keep it for the next buffer
+    intermediate_token.name.append(tmp_token.name.data, tmp_token.name.size);
+    intermediate_token.name_type = tmp_token.name_type;
+    intermediate_token.active = true;
+  }
   return Error::NeedMoreData;
 }
 
-- 
2.43.0


From a803f6c8dca0887acb7071b32bad4a97b8522c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:25 +0000
Subject: [PATCH 03/26] fix: control characters were written raw into JSON
 strings

RFC 8259 does not allow unescaped characters below U+0020 in a string; those
without a short escape are now written as \u00XX.
---
 include/json_struct/json_struct.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 9f82c71..4862b9a 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -6013,7 +6013,7 @@ static void handle_json_escapes_in(const DataRef &ref, std::string &to_type)
 }
 
 // Returns the offset of the first character in [data, data+len) that needs
-// JSON string escaping (byte <= 0x0d, '"', or '\\'), or len if none. The clean
+// JSON string escaping (byte <= 0x1f, '"', or '\\'), or len if none. The clean
 // (no-escape) run is by far the common case, so scan it with SIMD when possible.
 static JSON_STRUCT_FORCE_INLINE size_t findFirstEscapeOut(const char *JSON_STRUCT_RESTRICT data, size_t len)
 {
@@ -6022,7 +6022,7 @@ static JSON_STRUCT_FORCE_INLINE size_t findFirstEscapeOut(const char *JSON_STRUC
   {
     const __m256i vquote = _mm256_set1_epi8('"');
     const __m256i vbackslash = _mm256_set1_epi8('\\');
-    const __m256i vctrl = _mm256_set1_epi8(0x0d);
+    const __m256i vctrl = _mm256_set1_epi8(0x1f);
     for (; i + 32 <= len; i += 32)
     {
       __m256i chunk = _mm256_loadu_si256(reinterpret_cast<const __m256i *>(data + i));
@@ -6039,7 +6039,7 @@ static JSON_STRUCT_FORCE_INLINE size_t findFirstEscapeOut(const char *JSON_STRUC
   {
     const __m128i vquote = _mm_set1_epi8('"');
     const __m128i vbackslash = _mm_set1_epi8('\\');
-    const __m128i vctrl = _mm_set1_epi8(0x0d);
+    const __m128i vctrl = _mm_set1_epi8(0x1f);
     for (; i + 16 <= len; i += 16)
     {
       __m128i chunk = _mm_loadu_si128(reinterpret_cast<const __m128i *>(data + i));
@@ -6056,7 +6056,7 @@ static JSON_STRUCT_FORCE_INLINE size_t findFirstEscapeOut(const char *JSON_STRUC
   for (; i < len; i++)
   {
     unsigned char c = static_cast<unsigned char>(data[i]);
-    if (c <= 0x0d || c == '"' || c == '\\')
+    if (c <= 0x1f || c == '"' || c == '\\')
       return i;
   }
   return len;
@@ -6108,7 +6108,10 @@ static DataRef handle_json_escapes_out(const std::string &data, std::string &buf
       buffer.append("\\\\", 2);
       break;
     default:
-      buffer.push_back(cur);
+      // the remaining control characters have no short form
+      buffer.append("\\u00", 4);
+      buffer.push_back(cur & 0x10 ? '1' : '0');
+      buffer.push_back("0123456789abcdef"[cur & 0x0f]);
       break;
     }
     i++;
-- 
2.43.0


From 7688b662daedd1a2253f2633344e5b031611f653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:36 +0000
Subject: [PATCH 04/26] fix: the serializer lost its nesting depth beyond 255
 levels

---
 include/json_struct/json_struct.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 4862b9a..a4770f5 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1504,7 +1504,7 @@ public:
   bool convertAsciiToString() const;
   void setConvertAsciiToString(bool set);
 
-  unsigned char depth() const;
+  int depth() const;
   void setDepth(int depth);
 
   void skipDelimiter(bool skip);
@@ -1516,7 +1516,7 @@ public:
 
 private:
   uint8_t m_shift_size;
-  uint8_t m_depth;
+  int m_depth;
   Style m_style;
   bool m_convert_ascii_to_string;
 
@@ -3150,7 +3150,7 @@ inline void SerializerOptions::setShiftSize(unsigned char set)
   m_shift_size = set;
 }
 
-inline unsigned char SerializerOptions::depth() const
+inline int SerializerOptions::depth() const
 {
   return m_depth;
 }
@@ -3188,7 +3188,7 @@ inline void SerializerOptions::skipDelimiter(bool skip)
 
 inline void SerializerOptions::setDepth(int depth)
 {
-  m_depth = (unsigned char)depth;
+  m_depth = depth;
   m_prefix = m_style == Pretty ? std::string(depth * size_t(m_shift_size), ' ') : std::string();
 }
 
-- 
2.43.0


From 0560d6c0cabe8f8428d3c82704769347d7e2a606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:36 +0000
Subject: [PATCH 05/26] fix: compact style set after construction still wrote
 newlines and indentation

---
 include/json_struct/json_struct.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index a4770f5..802a43d 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -3270,7 +3270,7 @@ inline bool Serializer::write(const Token &in_token)
   }
 
   bool shortcut_front = false;
-  if (m_option.shiftSize() == 2 && !m_first)
+  if (m_option.style() == SerializerOptions::Pretty && m_option.shiftSize() == 2 && !m_first)
   {
     if (!m_token_start && !isEnd && m_option.tokenDelimiter().empty())
     {
-- 
2.43.0


From 937bf82173a9f58f25c11ab5451d12f58ff51f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:36 +0000
Subject: [PATCH 06/26] fix: parsing a truncated object into a map did not
 terminate

---
 include/json_struct/json_struct.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 802a43d..1d6fa82 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9780,6 +9780,8 @@ struct TypeHandlerMap
       if (error != JS::Error::NoError)
         return error;
       error = context.nextToken();
+      if (error != JS::Error::NoError)
+        return error;
     }
 
     return error;
-- 
2.43.0


From 4f430dca2fa3db10c06b214707aacc8ab9322bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:48 +0000
Subject: [PATCH 07/26] fix: map keys were written without escaping, although
 they are unescaped when parsed

---
 include/json_struct/json_struct.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 1d6fa82..f08fd97 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9794,7 +9794,10 @@ struct TypeHandlerMap
     serializer.write(token);
     for (auto it = from.begin(); it != from.end(); ++it)
     {
-      token.name = DataRef(it->first);
+      DataRef name(it->first);
+      std::string key(name.data, name.size);
+      std::string buffer;
+      token.name = Internal::handle_json_escapes_out(key, buffer);
       token.name_type = Type::String;
       TypeHandler<Value>::from(it->second, token, serializer);
     }
-- 
2.43.0


From 369c215b55cc1bd6fe4f9ca4b9405c696d78844c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:07 +0000
Subject: [PATCH 08/26] fix: numbers with many digits lost their magnitude or
 crashed

Leading zeros filled the digit budget of the significand (19 of them made
the next step divide by zero), digits dropped before the decimal point did
not raise the exponent, and integers of 20 or more digits wrapped.
---
 include/json_struct/json_struct.h | 58 +++++++++++++++----------------
 1 file changed, 28 insertions(+), 30 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index f08fd97..5521fdf 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -6169,6 +6169,7 @@ template <typename T>
 struct parsed_string : float_base10<T>
 {
   const char *endptr;
+  bool truncated; // digits that did not fit in the significand were dropped
 };
 
 enum class parse_string_error
@@ -7937,14 +7938,21 @@ inline bool is_space(char a)
   return false;
 }
 
+inline int clamp_exponent(int64_t exponent)
+{
+  const int64_t limit = 2000000000;
+  return int(exponent > limit ? limit : exponent < -limit ? -limit : exponent);
+}
+
 template <typename T, bool NoDigitCount>
 inline parse_string_error parseNumber(const char *number, size_t size, parsed_string<T> &parsedString)
 {
   const char *current;
   set_end_ptr<T> setendptr(parsedString, current);
-  int desimal_position = -1;
-  bool increase_significand = true;
+  bool seen_desimal = false;
+  int64_t exponent_adjust = 0;
 
+  parsedString.truncated = false;
   parsedString.negative = false;
   parsedString.inf = 0;
   parsedString.nan = 0;
@@ -7971,43 +7979,36 @@ inline parse_string_error parseNumber(const char *number, size_t size, parsed_st
 
     if (c == '.')
     {
-      if (desimal_position >= 0)
+      if (seen_desimal)
         return parse_string_error::multiple_commas;
-      desimal_position = parsedString.significand_digit_count;
+      seen_desimal = true;
     }
     else
     {
-      bool keep_digit = NoDigitCount;
-      if (!keep_digit)
-        keep_digit = parsedString.significand_digit_count < 19;
-      if (keep_digit)
+      static_assert(NoDigitCount || std::is_same<T, uint64_t>::value,
+                    "When NoDigitCount is not used the significand type has to be uint64_t");
+      const T digit = T(int(c) - '0');
+      if (!parsedString.truncated &&
+          parsedString.significand <= T((std::numeric_limits<T>::max() - digit) / T(10)))
       {
-        parsedString.significand = parsedString.significand * T(10) + T(int(c) - '0');
-        parsedString.significand_digit_count++;
+        parsedString.significand = T(parsedString.significand * T(10) + digit);
+        if (parsedString.significand != 0)
+          parsedString.significand_digit_count++;
+        if (seen_desimal)
+          exponent_adjust--;
       }
-      else if (increase_significand && parsedString.significand_digit_count < 20)
+      else
       {
-        increase_significand = false;
-        uint64_t digit = uint64_t(c) - '0';
-        static_assert(NoDigitCount || std::is_same<T, uint64_t>::value,
-                      "When NoDigitCount is used the significand type has to be uint64_t");
-        auto biggest_multiplier = (std::numeric_limits<uint64_t>::max() - digit) / parsedString.significand;
-
-        if (biggest_multiplier >= 10)
-        {
-          parsedString.significand = parsedString.significand * uint64_t(10) + digit;
-          parsedString.significand_digit_count++;
-        }
+        parsedString.truncated = true;
+        if (!seen_desimal)
+          exponent_adjust++;
       }
     }
     current++;
   }
   if (current == number_end || (*current != 'e' && *current != 'E'))
   {
-    if (desimal_position >= 0)
-      parsedString.exp = desimal_position - parsedString.significand_digit_count;
-    else
-      parsedString.exp = 0;
+    parsedString.exp = clamp_exponent(exponent_adjust);
     return parse_string_error::ok;
   }
   current++;
@@ -8048,10 +8049,7 @@ inline parse_string_error parseNumber(const char *number, size_t size, parsed_st
   if (exponent_nagative)
     exponent = -exponent;
 
-  if (desimal_position >= 0)
-    parsedString.exp = desimal_position - parsedString.significand_digit_count + exponent;
-  else
-    parsedString.exp = exponent;
+  parsedString.exp = clamp_exponent(exponent_adjust + exponent);
   return parse_string_error::ok;
 }
 
-- 
2.43.0


From 7b26015ec15928c3512d55b9eb0c9bf134d5b475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:07 +0000
Subject: [PATCH 09/26] fix: integers with a positive exponent wrapped instead
 of saturating

---
 include/json_struct/json_struct.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 5521fdf..3fdb889 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -8272,13 +8272,12 @@ inline T convert_to_integer(const parsed_string<SignificandType> &parsed)
       exp++;
     }
   }
-  else if (exp > 0)
+  else if (exp > 0 && significand != 0)
   {
-    int chars_in_sig = count_chars(significand);
-    if (exp > ft::StaticLog10<T, std::numeric_limits<T>::max(), 0, 0, true>::get() - chars_in_sig)
-      return parsed.negative ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max();
     while (exp > 0)
     {
+      if (parsed.truncated || significand > std::numeric_limits<SignificandType>::max() / 10)
+        return parsed.negative ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max();
       significand *= 10;
       exp--;
     }
-- 
2.43.0


From 379e151cb64e53a4105e945df76013cfc314102c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:07 +0000
Subject: [PATCH 10/26] fix: a negative number parsed into an unsigned integer
 lost its sign

---
 include/json_struct/json_struct.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 3fdb889..0a22382 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -8244,8 +8244,10 @@ inline typename std::enable_if<std::is_signed<T>::value, T>::type make_integer_r
 
 template <typename T, typename SignificandType>
 inline typename std::enable_if<std::is_unsigned<T>::value, T>::type make_integer_return_value(
-  SignificandType significand, bool)
+  SignificandType significand, bool negative)
 {
+  if (negative)
+    return T(0);
   if (SignificandType(significand) > SignificandType(std::numeric_limits<T>::max()))
     return std::numeric_limits<T>::max();
   return T(significand);
-- 
2.43.0


From f52fde629e5327b5c78d3f8584dec7a2a42e02bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:07 +0000
Subject: [PATCH 11/26] fix: zero with a large exponent was parsed as infinity

---
 include/json_struct/json_struct.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 0a22382..2997158 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -8081,6 +8081,10 @@ inline uint64_t getPow10(uint32_t pow)
 template <typename T, typename SignificandType>
 inline T convertToNumber(const parsed_string<SignificandType> &parsed)
 {
+  if (parsed.significand == 0)
+  {
+    return make_zero<T>(parsed.negative);
+  }
   int base10exponent = parsed.exp + parsed.significand_digit_count - 1;
   if (base10exponent > float_info<T>::max_base10_exponent())
   {
@@ -8090,10 +8094,6 @@ inline T convertToNumber(const parsed_string<SignificandType> &parsed)
   {
     return make_zero<T>(parsed.negative);
   }
-  if (parsed.significand == 0)
-  {
-    return make_zero<T>(parsed.negative);
-  }
 
 #if 1
   if (parsed.significand < ((uint64_t(1) << 53)) && iabs<int>(parsed.exp) < count_chars((uint64_t(1) << 53)))
-- 
2.43.0


From 1ce34f9e6a7638014e80d1cb01df14d33204daa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:07 +0000
Subject: [PATCH 12/26] fix: the scope counter wrapped at 65536 nested
 containers of one kind

---
 include/json_struct/json_struct.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 2997158..582af18 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1353,7 +1353,7 @@ namespace Internal
 struct ScopeCounter
 {
   JS::Type type;
-  uint16_t depth;
+  size_t depth;
   inline void handleType(JS::Type in_type)
   {
     if (type == JS::Type::ArrayStart || type == JS::Type::ObjectStart)
-- 
2.43.0


From 431eafd854a68a75033ba4969acaefd9e26f5e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:48 +0000
Subject: [PATCH 13/26] fix: a full ArrayVariableContent kept its old size
 after parsing

---
 include/json_struct/json_struct.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 582af18..5eafd5a 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -10168,6 +10168,7 @@ struct TypeHandler<ArrayVariableContent<T, COUNT>>
       if (context.error != JS::Error::NoError)
         return context.error;
 
+      to_type.size = i + 1;
       context.nextToken();
     }
 
-- 
2.43.0


From 25199ec94796717e75f8fdb7a81362627ba4d9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:08 +0000
Subject: [PATCH 14/26] fix: fixed-size targets accepted too few elements when
 the element type accepts a closing bracket

---
 include/json_struct/json_struct.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 5eafd5a..63f41cb 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9524,6 +9524,8 @@ struct TupleTypeHandler
   static inline Error to(JS::Tuple<Ts...> &to_type, ParseContext &context)
   {
     using Type = typename JS::TypeAt<sizeof...(Ts) - INDEX, Ts...>::type;
+    if (context.token.value_type == JS::Type::ArrayEnd)
+      return Error::UnexpectedArrayEnd;
     Error error = TypeHandler<Type>::to(to_type.template get<sizeof...(Ts) - INDEX>(), context);
     if (error != JS::Error::NoError)
       return error;
@@ -9604,6 +9606,8 @@ struct StdTupleTypeHandler
   static inline Error to(std::tuple<Ts...> &to_type, ParseContext &context)
   {
     using Type = typename std::tuple_element<sizeof...(Ts) - INDEX, std::tuple<Ts...>>::type;
+    if (context.token.value_type == JS::Type::ArrayEnd)
+      return Error::UnexpectedArrayEnd;
     Error error = TypeHandler<Type>::to(std::get<sizeof...(Ts) - INDEX>(to_type), context);
     if (error != JS::Error::NoError)
       return error;
@@ -9727,6 +9731,8 @@ public:
     {
       if (context.error != JS::Error::NoError)
         return context.error;
+      if (context.token.value_type == Type::ArrayEnd)
+        return JS::Error::UnexpectedArrayEnd;
       context.error = TypeHandler<T>::to(to_type[i], context);
       if (context.error != JS::Error::NoError)
         return context.error;
@@ -10301,6 +10307,8 @@ public:
     {
       if (context.error != JS::Error::NoError)
         return context.error;
+      if (context.token.value_type == Type::ArrayEnd)
+        return JS::Error::UnexpectedArrayEnd;
       context.error = TypeHandler<T>::to(to_type[i], context);
       if (context.error != JS::Error::NoError)
         return context.error;
-- 
2.43.0


From d9dd1ada1d9176098d411ba975f076d60cb91f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:08 +0000
Subject: [PATCH 15/26] fix: raw JSON captures appended to the old content of
 the target

---
 include/json_struct/json_struct.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 63f41cb..6a426fb 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9295,6 +9295,7 @@ struct TypeHandler<JsonArray>
     if (context.token.value_type != JS::Type::ArrayStart)
       return Error::ExpectedArrayStart;
 
+    to_type.data.clear();
     context.tokenizer.copyFromValue(context.token, to_type.data);
 
     size_t level = 1;
@@ -9374,6 +9375,7 @@ struct TypeHandler<JsonObject>
     if (context.token.value_type != JS::Type::ObjectStart)
       return Error::ExpectedObjectStart;
 
+    to_type.data.clear();
     context.tokenizer.copyFromValue(context.token, to_type.data);
 
     size_t level = 1;
@@ -9480,6 +9482,7 @@ struct TypeHandler<JsonObjectOrArray>
       return Error::ExpectedObjectStart;
     }
 
+    to_type.data.clear();
     context.tokenizer.copyFromValue(context.token, to_type.data);
 
     size_t level = 1;
-- 
2.43.0


From b98867340aace1dd9430435f76134310ec214434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:08 +0000
Subject: [PATCH 16/26] fix: a failed JsonArray capture stayed registered in
 the tokenizer

---
 include/json_struct/json_struct.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 6a426fb..e35d5f0 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9309,8 +9309,7 @@ struct TypeHandler<JsonArray>
         level--;
     }
 
-    if (error == JS::Error::NoError)
-      context.tokenizer.copyIncludingValue(context.token, to_type.data);
+    context.tokenizer.copyIncludingValue(context.token, to_type.data);
 
     return error;
   }
-- 
2.43.0


From cc8c94a5bc58ee31c2d47c9845420bc31cc1d98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:08 +0000
Subject: [PATCH 17/26] fix: a tokenizer reset to new data kept the state of an
 unfinished document

---
 include/json_struct/json_struct.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index e35d5f0..5c0396b 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1425,6 +1425,7 @@ private:
     FoundEnd
   };
 
+  void resetForNewDocument();
   void resetForNewToken();
   void resetForNewValue();
   Error findStringEnd(const DataRef &json_data, size_t *chars_ahead);
@@ -1674,7 +1675,7 @@ inline void Tokenizer::resetData(const char *data, size_t size, size_t index)
   parsed_data_vector = nullptr;
   cursor_index = index;
   addData(data, size);
-  resetForNewToken();
+  resetForNewDocument();
 }
 
 inline void Tokenizer::resetData(const std::vector<Token> *parsedData, size_t index)
@@ -1687,7 +1688,7 @@ inline void Tokenizer::resetData(const std::vector<Token> *parsedData, size_t in
   data_list.clear();
   parsed_data_vector = parsedData;
   cursor_index = index;
-  resetForNewToken();
+  resetForNewDocument();
 }
 
 inline size_t Tokenizer::registeredBuffers() const
@@ -1928,6 +1929,19 @@ inline void Tokenizer::setErrorContextConfig(size_t lineContext, size_t rangeCon
   range_context = rangeContext;
 }
 
+inline void Tokenizer::resetForNewDocument()
+{
+  token_state = InTokenState::FindingName;
+  is_escaped = false;
+  expecting_prop_or_anonymous_data = false;
+  continue_after_need_more_data = false;
+  container_stack.clear();
+  scope_counter.clear();
+  copy_buffers.clear();
+  error_context.clear();
+  resetForNewToken();
+}
+
 JSON_STRUCT_FORCE_INLINE void Tokenizer::resetForNewToken()
 {
   intermediate_token.clear();
-- 
2.43.0


From f2a2aa8152ac2b11fb69f2c47c80d7c5b8c8d057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:08 +0000
Subject: [PATCH 18/26] fix: Map::setValue left the positions of later
 containers stale when it replaced a plain value

---
 include/json_struct/json_struct.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 5c0396b..1654345 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -10057,6 +10057,11 @@ struct Map
         meta[0].size--;
         tokens.data.erase(tokens.data.begin() + it.index);
         tokens_removed = 1;
+        for (auto &other : meta)
+        {
+          if (other.position > it.index)
+            other.position--;
+        }
       }
       {
         int index_to_remove = -1;
-- 
2.43.0


From f6ef0fde737b33638382367bdd3d60ec8626462a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:08 +0000
Subject: [PATCH 19/26] fix: Map::setValue wrote names without escaping them
 and Map::find did not see escaped names

---
 include/json_struct/json_struct.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 1654345..38eef98 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9845,6 +9845,15 @@ inline bool compareDataRefWithString(const DataRef &a, const std::string &b)
 {
   return a.size == b.size() && memcmp(a.data, b.data(), a.size) == 0;
 }
+
+inline bool compareEscapedDataRefWithString(const DataRef &a, const std::string &b)
+{
+  if (!a.size || !memchr(a.data, '\\', a.size))
+    return compareDataRefWithString(a, b);
+  std::string unescaped;
+  handle_json_escapes_in(a, unescaped);
+  return unescaped == b;
+}
 } // namespace Internal
 struct Map
 {
@@ -9940,7 +9949,7 @@ struct Map
   inline It find(const std::string &name) const
   {
     return std::find_if(begin(), end(),
-                        [&name](const Token &token) { return Internal::compareDataRefWithString(token.name, name); });
+                        [&name](const Token &token) { return Internal::compareEscapedDataRefWithString(token.name, name); });
   }
 
   template <typename T>
@@ -10088,7 +10097,8 @@ struct Map
     token.value = DataRef(objectStart);
     serializeContext.serializer.write(token);
 
-    token.name = DataRef(name);
+    std::string escaped_name;
+    token.name = Internal::handle_json_escapes_out(name, escaped_name);
     token.name_type = Type::String;
     JS::TypeHandler<T>::from(value, token, serializeContext.serializer);
 
-- 
2.43.0


From 9bb021cd85a17095c28e7438015601374c2deb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:08 +0000
Subject: [PATCH 20/26] fix: Map::castTo did not report the errors of the
 conversion in the parse context

---
 include/json_struct/json_struct.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 38eef98..c7b3f2c 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9957,7 +9957,8 @@ struct Map
   {
     parseContext.tokenizer.resetData(&tokens.data, 0);
     parseContext.nextToken();
-    return JS::TypeHandler<T>::to(to, parseContext);
+    parseContext.error = JS::TypeHandler<T>::to(to, parseContext);
+    return parseContext.error;
   }
 
   template <typename T>
@@ -9966,7 +9967,8 @@ struct Map
     assert(iterator.index < tokens.data.size());
     parseContext.tokenizer.resetData(&tokens.data, iterator.index);
     parseContext.nextToken();
-    return JS::TypeHandler<T>::to(to, parseContext);
+    parseContext.error = JS::TypeHandler<T>::to(to, parseContext);
+    return parseContext.error;
   }
 
   template <typename T>
-- 
2.43.0


From 45f3dd3dcb18c679175a8c7262ce5aae231e21a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:08 +0000
Subject: [PATCH 21/26] fix: iterating a Map delivered the closing bracket as a
 member

---
 include/json_struct/json_struct.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index c7b3f2c..8fda72b 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9940,7 +9940,7 @@ struct Map
   inline It end() const
   {
     It e(*this);
-    e.index = uint32_t(tokens.data.size());
+    e.index = tokens.data.size() > 1 ? uint32_t(tokens.data.size() - 1) : 1; // the closing bracket is not a member
     e.next_meta = 0;
     e.next_complex = 0;
     return e;
-- 
2.43.0


From 1feace1dcc5e91458477403409492361d696e665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:12 +0000
Subject: [PATCH 22/26] fix: reading past the end of a token list (casting an
 empty Map)

---
 include/json_struct/json_struct.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 8fda72b..ab72bb2 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1714,6 +1714,11 @@ inline Error Tokenizer::nextToken(Token &next_token)
   {
     return Error::ScopeHasEnded;
   }
+  if (parsed_data_vector && cursor_index >= parsed_data_vector->size())
+  {
+    cursor_index = 0;
+    parsed_data_vector = nullptr;
+  }
   if (parsed_data_vector)
   {
     next_token = (*parsed_data_vector)[cursor_index];
@@ -9956,7 +9961,8 @@ struct Map
   JS::Error castToType(JS::ParseContext &parseContext, T &to) const
   {
     parseContext.tokenizer.resetData(&tokens.data, 0);
-    parseContext.nextToken();
+    if (parseContext.nextToken() != JS::Error::NoError)
+      return parseContext.error;
     parseContext.error = JS::TypeHandler<T>::to(to, parseContext);
     return parseContext.error;
   }
@@ -9966,7 +9972,8 @@ struct Map
   {
     assert(iterator.index < tokens.data.size());
     parseContext.tokenizer.resetData(&tokens.data, iterator.index);
-    parseContext.nextToken();
+    if (parseContext.nextToken() != JS::Error::NoError)
+      return parseContext.error;
     parseContext.error = JS::TypeHandler<T>::to(to, parseContext);
     return parseContext.error;
   }
-- 
2.43.0


From 64bb903dad99b0719e2735ad7988a6819a36213a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:04 +0000
Subject: [PATCH 23/26] fix: read floats next to the overflow and underflow
 limits correctly rounded

The exact midpoint comparison was skipped when the intermediate double rounded
to zero or to infinity, so 3402823567797336616e20 read as inf instead of the
largest float and 7006492321624085355e-64 as 0 instead of the smallest.
---
 include/json_struct/json_struct.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index ab72bb2..274a2ff 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -8477,19 +8477,21 @@ inline bool float_mantissa_is_even(float g)
 
 inline float correctly_round_float(const char *str, size_t size, double d, float f)
 {
-  if (f != f || f == 0.0f)
+  JS_FP_NONFINITE_DIAG_PUSH
+  if (f != f || d == 0.0 || !std::isfinite(d))
     return f;
+  // a finite double next to the overflow limit can round to either side of it
   float af = f < 0.0f ? -f : f;
-  JS_FP_NONFINITE_DIAG_PUSH
   if (!std::isfinite(af))
-    return f;
+    af = std::numeric_limits<float>::max();
   double ad = d < 0.0 ? -d : d;
   float up = std::nextafter(af, std::numeric_limits<float>::infinity());
   float dn = std::nextafter(af, 0.0f);
-  bool have_up = up > af && std::isfinite(up);
+  // above the largest float the next step would be 2^128
+  double up_d = std::isfinite(up) ? double(up) : std::ldexp(1.0, std::numeric_limits<float>::max_exponent);
   double ulp_d = std::nextafter(ad, std::numeric_limits<double>::infinity()) - ad;
   JS_FP_NONFINITE_DIAG_POP
-  bool near_hi = have_up && std::fabs(ad - 0.5 * (double(af) + double(up))) <= 4.0 * ulp_d;
+  bool near_hi = std::fabs(ad - 0.5 * (double(af) + up_d)) <= 4.0 * ulp_d;
   bool near_lo = std::fabs(ad - 0.5 * (double(dn) + double(af))) <= 4.0 * ulp_d;
   if (!near_hi && !near_lo)
     return f;
-- 
2.43.0


From d89b485230a1348f849f2d1adf09b92033ad9e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:24 +0000
Subject: [PATCH 24/26] fix: read doubles next to a rounding midpoint correctly
 rounded

The 125 bit scaled significand is truncated in every step, so a number text
just above a midpoint could be taken for one just below it:
8392591456304476166e-327 and 97338774138954421e-289 were read one unit too
small. Such close calls are now settled by the exact comparison that reading
floats already uses.
---
 include/json_struct/json_struct.h | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 274a2ff..6b58c6e 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -8097,6 +8097,28 @@ inline uint64_t getPow10(uint32_t pow)
   return data[pow];
 }
 
+inline int compare_to_midpoint(uint64_t significand, int decimal_exp, uint64_t mid, int mid_pow2);
+
+// The scaled significand is truncated in every step, so it is at most a few hundred units too small. When that
+// leaves the side of a rounding midpoint open, the exact comparison decides it.
+inline void settle_midpoint(uint64_t (&a)[2], uint64_t significand, int decimal_exp, int binary_exponent, int bias)
+{
+  const uint64_t half = uint64_t(1) << ((binary_exponent > 0 ? 8 : 9 - binary_exponent) - 1);
+  const uint64_t rest = a[1] & (half * 2 - 1);
+  const bool below = rest == half - 1 && a[0] >= ~uint64_t(0xffff);
+  const bool on = rest == half && a[0] <= uint64_t(0xffff);
+  if (!below && !on)
+    return;
+  const uint64_t mid = a[1] - rest + half;
+  const int order = compare_to_midpoint(significand, decimal_exp, mid, binary_exponent - bias - 60);
+  a[1] = order < 0 ? mid - 1 : mid;
+  a[0] = order < 0 ? ~uint64_t(0) : uint64_t(order);
+}
+
+inline void settle_midpoint(uint64_t &, uint64_t, int, int, int)
+{
+}
+
 template <typename T, typename SignificandType>
 inline T convertToNumber(const parsed_string<SignificandType> &parsed)
 {
@@ -8155,6 +8177,7 @@ inline T convertToNumber(const parsed_string<SignificandType> &parsed)
   binary_exponent -= float_info<T>::shift_left_msb_to_index(a, float_info<T>::str_to_float_binary_exponent_init());
 
   binary_exponent += float_info<T>::bias();
+  settle_midpoint(a, uint64_t(parsed.significand), parsed.exp, binary_exponent, float_info<T>::bias());
   T to_digit;
   if (binary_exponent <= 0)
   {
@@ -8418,6 +8441,14 @@ inline int compare_value_scaled(big_uint_cmp value_digits, int decimal_exp, big_
   return compare_big(l, r);
 }
 
+inline int compare_to_midpoint(uint64_t significand, int decimal_exp, uint64_t mid, int mid_pow2)
+{
+  big_uint_cmp digits, mid_int;
+  digits.w = {uint32_t(significand), uint32_t(significand >> 32)};
+  mid_int.w = {uint32_t(mid), uint32_t(mid >> 32)};
+  return compare_value_scaled(digits, decimal_exp, mid_int, mid_pow2);
+}
+
 inline void float_to_int_pow2(float g, big_uint_cmp &m, int &e2)
 {
   uint32_t b;
-- 
2.43.0


From 9183cbe23c4d4fa946b71cdba1f9a8f931e2d666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:47 +0000
Subject: [PATCH 25/26] fix: write the shortest text inside the rounding
 interval (2^-140 was written as a text that reads back one ulp too small)

---
 include/json_struct/json_struct.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 6b58c6e..eb23a56 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -7498,7 +7498,8 @@ inline void compute_shortest(uint64_t a, uint64_t b, uint64_t c, bool accept_sma
   if (!accept_larger)
     c -= 1;
 
-  bool all_a_zero = true;
+  // a is rounded down, so it is itself in the interval only when it is exact and accepted
+  bool all_a_zero = accept_smaller;
   bool all_b_zero = true;
   uint64_t a_next = a / 10;
   uint32_t a_remainder = a % 10;
@@ -7742,7 +7743,7 @@ static float_base10<SignificandType> decode(T f)
     }
   }
   auto cache_value = exp >= 0 ? cache_values<T>::greater_than_equals(q) : cache_values<T>::less_than(-exp - q);
-  uint64_t a = multiply_and_shift<T>(u, cache_value, shift_right, true);
+  uint64_t a = multiply_and_shift<T>(u, cache_value, shift_right, zero[0]);
   uint64_t b = multiply_and_shift<T>(mentissa, cache_value, shift_right, false);
   uint64_t c = multiply_and_shift<T>(w, cache_value, shift_right, false);
 
-- 
2.43.0


From e69229e8d5b3fdaa5f31323ab2b3d3c818420c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:23 +0000
Subject: [PATCH 26/26] fix: keep the sign of a float that underflows to zero

---
 include/json_struct/json_struct.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index eb23a56..039662a 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -8513,7 +8513,7 @@ inline float correctly_round_float(const char *str, size_t size, double d, float
   if (f != f || d == 0.0 || !std::isfinite(d))
     return f;
   // a finite double next to the overflow limit can round to either side of it
-  float af = f < 0.0f ? -f : f;
+  float af = std::fabs(f);
   if (!std::isfinite(af))
     af = std::numeric_limits<float>::max();
   double ad = d < 0.0 ? -d : d;
-- 
2.43.0

