From 8c9fac2d5a9156f91a75b64022c98f5855106d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:26 +0000
Subject: [PATCH 01/80] fix: store the value scanned with an integer
 presentation into char and wchar_t

---
 src/scn/impl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 676a9e5..acdb5bd 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -5707,7 +5707,7 @@ public:
         reader_impl_for_int<CharT> reader{};
         signed char tmp_value{};
         auto ret = reader.read_specs(range, specs, tmp_value, loc);
-        value = static_cast<signed char>(value);
+        value = static_cast<char>(tmp_value);
         return ret;
     }
 };
@@ -5745,7 +5745,7 @@ public:
             std::conditional_t<sizeof(wchar_t) == 2, int16_t, int32_t>;
         integer_type tmp_value{};
         auto ret = reader.read_specs(range, specs, tmp_value, loc);
-        value = static_cast<integer_type>(value);
+        value = static_cast<wchar_t>(tmp_value);
         return ret;
     }
 };
-- 
2.43.0


From f169fe08d282f4b15d2651ebd152ad445a6ac6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:26 +0000
Subject: [PATCH 02/80] fix: compare only letters case-insensitively in number
 prefixes

---
 src/scn/impl.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index acdb5bd..586edd2 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -2319,7 +2319,14 @@ constexpr bool fast_streq_nocase(const char* a, const char* b, size_t len)
 {
     unsigned char running_diff{0};
     for (size_t i = 0; i < len; ++i) {
-        running_diff |= static_cast<unsigned char>(a[i] ^ b[i]);
+        const auto diff = static_cast<unsigned char>(a[i] ^ b[i]);
+        // Only letters have case: '\x10' is not another spelling of '0'
+        const bool is_letter = (b[i] >= 'a' && b[i] <= 'z') ||
+                               (b[i] >= 'A' && b[i] <= 'Z');
+        if (diff != 0 && !is_letter) {
+            return false;
+        }
+        running_diff |= diff;
     }
     return running_diff == 0 || running_diff == 32;
 }
-- 
2.43.0


From a8ae484e73c65b7b23385e84418f7d78622d1d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:40 +0000
Subject: [PATCH 03/80] fix: accept floats without integral digits, bare hex
 digits for 'a', and 0x without digits on any source

---
 src/scn/impl.cpp | 23 +++++++++++++----------
 src/scn/impl.h   | 38 +++++++++++++++++++++-----------------
 2 files changed, 34 insertions(+), 27 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index f97c748..59a1449 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -394,8 +394,13 @@ protected:
 
         SCN_TRY_DISCARD(this->check_error(chars_read, saved_errno, value));
 
-        if (m_kind == float_reader_base::float_kind::hex_without_prefix &&
-            chars_read >= 2) {
+        if (m_kind == float_reader_base::float_kind::hex_without_prefix) {
+            if (SCN_UNLIKELY(chars_read <= 2)) {
+                // Nothing read past the prefix added to the source
+                return detail::unexpected_scan_error(
+                    scan_error::invalid_scanned_value,
+                    "strtod failed: No conversion");
+            }
             chars_read -= 2;
         }
 
@@ -847,14 +852,12 @@ scan_expected<std::ptrdiff_t> dispatch_impl(
     }
 
     SCN_EXPECT(!data.input.view().empty());
-    if (data.kind == float_reader_base::float_kind::hex_without_prefix) {
-        if (SCN_UNLIKELY(char_to_int(data.input.view().front()) >= 16)) {
-            return detail::unexpected_scan_error(
-                scan_error::invalid_scanned_value,
-                "Invalid floating-point digit");
-        }
-    }
-    if (SCN_UNLIKELY(char_to_int(data.input.view().front()) >= 10)) {
+    const auto digit_base =
+        data.kind == float_reader_base::float_kind::hex_without_prefix ? 16
+                                                                       : 10;
+    if (const auto front = data.input.view().front();
+        SCN_UNLIKELY(front != CharT{'.'} &&
+                     char_to_int(front) >= digit_base)) {
         return detail::unexpected_scan_error(scan_error::invalid_scanned_value,
                                              "Invalid floating-point digit");
     }
diff --git a/src/scn/impl.h b/src/scn/impl.h
index 586edd2..da908c7 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -3942,16 +3942,16 @@ private:
         auto it = range.begin();
 
         std::ptrdiff_t digits_count = 0;
-        if (auto r = read_hex_digits(ranges::subrange{it, range.end()}, true);
-            SCN_UNLIKELY(!r)) {
+        if (auto r =
+                read_hex_digits(ranges::subrange{it, range.end()}, true)) {
+            digits_count += ranges::distance(it, *r);
+            it = *r;
+        }
+        else if (SCN_UNLIKELY(r.error() == parse_error::eof)) {
             return r.transform_error(map_parse_error_to_scan_error(
                 scan_error::invalid_scanned_value,
                 "Invalid hexadecimal floating-point value"));
         }
-        else {
-            digits_count += ranges::distance(it, *r);
-            it = *r;
-        }
 
         m_integral_part_length = digits_count;
         if (auto r = read_matching_code_unit(ranges::subrange{it, range.end()},
@@ -3986,16 +3986,16 @@ private:
         auto it = ranges::begin(range);
         std::ptrdiff_t digits_count = 0;
 
-        if (auto r = read_dec_digits(ranges::subrange{it, range.end()}, true);
-            SCN_UNLIKELY(!r)) {
+        if (auto r =
+                read_dec_digits(ranges::subrange{it, range.end()}, true)) {
+            digits_count += ranges::distance(it, *r);
+            it = *r;
+        }
+        else if (SCN_UNLIKELY(r.error() == parse_error::eof)) {
             return r.transform_error(
                 map_parse_error_to_scan_error(scan_error::invalid_scanned_value,
                                               "Invalid floating-point value"));
         }
-        else {
-            digits_count += ranges::distance(it, *r);
-            it = *r;
-        }
 
         m_integral_part_length = digits_count;
         if (auto r = read_matching_code_unit(ranges::subrange{it, range.end()},
@@ -4065,11 +4065,12 @@ private:
 
             if (auto r = read_hex_prefix(range)) {
                 m_kind = float_kind::hex_with_prefix;
-                it = *r;
-            }
-            else {
-                m_kind = float_kind::hex_without_prefix;
+                if (auto r_hex = read_hex(ranges::subrange{*r, range.end()})) {
+                    return r_hex;
+                }
+                // No digits after the prefix: just the leading zero
             }
+            m_kind = float_kind::hex_without_prefix;
 
             return read_hex(ranges::subrange{it, range.end()});
         }
@@ -4085,7 +4086,10 @@ private:
 
         if (auto r = read_hex_prefix(range); SCN_UNLIKELY(r)) {
             m_kind = float_kind::hex_with_prefix;
-            return read_hex(ranges::subrange{*r, range.end()});
+            if (auto r_hex = read_hex(ranges::subrange{*r, range.end()})) {
+                return r_hex;
+            }
+            // No digits after the prefix: just the leading zero
         }
 
         m_kind = float_kind::generic;
-- 
2.43.0


From e05e539a751e192daa44dfd0a2c926900c969f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:16 +0000
Subject: [PATCH 04/80] fix: never treat the read-ahead part of a
 non-contiguous source as the whole source

---
 src/scn/impl.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index da908c7..b1492b3 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -996,11 +996,9 @@ bool is_segment_contiguous(Range r)
                    ranges::end(r).contiguous_segment().end();
         }
         else {
-            if (beg.stores_parent()) {
-                return beg.contiguous_segment().end() ==
-                       beg.parent()->current_view().end();
-            }
-            return true;
+            // Even if beg is in the last segment read so far,
+            // the source may still have more to read after it
+            return !beg.stores_parent();
         }
     }
     else {
-- 
2.43.0


From a2198db4a64038e1622740d38c1638c797147d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:55 +0000
Subject: [PATCH 05/80] fix: refuse a string_view into the temporary buffer of
 a non-contiguous source

---
 src/scn/impl.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index b1492b3..edff65a 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -4822,19 +4822,20 @@ auto read_string_view_impl(Range range,
 {
     static_assert(ranges::forward_iterator<detail::remove_cvref_t<Iterator>>);
 
-    auto src = [&]() {
+    const auto src_range = [&]() {
         if constexpr (detail::is_specialization_of_v<Range, take_width_view>) {
-            return make_contiguous_buffer(
-                ranges::subrange{range.begin().base(), result.base()});
+            return ranges::subrange{range.begin().base(), result.base()};
         }
         else {
-            return make_contiguous_buffer(
-                ranges::subrange{range.begin(), result});
+            return ranges::subrange{range.begin(), result};
         }
     }();
+    auto src = make_contiguous_buffer(src_range);
     using src_type = decltype(src);
 
-    if (src.stores_allocated_string()) {
+    // The buffer of a non-contiguous source doesn't outlive the scan
+    if (src.stores_allocated_string() ||
+        !is_entire_source_contiguous(src_range)) {
         return detail::unexpected_scan_error(
             scan_error::invalid_format_string,
             "Cannot read a string_view from this source range (not "
-- 
2.43.0


From 88552d6217996a163dec5a6fb1ef7b38eee6e177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:55 +0000
Subject: [PATCH 06/80] fix: size and check the visited-argument bookkeeping
 for 64 and more arguments

---
 src/scn/impl.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 59a1449..e34821f 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -1413,7 +1413,7 @@ struct format_handler_base {
     format_handler_base(size_t argcount) : args_count(argcount)
     {
         if (SCN_UNLIKELY(args_count >= 64)) {
-            visited_args_upper.resize((args_count - 64) / 8);
+            visited_args_upper.resize((args_count - 64 + 7) / 8);
         }
     }
 
@@ -1431,7 +1431,7 @@ struct format_handler_base {
             }
         }
 
-        if (args_count < 64) {
+        if (args_count <= 64) {
             return;
         }
 
@@ -1445,7 +1445,7 @@ struct format_handler_base {
             last_args_count -= 8;
         }
 
-        const auto mask = static_cast<uint8_t>(1u << last_args_count) - 1;
+        const auto mask = static_cast<uint8_t>((1u << last_args_count) - 1);
         if (visited_args_upper.back() != mask) {
             return on_error({scan_error::invalid_format_string,
                              "Argument list not exhausted"});
-- 
2.43.0


From 999c6716819367e6da62812bd1317c4f014489ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:38 +0000
Subject: [PATCH 07/80] fix: match literals by code point and let format
 whitespace match nothing at end of input

---
 src/scn/impl.cpp | 49 ++++++++++++++++++++++++------------------------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index e34821f..7f13fdc 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -1600,41 +1600,42 @@ struct format_handler : format_handler_base {
 
     void on_literal_text(const char_type* begin, const char_type* end)
     {
-        for (; begin != end; ++begin) {
-            auto it = get_ctx().begin();
-            if (impl::is_range_eof(it, get_ctx().end())) {
-                SCN_UNLIKELY_ATTR
-                return on_error(
-                    {scan_error::invalid_literal, "Unexpected end of source"});
-            }
-
-            if (auto [after_space_it, cp, is_space] = impl::is_first_char_space(
-                    detail::make_string_view_from_pointers(begin, end));
-                cp == detail::invalid_code_point) {
-                SCN_UNLIKELY_ATTR
+        while (begin != end) {
+            auto [after_cp_it, cp, is_space] = impl::is_first_char_space(
+                detail::make_string_view_from_pointers(begin, end));
+            if (SCN_UNLIKELY(cp == detail::invalid_code_point)) {
                 return on_error({scan_error::invalid_format_string,
                                  "Invalid encoding in format string"});
             }
-            else if (is_space) {
-                // Skip all whitespace in input
+
+            if (is_space) {
+                // Skip all whitespace in input, if any
                 get_ctx().advance_to(
                     impl::read_while_classic_space(get_ctx().range()));
                 // And, skip all whitespace in the format string
-                auto begin_it = impl::read_while_classic_space(
+                begin = detail::to_address(impl::read_while_classic_space(
                     detail::make_string_view_from_pointers(
-                        detail::to_address(after_space_it),
-                        detail::to_address(end)));
-                // (-1 because of the for loop ++begin)
-                begin = detail::to_address(begin_it) - 1;
+                        detail::to_address(after_cp_it),
+                        detail::to_address(end))));
                 continue;
             }
 
-            if (*it != *begin) {
-                SCN_UNLIKELY_ATTR
-                return on_error({scan_error::invalid_literal,
-                                 "Unexpected literal character in source"});
+            // Match every code unit of the code point
+            for (const auto cp_end = detail::to_address(after_cp_it);
+                 begin != cp_end; ++begin) {
+                auto it = get_ctx().begin();
+                if (impl::is_range_eof(it, get_ctx().end())) {
+                    SCN_UNLIKELY_ATTR
+                    return on_error({scan_error::invalid_literal,
+                                     "Unexpected end of source"});
+                }
+                if (*it != *begin) {
+                    SCN_UNLIKELY_ATTR
+                    return on_error({scan_error::invalid_literal,
+                                     "Unexpected literal character in source"});
+                }
+                get_ctx().advance_to(ranges::next(it));
             }
-            get_ctx().advance_to(ranges::next(it));
         }
     }
 
-- 
2.43.0


From 1027bc52d786ecf14f80caee47f176dab3ccc79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:35 +0000
Subject: [PATCH 08/80] fix: report an ill-formed code point as an error when
 scanning code points

---
 src/scn/impl.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index edff65a..c04a00a 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -5630,9 +5630,14 @@ public:
             return detail::unexpected_scan_error(
                 scan_error::invalid_scanned_value, "Invalid code point");
         }
-        cp = detail::decode_code_point_exhaustive_valid(
+        const auto decoded = get_next_code_point(
             std::basic_string_view<detail::char_t<SourceRange>>{
                 result.codepoint});
+        if (SCN_UNLIKELY(decoded.value >= detail::invalid_code_point)) {
+            return detail::unexpected_scan_error(
+                scan_error::invalid_scanned_value, "Invalid code point");
+        }
+        cp = decoded.value;
         return result.iterator;
     }
 };
-- 
2.43.0


From 827c9590d431eefb3a0738ad7527898d8f626841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:35 +0000
Subject: [PATCH 09/80] fix: reject overlong, surrogate and out-of-range UTF-8
 sequences

---
 include/scn/scan.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 255f789..7cdd936 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -4111,7 +4111,8 @@ inline constexpr char32_t decode_utf8_code_point_exhaustive(
         char32_t cp{};
         cp |= (static_cast<char32_t>(input[0]) & 0x1f) << 6;
         cp |= (static_cast<char32_t>(input[1]) & 0x3f) << 0;
-        return cp;
+        // overlong
+        return cp < 0x80 ? invalid_code_point : cp;
     }
 
     if (input.size() == 3) {
@@ -4129,6 +4130,11 @@ inline constexpr char32_t decode_utf8_code_point_exhaustive(
         cp |= (static_cast<char32_t>(input[0]) & 0x0f) << 12;
         cp |= (static_cast<char32_t>(input[1]) & 0x3f) << 6;
         cp |= (static_cast<char32_t>(input[2]) & 0x3f) << 0;
+        if (cp < 0x800 || (cp >= 0xd800 && cp <= 0xdfff)) {
+            // overlong or surrogate
+            SCN_UNLIKELY_ATTR
+            return invalid_code_point;
+        }
         return cp;
     }
 
@@ -4153,6 +4159,11 @@ inline constexpr char32_t decode_utf8_code_point_exhaustive(
         cp |= (static_cast<char32_t>(input[1]) & 0x3f) << 12;
         cp |= (static_cast<char32_t>(input[2]) & 0x3f) << 6;
         cp |= (static_cast<char32_t>(input[3]) & 0x3f) << 0;
+        if (cp < 0x10000 || cp > 0x10ffff) {
+            // overlong or out of range
+            SCN_UNLIKELY_ATTR
+            return invalid_code_point;
+        }
         return cp;
     }
 
-- 
2.43.0


From 7ad677ddc0a69575014cd36c99678b55dd54ea3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:32 +0000
Subject: [PATCH 10/80] fix: find whitespace straddling the buffer boundary of
 a non-contiguous source

---
 src/scn/impl.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index c04a00a..73f8912 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -2199,12 +2199,13 @@ auto read_until_classic_space(Range range) -> ranges::const_iterator_t<Range>
                 seg_it != seg.end()) {
                 return ranges::next(it, ranges::distance(seg.begin(), seg_it));
             }
-            ranges::advance(it, seg.size());
         }
 
-        return read_until_code_point(
-            ranges::subrange{it, range.end()},
-            [](char32_t cp) noexcept { return detail::is_cp_space(cp); });
+        // The segment can end in the middle of a code point:
+        // start over from the beginning
+        return read_until_code_point(range, [](char32_t cp) noexcept {
+            return detail::is_cp_space(cp);
+        });
     }
 }
 
@@ -2224,11 +2225,12 @@ auto read_while_classic_space(Range range) -> ranges::const_iterator_t<Range>
 
         if constexpr (std::is_same_v<detail::char_t<Range>, char>) {
             auto seg = get_contiguous_beginning(range);
+            // If there's less than 4 code units left in the segment, what was
+            // found can be an incomplete code point
             if (auto seg_it = find_classic_nonspace_narrow_fast(seg);
-                seg_it != seg.end()) {
+                ranges::distance(seg_it, seg.end()) >= 4) {
                 return ranges::next(it, ranges::distance(seg.begin(), seg_it));
             }
-            ranges::advance(it, seg.size());
         }
 
         return read_while_code_point(range, [](char32_t cp) noexcept {
-- 
2.43.0


From b1171f0b654334cab5327bb9d21297ed6b48c4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:09 +0000
Subject: [PATCH 11/80] fix: don't read past the end of the input when matching
 a range bracket or separator

---
 include/scn/ranges.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/scn/ranges.h b/include/scn/ranges.h
index f592adc..b102f1b 100644
--- a/include/scn/ranges.h
+++ b/include/scn/ranges.h
@@ -153,6 +153,9 @@ scan_expected<ranges::iterator_t<Source>> scan_str(
 {
     SCN_TRY(it, internal_skip_classic_whitespace(source, false));
     for (auto ch_to_read : str_to_read) {
+        if (SCN_UNLIKELY(it == source.end())) {
+            return unexpected_scan_error(scan_error::end_of_input, "EOF");
+        }
         if (SCN_UNLIKELY(ch_to_read != *it)) {
             return unexpected_scan_error(scan_error::invalid_scanned_value,
                                          "Invalid range character");
-- 
2.43.0


From fc5ec80ab1bae4386b901d8c76da9e4d27f6469b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:09 +0000
Subject: [PATCH 12/80] fix: pass the given locale on when the format string is
 just "{}"

---
 src/scn/impl.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 7f13fdc..c1d5eb1 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -1753,7 +1753,8 @@ scan_expected<std::ptrdiff_t> vscan_internal(
     const auto argcount = args.size();
     if (is_simple_single_argument_format_string(format) && argcount == 1) {
         auto arg = args.get(0);
-        return scan_simple_single_argument(source, SCN_MOVE(args), arg);
+        return scan_simple_single_argument(source, SCN_MOVE(args), arg,
+                                           SCN_MOVE(loc));
     }
 
     auto handler = format_handler<true, CharT>{
@@ -1773,7 +1774,8 @@ scan_expected<std::ptrdiff_t> vscan_internal(
     const auto argcount = args.size();
     if (is_simple_single_argument_format_string(format) && argcount == 1) {
         auto arg = args.get(0);
-        return scan_simple_single_argument(buffer, SCN_MOVE(args), arg);
+        return scan_simple_single_argument(buffer, SCN_MOVE(args), arg,
+                                           SCN_MOVE(loc));
     }
 
     if (buffer.is_contiguous()) {
-- 
2.43.0


From 8f01bb22baf50fb8dd55665de71db874efa682ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:57 +0000
Subject: [PATCH 13/80] fix: accept the documented 'c' type for char and
 wchar_t

---
 include/scn/scan.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 7cdd936..9a5de43 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -7931,8 +7931,8 @@ template <typename Handler>
 constexpr void check_char_type_specs(const format_specs& specs,
                                      Handler&& handler)
 {
-    if (specs.type > presentation_type::int_hex ||
-        specs.type == presentation_type::int_arbitrary_base) {
+    if (specs.type > presentation_type::int_hex &&
+        specs.type != presentation_type::character) {
         SCN_UNLIKELY_ATTR
         return handler.on_error("Invalid type specifier for character type");
     }
-- 
2.43.0


From 958db1fcd716bab8f8b8aa594aebf26912f41e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:57 +0000
Subject: [PATCH 14/80] fix: accept the documented 'O' integer type

---
 include/scn/scan.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 9a5de43..c03995c 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -6843,7 +6843,7 @@ enum class presentation_type {
     int_decimal,           // 'd'
     int_generic,           // 'i'
     int_unsigned_decimal,  // 'u'
-    int_octal,             // 'o'
+    int_octal,             // 'o', 'O'
     int_hex,               // 'x', 'X'
     int_arbitrary_base,    // 'rnn', 'Rnn' (R for radix)
     float_hex,             // 'a', 'A'
@@ -7225,6 +7225,7 @@ constexpr presentation_type parse_presentation_type(CharT type)
         case 'u':
             return presentation_type::int_unsigned_decimal;
         case 'o':
+        case 'O':
             return presentation_type::int_octal;
         case 'x':
         case 'X':
-- 
2.43.0


From cefa02de200d8135a97189e57b0b873360d35999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:13 +0000
Subject: [PATCH 15/80] fix: stop at the fill character for a left- or
 center-aligned string without a type

---
 src/scn/impl.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 73f8912..666070d 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -5268,9 +5268,6 @@ public:
 
         switch (specs.type) {
             case detail::presentation_type::none:
-                m_type = reader_type::word;
-                break;
-
             case detail::presentation_type::string: {
                 if (specs.align == detail::align_type::left ||
                     specs.align == detail::align_type::center) {
-- 
2.43.0


From de9d38373a7cb44feaaf84010ce0b6a04ec23db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:54 +0000
Subject: [PATCH 16/80] fix: keep all of a wide fill character

---
 include/scn/scan.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index c03995c..246fa9b 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -6927,6 +6927,7 @@ public:
             m_data[0] = static_cast<char>(static_cast<unsigned>(s.front()));
             m_data[1] =
                 static_cast<char>(static_cast<unsigned>(s.front()) >> 8);
+            m_size = static_cast<unsigned char>(s.size() * sizeof(CharT));
             if (s.size() == 1) {
                 return;
             }
@@ -6939,6 +6940,7 @@ public:
             m_data[1] = static_cast<char>(front >> 8);
             m_data[2] = static_cast<char>(front >> 16);
             m_data[3] = static_cast<char>(front >> 24);
+            m_size = sizeof(CharT);
         }
     }
 
@@ -6959,7 +6961,7 @@ public:
     template <typename CharT>
     std::basic_string_view<CharT> get_code_units() const
     {
-        return {reinterpret_cast<const CharT*>(m_data), m_size};
+        return {reinterpret_cast<const CharT*>(m_data), m_size / sizeof(CharT)};
     }
 
 private:
-- 
2.43.0


From 0a4e8cf8db2486819a9289e809f86dead48c3475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:29 +0000
Subject: [PATCH 17/80] fix: %u is the ISO weekday, with Monday as 1 and Sunday
 as 7

---
 src/scn/impl.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index c1d5eb1..6b0d871 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -2951,16 +2951,17 @@ public:
     void on_dec1_weekday(numeric_system sys = numeric_system::standard)
     {
         auto adjust_wday = [](int d) {
+            // [1-7], Monday is 1, Sunday is 7
             if (d == 0) {
-                return 6;
+                return -1;
             }
-            return d - 1;
+            return d == 7 ? 0 : d;
         };
 
 #if !SCN_DISABLE_LOCALE
         if (m_st.localized && sys != numeric_system::standard) {
             if (auto t = read_localized("%Ow", L"%Ow")) {
-                setter::set_wday(*this, m_tm, m_st, adjust_wday(t->tm_wday));
+                setter::set_wday(*this, m_tm, m_st, t->tm_wday);
             }
             return;
         }
-- 
2.43.0


From 653473f199521b0907f9dc501542d70410648b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:29 +0000
Subject: [PATCH 18/80] fix: accept every day of the year with %j into
 datetime_components

---
 src/scn/impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 6b0d871..711ed67 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -2449,7 +2449,7 @@ struct datetime_setter<datetime_components> {
                          setter_state& st,
                          int d)
     {
-        if (SCN_UNLIKELY(d < 0 || d > 6)) {
+        if (SCN_UNLIKELY(d < 0 || d > 365)) {
             return h.set_error(
                 {scan_error::invalid_scanned_value, "Invalid value for yday"});
         }
-- 
2.43.0


From 83df93c42e21a62ceb8482ab80de29968dd14c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:29 +0000
Subject: [PATCH 19/80] fix: store the short year and the century scanned into
 datetime_components

---
 src/scn/impl.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 711ed67..38bf12c 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -2408,12 +2408,9 @@ struct datetime_setter<datetime_components> {
                             setter_state& st,
                             int c)
     {
-        if (!t.year) {
-            t.year = c * 100;
-        }
-        else {
-            t.year = *t.year + c * 100;
-        }
+        st.century_value = static_cast<unsigned char>(c);
+        // set in handle_short_year_and_century
+        t.year = 0;
         st.set_century(h);
     }
     template <typename Handler>
@@ -2422,12 +2419,13 @@ struct datetime_setter<datetime_components> {
                                setter_state& st,
                                int y)
     {
-        if (!t.year) {
-            t.year = y;
-        }
-        else {
-            t.year = *t.year + y;
+        if (SCN_UNLIKELY(y < 0 || y > 99)) {
+            return h.set_error(
+                {scan_error::invalid_scanned_value, "Invalid value for year"});
         }
+        st.short_year_value = static_cast<unsigned char>(y);
+        // set in handle_short_year_and_century
+        t.year = 0;
         st.set_short_year(h);
     }
     template <typename Handler>
@@ -3347,6 +3345,9 @@ public:
     void verify()
     {
         m_st.verify(*this);
+        if (!m_error) {
+            return;
+        }
         if (m_st.am_pm_set && m_st.hour12_set) {
             setter::handle_am_pm(m_tm, m_st);
         }
-- 
2.43.0


From 340be98d274d5a4f3f2409b4e85388e3c1ac58db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:29 +0000
Subject: [PATCH 20/80] fix: accept %c without a locale, and don't accept all
 of weekday, day of month, and day of year

---
 include/scn/chrono.h | 3 +--
 src/scn/impl.cpp     | 2 ++
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/scn/chrono.h b/include/scn/chrono.h
index cb25ac5..2470472 100644
--- a/include/scn/chrono.h
+++ b/include/scn/chrono.h
@@ -826,8 +826,7 @@ struct setter_state {
                 {scan_error::invalid_format_string,
                  "tzoff (%z) can't be used together with tzname (%Z)"});
         }
-        if ((wday_set || mday_set || yday_set) &&
-            !(wday_set ^ mday_set ^ yday_set)) {
+        if (wday_set + mday_set + yday_set > 1) {
             return handler.set_error(
                 {scan_error::invalid_format_string,
                  "Only up to one of wday (%a/%u/%w), mday "
diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 38bf12c..c31064d 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -3190,6 +3190,8 @@ public:
         // %c == %a %b %d %H:%M:%S %Y
         constexpr CharT colon = ':';
         on_weekday_name();
+        // %c has both the weekday and the day of the month
+        m_st.wday_set = 0;
         on_whitespace();
         on_month_name();
         on_whitespace();
-- 
2.43.0


From 9dc5d6a17991a4942988a0079f28114e886a6a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:29 +0000
Subject: [PATCH 21/80] fix: don't skip the character after a multibyte literal
 in a chrono format string

---
 include/scn/chrono.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/scn/chrono.h b/include/scn/chrono.h
index 2470472..42480d1 100644
--- a/include/scn/chrono.h
+++ b/include/scn/chrono.h
@@ -432,8 +432,8 @@ constexpr const CharT* parse_chrono_format_specs(const CharT* begin,
                     handler.on_text(begin, cp_start_p);
                     handler.on_whitespace();
                     begin = p;
-                    continue;
                 }
+                continue;
             }
             ++p;
             continue;
-- 
2.43.0


From 600c49cefbdde3ebb68a1c32675c130b07a42e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:29 +0000
Subject: [PATCH 22/80] fix: don't dereference a failed result when no time
 zone name was found

---
 src/scn/impl.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index c31064d..256f656 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -3157,11 +3157,9 @@ public:
                 }
             }());
         if (!res) {
-            set_error(res.error());
-        }
-        else {
-            setter::set_tz_name(*this, m_tm, m_st, std::move(res->value()));
+            return set_error(res.error());
         }
+        setter::set_tz_name(*this, m_tm, m_st, std::move(res->value()));
         m_begin = res->begin();
     }
 
-- 
2.43.0


From 653c5c0af6e58c7cf294b0cfbba990a1bc553731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:29 +0000
Subject: [PATCH 23/80] fix: keep subseconds below 1.0 when rounding them

---
 src/scn/impl.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 256f656..6251cca 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -3074,7 +3074,10 @@ public:
             return set_error(dbl_res.error());
         }
 
-        setter::set_subsec(*this, m_tm, m_st, dbl_res->value());
+        // The value can get rounded up to 1.0
+        setter::set_subsec(
+            *this, m_tm, m_st,
+            (std::min)(dbl_res->value(), std::nextafter(1.0, 0.0)));
 
 #else  // !SCN_DISABLE_TYPE_STRING && !SCN_DISABLE_TYPE_DOUBLE
         SCN_UNUSED(sys);
-- 
2.43.0


From cc6b32d5fa2ed7a5757c8a373249d9d5d5737e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:29 +0000
Subject: [PATCH 24/80] fix: report an error when the format string doesn't set
 the scanned date component

---
 include/scn/chrono.h | 51 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 11 deletions(-)

diff --git a/include/scn/chrono.h b/include/scn/chrono.h
index 42480d1..9e2e99b 100644
--- a/include/scn/chrono.h
+++ b/include/scn/chrono.h
@@ -1566,6 +1566,13 @@ public:
     }
 };
 
+inline auto unset_chrono_component_error()
+{
+    return unexpected_scan_error(
+        scan_error::invalid_format_string,
+        "Required field not set by the format string");
+}
+
 }  // namespace detail
 
 template <typename CharT>
@@ -1580,7 +1587,9 @@ struct scanner<weekday, CharT>
         if (!r) {
             return unexpected(r.error());
         }
-        assert(dt.wday);
+        if (SCN_UNLIKELY(!dt.wday)) {
+            return detail::unset_chrono_component_error();
+        }
         wd = *dt.wday;
         return *r;
     }
@@ -1596,7 +1605,9 @@ struct scanner<day, CharT> : public detail::chrono_component_scanner<CharT> {
         if (!r) {
             return unexpected(r.error());
         }
-        assert(dt.mday);
+        if (SCN_UNLIKELY(!dt.mday)) {
+            return detail::unset_chrono_component_error();
+        }
         d = day{static_cast<unsigned>(*dt.mday)};
         return *r;
     }
@@ -1612,7 +1623,9 @@ struct scanner<month, CharT> : public detail::chrono_component_scanner<CharT> {
         if (!r) {
             return unexpected(r.error());
         }
-        assert(dt.mon);
+        if (SCN_UNLIKELY(!dt.mon)) {
+            return detail::unset_chrono_component_error();
+        }
         m = *dt.mon;
         return *r;
     }
@@ -1628,7 +1641,9 @@ struct scanner<year, CharT> : public detail::chrono_component_scanner<CharT> {
         if (!r) {
             return unexpected(r.error());
         }
-        assert(dt.year);
+        if (SCN_UNLIKELY(!dt.year)) {
+            return detail::unset_chrono_component_error();
+        }
         y = year{static_cast<int>(*dt.year)};
         return *r;
     }
@@ -1646,8 +1661,12 @@ struct scanner<month_day, CharT>
         if (!r) {
             return unexpected(r.error());
         }
-        assert(dt.mon);
-        assert(dt.mday);
+        if (SCN_UNLIKELY(!dt.mon)) {
+            return detail::unset_chrono_component_error();
+        }
+        if (SCN_UNLIKELY(!dt.mday)) {
+            return detail::unset_chrono_component_error();
+        }
         md = month_day{month{static_cast<unsigned>(*dt.mon)},
                        day{static_cast<unsigned>(*dt.mday)}};
         return *r;
@@ -1666,8 +1685,12 @@ struct scanner<year_month, CharT>
         if (!r) {
             return unexpected(r.error());
         }
-        assert(dt.year);
-        assert(dt.mon);
+        if (SCN_UNLIKELY(!dt.year)) {
+            return detail::unset_chrono_component_error();
+        }
+        if (SCN_UNLIKELY(!dt.mon)) {
+            return detail::unset_chrono_component_error();
+        }
         ym = year_month{year{static_cast<int>(*dt.year)},
                         month{static_cast<unsigned>(*dt.mon)}};
         return *r;
@@ -1686,9 +1709,15 @@ struct scanner<year_month_day, CharT>
         if (!r) {
             return unexpected(r.error());
         }
-        assert(dt.year);
-        assert(dt.mon);
-        assert(dt.mday);
+        if (SCN_UNLIKELY(!dt.year)) {
+            return detail::unset_chrono_component_error();
+        }
+        if (SCN_UNLIKELY(!dt.mon)) {
+            return detail::unset_chrono_component_error();
+        }
+        if (SCN_UNLIKELY(!dt.mday)) {
+            return detail::unset_chrono_component_error();
+        }
         ymd = year_month_day{year{static_cast<int>(*dt.year)},
                              month{static_cast<unsigned>(*dt.mon)},
                              day{static_cast<unsigned>(*dt.mday)}};
-- 
2.43.0


From 5533b337a1421c8e9e03e8a5837307a6ec9abce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:29 +0000
Subject: [PATCH 25/80] fix: continue localized date and time scanning from
 where the previous field ended

---
 src/scn/impl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 6251cca..3ccfb48 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -3515,12 +3515,12 @@ private:
             if constexpr (std::is_same_v<
                               iterator,
                               remove_cvref_t<decltype(m_range.end())>>) {
-                return std::pair{m_range.begin(), m_range.end()};
+                return std::pair{m_begin, m_range.end()};
             }
             else {
                 using common_iterator_type =
                     typename basic_scan_buffer<CharT>::common_forward_iterator;
-                return std::pair{common_iterator_type{m_range.begin()},
+                return std::pair{common_iterator_type{m_begin},
                                  common_iterator_type{m_range.end()}};
             }
         }();
-- 
2.43.0


From 4b57112286f00f280bbb2bbe7fb7395e69da5d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:29 +0000
Subject: [PATCH 26/80] fix: localized month names don't depend on fast_float

---
 src/scn/impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 3ccfb48..82a7177 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -2803,7 +2803,7 @@ public:
 
     void on_month_name()
     {
-#if !SCN_DISABLE_FAST_FLOAT
+#if !SCN_DISABLE_LOCALE
         if (m_st.localized) {
             if (auto t = read_localized("%b", L"%b")) {
                 setter::set_mon(*this, m_tm, m_st, t->tm_mon + 1);
-- 
2.43.0


From e9671d514c1c859cc4c4a86796727c5a0dd4ebb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:29 +0000
Subject: [PATCH 27/80] fix: compare only letters case-insensitively in month,
 weekday and AM/PM names

---
 src/scn/impl.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 82a7177..c86bcb2 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -3423,6 +3423,15 @@ private:
         return false;
     }
 
+    static bool equals_ascii_nocase(CharT a, char b)
+    {
+        if (a == static_cast<CharT>(b)) {
+            return true;
+        }
+        // Only letters differ in case by a single bit
+        return is_ascii_letter(b) && (a ^ static_cast<CharT>(b)) == 32;
+    }
+
     template <typename OptT, std::size_t N>
     std::optional<OptT> try_one_of_str_nocase(
         std::array<std::pair<std::string_view, OptT>, N>& options)
@@ -3440,10 +3449,9 @@ private:
             const auto ch = *m_begin;
             ++m_begin;
             while (i < options_available) {
-                const auto cmp = static_cast<unsigned>(
-                    ch ^ options[i].first[chars_consumed]);
                 if (options[i].first.size() <= chars_consumed ||
-                    (cmp != 0 && cmp != 32)) {
+                    !equals_ascii_nocase(ch,
+                                         options[i].first[chars_consumed])) {
                     std::rotate(options.begin() + i, options.begin() + i + 1,
                                 options.end());
                     --options_available;
-- 
2.43.0


From 75452ab194272e5511ceae3eae4b9484ec028e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:16 +0000
Subject: [PATCH 28/80] fix: detect overflow of integers with the maximum
 number of digits

---
 src/scn/impl.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index c86bcb2..4b593d1 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -1100,7 +1100,10 @@ auto parse_decimal_integer_fast(std::string_view input,
         input.data(), input.data() + input.size(), u64val);
 
     auto digits_count = static_cast<size_t>(ptr - input.data());
+    // The result of an overflow can be larger than min_safe_u64(10), if the first
+    // of the maximum number of digits isn't 1
     if (SCN_UNLIKELY(
+            (digits_count == maxdigits_u64(10) && input.front() != '1') ||
             check_integer_overflow<T>(u64val, digits_count, 10, is_negative))) {
         return detail::unexpected_scan_error(
             is_negative ? scan_error::value_negative_overflow
@@ -1122,18 +1125,27 @@ auto parse_regular_integer(std::basic_string_view<CharT> input,
     const CharT* begin = input.data();
     const CharT* const end = input.data() + input.size();
 
+    bool overflow = false;
     while (begin != end) {
         const auto digit = char_to_int(*begin);
         if (digit >= base) {
             break;
         }
+        // A number with the maximum number of digits can wrap around to a value
+        // that's larger than min_safe_u64(base)
+        if (SCN_UNLIKELY(u64val > (std::numeric_limits<uint64_t>::max() -
+                                   static_cast<uint64_t>(digit)) /
+                                      static_cast<uint64_t>(base))) {
+            overflow = true;
+        }
         u64val =
             static_cast<uint64_t>(base) * u64val + static_cast<uint64_t>(digit);
         ++begin;
     }
 
     auto digits_count = static_cast<size_t>(begin - input.data());
-    if (SCN_UNLIKELY(check_integer_overflow<T>(u64val, digits_count, base,
+    if (SCN_UNLIKELY(overflow ||
+                     check_integer_overflow<T>(u64val, digits_count, base,
                                                is_negative))) {
         return detail::unexpected_scan_error(
             is_negative ? scan_error::value_negative_overflow
-- 
2.43.0


From 07744034fe0b53037a3db82b2fcda8e7f7b3cc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:49 +0000
Subject: [PATCH 29/80] fix: report end of input instead of reading a code
 point past it

---
 src/scn/impl.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 666070d..b052ec5 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -5624,6 +5624,10 @@ public:
     auto read(const SourceRange& range, char32_t& cp)
         -> scan_expected<ranges::const_iterator_t<SourceRange>>
     {
+        if (auto e = eof_check(range); SCN_UNLIKELY(!e)) {
+            return unexpected(make_eof_scan_error(e));
+        }
+
         auto result = read_code_point_into(range);
         if (SCN_UNLIKELY(!result.is_valid())) {
             return detail::unexpected_scan_error(
-- 
2.43.0


From 2678c55271f85958122126e55fcac2ed6bdcfe0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:04 +0000
Subject: [PATCH 30/80] fix: keep the ASCII part of a [character set] range
 ending beyond ASCII

---
 include/scn/scan.h | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 246fa9b..afd03f5 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -7090,16 +7090,14 @@ public:
         const auto end_value = static_cast<unsigned>(end);
         SCN_EXPECT(begin_value < end_value);
 
-        if (SCN_LIKELY(end_value <= 127)) {
-            // No need to bit-twiddle with a mask, because with the
-            // SCN_ASSUME, -O3 will optimize this to a single operation
-            SCN_ASSUME(begin_value < end_value);
-            for (auto v = begin_value; v != end_value; ++v) {
-                m_specs.charset_literals[v / 8] |=
-                    static_cast<unsigned char>(1ul << (v % 8));
-            }
+        // The ASCII part of the range
+        const auto ascii_end_value = end_value < 128 ? end_value : 128u;
+        for (auto v = begin_value; v < ascii_end_value; ++v) {
+            m_specs.charset_literals[v / 8] |=
+                static_cast<unsigned char>(1ul << (v % 8));
         }
-        else {
+
+        if (SCN_UNLIKELY(end_value > 128)) {
             m_specs.charset_has_nonascii = true;
         }
     }
-- 
2.43.0


From ab1d3186647b020534dd493370d582c43485e82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:43 +0000
Subject: [PATCH 31/80] fix: don't replace a scanning error with an unexhausted
 argument list

---
 include/scn/scan.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index afd03f5..1e0b104 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -7806,6 +7806,11 @@ constexpr scan_expected<void> parse_format_string(
     Handler&& handler)
 {
     parse_format_string_impl<IsConstexpr>(format, handler);
+    if (auto e = handler.get_error(); SCN_UNLIKELY(!e)) {
+        // Don't replace the original error: not every argument has been visited
+        // after one
+        return e;
+    }
     handler.check_args_exhausted();
     return handler.get_error();
 }
-- 
2.43.0


From 8e3c77f02806ca76100ce095c572d44e2d061979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:00 +0000
Subject: [PATCH 32/80] fix: don't skip ill-formed code points as if they were
 whitespace or in a character set

---
 src/scn/impl.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index b052ec5..c58ca50 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -2159,12 +2159,15 @@ auto read_until_code_point(Range range, function_ref<bool(char32_t)> pred)
     while (it != range.end()) {
         const auto val =
             read_code_point_into(ranges::subrange{it, range.end()});
-        if (SCN_LIKELY(val.is_valid())) {
-            const auto cp = detail::decode_code_point_exhaustive(
-                std::basic_string_view<detail::char_t<Range>>{val.codepoint});
-            if (pred(cp)) {
-                return it;
-            }
+        // An ill-formed code point matches only an inverted predicate
+        const auto cp =
+            SCN_LIKELY(val.is_valid())
+                ? detail::decode_code_point_exhaustive(
+                      std::basic_string_view<detail::char_t<Range>>{
+                          val.codepoint})
+                : detail::invalid_code_point;
+        if (pred(cp)) {
+            return it;
         }
         it = val.iterator;
     }
-- 
2.43.0


From 2a2d9e4ff9a1fc52011697a4f0eac6938a01b1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:05 +0000
Subject: [PATCH 33/80] fix: don't advance in the missing buffer of an
 unreadable FILE

---
 src/scn/impl.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index c58ca50..7c03afa 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -1203,8 +1203,12 @@ bool basic_scan_file_buffer<FileInterface>::sync(std::ptrdiff_t position)
             return true;
         }
 
-        m_file.unsafe_advance_n(position - static_cast<std::ptrdiff_t>(
-                                               this->putback_buffer().size()));
+        const auto n = position - static_cast<std::ptrdiff_t>(
+                                      this->putback_buffer().size());
+        // An unreadable file has no buffer to advance in
+        if (n != 0) {
+            m_file.unsafe_advance_n(n);
+        }
         return true;
     }
 
-- 
2.43.0


From 404fb2902fd07e6c2f613a0f19577d8f1c1333f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:15 +0000
Subject: [PATCH 34/80] fix: make the compile-time parse context usable without
 immediate-escalating functions

---
 include/scn/scan.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 1e0b104..2c7e8a7 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -6754,7 +6754,7 @@ class compile_parse_context : public basic_scan_parse_context<CharT> {
 
 public:
     template <typename Source>
-    explicit SCN_CONSTEVAL compile_parse_context(
+    explicit constexpr compile_parse_context(
         source_tag_type<Source>,
         std::basic_string_view<CharT> format_str,
         int num_args,
-- 
2.43.0


From 5e47ee05555f39a21c5cc3584e78aaa9824a25e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:39 +0000
Subject: [PATCH 35/80] fix: require the digits of a field precision

---
 include/scn/scan.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 2c7e8a7..bdc6925 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -7389,6 +7389,10 @@ constexpr const CharT* parse_precision(const CharT* begin,
             return begin;
         }
     }
+    else {
+        handler.on_error("Missing field precision after '.'");
+        return begin;
+    }
     return begin;
 }
 
-- 
2.43.0


From 5e94f05c67773e5651cd0c98ae9f16cdde706547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:39 +0000
Subject: [PATCH 36/80] fix: don't take the end of an empty format specifier
 for a fill character

---
 include/scn/scan.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index bdc6925..efff93d 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -7294,6 +7294,11 @@ constexpr const CharT* parse_align(const CharT* begin,
 {
     SCN_EXPECT(begin != end);
 
+    if (*begin == CharT{'}'}) {
+        // Empty format specifier, whatever comes after it
+        return begin;
+    }
+
     auto check_align = [](wchar_t ch) {
         switch (ch) {
             case L'<':
-- 
2.43.0


From 008d4038b9265b554bb4733fd9b30bc6a58c809e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:39 +0000
Subject: [PATCH 37/80] fix: reject an ill-formed fill character

---
 include/scn/scan.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index efff93d..0d9421f 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -7352,6 +7352,12 @@ constexpr const CharT* parse_align(const CharT* begin,
         return begin_before_fill;
     }
 
+    if (SCN_UNLIKELY(decode_code_point_exhaustive(potential_fill) >=
+                     invalid_code_point)) {
+        handler.on_error("Invalid encoding in fill character");
+        return begin;
+    }
+
     handler.on_fill(potential_fill);
     handler.on_align(potential_align_after_fill);
     return begin;
-- 
2.43.0


From 799cdec599c07eff4ad9eb5ebf2646a78d21731b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:09 +0000
Subject: [PATCH 38/80] fix: reject mixed automatic and explicit argument
 numbering at run time

---
 src/scn/impl.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 4b593d1..e361753 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -1651,16 +1651,26 @@ struct format_handler : format_handler_base {
         }
     }
 
-    constexpr std::size_t on_arg_id()
+    std::size_t on_arg_id()
     {
-        return parse_ctx.next_arg_id();
+        const auto id = parse_ctx.next_arg_id();
+        check_parse_ctx_error();
+        return id;
     }
-    constexpr std::size_t on_arg_id(std::size_t id)
+    std::size_t on_arg_id(std::size_t id)
     {
         parse_ctx.check_arg_id(id);
+        check_parse_ctx_error();
         return id;
     }
 
+    void check_parse_ctx_error()
+    {
+        if (auto e = parse_ctx.get_error(); SCN_UNLIKELY(!e)) {
+            on_error(e.error());
+        }
+    }
+
     template <typename Visitor>
     void on_visit_scan_arg(Visitor&& visitor, arg_type arg)
     {
-- 
2.43.0


From 75133ea544772f1eca785eb67b51ff473cceb270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:49 +0000
Subject: [PATCH 39/80] fix: stop at an invalid format specifier instead of
 parsing the format string again

---
 src/scn/impl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index e361753..4e807ae 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -1727,7 +1727,8 @@ struct format_handler : format_handler_base {
                       "Missing '}' in format string"});
             return parse_ctx.begin();
         }
-        if (SCN_UNLIKELY(!handler.get_error())) {
+        if (auto e = handler.get_error(); SCN_UNLIKELY(!e)) {
+            on_error(e.error());
             return parse_ctx.begin();
         }
         parse_ctx.advance_to(begin);
-- 
2.43.0


From 7af3f37cbc0a5eb020abc2dd96e87940ee5f8483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:46 +0000
Subject: [PATCH 40/80] fix: reject surrogates in 4-byte wide text

---
 include/scn/scan.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 0d9421f..e736717 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -4291,7 +4291,8 @@ inline constexpr char32_t decode_code_point_exhaustive(
     else {
         SCN_EXPECT(input.size() == 1);
         auto cp = static_cast<char32_t>(input.front());
-        if (SCN_UNLIKELY(cp >= invalid_code_point)) {
+        if (SCN_UNLIKELY(cp >= invalid_code_point ||
+                         (cp >= 0xd800 && cp <= 0xdfff))) {
             return invalid_code_point;
         }
         return cp;
-- 
2.43.0


From 3f37563d69774603403ea5915dcd56b9945b5233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:04 +0000
Subject: [PATCH 41/80] fix: remove thousands separators before changing the
 decimal point of a localized float

---
 src/scn/impl.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 7c03afa..cf43702 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -4111,6 +4111,11 @@ private:
         }
 
         auto& str = this->m_buffer.make_into_allocated_string();
+
+        // The separators need to be removed before changing the decimal point,
+        // because the thousands separator can be '.'
+        remove_thousands_separators(str);
+
         if (m_locale_options.decimal_point != CharT{'.'}) {
             for (auto& ch : str) {
                 if (ch == m_locale_options.decimal_point) {
@@ -4118,7 +4123,10 @@ private:
                 }
             }
         }
+    }
 
+    void remove_thousands_separators(std::basic_string<CharT>& str)
+    {
         if (m_locale_options.thousands_sep == 0) {
             return;
         }
-- 
2.43.0


From a1ff4101b34f19d7da9a53fb562267a77b1efed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:18 +0000
Subject: [PATCH 42/80] fix: try the longer of the localized names of true and
 false first

---
 src/scn/impl.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index cf43702..1fd02c8 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -5532,14 +5532,15 @@ protected:
         const auto longer = std::pair{
             !is_truename_shorter ? truename : falsename, !is_truename_shorter};
 
-        if (auto r = read_matching_string(range, shorter.first)) {
-            value = shorter.second;
-            return *r;
-        }
+        // The shorter name may be a prefix of the longer one
         if (auto r = read_matching_string(range, longer.first)) {
             value = longer.second;
             return *r;
         }
+        if (auto r = read_matching_string(range, shorter.first)) {
+            value = shorter.second;
+            return *r;
+        }
 
         return detail::unexpected_scan_error(
             scan_error::invalid_scanned_value,
-- 
2.43.0


From 6bbbd857599e4e2cb8d25e6ebba0118cd245007c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:18 +0000
Subject: [PATCH 43/80] fix: don't skip whitespace before a regex when scanning
 regex_matches

---
 src/scn/impl.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 1fd02c8..8a5527f 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -4726,6 +4726,11 @@ inline std::wstring get_unescaped_regex_pattern(std::wstring_view pattern)
 template <typename SourceCharT>
 struct regex_matches_reader
     : public reader_base<regex_matches_reader<SourceCharT>, SourceCharT> {
+    bool skip_ws_before_read() const
+    {
+        return false;
+    }
+
     void check_specs_impl(const detail::format_specs& specs,
                           reader_error_handler& eh)
     {
-- 
2.43.0


From ec3ebcaef8cdf45a178adc3838841556ea45602f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:18 +0000
Subject: [PATCH 44/80] fix: don't take null characters for thousands
 separators without grouping

---
 src/scn/impl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 8a5527f..02f871a 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -3457,7 +3457,8 @@ auto parse_integer_digits_with_thsep(
     auto it = range.begin();
     bool digit_matched = false;
     for (; it != range.end(); ++it) {
-        if (*it == locale_options.thousands_sep) {
+        if (locale_options.thousands_sep != 0 &&
+            *it == locale_options.thousands_sep) {
             thsep_indices.push_back(
                 static_cast<char>(ranges::distance(range.begin(), it)));
         }
-- 
2.43.0


From 97081ef29585ee7a10a76e4dc79723e089be083d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:29 +0000
Subject: [PATCH 45/80] fix: don't expect a regex when the specifier of
 regex_matches isn't one

---
 src/scn/impl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 02f871a..7930119 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -4736,6 +4736,9 @@ struct regex_matches_reader
                           reader_error_handler& eh)
     {
         detail::check_regex_type_specs(specs, eh);
+        if (SCN_UNLIKELY(!eh)) {
+            return;
+        }
         SCN_EXPECT(specs.charset_string_data != nullptr);
         SCN_EXPECT(specs.charset_string_size > 0);
     }
-- 
2.43.0


From f02c8ffc1b5f419d728639f079b04aacaef670dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:16 +0000
Subject: [PATCH 46/80] fix: keep back-references working when scanning a regex
 into a string

---
 src/scn/impl.h | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 7930119..08f514a 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -4411,8 +4411,8 @@ auto read_regex_string_impl(std::basic_string_view<CharT> pattern,
     std::basic_regex<CharT> re{};
     try {
         SCN_TRY(re_flags, make_regex_flags(flags));
-        re = std::basic_regex<CharT>{pattern.data(), pattern.size(),
-                                     re_flags | std::regex_constants::nosubs};
+        // Not adding nosubs, it'd disable back-references
+        re = std::basic_regex<CharT>{pattern.data(), pattern.size(), re_flags};
     }
     catch (const std::regex_error& err) {
         return detail::unexpected_scan_error(scan_error::invalid_format_string,
@@ -4440,15 +4440,13 @@ auto read_regex_string_impl(std::basic_string_view<CharT> pattern,
 #elif SCN_REGEX_BACKEND == SCN_REGEX_BACKEND_BOOST
     auto re =
 #if SCN_REGEX_BOOST_USE_ICU
-        boost::make_u32regex(pattern.data(), pattern.data() + pattern.size(),
-                             make_regex_flags(flags) |
-                                 boost::regex_constants::no_except |
-                                 boost::regex_constants::nosubs);
+        boost::make_u32regex(
+            pattern.data(), pattern.data() + pattern.size(),
+            make_regex_flags(flags) | boost::regex_constants::no_except);
 #else
-        boost::basic_regex<CharT>{pattern.data(), pattern.size(),
-                                  make_regex_flags(flags) |
-                                      boost::regex_constants::no_except |
-                                      boost::regex_constants::nosubs};
+        boost::basic_regex<CharT>{
+            pattern.data(), pattern.size(),
+            make_regex_flags(flags) | boost::regex_constants::no_except};
 #endif
     if (re.status() != 0) {
         return detail::unexpected_scan_error(scan_error::invalid_format_string,
-- 
2.43.0


From 76a58664b6a0ef94b1bee1377aab8d23bab394d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:13 +0000
Subject: [PATCH 47/80] fix: give a regex match the name of its own
 subexpression only

---
 src/scn/impl.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 08f514a..e03b8dc 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -4633,10 +4633,15 @@ auto read_regex_matches_impl(std::basic_string_view<CharT> pattern,
             auto sv = detail::make_string_view_from_pointers(match.first,
                                                              match.second);
 
+            // Compare identities, not the matched text
             if (auto name_it = std::find_if(
                     names.begin(), names.end(),
-                    [&](const auto& name) { return match == matches[name]; });
-                name_it != names.end()) {
+                    [&](const auto& name) {
+                        return std::addressof(match) ==
+                               std::addressof(matches[name]);
+                    });
+                name_it != names.end() &&
+                std::addressof(match) != std::addressof(matches[0])) {
                 return basic_regex_match<CharT>{sv, *name_it};
             }
             return sv;
-- 
2.43.0


From 65601bef16a1f0aae82d982fda28f13ea52d00cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:12 +0000
Subject: [PATCH 48/80] fix: report ill-formed text as an error with
 Boost.Regex and the ICU

---
 src/scn/impl.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index e03b8dc..7ddd86f 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -4438,6 +4438,12 @@ auto read_regex_string_impl(std::basic_string_view<CharT> pattern,
 
     return input.begin() + ranges::distance(input.data(), matches[0].second);
 #elif SCN_REGEX_BACKEND == SCN_REGEX_BACKEND_BOOST
+#if SCN_REGEX_BOOST_USE_ICU
+    if (SCN_UNLIKELY(!validate_unicode(pattern))) {
+        return detail::unexpected_scan_error(scan_error::invalid_format_string,
+                                             "Invalid encoding in regex");
+    }
+#endif
     auto re =
 #if SCN_REGEX_BOOST_USE_ICU
         boost::make_u32regex(
@@ -4471,7 +4477,8 @@ auto read_regex_string_impl(std::basic_string_view<CharT> pattern,
                 "Regular expression didn't match");
         }
     }
-    catch (const std::runtime_error& err) {
+    catch (const std::exception& err) {
+        // Boost with the ICU throws a logic_error on ill-formed text
         return detail::unexpected_scan_error(
             scan_error::invalid_format_string,
             "Regex matching failed with an error");
@@ -4585,6 +4592,12 @@ auto read_regex_matches_impl(std::basic_string_view<CharT> pattern,
         names.emplace_back(pattern.substr(i, end_i - i));
     }
 
+#if SCN_REGEX_BOOST_USE_ICU
+    if (SCN_UNLIKELY(!validate_unicode(pattern))) {
+        return detail::unexpected_scan_error(scan_error::invalid_format_string,
+                                             "Invalid encoding in regex");
+    }
+#endif
     auto re =
 #if SCN_REGEX_BOOST_USE_ICU
         boost::make_u32regex(
@@ -4618,7 +4631,8 @@ auto read_regex_matches_impl(std::basic_string_view<CharT> pattern,
                 "Regular expression didn't match");
         }
     }
-    catch (const std::runtime_error& err) {
+    catch (const std::exception& err) {
+        // Boost with the ICU throws a logic_error on ill-formed text
         return detail::unexpected_scan_error(
             scan_error::invalid_format_string,
             "Regex matching failed with an error");
-- 
2.43.0


From ea938949e03fc119735735926b260a2c8174c728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:18 +0000
Subject: [PATCH 49/80] fix: report a mismatching literal in a chrono format as
 invalid_literal

---
 src/scn/impl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 4e807ae..8237b74 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -2744,7 +2744,8 @@ public:
                 return set_error({scan_error::end_of_input, "EOF"});
             }
             if (*beg != *m_begin) {
-                return on_error("Invalid literal character");
+                return set_error({scan_error::invalid_literal,
+                                  "Unexpected literal character"});
             }
             ++beg;
             ++m_begin;
-- 
2.43.0


From 77662577f27882a58bb856b8b7d88e4d32585d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:18 +0000
Subject: [PATCH 50/80] fix: read %OW in a chrono format as a week number, not
 as a weekday

---
 include/scn/chrono.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/scn/chrono.h b/include/scn/chrono.h
index 9e2e99b..18987b0 100644
--- a/include/scn/chrono.h
+++ b/include/scn/chrono.h
@@ -681,7 +681,7 @@ constexpr const CharT* parse_chrono_format_specs(const CharT* begin,
                         handler.on_dec0_weekday(numeric_system::alternative_o);
                         break;
                     case CharT{'W'}:
-                        handler.on_dec1_weekday(numeric_system::alternative_o);
+                        handler.on_dec1_week_of_year();
                         break;
                     case CharT{'y'}:
                         handler.on_short_year(numeric_system::alternative_o);
-- 
2.43.0


From c911e78463f62907ed63502af185b9274a5a4ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:18 +0000
Subject: [PATCH 51/80] fix: treat non-ASCII whitespace in a wide chrono format
 as whitespace

---
 include/scn/chrono.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/scn/chrono.h b/include/scn/chrono.h
index 18987b0..67ccfc7 100644
--- a/include/scn/chrono.h
+++ b/include/scn/chrono.h
@@ -414,8 +414,8 @@ constexpr const CharT* parse_chrono_format_specs(const CharT* begin,
                 handler.on_error("Invalid literal character");
                 return p;
             }
-            if (cp_len > 1) {
-                // Multi code unit code point,
+            if (cp_len > 1 || sizeof(CharT) > 1) {
+                // Multi code unit code point, or a wide code unit,
                 // possible space
                 auto cp_start_p = p;
                 CharT buffer[4] = {};
-- 
2.43.0


From 0f04760556761043288c6f0f8c9d90f9b0818fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:18 +0000
Subject: [PATCH 52/80] fix: refuse months past 12 for month_day, year_month
 and year_month_day

---
 src/scn/impl.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 8237b74..18b9c04 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -2574,7 +2574,7 @@ struct datetime_setter<month> : unreachable_datetime_setter<month> {
     template <typename Handler>
     static void set_mon(Handler& h, month& t, setter_state& st, int m)
     {
-        if (SCN_UNLIKELY(m < 1 || m > 31)) {
+        if (SCN_UNLIKELY(m < 1 || m > 12)) {
             return h.set_error(
                 {scan_error::invalid_scanned_value, "Invalid value for month"});
         }
@@ -2610,7 +2610,7 @@ struct datetime_setter<month_day> : unreachable_datetime_setter<month_day> {
     template <typename Handler>
     static void set_mon(Handler& h, month_day& t, setter_state& st, int m)
     {
-        if (SCN_UNLIKELY(m < 1 || m > 31)) {
+        if (SCN_UNLIKELY(m < 1 || m > 12)) {
             return h.set_error(
                 {scan_error::invalid_scanned_value, "Invalid value for month"});
         }
@@ -2659,7 +2659,7 @@ struct datetime_setter<year_month> : unreachable_datetime_setter<year_month> {
     template <typename Handler>
     static void set_mon(Handler& h, year_month& t, setter_state& st, int m)
     {
-        if (SCN_UNLIKELY(m < 1 || m > 31)) {
+        if (SCN_UNLIKELY(m < 1 || m > 12)) {
             return h.set_error(
                 {scan_error::invalid_scanned_value, "Invalid value for month"});
         }
@@ -2703,7 +2703,7 @@ struct datetime_setter<year_month_day>
     template <typename Handler>
     static void set_mon(Handler& h, year_month_day& t, setter_state& st, int m)
     {
-        if (SCN_UNLIKELY(m < 1 || m > 31)) {
+        if (SCN_UNLIKELY(m < 1 || m > 12)) {
             return h.set_error(
                 {scan_error::invalid_scanned_value, "Invalid value for month"});
         }
-- 
2.43.0


From 648cc73dfd3cf3c45dffa94e957086f75ab62fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:18 +0000
Subject: [PATCH 53/80] fix: round subseconds to the nearest nanosecond and
 check time points for overflow

---
 include/scn/chrono.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/scn/chrono.h b/include/scn/chrono.h
index 67ccfc7..a2e9a1e 100644
--- a/include/scn/chrono.h
+++ b/include/scn/chrono.h
@@ -20,6 +20,7 @@
 #include <scn/scan.h>
 
 #include <chrono>
+#include <cmath>
 #include <ctime>
 
 #if SCN_DISABLE_CHRONO
@@ -357,11 +358,18 @@ std::optional<Duration> time_since_unix_epoch(const datetime_components& dt)
     auto time = std::chrono::seconds{std::mktime(&tm)};
     if constexpr (Duration::period::type::den > std::intmax_t{1}) {
         // Duration more precise than seconds (seconds is std::ratio<1, 1>)
+        if (time >= std::chrono::duration_cast<std::chrono::seconds>(
+                        Duration::max()) ||
+            time <= std::chrono::duration_cast<std::chrono::seconds>(
+                        Duration::min())) {
+            return std::nullopt;
+        }
         if (dt.subsec) {
             auto subsec_in_ns =
-                std::chrono::nanoseconds{static_cast<std::int64_t>(
-                    *dt.subsec * static_cast<double>(std::nano::den))};
-            return std::chrono::duration_cast<Duration>(time + subsec_in_ns);
+                std::chrono::nanoseconds{static_cast<std::int64_t>(std::llround(
+                    *dt.subsec * static_cast<double>(std::nano::den)))};
+            return std::chrono::duration_cast<Duration>(time) +
+                   std::chrono::duration_cast<Duration>(subsec_in_ns);
         }
     }
     // Duration is seconds or larger, or subsec is not set
-- 
2.43.0


From ad154f858780f80906ed5ffe59c496ca2af734c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:18 +0000
Subject: [PATCH 54/80] fix: give std::time_get an iterator that can recognize
 the end of the input

---
 src/scn/impl.cpp | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 18b9c04..56c475e 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -3493,8 +3493,14 @@ private:
     }
 
 #if !SCN_DISABLE_LOCALE
+    // std::time_get needs the iterator and the sentinel to be of the same type
+    using common_iterator = std::conditional_t<
+        std::is_same_v<iterator, ranges::sentinel_t<Range>>,
+        iterator,
+        typename basic_scan_buffer<CharT>::common_forward_iterator>;
+
     struct localized_read_state {
-        using time_facet_type = std::time_get<CharT, iterator>;
+        using time_facet_type = std::time_get<CharT, common_iterator>;
         using numpunct_facet_type = std::numpunct<CharT>;
 
         std::locale locale;
@@ -3543,21 +3549,10 @@ private:
         const auto& facet = *get_localized_read_state().time_facet;
         std::ios_base::iostate err{std::ios_base::goodbit};
         std::tm tm{};
-        auto [begin, end] = [&]() {
-            if constexpr (std::is_same_v<
-                              iterator,
-                              remove_cvref_t<decltype(m_range.end())>>) {
-                return std::pair{m_begin, m_range.end()};
-            }
-            else {
-                using common_iterator_type =
-                    typename basic_scan_buffer<CharT>::common_forward_iterator;
-                return std::pair{common_iterator_type{m_begin},
-                                 common_iterator_type{m_range.end()}};
-            }
-        }();
-        auto iter = facet.get(begin, end, m_loc_state->dummy_stream, err, &tm,
-                              fmt.data(), fmt.data() + fmt.size());
+        auto iter = facet.get(common_iterator(m_begin),
+                              common_iterator(m_range.end()),
+                              m_loc_state->dummy_stream, err, &tm, fmt.data(),
+                              fmt.data() + fmt.size());
         if ((err & std::ios_base::failbit) != 0) {
             set_error({scan_error::invalid_scanned_value,
                        "Failed to scan localized datetime"});
-- 
2.43.0


From 3a906999f620139c221157df87f731365be04518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:18 +0000
Subject: [PATCH 55/80] fix: read nested sources past the chunk that they start
 in

---
 include/scn/scan.h | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index e736717..dae26eb 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -5139,9 +5139,7 @@ public:
           m_other(&other),
           m_starting_pos(starting_pos)
     {
-        this->m_current_view = other.get_segment_starting_at(starting_pos);
-        m_fill_needs_to_propagate = other.get_segment_starting_at(0).end() ==
-                                    this->m_current_view.end();
+        copy_state();
     }
 
     basic_scan_ref_buffer(std::basic_string_view<CharT> view)
@@ -5156,24 +5154,30 @@ public:
         }
         SCN_EXPECT(m_starting_pos >= 0);
 
-        if (m_fill_needs_to_propagate) {
-            auto ret = m_other->fill();
+        auto ret = m_other->fill();
+        copy_state();
+        return ret;
+    }
+
+private:
+    // Mirror the contents of *m_other, starting from m_starting_pos
+    void copy_state()
+    {
+        const auto& putback = m_other->putback_buffer();
+        const auto start = static_cast<std::size_t>(m_starting_pos);
+        if (start < putback.size()) {
+            this->m_putback_buffer.append(
+                putback, start + this->m_putback_buffer.size());
             this->m_current_view = m_other->current_view();
-            this->m_putback_buffer =
-                m_other->putback_buffer().substr(m_starting_pos);
-            return ret;
         }
-
-        m_fill_needs_to_propagate = true;
-        this->m_putback_buffer = std::basic_string<CharT>{this->m_current_view};
-        this->m_current_view = m_other->current_view();
-        return true;
+        else {
+            this->m_current_view =
+                m_other->get_segment_starting_at(m_starting_pos);
+        }
     }
 
-private:
     base* m_other;
     std::ptrdiff_t m_starting_pos{-1};
-    bool m_fill_needs_to_propagate{false};
 };
 
 template <typename CharT>
-- 
2.43.0


From 59a9a9b274747207dcd571ac54f94627f8f6127e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:18 +0000
Subject: [PATCH 56/80] fix: let a null empty view be a source of nested and
 chrono scans

---
 include/scn/scan.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index dae26eb..3b1b7d7 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -4482,8 +4482,8 @@ public:
 
     bool stores_parent() const
     {
-        assert(m_begin);
-        return m_end == nullptr;
+        // If both are null, this is an iterator to an empty (null) view
+        return m_begin != nullptr && m_end == nullptr;
     }
 
     basic_scan_buffer<CharT>* parent()
-- 
2.43.0


From b238462338ea17a98e14474928a3559e2d8f65c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:11 +0000
Subject: [PATCH 57/80] fix: let istream extraction put characters back any
 number of times

---
 include/scn/istream.h | 62 +++++++++++++++++--------------------------
 1 file changed, 24 insertions(+), 38 deletions(-)

diff --git a/include/scn/istream.h b/include/scn/istream.h
index 3fd86d1..9f41722 100644
--- a/include/scn/istream.h
+++ b/include/scn/istream.h
@@ -72,7 +72,7 @@ public:
     using int_type = typename base::int_type;
 
     explicit basic_range_streambuf(range_type range)
-        : m_range(range), m_begin(ranges::begin(m_range)), m_begin_prev(m_begin)
+        : m_range(range), m_begin(ranges::begin(m_range))
     {
     }
 
@@ -81,67 +81,57 @@ public:
     {
         return m_begin;
     }
-    iterator begin_prev() const
-        noexcept(std::is_nothrow_copy_constructible_v<iterator>)
-    {
-        return m_begin_prev;
-    }
-    int_type last_char() const noexcept
-    {
-        return m_ch;
-    }
 
 private:
     int_type underflow() override
     {
-        // Already read
-        if (!traits_type::eq_int_type(m_ch, traits_type::eof())) {
-            return m_ch;
-        }
-
         if (m_begin == ranges::end(m_range)) {
             return traits_type::eof();
         }
-        m_begin_prev = m_begin;
-        SCN_CLANG_PUSH_IGNORE_UNSAFE_BUFFER_USAGE
-        m_ch = traits_type::to_int_type(*m_begin++);
-        SCN_CLANG_POP_IGNORE_UNSAFE_BUFFER_USAGE
-        return m_ch;
+        return traits_type::to_int_type(*m_begin);
     }
 
     int_type uflow() override
     {
         auto ret = underflow();
-        if (ret != traits_type::eof()) {
-            m_ch = traits_type::eof();
+        if (!traits_type::eq_int_type(ret, traits_type::eof())) {
+            ++m_begin;
+            ++m_position;
         }
         return ret;
     }
 
     std::streamsize showmanyc() override
     {
-        return traits_type::eq_int_type(m_ch, traits_type::eof()) ? 0 : 1;
+        return m_begin == ranges::end(m_range) ? -1 : 1;
     }
 
     int_type pbackfail(int_type c) override
     {
-        SCN_EXPECT(traits_type::eq_int_type(c, traits_type::eof()));
-        SCN_EXPECT(!m_has_put_back);
-        m_has_put_back = true;
-
-        m_begin = m_begin_prev;
+        if (m_position == 0) {
+            return traits_type::eof();
+        }
 
-        if (m_begin == ranges::end(m_range)) {
+        // m_range is only required to be a forward_range
+        auto prev = ranges::begin(m_range);
+        for (std::ptrdiff_t i = 1; i < m_position; ++i) {
+            ++prev;
+        }
+        const auto ch = traits_type::to_int_type(*prev);
+        if (!traits_type::eq_int_type(c, traits_type::eof()) &&
+            !traits_type::eq_int_type(c, ch)) {
+            // The source can't be modified
             return traits_type::eof();
         }
-        return traits_type::to_int_type(0);
+
+        m_begin = prev;
+        --m_position;
+        return ch;
     }
 
     range_type m_range;
     iterator m_begin;
-    iterator m_begin_prev;
-    int_type m_ch{traits_type::eof()};
-    bool m_has_put_back{false};
+    std::ptrdiff_t m_position{0};
 };
 
 using range_streambuf = basic_range_streambuf<scan_context::range_type>;
@@ -181,7 +171,6 @@ struct basic_istream_scanner {
     {
         detail::basic_range_streambuf<typename Context::range_type> streambuf(
             ctx.range());
-        using traits = typename decltype(streambuf)::traits_type;
         std::basic_istream<CharT> stream(std::addressof(streambuf));
 
         if (!(stream >> val)) {
@@ -201,10 +190,7 @@ struct basic_istream_scanner {
                 "Failed to read with std::istream");
         }
 
-        if (traits::eq_int_type(streambuf.last_char(), traits::eof())) {
-            return streambuf.begin();
-        }
-        return streambuf.begin_prev();
+        return streambuf.begin();
     }
 };
 
-- 
2.43.0


From 63792cd2923f30d0b15c6d026d83c1dd76a36482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:34 +0000
Subject: [PATCH 58/80] fix: refuse L for regex_matches instead of asserting

---
 include/scn/scan.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 3b1b7d7..749eee9 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -7885,6 +7885,8 @@ constexpr arg_type_category get_category_for_arg_type(arg_type type)
         case arg_type::narrow_string_type:
         case arg_type::wide_string_view_type:
         case arg_type::wide_string_type:
+        case arg_type::narrow_regex_matches_type:
+        case arg_type::wide_regex_matches_type:
             return arg_type_category::string;
 
         case arg_type::custom_type:
-- 
2.43.0


From 5426980b0ede3c60e0f2b4b80c8d041e9a7986c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:59 +0000
Subject: [PATCH 59/80] fix: read regexes at the end of a contiguous source in
 nested scans

---
 src/scn/impl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 7ddd86f..4b39a37 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -989,7 +989,9 @@ bool is_segment_contiguous(Range r)
                                detail::char_t<Range>>::forward_iterator>) {
         auto beg = r.begin();
         if (beg.contiguous_segment().empty()) {
-            return false;
+            // At the end of a contiguous source,
+            // or a source that needs to be read further
+            return !beg.stores_parent();
         }
         if constexpr (ranges::common_range<Range>) {
             return beg.contiguous_segment().end() ==
-- 
2.43.0


From b0c8b8e5b9bfa24df383fd459f88f3d5e0655c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:00 +0000
Subject: [PATCH 60/80] fix: define the scanners of bool, char32_t and void*
 for use by other scanners

---
 include/scn/scan.h | 3 +++
 src/scn/impl.cpp   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 749eee9..8979b8c 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -9223,8 +9223,11 @@ scan_expected<ranges::iterator_t<Range>> internal_skip_classic_whitespace(
     scanner_scan_for_builtin_type(T&, Context&, const format_specs&);
 
 #define SCN_DECLARE_EXTERN_SCANNER_SCAN_FOR_CTX(Context)                   \
+    SCN_DECLARE_EXTERN_SCANNER_SCAN_FOR_TYPE(bool, Context)                \
     SCN_DECLARE_EXTERN_SCANNER_SCAN_FOR_TYPE(char, Context)                \
     SCN_DECLARE_EXTERN_SCANNER_SCAN_FOR_TYPE(wchar_t, Context)             \
+    SCN_DECLARE_EXTERN_SCANNER_SCAN_FOR_TYPE(char32_t, Context)            \
+    SCN_DECLARE_EXTERN_SCANNER_SCAN_FOR_TYPE(void*, Context)               \
     SCN_DECLARE_EXTERN_SCANNER_SCAN_FOR_TYPE(signed char, Context)         \
     SCN_DECLARE_EXTERN_SCANNER_SCAN_FOR_TYPE(signed char, Context)         \
     SCN_DECLARE_EXTERN_SCANNER_SCAN_FOR_TYPE(short, Context)               \
diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 56c475e..6b0d59d 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -256,7 +256,10 @@ scan_expected<ranges::iterator_t<Range>> internal_skip_classic_whitespace(
         T&, Context&, const format_specs&);
 
 #define SCN_DEFINE_SCANNER_SCAN_FOR_CTX(Context)                    \
+    SCN_DEFINE_SCANNER_SCAN_FOR_TYPE(bool, Context)                 \
     SCN_DEFINE_SCANNER_SCAN_FOR_TYPE(Context::char_type, Context)   \
+    SCN_DEFINE_SCANNER_SCAN_FOR_TYPE(char32_t, Context)             \
+    SCN_DEFINE_SCANNER_SCAN_FOR_TYPE(void*, Context)                \
     SCN_DEFINE_SCANNER_SCAN_FOR_TYPE(signed char, Context)          \
     SCN_DEFINE_SCANNER_SCAN_FOR_TYPE(short, Context)                \
     SCN_DEFINE_SCANNER_SCAN_FOR_TYPE(int, Context)                  \
-- 
2.43.0


From 29e60b40de0bd06bd67c4c7665dd93e62e705178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:00 +0000
Subject: [PATCH 61/80] fix: keep the error of a literal before an argument of
 a user-defined type

---
 include/scn/scan.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 8979b8c..fe31ada 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -7800,6 +7800,9 @@ constexpr void parse_format_string_impl(std::basic_string_view<CharT> format,
         const auto ch = *it++;
         if (ch == CharT{'{'}) {
             handler.on_literal_text(begin, it - 1);
+            if (!handler.get_error()) {
+                return;
+            }
 
             begin = it = parse_replacement_field(it - 1, end, handler);
             if (!handler.get_error()) {
-- 
2.43.0


From da336ce37e8810bc5f480a571c58fd1d83b30fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:43 +0000
Subject: [PATCH 62/80] fix: scan localized values with the locale of the
 context in nested scanners

---
 src/scn/impl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 6b0d59d..047279d 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -234,7 +234,8 @@ scan_expected<typename Context::iterator>
 scanner_scan_for_builtin_type(T& val, Context& ctx, const format_specs& specs)
 {
     if constexpr (!detail::is_type_disabled<T>) {
-        return impl::arg_reader<Context>{ctx.range(), specs, {}}(val);
+        return impl::arg_reader<Context>{ctx.range(), specs,
+                                         ctx.locale()}(val);
     }
     else {
         SCN_EXPECT(false);
-- 
2.43.0


From f58f31f623078219e87054b73278ccfbb30796e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:21 +0000
Subject: [PATCH 63/80] fix: report invalid specifiers of built-in scanners
 used by other scanners

---
 include/scn/scan.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index fe31ada..8fa6594 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -9172,6 +9172,10 @@ constexpr typename ParseCtx::iterator scanner_parse_for_builtin_type(
         }
     }
 
+    if (auto e = checker.get_error(); SCN_UNLIKELY(!e)) {
+        pctx.on_error(e.error().msg());
+    }
+
     return it;
 }
 }  // namespace detail
-- 
2.43.0


From ad1a632a0a2e94d276ed1e7e03fc791d7a93280d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:18 +0000
Subject: [PATCH 64/80] fix: define the scanners of both character types for
 use by other scanners

---
 src/scn/impl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 047279d..8fc3f5e 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -258,7 +258,8 @@ scan_expected<ranges::iterator_t<Range>> internal_skip_classic_whitespace(
 
 #define SCN_DEFINE_SCANNER_SCAN_FOR_CTX(Context)                    \
     SCN_DEFINE_SCANNER_SCAN_FOR_TYPE(bool, Context)                 \
-    SCN_DEFINE_SCANNER_SCAN_FOR_TYPE(Context::char_type, Context)   \
+    SCN_DEFINE_SCANNER_SCAN_FOR_TYPE(char, Context)                 \
+    SCN_DEFINE_SCANNER_SCAN_FOR_TYPE(wchar_t, Context)              \
     SCN_DEFINE_SCANNER_SCAN_FOR_TYPE(char32_t, Context)             \
     SCN_DEFINE_SCANNER_SCAN_FOR_TYPE(void*, Context)                \
     SCN_DEFINE_SCANNER_SCAN_FOR_TYPE(signed char, Context)          \
-- 
2.43.0


From 0b020413027a5eae33d0a9cab52dbe020490896f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:26 +0000
Subject: [PATCH 65/80] fix: don't pass results holding non-trivial values as
 if they were trivial

---
 include/scn/scan.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 8fa6594..defdd10 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -607,7 +607,7 @@ constexpr T max(T a, T b) noexcept
 }
 
 template <typename T, typename E>
-struct SCN_TRIVIAL_ABI expected_storage_base<T, E, false> {
+struct expected_storage_base<T, E, false> {
     constexpr expected_storage_base() noexcept : m_has_value(true)
     {
         construct();
@@ -747,7 +747,7 @@ private:
 };
 
 template <typename E>
-struct SCN_TRIVIAL_ABI expected_storage_base<void, E, false> {
+struct expected_storage_base<void, E, false> {
     constexpr expected_storage_base() noexcept : m_has_value(true) {}
 
     explicit constexpr expected_storage_base(deferred_init_tag_t) noexcept
-- 
2.43.0


From 4a07305204dcb06d8931850a7d766bef90d51cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:04 +0000
Subject: [PATCH 66/80] fix: assign results over errors when copying or moving
 the value can throw

---
 include/scn/scan.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index defdd10..3595aac 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -981,8 +981,7 @@ private:
 #if SCN_HAS_EXCEPTIONS
     void assign_value_over_unexpected(
         const expected_operations_base&
-            other) noexcept(std::is_nothrow_copy_constructible_v<T> ||
-                            std::is_nothrow_move_constructible_v<T>)
+            other) noexcept(std::is_nothrow_copy_constructible_v<T>)
     {
         if constexpr (std::is_nothrow_copy_constructible_v<T>) {
             this->destroy_unexpected();
@@ -994,11 +993,11 @@ private:
             this->construct(std::move(tmp));
         }
         else {
-            auto tmp = std::move(this->get_unexpecetd());
+            auto tmp = std::move(this->get_unexpected());
             this->destroy_unexpected();
 
             try {
-                this->construct(other.get());
+                this->construct(other.get_value());
             }
             catch (...) {
                 this->construct_unexpected(std::move(tmp));
@@ -1030,10 +1029,10 @@ private:
     }
 #else
     template <typename Other>
-    void assing_value_over_unexpected(Other&& other) noexcept
+    void assign_value_over_unexpected(Other&& other) noexcept
     {
         this->destroy_unexpected();
-        this->construct_value(std::forward<Other>(other).get_value());
+        this->construct(std::forward<Other>(other).get_value());
     }
 #endif
 
@@ -2046,6 +2045,7 @@ private:
             }
             catch (...) {
                 this->construct_unexpected(std::move(tmp));
+                throw;
             }
         }
 #else
-- 
2.43.0


From 149687e0dc7c8237b9afd533751b19783ad0496c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:04 +0000
Subject: [PATCH 67/80] fix: destroy the error when emplacing a value in a
 result

---
 include/scn/scan.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 3595aac..aa16e07 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -1999,7 +1999,11 @@ private:
         else {
 #if SCN_HAS_EXCEPTIONS
             if constexpr (std::is_nothrow_constructible_v<T, Args&&...>) {
-                auto tmp = std::move(error());
+                this->destroy_unexpected();
+                this->construct(std::forward<Args>(args)...);
+            }
+            else {
+                auto tmp = std::move(this->get_unexpected());
                 this->destroy_unexpected();
 
                 try {
@@ -2010,9 +2014,6 @@ private:
                     throw;
                 }
             }
-            else {
-                this->construct(std::forward<Args>(args)...);
-            }
 #else
             this->destroy_unexpected();
             this->construct(std::forward<Args>(args)...);
-- 
2.43.0


From 0e29960ca12019608d4a3d824eda591b434d9128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:04 +0000
Subject: [PATCH 68/80] fix: don't leak a default-constructed value when
 converting results

---
 include/scn/scan.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index aa16e07..7c30e58 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -608,7 +608,9 @@ constexpr T max(T a, T b) noexcept
 
 template <typename T, typename E>
 struct expected_storage_base<T, E, false> {
-    constexpr expected_storage_base() noexcept : m_has_value(true)
+    constexpr expected_storage_base() noexcept(
+        std::is_nothrow_default_constructible_v<T>)
+        : m_has_value(true)
     {
         construct();
     }
@@ -1635,7 +1637,8 @@ public:
     explicit constexpr expected(const expected<U, G>& other) noexcept(
         std::is_nothrow_constructible_v<T, const U&> &&
         std::is_nothrow_constructible_v<E, const G&>)
-        : base(), ctor_base(detail::non_default_ctor_tag_t{})
+        : base(detail::deferred_init_tag),
+          ctor_base(detail::non_default_ctor_tag_t{})
     {
         if (other.has_value()) {
             this->construct(*other);
@@ -1653,7 +1656,8 @@ public:
     constexpr expected(const expected<U, G>& other) noexcept(
         std::is_nothrow_constructible_v<T, const U&> &&
         std::is_nothrow_constructible_v<E, const G&>)
-        : base(), ctor_base(detail::non_default_ctor_tag_t{})
+        : base(detail::deferred_init_tag),
+          ctor_base(detail::non_default_ctor_tag_t{})
     {
         if (other.has_value()) {
             this->construct(*other);
@@ -1671,7 +1675,8 @@ public:
     explicit constexpr expected(expected<U, G>&& other) noexcept(
         std::is_nothrow_constructible_v<T, U&&> &&
         std::is_nothrow_constructible_v<E, G&&>)
-        : base(), ctor_base(detail::non_default_ctor_tag_t{})
+        : base(detail::deferred_init_tag),
+          ctor_base(detail::non_default_ctor_tag_t{})
     {
         if (other.has_value()) {
             this->construct(std::move(*other));
@@ -1688,7 +1693,8 @@ public:
     constexpr expected(expected<U, G>&& other) noexcept(
         std::is_nothrow_constructible_v<T, U&&> &&
         std::is_nothrow_constructible_v<E, G&&>)
-        : base(), ctor_base(detail::non_default_ctor_tag_t{})
+        : base(detail::deferred_init_tag),
+          ctor_base(detail::non_default_ctor_tag_t{})
     {
         if (other.has_value()) {
             this->construct(std::move(*other));
-- 
2.43.0


From 41e13900449b775e7e9011d17a103f46cf9fe270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:05 +0000
Subject: [PATCH 69/80] fix: read twelve o'clock with %OI in a localized chrono
 format

---
 src/scn/impl.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 8fc3f5e..f14f907 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -3017,7 +3017,9 @@ public:
 #if !SCN_DISABLE_LOCALE
         if (m_st.localized && sys != numeric_system::standard) {
             if (auto t = read_localized("%OI", L"%OI")) {
-                setter::set_hour12(*this, m_tm, m_st, t->tm_hour);
+                // std::time_get gives 0 for twelve o'clock
+                setter::set_hour12(*this, m_tm, m_st,
+                                   t->tm_hour == 0 ? 12 : t->tm_hour);
             }
             return;
         }
-- 
2.43.0


From 095bc082e2445acadb6936dca14548ae02f69157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:09 +0000
Subject: [PATCH 70/80] fix: don't change the global C locale to parse floats
 with glibc 2.26 and later

strtod_l and friends are still there, only <xlocale.h> is not. Switching the
locale of the process made concurrent scans read wrong values and could leave
the process in another locale.
---
 src/scn/impl.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index f14f907..444918d 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -86,10 +86,18 @@ SCN_GCC_POP
 
 #include <features.h>
 
-#if !((__GLIBC__ > 2) || ((__GLIBC__ == 2) && (__GLIBC_MINOR__ > 25)))
+#if (__GLIBC__ > 2) || ((__GLIBC__ == 2) && (__GLIBC_MINOR__ > 25))
+// <xlocale.h> was removed in glibc 2.26: its contents are in the headers below
+#include <locale.h>
+#include <stdlib.h>
+#include <wchar.h>
+#if defined(__USE_GNU)
+#define SCN_XLOCALE SCN_XLOCALE_POSIX
+#endif
+#else
 #include <xlocale.h>
 #define SCN_XLOCALE SCN_XLOCALE_POSIX
-#endif  // __GLIBC__ <= 2.25
+#endif
 
 #elif defined(__FreeBSD_version) && __FreeBSD_version >= 1000010
 
-- 
2.43.0


From acfa3781b1c00d9e7a08f3982754ba6dc17785e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:09 +0000
Subject: [PATCH 71/80] fix: keep a FILE locked while putting characters back

Another thread could read from the file while only some of the characters had
been put back.
---
 include/scn/scan.h | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 7c30e58..77ab64d 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -4966,14 +4966,9 @@ struct posix_stdio_file_interface : stdio_file_interface_base<File> {
         return static_cast<char>(res);
     }
 
-    void prepare_putback()
-    {
-        unlock();
-    }
-    void finalize_putback()
-    {
-        lock();
-    }
+    // The lock is recursive: ungetc can be called while holding it
+    void prepare_putback() {}
+    void finalize_putback() {}
 
     bool putback(char ch)
     {
-- 
2.43.0


From 85252d05b0526af083b0a1a8c35c212144d0e8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:46 +0000
Subject: [PATCH 72/80] fix: notice a month name next to another month when
 checking a chrono format

---
 include/scn/chrono.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/scn/chrono.h b/include/scn/chrono.h
index a2e9a1e..a83fdb5 100644
--- a/include/scn/chrono.h
+++ b/include/scn/chrono.h
@@ -1239,6 +1239,7 @@ struct tm_format_checker {
         if (!always_supports_field<T, field_tags::mon>::value) {
             on_error("Months not supported with this type");
         }
+        st.set_mon(*this);
     }
     constexpr void on_dec_month(numeric_system = numeric_system::standard)
     {
-- 
2.43.0


From 473ac1fa4d420ae2d4ff95c429ace6fe78e29736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:54 +0000
Subject: [PATCH 73/80] fix: notice seconds read twice by %S and %.S when
 checking a chrono format

---
 include/scn/chrono.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/scn/chrono.h b/include/scn/chrono.h
index a83fdb5..0f6a084 100644
--- a/include/scn/chrono.h
+++ b/include/scn/chrono.h
@@ -1336,6 +1336,8 @@ struct tm_format_checker {
             on_error(
                 "Support for strings and doubles required for sub-seconds");
         }
+        // Also includes the whole seconds
+        st.set_sec(*this);
         st.set_subsec(*this);
     }
 
-- 
2.43.0


From 7d2baa3ddb185d28e5833342e28052a51c399915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:20 +0000
Subject: [PATCH 74/80] fix: reject integer specifiers for char32_t at compile
 time

---
 include/scn/scan.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 77ab64d..ccb471d 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -9124,10 +9124,13 @@ constexpr typename ParseCtx::iterator scanner_parse_for_builtin_type(
 
         case arg_type::narrow_character_type:
         case arg_type::wide_character_type:
-        case arg_type::code_point_type:
             check_char_type_specs(specs, checker);
             break;
 
+        case arg_type::code_point_type:
+            check_code_point_type_specs(specs, checker);
+            break;
+
         case arg_type::float_type:
         case arg_type::double_type:
         case arg_type::ldouble_type:
-- 
2.43.0


From 16cb05f71ef417f65a0153752e0a3c7badb6ff39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:00 +0000
Subject: [PATCH 75/80] fix: compile without exceptions

---
 include/scn/scan.h |  2 +-
 src/scn/impl.h     | 45 +++++++++++++++++++++++++++++++++------------
 2 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index ccb471d..9cc77a3 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -5592,7 +5592,7 @@ scan_expected<void> parse_custom_arg(T& arg, Scanner& s, ParseCtx& pctx)
                                      err_msg.c_str());
     }
 #else
-    auto fmt_it = s.parse(pctx_ref);
+    auto fmt_it = s.parse(pctx);
 #endif
     if (auto e = pctx.get_error(); SCN_UNLIKELY(!e)) {
         return e;
diff --git a/src/scn/impl.h b/src/scn/impl.h
index 4b39a37..b0f469c 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -57,6 +57,15 @@ SCN_CLANG_POP
 #include <re2/re2.h>
 #endif
 
+// Exception handling that compiles with -fno-exceptions, too
+#if SCN_HAS_EXCEPTIONS
+#define SCN_EXCEPTION_TRY        try
+#define SCN_EXCEPTION_CATCH(...) catch (__VA_ARGS__)
+#else
+#define SCN_EXCEPTION_TRY        if constexpr (true)
+#define SCN_EXCEPTION_CATCH(...) else
+#endif
+
 namespace scn {
 SCN_BEGIN_NAMESPACE
 
@@ -4411,18 +4420,21 @@ auto read_regex_string_impl(std::basic_string_view<CharT> pattern,
 
 #if SCN_REGEX_BACKEND == SCN_REGEX_BACKEND_STD
     std::basic_regex<CharT> re{};
-    try {
+    SCN_EXCEPTION_TRY
+    {
         SCN_TRY(re_flags, make_regex_flags(flags));
         // Not adding nosubs, it'd disable back-references
         re = std::basic_regex<CharT>{pattern.data(), pattern.size(), re_flags};
     }
-    catch (const std::regex_error& err) {
+    SCN_EXCEPTION_CATCH(const std::regex_error&)
+    {
         return detail::unexpected_scan_error(scan_error::invalid_format_string,
                                              "Invalid regex");
     }
 
     std::match_results<const CharT*> matches{};
-    try {
+    SCN_EXCEPTION_TRY
+    {
         bool found = std::regex_search(input.data(),
                                        input.data() + input.size(), matches, re,
                                        std::regex_constants::match_continuous);
@@ -4432,7 +4444,8 @@ auto read_regex_string_impl(std::basic_string_view<CharT> pattern,
                 "Regular expression didn't match");
         }
     }
-    catch (const std::regex_error& err) {
+    SCN_EXCEPTION_CATCH(const std::regex_error&)
+    {
         return detail::unexpected_scan_error(
             scan_error::invalid_format_string,
             "Regex matching failed with an error");
@@ -4462,7 +4475,8 @@ auto read_regex_string_impl(std::basic_string_view<CharT> pattern,
     }
 
     boost::match_results<const CharT*> matches{};
-    try {
+    SCN_EXCEPTION_TRY
+    {
         bool found =
 #if SCN_REGEX_BOOST_USE_ICU
             boost::u32regex_search(input.data(), input.data() + input.size(),
@@ -4479,7 +4493,8 @@ auto read_regex_string_impl(std::basic_string_view<CharT> pattern,
                 "Regular expression didn't match");
         }
     }
-    catch (const std::exception& err) {
+    SCN_EXCEPTION_CATCH(const std::exception&)
+    {
         // Boost with the ICU throws a logic_error on ill-formed text
         return detail::unexpected_scan_error(
             scan_error::invalid_format_string,
@@ -4531,17 +4546,20 @@ auto read_regex_matches_impl(std::basic_string_view<CharT> pattern,
 
 #if SCN_REGEX_BACKEND == SCN_REGEX_BACKEND_STD
     std::basic_regex<CharT> re{};
-    try {
+    SCN_EXCEPTION_TRY
+    {
         SCN_TRY(re_flags, make_regex_flags(flags));
         re = std::basic_regex<CharT>{pattern.data(), pattern.size(), re_flags};
     }
-    catch (const std::regex_error& err) {
+    SCN_EXCEPTION_CATCH(const std::regex_error&)
+    {
         return detail::unexpected_scan_error(scan_error::invalid_format_string,
                                              "Invalid regex");
     }
 
     std::match_results<const CharT*> matches{};
-    try {
+    SCN_EXCEPTION_TRY
+    {
         bool found = std::regex_search(input.data(),
                                        input.data() + input.size(), matches, re,
                                        std::regex_constants::match_continuous);
@@ -4551,7 +4569,8 @@ auto read_regex_matches_impl(std::basic_string_view<CharT> pattern,
                 "Regular expression didn't match");
         }
     }
-    catch (const std::regex_error& err) {
+    SCN_EXCEPTION_CATCH(const std::regex_error&)
+    {
         return detail::unexpected_scan_error(
             scan_error::invalid_format_string,
             "Regex matching failed with an error");
@@ -4616,7 +4635,8 @@ auto read_regex_matches_impl(std::basic_string_view<CharT> pattern,
     }
 
     boost::match_results<const CharT*> matches{};
-    try {
+    SCN_EXCEPTION_TRY
+    {
         bool found =
 #if SCN_REGEX_BOOST_USE_ICU
             boost::u32regex_search(input.data(), input.data() + input.size(),
@@ -4633,7 +4653,8 @@ auto read_regex_matches_impl(std::basic_string_view<CharT> pattern,
                 "Regular expression didn't match");
         }
     }
-    catch (const std::exception& err) {
+    SCN_EXCEPTION_CATCH(const std::exception&)
+    {
         // Boost with the ICU throws a logic_error on ill-formed text
         return detail::unexpected_scan_error(
             scan_error::invalid_format_string,
-- 
2.43.0


From 9516d8b4de511208c348e9dfae6e8563ac38faac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:19 +0000
Subject: [PATCH 76/80] fix: compile with SCN_DISABLE_CHRONO

---
 src/scn/impl.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 444918d..694774a 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -15,9 +15,12 @@
 // This file is a part of scnlib:
 //     https://github.com/eliaskosunen/scnlib
 
-#include <scn/chrono.h>
 #include <scn/impl.h>
 
+#if !SCN_DISABLE_CHRONO
+#include <scn/chrono.h>
+#endif
+
 #if !SCN_DISABLE_LOCALE
 #include <locale>
 #include <sstream>
@@ -3662,9 +3665,9 @@ template auto chrono_scan_impl(std::wstring_view,
                                wscan_context&)
     -> scan_expected<wscan_context::iterator>;
 
-}  // namespace detail
-
 #endif  // !SCN_DISABLE_CHRONO
 
+}  // namespace detail
+
 SCN_END_NAMESPACE
 }  // namespace scn
-- 
2.43.0


From bba80645d9ffccd9736f47a1e6702a09dcc4d6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:13 +0000
Subject: [PATCH 77/80] fix: compile chrono without strings

---
 include/scn/chrono.h | 3 +++
 src/scn/impl.cpp     | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/include/scn/chrono.h b/include/scn/chrono.h
index 0f6a084..7eaa257 100644
--- a/include/scn/chrono.h
+++ b/include/scn/chrono.h
@@ -1353,6 +1353,9 @@ struct tm_format_checker {
         if (!always_supports_field<T, field_tags::tzname>::value) {
             on_error("Timezone names not supported with this type");
         }
+        if constexpr (SCN_DISABLE_TYPE_STRING) {
+            on_error("Support for strings required for timezone names");
+        }
         st.set_tzname(*this);
     }
 
diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 694774a..c3d64fa 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -3192,6 +3192,7 @@ public:
     }
     void on_tz_name()
     {
+#if !SCN_DISABLE_TYPE_STRING
         auto res = scan<std::string>(
             ranges::subrange{m_begin, m_range.end()}, []() -> decltype(auto) {
                 if constexpr (std::is_same_v<CharT, char>) {
@@ -3206,6 +3207,10 @@ public:
         }
         setter::set_tz_name(*this, m_tm, m_st, std::move(res->value()));
         m_begin = res->begin();
+#else
+        SCN_EXPECT(false);
+        SCN_UNREACHABLE;
+#endif
     }
 
     void on_loc_datetime(numeric_system sys = numeric_system::standard)
-- 
2.43.0


From 924153a9e01e182c1bc064ab602ef13f35782351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:13 +0000
Subject: [PATCH 78/80] fix: scan regex_matches with SCN_DISABLE_TYPE_CHAR

---
 include/scn/scan.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 9cc77a3..cef59fb 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -5714,7 +5714,7 @@ struct arg_mapper {
 
     static decltype(auto) map(basic_regex_matches<char_type>& val)
     {
-        if constexpr (is_type_disabled<char_type>) {
+        if constexpr (is_type_disabled<basic_regex_matches<char_type>>) {
             return unscannable_disabled{val};
         }
         else {
-- 
2.43.0


From 3c2f412def839fe7a1c7b1031d2e1141f939c20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:45 +0000
Subject: [PATCH 79/80] fix: scan ranges and tuples from wide sources

---
 include/scn/ranges.h | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/include/scn/ranges.h b/include/scn/ranges.h
index b102f1b..c59636d 100644
--- a/include/scn/ranges.h
+++ b/include/scn/ranges.h
@@ -227,6 +227,20 @@ DiffT range_max_size(const Range& r)
     }
 }
 
+// The narrow or wide one of two equal literals
+template <typename CharT>
+constexpr std::basic_string_view<CharT> range_literal(
+    SCN_MAYBE_UNUSED const char* narrow,
+    SCN_MAYBE_UNUSED const wchar_t* wide)
+{
+    if constexpr (std::is_same_v<CharT, char>) {
+        return narrow;
+    }
+    else {
+        return wide;
+    }
+}
+
 template <typename CharT>
 class range_scanner_base {
 public:
@@ -244,9 +258,12 @@ public:
 protected:
     constexpr range_scanner_base() = default;
 
-    std::basic_string_view<CharT> m_separator{","};
-    std::basic_string_view<CharT> m_opening_bracket{"["};
-    std::basic_string_view<CharT> m_closing_bracket{"]"};
+    std::basic_string_view<CharT> m_separator{
+        range_literal<CharT>(",", L",")};
+    std::basic_string_view<CharT> m_opening_bracket{
+        range_literal<CharT>("[", L"[")};
+    std::basic_string_view<CharT> m_closing_bracket{
+        range_literal<CharT>("]", L"]")};
 };
 
 template <typename CharT>
@@ -317,8 +334,9 @@ struct scanner<
 public:
     constexpr scanner()
     {
-        this->set_separator(",");
-        this->set_brackets("(", ")");
+        this->set_separator(detail::range_literal<CharT>(",", L","));
+        this->set_brackets(detail::range_literal<CharT>("(", L"("),
+                           detail::range_literal<CharT>(")", L")"));
     }
 
     template <typename ParseCtx>
@@ -487,12 +505,15 @@ private:
     constexpr void init()
     {
         if constexpr (Kind == range_format::set) {
-            m_underlying.set_brackets("{", "}");
+            m_underlying.set_brackets(range_literal<CharT>("{", L"{"),
+                                      range_literal<CharT>("}", L"}"));
         }
         else if constexpr (Kind == range_format::map) {
-            m_underlying.set_brackets("{", "}");
+            m_underlying.set_brackets(range_literal<CharT>("{", L"{"),
+                                      range_literal<CharT>("}", L"}"));
             m_underlying.base().set_brackets({}, {});
-            m_underlying.base().set_separator(":");
+            m_underlying.base().set_separator(
+                range_literal<CharT>(":", L":"));
         }
     }
 
-- 
2.43.0


From 56ef802d42460c9544c803dcb68b044810d55122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:09 +0000
Subject: [PATCH 80/80] fix: respect max_size when scanning into a container

---
 include/scn/ranges.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/scn/ranges.h b/include/scn/ranges.h
index c59636d..fb5f686 100644
--- a/include/scn/ranges.h
+++ b/include/scn/ranges.h
@@ -213,14 +213,20 @@ void add_element_to_range(Range& r, Element&& elem)
 template <typename Range, typename Enable = void>
 struct has_max_size : std::false_type {};
 template <typename Range>
-struct has_max_size<Range, decltype(SCN_DECLVAL(const Range&).max_size())>
+struct has_max_size<
+    Range,
+    std::void_t<decltype(SCN_DECLVAL(const Range&).max_size())>>
     : std::true_type {};
 
 template <typename Range, typename DiffT = ranges::range_difference_t<Range>>
 DiffT range_max_size(const Range& r)
 {
     if constexpr (has_max_size<Range>::value) {
-        return static_cast<DiffT>(r.max_size());
+        constexpr auto max = std::numeric_limits<DiffT>::max();
+        return static_cast<std::size_t>(r.max_size()) <=
+                       static_cast<std::size_t>(max)
+                   ? static_cast<DiffT>(r.max_size())
+                   : max;
     }
     else {
         return std::numeric_limits<DiffT>::max();
-- 
2.43.0

