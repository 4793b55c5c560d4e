From 6b19440f1bcb576554cc4b99be7a7260db5b287a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 01/17] fix: reject content that follows the top-level value
 when it starts with '/'

skip_whitespace() returns false not only at the end of the content but also at a
stray '/' and at a malformed or unterminated comment, so '[1]/x' and
(parsec) '[1] /* x' were accepted.
---
 include/parser/parser_impl.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/parser/parser_impl.hpp b/include/parser/parser_impl.hpp
index 94b601e..93557fa 100644
--- a/include/parser/parser_impl.hpp
+++ b/include/parser/parser_impl.hpp
@@ -37,8 +37,9 @@ inline std::optional<value> parser<accept_jsonc, parsing_t, accel_traits>::parse
         return std::nullopt;
     }
 
-    // After the parsing is complete, there should be no more content other than spaces behind
-    if (skip_whitespace()) {
+    // After the parsing is complete, there should be no more content other than spaces behind.
+    // skip_whitespace() also stops (returning false) at a stray '/' or at a malformed comment.
+    if (skip_whitespace() || (_cur != _end && *_cur != '\0')) {
         return std::nullopt;
     }
 
@@ -500,7 +501,10 @@ inline bool parser<accept_jsonc, parsing_t, accel_traits>::skip_whitespace() noe
             break;
         case '/':
             if constexpr (accept_jsonc) {
+                const auto comment_beg = _cur;
                 if (!skip_comment()) {
+                    // leave _cur on the '/', a malformed comment is not the end of the content
+                    _cur = comment_beg;
                     return false;
                 }
                 // else continue;
-- 
2.43.0


From 5954541de04a80381fb6f82b2e28ea8cc5a3bbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 02/17] fix: reject plain characters inside a surrogate pair
 also with the accelerated scan

With 16 or more bytes left, the accelerated scan passed over the characters between
the two halves, so "\ud83dabc\udca9..." was accepted as one code point.
---
 include/parser/parser_impl.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/parser/parser_impl.hpp b/include/parser/parser_impl.hpp
index 93557fa..566c176 100644
--- a/include/parser/parser_impl.hpp
+++ b/include/parser/parser_impl.hpp
@@ -316,6 +316,10 @@ inline std::optional<std::string> parser<accept_jsonc, parsing_t, accel_traits>:
     uint16_t pair_high = 0;
 
     while (_cur != _end) {
+        // a high surrogate must be followed by another escape; check before the accelerated skip passes over plain characters
+        if (pair_high && *_cur != '\\') {
+            return std::nullopt;
+        }
         if constexpr (sizeof(*_cur) == 1 && accel_traits::available) {
             if (!skip_string_literal_with_accel()) {
                 return std::nullopt;
-- 
2.43.0


From 1ede37a3609fa487bee453aeedd7fffe20790d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 03/17] fix: assignment from a value, array or object that
 lives inside the destination

v = std::move(v["a"]) and arr = arr[0].as_array() released the source together with
the old contents of the destination and then read it (use after free).
---
 include/common/array_impl.hpp  | 15 +++++++++++++--
 include/common/object_impl.hpp | 15 +++++++++++++--
 include/common/value_impl.hpp  | 10 +++++++++-
 3 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/include/common/array_impl.hpp b/include/common/array_impl.hpp
index af1cf4c..c99a11f 100644
--- a/include/common/array_impl.hpp
+++ b/include/common/array_impl.hpp
@@ -23,8 +23,19 @@ inline array::array() = default;
 inline array::array(const array& rhs) = default;
 inline array::array(array&& rhs) noexcept = default;
 inline array::~array() noexcept = default;
-inline array& array::operator=(const array&) = default;
-inline array& array::operator=(array&&) noexcept = default;
+
+inline array& array::operator=(const array& rhs)
+{
+    // rhs may be owned by an element of *this, so copy it before releasing the old elements
+    return *this = array(rhs);
+}
+
+inline array& array::operator=(array&& rhs) noexcept
+{
+    raw_array temp = std::move(rhs._array_data);
+    _array_data = std::move(temp);
+    return *this;
+}
 
 inline array::array(std::initializer_list<value_type> init_list)
     : _array_data(init_list)
diff --git a/include/common/object_impl.hpp b/include/common/object_impl.hpp
index b59a11b..7473d7f 100644
--- a/include/common/object_impl.hpp
+++ b/include/common/object_impl.hpp
@@ -25,8 +25,19 @@ inline object::object() = default;
 inline object::object(const object& rhs) = default;
 inline object::object(object&& rhs) noexcept = default;
 inline object::~object() = default;
-inline object& object::operator=(const object&) = default;
-inline object& object::operator=(object&&) noexcept = default;
+
+inline object& object::operator=(const object& rhs)
+{
+    // rhs may be owned by an element of *this, so copy it before releasing the old elements
+    return *this = object(rhs);
+}
+
+inline object& object::operator=(object&& rhs) noexcept
+{
+    raw_object temp = std::move(rhs._object_data);
+    _object_data = std::move(temp);
+    return *this;
+}
 
 inline object::object(std::initializer_list<value_type> init_list)
     : _object_data(std::make_move_iterator(init_list.begin()), std::make_move_iterator(init_list.end()))
diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index 0838137..bbb53b5 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -851,7 +851,15 @@ inline value& value::operator=(const value& rhs)
     return *this;
 }
 
-inline value& value::operator=(value&& rhs) noexcept = default;
+inline value& value::operator=(value&& rhs) noexcept
+{
+    // rhs may be owned by *this (e.g. v = std::move(v["key"])), so take its data out before releasing the old data
+    value temp(std::move(rhs));
+    _type = temp._type;
+    _raw_data = std::move(temp._raw_data);
+
+    return *this;
+}
 
 inline bool value::operator==(const value& rhs) const
 {
-- 
2.43.0


From ff75dab235a0e6f89388fd0a75f862c1dcb607ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 04/17] fix: merging an object with one that lives inside it

obj |= obj["a"].as_object() freed the right-hand side while iterating over it when it
held the key it is stored under.
---
 include/common/object_impl.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/common/object_impl.hpp b/include/common/object_impl.hpp
index 7473d7f..8d4b3a2 100644
--- a/include/common/object_impl.hpp
+++ b/include/common/object_impl.hpp
@@ -8,14 +8,18 @@ namespace _object_impl_detail
 {
 inline void merge_object(object::raw_object& dst, const object& src)
 {
-    for (const auto& [key, val] : src) {
-        dst.insert_or_assign(key, val);
+    // src may be owned by an element of dst that gets replaced on the way, so copy it first
+    object::raw_object temp(src.begin(), src.end());
+    for (auto& [key, val] : temp) {
+        dst.insert_or_assign(key, std::move(val));
     }
 }
 
 inline void merge_object_move(object::raw_object& dst, object& src)
 {
-    for (auto& [key, val] : src) {
+    // src may be owned by an element of dst that gets replaced on the way, so take its elements out first
+    object::raw_object temp(std::make_move_iterator(src.begin()), std::make_move_iterator(src.end()));
+    for (auto& [key, val] : temp) {
         dst.insert_or_assign(key, std::move(val));
     }
 }
-- 
2.43.0


From 1be64d9e11af89cef80dc9021032613fc27d34c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 05/17] fix: name of enum values outside the range of int

static_cast<int>(val) - min overflowed for large values, and values above INT_MAX were
given the name of the enumerator they wrap around to.
---
 include/common/enum_reflection.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/common/enum_reflection.hpp b/include/common/enum_reflection.hpp
index a70ae04..3b8c833 100644
--- a/include/common/enum_reflection.hpp
+++ b/include/common/enum_reflection.hpp
@@ -184,13 +184,13 @@ constexpr std::string_view enum_to_string(E val)
 {
     constexpr int min = enum_range<E>::min;
     constexpr int max = enum_range<E>::max;
-    constexpr int range = max - min + 1;
 
     const auto& names = enum_name_storage<E>::names;
 
-    int idx = static_cast<int>(val) - min;
-    if (idx >= 0 && idx < range) {
-        return names[idx];
+    const int num = static_cast<int>(val);
+    // a value that does not fit into int must not be taken for the one it wraps around to
+    if (static_cast<E>(num) == val && num >= min && num <= max) {
+        return names[num - min];
     }
     return {};
 }
-- 
2.43.0


From f05dbe0b6b37fe8cdbaa923f39540b81076c37bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 06/17] fix: enumerators whose names differ only in case

The name of the later one was converted back to the earlier one.
---
 include/common/enum_reflection.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/common/enum_reflection.hpp b/include/common/enum_reflection.hpp
index 3b8c833..5c3d264 100644
--- a/include/common/enum_reflection.hpp
+++ b/include/common/enum_reflection.hpp
@@ -224,6 +224,14 @@ std::optional<E> string_to_enum(std::string_view str)
 
     const auto& names = enum_name_storage<E>::names;
 
+    // an exact match wins over one that only differs in case
+    for (int i = 0; i < range; ++i) {
+        if (!names[i].empty()) {
+            if (names[i] == str) {
+                return static_cast<E>(i + min);
+            }
+        }
+    }
     for (int i = 0; i < range; ++i) {
         if (!names[i].empty()) {
             if (iequals(names[i], str)) {
-- 
2.43.0


From 905c51509e775869429c76c21c030258ee59c212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 07/17] fix: json::open() on a directory and parse() of a
 stream that cannot seek

They threw std::length_error or std::bad_alloc instead of returning std::nullopt.
---
 include/parser/parser.hpp      |  1 +
 include/parser/parser_impl.hpp | 14 +++++++++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/parser/parser.hpp b/include/parser/parser.hpp
index 858f971..75dd1e9 100644
--- a/include/parser/parser.hpp
+++ b/include/parser/parser.hpp
@@ -2,6 +2,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <cctype>
 #include <fstream>
 #include <optional>
diff --git a/include/parser/parser_impl.hpp b/include/parser/parser_impl.hpp
index 566c176..4f4cf40 100644
--- a/include/parser/parser_impl.hpp
+++ b/include/parser/parser_impl.hpp
@@ -618,12 +618,20 @@ inline std::optional<value> parse(const char* content)
 inline std::optional<value> parse(std::istream& istream, bool check_bom, bool with_commets)
 {
     istream.seekg(0, std::ios::end);
-    auto file_size = istream.tellg();
+    const std::streamoff file_size = istream.tellg();
 
     istream.seekg(0, std::ios::beg);
-    std::string str(file_size, '\0');
+    if (file_size < 0 || !istream) {
+        return std::nullopt;
+    }
 
-    istream.read(str.data(), file_size);
+    // Read piecewise: the reported size of something that can not be read (e.g. a directory) is meaningless
+    std::string str;
+    while (istream && static_cast<std::streamoff>(str.size()) < file_size) {
+        char buffer[4096];
+        istream.read(buffer, (std::min)(static_cast<std::streamoff>(sizeof(buffer)), file_size - static_cast<std::streamoff>(str.size())));
+        str.append(buffer, static_cast<size_t>(istream.gcount()));
+    }
 
     if (check_bom) {
         using uchar = unsigned char;
-- 
2.43.0


From 88fea1cd3adb70f5abdcf3f27fb7266b798035e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 08/17] fix: conversion of an rvalue null or empty string to a
 container

static_cast<std::vector<int>>(json::value()) returned an empty vector, while the same
conversion of an lvalue throws and is<std::vector<int>>() is false.
---
 include/common/value.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/common/value.hpp b/include/common/value.hpp
index 2e304ba..d9d31a8 100644
--- a/include/common/value.hpp
+++ b/include/common/value.hpp
@@ -622,6 +622,8 @@ public:
             bool> = true>
     explicit operator T() &&
     {
+        // checked on const: the non-const as_array() would turn an empty value into an array
+        (void)std::as_const(*this).as_array();
         return std::move(as_array()).template as<T>();
     }
 
@@ -644,6 +646,8 @@ public:
             bool> = true>
     explicit operator T() &&
     {
+        // checked on const: the non-const as_object() would turn an empty value into an object
+        (void)std::as_const(*this).as_object();
         return std::move(as_object()).template as<T>();
     }
 
-- 
2.43.0


From 87fd844f776792dd831537a16fa2132923826b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:23 +0000
Subject: [PATCH 09/17] fix: reject a high surrogate escape followed by a
 non-surrogate \u escape

---
 include/parser/parser_impl.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/parser/parser_impl.hpp b/include/parser/parser_impl.hpp
index 4f4cf40..0bcdf70 100644
--- a/include/parser/parser_impl.hpp
+++ b/include/parser/parser_impl.hpp
@@ -442,6 +442,10 @@ inline bool parser<accept_jsonc, parsing_t, accel_traits>::skip_unicode_escape(u
         ext_cp = (((pair_high - 0xD800) << 10) | (cp - 0xDC00)) + 0x10000;
         pair_high = 0;
     }
+    else if (pair_high) {
+        // a high surrogate must be followed by a low one
+        return false;
+    }
 
     // utf8
     if (ext_cp <= 0x7F) {
-- 
2.43.0


From 069514623d3576c05df061cb0b3c85a13bfcf1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:27 +0000
Subject: [PATCH 10/17] fix: copy assignment of a value that contains the
 destination

---
 include/common/value_impl.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index bbb53b5..e4b5e3f 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -845,10 +845,8 @@ inline bool value::all() const
 
 inline value& value::operator=(const value& rhs)
 {
-    _type = rhs._type;
-    _raw_data = deep_copy(rhs._raw_data);
-
-    return *this;
+    // *this may be part of rhs (e.g. v["key"] = v), so copy it before changing anything
+    return *this = value(rhs);
 }
 
 inline value& value::operator=(value&& rhs) noexcept
-- 
2.43.0


From aa8be6c4dcd12c8af57cdc83b8c3f473713f7f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:01 +0000
Subject: [PATCH 11/17] fix: mutable access to an empty array or object keeps
 it, so that v |= v.as_object() does not use a released object

---
 include/common/value_impl.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index e4b5e3f..ceaeba4 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -639,7 +639,7 @@ inline const object& value::as_object() const
 
 inline array& value::as_array()
 {
-    if (empty()) {
+    if (!is_array() && empty()) {
         _type = value_type::array;
         _raw_data = std::make_unique<array>();
     }
@@ -653,7 +653,7 @@ inline array& value::as_array()
 
 inline object& value::as_object()
 {
-    if (empty()) {
+    if (!is_object() && empty()) {
         _type = value_type::object;
         _raw_data = std::make_unique<object>();
     }
@@ -992,7 +992,7 @@ inline value& value::operator[](size_t pos)
 
 inline value& value::operator[](const std::string& key)
 {
-    if (empty()) {
+    if (!is_object() && empty()) {
         _type = value_type::object;
         _raw_data = std::make_unique<object>();
     }
@@ -1002,7 +1002,7 @@ inline value& value::operator[](const std::string& key)
 
 inline value& value::operator[](std::string&& key)
 {
-    if (empty()) {
+    if (!is_object() && empty()) {
         _type = value_type::object;
         _raw_data = std::make_unique<object>();
     }
-- 
2.43.0


From 353db4f3ea426b7cfecd82f7dff93131005c7886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:36 +0000
Subject: [PATCH 12/17] fix: appending an array to itself inserted a range of a
 vector into that vector

---
 include/common/array_impl.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/common/array_impl.hpp b/include/common/array_impl.hpp
index c99a11f..8adbc09 100644
--- a/include/common/array_impl.hpp
+++ b/include/common/array_impl.hpp
@@ -8,8 +8,10 @@ namespace _array_impl_detail
 {
 inline void append_array(array::raw_array& dst, const array& src)
 {
-    dst.reserve(dst.size() + src.size());
-    dst.insert(dst.end(), src.begin(), src.end());
+    // src may be the array that owns dst, whose elements must not be inserted into itself, so copy them first
+    array::raw_array temp(src.begin(), src.end());
+    dst.reserve(dst.size() + temp.size());
+    dst.insert(dst.end(), std::make_move_iterator(temp.begin()), std::make_move_iterator(temp.end()));
 }
 
 inline void append_array_move(array::raw_array& dst, array& src)
-- 
2.43.0


From 1684949a250d53be4365788b1d2504720797ee40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 13/17] fix: as<std::optional<T>>() of null gives nullopt

The cast picked the converting constructor of std::optional, which converts to T and throws for
null, although is<std::optional<T>>() accepts it; find, get, containers of optionals and
MEO_JSONIZATION members were affected.
---
 include/common/utils.hpp      | 6 ++++++
 include/common/value_impl.hpp | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/include/common/utils.hpp b/include/common/utils.hpp
index 6a3eeeb..90d2bc0 100644
--- a/include/common/utils.hpp
+++ b/include/common/utils.hpp
@@ -6,6 +6,7 @@
 #include <cstddef>
 #include <iomanip>
 #include <limits>
+#include <optional>
 #include <sstream>
 #include <string>
 #include <string_view>
@@ -86,6 +87,11 @@ constexpr bool is_nullable<
 template <typename T, typename = std::enable_if_t<is_nullable<T>>>
 using nullable_value_t = std::decay_t<decltype(*std::declval<T>())>;
 
+template <typename T>
+constexpr bool is_optional = false;
+template <typename value_t>
+constexpr bool is_optional<std::optional<value_t>> = true;
+
 template <typename T>
 constexpr bool is_variant = false;
 template <typename... args_t>
diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index ceaeba4..5a03a6c 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -698,6 +698,10 @@ inline value_t value::as() const&
         }
         return dst;
     }
+    else if constexpr (_utils::is_optional<value_t>) {
+        // named, because a cast prefers the converting constructor of std::optional, which rejects null
+        return this->operator value_t();
+    }
     else {
         return static_cast<value_t>(*this);
     }
@@ -723,6 +727,10 @@ inline value_t value::as() &&
         }
         return dst;
     }
+    else if constexpr (_utils::is_optional<value_t>) {
+        // named, because a cast prefers the converting constructor of std::optional, which rejects null
+        return this->operator value_t();
+    }
     else {
         return static_cast<value_t>(*this);
     }
-- 
2.43.0


From 5a531e8edcdaffc9307ef6811511cdc7cd1c8d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 14/17] fix: constructing a value from an lvalue optional or
 smart pointer moved its content away

---
 include/common/value.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/common/value.hpp b/include/common/value.hpp
index d9d31a8..4b51888 100644
--- a/include/common/value.hpp
+++ b/include/common/value.hpp
@@ -139,7 +139,8 @@ public:
     template <
         typename wrapper_t,
         std::enable_if_t<
-            _utils::is_nullable<std::decay_t<wrapper_t>> && std::is_constructible_v<value, typename _utils::nullable_value_t<wrapper_t>>
+            !std::is_lvalue_reference_v<wrapper_t> && _utils::is_nullable<std::decay_t<wrapper_t>>
+                && std::is_constructible_v<value, typename _utils::nullable_value_t<wrapper_t>>
                 && !_utils::has_to_json_in_member<wrapper_t>::value && !_utils::has_to_json_in_templ_spec<wrapper_t>::value,
             bool> = true>
     value(wrapper_t&& wrapper)
-- 
2.43.0


From e152170c9653ca2730a0abb4c92547ef6c26333e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 15/17] fix: conversion to a std::tuple with one element, alone
 or inside an optional or smart pointer

---
 include/common/value.hpp      | 12 ++++++------
 include/common/value_impl.hpp |  8 ++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/common/value.hpp b/include/common/value.hpp
index 4b51888..59cdb68 100644
--- a/include/common/value.hpp
+++ b/include/common/value.hpp
@@ -541,7 +541,7 @@ public:
         if (is_null()) {
             return std::nullopt;
         }
-        return std::optional<T>(static_cast<T>(*this));
+        return std::optional<T>(as<T>());
     }
 
     template <typename T>
@@ -550,7 +550,7 @@ public:
         if (is_null()) {
             return std::nullopt;
         }
-        return std::optional<T>(static_cast<T>(std::move(*this)));
+        return std::optional<T>(std::move(*this).template as<T>());
     }
 
     template <typename T>
@@ -559,7 +559,7 @@ public:
         if (is_null()) {
             return nullptr;
         }
-        return std::make_shared<T>(static_cast<T>(*this));
+        return std::make_shared<T>(as<T>());
     }
 
     template <typename T>
@@ -568,7 +568,7 @@ public:
         if (is_null()) {
             return nullptr;
         }
-        return std::make_shared<T>(static_cast<T>(std::move(*this)));
+        return std::make_shared<T>(std::move(*this).template as<T>());
     }
 
     template <typename T>
@@ -577,7 +577,7 @@ public:
         if (is_null()) {
             return nullptr;
         }
-        return std::make_unique<T>(static_cast<T>(*this));
+        return std::make_unique<T>(as<T>());
     }
 
     template <typename T>
@@ -586,7 +586,7 @@ public:
         if (is_null()) {
             return nullptr;
         }
-        return std::make_unique<T>(static_cast<T>(std::move(*this)));
+        return std::make_unique<T>(std::move(*this).template as<T>());
     }
 
     // Native support for converting to std::variant<Ts...>
diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index 5a03a6c..66073cd 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -698,8 +698,8 @@ inline value_t value::as() const&
         }
         return dst;
     }
-    else if constexpr (_utils::is_optional<value_t>) {
-        // named, because a cast prefers the converting constructor of std::optional, which rejects null
+    else if constexpr (_utils::is_optional<value_t> || _utils::is_tuple_like<value_t>) {
+        // named, because a cast prefers the converting constructors of std::optional, which rejects null, and std::tuple
         return this->operator value_t();
     }
     else {
@@ -727,8 +727,8 @@ inline value_t value::as() &&
         }
         return dst;
     }
-    else if constexpr (_utils::is_optional<value_t>) {
-        // named, because a cast prefers the converting constructor of std::optional, which rejects null
+    else if constexpr (_utils::is_optional<value_t> || _utils::is_tuple_like<value_t>) {
+        // named, because a cast prefers the converting constructors of std::optional, which rejects null, and std::tuple
         return this->operator value_t();
     }
     else {
-- 
2.43.0


From 4c89aa78587c012da491a9bf70e7f644cf259e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:52 +0000
Subject: [PATCH 16/17] fix: subnormal floating point numbers could not be read
 back

std::stof, std::stod and std::stold throw std::out_of_range for subnormal numbers (strtod reports ERANGE for
them), so is<T>() was false and as<T>() threw for numbers the library had written itself. Only overflow and
results of zero are out of range.
---
 include/common/value_impl.hpp | 65 +++++++++++++++++------------------
 1 file changed, 31 insertions(+), 34 deletions(-)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index 66073cd..6917f2c 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -1,5 +1,9 @@
 #pragma once
 
+#include <cerrno>
+#include <cmath>
+#include <cstdlib>
+
 #include "value.hpp"
 
 namespace json
@@ -28,26 +32,33 @@ inline value_t parse_integer(const std::string& str, const char* target_type)
 }
 
 template <typename value_t>
-inline value_t parse_floating(const std::string& str, const char* target_type)
+inline bool try_parse_floating(const std::string& str, value_t& result) noexcept
 {
-    try {
-        size_t pos = 0;
-        value_t result {};
-        if constexpr (std::is_same_v<value_t, float>) {
-            result = std::stof(str, &pos);
-        }
-        else if constexpr (std::is_same_v<value_t, double>) {
-            result = std::stod(str, &pos);
-        }
-        else {
-            result = std::stold(str, &pos);
-        }
-
-        if (pos == str.size()) {
-            return result;
-        }
+    const char* first = str.c_str();
+    char* last = nullptr;
+    const int saved_errno = errno;
+    errno = 0;
+    if constexpr (std::is_same_v<value_t, float>) {
+        result = std::strtof(first, &last);
     }
-    catch (const std::exception&) {
+    else if constexpr (std::is_same_v<value_t, double>) {
+        result = std::strtod(first, &last);
+    }
+    else {
+        result = std::strtold(first, &last);
+    }
+    // ERANGE is also set for subnormal numbers, which are fine
+    const bool out_of_range = errno == ERANGE && (result == 0 || std::isinf(result));
+    errno = saved_errno;
+    return !str.empty() && last == first + str.size() && !out_of_range;
+}
+
+template <typename value_t>
+inline value_t parse_floating(const std::string& str, const char* target_type)
+{
+    value_t result {};
+    if (try_parse_floating(str, result)) {
+        return result;
     }
 
     throw exception("Parse error: cannot convert number '" + str + "' to " + target_type);
@@ -56,22 +67,8 @@ inline value_t parse_floating(const std::string& str, const char* target_type)
 template <typename value_t>
 inline bool can_parse_floating(const std::string& str) noexcept
 {
-    try {
-        size_t pos = 0;
-        if constexpr (std::is_same_v<value_t, float>) {
-            (void)std::stof(str, &pos);
-        }
-        else if constexpr (std::is_same_v<value_t, double>) {
-            (void)std::stod(str, &pos);
-        }
-        else {
-            (void)std::stold(str, &pos);
-        }
-        return pos == str.size();
-    }
-    catch (const std::exception&) {
-        return false;
-    }
+    value_t result {};
+    return try_parse_floating(str, result);
 }
 } // namespace _value_impl_detail
 
-- 
2.43.0


From ccae873810d906741d1bb701cb1398c4d0bbf51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:05 +0000
Subject: [PATCH 17/17] fix: exception message of a refused move_from_json()
 read a value that was moved from

---
 include/common/value_impl.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index 6917f2c..5e4b7e5 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -388,10 +388,15 @@ inline std::string value::value_info() const noexcept
             break;
         }
         case value_type::array:
-            info += ", size=" + std::to_string(as_array().size());
+            // null if the value was moved from, e.g. by move_from_json()
+            if (const auto& arr = std::get<array_ptr>(_raw_data)) {
+                info += ", size=" + std::to_string(arr->size());
+            }
             break;
         case value_type::object:
-            info += ", size=" + std::to_string(as_object().size());
+            if (const auto& obj = std::get<object_ptr>(_raw_data)) {
+                info += ", size=" + std::to_string(obj->size());
+            }
             break;
         }
         return info;
-- 
2.43.0

