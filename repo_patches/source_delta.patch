From 1192d84b63d73e9352cf412015cf6a195938a9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:44 +0000
Subject: [PATCH 01/69] fix: gap_vector: insertions larger than the default
 gap, empty and self-aliasing insertions, element destruction on
 reserve/insert

---
 include/neolib/core/gap_vector.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/neolib/core/gap_vector.hpp b/include/neolib/core/gap_vector.hpp
index 396d8bb..1e5a70a 100644
--- a/include/neolib/core/gap_vector.hpp
+++ b/include/neolib/core/gap_vector.hpp
@@ -471,6 +471,8 @@ namespace neolib
                 iStorageEnd = newStorage + aNewCapacity;
 
                 iDataEnd = std::uninitialized_move(existingData, existingDataEnd, iData);
+                for (auto garbage = existingData; garbage != existingDataEnd; ++garbage)
+                    std::allocator_traits<allocator_type>::destroy(iAlloc, garbage);
 
                 std::allocator_traits<allocator_type>::deallocate(iAlloc, existingData, existingCapacity);
             }
@@ -563,8 +565,9 @@ namespace neolib
         }
         constexpr iterator insert(const_iterator pos, value_type const& value)
         {
+            value_type temp(value); // value may be an element of this container
             auto const memory = allocate_from_gap(pos, 1);
-            std::allocator_traits<allocator_type>::construct(iAlloc, memory, value);
+            std::allocator_traits<allocator_type>::construct(iAlloc, memory, std::move(temp));
             return iterator{ *this, memory };
         }
         constexpr iterator insert(const_iterator pos, value_type&& value)
@@ -575,8 +578,11 @@ namespace neolib
         }
         constexpr iterator insert(const_iterator pos, size_type count, value_type const& value)
         {
+            if (count == 0)
+                return std::next(begin(), std::distance(cbegin(), pos));
+            value_type const temp(value); // value may be an element of this container
             auto const memory = allocate_from_gap(pos, count);
-            std::uninitialized_fill_n(memory, count, value);
+            std::uninitialized_fill_n(memory, count, temp);
             return iterator{ *this, memory };
         }
         template<class InputIt>
@@ -593,6 +599,8 @@ namespace neolib
         }
         constexpr iterator insert(const_iterator pos, std::initializer_list<value_type> list)
         {
+            if (list.size() == 0)
+                return std::next(begin(), std::distance(cbegin(), pos));
             auto const memory = allocate_from_gap(pos, list.size());
             std::uninitialized_copy(list.begin(), list.end(), memory);
             return iterator{ *this, memory };
@@ -745,7 +753,7 @@ namespace neolib
                 if (room() < aCount)
                     grow(aCount);
                 auto const pos = std::next(iData, posIndex);
-                auto const initialGapSize = std::min(room(), DefaultGapSize);
+                auto const initialGapSize = std::max(aCount, std::min(room(), DefaultGapSize));
                 auto src = iDataEnd;
                 auto dest = std::next(iDataEnd, initialGapSize);
                 while (src != pos)
@@ -757,7 +765,7 @@ namespace neolib
                     else
                         *dest = std::move(*src);
                 };
-                auto const garbageCount = std::min<size_type>(aCount, iDataEnd - pos);
+                auto const garbageCount = std::min<size_type>(initialGapSize, iDataEnd - pos);
                 for (auto garbage = std::next(pos, garbageCount); garbage != pos;)
                     std::allocator_traits<allocator_type>::destroy(iAlloc, --garbage);
                 std::advance(iDataEnd, initialGapSize);
-- 
2.43.0


From 02a641700c66a989ace695a1e2c45e102633418d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:12 +0000
Subject: [PATCH 02/69] fix: array_tree/segmented_array: usable after being
 moved from; self-aliasing insertion; gap_vector self-assignment

---
 include/neolib/core/array_tree.hpp      | 6 +-----
 include/neolib/core/gap_vector.hpp      | 3 ++-
 include/neolib/core/segmented_array.hpp | 3 ++-
 3 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/neolib/core/array_tree.hpp b/include/neolib/core/array_tree.hpp
index aabab03..a5d2313 100644
--- a/include/neolib/core/array_tree.hpp
+++ b/include/neolib/core/array_tree.hpp
@@ -237,11 +237,7 @@ namespace neolib
             set_root_node(iNil);
         }
         array_tree(array_tree&& other) :
-            iAllocator{ std::move(other.iAllocator) },
-            iRoot{ nullptr },
-            iFront{ nullptr },
-            iBack{ nullptr },
-            iNil{ nullptr }
+            array_tree{ static_cast<array_tree const&>(other) } // the moved-from tree needs a nil node too
         {
             std::swap(iRoot, other.iRoot);
             std::swap(iFront, other.iFront);
diff --git a/include/neolib/core/gap_vector.hpp b/include/neolib/core/gap_vector.hpp
index 1e5a70a..6644051 100644
--- a/include/neolib/core/gap_vector.hpp
+++ b/include/neolib/core/gap_vector.hpp
@@ -294,7 +294,8 @@ namespace neolib
     public:
         constexpr gap_vector& operator=(const gap_vector& other)
         {
-            assign(other.begin(), other.end());
+            if (&other != this)
+                assign(other.begin(), other.end());
             return *this;
         }
         constexpr gap_vector& operator=(gap_vector&& other) noexcept
diff --git a/include/neolib/core/segmented_array.hpp b/include/neolib/core/segmented_array.hpp
index 1e28731..b9fdaaf 100644
--- a/include/neolib/core/segmented_array.hpp
+++ b/include/neolib/core/segmented_array.hpp
@@ -521,9 +521,10 @@ namespace neolib
         iterator insert(const_iterator aPosition, size_type aCount, const value_type& aValue)
         {
             auto pos = aPosition.iContainerPosition;
+            value_type const temp(aValue); // aValue may be an element of this container
             while (aCount > 0)
             {
-                aPosition = insert(aPosition, &aValue, &aValue+1);
+                aPosition = insert(aPosition, &temp, &temp + 1);
                 ++aPosition;
                 --aCount;
             }
-- 
2.43.0


From 74f90065bec35ce2b1fa1d5551f9271d88b0c759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:58 +0000
Subject: [PATCH 03/69] fix: growable_static_vector: swap must not exchange the
 in-object buffers

---
 include/neolib/core/static_vector.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/neolib/core/static_vector.hpp b/include/neolib/core/static_vector.hpp
index 67bf52a..ebf85cc 100644
--- a/include/neolib/core/static_vector.hpp
+++ b/include/neolib/core/static_vector.hpp
@@ -137,6 +137,13 @@ namespace neolib
         }
         // operations
     public:
+        constexpr void swap(growable_static_vector& other)
+        {
+            // the buffers cannot be exchanged: each belongs to its container
+            growable_static_vector temp{ *this };
+            *this = other;
+            other = temp;
+        }
         const std_type& as_std_vector() const
         {
             return *this;
-- 
2.43.0


From 5f0317e16266c85794cfbb5165c755cb6d510a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:28 +0000
Subject: [PATCH 04/69] fix: tag_array: insert(count) of a value that lives
 inside the container

---
 include/neolib/core/tag_array.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/tag_array.hpp b/include/neolib/core/tag_array.hpp
index 847d93e..1e3d94c 100644
--- a/include/neolib/core/tag_array.hpp
+++ b/include/neolib/core/tag_array.hpp
@@ -471,9 +471,10 @@ namespace neolib
         iterator insert(const tag_type& aTag, const_iterator aPosition, size_type aCount, const value_type& aValue)
         {
             auto pos = aPosition.iContainerPosition;
+            const value_type value = aValue;
             while (aCount > 0)
             {
-                aPosition = insert(aTag, aPosition, &aValue, &aValue+1);
+                aPosition = insert(aTag, aPosition, &value, &value+1);
                 ++aPosition;
                 --aCount;
             }
-- 
2.43.0


From 5eba14932f7a1f5a4fad36a5112b0747bd8445a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:23 +0000
Subject: [PATCH 05/69] fix: tag_array: range insertion read each element's tag
 after advancing past it

---
 include/neolib/core/tag_array.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/tag_array.hpp b/include/neolib/core/tag_array.hpp
index 1e3d94c..7d87e22 100644
--- a/include/neolib/core/tag_array.hpp
+++ b/include/neolib/core/tag_array.hpp
@@ -457,8 +457,9 @@ namespace neolib
             auto pos = aPosition.iContainerPosition;
             while (aFirst != aLast)
             {
-                aPosition = insert(aFirst.segment().tag(), aPosition, 1, *aFirst++);
+                aPosition = insert(aFirst.segment().tag(), aPosition, 1, *aFirst);
                 ++aPosition;
+                ++aFirst;
             }
             return iterator(*this, pos);
         }
-- 
2.43.0


From 8a7b0c4a3ca788259e26b4872838e9905ce0f747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:10 +0000
Subject: [PATCH 06/69] fix: segmented_tree: erasing a value with descendents
 must subtract all of them from the counts

---
 include/neolib/core/segmented_tree.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/neolib/core/segmented_tree.hpp b/include/neolib/core/segmented_tree.hpp
index 31ac047..d5d3c3d 100644
--- a/include/neolib/core/segmented_tree.hpp
+++ b/include/neolib/core/segmented_tree.hpp
@@ -210,11 +210,11 @@ namespace neolib
                 if (!is_root())
                     parent().increment_descendent_count();
             }
-            void decrement_descendent_count()
+            void decrement_descendent_count(std::size_t aCount)
             {
-                --iDescendentCount;
+                iDescendentCount -= aCount;
                 if (!is_root())
-                    parent().decrement_descendent_count();
+                    parent().decrement_descendent_count(aCount);
             }
             std::size_t skipped_descendent_count() const
             {
@@ -789,8 +789,9 @@ namespace neolib
         {
             auto mutablePos = std::next(begin(), std::distance(cbegin(), pos));
             node& parent = mutablePos.parent_node();
+            auto const removedCount = mutablePos.descendent_count() + 1;
             auto result = iterator{ parent, parent.children().erase(mutablePos.base()) };
-            parent.decrement_descendent_count();
+            parent.decrement_descendent_count(removedCount);
             return result;
         }
         void sort()
-- 
2.43.0


From b451ef673c46e920be1f65a7ffa40dda91512b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:33 +0000
Subject: [PATCH 07/69] fix: segmented_tree: keep the skipped-descendent counts
 right for nested skips, insertions and erasures

---
 include/neolib/core/segmented_tree.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/segmented_tree.hpp b/include/neolib/core/segmented_tree.hpp
index d5d3c3d..66b06fd 100644
--- a/include/neolib/core/segmented_tree.hpp
+++ b/include/neolib/core/segmented_tree.hpp
@@ -208,13 +208,21 @@ namespace neolib
             {
                 ++iDescendentCount;
                 if (!is_root())
+                {
+                    if (iSkipChildren)
+                        parent().increment_skipped_descendent_count(1);
                     parent().increment_descendent_count();
+                }
             }
             void decrement_descendent_count(std::size_t aCount)
             {
                 iDescendentCount -= aCount;
                 if (!is_root())
+                {
+                    if (iSkipChildren)
+                        parent().decrement_skipped_descendent_count(aCount);
                     parent().decrement_descendent_count(aCount);
+                }
             }
             std::size_t skipped_descendent_count() const
             {
@@ -223,13 +231,13 @@ namespace neolib
             void increment_skipped_descendent_count(std::size_t aCount)
             {
                 iSkippedDescendentCount += aCount;
-                if (!is_root())
+                if (!is_root() && !iSkipChildren) // our own skipped descendents are already skipped if we skip all of them
                     parent().increment_skipped_descendent_count(aCount);
             }
             void decrement_skipped_descendent_count(std::size_t aCount)
             {
                 iSkippedDescendentCount -= aCount;
-                if (!is_root())
+                if (!is_root() && !iSkipChildren)
                     parent().decrement_skipped_descendent_count(aCount);
             }
             void update_parents(node& parent)
@@ -790,7 +798,9 @@ namespace neolib
             auto mutablePos = std::next(begin(), std::distance(cbegin(), pos));
             node& parent = mutablePos.parent_node();
             auto const removedCount = mutablePos.descendent_count() + 1;
+            auto const removedSkippedCount = mutablePos.children_skipped() ? mutablePos.our_node().descendent_count() : mutablePos.our_node().skipped_descendent_count();
             auto result = iterator{ parent, parent.children().erase(mutablePos.base()) };
+            parent.decrement_skipped_descendent_count(removedSkippedCount);
             parent.decrement_descendent_count(removedCount);
             return result;
         }
-- 
2.43.0


From c67b8734091ae2d9a967579b3bd02b9160ed2860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:40 +0000
Subject: [PATCH 08/69] fix: indexitor: foreign index lookups must use the
 element's own width, not its subtree's

---
 include/neolib/core/indexitor.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/neolib/core/indexitor.hpp b/include/neolib/core/indexitor.hpp
index c8fa962..52e3048 100644
--- a/include/neolib/core/indexitor.hpp
+++ b/include/neolib/core/indexitor.hpp
@@ -514,7 +514,7 @@ namespace neolib
             auto n = base_type::find_node_by_foreign_index(aForeignIndex, nodeIndex, nodeForeignIndex, aPred);
             if (!n->is_nil() &&
                 !aPred(aForeignIndex - nodeForeignIndex, static_cast<node*>(n)->skip().first) &&
-                aPred(aForeignIndex - nodeForeignIndex, static_cast<node*>(n)->foreign_index() - static_cast<node*>(n)->skip().second))
+                aPred(aForeignIndex - nodeForeignIndex, static_cast<node*>(n)->centre_foreign_index() - static_cast<node*>(n)->skip().second))
                 return std::make_pair(const_iterator{*this, static_cast<node*>(n)}, nodeForeignIndex + static_cast<node*>(n)->skip().first);
             else
                 return std::make_pair(end(), foreign_index(end()));
@@ -527,7 +527,7 @@ namespace neolib
             auto n = base_type::find_node_by_foreign_index(aForeignIndex, nodeIndex, nodeForeignIndex, aPred);
             if (!n->is_nil() && 
                 !aPred(aForeignIndex - nodeForeignIndex, static_cast<node*>(n)->skip().first) &&
-                aPred(aForeignIndex - nodeForeignIndex, static_cast<node*>(n)->foreign_index() - static_cast<node*>(n)->skip().second))
+                aPred(aForeignIndex - nodeForeignIndex, static_cast<node*>(n)->centre_foreign_index() - static_cast<node*>(n)->skip().second))
                 return std::make_pair(iterator{*this, static_cast<node*>(n)}, nodeForeignIndex + static_cast<node*>(n)->skip().first);
             else
                 return std::make_pair(end(), foreign_index(end()));
@@ -537,7 +537,7 @@ namespace neolib
             if (aPosition.iNode != nullptr)
                 return do_foreign_index(aPosition.iNode) + aPosition.iNode->skip().first;
             else
-                return empty() ? foreign_index_type{} : do_foreign_index(static_cast<const node*>(base_type::back_node())) + base_type::back_node()->foreign_index();
+                return empty() ? foreign_index_type{} : do_foreign_index(static_cast<const node*>(base_type::back_node())) + base_type::back_node()->centre_foreign_index();
         }
         foreign_index_type skip_before(const_iterator aPosition) const
         {
-- 
2.43.0


From 736d70067a5776bf84fe33831dba671416c5e5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:51 +0000
Subject: [PATCH 09/69] fix: string_utf: reject code points above U+10FFFF;
 check_utf8 accepts U+FFFD and rejects surrogates

---
 include/neolib/core/string_utf.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/string_utf.hpp b/include/neolib/core/string_utf.hpp
index 1a7eaaf..daf22d0 100644
--- a/include/neolib/core/string_utf.hpp
+++ b/include/neolib/core/string_utf.hpp
@@ -246,7 +246,8 @@ namespace neolib
                 }
             }
             static const unicode_char_t sMaxCodePoint[] = { 0x7F, 0x7FF, 0xFFFF, 0x10FFFF };
-            if (unicodeChar <= sMaxCodePoint[aCount - 1]) // overlong sequences
+            if (unicodeChar <= sMaxCodePoint[aCount - 1] || // overlong sequences
+                unicodeChar > sMaxCodePoint[3]) // not a Unicode code point
             {
                 aCurrent = start;
                 return INVALID_CHAR32;
@@ -422,7 +423,7 @@ namespace neolib
                     uch = detail::next_utf_bits(static_cast<unicode_char_t>(nch & ~0xF8), 3, i, end);
                 else
                     uch = INVALID_CHAR32;
-                if (i == old || uch == INVALID_CHAR32)
+                if (i == old || utf16::is_high_surrogate(uch) || utf16::is_low_surrogate(uch))
                     return false;
             }
         }
-- 
2.43.0


From ff4fc5761182f94f70c5b4751b647fea63b9d196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:26 +0000
Subject: [PATCH 10/69] fix: tokens: an empty last token must not exceed the
 requested maximum

---
 include/neolib/core/string_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/string_utils.hpp b/include/neolib/core/string_utils.hpp
index 5198ddb..087c6dd 100644
--- a/include/neolib/core/string_utils.hpp
+++ b/include/neolib/core/string_utils.hpp
@@ -164,7 +164,7 @@ namespace neolib
             aTokens.push_back(value_type{ b, e });
             b = e;
         }
-        else if (b == e && last && last.value() != e && !aSkipEmptyTokens)
+        else if (b == e && last && last.value() != e && !aSkipEmptyTokens && (aMaxTokens == 0 || tokens < aMaxTokens))
             aTokens.push_back(value_type{ e, e });
         return b;
     }
-- 
2.43.0


From a69a85cc53dcd850bd445cd8308bd4392d5d25d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:26 +0000
Subject: [PATCH 11/69] fix: replace_string: searching for an empty string must
 terminate

---
 include/neolib/core/string_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/string_utils.hpp b/include/neolib/core/string_utils.hpp
index 087c6dd..49499e7 100644
--- a/include/neolib/core/string_utils.hpp
+++ b/include/neolib/core/string_utils.hpp
@@ -244,7 +244,7 @@ namespace neolib
     template <typename CharT, typename Traits, typename Alloc>
     inline bool replace_string(std::basic_string<CharT, Traits, Alloc>& aString, const std::basic_string<CharT, Traits, Alloc>& aSearch, const std::basic_string<CharT, Traits, Alloc>& aReplace, string_spans* aSpans, const string_span::type* aNewSpanType)
     {
-        if (aString.empty())
+        if (aString.empty() || aSearch.empty())
             return false;
         typedef std::basic_string<CharT, Traits, Alloc> string;
         typename string::size_type pos = 0;
-- 
2.43.0


From 76261738524f7603f190bd360535817f4ef8c8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:26 +0000
Subject: [PATCH 12/69] fix: wildcard_match: text after the last '*' may occur
 more than once; an empty pattern matches only empty text

---
 include/neolib/core/string_utils.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/string_utils.hpp b/include/neolib/core/string_utils.hpp
index 49499e7..33b1e39 100644
--- a/include/neolib/core/string_utils.hpp
+++ b/include/neolib/core/string_utils.hpp
@@ -529,6 +529,8 @@ namespace neolib
     {
         typedef std::pair<FwdIter, FwdIter> substring_t;
         typedef std::vector<substring_t> substrings_t;
+        if (aPatternBegin == aPatternEnd)
+            return aTextBegin == aTextEnd;
         substrings_t substrings;
         CharT any_string = detail::wildcard_match_any_string<CharT>();
         neolib::tokens(aPatternBegin, aPatternEnd, &any_string, &any_string + 1, substrings);
@@ -544,7 +546,7 @@ namespace neolib
                 return false;
             if (theSubstring.second == aPatternEnd && !std::equal(aTextEnd - (theSubstring.second - theSubstring.first), aTextEnd, theSubstring.first, detail::wildcard_compare<Traits>()))
                 return false;
-            if (theSubstring.second == aPatternEnd && aTextEnd - nextMatch != theSubstring.second - theSubstring.first)
+            if (theSubstring.second == aPatternEnd && theSubstring.first == aPatternBegin && aTextEnd - nextMatch != theSubstring.second - theSubstring.first)
                 return false;
             previousMatch = nextMatch + (theSubstring.second - theSubstring.first);
         }
-- 
2.43.0


From 3d2876397a552336caf3d86bd400e3c7d6baa9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:26 +0000
Subject: [PATCH 13/69] fix: parse_url_escapes: only '%' followed by two
 hexadecimal digits is an escape

---
 include/neolib/core/string_utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/string_utils.hpp b/include/neolib/core/string_utils.hpp
index 33b1e39..96b6036 100644
--- a/include/neolib/core/string_utils.hpp
+++ b/include/neolib/core/string_utils.hpp
@@ -467,7 +467,8 @@ namespace neolib
     {
         std::string ret = aString;
         for (std::string::size_type pos = 0; pos != ret.length(); ++pos)
-            if (ret[pos] == '%' && pos + 2 < ret.length())
+            if (ret[pos] == '%' && pos + 2 < ret.length() &&
+                std::isxdigit(static_cast<unsigned char>(ret[pos + 1])) && std::isxdigit(static_cast<unsigned char>(ret[pos + 2])))
                 ret.replace(pos, 3, 1, static_cast<char>(string_to_int32(ret.substr(pos + 1, 2), 16)));
         return ret;
     }
-- 
2.43.0


From be80172934e4800197fd78a1a6683c2cd1783612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:25 +0000
Subject: [PATCH 14/69] fix: string_search_fsa: report patterns that are a
 prefix of another pattern, and where single-character matches start

---
 src/core/string_utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/string_utils.cpp b/src/core/string_utils.cpp
index 818186f..3626c21 100644
--- a/src/core/string_utils.cpp
+++ b/src/core/string_utils.cpp
@@ -93,9 +93,9 @@ namespace neolib
             if (existing != aState.match.end())
             {
                 bool const wildcard = (existing->first == '*');
-                if (!wildcard && existing->second.match.empty())
+                if (!wildcard)
                     for (auto const& action : existing->second.actions)
-                        aResults.insert(std::make_tuple(&action, aStart, std::next(aNext)));
+                        aResults.insert(std::make_tuple(&action, aStart == nullptr ? aNext : aStart, std::next(aNext)));
                 search(existing->second, aStart == nullptr ? aNext : aStart, std::next(aNext), aEnd, false, aResults);
                 if (wildcard)
                 {
-- 
2.43.0


From 1daf289864aaa7a3cfaa66caea47f915343636c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:18 +0000
Subject: [PATCH 15/69] fix: string_to_int32: return the base 10 result

---
 include/neolib/core/string_numeric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/string_numeric.hpp b/include/neolib/core/string_numeric.hpp
index 2f941cd..1885351 100644
--- a/include/neolib/core/string_numeric.hpp
+++ b/include/neolib/core/string_numeric.hpp
@@ -57,7 +57,7 @@ namespace neolib
     inline std::int32_t string_to_int32(const std::basic_string<CharT, Traits, Alloc>& aString, int aBase = 10)
     {
         if (aBase == 10) // todo: does spirit provide other bases?
-            string_to_int32(static_cast<std::basic_string_view<CharT, Traits>>(aString));
+            return string_to_int32(static_cast<std::basic_string_view<CharT, Traits>>(aString));
         return strtol(aString.c_str(), nullptr, aBase);
     }
         
-- 
2.43.0


From 7435ceaca9699ebee6954d07de88139682b9b4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:45 +0000
Subject: [PATCH 16/69] fix: string_to_number: keep the fraction and exponent
 of a number that starts like an integer

---
 include/neolib/core/string_numeric.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/neolib/core/string_numeric.hpp b/include/neolib/core/string_numeric.hpp
index 1885351..74c7a28 100644
--- a/include/neolib/core/string_numeric.hpp
+++ b/include/neolib/core/string_numeric.hpp
@@ -120,24 +120,29 @@ namespace neolib
     inline number_t string_to_number(const std::basic_string_view<CharT, Traits>& aStringView)
     {
         namespace qi = boost::spirit::qi;
+        auto const isInteger = [&](auto const& next) { return next == aStringView.end() || (*next != '.' && *next != 'e' && *next != 'E'); };
         {
             std::int32_t result = 0;
-            if (qi::parse(aStringView.begin(), aStringView.end(), qi::int_, result))
+            auto next = aStringView.begin();
+            if (qi::parse(next, aStringView.end(), qi::int_, result) && isInteger(next))
                 return result;
         }
         {
             std::uint32_t result = 0u;
-            if (qi::parse(aStringView.begin(), aStringView.end(), qi::uint_, result))
+            auto next = aStringView.begin();
+            if (qi::parse(next, aStringView.end(), qi::uint_, result) && isInteger(next))
                 return result;
         }
         {
             std::int64_t result = 0ll;
-            if (qi::parse(aStringView.begin(), aStringView.end(), qi::long_long, result))
+            auto next = aStringView.begin();
+            if (qi::parse(next, aStringView.end(), qi::long_long, result) && isInteger(next))
                 return result;
         }
         {
             std::uint64_t result = 0ull;
-            if (qi::parse(aStringView.begin(), aStringView.end(), qi::ulong_long, result))
+            auto next = aStringView.begin();
+            if (qi::parse(next, aStringView.end(), qi::ulong_long, result) && isInteger(next))
                 return result;
         }
         {
-- 
2.43.0


From 5db191fa324ec9cf84b916dcc064bc351e2c6942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:54 +0000
Subject: [PATCH 17/69] fix: quick_string::find_last_not_of searched for a
 character of the set instead of one outside it

---
 include/neolib/core/quick_string.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/neolib/core/quick_string.hpp b/include/neolib/core/quick_string.hpp
index b6c6075..fa08db5 100644
--- a/include/neolib/core/quick_string.hpp
+++ b/include/neolib/core/quick_string.hpp
@@ -499,37 +499,37 @@ namespace neolib
         size_type find_last_not_of(const basic_quick_string& str, size_type pos = npos) const
         {
             if (is_view())
-                return get_view_string().find_last_of(str.to_std_string_view(), pos);
+                return get_view_string().find_last_not_of(str.to_std_string_view(), pos);
             else
-                return get_string().find_last_of(str.to_std_string_view(), pos);
+                return get_string().find_last_not_of(str.to_std_string_view(), pos);
         }
         size_type find_last_not_of(const string_type& str, size_type pos = npos) const
         {
             if (is_view())
-                return get_view_string().find_last_of(str, pos);
+                return get_view_string().find_last_not_of(str, pos);
             else
-                return get_string().find_last_of(str, pos);
+                return get_string().find_last_not_of(str, pos);
         }
         size_type find_last_not_of(const CharT* s, size_type pos, size_type n) const
         {
             if (is_view())
-                return get_view_string().find_last_of(s, pos, n);
+                return get_view_string().find_last_not_of(s, pos, n);
             else
-                return get_string().find_last_of(s, pos, n);
+                return get_string().find_last_not_of(s, pos, n);
         }
         size_type find_last_not_of(const CharT* s, size_type pos = npos) const
         {
             if (is_view())
-                return get_view_string().find_last_of(s, pos);
+                return get_view_string().find_last_not_of(s, pos);
             else
-                return get_string().find_last_of(s, pos);
+                return get_string().find_last_not_of(s, pos);
         }
         size_type find_last_not_of(CharT c, size_type pos = npos) const
         {
             if (is_view())
-                return get_view_string().find_last_of(c, pos);
+                return get_view_string().find_last_not_of(c, pos);
             else
-                return get_string().find_last_of(c, pos);
+                return get_string().find_last_not_of(c, pos);
         }
         string_type substr(size_type pos = 0, size_type n = npos) const
         {
-- 
2.43.0


From 86eb96ffa5c3a045a6b3f0630769c4fb57fcb89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:54 +0000
Subject: [PATCH 18/69] fix: quick_string fill constructor and character
 assignment made a two character string

---
 include/neolib/core/quick_string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/quick_string.hpp b/include/neolib/core/quick_string.hpp
index fa08db5..7b08184 100644
--- a/include/neolib/core/quick_string.hpp
+++ b/include/neolib/core/quick_string.hpp
@@ -114,7 +114,7 @@ namespace neolib
         {
         }
         basic_quick_string(size_type n, CharT c, const Alloc& a = Alloc()) : 
-            iContents{ string_type{ n, c, a } } 
+            iContents{ string_type(n, c, a) } 
         {
         }
         template <typename SFINAE = void*>
@@ -157,7 +157,7 @@ namespace neolib
         }
         basic_quick_string& operator=(CharT c) 
         { 
-            iContents = string_type{ 1, c }; 
+            iContents = string_type(1, c); 
             return *this; 
         }
         // iterators
-- 
2.43.0


From a2910ddcee046574f971d954493bf705a161bf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:54 +0000
Subject: [PATCH 19/69] fix: quick_string made from a part of another could
 extend past its end

---
 include/neolib/core/quick_string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/quick_string.hpp b/include/neolib/core/quick_string.hpp
index 7b08184..7adaf43 100644
--- a/include/neolib/core/quick_string.hpp
+++ b/include/neolib/core/quick_string.hpp
@@ -98,7 +98,7 @@ namespace neolib
         {
         }
         basic_quick_string(const basic_quick_string& str, size_type pos, size_type n = npos) :
-            iContents{ view_contents_type{ string_view_type{ str.cbegin() + pos, (n == npos ? str.size() - pos : n) }, str.get_allocator() } } 
+            iContents{ view_contents_type{ string_view_type{ str.cbegin() + pos, std::min<size_type>(n, str.size() - pos) }, str.get_allocator() } } 
         {
         }
         explicit basic_quick_string(const string_view_type& view, const Alloc& a = Alloc()) :
-- 
2.43.0


From cf403631c234e77dccec59a798d3ec93d3c22089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:04 +0000
Subject: [PATCH 20/69] fix: intrusive_sort's heapsort left the last element
 out of the heap it built

---
 include/neolib/core/intrusive_sort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/intrusive_sort.hpp b/include/neolib/core/intrusive_sort.hpp
index ce97414..a918231 100644
--- a/include/neolib/core/intrusive_sort.hpp
+++ b/include/neolib/core/intrusive_sort.hpp
@@ -111,7 +111,7 @@ namespace neolib
             while (start > first)
             {
                 --start;
-                siftDown(first, start, end, swapper, comp);
+                siftDown(first, start, last, swapper, comp);
             }
         }
             
-- 
2.43.0


From d79845200412992ffc397933d15057983a8907d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:38 +0000
Subject: [PATCH 21/69] fix: json: brackets must match and be closed; reading
 again starts from an empty document

---
 include/neolib/file/json.inl | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 15b3593..54e8c27 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1108,6 +1108,8 @@ namespace neolib
     {
         iCursor = decltype(iCursor){};
         document().clear();
+        iRoot = std::nullopt;
+        iCompositeValueStack.clear();
         iUtf16HighSurrogate = std::nullopt;
     }
 
@@ -1332,7 +1334,7 @@ namespace neolib
                     create_parse_error();
                     return false;
                 case json_detail::state::EndOfParse:
-                    if (nextInputCh != &iDocumentText.back())
+                    if (nextInputCh != &iDocumentText.back() || !has_root() || !iCompositeValueStack.empty())
                     {
                         create_parse_error();
                         return false;
@@ -1446,7 +1448,14 @@ namespace neolib
                         break;
                     }
                     if (nextState == json_detail::state::Close)
+                    {
+                        if (context() != (*nextInputCh == '}' ? json_type::Object : json_type::Array))
+                        {
+                            create_parse_error();
+                            return false;
+                        }
                         iCompositeValueStack.pop_back();
+                    }
                     switch (context())
                     {
                     case json_type::Object:
-- 
2.43.0


From edad2bc2bccf7f276418966e8b578c9ff4ca64a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:52 +0000
Subject: [PATCH 22/69] fix: json: standard syntax rejects stray and missing
 separators and text after the root value

---
 include/neolib/file/json.inl | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 54e8c27..0922f4b 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -255,7 +255,16 @@ namespace neolib
         template <json_syntax Syntax>
         constexpr inline std::array<state, TOKEN_COUNT> object_state()
         {
-            if constexpr (Syntax != json_syntax::Functional)
+            if constexpr (Syntax == json_syntax::Standard || Syntax == json_syntax::StandardNoKeywords)
+            {
+                return
+                    // state::Object
+                    std::array<state, TOKEN_COUNT>
+                    {{//TXXX  TOBJ  TCLO  TARR  TCLA  TCOL  TCOM  TQOT  TCHA  TESC  TESU  TECH  TPLU  TMIN  TDIG  THEX  TEHX  TDEC  TEXP  TAST  TFWD  TSYM  TSPA  TWSP  TZZZ
+                        SXXX, SXXX, SCLO, SXXX, SXXX, SXXX, SXXX, SNAM, SKEY, SXXX, SKEY, SKEY, SXXX, SXXX, SXXX, SKEY, SKEY, SXXX, SKEY, SXXX, SXXX, SXXX, SIGN, SIGN, SXXX
+                    }};
+            }
+            else if constexpr (Syntax != json_syntax::Functional)
             {
                 return
                     // state::Object
@@ -416,7 +425,7 @@ namespace neolib
             // state::NeedValueSeparator
             std::array<state, TOKEN_COUNT>
             {{//TXXX  TOBJ  TCLO  TARR  TCLA  TCOL  TCOM  TQOT  TCHA  TESC  TESU  TECH  TPLU  TMIN  TDIG  THEX  TEHX  TDEC  TEXP  TAST  TFWD  TSYM  TSPA  TWSP  TZZZ
-                SXXX, SXXX, SCLO, SXXX, SCLO, SXXX, SVAL, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SIGN, SIGN, SXXX
+                SXXX, SXXX, SCLO, SXXX, SCLO, SXXX, SNVA, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SIGN, SIGN, SXXX
             }},
             // state::NeedValue
             need_value_state<Syntax>(),
@@ -1456,10 +1465,19 @@ namespace neolib
                         }
                         iCompositeValueStack.pop_back();
                     }
+                    else if constexpr (syntax == json_syntax::Standard || syntax == json_syntax::StandardNoKeywords)
+                    {
+                        bool const haveName = !std::holds_alternative<std::monostate>(currentElement.name);
+                        if ((*nextInputCh == ',' && (haveName || context() == json_type::Unknown)) || (*nextInputCh == ':' && !haveName))
+                        {
+                            create_parse_error();
+                            return false;
+                        }
+                    }
                     switch (context())
                     {
                     case json_type::Object:
-                        if constexpr (syntax == json_syntax::Standard)
+                        if constexpr (syntax == json_syntax::Standard || syntax == json_syntax::StandardNoKeywords)
                         {
                             if (std::holds_alternative<std::monostate>(currentElement.name))
                             {
@@ -1482,7 +1500,7 @@ namespace neolib
                         }
                         break;
                     case json_type::Array:
-                        if constexpr (syntax == json_syntax::Standard)
+                        if constexpr (syntax == json_syntax::Standard || syntax == json_syntax::StandardNoKeywords)
                         {
                             if (*nextInputCh == ',')
                                 nextState = json_detail::state::NeedValue;
@@ -2043,6 +2061,11 @@ namespace neolib
                 return newObject;
             }
         default:
+            if constexpr (Syntax == json_syntax::Standard || Syntax == json_syntax::StandardNoKeywords)
+            {
+                if (has_root())
+                    throw json_error("more than one root value");
+            }
             root() = std::forward<T>(aValue);
             root().set_document_source_location(iCursor);
             return &root();
-- 
2.43.0


From f421d47cb5f0dff13f1f6b449cddc8b11e941246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:59 +0000
Subject: [PATCH 23/69] fix: json: unicode escapes at the start of a string and
 in member names

---
 include/neolib/file/json.inl | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 0922f4b..4870484 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1574,7 +1574,7 @@ namespace neolib
                     }
                     break;
                 case json_detail::state::Escaped:
-                    if (nextOutputCh == currentElement.start)
+                    if (nextOutputCh == currentElement.start && currentElement.auxType != element::EscapedUnicode && iUtf16HighSurrogate == std::nullopt)
                         nextOutputCh = (currentState != json_detail::state::EscapingUnicode ? nextInputCh - 1 : nextInputCh - 2);
                     if (currentState == json_detail::state::Escaping)
                     {
@@ -1625,8 +1625,7 @@ namespace neolib
                             {
                                 iUtf16HighSurrogate = u16ch;
                                 currentElement.auxType = element::Unknown;
-                                currentElement.type = element::String;
-                                nextState = json_detail::state::String;
+                                nextState = currentElement.type == element::String ? json_detail::state::String : json_detail::state::Name;
                                 break;
                             }
                             else if (utf16::is_low_surrogate(u16ch) && iUtf16HighSurrogate != std::nullopt)
@@ -1680,7 +1679,7 @@ namespace neolib
                                 }
                             }
                             currentElement.auxType = element::Unknown;
-                            nextState = json_detail::state::String;
+                            nextState = currentElement.type == element::String ? json_detail::state::String : json_detail::state::Name;
                         }
                         else
                         {
-- 
2.43.0


From f21891bbf8dcb946e451940cfa21f97fdc0a933f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:19 +0000
Subject: [PATCH 24/69] fix: json: write escapes member names and leaves the
 stream's integer format alone

---
 include/neolib/file/json.inl | 74 ++++++++++++++++++++----------------
 1 file changed, 41 insertions(+), 33 deletions(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 4870484..b8a05ed 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1729,6 +1729,42 @@ namespace neolib
             for (int32_t l = 0; l < level; ++l)
                 aOutput << aIndent;
         };
+        auto write_string = [&aOutput](auto const& aString)
+        {
+            static const char hexDigits[] = "0123456789abcdef";
+            aOutput << '\"';
+            for (auto const& ch : aString)
+                switch (ch)
+                {
+                case '\"':
+                    aOutput << "\\\"";
+                    break;
+                case '\\':
+                    aOutput << "\\\\";
+                    break;
+                case '\b':
+                    aOutput << "\\b";
+                    break;
+                case '\f':
+                    aOutput << "\\f";
+                    break;
+                case '\n':
+                    aOutput << "\\n";
+                    break;
+                case '\r':
+                    aOutput << "\\r";
+                    break;
+                case '\t':
+                    aOutput << "\\t";
+                    break;
+                default:
+                    if (static_cast<std::uint32_t>(ch) >= 32u)
+                        aOutput << ch;
+                    else
+                        aOutput << "\\u00" << hexDigits[ch / 16] << hexDigits[ch % 16];
+                }
+            aOutput << '\"';
+        };
         for (auto i = cbegin(); i != end; ++i)
         {
             auto const& v = **i;
@@ -1736,7 +1772,10 @@ namespace neolib
             if (i.value().has_name())
             {
                 if (!i.value().name_is_keyword())
-                    aOutput << '\"' << i.value().name() << "\": ";
+                {
+                    write_string(i.value().name());
+                    aOutput << ": ";
+                }
                 else
                     aOutput << i.value().name() << ": ";
             }
@@ -1778,38 +1817,7 @@ namespace neolib
                 aOutput << std::get<json_uint>(v);
                 break;
             case json_type::String:
-                aOutput << '\"';
-                for (auto const& ch : std::get<json_string>(v))
-                    switch (ch)
-                    {
-                    case '\"':
-                        aOutput << "\\\"";
-                        break;
-                    case '\\':
-                        aOutput << "\\\\";
-                        break;
-                    case '\b':
-                        aOutput << "\\b";
-                        break;
-                    case '\f':
-                        aOutput << "\\f";
-                        break;
-                    case '\n':
-                        aOutput << "\\n";
-                        break;
-                    case '\r':
-                        aOutput << "\\r";
-                        break;
-                    case '\t':
-                        aOutput << "\\t";
-                        break;
-                    default:
-                        if (static_cast<std::uint32_t>(ch) >= 32u)
-                            aOutput << ch;
-                        else
-                            aOutput << "\\u" << std::hex << std::setw(4) << std::setfill('0') << (int)ch;
-                    }
-                aOutput << '\"';
+                write_string(std::get<json_string>(v));
                 break;
             case json_type::Bool:
                 aOutput << (std::get<json_bool>(v) ? trueString : falseString);
-- 
2.43.0


From 1cc2cddbf72a31e47afff0b7fb8bd2964bbc5bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:57 +0000
Subject: [PATCH 25/69] fix: json: the text of a number ends where the number
 does

---
 include/neolib/file/json.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index b8a05ed..5a64e03 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1539,13 +1539,13 @@ namespace neolib
                     break;
                 case json_detail::state::NumberIntNeedDigit:
                     currentElement.type = element::Number;
-                    currentElement.start = nextInputCh;
+                    currentElement.start = (nextOutputCh = nextInputCh);
                     break;
                 case json_detail::state::NumberInt:
                     if (currentElement.type != element::Number)
                     {
                         currentElement.type = element::Number;
-                        currentElement.start = nextInputCh;
+                        currentElement.start = (nextOutputCh = nextInputCh);
                     }
                     break;
                 case json_detail::state::Array:
-- 
2.43.0


From 4bec5e63fe47eaea9802a92d8fbef58813a409ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:18 +0000
Subject: [PATCH 26/69] fix: json: relaxed syntax: comment markers and other
 quotes inside strings are text; comments resume the state they interrupted

---
 include/neolib/file/json.inl | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 5a64e03..877ac38 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -630,6 +630,11 @@ namespace neolib
                     else if (token == json_detail::token::EndOfInput)
                         return state::Error;
                     return state::CStyleComment;
+                case state::String:
+                case state::Name:
+                case state::Escaping:
+                case state::EscapingUnicode:
+                    break;
                 default:
                     if (token == json_detail::token::ForwardSlash)
                     {
@@ -1240,10 +1245,9 @@ namespace neolib
     template <json_syntax Syntax, typename Alloc, typename CharT, typename Traits, typename CharAlloc>
     inline bool basic_json<Syntax, Alloc, CharT, Traits, CharAlloc>::do_parse()
     {
-        static constexpr bool usePreviousState = (Syntax == json_syntax::Relaxed || Syntax == json_syntax::Functional || json_detail::debug);
+        static constexpr bool skipComments = (Syntax == json_syntax::Relaxed || Syntax == json_syntax::Functional || json_detail::debug);
 
         json_detail::state currentState = json_detail::state::Value;
-        json_detail::state previousState = currentState;
         json_detail::state nextState;
         element currentElement = {};
 
@@ -1287,19 +1291,21 @@ namespace neolib
             }
             try
             {
-                if constexpr (!usePreviousState)
+                if constexpr (!skipComments)
                     nextState = json_detail::next_state<syntax>(currentState, *nextInputCh);
                 else
                 {
                     bool skippingComment = false;
                     auto tempState = currentState;
                     do {
-                        nextState = json_detail::next_state<syntax>(tempState, previousState, *nextInputCh, nextInputCh != &iDocumentText.back() ? *(nextInputCh + 1) : '\0');
+                        nextState = json_detail::next_state<syntax>(tempState, currentState, *nextInputCh, nextInputCh != &iDocumentText.back() ? *(nextInputCh + 1) : '\0');
                         skippingComment = (nextState == json_detail::state::CppStyleComment || nextState == json_detail::state::CStyleComment);
                         if (skippingComment)
                         {
                             if (tempState != nextState && currentElement.start != nullptr && nextOutputCh == currentElement.start)
                                 nextOutputCh = (currentState != json_detail::state::StringEnd ? nextInputCh : nextInputCh - 1);
+                            if (tempState != nextState && nextState == json_detail::state::CStyleComment)
+                                increment_cursor();
                             tempState = nextState;
                             increment_cursor();
                         }
@@ -1527,6 +1533,16 @@ namespace neolib
                     currentElement.start = (nextOutputCh = nextInputCh + 1);
                     break;
                 case json_detail::state::EndName:
+                    if constexpr (syntax == json_syntax::Relaxed)
+                    {
+                        if (currentState == json_detail::state::Name && *nextInputCh != *(currentElement.start - 1))
+                        {
+                            nextState = json_detail::state::Name;
+                            if (currentElement.start != nextOutputCh)
+                                *nextOutputCh++ = *nextInputCh;
+                            break;
+                        }
+                    }
                     if (std::holds_alternative<std::monostate>(currentElement.name))
                     {
                         json_string newName
@@ -1570,7 +1586,11 @@ namespace neolib
                     {
                         // relaxed: support for three different quote characters
                         if (*nextInputCh != *(currentElement.start - 1))
+                        {
                             nextState = json_detail::state::String;
+                            if (currentElement.start != nextOutputCh)
+                                *nextOutputCh++ = *nextInputCh;
+                        }
                     }
                     break;
                 case json_detail::state::Escaped:
-- 
2.43.0


From 37105587f6b6dd36aec27d642e057012e04c6fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:02 +0000
Subject: [PATCH 27/69] fix: json: relaxed syntax: a comma may follow white
 space, a container or a string

---
 include/neolib/file/json.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 877ac38..5c1d56d 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -348,7 +348,7 @@ namespace neolib
                     // state::Value
                     std::array<state, TOKEN_COUNT>
                     {{//TXXX  TOBJ  TCLO  TARR  TCLA  TCOL  TCOM  TQOT  TCHA  TESC  TESU  TECH  TPLU  TMIN  TDIG  THEX  TEHX  TDEC  TEXP  TAST  TFWD  TSYM  TSPA  TWSP  TZZZ
-                        SXXX, SOBJ, SCLO, SARR, SCLO, SXXX, SXXX, SSTR, SKEY, SXXX, SKEY, SKEY, SKEY, SNU1, SNU2, SKEY, SKEY, SKEY, SKEY, SKEY, SKEY, SKEY, SIGN, SIGN, SZZZ
+                        SXXX, SOBJ, SCLO, SARR, SCLO, SXXX, SVAL, SSTR, SKEY, SXXX, SKEY, SKEY, SKEY, SNU1, SNU2, SKEY, SKEY, SKEY, SKEY, SKEY, SKEY, SKEY, SIGN, SIGN, SZZZ
                     }};
             }
         }
-- 
2.43.0


From 382bb52c554386c4a2956e4b923bd192998ff617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:01 +0000
Subject: [PATCH 28/69] fix: ref_ptr: move assignment neither leaks a count
 when both own the same object nor reads its source after the old object went

---
 include/neolib/core/reference_counted.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/neolib/core/reference_counted.hpp b/include/neolib/core/reference_counted.hpp
index 9c9dfc9..f6d76f9 100644
--- a/include/neolib/core/reference_counted.hpp
+++ b/include/neolib/core/reference_counted.hpp
@@ -311,8 +311,8 @@ namespace neolib
         {
             if (&aOther == this)
                 return *this;
-            reset(aOther.ptr(), aOther.managed_ptr(), aOther.reference_counted(), false);
-            aOther.detach();
+            ref_ptr moved{ std::move(aOther) };
+            reset(moved.ptr(), moved.managed_ptr(), moved.reference_counted(), true);
             return *this;
         }
         ref_ptr& operator=(abstract_type const& aOther)
@@ -331,8 +331,8 @@ namespace neolib
         template <typename Interface2, typename = std::enable_if_t<std::is_base_of_v<Interface, Interface2>, sfinae>>
         ref_ptr& operator=(ref_ptr<Interface2>&& aOther)
         {
-            reset(aOther.ptr(), aOther.managed_ptr(), aOther.reference_counted(), false);
-            aOther.detach();
+            ref_ptr moved{ std::move(aOther) };
+            reset(moved.ptr(), moved.managed_ptr(), moved.reference_counted(), true);
             return *this;
         }
         template <typename Interface2, typename = std::enable_if_t<std::is_base_of_v<Interface, Interface2>, sfinae>>
-- 
2.43.0


From 3a3928350b653c2fef032ed010f586ea2d0e2d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:01 +0000
Subject: [PATCH 29/69] fix: container iterator: an iterator that can step back
 does (set's did nothing)

---
 include/neolib/core/container_iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/container_iterator.hpp b/include/neolib/core/container_iterator.hpp
index 855d6de..3142d63 100644
--- a/include/neolib/core/container_iterator.hpp
+++ b/include/neolib/core/container_iterator.hpp
@@ -81,7 +81,7 @@ namespace neolib
             operator container_iterator() const { return iContainerIterator; }
         public:
             abstract_iterator& operator++() override { ++iContainerIterator; return *this; }
-            abstract_iterator& operator--() override { if constexpr(std::bidirectional_iterator<container_iterator>) --iContainerIterator; return *this; }
+            abstract_iterator& operator--() override { if constexpr (requires(container_iterator i) { --i; }) --iContainerIterator; return *this; }
             reference operator*() const override { return to_abstract(*iContainerIterator); }
             pointer operator->() const override { return &(**this); }
             bool operator==(const abstract_base_iterator& aOther) const override { return iContainerIterator == static_cast<const const_iterator&>(aOther).iContainerIterator; }
@@ -168,7 +168,7 @@ namespace neolib
             operator container_iterator() const { return iContainerIterator; }
         public:
             abstract_iterator& operator++() override { ++iContainerIterator; return *this; }
-            abstract_iterator& operator--() override { if constexpr (std::bidirectional_iterator<container_iterator>) --iContainerIterator; return *this; }
+            abstract_iterator& operator--() override { if constexpr (requires(container_iterator i) { --i; }) --iContainerIterator; return *this; }
             reference operator*() const override { return to_abstract(*iContainerIterator); }
             pointer operator->() const override { return &(**this); }
             bool operator==(const abstract_base_iterator& aOther) const override { return iContainerIterator == static_cast<const iterator&>(aOther).iContainerIterator; }
-- 
2.43.0


From 136ad3a034e09decb981824744f3420e894d4b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:33 +0000
Subject: [PATCH 30/69] fix: any: copying or assigning from a non-const any
 copies its value (recursed for ever)

---
 include/neolib/core/any.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/any.hpp b/include/neolib/core/any.hpp
index 250cc06..73ba91d 100644
--- a/include/neolib/core/any.hpp
+++ b/include/neolib/core/any.hpp
@@ -100,7 +100,7 @@ namespace neolib
             aOther.ptr = nullptr;
         }
         template <typename ValueType>
-        any(ValueType&& aValue, std::enable_if_t<!is_variant_v<std::decay_t<ValueType>>, sfinae> = {}) :
+        any(ValueType&& aValue, std::enable_if_t<!is_variant_v<std::decay_t<ValueType>> && !std::is_base_of_v<i_any, std::decay_t<ValueType>>, sfinae> = {}) :
             std::any{ std::decay_t<ValueType>{aValue} },
             cptr{ &any::do_cptr<std::decay_t<ValueType>> },
             ptr{ &any::do_ptr<std::decay_t<ValueType>> }
@@ -140,7 +140,7 @@ namespace neolib
             aRhs.ptr = nullptr;
             return *this;
         }
-        template<typename ValueType>
+        template<typename ValueType, typename = std::enable_if_t<!std::is_base_of_v<i_any, std::decay_t<ValueType>>, sfinae>>
         any& operator=(ValueType&& aRhs)
         {
             std::any::operator=(std::decay_t<ValueType>{aRhs});
-- 
2.43.0


From b88587832589eb2fed1705e2c515ecae397fa2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:48 +0000
Subject: [PATCH 31/69] fix: any: pointer any_cast and emplace with several
 arguments compile; self move keeps the value

---
 include/neolib/core/any.hpp   | 10 ++++++----
 include/neolib/core/i_any.hpp |  4 ++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/neolib/core/any.hpp b/include/neolib/core/any.hpp
index 73ba91d..686e13e 100644
--- a/include/neolib/core/any.hpp
+++ b/include/neolib/core/any.hpp
@@ -133,6 +133,8 @@ namespace neolib
         }
         any& operator=(any&& aRhs)
         {
+            if (&aRhs == this)
+                return *this;
             std::any::operator=(std::move(aRhs.as_std_any()));
             cptr = aRhs.cptr;
             ptr = aRhs.ptr;
@@ -152,7 +154,7 @@ namespace neolib
         template<class ValueType, class... Args>
         std::decay_t<ValueType>& emplace(Args&&... args)
         {
-            auto& result = std::any::emplace<ValueType>(std::forward<Args...>(args...));
+            auto& result = std::any::emplace<ValueType>(std::forward<Args>(args)...);
             cptr = &any::do_cptr<std::decay_t<ValueType>>;
             ptr = &any::do_ptr<std::decay_t<ValueType>>;
             return result;
@@ -160,7 +162,7 @@ namespace neolib
         template<class ValueType, class U, class... Args>
         std::decay_t<ValueType>& emplace(std::initializer_list<U> il, Args&&... args)
         {
-            auto& result = std::any::emplace<ValueType>(il, std::forward<Args...>(args...));
+            auto& result = std::any::emplace<ValueType>(il, std::forward<Args>(args)...);
             cptr = &any::do_cptr<std::decay_t<ValueType>>;
             ptr = &any::do_ptr<std::decay_t<ValueType>>;
             return result;
@@ -281,12 +283,12 @@ namespace neolib
     template<class T>
     inline const T* any_cast(const any* operand) noexcept
     {
-        return std::any_cast<const T*>(&operand->as_std_any());
+        return std::any_cast<T>(&operand->as_std_any());
     }
     template<class T>
     inline T* any_cast(any* operand) noexcept
     {
-        return std::any_cast<T*>(&operand->as_std_any());
+        return std::any_cast<T>(&operand->as_std_any());
     }
     template<class T>
     inline T unsafe_any_cast(const any& operand) noexcept
diff --git a/include/neolib/core/i_any.hpp b/include/neolib/core/i_any.hpp
index 9846fcb..75a514b 100644
--- a/include/neolib/core/i_any.hpp
+++ b/include/neolib/core/i_any.hpp
@@ -95,12 +95,12 @@ namespace neolib
     template<class T>
     inline const T* any_cast(const i_any* operand) noexcept
     {
-        return std::any_cast<const T*>(&operand->as_std_any());
+        return std::any_cast<T>(&operand->as_std_any());
     }
     template<class T>
     inline T* any_cast(i_any* operand) noexcept
     {
-        return std::any_cast<T*>(&operand->as_std_any());
+        return std::any_cast<T>(&operand->as_std_any());
     }
     template<class T>
     inline T unsafe_any_cast(const i_any& operand) noexcept
-- 
2.43.0


From c0b49fe1ac879c8cf169bafc0447b0057ff2cf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:45 +0000
Subject: [PATCH 32/69] fix: variant: assigning an empty variant through the
 interface empties the target (kept its old value)

---
 include/neolib/core/variant.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/variant.hpp b/include/neolib/core/variant.hpp
index c07587c..cfb9abb 100644
--- a/include/neolib/core/variant.hpp
+++ b/include/neolib/core/variant.hpp
@@ -284,7 +284,10 @@ namespace neolib
         };
         abstract_type& assign(std::size_t aIndex, void const* aPtr) final
         {
-            RuntimeTypeDispatchToEmplace<Types...>::assign(*this, aIndex, aPtr);
+            if (aIndex == 0)
+                std_type::operator=(std::monostate{});
+            else
+                RuntimeTypeDispatchToEmplace<Types...>::assign(*this, aIndex, aPtr);
             return *this;
         }
     };
-- 
2.43.0


From 3896b22b0271b33b9495cdc4eeae5712c4d2b1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:25 +0000
Subject: [PATCH 33/69] fix: variant: assigning a variant to itself through the
 interface keeps its value (copied from the destroyed one)

---
 include/neolib/core/variant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/variant.hpp b/include/neolib/core/variant.hpp
index cfb9abb..9da9a9a 100644
--- a/include/neolib/core/variant.hpp
+++ b/include/neolib/core/variant.hpp
@@ -286,7 +286,7 @@ namespace neolib
         {
             if (aIndex == 0)
                 std_type::operator=(std::monostate{});
-            else
+            else if (aIndex != index() || aPtr != to_const(*this).ptr())
                 RuntimeTypeDispatchToEmplace<Types...>::assign(*this, aIndex, aPtr);
             return *this;
         }
-- 
2.43.0


From 2c7b56800b73520808b88510b14facf616349fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:02 +0000
Subject: [PATCH 34/69] fix: version: operator< compares the maintenance
 numbers of both versions

---
 include/neolib/app/version.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/app/version.hpp b/include/neolib/app/version.hpp
index 2cd76ab..d0eef04 100644
--- a/include/neolib/app/version.hpp
+++ b/include/neolib/app/version.hpp
@@ -78,7 +78,7 @@ namespace neolib
     public:
         bool operator<(const version& aOther) const
         {
-            return std::make_tuple(iMajor, iMinor, iMaintenance, iBuild) < std::make_tuple(aOther.iMajor, aOther.iMinor, iMaintenance, aOther.iBuild);
+            return std::make_tuple(iMajor, iMinor, iMaintenance, iBuild) < std::make_tuple(aOther.iMajor, aOther.iMinor, aOther.iMaintenance, aOther.iBuild);
         }
         bool operator>(const version& aOther) const
         {
-- 
2.43.0


From 8435f9193ecbc4f01b33986b94ff8af241608d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:02 +0000
Subject: [PATCH 35/69] fix: version: the name in a version string is read (was
 dropped)

---
 include/neolib/app/version.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/app/version.hpp b/include/neolib/app/version.hpp
index d0eef04..48d5a0c 100644
--- a/include/neolib/app/version.hpp
+++ b/include/neolib/app/version.hpp
@@ -57,7 +57,7 @@ namespace neolib
             iMajor(0), iMinor(0), iMaintenance(0), iBuild(0), iName("")
         {
             neolib::vecarray<std::string, 5> bits;
-            neolib::tokens(aVersionString, std::string(". "), bits, 4);
+            neolib::tokens(aVersionString, std::string(". "), bits, 5);
             if (bits.size() > 0)
                 iMajor = neolib::string_to_uint32(bits[0]);
             if (bits.size() > 1)
@@ -67,7 +67,7 @@ namespace neolib
             if (bits.size() > 3)
                 iBuild = neolib::string_to_uint32(bits[3]);
             if (bits.size() > 4)
-                iName = bits[3];
+                iName = bits[4];
         }
         version(const i_version& aOther) :
             iMajor(aOther.version_major()), iMinor(aOther.version_minor()), iMaintenance(aOther.version_maintenance()), iBuild(aOther.version_build()), iName(aOther.version_name())
-- 
2.43.0


From 2d95d6367e73c06adc9ab3902a840ddd0c680356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:02 +0000
Subject: [PATCH 36/69] fix: uuid: insertion leaves the stream's number format
 as it was

---
 include/neolib/core/uuid.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/uuid.hpp b/include/neolib/core/uuid.hpp
index a5b9ee8..54566bc 100644
--- a/include/neolib/core/uuid.hpp
+++ b/include/neolib/core/uuid.hpp
@@ -86,6 +86,7 @@ namespace neolib
 
     inline std::ostream& operator<<(std::ostream& aStream, const uuid& aId)
     {
+        auto const oldFlags = aStream.flags();
         char oldFill = aStream.fill('0');
         aStream << std::hex << std::uppercase << std::setw(8) << aId.part1 << "-";
         aStream << std::hex << std::uppercase << std::setw(4) << aId.part2 << "-";
@@ -93,7 +94,7 @@ namespace neolib
         aStream << std::hex << std::uppercase << std::setw(4) << aId.part4 << "-";
         for (size_t i = 0; i <= 5; ++i)
             aStream << std::hex << std::uppercase << std::setw(2) << static_cast<uint32_t>(aId.part5[i]);
-        aStream << std::dec;
+        aStream.flags(oldFlags);
         aStream.fill(oldFill);
         return aStream;
     }
-- 
2.43.0


From 35c8b1ae07a9dfee7c32eb86ee4e8fbc2572e6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:02 +0000
Subject: [PATCH 37/69] fix: recursion_limiter: a refused scope does not count
 (the depth never went back to zero)

---
 include/neolib/core/recursion.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/recursion.hpp b/include/neolib/core/recursion.hpp
index bb9ca00..61bf57b 100644
--- a/include/neolib/core/recursion.hpp
+++ b/include/neolib/core/recursion.hpp
@@ -48,14 +48,16 @@ namespace neolib
         recursion_limiter() :
             iMaxDepth{ Tag::RecursionLimit }
         {
-            if (++depth() > max_depth())
+            if (depth() >= max_depth())
                 throw too_deep();
+            ++depth();
         }
         recursion_limiter(std::size_t aMaxDepth) :
             iMaxDepth{ aMaxDepth }
         {
-            if (++depth() > max_depth())
+            if (depth() >= max_depth())
                 throw too_deep();
+            ++depth();
         }
         ~recursion_limiter()
         {
-- 
2.43.0


From 10b3fb31cba26a1d1c574f4a01bcd0f86d35a33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:02 +0000
Subject: [PATCH 38/69] fix: random: no explicit specialization inside a class
 (did not compile)

---
 include/neolib/core/random.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/neolib/core/random.hpp b/include/neolib/core/random.hpp
index bf538ee..f2e6453 100644
--- a/include/neolib/core/random.hpp
+++ b/include/neolib/core/random.hpp
@@ -50,10 +50,10 @@ namespace neolib
         typedef typename generator_type::result_type generator_result_type;
         static const std::size_t state_size = generator_type::state_size;
     private:
-        template <bool IsInteger>
+        template <bool IsInteger, typename = void>
         struct distribution_selector;
-        template <>
-        struct distribution_selector<true>
+        template <typename Unused>
+        struct distribution_selector<true, Unused>
         {
             typedef generator_result_type interval_value_type;
             typedef std::uniform_int_distribution<interval_value_type> distribution_type;
@@ -62,8 +62,8 @@ namespace neolib
                 return std::make_pair(aLower, aUpper);
             }
         };
-        template <>
-        struct distribution_selector<false>
+        template <typename Unused>
+        struct distribution_selector<false, Unused>
         {
             typedef value_type interval_value_type;
             typedef std::uniform_real_distribution<interval_value_type> distribution_type;
@@ -72,7 +72,7 @@ namespace neolib
                 return std::make_pair(aLower, std::nextafter(aUpper, std::numeric_limits<interval_value_type>::max()));
             }
         };
-        typedef typename distribution_selector<std::is_integral<value_type>::value> distribution_selector_type;
+        typedef distribution_selector<std::is_integral<value_type>::value> distribution_selector_type;
     public:
         typedef typename distribution_selector_type::distribution_type distribution_type;
         typedef typename distribution_selector_type::interval_value_type interval_value_type;
-- 
2.43.0


From 391fe760243eb9b1568c5e0aac42d3e78d6c1a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:01 +0000
Subject: [PATCH 39/69] fix: any_iterator: postfix ++ and -- step the iterator,
 not the returned copy

---
 include/neolib/core/any_iterator.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/neolib/core/any_iterator.hpp b/include/neolib/core/any_iterator.hpp
index 7dc119e..1644b41 100644
--- a/include/neolib/core/any_iterator.hpp
+++ b/include/neolib/core/any_iterator.hpp
@@ -134,7 +134,7 @@ namespace neolib
             if (empty())
                 throw is_empty();
             any_const_iterator ret = *this;
-            ++ret;
+            ++*this;
             return ret;
         }
         any_const_iterator& operator--()
@@ -149,7 +149,7 @@ namespace neolib
             if (empty())
                 throw is_empty();
             any_const_iterator ret = *this;
-            --ret;
+            --*this;
             return ret;
         }
         friend bool operator==(const any_const_iterator& aLeft, const any_const_iterator& aRight)
@@ -290,7 +290,7 @@ namespace neolib
             if (empty())
                 throw is_empty();
             any_iterator ret = *this;
-            ++ret;
+            ++*this;
             return ret;
         }
         any_iterator& operator--()
@@ -305,7 +305,7 @@ namespace neolib
             if (empty())
                 throw is_empty();
             any_iterator ret = *this;
-            --ret;
+            --*this;
             return ret;
         }
         friend bool operator==(const any_iterator& aLeft, const any_iterator& aRight)
-- 
2.43.0


From 455129ef70ada6e4fb2e6ab6fd5b97e3deceed95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:01 +0000
Subject: [PATCH 40/69] fix: any_iterator: self assignment keeps the iterator

---
 include/neolib/core/any_iterator.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/neolib/core/any_iterator.hpp b/include/neolib/core/any_iterator.hpp
index 1644b41..0f3ed98 100644
--- a/include/neolib/core/any_iterator.hpp
+++ b/include/neolib/core/any_iterator.hpp
@@ -113,6 +113,8 @@ namespace neolib
         ~any_const_iterator() { destroy(); }
         any_const_iterator& operator=(const any_const_iterator& aOther) 
         { 
+            if (&aOther == this)
+                return *this;
             destroy(); 
             if (aOther.iHolder) 
                 iHolder = aOther.iHolder->clone(*this); 
@@ -271,6 +273,8 @@ namespace neolib
         ~any_iterator() { destroy(); }
         any_iterator& operator=(const any_iterator& aOther) 
         { 
+            if (&aOther == this)
+                return *this;
             destroy(); 
             if (aOther.iHolder) 
                 iHolder = aOther.iHolder->clone(*this); 
-- 
2.43.0


From 546413b361dc821433a9dc1f72189bf582288cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:01 +0000
Subject: [PATCH 41/69] fix: any_iterator: an iterator is held in place only if
 its holder fits

---
 include/neolib/core/any_iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/any_iterator.hpp b/include/neolib/core/any_iterator.hpp
index 0f3ed98..91afba1 100644
--- a/include/neolib/core/any_iterator.hpp
+++ b/include/neolib/core/any_iterator.hpp
@@ -178,7 +178,7 @@ namespace neolib
         template <typename T>
         holder_base* create(const T& aData)
         {
-            if (sizeof(T) <= sizeof(iSpace.iBytes))
+            if (sizeof(holder<T>) <= sizeof(iSpace.iBytes))
                 iHolder = new (iSpace.iBytes) holder<T>(aData);
             else
                 iHolder = new holder<T>(aData);
@@ -336,7 +336,7 @@ namespace neolib
         template <typename T>
         holder_base* create(const T& aData)
         {
-            if (sizeof(T) <= sizeof(iSpace.iBytes))
+            if (sizeof(holder<T>) <= sizeof(iSpace.iBytes))
                 iHolder = new (iSpace.iBytes) holder<T>(aData);
             else
                 iHolder = new holder<T>(aData);
-- 
2.43.0


From b0958f76e9cdf84b73212c99009e4780d23ed323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:01 +0000
Subject: [PATCH 42/69] fix: zip_iterator: iter_swap swaps (kept references to
 what it had overwritten)

---
 include/neolib/core/zip_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/zip_iterator.hpp b/include/neolib/core/zip_iterator.hpp
index efd050c..ca5fa8e 100644
--- a/include/neolib/core/zip_iterator.hpp
+++ b/include/neolib/core/zip_iterator.hpp
@@ -216,7 +216,7 @@ namespace std
     template <typename... Iterators>
     inline void iter_swap(neolib::zip_iterator<Iterators...> a, neolib::zip_iterator<Iterators...> b)
     {
-        auto temp = *a;
+        typename neolib::zip_iterator<Iterators...>::value_type temp = *a;
         *a = *b;
         *b = temp;
     }
-- 
2.43.0


From 38c5dc26722bb82186f756dda7598ca599f761b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:01 +0000
Subject: [PATCH 43/69] fix: bresenham counters: counting down from zero ends
 at the end

---
 include/neolib/core/bresenham_counter.hpp | 32 +++--------------------
 1 file changed, 4 insertions(+), 28 deletions(-)

diff --git a/include/neolib/core/bresenham_counter.hpp b/include/neolib/core/bresenham_counter.hpp
index 2a5ddb0..4be449a 100644
--- a/include/neolib/core/bresenham_counter.hpp
+++ b/include/neolib/core/bresenham_counter.hpp
@@ -47,12 +47,7 @@ namespace neolib
     public:
         bresenham_counter() {}
         bresenham_counter(T range, T number) : 
-            dx(number-1), 
-            dy(dx > 0 ? range % dx : 0), 
-            d(2*dy - dx), incrE(2*dy), incrNE(2*(dy-dx)), 
-            incrCounter(dx > 0 ? range / dx : 0), 
-            incrCounterPlus1(dx > 0 ? incrCounter+1 : 0),
-            counter(0) {}
+            bresenham_counter(0, range, number) {}
         bresenham_counter(T rangeStart, T rangeEnd, T number) : 
             dx(number-1), 
             dy(dx > 0 ? rangeEnd > rangeStart ? 
@@ -64,14 +59,7 @@ namespace neolib
             counter(rangeStart) {}
         void init(T range, T number)
         {
-            dx = number-1; 
-            dy = dx > 0 ? range % dx : 0; 
-            d = 2*dy - dx;
-            incrE = 2*dy;
-            incrNE = 2*(dy-dx); 
-            incrCounter = dx > 0 ? range / dx : 0; 
-            incrCounterPlus1 = dx > 0 ? incrCounter+1 : 0;
-            counter = 0;
+            init(0, range, number);
         }
         void init(T rangeStart, T rangeEnd, T number)
         {
@@ -122,13 +110,7 @@ namespace neolib
     public:
         bresenham_counter_alt() {}
         bresenham_counter_alt(T range, T number) : 
-            n(number-1),
-            partInt(n > 0 ? range / n : 0),
-            partFract(n > 0 ? range % n : 0), 
-            e(0),
-            incrCounter(partInt),
-            incrCounterPlus1(n > 0 ? incrCounter+1 : 0),
-            counter(0) {}
+            bresenham_counter_alt(0, range, number) {}
         bresenham_counter_alt(T rangeStart, T rangeEnd, T number) : 
             n(number-1),
             partInt(n > 0 ? rangeEnd > rangeStart ? 
@@ -141,13 +123,7 @@ namespace neolib
             counter(rangeStart) {}
         void init(T range, T number)
         {
-            n = number-1;
-            partInt = n > 0 ? range / n : 0;
-            partFract = n > 0 ? range % n : 0;
-            e = 0;
-            incrCounter = partInt;
-            incrCounterPlus1 = n > 0 ? incrCounter+1 : 0;
-            counter = 0;
+            init(0, range, number);
         }
         void init(T rangeStart, T rangeEnd, T number)
         {
-- 
2.43.0


From 2f606b0d395581fc6d243f9e1d85bd1539634b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:41 +0000
Subject: [PATCH 44/69] fix: uri: an escape at the end of the text is unescaped
 (was dropped)

---
 src/io/uri.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/uri.cpp b/src/io/uri.cpp
index eaa6d99..64862a3 100644
--- a/src/io/uri.cpp
+++ b/src/io/uri.cpp
@@ -196,7 +196,7 @@ namespace neolib
         for (auto i = aString.begin(); i != aString.end(); ++i)
             if (*i != '%')
                 escaped += *i;
-            else if (i < aString.end() - 3)
+            else if (aString.end() - i >= 3)
             {
                 escaped += static_cast<char>(string_to_uint32(std::string{ i + 1, i + 3 }, 16));
                 i += 2;
-- 
2.43.0


From 46f1f83c44cc3cbd54e6e51ec386f7a5d06f8794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:41 +0000
Subject: [PATCH 45/69] fix: uri: a part ends at its first delimiter, the rest
 is kept (a query holding "?" or "://" was cut); empty parts are not read out
 of range

---
 src/io/uri.cpp | 38 +++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/src/io/uri.cpp b/src/io/uri.cpp
index 64862a3..4b5731d 100644
--- a/src/io/uri.cpp
+++ b/src/io/uri.cpp
@@ -206,38 +206,34 @@ namespace neolib
 
     std::string uri::parse_path(const std::string& aRest)
     {
-        neolib::vecarray<std::pair<std::string::const_iterator, std::string::const_iterator>, 2> bits;
-        std::string sep{ "/" };
-        neolib::tokens(aRest.begin(), aRest.end(), sep.begin(), sep.end(), bits, 2, false, false);
-        if (bits.size() == 2)
-            iPath = unescaped(std::string{ bits[1].first, aRest.end() });
-        return std::string{ bits[0].first, bits[0].second };
+        auto const sep = aRest.find('/');
+        if (sep != std::string::npos)
+            iPath = unescaped(aRest.substr(sep + 1));
+        return aRest.substr(0, sep);
     }
 
     std::string uri::parse_query(const std::string& aRest)
     {
-        neolib::vecarray<std::string, 2> bits;
-        neolib::tokens(aRest, std::string{ "?" }, bits, 2, false, false);
-        if (bits.size() == 2)
-            iQuery = unescaped(bits[1]);
-        return bits.front();
+        auto const sep = aRest.find('?');
+        if (sep != std::string::npos)
+            iQuery = unescaped(aRest.substr(sep + 1));
+        return aRest.substr(0, sep);
     }
 
     std::string uri::parse_fragment(const std::string& aRest)
     {
-        neolib::vecarray<std::string, 2> bits;
-        neolib::tokens(aRest, std::string{ "#" }, bits, 2, false, false);
-        if (bits.size() == 2)
-            iFragment = unescaped(bits[1]);
-        return bits.front();
+        auto const sep = aRest.find('#');
+        if (sep != std::string::npos)
+            iFragment = unescaped(aRest.substr(sep + 1));
+        return aRest.substr(0, sep);
     }
 
     std::string uri::parse_scheme(const std::string& aRest)
     {
-        neolib::vecarray<std::string, 2> bits;
-        neolib::tokens(aRest, std::string{ "://" }, bits, 2, false, true);
-        if (bits.size() == 2)
-            iScheme = unescaped(bits[0]);
-        return bits.back();
+        auto const sep = aRest.find("://");
+        if (sep == std::string::npos)
+            return aRest;
+        iScheme = unescaped(aRest.substr(0, sep));
+        return aRest.substr(sep + 3);
     }
 }
-- 
2.43.0


From 4918e8cd8123b91c1d78a33fad8f4b47d4b86840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:41 +0000
Subject: [PATCH 46/69] fix: uri: a port number that does not fit is refused
 (was truncated)

---
 src/io/uri.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/io/uri.cpp b/src/io/uri.cpp
index 4b5731d..79af28d 100644
--- a/src/io/uri.cpp
+++ b/src/io/uri.cpp
@@ -98,7 +98,12 @@ namespace neolib
     void uri_authority::parse_port(const std::string& aRest)
     {
         if (!aRest.empty())
-            iPort = static_cast<port_type>(std::stoi(aRest));
+        {
+            auto const port = std::stoi(aRest);
+            if (port < 0 || port > std::numeric_limits<port_type>::max())
+                throw std::out_of_range("neolib::uri_authority: port");
+            iPort = static_cast<port_type>(port);
+        }
     }
 
     uri::uri()
-- 
2.43.0


From 7e1c16ac0e4223ad4c12a880bbdf4f3fa78e98b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:17 +0000
Subject: [PATCH 47/69] fix: string_packet: a CR at the start of what is taken
 ends the packet begun before (joined two lines)

---
 include/neolib/io/string_packet.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/neolib/io/string_packet.hpp b/include/neolib/io/string_packet.hpp
index 07c5a9e..c440260 100644
--- a/include/neolib/io/string_packet.hpp
+++ b/include/neolib/io/string_packet.hpp
@@ -135,7 +135,8 @@ namespace neolib
             if (aFirst == aLast)
                 return false;
 
-            if (skip_delimiters(aFirst, aLast))
+            const_pointer const start = aFirst;
+            if (skip_delimiters(aFirst, aLast) || (aFirst != start && !contents().empty()))
                 return true;
 
             if (aFirst == aLast)
-- 
2.43.0


From f7abd64b51f8ab5883faca6adf5b31ba94afc537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:07 +0000
Subject: [PATCH 48/69] fix: small_vector: default template arguments were
 given twice (ill-formed, refused by clang)

---
 include/neolib/core/small_vector.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/neolib/core/small_vector.hpp b/include/neolib/core/small_vector.hpp
index 50bbc48..64f9654 100644
--- a/include/neolib/core/small_vector.hpp
+++ b/include/neolib/core/small_vector.hpp
@@ -40,6 +40,5 @@
 
 namespace neolib
 {
-    template<typename T, std::size_t Capacity, std::size_t MaxCapacity = -1, typename Alloc = std::allocator<T>>
-    using small_vector = growable_static_vector<T, Capacity, MaxCapacity, Alloc>;
+    // small_vector is declared in static_vector.hpp, which gives its default arguments
 }
-- 
2.43.0


From 0a9c6910a440398bb49df597857739e268501c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:07 +0000
Subject: [PATCH 49/69] fix: swizzle: assigning one swizzle to another of its
 kind assigns its components only (overwrote the whole vector)

---
 include/neolib/core/swizzle.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/neolib/core/swizzle.hpp b/include/neolib/core/swizzle.hpp
index 23608c8..d60198d 100644
--- a/include/neolib/core/swizzle.hpp
+++ b/include/neolib/core/swizzle.hpp
@@ -84,6 +84,15 @@ namespace neolib
                 static constexpr uint32_t value = Index;
             };
         public:
+            swizzle(const swizzle&) = default;
+            swizzle& operator=(const swizzle& aRhs)
+            {
+                static_assert(greater_than<vector_type::Size, Indexes...>::result, "Swizzle too big");
+                value_type components[S];
+                aRhs.copy(&components[0]);
+                assign(&components[0], &v[Indexes]...);
+                return *this;
+            }
             swizzle& operator=(const value_type& aRhs)
             {
                 static_assert(greater_than<vector_type::Size, Indexes...>::result, "Swizzle too big");
-- 
2.43.0


From a5938673c5256bf0e887169eb7fb75c3a87cd6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:07 +0000
Subject: [PATCH 50/69] fix: simd_mul_4d: the four products are given in order
 (were reversed for double and zero for float)

---
 include/neolib/core/simd.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/neolib/core/simd.hpp b/include/neolib/core/simd.hpp
index b5f284d..0393df0 100644
--- a/include/neolib/core/simd.hpp
+++ b/include/neolib/core/simd.hpp
@@ -141,20 +141,20 @@ namespace neolib
             alignas(32) __m256d lhs = _mm256_set_pd(x1, y1, z1, w1);
             alignas(32) __m256d rhs = _mm256_set_pd(x2, y2, z2, w2);
             alignas(32) __m256d ans = _mm256_mul_pd(lhs, rhs);
-            a = to_scalar(ans, 0);
-            b = to_scalar(ans, 1);
-            c = to_scalar(ans, 2);
-            d = to_scalar(ans, 3);
+            a = to_scalar(ans, 3);
+            b = to_scalar(ans, 2);
+            c = to_scalar(ans, 1);
+            d = to_scalar(ans, 0);
         }
         else
         {
             alignas(32) __m256 lhs = _mm256_set_ps(x1, y1, z1, w1, 0.0f, 0.0f, 0.0f, 0.0f);
             alignas(32) __m256 rhs = _mm256_set_ps(x2, y2, z2, w2, 0.0f, 0.0f, 0.0f, 0.0f);
             alignas(32) __m256 ans = _mm256_mul_ps(lhs, rhs);
-            a = to_scalar(ans, 0);
-            b = to_scalar(ans, 1);
-            c = to_scalar(ans, 2);
-            d = to_scalar(ans, 3);
+            a = to_scalar(ans, 7);
+            b = to_scalar(ans, 6);
+            c = to_scalar(ans, 5);
+            d = to_scalar(ans, 4);
         }
     }
 #endif
-- 
2.43.0


From b70aa1758ed6f9e96eee92d496d4da7531c4a3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:07 +0000
Subject: [PATCH 51/69] fix: simd_rand: the lanes are 32 bits wide (the last
 two were read outside the register)

---
 include/neolib/core/simd.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/simd.hpp b/include/neolib/core/simd.hpp
index 0393df0..7d6c0d0 100644
--- a/include/neolib/core/simd.hpp
+++ b/include/neolib/core/simd.hpp
@@ -82,7 +82,9 @@ namespace neolib
 #ifdef _WIN32
         return emmRegister.m128i_u32[index];
 #else
-        return emmRegister[index];
+        std::uint32_t lanes[4];
+        _mm_storeu_si128(reinterpret_cast<__m128i*>(&lanes[0]), emmRegister);
+        return lanes[index];
 #endif
     }
 #endif
-- 
2.43.0


From 8d53f286f995ff72d62268116df1a532a168f916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:07 +0000
Subject: [PATCH 52/69] fix: aabb_contains: every coordinate has to be inside
 (only the first that differed was looked at)

---
 include/neolib/core/numerical.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/neolib/core/numerical.hpp b/include/neolib/core/numerical.hpp
index db0e3f8..a9498e2 100644
--- a/include/neolib/core/numerical.hpp
+++ b/include/neolib/core/numerical.hpp
@@ -2195,13 +2195,15 @@ namespace neolib
         template <typename Vertex>
         inline bool aabb_contains(const basic_aabb<Vertex>& outer, const basic_aabb<Vertex>& inner)
         {
-            return inner.min >= outer.min && inner.max <= outer.max;
+            return aabb_contains(outer, inner.min) && aabb_contains(outer, inner.max);
         }
 
         template <typename Vertex>
         inline bool aabb_contains(const basic_aabb<Vertex>& outer, const Vertex& point)
         {
-            return point >= outer.min && point <= outer.max;
+            return point.x >= outer.min.x && point.x <= outer.max.x &&
+                point.y >= outer.min.y && point.y <= outer.max.y &&
+                point.z >= outer.min.z && point.z <= outer.max.z;
         }
 
         template <typename Vertex>
@@ -2424,13 +2426,14 @@ namespace neolib
         template <typename Vertex>
         inline bool aabb_contains(const basic_aabb_2d<Vertex>& outer, const basic_aabb_2d<Vertex>& inner)
         {
-            return inner.min >= outer.min && inner.max <= outer.max;
+            return aabb_contains(outer, inner.min) && aabb_contains(outer, inner.max);
         }
 
         template <typename Vertex>
         inline bool aabb_contains(const basic_aabb_2d<Vertex>& outer, const Vertex& point)
         {
-            return point >= outer.min && point <= outer.max;
+            return point.x >= outer.min.x && point.x <= outer.max.x &&
+                point.y >= outer.min.y && point.y <= outer.max.y;
         }
 
         template <typename Vertex>
-- 
2.43.0


From 0ff3559199a5cc4f1d4e5e26064764a064e9330d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:07 +0000
Subject: [PATCH 53/69] fix: aabb_transform: the translation of the
 transformation is applied (corners are points, not directions)

---
 include/neolib/core/numerical.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/neolib/core/numerical.hpp b/include/neolib/core/numerical.hpp
index a9498e2..d031b3d 100644
--- a/include/neolib/core/numerical.hpp
+++ b/include/neolib/core/numerical.hpp
@@ -2074,14 +2074,14 @@ namespace neolib
             using coordinate_t = typename Vertex::value_type;
             std::array<Vertex, 8> boxVertices =
             {
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.min.x, aAabb.min.y, aAabb.min.z, coordinate_t{} }).xyz,
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.max.x, aAabb.min.y, aAabb.min.z, coordinate_t{} }).xyz,
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.min.x, aAabb.max.y, aAabb.min.z, coordinate_t{} }).xyz,
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.max.x, aAabb.max.y, aAabb.min.z, coordinate_t{} }).xyz,
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.min.x, aAabb.min.y, aAabb.max.z, coordinate_t{} }).xyz,
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.max.x, aAabb.min.y, aAabb.max.z, coordinate_t{} }).xyz,
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.min.x, aAabb.max.y, aAabb.max.z, coordinate_t{} }).xyz,
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.max.x, aAabb.max.y, aAabb.max.z, coordinate_t{} }).xyz
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.min.x, aAabb.min.y, aAabb.min.z, static_cast<coordinate_t>(1.0) }).xyz,
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.max.x, aAabb.min.y, aAabb.min.z, static_cast<coordinate_t>(1.0) }).xyz,
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.min.x, aAabb.max.y, aAabb.min.z, static_cast<coordinate_t>(1.0) }).xyz,
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.max.x, aAabb.max.y, aAabb.min.z, static_cast<coordinate_t>(1.0) }).xyz,
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.min.x, aAabb.min.y, aAabb.max.z, static_cast<coordinate_t>(1.0) }).xyz,
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.max.x, aAabb.min.y, aAabb.max.z, static_cast<coordinate_t>(1.0) }).xyz,
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.min.x, aAabb.max.y, aAabb.max.z, static_cast<coordinate_t>(1.0) }).xyz,
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.max.x, aAabb.max.y, aAabb.max.z, static_cast<coordinate_t>(1.0) }).xyz
             };
             basic_aabb<Vertex> result{ boxVertices[0], boxVertices[0] };
             for (auto const& v : boxVertices)
@@ -2281,10 +2281,10 @@ namespace neolib
             using coordinate_t = typename Vertex::value_type;
             std::array<Vertex, 4> boxVertices =
             {
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 3u>{ aAabb.min.x, aAabb.min.y, coordinate_t{} }).xy,
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 3u>{ aAabb.max.x, aAabb.min.y, coordinate_t{} }).xy,
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 3u>{ aAabb.min.x, aAabb.max.y, coordinate_t{} }).xy,
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 3u>{ aAabb.max.x, aAabb.max.y, coordinate_t{} }).xy
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 3u>{ aAabb.min.x, aAabb.min.y, static_cast<coordinate_t>(1.0) }).xy,
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 3u>{ aAabb.max.x, aAabb.min.y, static_cast<coordinate_t>(1.0) }).xy,
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 3u>{ aAabb.min.x, aAabb.max.y, static_cast<coordinate_t>(1.0) }).xy,
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 3u>{ aAabb.max.x, aAabb.max.y, static_cast<coordinate_t>(1.0) }).xy
             };
             basic_aabb_2d<Vertex> result{ boxVertices[0].xy, boxVertices[0].xy };
             for (auto const& v : boxVertices)
-- 
2.43.0


From 484b03cbd3ee36e034f9361cbeee31dc4efe8dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:07 +0000
Subject: [PATCH 54/69] fix: basic_matrix: an initializer list with too many
 columns is refused (was written past the end)

---
 include/neolib/core/numerical.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/numerical.hpp b/include/neolib/core/numerical.hpp
index d031b3d..87eb722 100644
--- a/include/neolib/core/numerical.hpp
+++ b/include/neolib/core/numerical.hpp
@@ -931,7 +931,7 @@ namespace neolib
             struct rebind { using type = basic_matrix<T2, Rows, Columns>; };
         public:
             basic_matrix() : m{ {} } {}
-            basic_matrix(std::initializer_list<std::initializer_list<value_type>> aColumns) { std::copy(aColumns.begin(), aColumns.end(), m.begin()); }
+            basic_matrix(std::initializer_list<std::initializer_list<value_type>> aColumns) { if (aColumns.size() > Columns) throw std::out_of_range("neolib::basic_matrix: initializer list too big"); std::copy(aColumns.begin(), aColumns.end(), m.begin()); }
             basic_matrix(const basic_matrix& other) : m{ other.m } {}
             basic_matrix(basic_matrix&& other) : m{ std::move(other.m) } {}
             template <typename T2>
-- 
2.43.0


From c99b9d00421f42a79aa7d75b074121e78bc017fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:07 +0000
Subject: [PATCH 55/69] fix: basic_matrix::round_to: negative numbers are
 rounded to the nearest too (were rounded up to a step too far)

---
 include/neolib/core/numerical.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/neolib/core/numerical.hpp b/include/neolib/core/numerical.hpp
index 87eb722..5de8997 100644
--- a/include/neolib/core/numerical.hpp
+++ b/include/neolib/core/numerical.hpp
@@ -993,8 +993,7 @@ namespace neolib
                 for (std::uint32_t column = 0; column < Columns; ++column)
                     for (std::uint32_t row = 0; row < Rows; ++row)
                     {
-                        std::modf((*this)[column][row] / aEpsilon + static_cast<value_type>(0.5), &result[column][row]);
-                        result[column][row] *= aEpsilon;
+                        result[column][row] = std::floor((*this)[column][row] / aEpsilon + static_cast<value_type>(0.5)) * aEpsilon;
                     }
                 return result;
             }
-- 
2.43.0


From 6768fad80ffb098e4503b0234a0063b8c7bd3dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:07 +0000
Subject: [PATCH 56/69] fix: basic_matrix: the product of matrices that are not
 square compiles

---
 include/neolib/core/numerical.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/neolib/core/numerical.hpp b/include/neolib/core/numerical.hpp
index 5de8997..8199f70 100644
--- a/include/neolib/core/numerical.hpp
+++ b/include/neolib/core/numerical.hpp
@@ -1277,10 +1277,13 @@ namespace neolib
         inline basic_matrix<T, D1, D1> operator*(const basic_matrix<T, D1, D2>& left, const basic_matrix<T, D2, D1>& right)
         {
 #if defined(IDENTITY_MATRIX_OPTIMISATIONS)
-            if (left.is_identity())
-                return right;
-            if (right.is_identity())
-                return left;
+            if constexpr (D1 == D2)
+            {
+                if (left.is_identity())
+                    return right;
+                if (right.is_identity())
+                    return left;
+            }
 #endif
             basic_matrix<T, D1, D1> result;
             for (std::uint32_t column = 0u; column < D1; ++column)
-- 
2.43.0


From a00d517b3bf0450366dda1dfe16fd3bd6594f765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:15 +0000
Subject: [PATCH 57/69] fix: xml: a tag that is not closed by the end of the
 document is an error (read past the end of the text)

---
 include/neolib/file/xml.inl | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/neolib/file/xml.inl b/include/neolib/file/xml.inl
index a7e1d36..31e8330 100644
--- a/include/neolib/file/xml.inl
+++ b/include/neolib/file/xml.inl
@@ -574,6 +574,11 @@ namespace neolib
         {
         case node::Element:
             {
+                if (aStartTag.second == aDocumentEnd)
+                {
+                    iError = true;
+                    return aDocumentEnd;
+                }
                 if (aNode.type() == node::Document && got_root())
                 {
                     iError = true;
@@ -683,7 +688,7 @@ namespace neolib
                     case node::Element:
                         if (*nextTag.first == characters<CharT>::sForwardSlashChar)
                         {
-                            if (theElement.name() != string(nextTag.first+1, nextTag.second))
+                            if (nextTag.second == aDocumentEnd || theElement.name() != string(nextTag.first+1, nextTag.second))
                             {
                                 iError = true;
                                 return aDocumentEnd;
-- 
2.43.0


From a78ca3e5b78b0454184de2a227eaa9a8839b2881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:15 +0000
Subject: [PATCH 58/69] fix: xml: a > in the text of an element does not lose
 the text that follows it

---
 include/neolib/file/xml.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/file/xml.inl b/include/neolib/file/xml.inl
index 31e8330..ec7a2f8 100644
--- a/include/neolib/file/xml.inl
+++ b/include/neolib/file/xml.inl
@@ -185,7 +185,7 @@ namespace neolib
         const parsing_bits<char>::character_map parsing_bits<char>::sAttributeValueDelimeter = std::string("\"\'");
         const parsing_bits<char>::character_map parsing_bits<char>::sAttributeValueInvalidOne = std::string("<>\"");
         const parsing_bits<char>::character_map parsing_bits<char>::sAttributeValueInvalidTwo = std::string("<>\'");
-        const parsing_bits<char>::character_map parsing_bits<char>::sTagDelimeter = std::string("<>");
+        const parsing_bits<char>::character_map parsing_bits<char>::sTagDelimeter = std::string("<");
         const parsing_bits<char>::character_map parsing_bits<char>::sWhitespace = std::string(" \t\r\n");
         const parsing_bits<char>::string parsing_bits<char>::sCommentStart = "!--";
         const parsing_bits<char>::string parsing_bits<char>::sCommentEnd = "-->";
@@ -225,7 +225,7 @@ namespace neolib
         const parsing_bits<wchar_t>::character_map parsing_bits<wchar_t>::sAttributeValueDelimeter = std::wstring(L"\"\'");
         const parsing_bits<wchar_t>::character_map parsing_bits<wchar_t>::sAttributeValueInvalidOne = std::wstring(L"<>\"");
         const parsing_bits<wchar_t>::character_map parsing_bits<wchar_t>::sAttributeValueInvalidTwo = std::wstring(L"<>\'");
-        const parsing_bits<wchar_t>::character_map parsing_bits<wchar_t>::sTagDelimeter = std::wstring(L"<>");
+        const parsing_bits<wchar_t>::character_map parsing_bits<wchar_t>::sTagDelimeter = std::wstring(L"<");
         const parsing_bits<wchar_t>::character_map parsing_bits<wchar_t>::sWhitespace = std::wstring(L" \t\r\n");
         const parsing_bits<wchar_t>::string parsing_bits<wchar_t>::sCommentStart = L"!--";
         const parsing_bits<wchar_t>::string parsing_bits<wchar_t>::sCommentEnd = L"-->";
-- 
2.43.0


From 4d132032ba0bce3b43805c2f594bbd7d54c75425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:15 +0000
Subject: [PATCH 59/69] fix: xml: empty comments and CDATA sections (their end
 was taken as text)

---
 include/neolib/file/xml.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/neolib/file/xml.inl b/include/neolib/file/xml.inl
index ec7a2f8..e593baf 100644
--- a/include/neolib/file/xml.inl
+++ b/include/neolib/file/xml.inl
@@ -567,7 +567,7 @@ namespace neolib
     template <typename CharT, typename Alloc>
     typename basic_xml<CharT, Alloc>::string::view_const_iterator basic_xml<CharT, Alloc>::parse(node& aNode, const tag& aStartTag, typename basic_xml<CharT, Alloc>::string::view_const_iterator aDocumentEnd)
     {
-        if (aStartTag.first == aDocumentEnd || aStartTag.first >= aStartTag.second)
+        if (aStartTag.first == aDocumentEnd || aStartTag.first > aStartTag.second || (aStartTag.first == aStartTag.second && aStartTag.type() == node::Element))
             return aDocumentEnd;
 
         switch(aStartTag.type())
@@ -678,7 +678,7 @@ namespace neolib
                     tag nextTag = next_tag(next, aDocumentEnd); 
                     if (nextTag.first > nextTag.second)
                         return next;
-                    if (nextTag.first == nextTag.second)
+                    if (nextTag.first == nextTag.second && (nextTag.type() == node::Element || nextTag.first == aDocumentEnd))
                     {
                         next= nextTag.first;
                         continue;
@@ -791,7 +791,7 @@ namespace neolib
         tag nextTag = next_tag(document.cbegin(), document.cend());        
         while (nextTag.first != document.cend())
         {
-            while(nextTag.first != document.cend() && nextTag.first == nextTag.second)
+            while(nextTag.first != document.cend() && nextTag.first == nextTag.second && nextTag.type() == node::Element)
                 nextTag = next_tag(nextTag.first, document.cend());
             nextTag = next_tag(parse(iDocument, nextTag, document.cend()), document.cend());
         };
-- 
2.43.0


From 1e9c03781d9baf25b268b826a0eec7f4e168f3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:15 +0000
Subject: [PATCH 60/69] fix: xml: white space before the > of an end tag is
 allowed

---
 include/neolib/file/xml.inl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/neolib/file/xml.inl b/include/neolib/file/xml.inl
index e593baf..a3f3881 100644
--- a/include/neolib/file/xml.inl
+++ b/include/neolib/file/xml.inl
@@ -688,7 +688,10 @@ namespace neolib
                     case node::Element:
                         if (*nextTag.first == characters<CharT>::sForwardSlashChar)
                         {
-                            if (nextTag.second == aDocumentEnd || theElement.name() != string(nextTag.first+1, nextTag.second))
+                            typename string::view_const_iterator endName = nextTag.second;
+                            while (endName != nextTag.first+1 && sWhitespace.find(*(endName-1)))
+                                --endName;
+                            if (nextTag.second == aDocumentEnd || theElement.name() != string(nextTag.first+1, endName))
                             {
                                 iError = true;
                                 return aDocumentEnd;
-- 
2.43.0


From 72d01261bc3cfed578f1d1d79b99d198ae68a075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:47 +0000
Subject: [PATCH 61/69] fix: xml: the markup constants do not depend on the
 order in which static objects are initialised (clang read every comment and
 end of tag wrongly)

---
 include/neolib/file/xml.hpp | 34 +++++++++++++++++-----------------
 include/neolib/file/xml.inl | 34 +++++++++++++++++-----------------
 2 files changed, 34 insertions(+), 34 deletions(-)

diff --git a/include/neolib/file/xml.hpp b/include/neolib/file/xml.hpp
index 69a371e..537d127 100644
--- a/include/neolib/file/xml.hpp
+++ b/include/neolib/file/xml.hpp
@@ -527,23 +527,23 @@ namespace neolib
         std::size_t iIndentCount;
         bool iStripWhitespace;
 
-        static const basic_character_map<CharT> sNameDelimeter;
-        static const basic_character_map<CharT> sNameBadDelimeter;
-        static const basic_character_map<CharT> sAttributeValueDelimeter;
-        static const basic_character_map<CharT> sAttributeValueInvalidOne;
-        static const basic_character_map<CharT> sAttributeValueInvalidTwo;
-        static const basic_character_map<CharT> sTagDelimeter;
-        static const basic_character_map<CharT> sWhitespace;
-        static const string sCommentStart;
-        static const string sCommentEnd;
-        static const string sCdataStart;
-        static const string sCdataEnd;
-        static const string sDtdStart;
-        static const string sDtdEnd;
-        static const string sDeclarationStart;
-        static const string sDeclarationEnd;
-        static const string sEmptyTagWithAttributes;
-        static const string sEmptyTag;
+        static const basic_character_map<CharT>& sNameDelimeter;
+        static const basic_character_map<CharT>& sNameBadDelimeter;
+        static const basic_character_map<CharT>& sAttributeValueDelimeter;
+        static const basic_character_map<CharT>& sAttributeValueInvalidOne;
+        static const basic_character_map<CharT>& sAttributeValueInvalidTwo;
+        static const basic_character_map<CharT>& sTagDelimeter;
+        static const basic_character_map<CharT>& sWhitespace;
+        static const std::basic_string<CharT>& sCommentStart;
+        static const std::basic_string<CharT>& sCommentEnd;
+        static const std::basic_string<CharT>& sCdataStart;
+        static const std::basic_string<CharT>& sCdataEnd;
+        static const std::basic_string<CharT>& sDtdStart;
+        static const std::basic_string<CharT>& sDtdEnd;
+        static const std::basic_string<CharT>& sDeclarationStart;
+        static const std::basic_string<CharT>& sDeclarationEnd;
+        static const std::basic_string<CharT>& sEmptyTagWithAttributes;
+        static const std::basic_string<CharT>& sEmptyTag;
     };
 
     #ifndef NEOLIB_XML_USE_POOL_ALLOCATOR
diff --git a/include/neolib/file/xml.inl b/include/neolib/file/xml.inl
index a3f3881..aad9600 100644
--- a/include/neolib/file/xml.inl
+++ b/include/neolib/file/xml.inl
@@ -240,39 +240,39 @@ namespace neolib
     }
 
     template <typename CharT, typename Alloc>
-    const basic_character_map<CharT> basic_xml<CharT, Alloc>::sNameDelimeter = parsing_bits<CharT>::sNameDelimeter;
+    const basic_character_map<CharT>& basic_xml<CharT, Alloc>::sNameDelimeter = parsing_bits<CharT>::sNameDelimeter;
     template <typename CharT, typename Alloc>
-    const basic_character_map<CharT> basic_xml<CharT, Alloc>::sNameBadDelimeter = parsing_bits<CharT>::sNameBadDelimeter;
+    const basic_character_map<CharT>& basic_xml<CharT, Alloc>::sNameBadDelimeter = parsing_bits<CharT>::sNameBadDelimeter;
     template <typename CharT, typename Alloc>
-    const basic_character_map<CharT> basic_xml<CharT, Alloc>::sAttributeValueDelimeter = parsing_bits<CharT>::sAttributeValueDelimeter;
+    const basic_character_map<CharT>& basic_xml<CharT, Alloc>::sAttributeValueDelimeter = parsing_bits<CharT>::sAttributeValueDelimeter;
     template <typename CharT, typename Alloc>
-    const basic_character_map<CharT> basic_xml<CharT, Alloc>::sAttributeValueInvalidOne = parsing_bits<CharT>::sAttributeValueInvalidOne;
+    const basic_character_map<CharT>& basic_xml<CharT, Alloc>::sAttributeValueInvalidOne = parsing_bits<CharT>::sAttributeValueInvalidOne;
     template <typename CharT, typename Alloc>
-    const basic_character_map<CharT> basic_xml<CharT, Alloc>::sAttributeValueInvalidTwo = parsing_bits<CharT>::sAttributeValueInvalidTwo;
+    const basic_character_map<CharT>& basic_xml<CharT, Alloc>::sAttributeValueInvalidTwo = parsing_bits<CharT>::sAttributeValueInvalidTwo;
     template <typename CharT, typename Alloc>
-    const basic_character_map<CharT> basic_xml<CharT, Alloc>::sTagDelimeter = parsing_bits<CharT>::sTagDelimeter;
+    const basic_character_map<CharT>& basic_xml<CharT, Alloc>::sTagDelimeter = parsing_bits<CharT>::sTagDelimeter;
     template <typename CharT, typename Alloc>
-    const basic_character_map<CharT> basic_xml<CharT, Alloc>::sWhitespace = parsing_bits<CharT>::sWhitespace;
+    const basic_character_map<CharT>& basic_xml<CharT, Alloc>::sWhitespace = parsing_bits<CharT>::sWhitespace;
     template <typename CharT, typename Alloc>
-    const typename basic_xml<CharT, Alloc>::string basic_xml<CharT, Alloc>::sCommentStart = parsing_bits<CharT>::sCommentStart;
+    const std::basic_string<CharT>& basic_xml<CharT, Alloc>::sCommentStart = parsing_bits<CharT>::sCommentStart;
     template <typename CharT, typename Alloc>
-    const typename basic_xml<CharT, Alloc>::string basic_xml<CharT, Alloc>::sCommentEnd = parsing_bits<CharT>::sCommentEnd;
+    const std::basic_string<CharT>& basic_xml<CharT, Alloc>::sCommentEnd = parsing_bits<CharT>::sCommentEnd;
     template <typename CharT, typename Alloc>
-    const typename basic_xml<CharT, Alloc>::string basic_xml<CharT, Alloc>::sCdataStart = parsing_bits<CharT>::sCdataStart;
+    const std::basic_string<CharT>& basic_xml<CharT, Alloc>::sCdataStart = parsing_bits<CharT>::sCdataStart;
     template <typename CharT, typename Alloc>
-    const typename basic_xml<CharT, Alloc>::string basic_xml<CharT, Alloc>::sCdataEnd = parsing_bits<CharT>::sCdataEnd;
+    const std::basic_string<CharT>& basic_xml<CharT, Alloc>::sCdataEnd = parsing_bits<CharT>::sCdataEnd;
     template <typename CharT, typename Alloc>
-    const typename basic_xml<CharT, Alloc>::string basic_xml<CharT, Alloc>::sDtdStart = parsing_bits<CharT>::sDtdStart;
+    const std::basic_string<CharT>& basic_xml<CharT, Alloc>::sDtdStart = parsing_bits<CharT>::sDtdStart;
     template <typename CharT, typename Alloc>
-    const typename basic_xml<CharT, Alloc>::string basic_xml<CharT, Alloc>::sDtdEnd = parsing_bits<CharT>::sDtdEnd;
+    const std::basic_string<CharT>& basic_xml<CharT, Alloc>::sDtdEnd = parsing_bits<CharT>::sDtdEnd;
     template <typename CharT, typename Alloc>
-    const typename basic_xml<CharT, Alloc>::string basic_xml<CharT, Alloc>::sDeclarationStart = parsing_bits<CharT>::sDeclarationStart;
+    const std::basic_string<CharT>& basic_xml<CharT, Alloc>::sDeclarationStart = parsing_bits<CharT>::sDeclarationStart;
     template <typename CharT, typename Alloc>
-    const typename basic_xml<CharT, Alloc>::string basic_xml<CharT, Alloc>::sDeclarationEnd = parsing_bits<CharT>::sDeclarationEnd;
+    const std::basic_string<CharT>& basic_xml<CharT, Alloc>::sDeclarationEnd = parsing_bits<CharT>::sDeclarationEnd;
     template <typename CharT, typename Alloc>
-    const typename basic_xml<CharT, Alloc>::string basic_xml<CharT, Alloc>::sEmptyTagWithAttributes = parsing_bits<CharT>::sEmptyTagWithAttributes;
+    const std::basic_string<CharT>& basic_xml<CharT, Alloc>::sEmptyTagWithAttributes = parsing_bits<CharT>::sEmptyTagWithAttributes;
     template <typename CharT, typename Alloc>
-    const typename basic_xml<CharT, Alloc>::string basic_xml<CharT, Alloc>::sEmptyTag = parsing_bits<CharT>::sEmptyTag;
+    const std::basic_string<CharT>& basic_xml<CharT, Alloc>::sEmptyTag = parsing_bits<CharT>::sEmptyTag;
 
     template <typename CharT, typename Alloc>
     typename xml_node<CharT, Alloc>::const_iterator xml_node<CharT, Alloc>::begin(type_e aFilter) const
-- 
2.43.0


From 1fa136783eee88b78cd0c69112d050f2ec543067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:56 +0000
Subject: [PATCH 62/69] fix: xml: text or an attribute that ends with a newline
 does not swallow the character written after it

---
 include/neolib/file/xml.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/file/xml.inl b/include/neolib/file/xml.inl
index aad9600..0dec2d7 100644
--- a/include/neolib/file/xml.inl
+++ b/include/neolib/file/xml.inl
@@ -424,7 +424,7 @@ namespace neolib
         template <typename T>
     typename basic_xml<CharT, Alloc>::node_writer& basic_xml<CharT, Alloc>::node_writer::operator<<(const T& aData)
     {
-        if (!iLastWasNewLine)
+        if (!iLastWasNewLine || !std::is_function_v<T>) // only a further newline is left out
             iStream << aData;
         iLastWasNewLine = false;
         return *this;
-- 
2.43.0


From 7d384021babffdd2021a935c778271d683e2f5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:29 +0000
Subject: [PATCH 63/69] fix: segmented_tree: postfix ++ and -- move the
 iterator and return where it was

---
 include/neolib/core/segmented_tree.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/neolib/core/segmented_tree.hpp b/include/neolib/core/segmented_tree.hpp
index 66b06fd..ab0d4d0 100644
--- a/include/neolib/core/segmented_tree.hpp
+++ b/include/neolib/core/segmented_tree.hpp
@@ -312,10 +312,10 @@ namespace neolib
                 }
                 return *this;
             }
-            basic_iterator operator++(int) const
+            basic_iterator operator++(int)
             {
                 basic_iterator temp = *this;
-                ++temp;
+                ++*this;
                 return temp;
             }
             basic_iterator& operator--()
@@ -335,10 +335,10 @@ namespace neolib
                 }
                 return *this;
             }
-            basic_iterator operator--(int) const
+            basic_iterator operator--(int)
             {
                 basic_iterator temp = *this;
-                --temp;
+                --*this;
                 return temp;
             }
         public:
@@ -478,10 +478,10 @@ namespace neolib
                 }
                 return *this;
             }
-            basic_const_iterator operator++(int) const
+            basic_const_iterator operator++(int)
             {
                 basic_const_iterator temp = *this;
-                ++temp;
+                ++*this;
                 return temp;
             }
             basic_const_iterator& operator--()
@@ -501,10 +501,10 @@ namespace neolib
                 }
                 return *this;
             }
-            basic_const_iterator operator--(int) const
+            basic_const_iterator operator--(int)
             {
                 basic_const_iterator temp = *this;
-                --temp;
+                --*this;
                 return temp;
             }
         public:
-- 
2.43.0


From e51fdc6c91e2931d8d6c10efcbf7eade66988179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:29 +0000
Subject: [PATCH 64/69] fix: json: array elements and object members looked up
 follow later edits of the document

---
 include/neolib/file/json.hpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/neolib/file/json.hpp b/include/neolib/file/json.hpp
index 895e832..1d2026a 100644
--- a/include/neolib/file/json.hpp
+++ b/include/neolib/file/json.hpp
@@ -400,9 +400,11 @@ namespace neolib
             auto existing = cache().find(aKey);
             if (existing != cache().end())
                 return *existing->second;
+            auto lazyDictionary = std::move(iLazyDictionary); // still good once the new child has been added to it
             auto& newChild = contents().emplace_back(value_type{});
             newChild.set_name(aKey.to_std_string());
-            cache().emplace(newChild.name(), &newChild);
+            lazyDictionary->emplace(newChild.name(), &newChild);
+            iLazyDictionary = std::move(lazyDictionary);
             return newChild;
         }
     public:
@@ -490,19 +492,15 @@ namespace neolib
     public:
         json_value& push_back(const value_type& aValue)
         {
-            auto& newChild = contents().emplace_back(aValue);
-            cache().emplace_back(&newChild);
-            return back();
+            return contents().emplace_back(aValue);
         }
         json_value& push_back(value_type&& aValue)
         {
-            auto& newChild = contents().emplace_back(std::move(aValue));
-            cache().emplace_back(&newChild);
-            return back();
+            return contents().emplace_back(std::move(aValue));
         }
         json_value& back()
         {
-            return *cache().back();
+            return *contents().last_child();
         }
         json_value& operator[](std::size_t aIndex)
         {
@@ -728,10 +726,14 @@ namespace neolib
         void set_name(const json_string& aName)
         {
             iName = aName;
+            if (has_parent())
+                parent().invalidate_lookup();
         }
         void set_name(const json_keyword& aName)
         {
             iName = aName;
+            if (has_parent())
+                parent().invalidate_lookup();
         }
     public:
         bool is_root() const
@@ -865,6 +867,7 @@ namespace neolib
         }
         void clear(bool aUnlink = false)
         {
+            invalidate_lookup();
             auto previous = iNode.previous_sibling();
             auto next = iNode.next_sibling();
             if (has_parent())
@@ -912,10 +915,19 @@ namespace neolib
         template <typename... Args>
         pointer buy_child(Args&&... aArguments)
         {
+            invalidate_lookup();
             return iNode.buy_child(*this, std::forward<Args>(aArguments)...);
         }
+        void invalidate_lookup()
+        {
+            if (type() == json_type::Object)
+                std::get<json_object>(iValue).iLazyDictionary.reset();
+            else if (type() == json_type::Array)
+                std::get<json_array>(iValue).iLazyArray.reset();
+        }
         void update_contents()
         {
+            invalidate_lookup();
             if (type() == json_type::Object)
                 std::get<json_object>(iValue).set_contents(*this);
             else if (type() == json_type::Array)
-- 
2.43.0


From ba22a5d383ffb7b216737f0958438f3506b19d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:29 +0000
Subject: [PATCH 65/69] fix: optional: reading '?' into an optional that has a
 value empties it

---
 include/neolib/core/optional.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/optional.hpp b/include/neolib/core/optional.hpp
index 533428a..14f5dd6 100644
--- a/include/neolib/core/optional.hpp
+++ b/include/neolib/core/optional.hpp
@@ -358,8 +358,11 @@ namespace neolib
     inline std::basic_istream<Elem, Traits>& operator>>(std::basic_istream<Elem, Traits>& aStream, optional<T>& aOptional)
     {
         char temp;
-        aStream >> temp;
-        if (temp != '?')
+        if (!(aStream >> temp))
+            return aStream;
+        if (temp == '?')
+            aOptional.reset();
+        else
         {
             aStream.unget();
             aOptional.emplace();
-- 
2.43.0


From 0f2e836adce9b07d6292d51a8860c82dd25770c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:07 +0000
Subject: [PATCH 66/69] fix: mutex: switchable_mutex names its variant's member
 template, so that it compiles with clang

---
 include/neolib/core/mutex.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/neolib/core/mutex.hpp b/include/neolib/core/mutex.hpp
index 737b783..c48e400 100644
--- a/include/neolib/core/mutex.hpp
+++ b/include/neolib/core/mutex.hpp
@@ -472,19 +472,19 @@ namespace neolib
     public:
         void set_single_threaded()
         {
-            iActiveMutex.emplace<neolib::null_mutex>();
+            iActiveMutex.template emplace<neolib::null_mutex>();
         }
         void set_multi_threaded()
         {
-            iActiveMutex.emplace<std::recursive_mutex>();
+            iActiveMutex.template emplace<std::recursive_mutex>();
         }
         void set_multi_threaded_profiled()
         {
-            iActiveMutex.emplace<neolib::recursive_mutex<ProfilerTag>>();
+            iActiveMutex.template emplace<neolib::recursive_mutex<ProfilerTag>>();
         }
         void set_multi_threaded_spinlock()
         {
-            iActiveMutex.emplace<neolib::recursive_mutex<ProfilerTag, true>>();
+            iActiveMutex.template emplace<neolib::recursive_mutex<ProfilerTag, true>>();
         }
     public:
         void lock() noexcept final
-- 
2.43.0


From 3f981fa38a372608f52696219b535e07fb15a6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:07 +0000
Subject: [PATCH 67/69] fix: event: a handler may destroy its event, and one
 unsubscribed during delivery is not called

---
 include/neolib/task/event.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/neolib/task/event.hpp b/include/neolib/task/event.hpp
index f003f02..9bcc016 100644
--- a/include/neolib/task/event.hpp
+++ b/include/neolib/task/event.hpp
@@ -177,26 +177,30 @@ namespace neolib
             auto& workList = *workLists[stack - 1];
             scoped_pointer<work_list> activeWorkList{ iActiveWorkList, &workList };
             workList.slots = iSlots;
+            workList.accepted = false;
+            scoped_cleanup const cleanup{ [&workList]() { workList.slots.clear(); } };
             lock.unlock();
 
             for (auto slot : workList.slots)
             {
+                lock.lock();
+                bool const stillSubscribed = std::find(iSlots.begin(), iSlots.end(), slot) != iSlots.end();
+                lock.unlock();
+                if (!stillSubscribed)
+                    continue;
                 if (slot->call_in_emitter_thread() || slot->call_thread() == std::this_thread::get_id())
                     slot->call(aArgs...);
                 else
                     async_trigger(async_event_queue::instance(slot->call_thread()), *slot, trigger_type() == neolib::trigger_type::SynchronousDontQueue, aArgs...);
                 if (destroyed)
+                {
+                    activeWorkList.ignore();
                     return trigger_result::Unaccepted;
+                }
                 if (workList.accepted)
-                {
-                    workList.accepted = false;
                     return trigger_result::Accepted;
-                }
             }
 
-            workList.slots.clear();
-            workList.accepted = false;
-
             return trigger_result::Unaccepted;
         }
         void async_trigger(Args... aArgs) const final
-- 
2.43.0


From a3ab5e6fab637fe4a936091292dc87f24ce4bdf8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 09:03:58 +0000
Subject: [PATCH 68/69] fix: settings: a saved setting reads back: byte-sized
 settings as numbers, a group's name is not a setting's value

---
 include/neolib/core/string_utils.hpp | 16 +++++++++++++---
 src/app/settings.cpp                 |  2 +-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/neolib/core/string_utils.hpp b/include/neolib/core/string_utils.hpp
index 96b6036..41aba49 100644
--- a/include/neolib/core/string_utils.hpp
+++ b/include/neolib/core/string_utils.hpp
@@ -96,7 +96,10 @@ namespace neolib
     inline std::string to_std_string(T const& aValue)
     {
         std::ostringstream oss;
-        oss << aValue;
+        if constexpr (std::is_same_v<T, int8_t> || std::is_same_v<T, uint8_t>)
+            oss << static_cast<int>(aValue); // a number, not a character
+        else
+            oss << aValue;
         return oss.str();
     }
 
@@ -107,9 +110,16 @@ namespace neolib
             return aValueAsString;
         else
         {
-            T result;
+            T result{};
             std::istringstream iss{ aValueAsString };
-            iss >> result;
+            if constexpr (std::is_same_v<T, int8_t> || std::is_same_v<T, uint8_t>)
+            {
+                int number{}; // a number, not a character
+                iss >> number;
+                result = static_cast<T>(number);
+            }
+            else
+                iss >> result;
             return result;
         }
     }
diff --git a/src/app/settings.cpp b/src/app/settings.cpp
index 32e72cb..3f04afe 100644
--- a/src/app/settings.cpp
+++ b/src/app/settings.cpp
@@ -86,7 +86,7 @@ namespace neolib
                 if (!node)
                     break;
             }
-            if (node)
+            if (node && (**node).has_attribute("value"))
             {
                 aSetting.set_value_from_string(string{ (**node).attribute_value("value") });
                 aSetting.apply_change();
-- 
2.43.0


From 5c5620937d9f3a8d57b7c37cc974df7122cc9fc1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 09:03:58 +0000
Subject: [PATCH 69/69] fix: service: setting the current provider again keeps
 it and its services

---
 src/core/service.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/service.cpp b/src/core/service.cpp
index 5ca35a4..76dc948 100644
--- a/src/core/service.cpp
+++ b/src/core/service.cpp
@@ -145,6 +145,8 @@ namespace neolib::services
     {
         auto& instance = get_service_provider_instance();
         std::unique_lock lock{ instance.mutex };
+        if (instance.instance.get() == &aServiceProvider)
+            return;
         auto previous = instance.instance;
         instance.instance = std::shared_ptr<i_service_provider>{ std::shared_ptr<i_service_provider>{}, &aServiceProvider };
         if (previous != nullptr)
-- 
2.43.0

