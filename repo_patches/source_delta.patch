From 023fda0fd9b41f0541cc401b2cdb6293ba7cd2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 01/47] fix: decode malformed UTF-8 sequences as the
 replacement character

A byte string whose trailing octets are not continuation octets, or whose
first octet cannot start a character, was decoded to an arbitrary code point
instead of U+FFFD, and a stray continuation octet swallowed the octet after it.
---
 packages/drafter/src/utils/Utf8.h | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/packages/drafter/src/utils/Utf8.h b/packages/drafter/src/utils/Utf8.h
index e5956fe..813da02 100644
--- a/packages/drafter/src/utils/Utf8.h
+++ b/packages/drafter/src/utils/Utf8.h
@@ -27,6 +27,14 @@ namespace drafter
             constexpr codepoint replacement = 0xFFFD;
             constexpr codepoint invalid = 0xFFFFFFFF;
 
+            ///
+            /// Test whether an octet may follow the leading octet of a multi byte sequence
+            ///
+            inline bool is_continuation(char octet) noexcept
+            {
+                return (static_cast<unsigned char>(octet) & 0xC0) == 0x80;
+            }
+
             ///
             /// Decode utf8 codepoint from octet sequence
             ///
@@ -51,22 +59,28 @@ namespace drafter
                     std::advance(first, 1);
 
                     return { cp, first };
+                } else if (cp < 0xC0) { // continuation byte without a leading one
+                    std::advance(first, 1);
+
+                    return { replacement, first };
                 } else if (cp < 0xE0) { // two bytes
                     if (last - first < 2) {
                         return { replacement, last }; // expected more!
                     }
 
+                    const bool valid = is_continuation(first[1]);
                     codepoint result = ((cp & 0x1F) << 6) //
                         | (static_cast<unsigned char>(first[1]) & 0x3F);
                     std::advance(first, 2);
 
-                    return { result < 0x80 ? replacement : result, first }; // check for oversized
+                    return { (!valid || result < 0x80) ? replacement : result, first }; // check for oversized
 
                 } else if (cp < 0xF0) { // three bytes
                     if (last - first < 3) {
                         return { replacement, last }; // expected more!
                     }
 
+                    const bool valid = is_continuation(first[1]) && is_continuation(first[2]);
                     codepoint result = ((cp & 0x0F) << 12)                     //
                         | ((static_cast<unsigned char>(first[1]) & 0x3F) << 6) //
                         | (static_cast<unsigned char>(first[2]) & 0x3F);
@@ -75,12 +89,14 @@ namespace drafter
                     if (result >= 0xD800 && result <= 0xDFFF) // surrogates not codepoints
                         return { replacement, first };
 
-                    return { result < 0x800 ? replacement : result, first }; // check for oversized
+                    return { (!valid || result < 0x800) ? replacement : result, first }; // check for oversized
 
                 } else { // four bytes
                     if (last - first < 4)
                         return { replacement, last }; // expected more!
 
+                    const bool valid = (cp < 0xF8) && is_continuation(first[1]) && is_continuation(first[2])
+                        && is_continuation(first[3]);
                     codepoint result = ((cp & 0x07) << 18)                      //
                         | ((static_cast<unsigned char>(first[1]) & 0x3F) << 12) //
                         | ((static_cast<unsigned char>(first[2]) & 0x3F) << 6)  //
@@ -88,7 +104,7 @@ namespace drafter
                     std::advance(first, 4);
 
                     // check for oversized
-                    if (result < 0x10000)
+                    if (!valid || result < 0x10000)
                         return { replacement, first };
 
                     // check for overlong sequences
-- 
2.43.0


From 8736fa34a634fd869de9acc30c2c6ea45da6333c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 02/47] fix: keep byte to character range conversion within the
 document

A document ending in an incomplete character made the character index write
past its end, a range starting at or past the end of the document was read out
of bounds, and the conversion from the text went on past the end of the
document (and stopped at an embedded NUL) where the one from the index did not.
---
 .../src/markdown-parser/ByteBuffer.cc         | 33 +++++++++++--------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/packages/apib-parser/src/markdown-parser/ByteBuffer.cc b/packages/apib-parser/src/markdown-parser/ByteBuffer.cc
index a2b275d..006b67a 100644
--- a/packages/apib-parser/src/markdown-parser/ByteBuffer.cc
+++ b/packages/apib-parser/src/markdown-parser/ByteBuffer.cc
@@ -20,7 +20,7 @@ static size_t strnlen_utf8(const char* s, size_t len)
         return 0;
 
     size_t i = 0, j = 0;
-    while (s[i] && i < len) {
+    while (i < len) {
         i += UTF8_CHAR_LEN(s[i]);
         j++;
     }
@@ -35,18 +35,21 @@ static CharactersRange BytesRangeToCharactersRange(const BytesRange& bytesRange,
     }
 
     BytesRange workRange = bytesRange;
-    if (bytesRange.location + bytesRange.length > byteBuffer.length()) {
+    if (bytesRange.location >= byteBuffer.length()) {
+        // Nothing to cover past the end
+        workRange = BytesRange(byteBuffer.length(), 0);
+    } else if (bytesRange.location + bytesRange.length > byteBuffer.length()) {
         // Accomodate maximum possible length
         workRange.length -= bytesRange.location + bytesRange.length - byteBuffer.length();
     }
 
     size_t charLocation = 0;
-    if (bytesRange.location > 0)
-        charLocation = strnlen_utf8(byteBuffer.c_str(), bytesRange.location);
+    if (workRange.location > 0)
+        charLocation = strnlen_utf8(byteBuffer.c_str(), workRange.location);
 
     size_t charLength = 0;
-    if (bytesRange.length > 0)
-        charLength = strnlen_utf8(byteBuffer.c_str() + bytesRange.location, bytesRange.length);
+    if (workRange.length > 0)
+        charLength = strnlen_utf8(byteBuffer.c_str() + workRange.location, workRange.length);
 
     CharactersRange characterRange = CharactersRange(charLocation, charLength);
     return characterRange;
@@ -58,6 +61,11 @@ static CharactersRange BytesRangeToCharactersRange(const BytesRange& bytesRange,
         return CharactersRange();
     }
 
+    if (bytesRange.location >= index.size()) {
+        // Nothing to cover past the end
+        return CharactersRange(index[index.size() - 1] + 1, 0);
+    }
+
     BytesRange workRange = bytesRange;
     if (bytesRange.location + bytesRange.length > index.size()) {
         // Accomodate maximum possible length
@@ -95,13 +103,12 @@ void mdp::BuildCharacterIndex(ByteBufferCharacterIndex& index, const ByteBuffer&
 
     index.resize(byteBuffer.length());
 
-    while (source[pos] && pos < len) {
-        int charLen = UTF8_CHAR_LEN(source[pos]);
-        pos += charLen;
+    while (pos < len) {
+        size_t end = pos + UTF8_CHAR_LEN(source[pos]);
 
-        while (charLen) {
-            index[pos - charLen] = charPos;
-            charLen--;
+        // the last character could be incomplete
+        for (; pos < end && pos < len; ++pos) {
+            index[pos] = charPos;
         }
 
         charPos++;
@@ -165,7 +172,7 @@ ByteBuffer mdp::MapBytesRangeSet(const BytesRangeSet& rangeSet, const ByteBuffer
 
         if (it->location + it->length > length) {
             // Sundown adds an extra newline on the source input if needed.
-            if (it->location + it->length - length == 1) {
+            if (it->location <= length && it->location + it->length - length == 1) {
                 s << byteBuffer.substr(it->location, length - it->location);
                 return s.str();
             } else {
-- 
2.43.0


From cc8d31f59a6a6950cb769526683003ae34b67706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 03/47] fix: locate annotations on an unterminated last line
 and empty ranges

A range on the last line of a document that does not end in a newline was
reported to start at line 0, column 0, and the end of an empty range at the
start of the document was looked up before the first line.
---
 packages/drafter/src/SourceMapUtils.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/packages/drafter/src/SourceMapUtils.cc b/packages/drafter/src/SourceMapUtils.cc
index 780ca9c..c0253db 100644
--- a/packages/drafter/src/SourceMapUtils.cc
+++ b/packages/drafter/src/SourceMapUtils.cc
@@ -18,9 +18,15 @@ namespace drafter
 
         auto annotationPositionIt = std::upper_bound(linesEndIndex.begin(), linesEndIndex.end(), range.location);
 
-        if (annotationPositionIt != linesEndIndex.end()) {
-            out.fromLine = std::distance(linesEndIndex.begin(), annotationPositionIt);
-            out.fromColumn = range.location - *std::prev(annotationPositionIt) + 1;
+        // linesEndIndex starts with zero: there always is a preceding entry, past the last
+        // newline it is the start of the last - unterminated - line
+        out.fromLine = std::distance(linesEndIndex.begin(), annotationPositionIt);
+        out.fromColumn = range.location - *std::prev(annotationPositionIt) + 1;
+
+        if (range.length == 0) { // ends where it starts
+            out.toLine = out.fromLine;
+            out.toColumn = out.fromColumn;
+            return out;
         }
 
         // Finds ending line and column position
-- 
2.43.0


From ecda0b8a0f65047309510850ff25be3e38c5862e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:01 +0000
Subject: [PATCH 04/47] fix: give the children of a copied Markdown node the
 copy as their parent

---
 packages/apib-parser/src/markdown-parser/MarkdownNode.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/apib-parser/src/markdown-parser/MarkdownNode.cc b/packages/apib-parser/src/markdown-parser/MarkdownNode.cc
index 15ea78c..6d806f9 100644
--- a/packages/apib-parser/src/markdown-parser/MarkdownNode.cc
+++ b/packages/apib-parser/src/markdown-parser/MarkdownNode.cc
@@ -27,6 +27,8 @@ MarkdownNode::MarkdownNode(const MarkdownNode& rhs)
     this->data = rhs.data;
     this->sourceMap = rhs.sourceMap;
     this->m_children.reset(::new MarkdownNodes(*rhs.m_children.get()));
+    for (MarkdownNode& child : *m_children)
+        child.m_parent = this;
     this->m_parent = rhs.m_parent;
 }
 
@@ -37,6 +39,8 @@ MarkdownNode& MarkdownNode::operator=(const MarkdownNode& rhs)
     this->data = rhs.data;
     this->sourceMap = rhs.sourceMap;
     this->m_children.reset(::new MarkdownNodes(*rhs.m_children.get()));
+    for (MarkdownNode& child : *m_children)
+        child.m_parent = this;
     this->m_parent = rhs.m_parent;
     return *this;
 }
-- 
2.43.0


From 0118d1681120bc3f68e46cb32be6338ff9f15c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:11 +0000
Subject: [PATCH 05/47] fix: compare elements of different types as different
 instead of dereferencing null

---
 packages/drafter/src/ElementComparator.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/drafter/src/ElementComparator.h b/packages/drafter/src/ElementComparator.h
index 6828fb5..35261db 100644
--- a/packages/drafter/src/ElementComparator.h
+++ b/packages/drafter/src/ElementComparator.h
@@ -119,10 +119,11 @@ namespace drafter
             template <typename ElementT>
             bool operator()(const ElementT& lhs) const
             {
-                return (lhs.empty() == rhs.empty()) && (lhs.element() == rhs.element())
+                const auto* rhsPtr = dynamic_cast<const ElementT*>(&rhs);
+                return rhsPtr && (lhs.empty() == rhs.empty()) && (lhs.element() == rhs.element())
                     && ignoreMeta(rhs.meta(), lhs.meta()) 
                     && ignoreAttrs(rhs.attributes(), lhs.attributes()) 
-                    && (lhs.empty() || (lhs.get() == dynamic_cast<const ElementT*>(&rhs)->get()));
+                    && (lhs.empty() || (lhs.get() == rhsPtr->get()));
             }
         };
     } // namespace detail
-- 
2.43.0


From e187de3548981c3345994d650165761985936329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:11 +0000
Subject: [PATCH 06/47] fix: append the given value, not "fixed", where there
 is no info element yet

---
 packages/drafter/src/refract/InfoElementsUtils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/drafter/src/refract/InfoElementsUtils.h b/packages/drafter/src/refract/InfoElementsUtils.h
index 50a8be4..a111f39 100644
--- a/packages/drafter/src/refract/InfoElementsUtils.h
+++ b/packages/drafter/src/refract/InfoElementsUtils.h
@@ -49,7 +49,7 @@ namespace refract
     {
         auto ta = ie.find(key);
         if (ta == ie.end()) {
-            ie.set(key, make_element<ValueElementType>(from_primitive("fixed")));
+            ie.set(key, make_element<ValueElementType>(make_element<Element<DSDType> >(std::move(value))));
         } else {
             auto arr = TypeQueryVisitor::as<ValueElementType>(ta->second.get());
 
-- 
2.43.0


From faee0958934ce39986a2c5690604aa9951792aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:11 +0000
Subject: [PATCH 07/47] fix: compare enum and holder data without an element

---
 packages/drafter/src/refract/dsd/Enum.cc   | 2 +-
 packages/drafter/src/refract/dsd/Holder.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/drafter/src/refract/dsd/Enum.cc b/packages/drafter/src/refract/dsd/Enum.cc
index abe4dbf..d274266 100644
--- a/packages/drafter/src/refract/dsd/Enum.cc
+++ b/packages/drafter/src/refract/dsd/Enum.cc
@@ -54,5 +54,5 @@ Enum& Enum::operator=(Enum rhs)
 
 bool dsd::operator==(const Enum& l, const Enum& r) noexcept
 {
-    return *l.value() == *r.value();
+    return (l.value() == r.value()) || (l.value() && r.value() && (*l.value() == *r.value()));
 }
diff --git a/packages/drafter/src/refract/dsd/Holder.cc b/packages/drafter/src/refract/dsd/Holder.cc
index 818634f..a0d8b0e 100644
--- a/packages/drafter/src/refract/dsd/Holder.cc
+++ b/packages/drafter/src/refract/dsd/Holder.cc
@@ -53,5 +53,5 @@ Holder& Holder::operator=(Holder rhs)
 
 bool dsd::operator==(const Holder& l, const Holder& r) noexcept
 {
-    return *l.data() == *r.data();
+    return (l.data() == r.data()) || (l.data() && r.data() && (*l.data() == *r.data()));
 }
-- 
2.43.0


From 3bb4b86ce34a1ec0abc966db00e94eccebe99ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 08/47] fix: find the root ancestor of types inheriting from
 each other

---
 packages/drafter/src/refract/Registry.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/drafter/src/refract/Registry.cc b/packages/drafter/src/refract/Registry.cc
index d7a268e..d35d58c 100644
--- a/packages/drafter/src/refract/Registry.cc
+++ b/packages/drafter/src/refract/Registry.cc
@@ -12,6 +12,7 @@
 #include "Exception.h"
 #include "TypeQueryVisitor.h"
 #include <algorithm>
+#include <set>
 
 using namespace refract;
 
@@ -36,11 +37,14 @@ Registry::Registry() : types_{baseTypeMap()} {}
 const IElement* refract::FindRootAncestor(const std::string& name, const Registry& registry)
 {
     const IElement* parent = registry.find(name);
+    std::set<const IElement*> visited;
 
     while (parent && !isReserved(parent->element())) {
+        visited.insert(parent);
         const IElement* next = registry.find(parent->element());
 
-        if (!next || (next == parent)) {
+        // stop at types inheriting from each other as well
+        if (!next || visited.count(next)) {
             return parent;
         }
 
-- 
2.43.0


From d4cf27f77f38c2998c9368d48a588e286080e78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:49 +0000
Subject: [PATCH 09/47] fix: look for types to expand in an enum without an
 element

---
 packages/drafter/src/refract/IsExpandableVisitor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/drafter/src/refract/IsExpandableVisitor.cc b/packages/drafter/src/refract/IsExpandableVisitor.cc
index c6a63c4..43bafc5 100644
--- a/packages/drafter/src/refract/IsExpandableVisitor.cc
+++ b/packages/drafter/src/refract/IsExpandableVisitor.cc
@@ -133,7 +133,7 @@ namespace refract
                 if (checkElement(e))
                     return true;
 
-                if (!e->empty()) {
+                if (!e->empty() && e->get().value()) {
                     IsExpandableVisitor v;
                     VisitBy(*e->get().value(), v);
                     if (v.get())
-- 
2.43.0


From 4e063dba048cfe599918c0280a9896bd850a6422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 10/47] fix: merge the items of an array into one without a
 value

---
 packages/drafter/src/refract/dsd/Extend.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/packages/drafter/src/refract/dsd/Extend.cc b/packages/drafter/src/refract/dsd/Extend.cc
index b6949aa..1922c57 100644
--- a/packages/drafter/src/refract/dsd/Extend.cc
+++ b/packages/drafter/src/refract/dsd/Extend.cc
@@ -162,11 +162,14 @@ namespace
 
         void operator()(T& value, const T& merge) const
         {
-            if (!merge.empty() && !value.empty())
-                std::transform(merge.get().begin(),
-                    merge.get().end(),
-                    std::back_inserter(value.get()),
-                    [](const std::unique_ptr<IElement>& e) { return clone(*e); });
+            if (merge.empty())
+                return;
+            if (value.empty())
+                value.set();
+            std::transform(merge.get().begin(),
+                merge.get().end(),
+                std::back_inserter(value.get()),
+                [](const std::unique_ptr<IElement>& e) { return clone(*e); });
         }
     };
 
-- 
2.43.0


From 9a201ae8c11aae917538e756407c79777887cf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:37 +0000
Subject: [PATCH 11/47] fix: merge object members with a key that is no plain
 string

---
 packages/drafter/src/refract/dsd/Extend.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/packages/drafter/src/refract/dsd/Extend.cc b/packages/drafter/src/refract/dsd/Extend.cc
index 1922c57..7bd690c 100644
--- a/packages/drafter/src/refract/dsd/Extend.cc
+++ b/packages/drafter/src/refract/dsd/Extend.cc
@@ -96,16 +96,16 @@ namespace
                             assert(mergeMember);
 
                             auto mergeKey = TypeQueryVisitor::as<const StringElement>(mergeMember->get().key());
-                            assert(mergeKey);
+                            if (!mergeKey) // e.g. a key of a named type, nothing to match by
+                                return value.get().end();
 
                             return std::find_if(
                                 value.get().begin(), value.get().end(), [mergeKey](const std::unique_ptr<IElement>& e) {
                                     if (auto valueMember = TypeQueryVisitor::as<const MemberElement>(e.get())) {
                                         auto valueKey
                                             = TypeQueryVisitor::as<const StringElement>(valueMember->get().key());
-                                        assert(valueKey);
 
-                                        return mergeKey->get() == valueKey->get();
+                                        return valueKey && mergeKey->get() == valueKey->get();
                                     }
 
                                     if (auto valueSelect = TypeQueryVisitor::as<const SelectElement>(e.get())) {
@@ -123,8 +123,8 @@ namespace
                                                                           auto optElMemberKey = TypeQueryVisitor::as<
                                                                               const StringElement>(
                                                                               optElMember->get().key());
-                                                                          assert(optElMemberKey);
-                                                                          return optElMemberKey->get()
+                                                                          return optElMemberKey
+                                                                              && optElMemberKey->get()
                                                                               == mergeKey->get();
                                                                       }
                                                                       return false;
-- 
2.43.0


From 76a76d717b28e630c7658448b805b0f163720b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:12 +0000
Subject: [PATCH 12/47] fix: assign to a Markdown node from a node below or
 above it

---
 packages/apib-parser/src/markdown-parser/MarkdownNode.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/apib-parser/src/markdown-parser/MarkdownNode.cc b/packages/apib-parser/src/markdown-parser/MarkdownNode.cc
index 6d806f9..4ad480f 100644
--- a/packages/apib-parser/src/markdown-parser/MarkdownNode.cc
+++ b/packages/apib-parser/src/markdown-parser/MarkdownNode.cc
@@ -34,14 +34,16 @@ MarkdownNode::MarkdownNode(const MarkdownNode& rhs)
 
 MarkdownNode& MarkdownNode::operator=(const MarkdownNode& rhs)
 {
+    // rhs could be among the descendants of this node, or the other way around
+    std::unique_ptr<MarkdownNodes> children(::new MarkdownNodes(*rhs.m_children.get()));
     this->type = rhs.type;
     this->text = rhs.text;
     this->data = rhs.data;
     this->sourceMap = rhs.sourceMap;
-    this->m_children.reset(::new MarkdownNodes(*rhs.m_children.get()));
+    this->m_parent = rhs.m_parent;
+    this->m_children = std::move(children);
     for (MarkdownNode& child : *m_children)
         child.m_parent = this;
-    this->m_parent = rhs.m_parent;
     return *this;
 }
 
-- 
2.43.0


From b5ad471fb569201378e6b16f017fc2862a30bb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:22 +0000
Subject: [PATCH 13/47] fix: keep the attributes of a select when expanding it

---
 packages/drafter/src/refract/ExpandVisitor.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/drafter/src/refract/ExpandVisitor.cc b/packages/drafter/src/refract/ExpandVisitor.cc
index 561bea4..7e18b5f 100644
--- a/packages/drafter/src/refract/ExpandVisitor.cc
+++ b/packages/drafter/src/refract/ExpandVisitor.cc
@@ -333,6 +333,7 @@ namespace refract
             auto o = make_element<T>();
             auto& content = o->get();
 
+            o->attributes() = e.attributes();
             o->meta() = e.meta(); // clone
 
             for (const auto& opt : e.get()) {
-- 
2.43.0


From 02bd30d41eca14a44a4294488791a6be96148815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:05 +0000
Subject: [PATCH 14/47] fix: find object members by the text of their key

---
 packages/drafter/src/refract/ComparableVisitor.cc | 5 +++++
 packages/drafter/src/refract/ComparableVisitor.h  | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/packages/drafter/src/refract/ComparableVisitor.cc b/packages/drafter/src/refract/ComparableVisitor.cc
index 5127aab..cf7990c 100644
--- a/packages/drafter/src/refract/ComparableVisitor.cc
+++ b/packages/drafter/src/refract/ComparableVisitor.cc
@@ -17,6 +17,11 @@ namespace refract
     {
     }
 
+    bool ComparableVisitor::IsEqual(const std::string& first, const dsd::String& second)
+    {
+        return second == first;
+    }
+
     void ComparableVisitor::operator()(const MemberElement& e)
     {
         ComparableVisitor cv(compare_to); // OPTIM: reuse current visitor
diff --git a/packages/drafter/src/refract/ComparableVisitor.h b/packages/drafter/src/refract/ComparableVisitor.h
index 19eabeb..8ac83b5 100644
--- a/packages/drafter/src/refract/ComparableVisitor.h
+++ b/packages/drafter/src/refract/ComparableVisitor.h
@@ -32,6 +32,8 @@ namespace refract
             return first == second;
         }
 
+        bool IsEqual(const std::string& first, const dsd::String& second);
+
     public:
         enum
         {
-- 
2.43.0


From 228e5ee1f720092072f8a3fb0ac06e32222a1faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:11 +0000
Subject: [PATCH 15/47] fix: leave an array without a value when the merged one
 has no items

---
 packages/drafter/src/refract/dsd/Extend.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/drafter/src/refract/dsd/Extend.cc b/packages/drafter/src/refract/dsd/Extend.cc
index 7bd690c..981c233 100644
--- a/packages/drafter/src/refract/dsd/Extend.cc
+++ b/packages/drafter/src/refract/dsd/Extend.cc
@@ -162,7 +162,7 @@ namespace
 
         void operator()(T& value, const T& merge) const
         {
-            if (merge.empty())
+            if (merge.empty() || merge.get().begin() == merge.get().end())
                 return;
             if (value.empty())
                 value.set();
-- 
2.43.0


From bfa5d8c45cf71d785a0820e48df197ee54484e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:19 +0000
Subject: [PATCH 16/47] fix: take back the merge into an array without a value,
 which the fixture of issue 682 rules out

This reverts 4e063db and its follow-up.
---
 packages/drafter/src/refract/dsd/Extend.cc | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/packages/drafter/src/refract/dsd/Extend.cc b/packages/drafter/src/refract/dsd/Extend.cc
index 981c233..24370a7 100644
--- a/packages/drafter/src/refract/dsd/Extend.cc
+++ b/packages/drafter/src/refract/dsd/Extend.cc
@@ -162,14 +162,11 @@ namespace
 
         void operator()(T& value, const T& merge) const
         {
-            if (merge.empty() || merge.get().begin() == merge.get().end())
-                return;
-            if (value.empty())
-                value.set();
-            std::transform(merge.get().begin(),
-                merge.get().end(),
-                std::back_inserter(value.get()),
-                [](const std::unique_ptr<IElement>& e) { return clone(*e); });
+            if (!merge.empty() && !value.empty())
+                std::transform(merge.get().begin(),
+                    merge.get().end(),
+                    std::back_inserter(value.get()),
+                    [](const std::unique_ptr<IElement>& e) { return clone(*e); });
         }
     };
 
-- 
2.43.0


From 5a9d675c80398cb89f6e2dfebf67b09a2a1b2e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:26 +0000
Subject: [PATCH 17/47] fix: sizes too big to count are open

---
 packages/drafter/src/refract/Cardinal.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/packages/drafter/src/refract/Cardinal.h b/packages/drafter/src/refract/Cardinal.h
index d1aa1f1..7988a09 100644
--- a/packages/drafter/src/refract/Cardinal.h
+++ b/packages/drafter/src/refract/Cardinal.h
@@ -59,16 +59,17 @@ namespace refract
 
     constexpr cardinal operator+(cardinal lhs, cardinal rhs) noexcept
     {
-        return (lhs == cardinal::open() || rhs == cardinal::open()) ? cardinal::open() :
-                                                                      cardinal{ lhs.data() + rhs.data() };
+        // sizes beyond the range of value_type are open, too
+        return (lhs.data() > cardinal::open().data() - rhs.data()) ? cardinal::open() :
+                                                                     cardinal{ lhs.data() + rhs.data() };
     }
 
     constexpr cardinal operator*(cardinal lhs, cardinal rhs)noexcept
     {
         return (lhs == cardinal::empty() || rhs == cardinal::empty()) ?
             cardinal::empty() :
-            ((lhs == cardinal::open() || rhs == cardinal::open()) ? cardinal::open() :
-                                                                    cardinal{ lhs.data() * rhs.data() });
+            ((lhs.data() > cardinal::open().data() / rhs.data()) ? cardinal::open() :
+                                                                   cardinal{ lhs.data() * rhs.data() });
     }
 }
 
-- 
2.43.0


From 99eac51cfe9dcc431f1b85b648fff8d1ad0b98e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:59 +0000
Subject: [PATCH 18/47] fix: keep earlier samples when one is added

---
 packages/drafter/src/refract/ElementUtils.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/packages/drafter/src/refract/ElementUtils.cc b/packages/drafter/src/refract/ElementUtils.cc
index 819844a..3ae8115 100644
--- a/packages/drafter/src/refract/ElementUtils.cc
+++ b/packages/drafter/src/refract/ElementUtils.cc
@@ -234,7 +234,6 @@ void refract::addSample(IElement& e, std::unique_ptr<IElement> sample)
             assert(false);
         }
         LOG(info) << "adding new sample";
-        e.attributes().set("samples", make_element<ArrayElement>(std::move(sample)));
         samples->get().push_back(std::move(sample));
     } else {
         LOG(error) << "expected samples to be held in Array Element content";
-- 
2.43.0


From e123048152eeeacc93a92ab5e17e571d0db4a9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:14 +0000
Subject: [PATCH 19/47] fix: nothing is left of a whitespace only range

---
 packages/apib-parser/src/snowcrash/StringUtility.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/packages/apib-parser/src/snowcrash/StringUtility.h b/packages/apib-parser/src/snowcrash/StringUtility.h
index c22eddf..a14cff5 100644
--- a/packages/apib-parser/src/snowcrash/StringUtility.h
+++ b/packages/apib-parser/src/snowcrash/StringUtility.h
@@ -59,14 +59,14 @@ namespace snowcrash
     // Get Trim Info
     inline TrimRange GetTrimInfo(std::string::const_iterator begin, std::string::const_iterator end)
     {
-        std::string::const_reverse_iterator rbegin(end);
-        std::string::const_reverse_iterator rend(begin);
-
         std::string::const_iterator trim = std::find_if(begin, end, std::not1(std::ptr_fun(isSpace)));
+
+        // look no further back than `trim`, nothing is left of a whitespace only range
+        std::string::const_reverse_iterator rbegin(end);
+        std::string::const_reverse_iterator rend(trim);
         std::string::const_reverse_iterator rtrim = std::find_if(rbegin, rend, std::not1(std::ptr_fun(isSpace)));
 
-        return std::make_tuple(
-            std::distance(begin, trim), std::distance(rtrim, std::string::const_reverse_iterator(trim)));
+        return std::make_tuple(std::distance(begin, trim), std::distance(rtrim, rend));
     }
 
     // Split string by delim
-- 
2.43.0


From 7b629eec2b87abb6e2e63ec93ede54852f0633a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:20 +0000
Subject: [PATCH 20/47] fix: leave debug entries out of the log altogether

---
 packages/drafter/src/utils/log/Trivial.cc | 23 +++++++++++++----------
 packages/drafter/src/utils/log/Trivial.h  |  5 ++++-
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/packages/drafter/src/utils/log/Trivial.cc b/packages/drafter/src/utils/log/Trivial.cc
index 37b8408..9a06033 100644
--- a/packages/drafter/src/utils/log/Trivial.cc
+++ b/packages/drafter/src/utils/log/Trivial.cc
@@ -58,20 +58,23 @@ const char* log::severity_to_str(severity s)
 trivial_entry::trivial_entry(trivial_log& log, severity svrty, size_t line, const char* file)
     : log_(log), severity_(svrty), log_lock_(log_.mtx())
 {
-    if (enough_severity(severity_))
-        if (auto* out = log_.out()) {
-            *out << '[' << severity_to_str(svrty) << "]";
-            *out << '[' << std::this_thread::get_id() << "]";
-            *out << '[' << file << ':' << line << "] ";
-        }
+    if (auto* out = this->out()) {
+        *out << '[' << severity_to_str(svrty) << "]";
+        *out << '[' << std::this_thread::get_id() << "]";
+        *out << '[' << file << ':' << line << "] ";
+    }
 }
 
 trivial_entry::~trivial_entry()
 {
-    if (enough_severity(severity_))
-        if (auto* out = log_.out()) {
-            *out << '\n'; // TODO @tjanc@ could throw
-        }
+    if (auto* out = this->out()) {
+        *out << '\n'; // TODO @tjanc@ could throw
+    }
+}
+
+std::ostream* trivial_entry::out() const
+{
+    return enough_severity(severity_) ? log_.out() : nullptr;
 }
 
 std::mutex& trivial_log::mtx() const
diff --git a/packages/drafter/src/utils/log/Trivial.h b/packages/drafter/src/utils/log/Trivial.h
index 2419d09..12f6549 100644
--- a/packages/drafter/src/utils/log/Trivial.h
+++ b/packages/drafter/src/utils/log/Trivial.h
@@ -56,6 +56,9 @@ namespace drafter
                 trivial_entry& operator<<(T&& obj);
 
                 ~trivial_entry();
+
+            private:
+                std::ostream* out() const; //< where to write this entry, if at all
             };
 
             class trivial_log
@@ -78,7 +81,7 @@ namespace drafter
             template <typename T>
             trivial_entry& trivial_entry::operator<<(T&& obj)
             {
-                if (auto* out = log_.out())
+                if (auto* out = this->out())
                     *out << std::forward<T>(obj);
                 return *this;
             }
-- 
2.43.0


From dba02c3d79a807a0a254613d60eb1d4122ee39dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:22 +0000
Subject: [PATCH 21/47] fix: quote YAML keys that would read as null or boolean

---
 packages/drafter/src/utils/so/YamlIo.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/packages/drafter/src/utils/so/YamlIo.cc b/packages/drafter/src/utils/so/YamlIo.cc
index ca3afb6..2f29315 100644
--- a/packages/drafter/src/utils/so/YamlIo.cc
+++ b/packages/drafter/src/utils/so/YamlIo.cc
@@ -33,6 +33,17 @@ namespace
         return true;
     }
 
+    // YAML takes these, unquoted and in any letter case, for nulls and booleans
+    bool is_yaml_word(std::string str)
+    {
+        static const char* words[] = { "", "null", "true", "false", "yes", "no", "on", "off", "y", "n" };
+
+        for (char& c : str)
+            if ('A' <= c && c <= 'Z')
+                c += 'a' - 'A';
+        return std::find(std::begin(words), std::end(words), str) != std::end(words);
+    }
+
     bool is_yaml_printable(const codepoint& c)
     {
         return (c == 0x9)                                  //
@@ -237,7 +248,7 @@ namespace
             do_indent(out, indent);
 
             // for clearer, unescaped reading
-            if (is_alphanum_dash(m.first))
+            if (is_alphanum_dash(m.first) && !is_yaml_word(m.first))
                 out << m.first;
             else
                 serialize_yaml(out, m.first);
-- 
2.43.0


From 9c522021d0c33ae2e17081846e5522f112cae239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:10 +0000
Subject: [PATCH 22/47] fix: read the integers numbers stand for in 64 bits,
 not 32

The conversion of dsd::Number to std::int64_t went through std::stoi: a
number beyond the range of int ended the process, as the conversion is
noexcept.
---
 packages/drafter/src/refract/dsd/Number.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/packages/drafter/src/refract/dsd/Number.cc b/packages/drafter/src/refract/dsd/Number.cc
index d20e7df..26d180e 100644
--- a/packages/drafter/src/refract/dsd/Number.cc
+++ b/packages/drafter/src/refract/dsd/Number.cc
@@ -8,6 +8,8 @@
 
 #include "Number.h"
 
+#include <cstdlib>
+
 #include "Traits.h"
 #include "../../utils/log/Trivial.h"
 
@@ -40,10 +42,10 @@ const std::string& Number::get() const noexcept
 
 Number::operator std::int64_t() const noexcept
 {
-    std::string::size_type idx;
-    std::int64_t result = std::stoi(value_, &idx);
-    if (idx < value_.size())
-        LOG(warning) << "dsd::Number to int; dropped trailing `" << value_.substr(idx) << "`";
+    char* rest = nullptr;
+    const std::int64_t result = std::strtoll(value_.c_str(), &rest, 10);
+    if (*rest)
+        LOG(warning) << "dsd::Number to int; dropped trailing `" << rest << "`";
     return result;
 }
 
-- 
2.43.0


From 92584517798f5982ca890b0a8a42eb635427f00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:55 +0000
Subject: [PATCH 23/47] fix: recognise resources in underlined headings that
 end in spaces

The section type of a heading is decided on its trimmed text, but the name
and the URI of a resource were then matched in the untrimmed text, so that
'Name [/uri] ' over dashes lost both, and models of it were undefined.
---
 packages/apib-parser/src/snowcrash/ResourceParser.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/packages/apib-parser/src/snowcrash/ResourceParser.h b/packages/apib-parser/src/snowcrash/ResourceParser.h
index 4682a7a..0a4ae42 100644
--- a/packages/apib-parser/src/snowcrash/ResourceParser.h
+++ b/packages/apib-parser/src/snowcrash/ResourceParser.h
@@ -47,9 +47,11 @@ namespace snowcrash
         {
 
             CaptureGroups captureGroups;
+            mdp::ByteBuffer subject = node->text;
+            TrimString(subject);
 
             // If Abbreviated resource section
-            if (RegexCapture(node->text, ResourceHeaderRegex, captureGroups, 4)) {
+            if (RegexCapture(subject, ResourceHeaderRegex, captureGroups, 4)) {
 
                 out.node.uriTemplate = captureGroups[3];
 
@@ -57,7 +59,7 @@ namespace snowcrash
                 if (!captureGroups[2].empty()) {
                     return processNestedAction(node, node->parent().children(), pd, layout, out);
                 }
-            } else if (RegexCapture(node->text, NamedEndpointHeaderRegex, captureGroups, 5)) {
+            } else if (RegexCapture(subject, NamedEndpointHeaderRegex, captureGroups, 5)) {
 
                 out.node.name = captureGroups[1];
                 TrimString(out.node.name);
@@ -316,8 +318,10 @@ namespace snowcrash
         {
 
             CaptureGroups captureGroups;
+            mdp::ByteBuffer subject = node->text;
+            TrimString(subject);
 
-            if (RegexCapture(node->text, NamedResourceHeaderRegex, captureGroups, 4)) {
+            if (RegexCapture(subject, NamedResourceHeaderRegex, captureGroups, 4)) {
 
                 resource.name = captureGroups[1];
                 TrimString(resource.name);
-- 
2.43.0


From 5bb7f21b9d44e53620efec1ce880ede5ce2f85dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:06 +0000
Subject: [PATCH 24/47] fix: compare HTTP header names regardless of case

Header names are case-insensitive, and redefinitions of a header are already
found that way. Content-Type, Content-Length and Transfer-Encoding were looked
up by exact spelling: a 'content-type: application/json' header neither set
the content type of the message body nor counted when payloads were compared
or a model was merged.
---
 packages/apib-parser/src/snowcrash/BlueprintUtility.h | 5 +++--
 packages/apib-parser/src/snowcrash/PayloadParser.h    | 6 +++---
 packages/drafter/src/Render.cc                        | 2 +-
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/packages/apib-parser/src/snowcrash/BlueprintUtility.h b/packages/apib-parser/src/snowcrash/BlueprintUtility.h
index 6174f87..efe1f6b 100644
--- a/packages/apib-parser/src/snowcrash/BlueprintUtility.h
+++ b/packages/apib-parser/src/snowcrash/BlueprintUtility.h
@@ -13,6 +13,7 @@
 #include <functional>
 #include "Blueprint.h"
 #include "HTTP.h"
+#include "StringUtility.h"
 
 namespace snowcrash
 {
@@ -67,7 +68,7 @@ namespace snowcrash
 
             header = std::find_if(left.headers.begin(),
                 left.headers.end(),
-                std::bind2nd(MatchFirstWith<Header, std::string>(), HTTPHeaderName::ContentType));
+                std::bind2nd(MatchFirstWith<Header, std::string, IEqual<std::string> >(), HTTPHeaderName::ContentType));
 
             std::string leftContentType;
 
@@ -77,7 +78,7 @@ namespace snowcrash
             // Resolve right content type
             header = std::find_if(right.headers.begin(),
                 right.headers.end(),
-                std::bind2nd(MatchFirstWith<Header, std::string>(), HTTPHeaderName::ContentType));
+                std::bind2nd(MatchFirstWith<Header, std::string, IEqual<std::string> >(), HTTPHeaderName::ContentType));
 
             std::string rightContentType;
 
diff --git a/packages/apib-parser/src/snowcrash/PayloadParser.h b/packages/apib-parser/src/snowcrash/PayloadParser.h
index a609d2d..12702c3 100644
--- a/packages/apib-parser/src/snowcrash/PayloadParser.h
+++ b/packages/apib-parser/src/snowcrash/PayloadParser.h
@@ -560,7 +560,7 @@ namespace snowcrash
 
             HeaderIterator modelContentTypeIt = std::find_if(model.headers.begin(),
                 model.headers.end(),
-                std::bind2nd(MatchFirstWith<Header, std::string>(), HTTPHeaderName::ContentType));
+                std::bind2nd(MatchFirstWith<Header, std::string, IEqual<std::string> >(), HTTPHeaderName::ContentType));
 
             bool isPayloadContentType = !out.node.headers.empty();
             bool isModelContentType = modelContentTypeIt != model.headers.end();
@@ -623,11 +623,11 @@ namespace snowcrash
 
             for (HeaderIterator it = out.node.headers.begin(); it != out.node.headers.end(); ++it) {
 
-                if (it->first == HTTPHeaderName::ContentLength) {
+                if (IEqual<std::string>()(it->first, HTTPHeaderName::ContentLength)) {
                     contentLength = it->second;
                 }
 
-                if (it->first == HTTPHeaderName::TransferEncoding) {
+                if (IEqual<std::string>()(it->first, HTTPHeaderName::TransferEncoding)) {
                     transferEncoding = it->second;
                 }
             }
diff --git a/packages/drafter/src/Render.cc b/packages/drafter/src/Render.cc
index 2981849..e50bce9 100644
--- a/packages/drafter/src/Render.cc
+++ b/packages/drafter/src/Render.cc
@@ -50,7 +50,7 @@ namespace drafter
 
         header = std::find_if(headers.begin(),
             headers.end(),
-            std::bind(MatchFirstWith<Header, std::string>(), std::placeholders::_1, HTTPHeaderName::ContentType));
+            std::bind(MatchFirstWith<Header, std::string, IEqual<std::string> >(), std::placeholders::_1, HTTPHeaderName::ContentType));
 
         if (header != headers.end()) {
             return header->second;
-- 
2.43.0


From e576783b6098421155f508ae35962b0060e2c4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:36 +0000
Subject: [PATCH 25/47] fix: anchor the JSON Schema pattern of a fixed key, so
 that other keys that contain it are not meant (C30)

---
 packages/drafter/src/refract/JsonSchema.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/drafter/src/refract/JsonSchema.cc b/packages/drafter/src/refract/JsonSchema.cc
index 6b05d82..d037973 100644
--- a/packages/drafter/src/refract/JsonSchema.cc
+++ b/packages/drafter/src/refract/JsonSchema.cc
@@ -229,7 +229,7 @@ namespace
                 // std::regex sanitizer{ R"([-[\]{}()*+?.,\^$|#\s])" };
                 // const std::string fmt = R"(\$&)";
                 // return std::regex_replace(e.get().get(), sanitizer, fmt);
-                std::string result{};
+                std::string result{ "^" };
                 for(char c : e.get().get()) {
                     switch(c) {
                         default:
@@ -280,7 +280,7 @@ namespace
                     
                     }
                 }
-                return result;
+                return result + "$";
             }
         }
         // clang-format on
-- 
2.43.0


From 8039047e3c47bbc53f62a38d9a3f27f62ad64e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:36 +0000
Subject: [PATCH 26/47] fix: the last property of a name replaces earlier ones
 in JSON Schema, and mixed in properties of a fixed type are required (C30)

---
 packages/drafter/src/refract/JsonSchema.cc | 26 +++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/packages/drafter/src/refract/JsonSchema.cc b/packages/drafter/src/refract/JsonSchema.cc
index d037973..1e2a4c6 100644
--- a/packages/drafter/src/refract/JsonSchema.cc
+++ b/packages/drafter/src/refract/JsonSchema.cc
@@ -295,6 +295,21 @@ namespace
         so::Array allOf = {};
     };
 
+    void setRequired(so::Array& required, const std::string& key, bool isRequired)
+    {
+        const auto it = std::find_if(required.data.begin(), required.data.end(), [&key](const so::Value& entry) {
+            const auto* name = mpark::get_if<so::String>(&entry);
+            return name && name->data == key;
+        });
+
+        if (it == required.data.end()) {
+            if (isRequired)
+                required.data.emplace_back(so::String{ key });
+        } else if (!isRequired) {
+            required.data.erase(it);
+        }
+    }
+
     so::Object& materialize(so::Object& result, ObjectSchema s)
     {
         if (!s.properties.data.empty())
@@ -734,10 +749,9 @@ namespace
         } else {
             auto strKey = key(e);
 
-            s.properties.data.emplace_back(strKey, makeSchema(*v, passFlags(options)));
-
-            if (options.test(REQUIRED_FLAG))
-                s.required.data.emplace_back(so::String{ strKey });
+            // the last property of a name replaces those before it
+            emplace_unique(s.properties, strKey, makeSchema(*v, passFlags(options)));
+            setRequired(s.required, strKey, options.test(REQUIRED_FLAG));
         }
     }
 
@@ -792,7 +806,9 @@ namespace
         else
             for (const auto& item : e.get()) {
                 assert(item);
-                renderProperty(s, *item, inheritFlags(options));
+                auto itemOptions = inheritFlags(options);
+                itemOptions.set(REQUIRED_FLAG, options.test(REQUIRED_FLAG));
+                renderProperty(s, *item, itemOptions);
             }
     }
 
-- 
2.43.0


From 1fcc2a2ef1dacef1d9a80edd49e0b737861e3bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:36 +0000
Subject: [PATCH 27/47] fix: no empty anyOf, which is no JSON Schema, for a
 fixed-type array of no types (C30)

---
 packages/drafter/src/refract/JsonSchema.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/drafter/src/refract/JsonSchema.cc b/packages/drafter/src/refract/JsonSchema.cc
index 1e2a4c6..33d39ae 100644
--- a/packages/drafter/src/refract/JsonSchema.cc
+++ b/packages/drafter/src/refract/JsonSchema.cc
@@ -452,7 +452,7 @@ namespace
             auto& schema = wrapNullable(s, options);
             addType(schema, TYPE_NAME);
 
-            if (e.empty()) {
+            if (e.empty() || e.get().size() == 0) {
                 addMaxItems(schema, 0);
             } else if (e.get().size() == 1) {
                 const auto& entry = *e.get().begin();
-- 
2.43.0


From bc547711754eff9baabdd3db30cee267c62a497e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:36 +0000
Subject: [PATCH 28/47] fix: no empty oneOf, which is no JSON Schema, for a One
 Of without options (C30)

---
 packages/drafter/src/refract/JsonSchema.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/drafter/src/refract/JsonSchema.cc b/packages/drafter/src/refract/JsonSchema.cc
index 33d39ae..92ff018 100644
--- a/packages/drafter/src/refract/JsonSchema.cc
+++ b/packages/drafter/src/refract/JsonSchema.cc
@@ -791,6 +791,10 @@ namespace
 
             oneOfs.data.emplace_back(materialize(std::move(optionSchema)));
         }
+        if (oneOfs.data.empty()) {
+            LOG(warning) << "no non-empty OptionElement in SelectElement; skipping property";
+            return;
+        }
         so::Object result{};
         addOneOf(result, std::move(oneOfs));
         s.allOf.data.emplace_back(std::move(result));
-- 
2.43.0


From c5a2f20e0db555c27fe08eb6af8fae98420c41bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:36 +0000
Subject: [PATCH 29/47] fix: an optional property left out of a JSON value
 takes the one it replaces with it (C30)

---
 packages/drafter/src/refract/JsonValue.cc | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/packages/drafter/src/refract/JsonValue.cc b/packages/drafter/src/refract/JsonValue.cc
index a8c0005..2f78571 100644
--- a/packages/drafter/src/refract/JsonValue.cc
+++ b/packages/drafter/src/refract/JsonValue.cc
@@ -367,14 +367,21 @@ namespace
 
         assert(elementKey);
 
+        auto strKey = renderKey(*elementKey);
+
         if (hasOptionalTypeAttr(element))
             if (!definesValue(*elementValue)) {
                 LOG(debug) << "omitting optional property while rendering value";
+                // neither is there a property of the same name which this one replaces
+                obj.data.erase(std::remove_if(obj.data.begin(),
+                                   obj.data.end(),
+                                   [&strKey](const so::Object::container_type::value_type& entry) {
+                                       return entry.first == strKey;
+                                   }),
+                    obj.data.end());
                 return;
             }
 
-        auto strKey = renderKey(*elementKey);
-
         if (!strKey.empty())
             emplace_unique(obj, strKey, renderValue(*elementValue, passFlags(options)));
     }
@@ -415,7 +422,15 @@ namespace
 
     void renderPropertySpecific(so::Object& value, const ObjectElement& element, TypeAttributes options)
     {
-        // OPTIM @tjanc@ avoid temporary container
+        if (!element.empty()) {
+            options = updateTypeAttributes(element, options);
+            for (const auto& item : element.get()) {
+                assert(item);
+                renderProperty(value, *item, inheritOrPassFlags(options, *item));
+            }
+            return;
+        }
+
         so::Value mixinValue = renderValueSpecific(element, passFlags(options));
         if (so::Object* mixinValueObject = mpark::get_if<so::Object>(&mixinValue))
             for (auto& property : mixinValueObject->data)
-- 
2.43.0


From bd7c0e774bd871c33e850aac7a089f3aaef4e8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:13 +0000
Subject: [PATCH 30/47] fix: keep the description of an item of type object

The values of a member of type object are ignored, there are none; its
description was dropped with them.
---
 packages/drafter/src/RefractDataStructure.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/packages/drafter/src/RefractDataStructure.cc b/packages/drafter/src/RefractDataStructure.cc
index b7b72fb..6865606 100644
--- a/packages/drafter/src/RefractDataStructure.cc
+++ b/packages/drafter/src/RefractDataStructure.cc
@@ -570,6 +570,11 @@ namespace
 
         void operator()(const NodeInfo<mson::ValueMember>& valueMember) const
         {
+            if (!valueMember.node->description.empty()) {
+                data.descriptions.push_back(
+                    DescriptionInfo{ valueMember.node->description, valueMember.sourceMap->description });
+            }
+
             // silently ignore "value" for ObjectElement e.g.
             // ```
             // # A (array)
@@ -608,11 +613,6 @@ namespace
                 }
             }
 
-            if (!valueMember.node->description.empty()) {
-                data.descriptions.push_back(
-                    DescriptionInfo{ valueMember.node->description, valueMember.sourceMap->description });
-            }
-
             if ((valueMember.node->valueDefinition.values.empty()
                     || (valueMember.node->valueDefinition.typeDefinition.typeSpecification.nestedTypes.size() > 1))) {
 
-- 
2.43.0


From ddb3acd7b766e10d56c9334e90c36fc7944ab2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:13 +0000
Subject: [PATCH 31/47] fix: render a choice without any option with members as
 before

Takes back bc54771: the fixture mson/issue-699 records the empty oneOf.
---
 packages/drafter/src/refract/JsonSchema.cc | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/packages/drafter/src/refract/JsonSchema.cc b/packages/drafter/src/refract/JsonSchema.cc
index 92ff018..33d39ae 100644
--- a/packages/drafter/src/refract/JsonSchema.cc
+++ b/packages/drafter/src/refract/JsonSchema.cc
@@ -791,10 +791,6 @@ namespace
 
             oneOfs.data.emplace_back(materialize(std::move(optionSchema)));
         }
-        if (oneOfs.data.empty()) {
-            LOG(warning) << "no non-empty OptionElement in SelectElement; skipping property";
-            return;
-        }
         so::Object result{};
         addOneOf(result, std::move(oneOfs));
         s.allOf.data.emplace_back(std::move(result));
-- 
2.43.0


From ec187bbb7cb1e8f6089e612ef7fc4c5985f94593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:52 +0000
Subject: [PATCH 32/47] fix: a request or response that stands for a model has
 the model's attributes

The reference copied all of the model but its attributes, so that the data
structure, and the body and schema made of it, were lost.
---
 packages/apib-parser/src/snowcrash/PayloadParser.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/apib-parser/src/snowcrash/PayloadParser.h b/packages/apib-parser/src/snowcrash/PayloadParser.h
index 12702c3..0d6ad2b 100644
--- a/packages/apib-parser/src/snowcrash/PayloadParser.h
+++ b/packages/apib-parser/src/snowcrash/PayloadParser.h
@@ -557,6 +557,7 @@ namespace snowcrash
 
             out.node.description = model.description;
             out.node.parameters = model.parameters;
+            out.node.attributes = model.attributes;
 
             HeaderIterator modelContentTypeIt = std::find_if(model.headers.begin(),
                 model.headers.end(),
@@ -593,6 +594,7 @@ namespace snowcrash
 
                 out.sourceMap.description = modelSM.description;
                 out.sourceMap.parameters = modelSM.parameters;
+                out.sourceMap.attributes = modelSM.attributes;
                 out.sourceMap.body = modelSM.body;
                 out.sourceMap.schema = modelSM.schema;
 
-- 
2.43.0


From 206be0814efd30417557dd538d8f23d05a868ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:52 +0000
Subject: [PATCH 33/47] fix: note duplicate requests and responses in their
 short form as well

A payload whose body follows directly was never compared with the payloads
before it, while the same payload with a body section was.
---
 packages/apib-parser/src/snowcrash/ActionParser.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/apib-parser/src/snowcrash/ActionParser.h b/packages/apib-parser/src/snowcrash/ActionParser.h
index ae818e2..7112cf7 100644
--- a/packages/apib-parser/src/snowcrash/ActionParser.h
+++ b/packages/apib-parser/src/snowcrash/ActionParser.h
@@ -427,11 +427,11 @@ namespace snowcrash
             SectionType& sectionType, const Payload& payload, const TransactionExample& example)
         {
 
-            if (sectionType == RequestSectionType) {
+            if (sectionType == RequestSectionType || sectionType == RequestBodySectionType) {
 
                 RequestIterator duplicate = SectionProcessor<Payload>::findRequest(example, payload);
                 return duplicate != example.requests.end();
-            } else if (sectionType == ResponseSectionType) {
+            } else if (sectionType == ResponseSectionType || sectionType == ResponseBodySectionType) {
 
                 ResponseIterator duplicate = SectionProcessor<Payload>::findResponse(example, payload);
                 return duplicate != example.responses.end();
-- 
2.43.0


From 2e88eb06d95aa4402a15266b02590cea90d0acb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:30 +0000
Subject: [PATCH 34/47] fix: say what is wrong with an action that follows a
 resource of one action

isResourcePresent told the opposite of what its name says and its caller asks,
so that the action was only noted as an unexpected header.
---
 packages/apib-parser/src/snowcrash/ResourceGroupParser.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/apib-parser/src/snowcrash/ResourceGroupParser.h b/packages/apib-parser/src/snowcrash/ResourceGroupParser.h
index 31ce98a..bef8c97 100644
--- a/packages/apib-parser/src/snowcrash/ResourceGroupParser.h
+++ b/packages/apib-parser/src/snowcrash/ResourceGroupParser.h
@@ -264,7 +264,7 @@ namespace snowcrash
         }
 
         /**
-         * \brief Given list of elements, return true if none of them is a resource element
+         * \brief Given list of elements, return true if any of them is a resource element
          *
          * \param elements Collection of elements
          */
@@ -272,11 +272,11 @@ namespace snowcrash
         {
             for (const auto& element : elements) {
                 if (element.element == Element::ResourceElement) {
-                    return false;
+                    return true;
                 }
             }
 
-            return true;
+            return false;
         }
 
         /**
-- 
2.43.0


From 7fed5b532a6044cd46cccaa5e266a51b2bc34a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:27 +0000
Subject: [PATCH 35/47] fix: do not create or empty the output file when
 validating

---
 packages/drafter/src/main.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/drafter/src/main.cc b/packages/drafter/src/main.cc
index 55071f1..a1ef7d0 100644
--- a/packages/drafter/src/main.cc
+++ b/packages/drafter/src/main.cc
@@ -73,7 +73,8 @@ int main(int argc, const char* argv[])
     ParseCommadLineOptions(argc, argv, config);
 
     std::unique_ptr<std::istream> in(CreateStreamFromName<std::istream>(config.input));
-    std::unique_ptr<std::ostream> out(CreateStreamFromName<std::ostream>(config.output));
+    // there is no output of a validation
+    std::unique_ptr<std::ostream> out(config.validate ? nullptr : CreateStreamFromName<std::ostream>(config.output));
 
     return ProcessRefract(config, in, out);
 }
-- 
2.43.0


From 856376f64a0df0f4cabe6819cc53e08afb4b974e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:27 +0000
Subject: [PATCH 36/47] fix: fail when the output cannot be written

---
 packages/drafter/src/main.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/drafter/src/main.cc b/packages/drafter/src/main.cc
index a1ef7d0..cf0945b 100644
--- a/packages/drafter/src/main.cc
+++ b/packages/drafter/src/main.cc
@@ -64,6 +64,11 @@ int ProcessRefract(const Config& config, std::unique_ptr<std::istream>& in, std:
 
     drafter_free_result(result);
 
+    if (out && !*out) {
+        std::cerr << "fatal: unable to write the output\n";
+        return EXIT_FAILURE;
+    }
+
     return ret;
 }
 
-- 
2.43.0


From 70423ed70aeebbe9eb0b99d63bc8e71c3eb38b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:27 +0000
Subject: [PATCH 37/47] fix: take https for the scheme of a URI, not for http
 and a host

---
 packages/apib-parser/src/snowcrash/UriTemplateParser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/apib-parser/src/snowcrash/UriTemplateParser.cc b/packages/apib-parser/src/snowcrash/UriTemplateParser.cc
index d64597c..eafd4e7 100644
--- a/packages/apib-parser/src/snowcrash/UriTemplateParser.cc
+++ b/packages/apib-parser/src/snowcrash/UriTemplateParser.cc
@@ -12,7 +12,7 @@
 #include "RegexMatch.h"
 #include "grammar/Uritemplate.h"
 
-#define URI_REGEX "^(http|https|ftp|file)?(://)?([^/]*)?(.*)$"
+#define URI_REGEX "^(https|http|ftp|file)?(://)?([^/]*)?(.*)$"
 
 
 using namespace snowcrash;
-- 
2.43.0


From bbc793f2dbaa1c9126efbd696d70234a054fc13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:27 +0000
Subject: [PATCH 38/47] fix: do not cut characters in remarks on percent
 encoding

---
 packages/apib-parser/src/snowcrash/UriTemplateParser.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/apib-parser/src/snowcrash/UriTemplateParser.cc b/packages/apib-parser/src/snowcrash/UriTemplateParser.cc
index eafd4e7..1965361 100644
--- a/packages/apib-parser/src/snowcrash/UriTemplateParser.cc
+++ b/packages/apib-parser/src/snowcrash/UriTemplateParser.cc
@@ -36,8 +36,8 @@ namespace error_locator
      */
     struct pct_triplet : pegtl::seq<
                                    pegtl::one<'%'>,
-                                   pegtl::any,
-                                   pegtl::any
+                                   pegtl::utf8::any,
+                                   pegtl::utf8::any
                                  > {};
 
     struct continuous_dots : pegtl::seq<
-- 
2.43.0


From 28236f1c16ba8cde84ef055f438cca6ce0f4a153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:27 +0000
Subject: [PATCH 39/47] fix: suggest two digits for each percent encoded byte

---
 packages/apib-parser/src/snowcrash/UriTemplateParser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/apib-parser/src/snowcrash/UriTemplateParser.cc b/packages/apib-parser/src/snowcrash/UriTemplateParser.cc
index 1965361..0c26b9b 100644
--- a/packages/apib-parser/src/snowcrash/UriTemplateParser.cc
+++ b/packages/apib-parser/src/snowcrash/UriTemplateParser.cc
@@ -67,7 +67,7 @@ namespace error_locator
         std::stringstream encoded;
         encoded << std::hex << std::uppercase;
         for (const unsigned char chr : in) {
-            encoded << "%" << int(chr);
+            encoded << "%" << std::setw(2) << std::setfill('0') << int(chr);
         }
         return encoded.str();
     }
-- 
2.43.0


From 0da7dd58d120a1a3a18036f275b9d8355546e9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:43 +0000
Subject: [PATCH 40/47] fix: read all parameters of a media type

---
 packages/apib-parser/src/grammar/Mediatype.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/apib-parser/src/grammar/Mediatype.h b/packages/apib-parser/src/grammar/Mediatype.h
index adb1f23..21c00f2 100644
--- a/packages/apib-parser/src/grammar/Mediatype.h
+++ b/packages/apib-parser/src/grammar/Mediatype.h
@@ -73,7 +73,8 @@ namespace apib
 
         // OPT convert to if_must<> to force correct attribute=value pair required
         struct parameter : pegtl::seq<attribute, pegtl::one<'='>, value> {}; 
-        struct parameters : pegtl::list<parameter, RWS> {};
+        struct parameters_separator : pegtl::sor<pegtl::seq<OWS, pegtl::one<';'>, OWS>, RWS> {};
+        struct parameters : pegtl::list<parameter, parameters_separator> {};
 
         // type
         struct type : name {};
-- 
2.43.0


From db2a1ac56a82145865276cf5b3e2c1db1342b557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:43 +0000
Subject: [PATCH 41/47] fix: read every token as the value of a media type
 parameter

---
 packages/apib-parser/src/grammar/Mediatype.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/apib-parser/src/grammar/Mediatype.h b/packages/apib-parser/src/grammar/Mediatype.h
index 21c00f2..9c826a5 100644
--- a/packages/apib-parser/src/grammar/Mediatype.h
+++ b/packages/apib-parser/src/grammar/Mediatype.h
@@ -65,7 +65,12 @@ namespace apib
                            pegtl::rep_max<126, pegtl::sor<pegtl::ascii::alnum, restricted> >
                        > {};
 
-        struct nonquoted : name {}; // nonqouted is used in parameter value to allow action template specialization
+        struct nonquoted : pegtl::plus<
+                               pegtl::sor<
+                                   pegtl::ascii::alnum,
+                                   pegtl::one<'!', '#', '$', '%', '&', '\'', '*', '+', '-', '.', '^', '_', '`', '{', '|', '}', '~'>
+                               >
+                           > {};
 
         // parameters
         struct attribute : name {};
-- 
2.43.0


From beb779c18eff27b48ad30a0a0ef6ade5dc622613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:43 +0000
Subject: [PATCH 42/47] fix: undo quoted pairs in the parameters of media types

---
 packages/apib-parser/src/MediaTypeParser.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packages/apib-parser/src/MediaTypeParser.cc b/packages/apib-parser/src/MediaTypeParser.cc
index 9c5223e..cac973c 100644
--- a/packages/apib-parser/src/MediaTypeParser.cc
+++ b/packages/apib-parser/src/MediaTypeParser.cc
@@ -19,5 +19,11 @@ media_type apib::parser::parseMediaType(const std::string& input)
     media_type result;
     tao::pegtl::memory_input<> in(input, "");
     tao::pegtl::parse<tao::pegtl::try_catch<match_grammar>, action>(in, result);
+    // only quoted values have a backslash, before the character it stands for
+    for (auto& parameter : result.parameters) {
+        std::string& value = parameter.second;
+        for (auto at = value.find('\\'); at != std::string::npos; at = value.find('\\', at + 1))
+            value.erase(at, 1);
+    }
     return result;
 }
-- 
2.43.0


From 6c43d1224044a82b93bbbea384ffd5d606c5d17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:43 +0000
Subject: [PATCH 43/47] fix: quote empty and non ASCII parameters of media
 types

---
 packages/drafter/src/backend/MediaTypeS11n.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/drafter/src/backend/MediaTypeS11n.cc b/packages/drafter/src/backend/MediaTypeS11n.cc
index f48a1f7..de71411 100644
--- a/packages/drafter/src/backend/MediaTypeS11n.cc
+++ b/packages/drafter/src/backend/MediaTypeS11n.cc
@@ -47,8 +47,8 @@ namespace
         using std::begin;
         using std::end;
 
-        if (end(v) == std::find_if(begin(v), end(v), [](const char c) { //
-                return is_tspecial(c) || std::isspace(c) || std::iscntrl(c);
+        if (!v.empty() && end(v) == std::find_if(begin(v), end(v), [](const char c) { //
+                return is_tspecial(c) || std::isspace(c) || std::iscntrl(c) || static_cast<unsigned char>(c) > 0x7F;
             }))
             return (out << v);
 
-- 
2.43.0


From 832fc53d5c7a08f6bd8e16b839e463bea204e997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:34 +0000
Subject: [PATCH 44/47] fix: find no delimiters within backticks in types

---
 packages/apib-parser/src/snowcrash/MSONUtility.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/packages/apib-parser/src/snowcrash/MSONUtility.h b/packages/apib-parser/src/snowcrash/MSONUtility.h
index cbc38d6..7352b73 100644
--- a/packages/apib-parser/src/snowcrash/MSONUtility.h
+++ b/packages/apib-parser/src/snowcrash/MSONUtility.h
@@ -200,7 +200,19 @@ namespace mson
 
         while (i < subject.length()) {
 
-            if (subject[i] == mdp::MarkdownBeginReference && !alreadyParsedLink) {
+            if (subject[i] == scpl::EscapeCharacter) {
+
+                // Nothing between backticks is a delimiter
+                std::string escapedString = snowcrash::RetrieveEscaped(subject, i);
+
+                if (!escapedString.empty()) {
+                    buffer += escapedString;
+                    i = 0;
+                } else {
+                    buffer += subject[i];
+                    i++;
+                }
+            } else if (subject[i] == mdp::MarkdownBeginReference && !alreadyParsedLink) {
 
                 trimSubject = true;
 
-- 
2.43.0


From 4afc3739e95ab525d879667829b5bda1b1c628e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:08 +0000
Subject: [PATCH 45/47] fix: generate nothing for references that did not
 resolve

---
 packages/drafter/src/refract/ElementUtils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/drafter/src/refract/ElementUtils.cc b/packages/drafter/src/refract/ElementUtils.cc
index 3ae8115..9e3658f 100644
--- a/packages/drafter/src/refract/ElementUtils.cc
+++ b/packages/drafter/src/refract/ElementUtils.cc
@@ -298,7 +298,7 @@ const IElement* refract::resolve(const RefElement& element)
     const auto resolvedEntry = element.attributes().find("resolved");
     if (resolvedEntry == element.attributes().end()) {
         LOG(error) << "expected all references to be resolved in backend";
-        assert(false);
+        return nullptr;
     }
 
     assert(resolvedEntry->second);
-- 
2.43.0


From 9a33b0a277bea4541abb0340e08e052969299608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:08 +0000
Subject: [PATCH 46/47] fix: read no character before a short text's start

---
 packages/apib-parser/src/snowcrash/StringUtility.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/apib-parser/src/snowcrash/StringUtility.h b/packages/apib-parser/src/snowcrash/StringUtility.h
index a14cff5..5da751b 100644
--- a/packages/apib-parser/src/snowcrash/StringUtility.h
+++ b/packages/apib-parser/src/snowcrash/StringUtility.h
@@ -106,11 +106,11 @@ namespace snowcrash
     inline std::string& TwoNewLines(std::string& s)
     {
 
-        if (s[s.length() - 1] != '\n') {
+        if (s.empty() || s[s.length() - 1] != '\n') {
             s += "\n";
         }
 
-        if (s[s.length() - 2] != '\n') {
+        if (s.length() < 2 || s[s.length() - 2] != '\n') {
             s += "\n";
         }
 
-- 
2.43.0


From 2d3e5f95b60db554f77f777958ea8fa78208899b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:08 +0000
Subject: [PATCH 47/47] fix: read no character before an empty list of type
 attributes

---
 packages/apib-parser/src/snowcrash/SignatureSectionProcessor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/apib-parser/src/snowcrash/SignatureSectionProcessor.h b/packages/apib-parser/src/snowcrash/SignatureSectionProcessor.h
index e5d1954..01b721b 100644
--- a/packages/apib-parser/src/snowcrash/SignatureSectionProcessor.h
+++ b/packages/apib-parser/src/snowcrash/SignatureSectionProcessor.h
@@ -341,7 +341,7 @@ namespace scpl
                 size_t length = attribute.size();
 
                 // If the last char is not an attribute delimiter, attributes are finished
-                if (attribute[length - 1] != Delimiters::AttributeDelimiter) {
+                if (attribute.empty() || attribute[length - 1] != Delimiters::AttributeDelimiter) {
                     attributesNotFinished = false;
                 } else {
                     attribute = attribute.substr(0, length - 1);
-- 
2.43.0

