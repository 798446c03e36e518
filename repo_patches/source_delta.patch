From 4d29e49c2e9d46fee6e025972ab9b496fce03a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:03 +0000
Subject: [PATCH 01/28] fix: Slice::str() must copy exactly the slice

---
 ron/slice.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ron/slice.hpp b/ron/slice.hpp
index 78aba93..307bf3c 100644
--- a/ron/slice.hpp
+++ b/ron/slice.hpp
@@ -207,8 +207,8 @@ class Slice {
     }
 
     inline String str() const {
-        return String{reinterpret_cast<const String::value_type*>(buf_),
-                      range_.begin(), range_.end()};
+        return String{reinterpret_cast<const String::value_type*>(begin()),
+                      size()};
     }
 
     inline Range range_of(Slice sub) const {
-- 
2.43.0


From be270f9dcbeed4b5cbace1b177868d6609d8628c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:03 +0000
Subject: [PATCH 02/28] fix: form2uuid() read past the end of the FORMS table

---
 ron/form.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ron/form.hpp b/ron/form.hpp
index 2a2ed67..478633e 100644
--- a/ron/form.hpp
+++ b/ron/form.hpp
@@ -108,7 +108,7 @@ inline FORM uuid2form(Uuid u) {
 }
 
 inline Uuid form2uuid(FORM form) {
-    if (form < sizeof(FORMS)) {
+    if (form < sizeof(FORMS) / sizeof(FORMS[0])) {
         return Uuid{FORMS[form], 0};
     } else {
         return Uuid::FATAL;
-- 
2.43.0


From 4875546550caf093cde8dc041c3f68a46f10cbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:14 +0000
Subject: [PATCH 03/28] fix: form and map tables must not depend on static
 initialisation order of Uuid::FATAL

---
 db/const.hpp | 2 +-
 ron/form.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/db/const.hpp b/db/const.hpp
index 499ec45..152484e 100644
--- a/db/const.hpp
+++ b/db/const.hpp
@@ -47,7 +47,7 @@ static const Uuid JSON_MAP_ID{JSON_MAP_NAME, 0};
 static const Uuid MAP_IDS[] = {CHAIN_MAP_ID, META_MAP_ID, OP_MAP_ID,
                                YARN_MAP_ID,  SHA2_MAP_ID, PREV_MAP_ID,
                                HEAD_MAP_ID,  OBJ_MAP_ID,  CSV_MAP_ID,
-                               TXT_MAP_ID,   JSON_MAP_ID, Uuid::FATAL};
+                               TXT_MAP_ID,   JSON_MAP_ID, Uuid{Word::MAX_VALUE, Word::MAX_VALUE}};
 
 inline Uuid map2uuid(MAP e) { return MAP_IDS[e]; }
 
diff --git a/ron/form.hpp b/ron/form.hpp
index 478633e..d2e9eec 100644
--- a/ron/form.hpp
+++ b/ron/form.hpp
@@ -98,7 +98,7 @@ const std::unordered_map<Uuid, FORM> UUID2FORM = {
     {RGA_FORM_UUID, RGA_RDT_FORM},     {MX_FORM_UUID, MX_RDT_FORM},
     {MAX_FORM_UUID, MAX_RDT_FORM},     {JSON_FORM_UUID, JSON_MAP_FORM},
     {CSV_FORM_UUID, CSV_MAP_FORM},     {TXT_FORM_UUID, TXT_MAP_FORM},
-    {Uuid::FATAL, ERROR_NO_FORM}
+    {Uuid{Word::MAX_VALUE, Word::MAX_VALUE}, ERROR_NO_FORM}
 
 };
 
-- 
2.43.0


From f2c1f506d989dc3655aebe186064052d1d017f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:51 +0000
Subject: [PATCH 04/28] fix: utf16append/utf16read must offset supplementary
 codepoints by 0x10000

---
 ron/encdec.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ron/encdec.hpp b/ron/encdec.hpp
index 986b18f..1618aa5 100644
--- a/ron/encdec.hpp
+++ b/ron/encdec.hpp
@@ -150,9 +150,10 @@ inline void utf8esc_append(String& to, Codepoint cp) {
 }
 
 inline void utf16append(std::u16string& to, Codepoint cp) {
-    if (cp < 0xd7ff || (cp < 0x10000 && cp >= 0xe000)) {
+    if (cp < 0xd800 || (cp < 0x10000 && cp >= 0xe000)) {
         to.push_back(static_cast<char16_t>(cp));
     } else {
+        cp -= 0x10000;
         to.push_back(static_cast<char16_t>(0xd800 + (cp >> 10)));
         to.push_back(static_cast<char16_t>(0xdc00 + (cp & 1023)));
     }
@@ -218,7 +219,7 @@ inline Codepoint utf16read(std::u16string::const_iterator& at,
     ret <<= 10;
     ret |= next - 0xdc00;
     ++at;
-    return ret;
+    return ret + 0x10000;
 }
 
 void utf8utf16(std::u16string& to, const String& from);
-- 
2.43.0


From f919a0991c7dcdfe071514b1b4ffcd91c94b14a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:59 +0000
Subject: [PATCH 05/28] fix: SHA2 hashes in hex and base64 were never decoded,
 incomplete last symbols were lost

---
 ron/encdec.hpp | 20 ++++++++++++++++++++
 ron/hash.hpp   | 12 ++++++++++--
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/ron/encdec.hpp b/ron/encdec.hpp
index 1618aa5..55d8109 100644
--- a/ron/encdec.hpp
+++ b/ron/encdec.hpp
@@ -25,6 +25,15 @@ void encode(String& coded, Slice raw, int bit_size) {
             coded.push_back(coding[(bits >> bc) & MASK]);
         }
     }
+    if (bit_size > 0) {  // an incomplete last byte
+        bits <<= bit_size;
+        bc += bit_size;
+        bits |= *raw >> (8 - bit_size);
+        if (bc >= bit_width) {
+            bc -= bit_width;
+            coded.push_back(coding[(bits >> bc) & MASK]);
+        }
+    }
     if (bc > 0) {
         bits <<= bit_width - bc;
         coded.push_back(coding[bits & MASK]);
@@ -48,6 +57,17 @@ bool decode(String& raw, Slice coded, uint32_t bit_size) {
             raw.push_back(uint8_t((bits >> bc) & 0xff));
         }
     }
+    if (bit_size > 0) {  // the last symbol, not all of its bits are used
+        int8_t value = table[*coded];
+        if (value < 0) return false;
+        bits <<= bit_size;
+        bc += bit_size;
+        bits |= value >> (bit_width - bit_size);
+        if (bc >= 8) {
+            bc -= 8;
+            raw.push_back(uint8_t((bits >> bc) & 0xff));
+        }
+    }
     if (bc > 0) {
         raw.push_back(uint8_t((bits << (8 - bc)) & 0xff));
     }
diff --git a/ron/hash.hpp b/ron/hash.hpp
index 52b87e4..0680ccc 100644
--- a/ron/hash.hpp
+++ b/ron/hash.hpp
@@ -65,8 +65,12 @@ struct SHA2 {
         assert(hash.size() <= HEX_SIZE);
         uint32_t b = uint32_t(hash.size()) << 2;
         if (b > BIT_SIZE) b = BIT_SIZE;
-        if (decode<4, ABC16>(ret.bits_, hash, ret.known_bits_))
+        ret.bits_.clear();
+        if (decode<4, ABC16>(ret.bits_, hash, b))
             ret.known_bits_ = b;
+        else
+            ret.bits_.clear();
+        ret.bits_.resize(SIZE, 0);
         return ret;
     }
 
@@ -75,8 +79,12 @@ struct SHA2 {
         assert(hash.size() <= BASE64_SIZE);
         uint32_t b = uint32_t(hash.size()) * 6;
         if (b > BIT_SIZE) b = BIT_SIZE;
-        if (decode<6, ABC64>(ret.bits_, hash, ret.known_bits_))
+        ret.bits_.clear();
+        if (decode<6, ABC64>(ret.bits_, hash, b))
             ret.known_bits_ = b;
+        else
+            ret.bits_.clear();
+        ret.bits_.resize(SIZE, 0);
         return ret;
     }
 
-- 
2.43.0


From 258644f03259e266711310f0b1559509b14d715f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:47 +0000
Subject: [PATCH 06/28] fix: Builder must not write a lone :ref, the grammar
 has none

@1ABC+x :lww,
:1AAA+x 1,
is what Builder wrote for a sequential id whose ref is not the previous
id; TextFrame::Cursor takes that for a syntax error.
---
 ron/text.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ron/text.hpp b/ron/text.hpp
index 4d7118c..2e29f72 100644
--- a/ron/text.hpp
+++ b/ron/text.hpp
@@ -172,13 +172,14 @@ class TextFrame {
         void WriteSpec(Uuid id, Uuid ref) {
             WriteTerm();
             span_size_ = 1;
-            bool seq_id = id == prev_id_.inc();
-            if (!seq_id) {
+            bool seq_ref = ref == prev_id_;
+            // the grammar has no lone :ref, so it needs its @id
+            if (!seq_ref || id != prev_id_.inc()) {
                 Write(SPEC_PUNCT[EVENT]);
                 WriteUuid(id);
             }
-            if (ref != prev_id_) {
-                if (!seq_id) Write(' ');
+            if (!seq_ref) {
+                Write(' ');
                 Write(SPEC_PUNCT[REF]);
                 WriteUuid(ref);
             }
-- 
2.43.0


From 5953d285cfbec44c88874fcbac77c8d362f3bb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:18 +0000
Subject: [PATCH 07/28] fix: merging copies of an op must not leave some in the
 heap (RGA states duplicated their ops)

---
 rdt/merge.hpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/rdt/merge.hpp b/rdt/merge.hpp
index 9935218..8cfd4c2 100644
--- a/rdt/merge.hpp
+++ b/rdt/merge.hpp
@@ -91,22 +91,21 @@ class MergeCursor {
         push(0);
     }
 
-    bool step() {
-        if (cursors_[0]->Next()) {
-            push(0);
-        } else {
-            eject();
-        }
-        return size() > 0;
-    }
-
    public:
     // advances to the next op
     // @return non-empty
     bool Next() {
         Uuid id{op()[OP_ID_IDX]};
-        while (step() && Uuid{op()[OP_ID_IDX]} == id)
-            ;  // idempotency
+        // idempotency: take all the copies of the op before moving on, as the
+        // next op may well precede the remaining copies in the heap order
+        std::vector<PCursor> copies;
+        do {
+            copies.push_back(cursors_.front());
+            eject();
+        } while (!empty() && Uuid{op()[OP_ID_IDX]} == id);
+        for (auto& i : copies) {
+            if (i->Next()) Add(i);
+        }
         return size() > 0;
     }
     // returns the data buffer for the current cursor/op
-- 
2.43.0


From 63b2fc1434d07fa574ceca18285febd4fa8fa226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:00 +0000
Subject: [PATCH 08/28] fix: MAX must order values by type and value, with ties
 resolved by id

---
 rdt/max.hpp | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/rdt/max.hpp b/rdt/max.hpp
index 45cd5a8..dac6c56 100644
--- a/rdt/max.hpp
+++ b/rdt/max.hpp
@@ -3,6 +3,7 @@
 
 #include <unordered_map>
 #include "../ron/form.hpp"
+#include "../ron/frames.hpp"
 #include "merge.hpp"
 
 namespace ron {
@@ -13,13 +14,29 @@ class MaxRDT {
     using Cursor = typename Frame::Cursor;
     using Cursors = typename Frame::Cursors;
 
+    /** A total order: headers first, then by the value, then by the id
+     *  (raw atoms would put -1 after 1 and compare strings by location). */
     static bool Less(const Cursor &a, const Cursor &b) {
-        if (a.op().size() == 2) {
-            if (b.op().size() > 2) return true;
-            return b.id() > a.id();
+        const bool a_header = a.op().size() == 2;
+        if (a_header != (b.op().size() == 2)) return a_header;
+        if (a_header) return a.id() < b.id();
+        const Atom x = a.atom(2), y = b.atom(2);
+        if (x.type() != y.type()) return x.type() < y.type();
+        if (x.type() == INT) {
+            if (x.value.as_integer != y.value.as_integer)
+                return x.value.as_integer < y.value.as_integer;
+        } else if (x.type() == FLOAT) {
+            if (x.value.as_float != y.value.as_float)
+                return x.value.as_float < y.value.as_float;
+        } else if (x.type() == STRING) {
+            String xs, ys;
+            ReadString(xs, a, 2);
+            ReadString(ys, b, 2);
+            if (xs != ys) return xs < ys;
+        } else if (x != y) {
+            return static_cast<Uuid>(x) < static_cast<Uuid>(y);
         }
-        if (b.op().size() == 2) return false;
-        return static_cast<Uuid>(a.atom(2)) < static_cast<Uuid>(b.atom(2));
+        return a.id() < b.id();
     }
 
    public:
-- 
2.43.0


From b92a50de4e76df880ba47c37482833ac59ddba8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:06 +0000
Subject: [PATCH 09/28] fix: MAX must not repeat the header of a state with no
 values

---
 rdt/max.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/rdt/max.hpp b/rdt/max.hpp
index dac6c56..40f1290 100644
--- a/rdt/max.hpp
+++ b/rdt/max.hpp
@@ -42,22 +42,27 @@ class MaxRDT {
    public:
     Status Merge(typename Frame::Builder &output, Cursors &inputs) const {
         if (inputs.empty()) return Status::OK;
-        if (inputs[0].valid() && inputs[0].ref() == MAX_FORM_UUID) {
+        bool header = inputs[0].valid() && inputs[0].ref() == MAX_FORM_UUID;
+        if (header) {
             output.AppendOp(inputs[0]);
             inputs[0].Next();
         }
         // TODO  sanity: all ops ref the root
         Cursor max = inputs.back();
-        inputs.back().Next();
+        bool found{false};
         for (int i = inputs.size() - 1; i >= 0; --i) {
             while (inputs[i].valid()) {
-                if (Less(max, inputs[i])) {
+                if (!found || Less(max, inputs[i])) {
                     max = inputs[i];
+                    found = true;
                 }
                 inputs[i].Next();
             }
         }
-        output.AppendOp(max);
+        // the header is there already
+        if (found && !(header && max.op().size() == 2)) {
+            output.AppendOp(max);
+        }
         output.EndChunk();
         return Status::OK;
     }
-- 
2.43.0


From aea9385dcd3f2f0e69b03146c9c3e2eac42ca47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:58 +0000
Subject: [PATCH 10/28] fix: Builder must not extend a span that is terminated
 already (the op's value was lost or the frame corrupted)

---
 ron/text.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ron/text.hpp b/ron/text.hpp
index 2e29f72..e4793c7 100644
--- a/ron/text.hpp
+++ b/ron/text.hpp
@@ -242,6 +242,9 @@ class TextFrame {
 
         template <class Cursor2>
         inline bool is_same_span(const Cursor2& cur) const {
+            if (!span_size_) {  // the previous op is terminated already
+                return false;
+            }
             if (cur.ref() != prev_id_) {
                 return false;
             }
-- 
2.43.0


From 93a0b9c3fcf3ae0bfc410ba57a1101c58fb04d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:19 +0000
Subject: [PATCH 11/28] fix: a span of non-ASCII or escaped chars must keep its
 first char intact

---
 ron/text.hpp | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/ron/text.hpp b/ron/text.hpp
index e4793c7..5562b6e 100644
--- a/ron/text.hpp
+++ b/ron/text.hpp
@@ -259,19 +259,12 @@ class TextFrame {
             if (prev_2_.type() == STRING) {
                 Atom a = cur.op()[2];
                 if (span_size_ == 1) {
-                    char ret[8];
-                    fsize_t retc{0};
-                    data_.pop_back();
-                    while (data_.back() != ATOM_PUNCT[STRING]) {
-                        ret[retc++] = data_.back();
-                        data_.pop_back();
-                    }
-                    data_.pop_back();
-                    Write('(');
-                    Write(ATOM_PUNCT[STRING]);
-                    for (fsize_t i = 0; i < retc; ++i) {
-                        data_.push_back(ret[i]);
-                    }
+                    data_.pop_back();  // the closing quote
+                    size_t at = data_.size();
+                    do {  // the opening quote is the one not escaped
+                        at = data_.rfind(ATOM_PUNCT[STRING], at - 1);
+                    } while (data_[at - 1] == ESC);
+                    data_.insert(at, 1, '(');
                 }
                 if (!a.value.cp) {
                     cur.NextCodepoint(a);
-- 
2.43.0


From 602ec4ec68946ddc3e4576fc34fff5ab2f2199b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:25 +0000
Subject: [PATCH 12/28] fix: Builder::Release must forget the last op, the next
 frame is on its own

---
 ron/text.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ron/text.hpp b/ron/text.hpp
index 5562b6e..5a7772e 100644
--- a/ron/text.hpp
+++ b/ron/text.hpp
@@ -327,6 +327,8 @@ class TextFrame {
             }
             std::swap(data_, to);
             data_.clear();
+            prev_id_ = Uuid::NIL;  // the next frame stands on its own
+            prev_2_ = Uuid::FATAL;
             return OK;
         }
 
-- 
2.43.0


From 8f9e52c095ff66d6dfc5361ae5f0a973867918bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:25 +0000
Subject: [PATCH 13/28] fix: WriteInt overflowed its buffer for the least
 integer

---
 ron/text-builder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ron/text-builder.cc b/ron/text-builder.cc
index 9a9c9ac..c5aef3f 100644
--- a/ron/text-builder.cc
+++ b/ron/text-builder.cc
@@ -37,7 +37,7 @@ Result TextFrame::Builder::WriteValues(const Cursor& cur) {
 }
 
 void TextFrame::Builder::WriteInt(int64_t value) {
-    char tmp[20];
+    char tmp[24];  // a sign, 19 digits, a zero
     int len = sprintf(tmp, "%" PRId64, value);
     data_.append(tmp, static_cast<size_t>(len));
 }
-- 
2.43.0


From 8e437842e8741def39cae57a4a0fa659cd23c49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:38 +0000
Subject: [PATCH 14/28] fix: an op with a value over the limits is an error,
 not the end of the frame

---
 ragel/text-grammar.rl |   8 +-
 ragel/text-parser.rl  |   3 +
 ron/text-parser.cc    | 171 +++++++++++++++++++++---------------------
 3 files changed, 94 insertions(+), 88 deletions(-)

diff --git a/ragel/text-grammar.rl b/ragel/text-grammar.rl
index ef32bff..40a5881 100644
--- a/ragel/text-grammar.rl
+++ b/ragel/text-grammar.rl
@@ -15,7 +15,7 @@
     action begin_int { intb = p; }
     action end_int {
         Range range{buffer, intb, p};
-        if (range.size()>=19 && int_too_big(Slice{intb,p})) { cs = 0; fbreak; }
+        if (range.size()>=19 && int_too_big(Slice{intb,p})) { overflow = true; fbreak; }
         op_.emplace_back(INT, range);
         uuidb = nullptr; // sabotage uuid
     }
@@ -27,16 +27,16 @@
     action begin_float { floatb = p; }
     action end_float { 
         Range range{buffer, floatb, p};
-        if (range.size() > 24) { cs = 0; fbreak; }
+        if (range.size() > 24) { overflow = true; fbreak; }
         op_.emplace_back(FLOAT, range);
     }
     action end_quoted_uuid {
-        if (word_too_big(value) || word_too_big(origin)) { cs = 0; fbreak; }
+        if (word_too_big(value) || word_too_big(origin)) { overflow = true; fbreak; }
         op_.push_back(Uuid{variety, value, version, origin}); 
     }
     action end_bare_uuid { 
         if (uuidb!=nullptr) { // " 123 " is an int, not an UUID
-            if (word_too_big(value) || word_too_big(origin)) { cs = 0; fbreak; }
+            if (word_too_big(value) || word_too_big(origin)) { overflow = true; fbreak; }
             op_.push_back(Uuid{variety, value, version, origin}); 
         }
     }
diff --git a/ragel/text-parser.rl b/ragel/text-parser.rl
index cb66f71..6e4cf32 100644
--- a/ragel/text-parser.rl
+++ b/ragel/text-parser.rl
@@ -62,6 +62,7 @@ Status TextFrame::Cursor::Next () {
     char term{0};
     Slice value, origin;
     char variety{0}, version{0};
+    bool overflow{false};  // a value does not fit
 
     Uuid prev = atoms.empty() ? Uuid::NIL : A2U(atoms[0]);
     atoms.clear();
@@ -78,6 +79,8 @@ Status TextFrame::Cursor::Next () {
 
     //std::cerr << "ending with [" <<p<<"] state "<<cs<<" "<<op_.size()<<" atoms "<<(pe-p)<<" bytes left, prev_id_ "<<prev_id_.str()<<'\n';
 
+    if (overflow) cs = RON_error;
+
     if (term && cs!=RON_error) {
         term_ = chr2term(term); // FIXME gen a fn
         return Status::OK;
diff --git a/ron/text-parser.cc b/ron/text-parser.cc
index 4ca2a7c..84f0c9a 100644
--- a/ron/text-parser.cc
+++ b/ron/text-parser.cc
@@ -74,6 +74,7 @@ Status TextFrame::Cursor::Next() {
     char term{0};
     Slice value, origin;
     char variety{0}, version{0};
+    bool overflow{false};  // a value does not fit
 
     Uuid prev = atoms.empty() ? Uuid::NIL : A2U(atoms[0]);
     atoms.clear();
@@ -109,7 +110,7 @@ Status TextFrame::Cursor::Next() {
         {
             Range range{buffer, intb, p};
             if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                cs = 0;
+                overflow = true;
                 {
                     p++;
                     cs = 74;
@@ -134,7 +135,7 @@ Status TextFrame::Cursor::Next() {
         {
             Range range{buffer, floatb, p};
             if (range.size() > 24) {
-                cs = 0;
+                overflow = true;
                 {
                     p++;
                     cs = 74;
@@ -163,7 +164,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
             {
                 if (word_too_big(value) || word_too_big(origin)) {
-                    cs = 0;
+                    overflow = true;
                     {
                         p++;
                         cs = 74;
@@ -192,7 +193,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
             {
                 if (word_too_big(value) || word_too_big(origin)) {
-                    cs = 0;
+                    overflow = true;
                     {
                         p++;
                         cs = 74;
@@ -216,7 +217,7 @@ Status TextFrame::Cursor::Next() {
         {
             Range range{buffer, intb, p};
             if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                cs = 0;
+                overflow = true;
                 {
                     p++;
                     cs = 74;
@@ -234,7 +235,7 @@ Status TextFrame::Cursor::Next() {
             {
                 if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        overflow = true;
                         {
                             p++;
                             cs = 74;
@@ -265,7 +266,7 @@ Status TextFrame::Cursor::Next() {
             {
                 if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        overflow = true;
                         {
                             p++;
                             cs = 74;
@@ -296,7 +297,7 @@ Status TextFrame::Cursor::Next() {
             {
                 if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        overflow = true;
                         {
                             p++;
                             cs = 74;
@@ -321,7 +322,7 @@ Status TextFrame::Cursor::Next() {
         {
             Range range{buffer, floatb, p};
             if (range.size() > 24) {
-                cs = 0;
+                overflow = true;
                 {
                     p++;
                     cs = 74;
@@ -338,7 +339,7 @@ Status TextFrame::Cursor::Next() {
             {
                 if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        overflow = true;
                         {
                             p++;
                             cs = 74;
@@ -363,7 +364,7 @@ Status TextFrame::Cursor::Next() {
         {
             Range range{buffer, floatb, p};
             if (range.size() > 24) {
-                cs = 0;
+                overflow = true;
                 {
                     p++;
                     cs = 74;
@@ -380,7 +381,7 @@ Status TextFrame::Cursor::Next() {
             {
                 if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        overflow = true;
                         {
                             p++;
                             cs = 74;
@@ -535,7 +536,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
+                    overflow = true;
                     {
                         p++;
                         cs = 1;
@@ -551,7 +552,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    overflow = true;
                     {
                         p++;
                         cs = 1;
@@ -571,7 +572,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        overflow = true;
                         {
                             p++;
                             cs = 1;
@@ -591,7 +592,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        overflow = true;
                         {
                             p++;
                             cs = 1;
@@ -606,7 +607,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
+                    overflow = true;
                     {
                         p++;
                         cs = 1;
@@ -624,7 +625,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            overflow = true;
                             {
                                 p++;
                                 cs = 1;
@@ -646,7 +647,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            overflow = true;
                             {
                                 p++;
                                 cs = 1;
@@ -668,7 +669,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            overflow = true;
                             {
                                 p++;
                                 cs = 1;
@@ -684,7 +685,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    overflow = true;
                     {
                         p++;
                         cs = 1;
@@ -701,7 +702,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            overflow = true;
                             {
                                 p++;
                                 cs = 1;
@@ -717,7 +718,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    overflow = true;
                     {
                         p++;
                         cs = 1;
@@ -734,7 +735,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            overflow = true;
                             {
                                 p++;
                                 cs = 1;
@@ -962,7 +963,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
+                    overflow = true;
                     {
                         p++;
                         cs = 4;
@@ -985,7 +986,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    overflow = true;
                     {
                         p++;
                         cs = 4;
@@ -1012,7 +1013,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        overflow = true;
                         {
                             p++;
                             cs = 4;
@@ -1039,7 +1040,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        overflow = true;
                         {
                             p++;
                             cs = 4;
@@ -1061,7 +1062,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
+                    overflow = true;
                     {
                         p++;
                         cs = 4;
@@ -1079,7 +1080,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            overflow = true;
                             {
                                 p++;
                                 cs = 4;
@@ -1108,7 +1109,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            overflow = true;
                             {
                                 p++;
                                 cs = 4;
@@ -1137,7 +1138,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            overflow = true;
                             {
                                 p++;
                                 cs = 4;
@@ -1160,7 +1161,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    overflow = true;
                     {
                         p++;
                         cs = 4;
@@ -1177,7 +1178,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            overflow = true;
                             {
                                 p++;
                                 cs = 4;
@@ -1200,7 +1201,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    overflow = true;
                     {
                         p++;
                         cs = 4;
@@ -1217,7 +1218,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            overflow = true;
                             {
                                 p++;
                                 cs = 4;
@@ -1330,7 +1331,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
+                    overflow = true;
                     {
                         p++;
                         cs = 5;
@@ -1346,7 +1347,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    overflow = true;
                     {
                         p++;
                         cs = 5;
@@ -1366,7 +1367,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        overflow = true;
                         {
                             p++;
                             cs = 5;
@@ -1386,7 +1387,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        overflow = true;
                         {
                             p++;
                             cs = 5;
@@ -1401,7 +1402,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
+                    overflow = true;
                     {
                         p++;
                         cs = 5;
@@ -1419,7 +1420,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            overflow = true;
                             {
                                 p++;
                                 cs = 5;
@@ -1441,7 +1442,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            overflow = true;
                             {
                                 p++;
                                 cs = 5;
@@ -1463,7 +1464,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            overflow = true;
                             {
                                 p++;
                                 cs = 5;
@@ -1479,7 +1480,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    overflow = true;
                     {
                         p++;
                         cs = 5;
@@ -1496,7 +1497,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            overflow = true;
                             {
                                 p++;
                                 cs = 5;
@@ -1512,7 +1513,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    overflow = true;
                     {
                         p++;
                         cs = 5;
@@ -1529,7 +1530,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            overflow = true;
                             {
                                 p++;
                                 cs = 5;
@@ -2195,7 +2196,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
+                    overflow = true;
                     {
                         p++;
                         cs = 25;
@@ -2211,7 +2212,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    overflow = true;
                     {
                         p++;
                         cs = 25;
@@ -2231,7 +2232,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        overflow = true;
                         {
                             p++;
                             cs = 25;
@@ -2251,7 +2252,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        overflow = true;
                         {
                             p++;
                             cs = 25;
@@ -2266,7 +2267,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
+                    overflow = true;
                     {
                         p++;
                         cs = 25;
@@ -2284,7 +2285,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            overflow = true;
                             {
                                 p++;
                                 cs = 25;
@@ -2306,7 +2307,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            overflow = true;
                             {
                                 p++;
                                 cs = 25;
@@ -2328,7 +2329,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            overflow = true;
                             {
                                 p++;
                                 cs = 25;
@@ -2344,7 +2345,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    overflow = true;
                     {
                         p++;
                         cs = 25;
@@ -2361,7 +2362,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            overflow = true;
                             {
                                 p++;
                                 cs = 25;
@@ -2377,7 +2378,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    overflow = true;
                     {
                         p++;
                         cs = 25;
@@ -2394,7 +2395,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            overflow = true;
                             {
                                 p++;
                                 cs = 25;
@@ -2529,7 +2530,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
+                    overflow = true;
                     {
                         p++;
                         cs = 28;
@@ -2545,7 +2546,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    overflow = true;
                     {
                         p++;
                         cs = 28;
@@ -2565,7 +2566,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        overflow = true;
                         {
                             p++;
                             cs = 28;
@@ -2585,7 +2586,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        overflow = true;
                         {
                             p++;
                             cs = 28;
@@ -2600,7 +2601,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
+                    overflow = true;
                     {
                         p++;
                         cs = 28;
@@ -2618,7 +2619,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            overflow = true;
                             {
                                 p++;
                                 cs = 28;
@@ -2640,7 +2641,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            overflow = true;
                             {
                                 p++;
                                 cs = 28;
@@ -2662,7 +2663,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            overflow = true;
                             {
                                 p++;
                                 cs = 28;
@@ -2678,7 +2679,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    overflow = true;
                     {
                         p++;
                         cs = 28;
@@ -2695,7 +2696,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            overflow = true;
                             {
                                 p++;
                                 cs = 28;
@@ -2711,7 +2712,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    overflow = true;
                     {
                         p++;
                         cs = 28;
@@ -2728,7 +2729,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            overflow = true;
                             {
                                 p++;
                                 cs = 28;
@@ -2953,7 +2954,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
+                    overflow = true;
                     {
                         p++;
                         cs = 32;
@@ -2969,7 +2970,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    overflow = true;
                     {
                         p++;
                         cs = 32;
@@ -2989,7 +2990,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        overflow = true;
                         {
                             p++;
                             cs = 32;
@@ -3009,7 +3010,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        overflow = true;
                         {
                             p++;
                             cs = 32;
@@ -3024,7 +3025,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
+                    overflow = true;
                     {
                         p++;
                         cs = 32;
@@ -3042,7 +3043,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            overflow = true;
                             {
                                 p++;
                                 cs = 32;
@@ -3064,7 +3065,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            overflow = true;
                             {
                                 p++;
                                 cs = 32;
@@ -3086,7 +3087,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            overflow = true;
                             {
                                 p++;
                                 cs = 32;
@@ -3102,7 +3103,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    overflow = true;
                     {
                         p++;
                         cs = 32;
@@ -3119,7 +3120,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            overflow = true;
                             {
                                 p++;
                                 cs = 32;
@@ -3135,7 +3136,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    overflow = true;
                     {
                         p++;
                         cs = 32;
@@ -3152,7 +3153,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            overflow = true;
                             {
                                 p++;
                                 cs = 32;
@@ -4967,6 +4968,8 @@ Status TextFrame::Cursor::Next() {
     // std::cerr << "ending with [" <<p<<"] state "<<cs<<" "<<op_.size()<<"
     // atoms "<<(pe-p)<<" bytes left, prev_id_ "<<prev_id_.str()<<'\n';
 
+    if (overflow) cs = RON_error;
+
     if (term && cs != RON_error) {
         term_ = chr2term(term);  // FIXME gen a fn
         return Status::OK;
-- 
2.43.0


From b8f16cc7ca867a7db46622f3e5602ac2a1f899e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:51 +0000
Subject: [PATCH 15/28] fix: an id or a reference that is too long is a syntax
 error (Word took more digits than it has)

---
 ragel/text-grammar.rl |   6 +-
 ron/text-parser.cc    | 210 ++++++++++++++++++++++++++++++++++++------
 2 files changed, 184 insertions(+), 32 deletions(-)

diff --git a/ragel/text-grammar.rl b/ragel/text-grammar.rl
index 40a5881..f2a5b64 100644
--- a/ragel/text-grammar.rl
+++ b/ragel/text-grammar.rl
@@ -7,10 +7,12 @@
     include UTF8 "./utf8-grammar.rl";
 
     action end_id {
-        op_[0] = Uuid{variety, value, version, origin};
+        if (word_too_big(value) || word_too_big(origin)) overflow = true;
+        else op_[0] = Uuid{variety, value, version, origin};
     }
     action end_ref {
-        op_[1] = Uuid{variety, value, version, origin};
+        if (word_too_big(value) || word_too_big(origin)) overflow = true;
+        else op_[1] = Uuid{variety, value, version, origin};
     }
     action begin_int { intb = p; }
     action end_int {
diff --git a/ron/text-parser.cc b/ron/text-parser.cc
index 84f0c9a..da1e7c3 100644
--- a/ron/text-parser.cc
+++ b/ron/text-parser.cc
@@ -409,7 +409,12 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
             {}
 #line 9 "ragel/./text-grammar.rl"
-            { op_[0] = Uuid{variety, value, version, origin}; }
+            {
+                if (word_too_big(value) || word_too_big(origin))
+                    overflow = true;
+                else
+                    op_[0] = Uuid{variety, value, version, origin};
+            }
 #line 48 "ragel/./text-grammar.rl"
             {
                 term = (*p);
@@ -428,7 +433,12 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
             {}
 #line 12 "ragel/./text-grammar.rl"
-            { op_[1] = Uuid{variety, value, version, origin}; }
+            {
+                if (word_too_big(value) || word_too_big(origin))
+                    overflow = true;
+                else
+                    op_[1] = Uuid{variety, value, version, origin};
+            }
 #line 48 "ragel/./text-grammar.rl"
             {
                 term = (*p);
@@ -447,7 +457,12 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
             {}
 #line 12 "ragel/./text-grammar.rl"
-            { op_[1] = Uuid{variety, value, version, origin}; }
+            {
+                if (word_too_big(value) || word_too_big(origin))
+                    overflow = true;
+                else
+                    op_[1] = Uuid{variety, value, version, origin};
+            }
 #line 48 "ragel/./text-grammar.rl"
             {
                 term = (*p);
@@ -466,7 +481,12 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
             {}
 #line 9 "ragel/./text-grammar.rl"
-            { op_[0] = Uuid{variety, value, version, origin}; }
+            {
+                if (word_too_big(value) || word_too_big(origin))
+                    overflow = true;
+                else
+                    op_[0] = Uuid{variety, value, version, origin};
+            }
 #line 48 "ragel/./text-grammar.rl"
             {
                 term = (*p);
@@ -754,7 +774,12 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                if (word_too_big(value) || word_too_big(origin))
+                    overflow = true;
+                else
+                    op_[0] = Uuid{variety, value, version, origin};
+            }
                 goto st1;
             tr195 :
 #line 14 "ragel/././uuid-grammar.rl"
@@ -764,7 +789,12 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                if (word_too_big(value) || word_too_big(origin))
+                    overflow = true;
+                else
+                    op_[1] = Uuid{variety, value, version, origin};
+            }
                 goto st1;
             tr205 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -774,7 +804,12 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                if (word_too_big(value) || word_too_big(origin))
+                    overflow = true;
+                else
+                    op_[1] = Uuid{variety, value, version, origin};
+            }
                 goto st1;
             tr215 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -784,7 +819,12 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                if (word_too_big(value) || word_too_big(origin))
+                    overflow = true;
+                else
+                    op_[0] = Uuid{variety, value, version, origin};
+            }
                 goto st1;
             st1:
                 if (++p == pe) goto _test_eof1;
@@ -1244,7 +1284,12 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                if (word_too_big(value) || word_too_big(origin))
+                    overflow = true;
+                else
+                    op_[1] = Uuid{variety, value, version, origin};
+            }
 #line 52 "ragel/./text-grammar.rl"
                 {
                     if ((*p) == '\n') {
@@ -1261,7 +1306,12 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                if (word_too_big(value) || word_too_big(origin))
+                    overflow = true;
+                else
+                    op_[1] = Uuid{variety, value, version, origin};
+            }
 #line 52 "ragel/./text-grammar.rl"
                 {
                     if ((*p) == '\n') {
@@ -1549,7 +1599,12 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                if (word_too_big(value) || word_too_big(origin))
+                    overflow = true;
+                else
+                    op_[0] = Uuid{variety, value, version, origin};
+            }
                 goto st5;
             tr196 :
 #line 14 "ragel/././uuid-grammar.rl"
@@ -1559,7 +1614,12 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                if (word_too_big(value) || word_too_big(origin))
+                    overflow = true;
+                else
+                    op_[1] = Uuid{variety, value, version, origin};
+            }
                 goto st5;
             tr206 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -1569,7 +1629,12 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                if (word_too_big(value) || word_too_big(origin))
+                    overflow = true;
+                else
+                    op_[1] = Uuid{variety, value, version, origin};
+            }
                 goto st5;
             tr216 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -1579,7 +1644,12 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                if (word_too_big(value) || word_too_big(origin))
+                    overflow = true;
+                else
+                    op_[0] = Uuid{variety, value, version, origin};
+            }
                 goto st5;
             st5:
                 if (++p == pe) goto _test_eof5;
@@ -2414,7 +2484,12 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                if (word_too_big(value) || word_too_big(origin))
+                    overflow = true;
+                else
+                    op_[0] = Uuid{variety, value, version, origin};
+            }
                 goto st25;
             tr199 :
 #line 14 "ragel/././uuid-grammar.rl"
@@ -2424,7 +2499,12 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                if (word_too_big(value) || word_too_big(origin))
+                    overflow = true;
+                else
+                    op_[1] = Uuid{variety, value, version, origin};
+            }
                 goto st25;
             tr208 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -2434,7 +2514,12 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                if (word_too_big(value) || word_too_big(origin))
+                    overflow = true;
+                else
+                    op_[1] = Uuid{variety, value, version, origin};
+            }
                 goto st25;
             tr219 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -2444,7 +2529,12 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                if (word_too_big(value) || word_too_big(origin))
+                    overflow = true;
+                else
+                    op_[0] = Uuid{variety, value, version, origin};
+            }
                 goto st25;
             st25:
                 if (++p == pe) goto _test_eof25;
@@ -2748,7 +2838,12 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                if (word_too_big(value) || word_too_big(origin))
+                    overflow = true;
+                else
+                    op_[0] = Uuid{variety, value, version, origin};
+            }
                 goto st28;
             tr200 :
 #line 14 "ragel/././uuid-grammar.rl"
@@ -2758,7 +2853,12 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                if (word_too_big(value) || word_too_big(origin))
+                    overflow = true;
+                else
+                    op_[1] = Uuid{variety, value, version, origin};
+            }
                 goto st28;
             tr209 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -2768,7 +2868,12 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                if (word_too_big(value) || word_too_big(origin))
+                    overflow = true;
+                else
+                    op_[1] = Uuid{variety, value, version, origin};
+            }
                 goto st28;
             tr220 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -2778,7 +2883,12 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                if (word_too_big(value) || word_too_big(origin))
+                    overflow = true;
+                else
+                    op_[0] = Uuid{variety, value, version, origin};
+            }
                 goto st28;
             st28:
                 if (++p == pe) goto _test_eof28;
@@ -3172,7 +3282,12 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                if (word_too_big(value) || word_too_big(origin))
+                    overflow = true;
+                else
+                    op_[0] = Uuid{variety, value, version, origin};
+            }
                 goto st32;
             tr201 :
 #line 14 "ragel/././uuid-grammar.rl"
@@ -3182,7 +3297,12 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                if (word_too_big(value) || word_too_big(origin))
+                    overflow = true;
+                else
+                    op_[1] = Uuid{variety, value, version, origin};
+            }
                 goto st32;
             tr210 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -3192,7 +3312,12 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                if (word_too_big(value) || word_too_big(origin))
+                    overflow = true;
+                else
+                    op_[1] = Uuid{variety, value, version, origin};
+            }
                 goto st32;
             tr221 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -3202,7 +3327,12 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                if (word_too_big(value) || word_too_big(origin))
+                    overflow = true;
+                else
+                    op_[0] = Uuid{variety, value, version, origin};
+            }
                 goto st32;
             st32:
                 if (++p == pe) goto _test_eof32;
@@ -4231,7 +4361,12 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                if (word_too_big(value) || word_too_big(origin))
+                    overflow = true;
+                else
+                    op_[0] = Uuid{variety, value, version, origin};
+            }
 #line 52 "ragel/./text-grammar.rl"
                 {
                     if ((*p) == '\n') {
@@ -4248,7 +4383,12 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                if (word_too_big(value) || word_too_big(origin))
+                    overflow = true;
+                else
+                    op_[0] = Uuid{variety, value, version, origin};
+            }
 #line 52 "ragel/./text-grammar.rl"
                 {
                     if ((*p) == '\n') {
@@ -4314,7 +4454,12 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                if (word_too_big(value) || word_too_big(origin))
+                    overflow = true;
+                else
+                    op_[0] = Uuid{variety, value, version, origin};
+            }
                 goto st64;
             tr218 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -4324,7 +4469,12 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                if (word_too_big(value) || word_too_big(origin))
+                    overflow = true;
+                else
+                    op_[0] = Uuid{variety, value, version, origin};
+            }
                 goto st64;
             st64:
                 if (++p == pe) goto _test_eof64;
-- 
2.43.0


From 2c6d1490ec9305c7edc9795f2f077f2c580465fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:33 +0000
Subject: [PATCH 16/28] fix: spans of no ops or over the limit made the cursor
 run through billions of ops

---
 ragel/text-grammar.rl | 3 +++
 ragel/text-parser.rl  | 1 +
 ron/text-parser.cc    | 6 ++++++
 ron/text.hpp          | 1 +
 4 files changed, 11 insertions(+)

diff --git a/ragel/text-grammar.rl b/ragel/text-grammar.rl
index f2a5b64..a39baf9 100644
--- a/ragel/text-grammar.rl
+++ b/ragel/text-grammar.rl
@@ -61,14 +61,17 @@
     action string_uesc { cp = decode_hex_cp(Slice{p-4,4}); }
 
     action span_size_digit {
+        if (span_size_ >= MAX_SPAN_SIZE / 10) overflow = true;
         span_size_ *= 10;
         span_size_ += fc - '0';
     }
     action end_span_size {
+        if (!span_size_) overflow = true;
         --span_size_;
     }
     action end_spread {
         if (op_.back().value.cp_size) { NextCodepoint(op_.back()); }
+        if (!cp_size) overflow = true;
         span_size_ = cp_size-1;
     }
 
diff --git a/ragel/text-parser.rl b/ragel/text-parser.rl
index 6e4cf32..e466670 100644
--- a/ragel/text-parser.rl
+++ b/ragel/text-parser.rl
@@ -89,6 +89,7 @@ Status TextFrame::Cursor::Next () {
         return Status::ENDOFFRAME;
     } else {
         cs = RON_error;
+        span_size_ = 0;
         char msg[64];
         size_t msglen = sprintf((char*)msg, "syntax error at line %d col %d (offset %d)", line, (int)(p-lineb), (int)(p-pb));
         return Status::BAD_STATE.comment(msg);
diff --git a/ron/text-parser.cc b/ron/text-parser.cc
index da1e7c3..c9fe907 100644
--- a/ron/text-parser.cc
+++ b/ron/text-parser.cc
@@ -1829,6 +1829,7 @@ Status TextFrame::Cursor::Next() {
                 if (op_.back().value.cp_size) {
                     NextCodepoint(op_.back());
                 }
+                if (!cp_size) overflow = true;
                 span_size_ = cp_size - 1;
             }
 #line 52 "ragel/./text-grammar.rl"
@@ -1842,6 +1843,7 @@ Status TextFrame::Cursor::Next() {
             tr59 :
 #line 65 "ragel/./text-grammar.rl"
             {
+                if (!span_size_) overflow = true;
                 --span_size_;
             }
 #line 52 "ragel/./text-grammar.rl"
@@ -1881,12 +1883,14 @@ Status TextFrame::Cursor::Next() {
                 if (op_.back().value.cp_size) {
                     NextCodepoint(op_.back());
                 }
+                if (!cp_size) overflow = true;
                 span_size_ = cp_size - 1;
             }
                 goto st10;
             tr60 :
 #line 65 "ragel/./text-grammar.rl"
             {
+                if (!span_size_) overflow = true;
                 --span_size_;
             }
                 goto st10;
@@ -2138,6 +2142,7 @@ Status TextFrame::Cursor::Next() {
             tr26 :
 #line 61 "ragel/./text-grammar.rl"
             {
+                if (span_size_ >= MAX_SPAN_SIZE / 10) overflow = true;
                 span_size_ *= 10;
                 span_size_ += (*p) - '0';
             }
@@ -5128,6 +5133,7 @@ Status TextFrame::Cursor::Next() {
         return Status::ENDOFFRAME;
     } else {
         cs = RON_error;
+        span_size_ = 0;
         char msg[64];
         size_t msglen =
             sprintf((char *)msg, "syntax error at line %d col %d (offset %d)",
diff --git a/ron/text.hpp b/ron/text.hpp
index 5a7772e..b41bc98 100644
--- a/ron/text.hpp
+++ b/ron/text.hpp
@@ -42,6 +42,7 @@ class TextFrame {
 
         static constexpr int RON_FULL_STOP = 255;
         static constexpr int SPEC_SIZE = 2;  // open RON
+        static constexpr fsize_t MAX_SPAN_SIZE = 1 << 30;
 
         Result ParseFloat(Atom& atom) const;
         Result ParseInteger(Atom& atom) const;
-- 
2.43.0


From 8d7038d65a7d3a74963cd2b6d9a29181d09b9af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:57 +0000
Subject: [PATCH 17/28] fix: floats like 1E+22 were read as a float and an
 UUID; such UUIDs are ambiguous

---
 ragel/text-grammar.rl |  1 +
 ron/text-parser.cc    | 21 +++++++++++++++++++++
 ron/uuid.cc           | 11 +++++++++++
 ron/uuid.hpp          |  5 ++---
 4 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/ragel/text-grammar.rl b/ragel/text-grammar.rl
index a39baf9..538f854 100644
--- a/ragel/text-grammar.rl
+++ b/ragel/text-grammar.rl
@@ -31,6 +31,7 @@
         Range range{buffer, floatb, p};
         if (range.size() > 24) { overflow = true; fbreak; }
         op_.emplace_back(FLOAT, range);
+        uuidb = nullptr; // " 1E5 " is a float, not an UUID
     }
     action end_quoted_uuid {
         if (word_too_big(value) || word_too_big(origin)) { overflow = true; fbreak; }
diff --git a/ron/text-parser.cc b/ron/text-parser.cc
index c9fe907..6afd92e 100644
--- a/ron/text-parser.cc
+++ b/ron/text-parser.cc
@@ -143,6 +143,7 @@ Status TextFrame::Cursor::Next() {
                 }
             }
             op_.emplace_back(FLOAT, range);
+            uuidb = nullptr;  // " 1E5 " is a float, not an UUID
         }
 #line 48 "ragel/./text-grammar.rl"
             {
@@ -330,6 +331,7 @@ Status TextFrame::Cursor::Next() {
                 }
             }
             op_.emplace_back(FLOAT, range);
+            uuidb = nullptr;  // " 1E5 " is a float, not an UUID
         }
 #line 17 "ragel/././uuid-grammar.rl"
             { origin = Slice{wordb, p}; }
@@ -372,6 +374,7 @@ Status TextFrame::Cursor::Next() {
                 }
             }
             op_.emplace_back(FLOAT, range);
+            uuidb = nullptr;  // " 1E5 " is a float, not an UUID
         }
 #line 14 "ragel/././uuid-grammar.rl"
             { value = Slice{wordb, p}; }
@@ -580,6 +583,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // " 1E5 " is a float, not an UUID
             }
                 goto st1;
             tr89 :
@@ -713,6 +717,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // " 1E5 " is a float, not an UUID
             }
 #line 17 "ragel/././uuid-grammar.rl"
                 { origin = Slice{wordb, p}; }
@@ -746,6 +751,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // " 1E5 " is a float, not an UUID
             }
 #line 14 "ragel/././uuid-grammar.rl"
                 { value = Slice{wordb, p}; }
@@ -1034,6 +1040,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // " 1E5 " is a float, not an UUID
             }
 #line 52 "ragel/./text-grammar.rl"
                 {
@@ -1209,6 +1216,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // " 1E5 " is a float, not an UUID
             }
 #line 17 "ragel/././uuid-grammar.rl"
                 { origin = Slice{wordb, p}; }
@@ -1249,6 +1257,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // " 1E5 " is a float, not an UUID
             }
 #line 14 "ragel/././uuid-grammar.rl"
                 { value = Slice{wordb, p}; }
@@ -1405,6 +1414,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // " 1E5 " is a float, not an UUID
             }
                 goto st5;
             tr90 :
@@ -1538,6 +1548,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // " 1E5 " is a float, not an UUID
             }
 #line 17 "ragel/././uuid-grammar.rl"
                 { origin = Slice{wordb, p}; }
@@ -1571,6 +1582,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // " 1E5 " is a float, not an UUID
             }
 #line 14 "ragel/././uuid-grammar.rl"
                 { value = Slice{wordb, p}; }
@@ -2295,6 +2307,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // " 1E5 " is a float, not an UUID
             }
                 goto st25;
             tr93 :
@@ -2428,6 +2441,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // " 1E5 " is a float, not an UUID
             }
 #line 17 "ragel/././uuid-grammar.rl"
                 { origin = Slice{wordb, p}; }
@@ -2461,6 +2475,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // " 1E5 " is a float, not an UUID
             }
 #line 14 "ragel/././uuid-grammar.rl"
                 { value = Slice{wordb, p}; }
@@ -2649,6 +2664,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // " 1E5 " is a float, not an UUID
             }
                 goto st28;
             tr94 :
@@ -2782,6 +2798,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // " 1E5 " is a float, not an UUID
             }
 #line 17 "ragel/././uuid-grammar.rl"
                 { origin = Slice{wordb, p}; }
@@ -2815,6 +2832,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // " 1E5 " is a float, not an UUID
             }
 #line 14 "ragel/././uuid-grammar.rl"
                 { value = Slice{wordb, p}; }
@@ -3093,6 +3111,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // " 1E5 " is a float, not an UUID
             }
                 goto st32;
             tr95 :
@@ -3226,6 +3245,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // " 1E5 " is a float, not an UUID
             }
 #line 17 "ragel/././uuid-grammar.rl"
                 { origin = Slice{wordb, p}; }
@@ -3259,6 +3279,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // " 1E5 " is a float, not an UUID
             }
 #line 14 "ragel/././uuid-grammar.rl"
                 { value = Slice{wordb, p}; }
diff --git a/ron/uuid.cc b/ron/uuid.cc
index 57f0dbe..cc39a5f 100644
--- a/ron/uuid.cc
+++ b/ron/uuid.cc
@@ -44,6 +44,17 @@ bool Word::is_all_digits() const {
     return true;
 }
 
+bool Uuid::is_ambiguous() const {
+    const ron::String text = str();
+    size_t i = 0, digits = 0;
+    while (i < text.size() && isdigit(text[i])) ++i;
+    if (!i || i == text.size()) return i;
+    if (text[i] != 'e' && text[i] != 'E') return false;
+    if (++i < text.size() && (text[i] == '+' || text[i] == '-')) ++i;
+    for (; i < text.size() && isdigit(text[i]); ++i) ++digits;
+    return digits && i == text.size();
+}
+
 void Uuid::write_base64(ron::String& ret) const {
     size_t len = 0;
     int vrt = variety();
diff --git a/ron/uuid.hpp b/ron/uuid.hpp
index b6b0c23..65cff9a 100644
--- a/ron/uuid.hpp
+++ b/ron/uuid.hpp
@@ -210,9 +210,8 @@ struct Uuid : public Atom {
     void write_base64(ron::String& to) const;
     ron::String str() const;
     inline bool zero() const { return value == ZERO; }
-    inline bool is_ambiguous() const {
-        return origin.is_zero() && value.is_all_digits();
-    }
+    /** The bare text of the UUID reads as a number: "123", "1E5", "1E+5". */
+    bool is_ambiguous() const;
     inline bool is_error() const { return origin == Word::MAX_VALUE; }
     static Uuid Time(Word value, Word origin) {
         return Uuid{value, (uint64_t(origin) & Word::PAYLOAD_BITS) |
-- 
2.43.0


From 54d69d86592fda2ca040013a03d392b0750df1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:18 +0000
Subject: [PATCH 18/28] fix: int64 limits: -10^18+1 was refused, and the least
 integer could be written but not read

---
 ron/text.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ron/text.cc b/ron/text.cc
index 7ff30d0..1a04629 100644
--- a/ron/text.cc
+++ b/ron/text.cc
@@ -15,13 +15,13 @@ Result TextFrame::Cursor::ParseInteger(Atom& a) const {
     } else if (*i == '+') {
         i++;
     }
-    int64_t& ret = a.value.as_integer;
+    uint64_t ret{0};  // the least integer has no positive counterpart
     while (i < range.end()) {
         ret *= 10;
         ret += *i - '0';
         i++;
     }
-    if (neg) ret = -ret;
+    a.value.as_integer = static_cast<int64_t>(neg ? 0 - ret : ret);
     return OK;
 }
 
@@ -69,19 +69,21 @@ Status TextFrame::Split(std::vector<TextFrame>& to) {
 
 bool TextFrame::Cursor::int_too_big(const Slice& data) {
     static const char* MAXINTSTR = "9223372036854775807";
-    if (data.size() < 19) {
-        return false;
-    }
+    static const char* MININTSTR = "9223372036854775808";
     CharRef mem = data.begin();
     size_t sz = data.size();
+    bool neg = *mem == '-';
     if (*mem == '-' || *mem == '+') {
         ++mem;
         --sz;
     }
+    if (sz < 19) {
+        return false;
+    }
     if (sz > 19) {
         return true;
     }
-    int res = memcmp(mem, MAXINTSTR, sz);
+    int res = memcmp(mem, neg ? MININTSTR : MAXINTSTR, sz);
     return res > 0;
 }
 
-- 
2.43.0


From 18801b4c049d651bb0029b4d6177f418e78be059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:38 +0000
Subject: [PATCH 19/28] fix: whole floats were written without a point and read
 back as integers

---
 ron/text-builder.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ron/text-builder.cc b/ron/text-builder.cc
index c5aef3f..6708937 100644
--- a/ron/text-builder.cc
+++ b/ron/text-builder.cc
@@ -1,4 +1,5 @@
 #include <cinttypes>
+#include <cstring>
 #include "text.hpp"
 
 namespace ron {
@@ -55,6 +56,10 @@ void TextFrame::Builder::WriteFloat(double value) {
     // 17 is DBL_DECIMAL_DIG, enough to express 64 bit ISO floats
     int len = sprintf(tmp, "%.17G", value);
     data_.append(tmp, static_cast<size_t>(len));
+    // "2" would be read as an integer
+    if (strspn(tmp, "-0123456789") == static_cast<size_t>(len)) {
+        data_.append(".0");
+    }
 }
 
 void TextFrame::Builder::WriteString(const String& value) {
-- 
2.43.0


From 83c7cef9da9ff1e4f155fa2ee7b7fbba232222ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:38 +0000
Subject: [PATCH 20/28] fix: \f is written, so it must be readable

---
 ragel/text-grammar.rl | 2 +-
 ron/cp-parser.cc      | 2 ++
 ron/string-parser.cc  | 2 ++
 ron/text-parser.cc    | 4 ++++
 4 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/ragel/text-grammar.rl b/ragel/text-grammar.rl
index 538f854..f51256e 100644
--- a/ragel/text-grammar.rl
+++ b/ragel/text-grammar.rl
@@ -93,7 +93,7 @@
 
     # JSON-ey string
     UNIESC = "\\u" [0-9a-fA-F]{4} %string_uesc;
-    ESC = "\\" [nrt\\b'/"] @string_esc;
+    ESC = "\\" [nrtf\\b'/"] @string_esc;
     CHAR = CODEPOINT - ['\n\r\\\0];
     CP = (UNIESC|ESC|CHAR) %end_cp;
     STRING = ( CP* ) >begin_string %end_string;
diff --git a/ron/cp-parser.cc b/ron/cp-parser.cc
index 65fa874..eb04108 100644
--- a/ron/cp-parser.cc
+++ b/ron/cp-parser.cc
@@ -200,6 +200,8 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
                         goto tr0;
                     case 98u:
                         goto tr0;
+                    case 102u:
+                        goto tr0;
                     case 110u:
                         goto tr0;
                     case 114u:
diff --git a/ron/string-parser.cc b/ron/string-parser.cc
index 59e8198..1bba4f3 100644
--- a/ron/string-parser.cc
+++ b/ron/string-parser.cc
@@ -279,6 +279,8 @@ u16string TextFrame::utf16string(Atom str_atom) const {
                         goto tr0;
                     case 98u:
                         goto tr0;
+                    case 102u:
+                        goto tr0;
                     case 110u:
                         goto tr0;
                     case 114u:
diff --git a/ron/text-parser.cc b/ron/text-parser.cc
index 6afd92e..3e5b03c 100644
--- a/ron/text-parser.cc
+++ b/ron/text-parser.cc
@@ -1962,6 +1962,8 @@ Status TextFrame::Cursor::Next() {
                         goto tr44;
                     case 98u:
                         goto tr44;
+                    case 102u:
+                        goto tr44;
                     case 110u:
                         goto tr44;
                     case 114u:
@@ -4091,6 +4093,8 @@ Status TextFrame::Cursor::Next() {
                         goto tr159;
                     case 98u:
                         goto tr159;
+                    case 102u:
+                        goto tr159;
                     case 110u:
                         goto tr159;
                     case 114u:
-- 
2.43.0


From 93d04c5ede9bb066b9d64a3ec94e0a0d87178b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:13 +0000
Subject: [PATCH 21/28] fix: truncated UUID texts ("1+", "A/") were accepted

---
 ragel/uuid-parser.rl | 2 +-
 ron/uuid-parser.cc   | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/ragel/uuid-parser.rl b/ragel/uuid-parser.rl
index eceec05..18766a2 100644
--- a/ragel/uuid-parser.rl
+++ b/ragel/uuid-parser.rl
@@ -25,7 +25,7 @@ namespace ron {
             write exec;
         }%%
 
-        if (cs && value.size()<=Word::MAX_BASE64_SIZE && origin.size()<=Word::MAX_BASE64_SIZE) {
+        if ((cs >= UUID_first_final || data.empty()) && value.size()<=Word::MAX_BASE64_SIZE && origin.size()<=Word::MAX_BASE64_SIZE) {
             this->value = Word{ABC[variety], value};
             this->origin = Word{ABC[version], origin};
         } else {
diff --git a/ron/uuid-parser.cc b/ron/uuid-parser.cc
index 6b9cc52..fd5c22b 100644
--- a/ron/uuid-parser.cc
+++ b/ron/uuid-parser.cc
@@ -247,7 +247,8 @@ Uuid::Uuid(Slice data) noexcept {
 
 #line 26 "ragel/uuid-parser.rl"
 
-    if (cs && value.size() <= Word::MAX_BASE64_SIZE &&
+    if ((cs >= UUID_first_final || data.empty()) &&
+        value.size() <= Word::MAX_BASE64_SIZE &&
         origin.size() <= Word::MAX_BASE64_SIZE) {
         this->value = Word{ABC[variety], value};
         this->origin = Word{ABC[version], origin};
-- 
2.43.0


From 794b93ced7b0dcc97b429b6e1be60407223ebe2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:49 +0000
Subject: [PATCH 22/28] fix: a string's last char was lost when written as
 \uXXXX

---
 ragel/cp-parser.rl | 4 ++--
 ron/cp-parser.cc   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ragel/cp-parser.rl b/ragel/cp-parser.rl
index 4e96057..8151f83 100644
--- a/ragel/cp-parser.rl
+++ b/ragel/cp-parser.rl
@@ -18,7 +18,7 @@ Result TextFrame::Cursor::NextCodepoint (Atom& a) const {
     CharRef p = str_data.begin();
     CharRef pe = str_data.end();
     CharRef pb = p;
-    CharRef eof = 0;
+    CharRef eof = pe;
     Codepoint cp = 0;
     fsize_t cp_size{0};
     int cs=0;
@@ -30,7 +30,7 @@ Result TextFrame::Cursor::NextCodepoint (Atom& a) const {
         main := CP1*;
         write exec;
     }%%
-    if (cs!=CP_error) {
+    if (cp_size) {
         a.value.cp = cp;
         --a.value.cp_size;
         a.origin.as_range.Consume(p-pb);
diff --git a/ron/cp-parser.cc b/ron/cp-parser.cc
index eb04108..0d8c6a9 100644
--- a/ron/cp-parser.cc
+++ b/ron/cp-parser.cc
@@ -27,7 +27,7 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
     CharRef p = str_data.begin();
     CharRef pe = str_data.end();
     CharRef pb = p;
-    CharRef eof = 0;
+    CharRef eof = pe;
     Codepoint cp = 0;
     fsize_t cp_size{0};
     int cs = 0;
@@ -512,7 +512,7 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
 
 #line 32 "ragel/cp-parser.rl"
 
-    if (cs != CP_error) {
+    if (cp_size) {
         a.value.cp = cp;
         --a.value.cp_size;
         a.origin.as_range.Consume(p - pb);
-- 
2.43.0


From 08b26337876919fd97ffd8387fe4a2aab504a2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:15 +0000
Subject: [PATCH 23/28] fix: RocksDBStore::Open leaves the column family handle
 unset

---
 db/rocks_store.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/db/rocks_store.cc b/db/rocks_store.cc
index 3533ece..fa8a3fa 100644
--- a/db/rocks_store.cc
+++ b/db/rocks_store.cc
@@ -166,6 +166,7 @@ Status RocksDBStore<Frame>::Open(Uuid id) {
     rocksdb::DB* db;
     IFROK(DB::Open(options, ROCKSDB_STORE_DIR, &db));
     db_.reset(db);
+    cf_ = SharedPtr{db->DefaultColumnFamily(), [](void*) {}};
 
     if (!id.zero()) {
         return Status::NOT_IMPLEMENTED.comment("use OpenAll for now");
-- 
2.43.0


From ae0ff0481064206a47921e5f0e696572a6753b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:15 +0000
Subject: [PATCH 24/28] fix: Drop, batched Write and Iterator dereference a
 null database in a closed store

---
 db/rocks_store.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/db/rocks_store.cc b/db/rocks_store.cc
index fa8a3fa..99880c6 100644
--- a/db/rocks_store.cc
+++ b/db/rocks_store.cc
@@ -177,6 +177,7 @@ Status RocksDBStore<Frame>::Open(Uuid id) {
 
 template <typename Frame>
 Status RocksDBStore<Frame>::Drop() {
+    if (!db_) return Status::BAD_STATE.comment("closed");
     auto db = static_pointer_cast<rocksdb::DB>(db_);
     auto cf = static_pointer_cast<rocksdb::ColumnFamilyHandle>(cf_);
     IFROK(db->DropColumnFamily(cf.get()));
@@ -234,6 +235,7 @@ Status RocksDBStore<Frame>::Read(Key key, Frame& result) {
 
 template <typename Frame>
 Status RocksDBStore<Frame>::Write(const Records& batch) {
+    if (!db_) return Status::BAD_STATE.comment("closed");
     rocksdb::WriteBatch b;
     auto cf = static_pointer_cast<rocksdb::ColumnFamilyHandle>(cf_);
     for (auto i = batch.begin(); i != batch.end(); ++i) {
@@ -252,6 +254,7 @@ Status RocksDBStore<Frame>::Write(const Records& batch) {
 
 template <typename Frame>
 RocksDBStore<Frame>::Iterator::Iterator(RocksDBStore& host) {
+    if (!host.db_) return;  // stays closed
     auto db = static_pointer_cast<rocksdb::DB>(host.db_);
     auto cf = static_pointer_cast<rocksdb::ColumnFamilyHandle>(host.cf_);
     auto i = db->NewIterator(ro(), cf.get());
-- 
2.43.0


From 9dc488f882ae03b3fd6e82fd7e97384861810ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:15 +0000
Subject: [PATCH 25/28] fix: a batched Write ignores per-record errors and the
 end marker rule

---
 db/rocks_store.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/db/rocks_store.cc b/db/rocks_store.cc
index 99880c6..357ba07 100644
--- a/db/rocks_store.cc
+++ b/db/rocks_store.cc
@@ -239,10 +239,13 @@ Status RocksDBStore<Frame>::Write(const Records& batch) {
     rocksdb::WriteBatch b;
     auto cf = static_pointer_cast<rocksdb::ColumnFamilyHandle>(cf_);
     for (auto i = batch.begin(); i != batch.end(); ++i) {
+        if (i->first == Key::END && !i->second.empty()) {
+            return Status::BADARGS.comment("can't write to Key::END");
+        }
         uint64pair k = i->first.be();
         const String& data = i->second.data();
         rocksdb::Slice slice{data};
-        b.Merge(cf.get(), key2slice(k), slice);
+        IFROK(b.Merge(cf.get(), key2slice(k), slice));
         LOG('m', i->first, data);
     }
     auto db = static_pointer_cast<rocksdb::DB>(db_);
-- 
2.43.0


From 888b873df35287bca1ee96c1000a1a72b297604f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:09 +0000
Subject: [PATCH 26/28] fix: ScanRGA wrote out of bounds on long rm/un chains,
 and the first removal could not be undone

---
 rdt/rga.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rdt/rga.hpp b/rdt/rga.hpp
index 5fc9140..abcf1ac 100644
--- a/rdt/rga.hpp
+++ b/rdt/rga.hpp
@@ -185,15 +185,15 @@ Status ScanRGA(Booleans &tombstones, const Frame &frame) {
                     break;
                 case REMOVE:
                     if (kills.back()) break;
-                    at = ceiling[REMOVE] - (depth - ceiling[REMOVE]);
-                    if (at > 0) {  // aka ceiling[META_ENTRY]
-                        kills[at] = true;
+                    at = depth - ceiling[REMOVE];  // steps up the path
+                    if (at < ceiling[REMOVE]) {    // the root stays
+                        kills[ceiling[REMOVE] - at] = true;
                     }
                     break;
                 case UNDO:
-                    at = ceiling[UNDO] - (depth - ceiling[UNDO]);
-                    if (at > ceiling[REMOVE]) {
-                        kills[at] = true;
+                    at = depth - ceiling[UNDO];
+                    if (at <= ceiling[UNDO] - ceiling[REMOVE]) {
+                        kills[ceiling[UNDO] - at] = true;
                     }
                     break;
                 case TRASH:
-- 
2.43.0


From 399a96401b7fd499a4768c367d08387fc0139498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:27 +0000
Subject: [PATCH 27/28] fix: inc_stack iterator skips values, not spans

---
 ron/inc_stack.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ron/inc_stack.hpp b/ron/inc_stack.hpp
index 1e7a893..14d4621 100644
--- a/ron/inc_stack.hpp
+++ b/ron/inc_stack.hpp
@@ -42,11 +42,13 @@ class inc_stack {
         }
         void operator+=(len_t advance) {
             while (advance > 0) {
-                if (i_->size <= advance) {
-                    advance -= i_->size;
+                len_t rest = i_->size - off_;
+                if (rest <= advance) {
+                    advance -= rest;
+                    off_ = 0;
                     ++i_;
                 } else {
-                    i_ += advance;
+                    off_ += advance;
                     advance = 0;
                 }
             }
-- 
2.43.0


From 1d3086d57c47868682402c06e4655282a9bb54ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:27 +0000
Subject: [PATCH 28/28] fix: inc_stack skip_span does not wrap around on a
 great limit

---
 ron/inc_stack.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ron/inc_stack.hpp b/ron/inc_stack.hpp
index 14d4621..6f2d37c 100644
--- a/ron/inc_stack.hpp
+++ b/ron/inc_stack.hpp
@@ -55,7 +55,7 @@ class inc_stack {
         }
         len_t skip_span(len_t max_len) {
             len_t s = i_->size;
-            if (off_ + max_len < i_->size) {
+            if (max_len < i_->size - off_) {
                 off_ += max_len;
                 return max_len;
             } else {
-- 
2.43.0

