From c01dec9ed72c5fbde9e0b0e215e057418fa4ae62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:31 +0000
Subject: [PATCH 1/7] fix: English stemmer must not treat "sses", "ies" and
 "eed" as their own suffix

elasticlunr.js only applies these rules when at least one character precedes
the suffix, so it stems "sses", "ies", "eed" and "eeds" to "sse", "ie", "e" and
"e". The stemmer here produced "ss", "i", "eed" and "eed", and a search for those
words could not find them.
---
 src/lang/en.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lang/en.rs b/src/lang/en.rs
index 388f3e4..8000688 100644
--- a/src/lang/en.rs
+++ b/src/lang/en.rs
@@ -273,15 +273,17 @@ impl PorterStemmer {
     /// ~~~~
     fn step1ab(&mut self) {
         if self.b[self.k - 1] == b's' {
-            if self.ends("sses") {
+            // A suffix rule needs at least one character before the suffix, so "sses"
+            // and "ies" themselves only lose their final "s".
+            if self.k > 4 && self.ends("sses") {
                 self.k -= 2;
-            } else if self.ends("ies") {
+            } else if self.k > 3 && self.ends("ies") {
                 self.set_to("i");
             } else if self.b[self.k - 2] != b's' {
                 self.k -= 1;
             }
         }
-        if self.ends("eed") {
+        if self.k > 3 && self.ends("eed") {
             if self.measure() > 0 {
                 self.k -= 1
             }
-- 
2.43.0


From bc8b0e60b17832efe966a3d10df9c509ed6b7086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:31 +0000
Subject: [PATCH 2/7] fix: English stemmer must not collapse a doubled "y"

elasticlunr.js undoubles the consonant left by -ed or -ing with the regex
([^aeiouylsz])\1$, which leaves "yy" alone: "byying" stems to "byi" there, but
stemmed to "by" here.
---
 src/lang/en.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lang/en.rs b/src/lang/en.rs
index 8000688..9c70704 100644
--- a/src/lang/en.rs
+++ b/src/lang/en.rs
@@ -298,7 +298,7 @@ impl PorterStemmer {
             } else if self.double_consonant(self.k - 1) {
                 self.k -= 1;
                 match self.b[self.k - 1] {
-                    b'l' | b's' | b'z' => self.k += 1,
+                    b'l' | b's' | b'y' | b'z' => self.k += 1,
                     _ => (),
                 }
             } else if self.measure() == 1 && self.cvc(self.k - 1) {
-- 
2.43.0


From f99ace729b59d823ecd9bfd5ed29076d3a8b196e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:31 +0000
Subject: [PATCH 3/7] fix: English stemmer must leave two-character non-ASCII
 words alone
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The minimum length was checked in bytes, so "és" (three bytes) was stemmed to
"é" while elasticlunr.js, which counts UTF-16 units, leaves it unchanged.
---
 src/lang/en.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lang/en.rs b/src/lang/en.rs
index 9c70704..13ab85b 100644
--- a/src/lang/en.rs
+++ b/src/lang/en.rs
@@ -539,7 +539,8 @@ impl PorterStemmer {
 }
 
 fn get(word: &str) -> Result<String, &str> {
-    if word.len() > 2 {
+    // elasticlunr.js leaves words of less than three UTF-16 units alone.
+    if word.encode_utf16().count() > 2 {
         match PorterStemmer::new(word) {
             Ok(w) => {
                 let mut mw = w;
-- 
2.43.0


From 4cbc87d36763fb6735c3ff14ad1e695587fbac51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:38 +0000
Subject: [PATCH 4/7] fix: English stemmer must look at characters, not bytes,
 next to a suffix
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

After -ed or -ing, elasticlunr.js undoubles a repeated character and restores a
final "e" after consonant-vowel-consonant for any character of one UTF-16 unit:
"baççed" stems to "baç" and "baçed" to "baçe", but were left as "baçç" and "baç"
here. In the same way "éys" stems to "éy" there (one character before the "y" is
not enough) but did to "éi" here.
---
 src/lang/en.rs | 44 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/src/lang/en.rs b/src/lang/en.rs
index 13ab85b..bb76ace 100644
--- a/src/lang/en.rs
+++ b/src/lang/en.rs
@@ -190,15 +190,32 @@ impl PorterStemmer {
         false
     }
 
-    /// stem.double_consonant(i) is TRUE <=> i,(i-1) contain a double consonant.
+    /// stem.char_start(i) is the index of the first byte of the character which
+    /// has its last byte at i. `b` holds arbitrary UTF-8.
+    #[inline]
+    fn char_start(&self, mut i: usize) -> usize {
+        while self.b[i] & 0xC0 == 0x80 {
+            i -= 1;
+        }
+        i
+    }
+
+    /// stem.double_consonant(i) is TRUE <=> the character ending at i is a
+    /// consonant and repeats the character before it.
     ///
-    /// `b` holds arbitrary UTF-8, so restrict this to ASCII: two equal non-ASCII
-    /// bytes are usually the trailing continuation bytes of one multi-byte
-    /// character (e.g. `त` is `E0 A4 A4`), and step1ab would then chop `k` into
-    /// the middle of that character, leaving `b[..k]` invalid UTF-8.
+    /// This compares whole characters: two equal non-ASCII bytes are usually the
+    /// trailing continuation bytes of one multi-byte character (e.g. `त` is
+    /// `E0 A4 A4`), and dropping one would leave `b[..k]` invalid UTF-8. Characters
+    /// of four bytes are two different UTF-16 units to elasticlunr.js, and are
+    /// never doubled.
     #[inline]
     fn double_consonant(&self, i: usize) -> bool {
-        i >= 1 && self.b[i] == self.b[i - 1] && self.b[i].is_ascii() && self.is_consonant(i)
+        let start = self.char_start(i);
+        let len = i + 1 - start;
+        len <= 3
+            && start >= len
+            && self.b[start - len..start] == self.b[start..=i]
+            && self.is_consonant(i)
     }
 
     /// cvc(z, i) is TRUE <=> i-2,i-1,i has the form consonant - vowel - consonant
@@ -210,7 +227,15 @@ impl PorterStemmer {
     ///    snow, box, tray.
     /// ~~~
     fn cvc(&self, i: usize) -> bool {
-        if i < 2 || !self.is_consonant(i) || self.is_consonant(i - 1) || !self.is_consonant(i - 2) {
+        // The last consonant may be a multi-byte character, as long as it is one
+        // UTF-16 unit.
+        let c = self.char_start(i);
+        if c < 2
+            || i - c > 2
+            || !self.is_consonant(i)
+            || self.is_consonant(c - 1)
+            || !self.is_consonant(c - 2)
+        {
             false
         } else {
             !matches!(self.b[i], b'w' | b'x' | b'y')
@@ -296,7 +321,7 @@ impl PorterStemmer {
             } else if self.ends("iz") {
                 self.set_to("ize");
             } else if self.double_consonant(self.k - 1) {
-                self.k -= 1;
+                self.k = self.char_start(self.k - 1);
                 match self.b[self.k - 1] {
                     b'l' | b's' | b'y' | b'z' => self.k += 1,
                     _ => (),
@@ -320,6 +345,9 @@ impl PorterStemmer {
     fn step1c(&mut self) {
         if self.k > 2
             && self.ends("y")
+            // A single character before the "y" does not count, however many bytes
+            // it takes, unless it is two UTF-16 units.
+            && (self.char_start(self.k - 2) > 0 || self.k > 4)
             && !matches!(self.b[self.k - 2], b'a' | b'e' | b'i' | b'o' | b'u')
         {
             self.b[self.k - 1] = b'i';
-- 
2.43.0


From e0f7534b74b67c8557bdbd1b948c7164244f1f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:47 +0000
Subject: [PATCH 5/7] fix: Arabic stemmer must remove every diacritic, not just
 the first

js/lunr.ar.js, which this has to be compatible with, removes all of them: of a
vocalized word only the first diacritic was removed here, so that a search for
the word could not find it.
---
 src/lang/ar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lang/ar.rs b/src/lang/ar.rs
index 2fa0074..34702ad 100644
--- a/src/lang/ar.rs
+++ b/src/lang/ar.rs
@@ -58,7 +58,7 @@ impl PipelineFn for Stemmer {
 
     fn filter(&self, token: String) -> Option<String> {
         // remove diacritics and elongating character
-        let result = self.diacritics.replace(&token, "");
+        let result = self.diacritics.replace_all(&token, "");
         // replace all variations of alef (آأإٱى) to a plain alef (ا)
         let result = self.alefs.replace(&result, "\u{0627}");
         if result.is_empty() {
-- 
2.43.0


From 2db7735f1b8d66dc5917347c02243b3a884dcb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:47 +0000
Subject: [PATCH 6/7] fix: removing a document from the store must remove its
 field lengths

They stayed in the exported docInfo, and were reported again for a later document
with the same reference. elasticlunr.js deletes them with the document.
---
 src/document_store.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/document_store.rs b/src/document_store.rs
index 8adc722..1794d40 100644
--- a/src/document_store.rs
+++ b/src/document_store.rs
@@ -61,6 +61,7 @@ impl DocumentStore {
         }
 
         self.docs.remove(doc_ref);
+        self.doc_info.remove(doc_ref);
     }
 
     pub fn add_field_length(&mut self, doc_ref: &str, field: &str, length: usize) {
-- 
2.43.0


From e4608b6461c0bc4f8f021102496fe3fc282f5fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:25 +0000
Subject: [PATCH 7/7] fix: a serialized Index could not be deserialized

Deserializing the output of to_json failed on the pipeline ("trailing
characters"), because its stages are serialized as a list of names and were
skipped when deserializing; from a reader it also failed on the language name.
Recreate the pipeline from the language, and one default tokenizer per field.
---
 src/lib.rs | 78 ++++++++++++++++++++++++++++++++----------------------
 1 file changed, 46 insertions(+), 32 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3234375..8a21678 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -44,6 +44,8 @@ pub mod pipeline;
 
 use std::collections::BTreeMap;
 
+use serde::de::{Deserialize, Deserializer, Error};
+
 use document_store::DocumentStore;
 use inverted_index::InvertedIndex;
 use lang::English;
@@ -194,7 +196,11 @@ impl IndexBuilder {
 }
 
 /// An elasticlunr search index.
-#[derive(Serialize, Deserialize)]
+///
+/// A serialized index can be deserialized again if its language is one of
+/// [`lang::languages`]. Custom tokenizers are not serialized: all fields of a
+/// deserialized index use the tokenizer of its language.
+#[derive(Serialize)]
 #[serde(rename_all = "camelCase")]
 pub struct Index {
     fields: Vec<String>,
@@ -206,15 +212,50 @@ pub struct Index {
     version: &'static str,
     index: BTreeMap<String, InvertedIndex>,
     document_store: DocumentStore,
-    #[serde(with = "ser_lang")]
+    #[serde(serialize_with = "ser_lang::serialize")]
     lang: Box<dyn Language>,
 }
 
+/// The parts of a serialized [`Index`] that it can be restored from. The
+/// pipeline is serialized as names only, so it is recreated from the language.
+#[derive(Deserialize)]
+#[serde(rename_all = "camelCase")]
+struct SavedIndex {
+    fields: Vec<String>,
+    #[serde(rename = "ref")]
+    ref_field: String,
+    index: BTreeMap<String, InvertedIndex>,
+    document_store: DocumentStore,
+    lang: String,
+}
+
+// Not derived, because that would only allow input that lives for `'static`, as
+// `version` does.
+impl<'de> Deserialize<'de> for Index {
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where
+        D: Deserializer<'de>,
+    {
+        let saved = SavedIndex::deserialize(deserializer)?;
+        let lang = lang::from_name(&saved.lang)
+            .ok_or_else(|| D::Error::custom(format!("Unknown language name: {}", saved.lang)))?;
+
+        Ok(Index {
+            field_tokenizers: saved.fields.iter().map(|_| None).collect(),
+            fields: saved.fields,
+            pipeline: lang.make_pipeline(),
+            ref_field: saved.ref_field,
+            version: crate::ELASTICLUNR_VERSION,
+            index: saved.index,
+            document_store: saved.document_store,
+            lang,
+        })
+    }
+}
+
 mod ser_lang {
     use crate::Language;
-    use serde::de;
-    use serde::{Deserializer, Serializer};
-    use std::fmt;
+    use serde::Serializer;
 
     // `serde(with = ...)` hands us a reference to the field itself, which is a
     // `Box<dyn Language>`, so the extra indirection is not ours to remove.
@@ -225,33 +266,6 @@ mod ser_lang {
     {
         serializer.serialize_str(&lang.name())
     }
-
-    pub fn deserialize<'de, D>(deserializer: D) -> Result<Box<dyn Language>, D::Error>
-    where
-        D: Deserializer<'de>,
-    {
-        deserializer.deserialize_str(LanguageVisitor)
-    }
-
-    struct LanguageVisitor;
-
-    impl<'de> de::Visitor<'de> for LanguageVisitor {
-        type Value = Box<dyn Language>;
-
-        fn expecting(&self, formatter: &mut fmt::Formatter) -> fmt::Result {
-            formatter.write_str("a capitalized language name")
-        }
-
-        fn visit_borrowed_str<E>(self, v: &'de str) -> Result<Self::Value, E>
-        where
-            E: de::Error,
-        {
-            match crate::lang::from_name(v) {
-                Some(l) => Ok(l),
-                None => Err(E::custom(format!("Unknown language name: {}", v))),
-            }
-        }
-    }
 }
 
 impl Index {
-- 
2.43.0

