From 353edae601e1dbdb58a490cdc9cd4132ab535693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:35 +0000
Subject: [PATCH 01/21] fix: do not slice inside a multi-byte character when
 parsing a date and or time

---
 src/property.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/property.rs b/src/property.rs
index 7b39a64..0b4a675 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -539,8 +539,8 @@ impl FromStr for DateAndOrTime {
     type Err = Error;
 
     fn from_str(s: &str) -> Result<Self> {
-        if !s.is_empty() && &s[0..1] == "T" {
-            return Ok(Self::Time(parse_time(&s[1..])?));
+        if let Some(time) = s.strip_prefix('T') {
+            return Ok(Self::Time(parse_time(time)?));
         }
 
         match parse_date_time(s) {
-- 
2.43.0


From 6c2c8fd63919ce58e105072abdfba589b900fcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:49 +0000
Subject: [PATCH 02/21] fix: report a vCard that is not terminated by END:VCARD

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index b6a0680..0a096ae 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -157,7 +157,7 @@ impl<'s> VcardParser<'s> {
     ) -> Result<()> {
         while let Some(first) = lex.next() {
             if first == Ok(Token::End) {
-                break;
+                return Ok(());
             }
             if let Ok(Token::Version) = first {
                 return Err(Error::VersionMisplaced);
@@ -179,7 +179,7 @@ impl<'s> VcardParser<'s> {
                 return Err(e);
             }
         }
-        Ok(())
+        Err(Error::TokenExpected)
     }
 
     /// Parse a single property.
-- 
2.43.0


From f5795bc46e889b7cdb2f87ee52a90a4aeef7f154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:19 +0000
Subject: [PATCH 03/21] fix: validate vCards returned by the iterator and
 TryFrom

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0a096ae..3dc52f6 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -114,7 +114,6 @@ impl<'s> VcardParser<'s> {
             }
 
             let (card, _) = self.parse_one(&mut lex, Some(first))?;
-            card.validate()?;
             cards.push(card);
         }
 
@@ -145,6 +144,7 @@ impl<'s> VcardParser<'s> {
         let mut card: Vcard = Default::default();
 
         self.parse_properties(lex, &mut card)?;
+        card.validate()?;
 
         Ok((card, lex.span()))
     }
-- 
2.43.0


From 19f1d00f643a6078ef8d005dc06e6b8d02faed1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:49 +0000
Subject: [PATCH 04/21] fix: advance the iterator past vCards with errors and
 trailing newlines

---
 src/iter.rs   | 37 +++++++++++++++++--------------------
 src/parser.rs | 16 ++++++++++++++++
 2 files changed, 33 insertions(+), 20 deletions(-)

diff --git a/src/iter.rs b/src/iter.rs
index 7e32c7f..72fa5fd 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -1,9 +1,8 @@
 //! Iterator for parsing vCards.
 use crate::{
-    Error, Result, Vcard,
+    Result, Vcard,
     parser::{Token, VcardParser},
 };
-use std::ops::Range;
 
 /// Iterator for parsing vCards.
 pub struct VcardIterator<'s> {
@@ -19,35 +18,33 @@ impl<'s> VcardIterator<'s> {
             offset: 0,
         }
     }
-
-    /// Parse the next vCard.
-    fn parse_next(&self, offset: usize) -> Result<(Vcard, Range<usize>)> {
-        let mut lex = self.parser.lexer();
-        lex.bump(offset);
-        while let Some(first) = lex.next() {
-            if first == Ok(Token::NewLine) {
-                continue;
-            } else {
-                return self.parser.parse_one(&mut lex, Some(first));
-            }
-        }
-        Err(Error::TokenExpected)
-    }
 }
 
 impl<'s> Iterator for VcardIterator<'s> {
     type Item = Result<Vcard>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.offset >= self.parser.source.len() {
-            return None;
+        let mut lex = self.parser.lexer();
+        lex.bump(self.offset);
+
+        let mut first = lex.next();
+        while first == Some(Ok(Token::NewLine)) {
+            first = lex.next();
         }
-        match self.parse_next(self.offset) {
+
+        // Reached the end, allows for trailing newlines
+        first.as_ref()?;
+
+        match self.parser.parse_one(&mut lex, first) {
             Ok((card, span)) => {
                 self.offset = span.end;
                 Some(Ok(card))
             }
-            Err(e) => Some(Err(e)),
+            Err(e) => {
+                // Resume after the vCard that has errors
+                self.offset = self.parser.skip_card(&mut lex);
+                Some(Err(e))
+            }
         }
     }
 }
diff --git a/src/parser.rs b/src/parser.rs
index 3dc52f6..940fcea 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -149,6 +149,22 @@ impl<'s> VcardParser<'s> {
         Ok((card, lex.span()))
     }
 
+    /// Skip to the end of the current vCard so that parsing may
+    /// be resumed after an error.
+    pub(crate) fn skip_card(&self, lex: &mut Lexer<'_, Token>) -> usize {
+        // The end was already consumed (eg: the vCard is not valid)
+        if !lex.slice().eq_ignore_ascii_case(END) {
+            let mut line_start = lex.slice().ends_with('\n');
+            while let Some(token) = lex.next() {
+                if line_start && token == Ok(Token::End) {
+                    break;
+                }
+                line_start = token == Ok(Token::NewLine);
+            }
+        }
+        lex.span().end
+    }
+
     /// Parse the properties of a vCard.
     fn parse_properties(
         &self,
-- 
2.43.0


From 15bd98f9e37f757a8c2e5e30290f9a522bb80353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:03 +0000
Subject: [PATCH 05/21] fix: resume at the next line after a property error in
 loose mode

---
 src/parser.rs | 43 +++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 940fcea..c4bb5a1 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -165,6 +165,18 @@ impl<'s> VcardParser<'s> {
         lex.span().end
     }
 
+    /// Skip the remainder of a line that has errors so that parsing
+    /// resumes with the next property.
+    fn skip_line(&self, lex: &mut Lexer<'_, Token>) {
+        if !lex.slice().ends_with('\n') {
+            while let Some(token) = lex.next() {
+                if token == Ok(Token::NewLine) {
+                    break;
+                }
+            }
+        }
+    }
+
     /// Parse the properties of a vCard.
     fn parse_properties(
         &self,
@@ -179,20 +191,23 @@ impl<'s> VcardParser<'s> {
                 return Err(Error::VersionMisplaced);
             }
 
-            self.assert_token(
-                Some(&first),
-                &[
-                    Token::PropertyName,
-                    Token::ExtensionName,
-                    Token::TimeZone,
-                    Token::Geo,
-                ],
-            )?;
-
-            if let Err(e) = self.parse_property(lex, first, card)
-                && self.strict
-            {
-                return Err(e);
+            let result = self
+                .assert_token(
+                    Some(&first),
+                    &[
+                        Token::PropertyName,
+                        Token::ExtensionName,
+                        Token::TimeZone,
+                        Token::Geo,
+                    ],
+                )
+                .and_then(|_| self.parse_property(lex, first, card));
+
+            if let Err(e) = result {
+                if self.strict {
+                    return Err(e);
+                }
+                self.skip_line(lex);
             }
         }
         Err(Error::TokenExpected)
-- 
2.43.0


From 28d68f282c073ec2b18a00b62e24e6b811bce808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:36 +0000
Subject: [PATCH 06/21] fix: accept groups and any case for the TZ and GEO
 names

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index c4bb5a1..5bb5736 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -26,11 +26,11 @@ pub(crate) enum Token {
     Version,
 
     // Special case shared between property and parameter
-    #[token("TZ")]
+    #[regex("(?i:([a-z0-9-]+\\.)?TZ)")]
     TimeZone,
 
     // Special case shared between property and parameter
-    #[token("GEO")]
+    #[regex("(?i:([a-z0-9-]+\\.)?GEO)")]
     Geo,
 
     #[regex(
-- 
2.43.0


From 8c2d677de78de47f758ff44eeec9eba8825645ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:51 +0000
Subject: [PATCH 07/21] fix: keep the sign of UTC offsets between zero and
 minus one hour

---
 src/property.rs | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/src/property.rs b/src/property.rs
index 0b4a675..898b896 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -758,21 +758,7 @@ impl From<UtcOffset> for UtcOffsetProperty {
 
 impl fmt::Display for UtcOffsetProperty {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        let (h, m, _) = self.value.as_hms();
-        let sign = if h >= 0 { '+' } else { '-' };
-        let h = h.abs();
-        let m = m.abs();
-        let h = if h < 10 {
-            format!("0{}", h)
-        } else {
-            h.to_string()
-        };
-        let m = if m < 10 {
-            format!("0{}", m)
-        } else {
-            m.to_string()
-        };
-        write!(f, "{}{}{}", sign, h, m,)
+        format_utc_offset(f, &self.value)
     }
 }
 
-- 
2.43.0


From 3f0c674954ac8f1fa7f0592724cd6e796f4ca69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:24 +0000
Subject: [PATCH 08/21] fix: zeroize the groups and parameters of the BDAY,
 ANNIVERSARY, LANG and REV properties

---
 src/property.rs | 3 ++-
 src/vcard.rs    | 2 --
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/property.rs b/src/property.rs
index 898b896..9e56994 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -559,6 +559,7 @@ impl FromStr for DateAndOrTime {
 /// Date and or time property.
 #[derive(Debug, Eq, PartialEq, Clone)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(feature = "zeroize", derive(Zeroize, ZeroizeOnDrop))]
 pub struct DateAndOrTimeProperty {
     /// Group for this property.
     #[cfg_attr(
@@ -567,6 +568,7 @@ pub struct DateAndOrTimeProperty {
     )]
     pub group: Option<String>,
     /// The value for the property.
+    #[cfg_attr(feature = "zeroize", zeroize(skip))]
     pub value: Vec<DateAndOrTime>,
     /// The property parameters.
     #[cfg_attr(
@@ -669,7 +671,6 @@ impl fmt::Display for TextOrUriProperty {
 #[cfg_attr(feature = "serde", serde(untagged))]
 pub enum DateTimeOrTextProperty {
     /// Date time value.
-    #[cfg_attr(feature = "zeroize", zeroize(skip))]
     DateTime(DateAndOrTimeProperty),
     /// Text value.
     Text(TextProperty),
diff --git a/src/vcard.rs b/src/vcard.rs
index c7a68c2..7421cef 100644
--- a/src/vcard.rs
+++ b/src/vcard.rs
@@ -119,7 +119,6 @@ pub struct Vcard {
     )]
     pub impp: Vec<UriProperty>,
     /// Value of the LANG property.
-    #[cfg_attr(feature = "zeroize", zeroize(skip))]
     #[cfg_attr(
         feature = "serde",
         serde(default, skip_serializing_if = "Vec::is_empty")
@@ -198,7 +197,6 @@ pub struct Vcard {
     )]
     pub prod_id: Option<TextProperty>,
     /// Value of the REV property.
-    #[cfg_attr(feature = "zeroize", zeroize(skip))]
     #[cfg_attr(
         feature = "serde",
         serde(default, skip_serializing_if = "Option::is_none")
-- 
2.43.0


From 04798b18a98ae149e39fe31603ccd124ddba9fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:35 +0000
Subject: [PATCH 09/21] fix: parse dates in the format they are printed with

---
 src/date_time.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/date_time.rs b/src/date_time.rs
index 92aba7d..96f2e25 100644
--- a/src/date_time.rs
+++ b/src/date_time.rs
@@ -1,6 +1,9 @@
 use crate::Error;
 use std::{fmt, str::FromStr};
-use time::{OffsetDateTime, format_description::well_known::Rfc3339};
+use time::{
+    OffsetDateTime,
+    format_description::{self, well_known::Rfc3339},
+};
 
 #[cfg(feature = "serde")]
 use serde_with::{DeserializeFromStr, SerializeDisplay, serde_as};
@@ -84,6 +87,11 @@ impl FromStr for Date {
     type Err = Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        Ok(Self(OffsetDateTime::parse(s, &Rfc3339)?.date()))
+        let full_date = format_description::parse("[year]-[month]-[day]")?;
+        if let Ok(date) = time::Date::parse(s, &full_date) {
+            Ok(Self(date))
+        } else {
+            Ok(Self(OffsetDateTime::parse(s, &Rfc3339)?.date()))
+        }
     }
 }
-- 
2.43.0


From b4e0429d248aabf616f96640a24c952268231db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:13 +0000
Subject: [PATCH 10/21] fix: print the T prefix for times in BDAY and
 ANNIVERSARY

---
 src/property.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/property.rs b/src/property.rs
index 9e56994..128bb69 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -529,7 +529,7 @@ impl fmt::Display for DateAndOrTime {
                 format_date_time(val).map_err(|_| fmt::Error)?
             ),
             Self::Time(val) => {
-                write!(f, "{}", format_time(val).map_err(|_| fmt::Error)?)
+                write!(f, "T{}", format_time(val).map_err(|_| fmt::Error)?)
             }
         }
     }
-- 
2.43.0


From 9e6acbfee3a772841e754c72b1aee76ea55143b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:48 +0000
Subject: [PATCH 11/21] fix: unfold lines before splitting the input into
 tokens

---
 src/lib.rs    | 14 ++++++++++++++
 src/parser.rs | 16 +++++++++++-----
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5518dd1..ee6c9b1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -117,6 +117,8 @@ pub use date_time::{Date, DateTime};
 pub use time;
 pub use uri::Uri;
 
+use std::borrow::Cow;
+
 /// Result type for the vCard library.
 pub type Result<T> = std::result::Result<T, Error>;
 
@@ -162,6 +164,18 @@ pub(crate) fn unescape_value(value: &str) -> String {
     ac.replace_all(value, replace_with)
 }
 
+/// Remove the line breaks inserted by line folding.
+pub(crate) fn unfold_lines(value: &str) -> Cow<'_, str> {
+    use aho_corasick::AhoCorasick;
+    if !value.contains("\n ") && !value.contains("\n\t") {
+        return Cow::Borrowed(value);
+    }
+    let patterns = &["\r\n ", "\r\n\t", "\n ", "\n\t"];
+    let replace_with = &["", "", "", ""];
+    let ac = AhoCorasick::new(patterns).unwrap();
+    Cow::Owned(ac.replace_all(value, replace_with))
+}
+
 pub(crate) fn escape_control(value: &str) -> String {
     let values = value
         .chars()
diff --git a/src/parser.rs b/src/parser.rs
index 5bb5736..7ae120b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -11,7 +11,7 @@ use mime::Mime;
 
 use crate::{
     Error, Result, Uri, Vcard, error::LexError, escape_control, helper::*,
-    name::*, parameter::*, property::*, unescape_value,
+    name::*, parameter::*, property::*, unescape_value, unfold_lines,
 };
 
 type LexResult<T> = std::result::Result<T, LexError>;
@@ -92,13 +92,19 @@ pub(crate) enum Token {
 /// Parses vCards from a string.
 pub(crate) struct VcardParser<'s> {
     strict: bool,
-    pub(crate) source: &'s str,
+    source: Cow<'s, str>,
 }
 
 impl<'s> VcardParser<'s> {
     /// Create a new parser.
+    ///
+    /// Lines are unfolded before they are lexed as a line may be folded
+    /// between any two characters.
     pub fn new(source: &'s str, strict: bool) -> Self {
-        Self { source, strict }
+        Self {
+            source: unfold_lines(source),
+            strict,
+        }
     }
 
     /// Parse a UTF-8 encoded string into a list of vCards.
@@ -125,8 +131,8 @@ impl<'s> VcardParser<'s> {
     }
 
     /// Get a lexer for the current source.
-    pub(crate) fn lexer(&self) -> Lexer<'s, Token> {
-        Token::lexer(self.source)
+    pub(crate) fn lexer(&self) -> Lexer<'_, Token> {
+        Token::lexer(&self.source)
     }
 
     /// Parse a single vCard.
-- 
2.43.0


From 094449aa85bbbbf3ed0c6b265de848893b1caebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:25 +0000
Subject: [PATCH 12/21] fix: escape the values of language properties

---
 src/property.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/property.rs b/src/property.rs
index 128bb69..9cb70d6 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -389,7 +389,9 @@ impl fmt::Display for AnyProperty {
             Self::Timestamp(val) => format_timestamp_list(f, val),
             Self::UtcOffset(val) => format_utc_offset(f, val),
             Self::Uri(val) => write!(f, "{}", val),
-            Self::Language(val) => write!(f, "{}", val),
+            Self::Language(val) => {
+                write!(f, "{}", escape_value(val.as_str(), false))
+            }
         }
     }
 }
@@ -444,6 +446,12 @@ impl From<LanguageTag> for LanguageProperty {
     }
 }
 
+impl fmt::Display for LanguageProperty {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        write!(f, "{}", escape_value(self.value.as_str(), false))
+    }
+}
+
 /// Date time property.
 #[derive(Debug, Eq, PartialEq, Clone)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
@@ -1243,7 +1251,6 @@ display_impl!(KindProperty);
 property_impl!(TextProperty);
 
 property_impl!(LanguageProperty);
-display_impl!(LanguageProperty);
 
 property_impl!(DateTimeProperty);
 
-- 
2.43.0


From 3bb08ace97d36aea55ab9be85fe5eac1225b357c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:05 +0000
Subject: [PATCH 13/21] fix: match the home and work types without regard to
 case

---
 src/parameter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parameter.rs b/src/parameter.rs
index 5620496..7e72969 100644
--- a/src/parameter.rs
+++ b/src/parameter.rs
@@ -91,7 +91,7 @@ impl FromStr for TypeParameter {
     type Err = Error;
 
     fn from_str(s: &str) -> Result<Self> {
-        match s {
+        match &s.to_lowercase()[..] {
             HOME => Ok(Self::Home),
             WORK => Ok(Self::Work),
             _ => {
-- 
2.43.0


From 6376f3f4f1a1904202ebb6f7d9354cd854fb54ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:05 +0000
Subject: [PATCH 14/21] fix: split structured values before unescaping their
 components

---
 src/lib.rs      | 21 +++++++++++++++++++++
 src/parser.rs   | 30 ++++++++++++++----------------
 src/property.rs |  7 ++++---
 3 files changed, 39 insertions(+), 19 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ee6c9b1..2f10945 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -164,6 +164,27 @@ pub(crate) fn unescape_value(value: &str) -> String {
     ac.replace_all(value, replace_with)
 }
 
+/// Split a raw structured value on the delimiters that are not escaped
+/// and unescape each of the components.
+pub(crate) fn split_unescape(
+    value: &str,
+    limit: usize,
+    delimiter: char,
+) -> impl Iterator<Item = String> {
+    use aho_corasick::AhoCorasick;
+    let patterns = &["\\\\", "\\n", "\\N", "\\,", "\\;"];
+    let replace_with = &["\\", "\n", "\n", ",", ";"];
+    let ac = AhoCorasick::new(patterns).unwrap();
+    let mut escaped = false;
+    value
+        .splitn(limit, move |c: char| {
+            let found = c == delimiter && !escaped;
+            escaped = c == '\\' && !escaped;
+            found
+        })
+        .map(move |s| ac.replace_all(s, replace_with))
+}
+
 /// Remove the line breaks inserted by line folding.
 pub(crate) fn unfold_lines(value: &str) -> Cow<'_, str> {
     use aho_corasick::AhoCorasick;
diff --git a/src/parser.rs b/src/parser.rs
index 7ae120b..792bba9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -11,7 +11,8 @@ use mime::Mime;
 
 use crate::{
     Error, Result, Uri, Vcard, error::LexError, escape_control, helper::*,
-    name::*, parameter::*, property::*, unescape_value, unfold_lines,
+    name::*, parameter::*, property::*, split_unescape, unescape_value,
+    unfold_lines,
 };
 
 type LexResult<T> = std::result::Result<T, LexError>;
@@ -549,10 +550,13 @@ impl<'s> VcardParser<'s> {
         parameters: Option<Parameters>,
         group: Option<String>,
     ) -> Result<()> {
-        let value = self.parse_property_value(lex)?;
-
         let upper_name = name.to_uppercase();
 
+        // Structured values must be split before they are unescaped
+        let structured =
+            matches!(&upper_name[..], N | GENDER | ADR | ORG | CATEGORIES);
+        let value = self.parse_property_value(lex, structured)?;
+
         if token == Ok(Token::ExtensionName) || upper_name.starts_with("X-") {
             self.parse_extension_property_by_name(
                 card, name, value, parameters, group,
@@ -602,10 +606,7 @@ impl<'s> VcardParser<'s> {
                 if card.name.is_some() {
                     return Err(Error::OnlyOnce(upper_name));
                 }
-                let value = value
-                    .as_ref()
-                    .split(';')
-                    .map(|s| s.to_string())
+                let value = split_unescape(&value, usize::MAX, ';')
                     .collect::<Vec<_>>();
                 card.name = Some(TextListProperty {
                     value,
@@ -800,10 +801,7 @@ impl<'s> VcardParser<'s> {
                 });
             }
             ORG => {
-                let value = value
-                    .as_ref()
-                    .split(';')
-                    .map(|s| s.to_string())
+                let value = split_unescape(&value, usize::MAX, ';')
                     .collect::<Vec<_>>();
                 card.org.push(TextListProperty {
                     value,
@@ -832,10 +830,7 @@ impl<'s> VcardParser<'s> {
             // Explanatory
             // https://www.rfc-editor.org/rfc/rfc6350#section-6.7
             CATEGORIES => {
-                let value = value
-                    .as_ref()
-                    .split(',')
-                    .map(|s| s.to_string())
+                let value = split_unescape(&value, usize::MAX, ',')
                     .collect::<Vec<_>>();
                 card.categories.push(TextListProperty {
                     value,
@@ -1030,9 +1025,12 @@ impl<'s> VcardParser<'s> {
     }
 
     /// Get the slice for the property value.
+    ///
+    /// A raw value is not unescaped.
     fn parse_property_value<'a>(
         &self,
         lex: &'a mut Lexer<'_, Token>,
+        raw: bool,
     ) -> Result<Cow<'a, str>> {
         let mut first_range: Option<Range<usize>> = None;
         let mut last_range: Option<Range<usize>> = None;
@@ -1070,7 +1068,7 @@ impl<'s> VcardParser<'s> {
         }
 
         if let (Some(first), Some(last)) = (first_range, last_range) {
-            if needs_transform {
+            if needs_transform && !raw {
                 let mut value = String::new();
                 for (token, span) in tokens {
                     if token == Ok(Token::FoldedLine) {
diff --git a/src/property.rs b/src/property.rs
index 9cb70d6..c5b69f2 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -28,6 +28,7 @@ use crate::{
         parse_date_time, parse_time, parse_utc_offset,
     },
     parameter::Parameters,
+    split_unescape,
 };
 
 const INDIVIDUAL: &str = "individual";
@@ -135,7 +136,7 @@ impl FromStr for DeliveryAddress {
     type Err = Error;
 
     fn from_str(s: &str) -> Result<Self> {
-        let mut it = s.splitn(7, ';');
+        let mut it = split_unescape(s, 7, ';');
         let po_box = it
             .next()
             .ok_or_else(|| Error::InvalidAddress(s.to_string()))?;
@@ -1148,7 +1149,7 @@ impl FromStr for Gender {
             });
         }
 
-        let mut it = s.splitn(2, ';');
+        let mut it = split_unescape(s, 2, ';');
         let sex = it.next().ok_or(Error::NoSex)?;
         let sex: Sex = sex.parse()?;
         let mut gender = Gender {
@@ -1156,7 +1157,7 @@ impl FromStr for Gender {
             identity: None,
         };
         if let Some(identity) = it.next() {
-            gender.identity = Some(identity.to_string());
+            gender.identity = Some(identity);
         }
 
         Ok(gender)
-- 
2.43.0


From 6a12784fb6f903feb46f8d66366c8b509914f1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 15/21] fix: do not write raw carriage returns in text values

---
 src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2f10945..53d907c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -144,13 +144,13 @@ pub fn iter(source: &str, strict: bool) -> VcardIterator<'_> {
 pub(crate) fn escape_value(value: &str, semi_colons: bool) -> String {
     use aho_corasick::AhoCorasick;
     if semi_colons {
-        let patterns = &["\\", "\n", ",", ";"];
-        let replace_with = &["\\\\", "\\n", "\\,", "\\;"];
+        let patterns = &["\\", "\r", "\n", ",", ";"];
+        let replace_with = &["\\\\", "", "\\n", "\\,", "\\;"];
         let ac = AhoCorasick::new(patterns).unwrap();
         ac.replace_all(value, replace_with)
     } else {
-        let patterns = &["\\", "\n", ","];
-        let replace_with = &["\\\\", "\\n", "\\,"];
+        let patterns = &["\\", "\r", "\n", ","];
+        let replace_with = &["\\\\", "", "\\n", "\\,"];
         let ac = AhoCorasick::new(patterns).unwrap();
         ac.replace_all(value, replace_with)
     }
-- 
2.43.0


From e15417d0b46745ca2a8502aacd5dae2a015a0037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:25 +0000
Subject: [PATCH 16/21] fix: escape and quote text parameter values

---
 src/lib.rs       |  4 ++--
 src/parameter.rs | 61 +++++++++++++++++++++++++++++++++++++++++-------
 2 files changed, 54 insertions(+), 11 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 53d907c..86d274f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -158,8 +158,8 @@ pub(crate) fn escape_value(value: &str, semi_colons: bool) -> String {
 
 pub(crate) fn unescape_value(value: &str) -> String {
     use aho_corasick::AhoCorasick;
-    let patterns = &["\r", "\n ", "\n\t", "\\n", "\\N", "\\,"];
-    let replace_with = &["", "", "", "\n", "\n", ","];
+    let patterns = &["\r", "\n ", "\n\t", "\\n", "\\N", "\\,", "\\\\"];
+    let replace_with = &["", "", "", "\n", "\n", ",", "\\"];
     let ac = AhoCorasick::new(patterns).unwrap();
     ac.replace_all(value, replace_with)
 }
diff --git a/src/parameter.rs b/src/parameter.rs
index 7e72969..0cec09e 100644
--- a/src/parameter.rs
+++ b/src/parameter.rs
@@ -562,7 +562,12 @@ impl fmt::Display for Parameters {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         use crate::name::*;
         if let Some(language) = &self.language {
-            write!(f, ";{}={}", LANGUAGE, language)?;
+            write!(
+                f,
+                ";{}={}",
+                LANGUAGE,
+                quote_parameter(language.as_str())
+            )?;
         }
         if let Some(value) = &self.value {
             write!(f, ";{}={}", VALUE, value)?;
@@ -571,22 +576,37 @@ impl fmt::Display for Parameters {
             write!(f, ";{}={}", PREF, pref)?;
         }
         if let Some(alt_id) = &self.alt_id {
-            write!(f, ";{}=\"{}\"", ALTID, alt_id)?;
+            write!(f, ";{}=\"{}\"", ALTID, escape_parameter(alt_id))?;
         }
         if let Some(pids) = &self.pid {
             write!(f, ";{}={}", PID, comma_delimited(pids))?;
         }
         if let Some(types) = &self.types {
-            write!(f, ";{}={}", TYPE, comma_delimited(types))?;
+            write!(
+                f,
+                ";{}={}",
+                TYPE,
+                quote_parameter(&comma_delimited(types))
+            )?;
         }
         if let Some(media_type) = &self.media_type {
-            write!(f, ";{}={}", MEDIATYPE, media_type)?;
+            write!(
+                f,
+                ";{}={}",
+                MEDIATYPE,
+                quote_parameter(media_type.as_ref())
+            )?;
         }
         if let Some(calscale) = &self.calscale {
-            write!(f, ";{}={}", CALSCALE, calscale)?;
+            write!(f, ";{}={}", CALSCALE, quote_parameter(calscale))?;
         }
         if let Some(sort_as) = &self.sort_as {
-            write!(f, ";{}=\"{}\"", SORT_AS, comma_delimited(sort_as))?;
+            write!(
+                f,
+                ";{}=\"{}\"",
+                SORT_AS,
+                escape_parameter(&comma_delimited(sort_as))
+            )?;
         }
         if let Some(geo) = &self.geo {
             write!(f, ";{}=\"{}\"", GEO, geo)?;
@@ -594,7 +614,7 @@ impl fmt::Display for Parameters {
         if let Some(tz) = &self.timezone {
             match tz {
                 TimeZoneParameter::Text(val) => {
-                    write!(f, ";{}={}", TZ, val)?;
+                    write!(f, ";{}={}", TZ, escape_parameter(val))?;
                 }
                 TimeZoneParameter::UtcOffset(val) => {
                     write!(f, ";{}=", TZ)?;
@@ -611,15 +631,38 @@ impl fmt::Display for Parameters {
         }
         if let Some(extensions) = &self.extensions {
             for (name, value) in extensions {
-                write!(f, ";{}=\"{}\"", name, comma_delimited(value))?;
+                write!(
+                    f,
+                    ";{}=\"{}\"",
+                    name,
+                    escape_parameter(&comma_delimited(value))
+                )?;
             }
         }
         Ok(())
     }
 }
 
+/// Escape a parameter value.
+///
+/// A double quote cannot be represented in a parameter value so it
+/// becomes a single quote.
 fn escape_parameter(s: &str) -> String {
-    s.replace('\n', "\\n")
+    s.replace('\\', "\\\\")
+        .replace('\r', "")
+        .replace('\n', "\\n")
+        .replace('"', "'")
+}
+
+/// Escape a parameter value and enclose it in quotes when it
+/// contains characters that delimit parameters.
+fn quote_parameter(s: &str) -> String {
+    let value = escape_parameter(s);
+    if value.contains([',', ';', ':']) {
+        format!("\"{}\"", value)
+    } else {
+        value
+    }
 }
 
 fn comma_delimited(items: &[impl std::fmt::Display]) -> String {
-- 
2.43.0


From 03e13b1612bab7ee56098c0f444c046e9f1286aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:10 +0000
Subject: [PATCH 17/21] fix: a line break ends a parameter value instead of
 becoming part of it

---
 src/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 792bba9..eca1153 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -480,6 +480,11 @@ impl<'s> VcardParser<'s> {
                 )));
             }
 
+            // A parameter value never extends past the end of the line
+            if token == Ok(Token::NewLine) {
+                return Err(Error::DelimiterExpected);
+            }
+
             if token == Ok(Token::FoldedLine)
                 || token == Ok(Token::EscapedNewLine)
                 || token == Ok(Token::EscapedComma)
-- 
2.43.0


From 9cec9e50497ce8932593a489fa7ec331aed4519e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:21 +0000
Subject: [PATCH 18/21] fix: read KIND and GENDER values in any case

---
 src/property.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/property.rs b/src/property.rs
index c5b69f2..b5a7d33 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -1072,7 +1072,7 @@ impl FromStr for Kind {
     type Err = Error;
 
     fn from_str(s: &str) -> Result<Self> {
-        match s {
+        match &s.to_lowercase()[..] {
             INDIVIDUAL => Ok(Self::Individual),
             GROUP => Ok(Self::Group),
             ORG => Ok(Self::Org),
@@ -1204,7 +1204,7 @@ impl FromStr for Sex {
     type Err = Error;
 
     fn from_str(s: &str) -> Result<Self> {
-        match s {
+        match &s.to_uppercase()[..] {
             "" => Ok(Self::None),
             "M" => Ok(Self::Male),
             "F" => Ok(Self::Female),
-- 
2.43.0


From ec6df6ce35ad4292df299a516a0e3ddda476e1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:46 +0000
Subject: [PATCH 19/21] fix: read an empty quoted parameter value as empty

---
 src/parser.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index eca1153..1341a57 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -510,14 +510,11 @@ impl<'s> VcardParser<'s> {
 
             if completed {
                 let source = lex.source();
-                let begin = first_range.unwrap().start;
-                let end = span.start;
-                let mut value = &source[begin..end];
-
+                let first = first_range.unwrap();
                 // Remove double quotes if necessary
-                if value.len() >= 2 && quoted {
-                    value = &source[begin + 1..end];
-                }
+                let begin = if quoted { first.end } else { first.start };
+                let end = span.start;
+                let value = &source[begin..end];
 
                 // Must consumer the next token
                 if quoted {
-- 
2.43.0


From 153bd17e518dd05cc27d46f5d3e78baab3a5cf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:52 +0000
Subject: [PATCH 20/21] fix: quote TZ parameter text that contains delimiters

A time zone text with a semicolon or a colon ended its parameter when
it was written. It is now written in quotes, and a quoted TZ value
that is not a URI is read as text.
---
 src/parameter.rs | 2 +-
 src/parser.rs    | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/parameter.rs b/src/parameter.rs
index 0cec09e..ff21357 100644
--- a/src/parameter.rs
+++ b/src/parameter.rs
@@ -614,7 +614,7 @@ impl fmt::Display for Parameters {
         if let Some(tz) = &self.timezone {
             match tz {
                 TimeZoneParameter::Text(val) => {
-                    write!(f, ";{}={}", TZ, escape_parameter(val))?;
+                    write!(f, ";{}={}", TZ, quote_parameter(val))?;
                 }
                 TimeZoneParameter::UtcOffset(val) => {
                     write!(f, ";{}=", TZ)?;
diff --git a/src/parser.rs b/src/parser.rs
index 1341a57..14d116e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -398,9 +398,11 @@ impl<'s> VcardParser<'s> {
                         }
                         TZ => {
                             if quoted {
-                                let value = value.parse()?;
-                                params.timezone =
-                                    Some(TimeZoneParameter::Uri(value));
+                                // Text is quoted when it contains delimiters
+                                params.timezone = Some(match value.parse() {
+                                    Ok(uri) => TimeZoneParameter::Uri(uri),
+                                    Err(_) => TimeZoneParameter::Text(value),
+                                });
                             } else {
                                 match parse_utc_offset(&value) {
                                     Ok(offset) => {
-- 
2.43.0


From 3da141761772e430233ac14e46c192a1d8d639db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:44 +0000
Subject: [PATCH 21/21] fix: accept VALUE=text on TZ properties

---
 src/parser.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 14d116e..ba6cb08 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -754,6 +754,15 @@ impl<'s> VcardParser<'s> {
                                 },
                             ));
                         }
+                        ValueType::Text => {
+                            card.timezone.push(TimeZoneProperty::Text(
+                                TextProperty {
+                                    value: value.into_owned(),
+                                    parameters,
+                                    group,
+                                },
+                            ));
+                        }
                         _ => {
                             return Err(Error::UnsupportedValueType(
                                 value_type.to_string(),
-- 
2.43.0

