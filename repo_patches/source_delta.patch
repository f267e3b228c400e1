From 2a0bd636d4d06a3509f6824539dca6824ddd9d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:59 +0000
Subject: [PATCH 01/16] fix: match keywords by ASCII case only, so that no
 character can be split

---
 src/tokenizer/mod.rs | 16 ++++++++++++++--
 src/tokenizer/mtl.rs |  4 ++--
 src/tokenizer/obj.rs |  4 ++--
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/tokenizer/mod.rs b/src/tokenizer/mod.rs
index 6b5ab60..4c0931a 100644
--- a/src/tokenizer/mod.rs
+++ b/src/tokenizer/mod.rs
@@ -15,9 +15,9 @@ use nom::{
     bytes::complete::tag,
     character::complete::digit1,
     combinator::{map, opt},
-    error::Error,
+    error::{Error, ErrorKind},
     multi::{fold_many0, fold_many1},
-    Input, Parser,
+    IResult, Input, Parser,
 };
 pub use obj::parse_obj;
 
@@ -568,6 +568,18 @@ impl<'a> Input for TokenSet<'a> {
     }
 }
 
+/// Matches a keyword in any mixture of upper and lower case.
+///
+/// Keywords are ASCII. nom's parser of the same name folds the case of any
+/// character, and then splits the input in the middle of one that is longer
+/// than the letter it folds to (such as the Kelvin sign).
+fn tag_no_case<'a>(keyword: &'static str) -> impl Fn(&'a str) -> IResult<&'a str, &'a str> {
+    move |input: &'a str| match input.get(..keyword.len()) {
+        Some(word) if word.eq_ignore_ascii_case(keyword) => Ok((&input[keyword.len()..], word)),
+        _ => Err(nom::Err::Error(Error::new(input, ErrorKind::Tag))),
+    }
+}
+
 fn parse_digit<'a>() -> impl Parser<&'a str, Output = Token<'a>, Error = Error<&'a str>> {
     map(
         (
diff --git a/src/tokenizer/mtl.rs b/src/tokenizer/mtl.rs
index 47ce969..c8ec788 100644
--- a/src/tokenizer/mtl.rs
+++ b/src/tokenizer/mtl.rs
@@ -3,7 +3,7 @@ use std::result::Result;
 
 use nom::{
     branch::alt,
-    bytes::{is_not, tag, tag_no_case, take_till},
+    bytes::{is_not, tag, take_till},
     character::{
         complete::{line_ending, multispace1},
         multispace0,
@@ -14,7 +14,7 @@ use nom::{
     Parser,
 };
 
-use super::{Token, TokenSet, TokenizeError};
+use super::{tag_no_case, Token, TokenSet, TokenizeError};
 
 pub fn parse_mtl(input: &str) -> Result<TokenSet, TokenizeError> {
     match fold_many0(
diff --git a/src/tokenizer/obj.rs b/src/tokenizer/obj.rs
index ef13c95..2d1fbab 100644
--- a/src/tokenizer/obj.rs
+++ b/src/tokenizer/obj.rs
@@ -3,7 +3,7 @@ use std::result::Result;
 
 use nom::{
     branch::alt,
-    bytes::{complete::is_not, tag, tag_no_case, take_till},
+    bytes::{complete::is_not, tag, take_till},
     character::{
         complete::{line_ending, multispace1},
         multispace0,
@@ -14,7 +14,7 @@ use nom::{
     Parser,
 };
 
-use super::{Token, TokenSet, TokenizeError};
+use super::{tag_no_case, Token, TokenSet, TokenizeError};
 
 pub fn parse_obj(input: &str) -> Result<TokenSet, TokenizeError> {
     match fold_many0(
-- 
2.43.0


From f6a1769c94860c31c3b17e5ad784eeb00c8eed51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:01 +0000
Subject: [PATCH 02/16] fix: read whole numbers outside the 32-bit range as the
 number they denote, not as 0

---
 src/tokenizer/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/tokenizer/mod.rs b/src/tokenizer/mod.rs
index 4c0931a..005e13a 100644
--- a/src/tokenizer/mod.rs
+++ b/src/tokenizer/mod.rs
@@ -590,11 +590,12 @@ fn parse_digit<'a>() -> impl Parser<&'a str, Output = Token<'a>, Error = Error<&
             }),
         ),
         |(sign, s): (Option<&str>, Vec<&str>)| {
-            let mut val = s.join("").parse::<i32>().unwrap_or_default();
-            if sign == Some("-") {
-                val *= -1;
+            let text = sign.unwrap_or_default().to_string() + &s.join("");
+            match text.parse::<i32>() {
+                Ok(val) => Token::Int(val),
+                // Too large for an integer, but still a number.
+                Err(_) => Token::Float(text.parse::<f32>().unwrap_or_default()),
             }
-            Token::Int(val)
         },
     )
 }
-- 
2.43.0


From 5d1c4de2873f1f1546b156707677609909141ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:25 +0000
Subject: [PATCH 03/16] fix: read exponents without a decimal point, and do not
 take a lone point for a number

---
 src/tokenizer/mod.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/tokenizer/mod.rs b/src/tokenizer/mod.rs
index 005e13a..687cc73 100644
--- a/src/tokenizer/mod.rs
+++ b/src/tokenizer/mod.rs
@@ -16,7 +16,7 @@ use nom::{
     character::complete::digit1,
     combinator::{map, opt},
     error::{Error, ErrorKind},
-    multi::{fold_many0, fold_many1},
+    multi::fold_many1,
     IResult, Input, Parser,
 };
 pub use obj::parse_obj;
@@ -608,7 +608,7 @@ fn parse_float<'a>() -> impl Parser<&'a str, Output = Token<'a>, Error = Error<&
             alt((
                 map(
                     (
-                        fold_many0(digit1, Vec::new, |mut acc: Vec<_>, item| {
+                        fold_many1(digit1, Vec::new, |mut acc: Vec<_>, item| {
                             acc.push(item);
                             acc
                         }),
@@ -666,6 +666,17 @@ fn parse_float<'a>() -> impl Parser<&'a str, Output = Token<'a>, Error = Error<&
                     ),
                     |(f, _, s, e)| (f.unwrap_or_default(), s, e.unwrap_or_default()),
                 ),
+                map(
+                    (
+                        digit1,
+                        alt((tag("e"), tag("E"))),
+                        opt(alt((tag("+"), tag("-")))),
+                        digit1,
+                    ),
+                    |(f, e, sign, digits)| {
+                        (vec![f], vec![], [e, sign.unwrap_or_default(), digits].concat())
+                    },
+                ),
             )),
         ),
         |(sign, (f, s, e)): (Option<&str>, (Vec<&str>, Vec<&str>, String))| {
-- 
2.43.0


From b1d455e434095b9595e626301b9249a3ad1b8a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:28 +0000
Subject: [PATCH 04/16] fix: do not split a name that starts like a number

---
 src/tokenizer/mod.rs | 16 ++++++++++++++--
 src/tokenizer/mtl.rs |  3 +--
 src/tokenizer/obj.rs |  3 +--
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/tokenizer/mod.rs b/src/tokenizer/mod.rs
index 687cc73..f87d07c 100644
--- a/src/tokenizer/mod.rs
+++ b/src/tokenizer/mod.rs
@@ -12,11 +12,12 @@ use std::ops::IndexMut;
 pub use mtl::parse_mtl;
 use nom::{
     branch::alt,
-    bytes::complete::tag,
+    bytes::complete::{is_a, tag},
     character::complete::digit1,
-    combinator::{map, opt},
+    combinator::{eof, map, opt, peek},
     error::{Error, ErrorKind},
     multi::fold_many1,
+    sequence::terminated,
     IResult, Input, Parser,
 };
 pub use obj::parse_obj;
@@ -580,6 +581,17 @@ fn tag_no_case<'a>(keyword: &'static str) -> impl Fn(&'a str) -> IResult<&'a str
     }
 }
 
+/// Matches a number which is a word of its own, and not merely the start of a
+/// name such as `01_wood.png`.
+fn parse_number<'a>(
+    delimiters: &'static str,
+) -> impl Parser<&'a str, Output = Token<'a>, Error = Error<&'a str>> {
+    terminated(
+        alt((parse_float(), parse_digit())),
+        peek(alt((eof, is_a(delimiters)))),
+    )
+}
+
 fn parse_digit<'a>() -> impl Parser<&'a str, Output = Token<'a>, Error = Error<&'a str>> {
     map(
         (
diff --git a/src/tokenizer/mtl.rs b/src/tokenizer/mtl.rs
index c8ec788..fe8b87d 100644
--- a/src/tokenizer/mtl.rs
+++ b/src/tokenizer/mtl.rs
@@ -67,8 +67,7 @@ pub fn parse_mtl(input: &str) -> Result<TokenSet, TokenizeError> {
                 ),
                 map(multispace1, |_| Token::Ignore),
             ),
-            super::parse_float(),
-            super::parse_digit(),
+            super::parse_number(" \t\r\n#"),
             map(
                 preceded(tag("#"), take_till(|c| c == '\n' || c == '\r')),
                 |_| Token::Ignore,
diff --git a/src/tokenizer/obj.rs b/src/tokenizer/obj.rs
index 2d1fbab..05ab41b 100644
--- a/src/tokenizer/obj.rs
+++ b/src/tokenizer/obj.rs
@@ -49,8 +49,7 @@ pub fn parse_obj(input: &str) -> Result<TokenSet, TokenizeError> {
                 map(multispace1, |_| Token::Ignore),
             ),
             map(tag("/"), |_| Token::Slash),
-            super::parse_float(),
-            super::parse_digit(),
+            super::parse_number(" \t\r\n#/"),
             map(
                 preceded(tag("#"), take_till(|c| c == '\n' || c == '\r')),
                 |_| Token::Ignore,
-- 
2.43.0


From fbcd72fa51e5ec2981afd055638131412a70462e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:30 +0000
Subject: [PATCH 05/16] fix: a tab ends a word of an MTL file

---
 src/tokenizer/mtl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer/mtl.rs b/src/tokenizer/mtl.rs
index fe8b87d..d95e7cd 100644
--- a/src/tokenizer/mtl.rs
+++ b/src/tokenizer/mtl.rs
@@ -73,7 +73,7 @@ pub fn parse_mtl(input: &str) -> Result<TokenSet, TokenizeError> {
                 |_| Token::Ignore,
             ),
             map(alt((line_ending, multispace1)), |_| Token::Ignore),
-            map(is_not(" \r\n"), |s: &str| Token::String(Cow::Borrowed(s))),
+            map(is_not(" \t\r\n"), |s: &str| Token::String(Cow::Borrowed(s))),
         )),
         Vec::new,
         |mut acc: Vec<Token>, item| {
-- 
2.43.0


From 53ee4c939a62690bde3b662ba3664941e60bf76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:32 +0000
Subject: [PATCH 06/16] fix: report a statement that cannot be parsed, instead
 of dropping the rest of the file

---
 src/material.rs | 3 ++-
 src/model.rs    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/material.rs b/src/material.rs
index 1c56d41..5da7981 100644
--- a/src/material.rs
+++ b/src/material.rs
@@ -414,7 +414,8 @@ enum MaterialElement {
 
 pub(crate) fn parse(input: TokenSet<'_>) -> Result<Vec<Material>, MaterialError> {
     let elements: Vec<MaterialElement> = match parse_material_set().parse_complete(input) {
-        Ok((_, x)) => x,
+        Ok((rest, x)) if rest.is_empty() => x,
+        Ok((rest, _)) => return Err(MaterialError::Parse(format!("unexpected {:?}", rest[0]))),
         Err(e) => return Err(MaterialError::Parse(e.to_string())),
     };
 
diff --git a/src/model.rs b/src/model.rs
index 567e016..0404f4c 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -301,7 +301,8 @@ pub(crate) fn parse(input: TokenSet) -> Result<Model, ModelError> {
     )
     .parse_complete(input)
     {
-        Ok((_, acc)) => Ok(acc),
+        Ok((rest, acc)) if rest.is_empty() => Ok(acc),
+        Ok((rest, _)) => Err(ModelError::Parse(format!("unexpected {:?}", rest[0]))),
         Err(e) => Err(ModelError::Parse(e.to_string())),
     }
 }
-- 
2.43.0


From 48518043237d48b9cb3ad4f83d70287c213eb5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:34 +0000
Subject: [PATCH 07/16] fix: returning to a group keeps its settings

---
 src/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model.rs b/src/model.rs
index 0404f4c..1e0b5a8 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -265,7 +265,7 @@ pub(crate) fn parse(input: TokenSet) -> Result<Model, ModelError> {
                 ModelElement::Group(groups) => {
                     model.current_group.clear();
                     for g in groups {
-                        model.groups.insert(g.clone(), Default::default());
+                        model.groups.entry(g.clone()).or_default();
                         model.current_group.push(g);
                     }
                 },
-- 
2.43.0


From 7d00c19117168af9a7d073c347d28454f84864e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:06 +0000
Subject: [PATCH 08/16] fix: take the name in a statement as it is written,
 without blanks at its end

---
 src/tokenizer/mod.rs | 19 +++++++++++++++++++
 src/tokenizer/mtl.rs | 16 +++++++++++++++-
 src/tokenizer/obj.rs | 28 +++++++++++++++++++++++++++-
 3 files changed, 61 insertions(+), 2 deletions(-)

diff --git a/src/tokenizer/mod.rs b/src/tokenizer/mod.rs
index f87d07c..0e37d37 100644
--- a/src/tokenizer/mod.rs
+++ b/src/tokenizer/mod.rs
@@ -569,6 +569,25 @@ impl<'a> Input for TokenSet<'a> {
     }
 }
 
+const BLANKS: [char; 2] = [' ', '\t'];
+
+/// Splits a text into its lines, without the blanks around them.
+fn lines(input: &str) -> impl Iterator<Item = &str> {
+    input
+        .split(['\r', '\n'])
+        .map(|line| line.trim_matches(BLANKS))
+}
+
+/// Splits a line which consists of one of the keywords and a name. The name is
+/// the rest of the line as it is written, even if it looks like a number or a
+/// keyword.
+fn split_name<'a>(line: &'a str, keywords: &[&str]) -> Option<(&'a str, &'a str)> {
+    let (word, rest) = line.split_once(BLANKS)?;
+    let name = rest.trim_start_matches(BLANKS);
+    let named = keywords.iter().any(|k| k.eq_ignore_ascii_case(word));
+    (named && !name.starts_with('#')).then_some((word, name))
+}
+
 /// Matches a keyword in any mixture of upper and lower case.
 ///
 /// Keywords are ASCII. nom's parser of the same name folds the case of any
diff --git a/src/tokenizer/mtl.rs b/src/tokenizer/mtl.rs
index d95e7cd..38648db 100644
--- a/src/tokenizer/mtl.rs
+++ b/src/tokenizer/mtl.rs
@@ -17,6 +17,20 @@ use nom::{
 use super::{tag_no_case, Token, TokenSet, TokenizeError};
 
 pub fn parse_mtl(input: &str) -> Result<TokenSet, TokenizeError> {
+    let mut tokens = Vec::new();
+    for line in super::lines(input) {
+        match super::split_name(line, &["newmtl"]) {
+            Some((keyword, name)) if !name.contains(super::BLANKS) => {
+                tokens.push(kw_map(keyword));
+                tokens.push(Token::String(Cow::Borrowed(name)));
+            },
+            _ => tokens.extend(parse_statement(line)?),
+        }
+    }
+    Ok(tokens.into())
+}
+
+fn parse_statement(input: &str) -> Result<Vec<Token>, TokenizeError> {
     match fold_many0(
         alt((
             delimited(
@@ -85,7 +99,7 @@ pub fn parse_mtl(input: &str) -> Result<TokenSet, TokenizeError> {
     )
     .parse_complete(input)
     {
-        Ok((_, v)) => Ok(v.into()),
+        Ok((_, v)) => Ok(v),
         Err(e) => Err(TokenizeError::Parse(e.to_string())),
     }
 }
diff --git a/src/tokenizer/obj.rs b/src/tokenizer/obj.rs
index 05ab41b..a1a6256 100644
--- a/src/tokenizer/obj.rs
+++ b/src/tokenizer/obj.rs
@@ -16,7 +16,33 @@ use nom::{
 
 use super::{tag_no_case, Token, TokenSet, TokenizeError};
 
+/// The statements whose argument is a name.
+const NAMED: [&str; 8] = [
+    "mtllib",
+    "usemtl",
+    "shadow_obj",
+    "trace_obj",
+    "maplib",
+    "usemap",
+    "o",
+    "g",
+];
+
 pub fn parse_obj(input: &str) -> Result<TokenSet, TokenizeError> {
+    let mut tokens = Vec::new();
+    for line in super::lines(input) {
+        match super::split_name(line, &NAMED) {
+            Some((keyword, name)) => {
+                tokens.push(kw_map(keyword));
+                tokens.push(Token::String(Cow::Borrowed(name)));
+            },
+            None => tokens.extend(parse_statement(line)?),
+        }
+    }
+    Ok(tokens.into())
+}
+
+fn parse_statement(input: &str) -> Result<Vec<Token>, TokenizeError> {
     match fold_many0(
         alt((
             delimited(
@@ -67,7 +93,7 @@ pub fn parse_obj(input: &str) -> Result<TokenSet, TokenizeError> {
     )
     .parse_complete(input)
     {
-        Ok((_, v)) => Ok(v.into()),
+        Ok((_, v)) => Ok(v),
         Err(e) => Err(TokenizeError::Parse(e.to_string())),
     }
 }
-- 
2.43.0


From 1a2503c4fb8d00ed134d4037f623e23e18836019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:27 +0000
Subject: [PATCH 09/16] fix: report a line that is not one statement

---
 src/tokenizer/mod.rs | 51 ++++++++++++++++++++++++++++++++++++++++++++
 src/tokenizer/mtl.rs |  2 +-
 src/tokenizer/obj.rs |  2 +-
 3 files changed, 53 insertions(+), 2 deletions(-)

diff --git a/src/tokenizer/mod.rs b/src/tokenizer/mod.rs
index 0e37d37..ff118b2 100644
--- a/src/tokenizer/mod.rs
+++ b/src/tokenizer/mod.rs
@@ -467,6 +467,39 @@ pub enum Token<'a> {
     OptionTextureResolution,
 }
 
+impl Token<'_> {
+    fn is_value(&self) -> bool {
+        matches!(
+            self,
+            Token::String(_) | Token::Float(_) | Token::Int(_) | Token::Slash
+        )
+    }
+
+    /// Whether this can stand after the keyword of a statement.
+    fn is_argument(&self) -> bool {
+        self.is_value()
+            || matches!(
+                self,
+                Token::Spectral
+                    | Token::Xyz
+                    | Token::Halo
+                    | Token::ReflectionType
+                    | Token::OptionBlendU
+                    | Token::OptionBlendV
+                    | Token::OptionBumpMultiplier
+                    | Token::OptionBoost
+                    | Token::OptionColorCorrect
+                    | Token::OptionClamp
+                    | Token::OptionIMFChan
+                    | Token::OptionRange
+                    | Token::OptionOffset
+                    | Token::OptionScale
+                    | Token::OptionTurbulence
+                    | Token::OptionTextureResolution
+            )
+    }
+}
+
 #[derive(Debug, Clone)]
 pub struct TokenSet<'a> {
     tokens: Vec<Token<'a>>,
@@ -588,6 +621,24 @@ fn split_name<'a>(line: &'a str, keywords: &[&str]) -> Option<(&'a str, &'a str)
     (named && !name.starts_with('#')).then_some((word, name))
 }
 
+/// Checks that a line holds one statement: its keyword, then the arguments.
+fn check_statement<'a>(
+    line: &str,
+    tokens: Vec<Token<'a>>,
+) -> Result<Vec<Token<'a>>, TokenizeError> {
+    let valid = match tokens.split_first() {
+        Some((keyword, arguments)) => {
+            !keyword.is_value() && arguments.iter().all(Token::is_argument)
+        },
+        None => true,
+    };
+    if valid {
+        Ok(tokens)
+    } else {
+        Err(TokenizeError::Parse(format!("not a statement: {}", line)))
+    }
+}
+
 /// Matches a keyword in any mixture of upper and lower case.
 ///
 /// Keywords are ASCII. nom's parser of the same name folds the case of any
diff --git a/src/tokenizer/mtl.rs b/src/tokenizer/mtl.rs
index 38648db..6e501e6 100644
--- a/src/tokenizer/mtl.rs
+++ b/src/tokenizer/mtl.rs
@@ -99,7 +99,7 @@ fn parse_statement(input: &str) -> Result<Vec<Token>, TokenizeError> {
     )
     .parse_complete(input)
     {
-        Ok((_, v)) => Ok(v),
+        Ok((_, v)) => super::check_statement(input, v),
         Err(e) => Err(TokenizeError::Parse(e.to_string())),
     }
 }
diff --git a/src/tokenizer/obj.rs b/src/tokenizer/obj.rs
index a1a6256..53a05d4 100644
--- a/src/tokenizer/obj.rs
+++ b/src/tokenizer/obj.rs
@@ -93,7 +93,7 @@ fn parse_statement(input: &str) -> Result<Vec<Token>, TokenizeError> {
     )
     .parse_complete(input)
     {
-        Ok((_, v)) => Ok(v),
+        Ok((_, v)) => super::check_statement(input, v),
         Err(e) => Err(TokenizeError::Parse(e.to_string())),
     }
 }
-- 
2.43.0


From dfee1cb15f4151972a6460b1ea6940ace45ba959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:57 +0000
Subject: [PATCH 10/16] fix: record bevel, c_interp, d_interp, lod, shadow_obj
 and trace_obj

---
 src/model.rs | 104 ++++++++++++++++++++++++---------------------------
 1 file changed, 48 insertions(+), 56 deletions(-)

diff --git a/src/model.rs b/src/model.rs
index 1e0b5a8..621b4c0 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -9,7 +9,7 @@ use crate::{
 
 use nom::{
     branch::alt,
-    combinator::{map, opt},
+    combinator::{map, map_opt, opt},
     error,
     multi::{fold_many0, fold_many1, many1},
     sequence::preceded,
@@ -280,12 +280,28 @@ pub(crate) fn parse(input: TokenSet) -> Result<Model, ModelError> {
                 ModelElement::Smoothing(group_id) => {
                     model.current_smoothing_group = group_id;
                 },
-                ModelElement::Bevel(_flag) => {},
-                ModelElement::CInterp(_flag) => {},
-                ModelElement::DInterp(_flag) => {},
-                ModelElement::Lod(_level) => {},
-                ModelElement::ShadowObj(_name) => {},
-                ModelElement::TraceObj(_name) => {},
+                ModelElement::Bevel(flag) => {
+                    for g in &model.current_group {
+                        model.groups.entry(g.clone()).or_default().bevel = flag;
+                    }
+                },
+                ModelElement::CInterp(flag) => {
+                    for g in &model.current_group {
+                        model.groups.entry(g.clone()).or_default().c_interp = flag;
+                    }
+                },
+                ModelElement::DInterp(flag) => {
+                    for g in &model.current_group {
+                        model.groups.entry(g.clone()).or_default().d_interp = flag;
+                    }
+                },
+                ModelElement::Lod(level) => {
+                    for g in &model.current_group {
+                        model.groups.entry(g.clone()).or_default().lod = level as u8;
+                    }
+                },
+                ModelElement::ShadowObj(name) => model.shadow_obj = Some(name),
+                ModelElement::TraceObj(name) => model.trace_obj = Some(name),
                 ModelElement::TextureLib(libs) => {
                     model.texture_libs.extend(libs);
                 },
@@ -673,73 +689,49 @@ pub(crate) fn parse_smoothing<'a>(
 pub(crate) fn parse_bevel<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = ModelElement, Error = error::Error<TokenSet<'a>>> {
     map(
-        preceded(token_match!(Token::Bevel), token_match!(Token::String(_))),
-        |s| {
-            let res = match get_token_string(&s) {
-                Ok(s) => s,
-                Err(e) => {
-                    log::error!("{}", e);
-                    Default::default()
-                },
-            };
-
-            if let Ok(flag) = res.parse::<bool>() {
-                ModelElement::Bevel(flag)
-            } else {
-                ModelElement::Bevel(false)
-            }
-        },
+        preceded(
+            token_match!(Token::Bevel),
+            map_opt(token_match!(Token::String(_)), |s| {
+                get_on_off_from_str(&s).ok()
+            }),
+        ),
+        ModelElement::Bevel,
     )
 }
 
 pub(crate) fn parse_c_interp<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = ModelElement, Error = error::Error<TokenSet<'a>>> {
     map(
-        preceded(token_match!(Token::CInterp), token_match!(Token::String(_))),
-        |s| {
-            let res = match get_token_string(&s) {
-                Ok(s) => s,
-                Err(e) => {
-                    log::error!("{}", e);
-                    Default::default()
-                },
-            };
-
-            if let Ok(flag) = res.parse::<bool>() {
-                ModelElement::CInterp(flag)
-            } else {
-                ModelElement::CInterp(false)
-            }
-        },
+        preceded(
+            token_match!(Token::CInterp),
+            map_opt(token_match!(Token::String(_)), |s| {
+                get_on_off_from_str(&s).ok()
+            }),
+        ),
+        ModelElement::CInterp,
     )
 }
 
 pub(crate) fn parse_d_interp<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = ModelElement, Error = error::Error<TokenSet<'a>>> {
     map(
-        preceded(token_match!(Token::DInterp), token_match!(Token::String(_))),
-        |s| {
-            let res = match get_token_string(&s) {
-                Ok(s) => s,
-                Err(e) => {
-                    log::error!("{}", e);
-                    Default::default()
-                },
-            };
-
-            if let Ok(flag) = res.parse::<bool>() {
-                ModelElement::DInterp(flag)
-            } else {
-                ModelElement::DInterp(false)
-            }
-        },
+        preceded(
+            token_match!(Token::DInterp),
+            map_opt(token_match!(Token::String(_)), |s| {
+                get_on_off_from_str(&s).ok()
+            }),
+        ),
+        ModelElement::DInterp,
     )
 }
 
 pub(crate) fn parse_lod<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = ModelElement, Error = error::Error<TokenSet<'a>>> {
     map(
-        preceded(token_match!(Token::Lod), token_match!(Token::Int(_))),
+        preceded(
+            token_match!(Token::Lod),
+            token_match!(Token::Int(0..=100)),
+        ),
         |s| {
             let res = match get_token_int(&s) {
                 Ok(s) => s,
-- 
2.43.0


From 6619a10ef2ff65b639d9b6eb2f72c6bc7475cd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:19 +0000
Subject: [PATCH 11/16] fix: report a word other than on and off where a switch
 is expected

---
 src/material.rs      | 65 ++++++++------------------------------------
 src/model.rs         | 19 ++++---------
 src/tokenizer/mod.rs |  6 +++-
 src/tokenizer/obj.rs |  2 +-
 4 files changed, 22 insertions(+), 70 deletions(-)

diff --git a/src/material.rs b/src/material.rs
index 5da7981..c9c40c6 100644
--- a/src/material.rs
+++ b/src/material.rs
@@ -6,7 +6,7 @@ use crate::{
 };
 use nom::{
     branch::alt,
-    combinator::{map, opt},
+    combinator::{map, map_opt, opt},
     error,
     multi::many1,
     sequence::preceded,
@@ -741,15 +741,8 @@ fn parse_anti_alias_map<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = MaterialElement, Error = error::Error<TokenSet<'a>>> {
     preceded(
         token_match!(Token::AntiAliasMap),
-        map(token_match!(Token::String(_)), |o| {
-            let val = match get_on_off_from_str(&o) {
-                Ok(v) => v,
-                Err(e) => {
-                    log::error!("{}", e);
-                    Default::default()
-                },
-            };
-            MaterialElement::AntiAliasMap(val)
+        map_opt(token_match!(Token::String(_)), |o| {
+            Some(MaterialElement::AntiAliasMap(get_on_off_from_str(&o).ok()?))
         }),
     )
 }
@@ -784,37 +777,19 @@ fn parse_options<'a>(
 fn parse_option_blend<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = OptionElement, Error = error::Error<TokenSet<'a>>> {
     alt((
-        map(
+        map_opt(
             preceded(
                 token_match!(Token::OptionBlendU),
                 token_match!(Token::String(_)),
             ),
-            |s| {
-                let val = match get_on_off_from_str(&s) {
-                    Ok(s) => s,
-                    Err(e) => {
-                        log::error!("{}", e);
-                        Default::default()
-                    },
-                };
-                OptionElement::BlendU(val)
-            },
+            |s| Some(OptionElement::BlendU(get_on_off_from_str(&s).ok()?)),
         ),
-        map(
+        map_opt(
             preceded(
                 token_match!(Token::OptionBlendV),
                 token_match!(Token::String(_)),
             ),
-            |s| {
-                let val = match get_on_off_from_str(&s) {
-                    Ok(s) => s,
-                    Err(e) => {
-                        log::error!("{}", e);
-                        Default::default()
-                    },
-                };
-                OptionElement::BlendV(val)
-            },
+            |s| Some(OptionElement::BlendV(get_on_off_from_str(&s).ok()?)),
         ),
     ))
 }
@@ -841,41 +816,23 @@ fn parse_option_bm<'a>(
 
 fn parse_option_cc<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = OptionElement, Error = error::Error<TokenSet<'a>>> {
-    map(
+    map_opt(
         preceded(
             token_match!(Token::OptionColorCorrect),
             token_match!(Token::String(_)),
         ),
-        |s| {
-            let val = match get_on_off_from_str(&s) {
-                Ok(s) => s,
-                Err(e) => {
-                    log::error!("{}", e);
-                    Default::default()
-                },
-            };
-            OptionElement::Cc(val)
-        },
+        |s| Some(OptionElement::Cc(get_on_off_from_str(&s).ok()?)),
     )
 }
 
 fn parse_option_clamp<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = OptionElement, Error = error::Error<TokenSet<'a>>> {
-    map(
+    map_opt(
         preceded(
             token_match!(Token::OptionClamp),
             token_match!(Token::String(_)),
         ),
-        |s| {
-            let val = match get_on_off_from_str(&s) {
-                Ok(s) => s,
-                Err(e) => {
-                    log::error!("{}", e);
-                    Default::default()
-                },
-            };
-            OptionElement::Clamp(val)
-        },
+        |s| Some(OptionElement::Clamp(get_on_off_from_str(&s).ok()?)),
     )
 }
 
diff --git a/src/model.rs b/src/model.rs
index 621b4c0..615bfe1 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -656,19 +656,13 @@ pub(crate) fn parse_smoothing<'a>(
             token_match!(Token::Smoothing),
             alt((
                 token_match!(Token::Int(_)),
-                map(token_match!(Token::String(_)), |s| {
-                    let val = match get_on_off_from_str(&s) {
-                        Ok(v) => v,
-                        Err(e) => {
-                            log::error!("{}", e);
-                            Default::default()
-                        },
-                    };
+                map_opt(token_match!(Token::String(_)), |s| {
+                    let val = get_on_off_from_str(&s).ok()?;
                     if !val {
-                        Token::Int(0)
+                        Some(Token::Int(0))
                     } else {
                         log::error!("Invalid smoothing value encountered. Setting default to 1.");
-                        Token::Int(1)
+                        Some(Token::Int(1))
                     }
                 }),
             )),
@@ -728,10 +722,7 @@ pub(crate) fn parse_d_interp<'a>(
 pub(crate) fn parse_lod<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = ModelElement, Error = error::Error<TokenSet<'a>>> {
     map(
-        preceded(
-            token_match!(Token::Lod),
-            token_match!(Token::Int(0..=100)),
-        ),
+        preceded(token_match!(Token::Lod), token_match!(Token::Int(0..=100))),
         |s| {
             let res = match get_token_int(&s) {
                 Ok(s) => s,
diff --git a/src/tokenizer/mod.rs b/src/tokenizer/mod.rs
index ff118b2..ec58c26 100644
--- a/src/tokenizer/mod.rs
+++ b/src/tokenizer/mod.rs
@@ -756,7 +756,11 @@ fn parse_float<'a>() -> impl Parser<&'a str, Output = Token<'a>, Error = Error<&
                         digit1,
                     ),
                     |(f, e, sign, digits)| {
-                        (vec![f], vec![], [e, sign.unwrap_or_default(), digits].concat())
+                        (
+                            vec![f],
+                            vec![],
+                            [e, sign.unwrap_or_default(), digits].concat(),
+                        )
                     },
                 ),
             )),
diff --git a/src/tokenizer/obj.rs b/src/tokenizer/obj.rs
index 53a05d4..1c3c2c0 100644
--- a/src/tokenizer/obj.rs
+++ b/src/tokenizer/obj.rs
@@ -81,7 +81,7 @@ fn parse_statement(input: &str) -> Result<Vec<Token>, TokenizeError> {
                 |_| Token::Ignore,
             ),
             map(alt((line_ending, multispace1)), |_| Token::Ignore),
-            map(is_not("\r\n"), |s: &str| Token::String(Cow::Borrowed(s))),
+            map(is_not(" \t\r\n"), |s: &str| Token::String(Cow::Borrowed(s))),
         )),
         Vec::new,
         |mut acc: Vec<Token>, item| {
-- 
2.43.0


From bd2618fc07f0fb4b330352d0ab6be4ff2a78cb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:21 +0000
Subject: [PATCH 12/16] fix: report a negative illumination model instead of
 wrapping it

---
 src/material.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/material.rs b/src/material.rs
index c9c40c6..95f452f 100644
--- a/src/material.rs
+++ b/src/material.rs
@@ -634,7 +634,7 @@ fn parse_illumination_model<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = MaterialElement, Error = error::Error<TokenSet<'a>>> {
     preceded(
         token_match!(Token::IlluminationModel),
-        map(token_match!(Token::Int(_)), |f| {
+        map(token_match!(Token::Int(0..)), |f| {
             let f = match get_token_int(&f) {
                 Ok(s) => s,
                 Err(e) => {
-- 
2.43.0


From 10580c622ea2aef1df6d3f9b6893a19f8d3bf8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:24 +0000
Subject: [PATCH 13/16] fix: the last -bm and -type of a map count, as for
 every other option

---
 src/material.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/material.rs b/src/material.rs
index 95f452f..a579c5b 100644
--- a/src/material.rs
+++ b/src/material.rs
@@ -206,7 +206,6 @@ impl BumpMap {
         for e in o {
             if let OptionElement::BumpMultiplier(bm) = e {
                 res.bump_multiplier = Some(*bm);
-                break;
             }
         }
         res
@@ -233,7 +232,6 @@ impl ReflectionMap {
         for e in o {
             if let OptionElement::ReflectionType(ty) = e {
                 res.reflection_type = ty.clone();
-                break;
             }
         }
         res
-- 
2.43.0


From 357e3a2ce93bf259442193b64fcde6922d0ff453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:27 +0000
Subject: [PATCH 14/16] fix: report a map without a file name or with several

---
 src/material.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/material.rs b/src/material.rs
index a579c5b..e1adf5f 100644
--- a/src/material.rs
+++ b/src/material.rs
@@ -6,7 +6,7 @@ use crate::{
 };
 use nom::{
     branch::alt,
-    combinator::{map, map_opt, opt},
+    combinator::{map, map_opt, opt, verify},
     error,
     multi::many1,
     sequence::preceded,
@@ -746,6 +746,14 @@ fn parse_anti_alias_map<'a>(
 }
 
 fn parse_options<'a>(
+) -> impl Parser<TokenSet<'a>, Output = Vec<OptionElement>, Error = error::Error<TokenSet<'a>>> {
+    verify(parse_option_list(), |options: &Vec<_>| {
+        let is_file = |o: &&OptionElement| matches!(o, OptionElement::FileName(_));
+        options.iter().filter(is_file).count() == 1
+    })
+}
+
+fn parse_option_list<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = Vec<OptionElement>, Error = error::Error<TokenSet<'a>>> {
     many1(alt((
         parse_option_blend(),
-- 
2.43.0


From 5cd6d6cbcd4a6c6048f487ebc872dea4c9c17c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:06 +0000
Subject: [PATCH 15/16] fix: report an option on a line of its own

---
 src/tokenizer/mtl.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer/mtl.rs b/src/tokenizer/mtl.rs
index 6e501e6..bc97a2a 100644
--- a/src/tokenizer/mtl.rs
+++ b/src/tokenizer/mtl.rs
@@ -24,7 +24,14 @@ pub fn parse_mtl(input: &str) -> Result<TokenSet, TokenizeError> {
                 tokens.push(kw_map(keyword));
                 tokens.push(Token::String(Cow::Borrowed(name)));
             },
-            _ => tokens.extend(parse_statement(line)?),
+            _ => {
+                let statement = parse_statement(line)?;
+                // An option stands on the line of its statement.
+                if !tokens.is_empty() && statement.first().is_some_and(Token::is_argument) {
+                    return Err(TokenizeError::Parse(format!("not a statement: {}", line)));
+                }
+                tokens.extend(statement);
+            },
         }
     }
     Ok(tokens.into())
-- 
2.43.0


From 094a057032b019b39bd8746ca2d203dfe85ffa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:20 +0000
Subject: [PATCH 16/16] fix: an option at the end of a line is not a file name

---
 src/tokenizer/mtl.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer/mtl.rs b/src/tokenizer/mtl.rs
index bc97a2a..807abff 100644
--- a/src/tokenizer/mtl.rs
+++ b/src/tokenizer/mtl.rs
@@ -8,7 +8,7 @@ use nom::{
         complete::{line_ending, multispace1},
         multispace0,
     },
-    combinator::map,
+    combinator::{map, rest, verify},
     multi::fold_many0,
     sequence::{delimited, preceded},
     Parser,
@@ -88,6 +88,13 @@ fn parse_statement(input: &str) -> Result<Vec<Token>, TokenizeError> {
                 ),
                 map(multispace1, |_| Token::Ignore),
             ),
+            // An option at the end of the line lacks its value; it is no file name.
+            map(
+                verify(rest, |s: &str| {
+                    s.starts_with('-') && s.is_ascii() && kw_map(s) != Token::Ignore
+                }),
+                kw_map,
+            ),
             super::parse_number(" \t\r\n#"),
             map(
                 preceded(tag("#"), take_till(|c| c == '\n' || c == '\r')),
-- 
2.43.0

