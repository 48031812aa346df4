From c6b4cfd9b9c5a04dd372039c86fe0bfe2c9adf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:59 +0000
Subject: [PATCH 01/46] fix: use the value of an option or selector instead of
 its name

The second identifier of a selector pair was read with first(), thus
'sign#always' and 'one#one_dog' were treated as 'sign#sign' and 'one#one'.
---
 crates/localiser/src/formatter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index bf3c916..b312a0a 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -1347,7 +1347,7 @@ fn pattern_selectors(
             return Err(FormatterError::NodeNotFound(NodeType::Identifier));
         }
         let first_token = tree.token(&tree.tokens(first).unwrap()[0]);
-        let last = tree.first(selector).unwrap();
+        let last = tree.last(selector).unwrap();
         if tree.node_type(last) != &NodeType::Identifier {
             return Err(FormatterError::NodeNotFound(NodeType::Identifier));
         }
-- 
2.43.0


From 5a5061c2493cadf03c090545c1e09f75451a04b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:24 +0000
Subject: [PATCH 02/46] fix: terminate literal text patterns and literal text
 command parameters

The token after a backtick was never examined, so {`text`} always ended
abruptly, and the pattern end moved one container too far.
---
 crates/localiser/src/tree.rs | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/crates/localiser/src/tree.rs b/crates/localiser/src/tree.rs
index 07e2716..a5d5e3e 100644
--- a/crates/localiser/src/tree.rs
+++ b/crates/localiser/src/tree.rs
@@ -164,7 +164,9 @@ impl Tree {
         let mut patterns = HashMap::<String, usize>::new();
 
         // Process the tokens
-        let mut lexer = LexerIterator::try_new(string, grammar, icu_data_provider)?.enumerate();
+        let mut lexer = LexerIterator::try_new(string, grammar, icu_data_provider)?
+            .enumerate()
+            .peekable();
         while let Some((current, token)) = lexer.next() {
             if token.token_type == TokenType::Grammar {
                 has_grammar = true;
@@ -386,12 +388,10 @@ impl Tree {
                         && tokens[current].string.as_str() == "`"
                     {
                         // Skip over 1st ` token.
-                        let Some((next, token)) = lexer.next() else {
-                            return Err(TreeError::EndedAbruptly);
-                        };
-                        Tree::push_token(&mut tokens, &mut lengths, token);
-                        if tokens[current].string.as_str() == "`" {
+                        if lexer.peek().is_some_and(|(_, token)| token.string == "`") {
                             // Literal 2nd ` found.
+                            let (next, token) = lexer.next().unwrap();
+                            Tree::push_token(&mut tokens, &mut lengths, token);
                             Tree::add_token(&mut nodes, &mut parser, NodeType::Text, &next);
                         } else {
                             Tree::end_nested_state(&mut nodes, &mut parser);
@@ -408,7 +408,8 @@ impl Tree {
                     if tokens[current].token_type == TokenType::Grammar
                         && tokens[current].string.as_str() == "}"
                     {
-                        Tree::end_nested_state(&mut nodes, &mut parser);
+                        // LiteralText already moved back to the container of the Text node.
+                        parser.state = parser.nested_states.pop().unwrap_or(ParserState::String);
                         continue;
                     }
                     return Err(TreeError::InvalidToken(
@@ -444,17 +445,8 @@ impl Tree {
                             }
                             Tree::end_nested_state(&mut nodes, &mut parser);
                         } else if token_str == "`" {
-                            // Skip over ` token as next token is a literal.
-                            let Some((next, token)) = lexer.next() else {
-                                return Err(TreeError::EndedAbruptly);
-                            };
-                            Tree::push_token(&mut tokens, &mut lengths, token);
-                            Tree::create_node_add_token(
-                                &mut nodes,
-                                &mut parser,
-                                NodeType::Text,
-                                &next,
-                            );
+                            // Skip over ` token as it marks start of literal text.
+                            Tree::create_node(&mut nodes, &mut parser, NodeType::Text);
                             parser.nested_states.push(ParserState::Command);
                             parser.state = ParserState::LiteralText;
                         } else if token_str == "#" {
-- 
2.43.0


From 8510654df5182632a0cea5452bde8ed587088ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:50 +0000
Subject: [PATCH 03/46] fix: accept every documented start of a named string

A named string starting with a pattern was always rejected, and one
starting with a literal character or Pattern_Syntax left the parser in the
wrong state, panicking on the next token. An empty named string is allowed
by the grammar too.
---
 crates/localiser/src/tree.rs | 140 +++--------------------------------
 1 file changed, 10 insertions(+), 130 deletions(-)

diff --git a/crates/localiser/src/tree.rs b/crates/localiser/src/tree.rs
index a5d5e3e..6402c2b 100644
--- a/crates/localiser/src/tree.rs
+++ b/crates/localiser/src/tree.rs
@@ -483,7 +483,7 @@ impl Tree {
                     }
                 }
                 ParserState::NamedString => {
-                    // Valid tokens: PWS (ignored - separator), `, #, {, Identifier, Syntax
+                    // Valid tokens: Identifier, followed by PWS (separator)
                     #[cfg(feature = "logging")]
                     trace!("ParserState::NamedString");
 
@@ -513,139 +513,19 @@ impl Tree {
                             };
                             Tree::push_token(&mut tokens, &mut lengths, token);
                             if tokens[current].token_type == TokenType::WhiteSpace {
-                                // Skip over whitespace token separator.
+                                // Skip over whitespace token separator, start of SubString.
+                                Tree::create_node(&mut nodes, &mut parser, NodeType::String);
+                                parser.nested_states.push(ParserState::NamedString);
+                                parser.state = ParserState::SubString;
                                 continue;
                             }
-                        } else if len == 1 {
-                            Tree::create_node(&mut nodes, &mut parser, NodeType::String);
-                            parser.nested_states.push(ParserState::NamedString);
-                            Tree::create_node_add_token(
-                                &mut nodes,
-                                &mut parser,
-                                NodeType::Text,
-                                &current,
-                            );
-                            parser.state = ParserState::SubString;
-                            continue;
-                        }
-                        return Err(TreeError::InvalidToken(
-                            parser.state,
-                            tokens[current].start_grapheme,
-                            tokens[current].string.to_string(),
-                        ));
-                    } else if tokens[current].token_type == TokenType::Grammar {
-                        let token_str = tokens[current].string.as_str();
-                        if token_str == "#" {
-                            // # may only appear after Identifier node indicating start of SubString.
-                            let children =
-                                nodes[parser.current.unwrap()].children.as_ref().unwrap();
-                            if children.len() != 1 {
-                                return Err(TreeError::InvalidToken(
-                                    parser.state,
-                                    tokens[current].start_grapheme,
-                                    tokens[current].string.to_string(),
-                                ));
-                            }
-                            Tree::create_node(&mut nodes, &mut parser, NodeType::String);
-                            parser.nested_states.push(ParserState::NamedString);
-                            Tree::create_node_add_token(
-                                &mut nodes,
-                                &mut parser,
-                                NodeType::NumberSign,
-                                &current,
-                            );
-                            parser.state = ParserState::SubString;
-                        } else if token_str == "{" {
-                            // { may only appear after Identifier node indicating start of SubString.
-                            let children =
-                                nodes[parser.current.unwrap()].children.as_ref().unwrap();
-                            if children.len() != 1 {
-                                return Err(TreeError::InvalidToken(
-                                    parser.state,
-                                    tokens[current].start_grapheme,
-                                    tokens[current].string.to_string(),
-                                ));
-                            }
-                            let Some((_currrent, token)) = lexer.next() else {
-                                // Skip the next token
-                                return Err(TreeError::EndedAbruptly);
-                            };
-                            Tree::push_token(&mut tokens, &mut lengths, token);
-                            match Tree::pattern_start(
-                                &mut nodes,
-                                &mut parser,
-                                &mut tokens,
-                                &current,
-                                &mut patterns,
-                            ) {
-                                Ok(_) => {}
-                                Err(error) => return Err(error),
-                            };
-                        } else if token_str == "`" {
-                            // ` may only appear after Identifier node indicating start of SubString.
-                            let children =
-                                nodes[parser.current.unwrap()].children.as_ref().unwrap();
-                            if children.len() != 1 {
-                                return Err(TreeError::InvalidToken(
-                                    parser.state,
-                                    tokens[current].start_grapheme,
-                                    tokens[current].string.to_string(),
-                                ));
-                            }
-                            let Some((current, token)) = lexer.next() else {
-                                return Err(TreeError::EndedAbruptly);
-                            };
-                            Tree::push_token(&mut tokens, &mut lengths, token);
-                            Tree::create_node(&mut nodes, &mut parser, NodeType::String);
-                            parser.nested_states.push(ParserState::NamedString);
-                            Tree::create_node_add_token(
-                                &mut nodes,
-                                &mut parser,
-                                NodeType::Text,
-                                &current,
-                            );
-                        } else {
-                            return Err(TreeError::InvalidToken(
-                                parser.state,
-                                tokens[current].start_grapheme,
-                                tokens[current].string.to_string(),
-                            ));
                         }
-                    } else if tokens[current].token_type == TokenType::Syntax {
-                        // Syntax may only appear after Identifier node indicating start of SubString.
-                        let children = nodes[parser.current.unwrap()].children.as_ref().unwrap();
-                        if children.len() != 1 {
-                            return Err(TreeError::InvalidToken(
-                                parser.state,
-                                tokens[current].start_grapheme,
-                                tokens[current].string.to_string(),
-                            ));
-                        }
-                        Tree::create_node(&mut nodes, &mut parser, NodeType::String);
-                        parser.nested_states.push(ParserState::NamedString);
-                        Tree::create_node_add_token(
-                            &mut nodes,
-                            &mut parser,
-                            NodeType::Text,
-                            &current,
-                        );
-                    } else if tokens[current].token_type == TokenType::WhiteSpace {
-                        // Valid WhiteSpace is only a separator between Identifier and Substring.
-                        let children = nodes[parser.current.unwrap()].children.as_ref().unwrap();
-                        if children.len() != 1 {
-                            return Err(TreeError::InvalidToken(
-                                parser.state,
-                                tokens[current].start_grapheme,
-                                tokens[current].string.to_string(),
-                            ));
-                        }
-                    } else {
-                        return Err(TreeError::InvalidToken(
-                            parser.state,
-                            tokens[current].start_grapheme,
-                            tokens[current].string.to_string(),
-                        ));
                     }
+                    return Err(TreeError::InvalidToken(
+                        parser.state,
+                        tokens[current].start_grapheme,
+                        tokens[current].string.to_string(),
+                    ));
                 }
                 ParserState::NamedGroup => {
                     // Valid tokens: PWS (ignored - human readability), {
-- 
2.43.0


From b286c2194b58cc2f12cc0cd6cf17a48c24d04d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:52 +0000
Subject: [PATCH 04/46] fix: return to the command container after the delay
 marker

A delayed command without parameters ({#command#}) panicked.
---
 crates/localiser/src/tree.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/localiser/src/tree.rs b/crates/localiser/src/tree.rs
index 6402c2b..c7f256d 100644
--- a/crates/localiser/src/tree.rs
+++ b/crates/localiser/src/tree.rs
@@ -466,6 +466,7 @@ impl Tree {
                                 NodeType::NumberSign,
                                 &current,
                             );
+                            Tree::move_to_container(&mut nodes, &mut parser);
                         } else {
                             return Err(TreeError::InvalidToken(
                                 parser.state,
-- 
2.43.0


From 3e32ed2559a052663ec5abae25be1186c24ba420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:55 +0000
Subject: [PATCH 05/46] fix: reject stray grammar characters after a pattern
 keyword

---
 crates/localiser/src/tree.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/localiser/src/tree.rs b/crates/localiser/src/tree.rs
index c7f256d..e2d0866 100644
--- a/crates/localiser/src/tree.rs
+++ b/crates/localiser/src/tree.rs
@@ -368,9 +368,14 @@ impl Tree {
                         parser.current = nodes.get(parser.current.take().unwrap()).unwrap().parent;
                     } else if tokens[current].token_type == TokenType::WhiteSpace {
                     } else if tokens[current].token_type == TokenType::Grammar {
-                        if tokens[current].string.as_str() == "}" {
-                            Tree::end_nested_state(&mut nodes, &mut parser);
+                        if tokens[current].string.as_str() != "}" {
+                            return Err(TreeError::InvalidToken(
+                                parser.state,
+                                tokens[current].start_grapheme,
+                                tokens[current].string.to_string(),
+                            ));
                         }
+                        Tree::end_nested_state(&mut nodes, &mut parser);
                     } else {
                         return Err(TreeError::InvalidToken(
                             parser.state,
-- 
2.43.0


From 6046118e85e52db816af7c97145754819ccb04f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:57 +0000
Subject: [PATCH 06/46] fix: a selector may not branch to the main string

The main pattern is stored under the reserved name '_', so branching to it
recursed until the stack overflowed.
---
 crates/localiser/src/formatter.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index b312a0a..cc21593 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -1179,7 +1179,7 @@ fn part_pattern(
                     placeholder_token.string.as_str().to_string(),
                 ));
             }
-            if !patterns.contains_key(named) {
+            if named == "_" || !patterns.contains_key(named) {
                 return Err(FormatterError::SelectorNamed(
                     named.as_str().to_string(),
                     selector.as_str().to_string(),
@@ -1214,7 +1214,7 @@ fn part_pattern(
                     placeholder_token.string.as_str().to_string(),
                 ));
             }
-            if !patterns.contains_key(named) {
+            if named == "_" || !patterns.contains_key(named) {
                 return Err(FormatterError::SelectorNamed(
                     named.as_str().to_string(),
                     selector.as_str().to_string(),
@@ -1241,7 +1241,7 @@ fn part_pattern(
     } else if keyword_token.string.as_str() == "select" {
         let strings = pattern_selectors(tree, index)?;
         for (selector, named) in strings.iter() {
-            if !patterns.contains_key(named) {
+            if named == "_" || !patterns.contains_key(named) {
                 return Err(FormatterError::SelectorNamed(
                     named.as_str().to_string(),
                     selector.as_str().to_string(),
-- 
2.43.0


From 7b797a2e8cce6ced46272172c48328fb520aa517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:16 +0000
Subject: [PATCH 07/46] fix: use the selector 'other' when no other selector
 matches

'other' is mandatory for plural patterns, yet was never used as the
fallback: a language having the category 'few' failed to format a pattern
with only 'one' and 'other'.
---
 crates/localiser/src/formatter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index cc21593..6da5d25 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -600,7 +600,7 @@ impl Formatter {
             let Some(selectors) = self.selectors.get(selectors_index) else {
                 return Err(FormatterError::SelectorsIndex(selectors_index));
             };
-            let Some(named) = selectors.get(&category) else {
+            let Some(named) = selectors.get(&category).or_else(|| selectors.get("other")) else {
                 return Err(FormatterError::SelectorsIndexNamed(
                     category,
                     selectors_index,
@@ -648,7 +648,7 @@ impl Formatter {
         let Some(selectors) = self.selectors.get(selectors_index) else {
             return Err(FormatterError::SelectorsIndex(selectors_index));
         };
-        let Some(named) = selectors.get(string_value) else {
+        let Some(named) = selectors.get(string_value).or_else(|| selectors.get("other")) else {
             return Err(FormatterError::SelectorsIndexNamed(
                 string_value.to_string(),
                 selectors_index,
-- 
2.43.0


From 7855f18cd0750389e9fbbc51e5266868d8636769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:19 +0000
Subject: [PATCH 08/46] fix: do not reuse the numbers of an earlier format of a
 cached formatter

---
 crates/localiser/src/formatter.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index 6da5d25..b3995f0 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -192,6 +192,10 @@ impl Formatter {
         localiser: &Localiser,
         values: &HashMap<String, PlaceholderValue>,
     ) -> Result<(String, &RefCount<LanguageTag>), FormatterError> {
+        // Numbers of a previous use of this formatter must not be seen.
+        for number in self.numbers.iter_mut() {
+            number.clear();
+        }
         let pattern_string = self.format_pattern(localiser, values, "_")?;
         Ok((pattern_string, &self.language_tag))
     }
-- 
2.43.0


From 54d2b3f52fae78ce474768dd775e3b374812f145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:27 +0000
Subject: [PATCH 09/46] fix: decompose the documented ISO 8601 date and time
 formats

Times without a fraction of a second and times having the zone 'Z' were
rejected, '+YYYYY' was cut to 4 digits, and strings in none of the formats
were silently taken to be year 0 or midnight.
---
 crates/localiser/src/formatter.rs | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index b3995f0..ed3eb56 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -12,7 +12,7 @@ use i18n_lexer::{DataProvider, IcuDataProvider, Token, TokenType};
 use i18n_utility::{LanguageTag, PlaceholderValue};
 use icu_calendar::{
     types::{IsoHour, IsoMinute, IsoSecond, NanoSecond, Time},
-    Date, DateTime, Iso,
+    CalendarError, Date, DateTime, Iso,
 };
 use icu_datetime::{
     options::length::{Bag, Date as DateLength, Time as TimeLength},
@@ -652,7 +652,10 @@ impl Formatter {
         let Some(selectors) = self.selectors.get(selectors_index) else {
             return Err(FormatterError::SelectorsIndex(selectors_index));
         };
-        let Some(named) = selectors.get(string_value).or_else(|| selectors.get("other")) else {
+        let Some(named) = selectors
+            .get(string_value)
+            .or_else(|| selectors.get("other"))
+        else {
             return Err(FormatterError::SelectorsIndexNamed(
                 string_value.to_string(),
                 selectors_index,
@@ -907,9 +910,15 @@ pub fn decompose_iso_date(string: &str) -> Result<Date<Iso>, FormatterError> {
         return Ok(date);
     }
     let parts: Vec<&str> = no_plus.split('-').collect();
-    if parts.len() == 1 {
+    if parts.len() == 1 && string.starts_with('+') {
+        // +YYYYY
+        year = i32::from_str(parts[0])?;
+    } else if parts.len() == 1 {
         // YYYYMMDD or YYYY. ISO 8601 may re-add YYYYMM in the future, once most historical data has been
         // converted from YYMMDD.
+        if !parts[0].is_ascii() || (parts[0].len() != 4 && parts[0].len() != 8) {
+            return Err(FormatterError::Calendar(CalendarError::Parse));
+        }
         if let Some(slice) = parts[0].get(..4) {
             year = i32::from_str(slice)?;
 
@@ -983,6 +992,7 @@ pub fn decompose_iso_time(string: &str) -> Result<Time, FormatterError> {
         None => no_plus,
         Some(pos) => &no_plus[..pos],
     };
+    let trimmed = trimmed.trim_end_matches('Z');
     if trimmed.is_empty() {
         return Ok(Time::new(
             IsoHour::zero(),
@@ -991,7 +1001,7 @@ pub fn decompose_iso_time(string: &str) -> Result<Time, FormatterError> {
             NanoSecond::zero(),
         ));
     }
-    let mut hour = IsoHour::zero();
+    let hour;
     let mut minute = IsoMinute::zero();
     let mut second = IsoSecond::zero();
     let mut nano = NanoSecond::zero();
@@ -1013,9 +1023,17 @@ pub fn decompose_iso_time(string: &str) -> Result<Time, FormatterError> {
                 // try nanosecond
                 let mut no_second = &no_minute[2..];
                 no_second = no_second.trim_start_matches('.');
-                nano = NanoSecond::from_str(no_second)?;
+                if !no_second.is_empty() {
+                    nano = NanoSecond::from_str(no_second)?;
+                }
+            } else if !no_minute.is_empty() {
+                return Err(FormatterError::Calendar(CalendarError::Parse));
             }
+        } else if !no_hour.is_empty() {
+            return Err(FormatterError::Calendar(CalendarError::Parse));
         }
+    } else {
+        return Err(FormatterError::Calendar(CalendarError::Parse));
     }
     Ok(Time::new(hour, minute, second, nano))
 }
-- 
2.43.0


From db8e4501dd04a44c2296e3f3e477989f3620a828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:09 +0000
Subject: [PATCH 10/46] fix: make the date_time option 'calendar' usable

A language identifier can not hold the Unicode extension the option adds,
so every calendar was rejected; and the calendar names are those documented
(BCP 47 'gregory' and 'ethiopic').
---
 crates/localiser/src/formatter.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index ed3eb56..e2bac36 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -19,6 +19,7 @@ use icu_datetime::{
     DateFormatter, DateTimeFormatter, TimeFormatter,
 };
 use icu_decimal::{options, FixedDecimalFormatter};
+use icu_locid::Locale;
 use icu_plurals::{PluralCategory, PluralRules};
 use icu_provider::prelude::DataLocale;
 
@@ -83,13 +84,7 @@ impl Formatter {
         let option_selectors = OptionSelectors {
             valid_plurals: vec!["zero", "one", "two", "few", "many", "other"],
             calendars: vec![
-                "gregorian",
-                "buddhist",
-                "japanese",
-                "ethiopian",
-                "indian",
-                "coptic",
-                "iso",
+                "gregory", "buddhist", "japanese", "ethiopic", "indian", "coptic", "iso",
             ],
         };
         if tree.node_type(&0) != &NodeType::Root {
@@ -1126,7 +1121,7 @@ fn part_pattern(
         let strings = pattern_selectors(tree, index)?;
         let mut length_date: Option<DateLength> = None;
         let mut length_time: Option<TimeLength> = None;
-        let mut calendar: Option<IcuLanguage> = None;
+        let mut calendar: Option<Locale> = None;
         for (key, value) in strings.iter() {
             if key.as_str() == "date" {
                 length_date = Some(date_length(value.as_str())?);
@@ -1474,7 +1469,7 @@ enum PatternPart {
         placeholder: String,
         length_date: Option<DateLength>,
         length_time: Option<TimeLength>,
-        calendar: Option<IcuLanguage>,
+        calendar: Option<Locale>,
     },
     PatternComplex {
         placeholder: String,
-- 
2.43.0


From c1d35c220c9c699723b107df17662d03ca9afc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:45 +0000
Subject: [PATCH 11/46] fix: english_a_or_an panicked on empty text and ignored
 capital vowels

---
 crates/localiser/src/command.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/localiser/src/command.rs b/crates/localiser/src/command.rs
index 9b0291f..532c470 100644
--- a/crates/localiser/src/command.rs
+++ b/crates/localiser/src/command.rs
@@ -222,8 +222,8 @@ pub fn english_a_or_an(parameters: Vec<PlaceholderValue>) -> Result<String, Comm
         _ => return Err(CommandError::InvalidType(command.clone(), 1)),
     };
     let mut chars = string.chars();
-    match chars.next().unwrap() {
-        'a' | 'e' | 'i' | 'o' | 'u' => Ok("an".to_string()),
+    match chars.next().map(|character| character.to_ascii_lowercase()) {
+        Some('a' | 'e' | 'i' | 'o' | 'u') => Ok("an".to_string()),
         _ => Ok("a".to_string()),
     }
 }
-- 
2.43.0


From 97309b0b7a23ae67317e2e71575a9a6dbafbd8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:25 +0000
Subject: [PATCH 12/46] fix: cache literal strings under the requested language

The string was stored under the language of the string while the existence
of the cache entry was tested for the requested language, so requesting 'en'
either replaced all entries of 'en-ZA', or panicked when 'en' had an entry.
---
 crates/localiser/src/localiser.rs | 45 +++++++++----------------------
 1 file changed, 12 insertions(+), 33 deletions(-)

diff --git a/crates/localiser/src/localiser.rs b/crates/localiser/src/localiser.rs
index c96ac04..bddf739 100644
--- a/crates/localiser/src/localiser.rs
+++ b/crates/localiser/src/localiser.rs
@@ -1036,7 +1036,7 @@ impl Localiser {
         if localised.0.is_empty() {
             let string = RefCount::new(localised.0);
             if caching {
-                self.add_string_to_cache(_language_entry, combined, &string, &localised.1);
+                self.add_string_to_cache(language_tag, combined, &string, &localised.1);
                 return Ok((string, localised.1));
             }
             return Ok((string, localised.1));
@@ -1048,7 +1048,7 @@ impl Localiser {
                     // No grammar syntax was found, thus a literal string.
                     let string = RefCount::new(localised.0);
                     if caching {
-                        self.add_string_to_cache(_language_entry, combined, &string, &localised.1);
+                        self.add_string_to_cache(language_tag, combined, &string, &localised.1);
                         return Ok((string, localised.1));
                     }
                     return Ok((string, localised.1));
@@ -1141,7 +1141,6 @@ impl Localiser {
         let mut combined = component.to_string();
         combined.push('/');
         combined.push_str(identifier);
-        let mut _language_entry = false;
         {
             #[cfg(not(feature = "sync"))]
             let binding = self.cache.borrow();
@@ -1150,7 +1149,6 @@ impl Localiser {
             let binding = self.cache.read().unwrap();
 
             if let Some(result) = binding.get(language_tag) {
-                _language_entry = true;
                 if let Some(result2) = result.get(&combined) {
                     return match result2 {
                         CacheData::Localised(string, tag) => {
@@ -1207,7 +1205,7 @@ impl Localiser {
         // Since pattern string is treated as literal, simply cache (if allowed) and return the string.
         let string = RefCount::new(localised.0);
         if caching {
-            self.add_string_to_cache(_language_entry, combined, &string, &localised.1);
+            self.add_string_to_cache(language_tag, combined, &string, &localised.1);
         }
         Ok((string, RefCount::clone(&localised.1)))
     }
@@ -1261,7 +1259,7 @@ impl Localiser {
 
     fn add_string_to_cache(
         &self,
-        language_exists: bool,
+        language_tag: &RefCount<LanguageTag>, // The requested language.
         combined: String,
         string: &RefCount<String>,
         tag: &RefCount<LanguageTag>,
@@ -1269,38 +1267,19 @@ impl Localiser {
         #[cfg(feature = "logging")]
         debug!("Caching literal string.");
 
-        if !language_exists {
-            // Language tag does not exist in cache
-            let mut data_entry = HashMap::<String, CacheData>::new();
-            data_entry.insert(
-                combined.to_string(),
-                CacheData::Localised(RefCount::clone(string), RefCount::clone(tag)),
-            );
-
-            #[cfg(not(feature = "sync"))]
-            self.cache
-                .borrow_mut()
-                .insert(RefCount::clone(tag), data_entry);
-
-            #[cfg(feature = "sync")]
-            self.cache
-                .write()
-                .unwrap()
-                .insert(RefCount::clone(tag), data_entry);
-        } else {
-            // Language tag does exist in cache
-            #[cfg(not(feature = "sync"))]
-            let mut binding = self.cache.borrow_mut();
+        #[cfg(not(feature = "sync"))]
+        let mut binding = self.cache.borrow_mut();
 
-            #[cfg(feature = "sync")]
-            let mut binding = self.cache.write().unwrap();
+        #[cfg(feature = "sync")]
+        let mut binding = self.cache.write().unwrap();
 
-            let data_entry = binding.get_mut(tag);
-            data_entry.unwrap().insert(
+        binding
+            .entry(RefCount::clone(language_tag))
+            .or_default()
+            .insert(
                 combined,
                 CacheData::Localised(RefCount::clone(string), RefCount::clone(tag)),
             );
-        }
     }
 }
 
-- 
2.43.0


From 4b2f6b780cf5cfa25d200a7a64e6a2890112bb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:12 +0000
Subject: [PATCH 13/46] fix: format a string that was cached by a literal
 request

The unformatted pattern string cached by literal() was returned by format().
---
 crates/localiser/src/localiser.rs | 39 ++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/crates/localiser/src/localiser.rs b/crates/localiser/src/localiser.rs
index bddf739..5a491ce 100644
--- a/crates/localiser/src/localiser.rs
+++ b/crates/localiser/src/localiser.rs
@@ -960,8 +960,15 @@ impl Localiser {
 
             if let Some(result) = binding.get(language_tag) {
                 _language_entry = true;
-                if let Some(result2) = result.get(&combined) {
+                // A literal string still requires formatting.
+                if let Some(result2) = result
+                    .get(&combined)
+                    .filter(|data| !matches!(data, CacheData::Literal(_, _)))
+                {
                     return match result2 {
+                        // This branch should never be reached.
+                        CacheData::Literal(_, _) => Err(LocaliserError::NeverReached),
+
                         CacheData::Localised(string, tag) => {
                             Ok((RefCount::clone(string), RefCount::clone(tag)))
                         }
@@ -1036,7 +1043,9 @@ impl Localiser {
         if localised.0.is_empty() {
             let string = RefCount::new(localised.0);
             if caching {
-                self.add_string_to_cache(language_tag, combined, &string, &localised.1);
+                let data =
+                    CacheData::Localised(RefCount::clone(&string), RefCount::clone(&localised.1));
+                self.add_string_to_cache(language_tag, combined, data);
                 return Ok((string, localised.1));
             }
             return Ok((string, localised.1));
@@ -1048,7 +1057,11 @@ impl Localiser {
                     // No grammar syntax was found, thus a literal string.
                     let string = RefCount::new(localised.0);
                     if caching {
-                        self.add_string_to_cache(language_tag, combined, &string, &localised.1);
+                        let data = CacheData::Localised(
+                            RefCount::clone(&string),
+                            RefCount::clone(&localised.1),
+                        );
+                        self.add_string_to_cache(language_tag, combined, data);
                         return Ok((string, localised.1));
                     }
                     return Ok((string, localised.1));
@@ -1111,7 +1124,9 @@ impl Localiser {
         let result2 = result.get(&combined).unwrap();
         match result2 {
             // This branch should never be reached.
-            CacheData::Localised(_, _) => Err(LocaliserError::NeverReached),
+            CacheData::Localised(_, _) | CacheData::Literal(_, _) => {
+                Err(LocaliserError::NeverReached)
+            }
 
             #[cfg(not(feature = "sync"))]
             CacheData::Formatter(formatter) => match formatter.borrow_mut().format(self, values) {
@@ -1151,7 +1166,7 @@ impl Localiser {
             if let Some(result) = binding.get(language_tag) {
                 if let Some(result2) = result.get(&combined) {
                     return match result2 {
-                        CacheData::Localised(string, tag) => {
+                        CacheData::Localised(string, tag) | CacheData::Literal(string, tag) => {
                             Ok((RefCount::clone(string), RefCount::clone(tag)))
                         } //lstring.clone()),
                         CacheData::Formatter(_formatter) => Err(LocaliserError::CacheEntry(
@@ -1205,7 +1220,8 @@ impl Localiser {
         // Since pattern string is treated as literal, simply cache (if allowed) and return the string.
         let string = RefCount::new(localised.0);
         if caching {
-            self.add_string_to_cache(language_tag, combined, &string, &localised.1);
+            let data = CacheData::Literal(RefCount::clone(&string), RefCount::clone(&localised.1));
+            self.add_string_to_cache(language_tag, combined, data);
         }
         Ok((string, RefCount::clone(&localised.1)))
     }
@@ -1261,8 +1277,7 @@ impl Localiser {
         &self,
         language_tag: &RefCount<LanguageTag>, // The requested language.
         combined: String,
-        string: &RefCount<String>,
-        tag: &RefCount<LanguageTag>,
+        data: CacheData,
     ) {
         #[cfg(feature = "logging")]
         debug!("Caching literal string.");
@@ -1276,17 +1291,15 @@ impl Localiser {
         binding
             .entry(RefCount::clone(language_tag))
             .or_default()
-            .insert(
-                combined,
-                CacheData::Localised(RefCount::clone(string), RefCount::clone(tag)),
-            );
+            .insert(combined, data);
     }
 }
 
 // Internal structs, enums, etc
 
 enum CacheData {
-    Localised(RefCount<String>, RefCount<LanguageTag>),
+    Localised(RefCount<String>, RefCount<LanguageTag>), // Contains no grammar syntax.
+    Literal(RefCount<String>, RefCount<LanguageTag>), // May contain grammar syntax, only for literal().
     Formatter(MutCell<Formatter>),
 }
 
-- 
2.43.0


From 46361c55ae897d1e9eef93b6f9103ca294bf830a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:26 +0000
Subject: [PATCH 14/46] fix: a string found by fallback is not visible to
 requests without fallback

The formatter of the default language was cached under the requested
language, so a later request with fallback disabled returned it instead of
reporting that there is no string for the language.
---
 crates/localiser/src/localiser.rs | 50 ++++++++-----------------------
 1 file changed, 12 insertions(+), 38 deletions(-)

diff --git a/crates/localiser/src/localiser.rs b/crates/localiser/src/localiser.rs
index 5a491ce..eba429d 100644
--- a/crates/localiser/src/localiser.rs
+++ b/crates/localiser/src/localiser.rs
@@ -950,7 +950,6 @@ impl Localiser {
         let mut combined = component.to_string();
         combined.push('/');
         combined.push_str(identifier.as_ref());
-        let mut _language_entry = false;
         {
             #[cfg(not(feature = "sync"))]
             let binding = self.cache.borrow();
@@ -959,7 +958,6 @@ impl Localiser {
             let binding = self.cache.read().unwrap();
 
             if let Some(result) = binding.get(language_tag) {
-                _language_entry = true;
                 // A literal string still requires formatting.
                 if let Some(result2) = result
                     .get(&combined)
@@ -1000,6 +998,7 @@ impl Localiser {
         // Not in cache.
         // Get pattern string for specified language, though returned `(String, RefCount<LanguageTag>)`
         // may be for another language.
+        let mut cache_tag = RefCount::clone(language_tag);
         let localised =
             match self
                 .localisation_provider
@@ -1019,6 +1018,7 @@ impl Localiser {
                         .localisation_provider
                         .component_details(component.as_ref())?
                         .default;
+                    cache_tag = RefCount::clone(default_language);
                     match self.localisation_provider.string(
                         component.as_ref(),
                         identifier.as_ref(),
@@ -1045,7 +1045,7 @@ impl Localiser {
             if caching {
                 let data =
                     CacheData::Localised(RefCount::clone(&string), RefCount::clone(&localised.1));
-                self.add_string_to_cache(language_tag, combined, data);
+                self.add_to_cache(&cache_tag, combined, data);
                 return Ok((string, localised.1));
             }
             return Ok((string, localised.1));
@@ -1061,7 +1061,7 @@ impl Localiser {
                             RefCount::clone(&string),
                             RefCount::clone(&localised.1),
                         );
-                        self.add_string_to_cache(language_tag, combined, data);
+                        self.add_to_cache(&cache_tag, combined, data);
                         return Ok((string, localised.1));
                     }
                     return Ok((string, localised.1));
@@ -1081,36 +1081,8 @@ impl Localiser {
             #[cfg(feature = "logging")]
             debug!("Caching formatting string.");
 
-            if !_language_entry {
-                let mut data_entry = HashMap::<String, CacheData>::new();
-                data_entry.insert(
-                    combined.clone(),
-                    CacheData::Formatter(MutCell::new(formatter)),
-                );
-
-                #[cfg(not(feature = "sync"))]
-                self.cache
-                    .borrow_mut()
-                    .insert(RefCount::clone(language_tag), data_entry);
-
-                #[cfg(feature = "sync")]
-                self.cache
-                    .write()
-                    .unwrap()
-                    .insert(RefCount::clone(language_tag), data_entry);
-            } else {
-                #[cfg(not(feature = "sync"))]
-                let mut binding = self.cache.borrow_mut();
-
-                #[cfg(feature = "sync")]
-                let mut binding = self.cache.write().unwrap();
-
-                let data_entry = binding.get_mut(language_tag);
-                data_entry.unwrap().insert(
-                    combined.clone(),
-                    CacheData::Formatter(MutCell::new(formatter)),
-                );
-            }
+            let data = CacheData::Formatter(MutCell::new(formatter));
+            self.add_to_cache(&cache_tag, combined.clone(), data);
         }
 
         // Get `Formatter` and use it to get the (String, RefCount<LanguageTag>).
@@ -1120,7 +1092,7 @@ impl Localiser {
         #[cfg(feature = "sync")]
         let binding = self.cache.read().unwrap();
 
-        let result = binding.get(language_tag).unwrap();
+        let result = binding.get(&cache_tag).unwrap();
         let result2 = result.get(&combined).unwrap();
         match result2 {
             // This branch should never be reached.
@@ -1180,6 +1152,7 @@ impl Localiser {
 
         // Not in cache.
         // Get pattern string for specified language, though returned `(String, RefCount<LanguageTag>)` may be for another language.
+        let mut cache_tag = RefCount::clone(language_tag);
         let localised =
             match self
                 .localisation_provider
@@ -1199,6 +1172,7 @@ impl Localiser {
                         .localisation_provider
                         .component_details(component.as_ref())?
                         .default;
+                    cache_tag = RefCount::clone(default_language);
                     match self.localisation_provider.string(
                         component.as_ref(),
                         identifier.as_ref(),
@@ -1221,7 +1195,7 @@ impl Localiser {
         let string = RefCount::new(localised.0);
         if caching {
             let data = CacheData::Literal(RefCount::clone(&string), RefCount::clone(&localised.1));
-            self.add_string_to_cache(language_tag, combined, data);
+            self.add_to_cache(&cache_tag, combined, data);
         }
         Ok((string, RefCount::clone(&localised.1)))
     }
@@ -1273,9 +1247,9 @@ impl Localiser {
         })
     }
 
-    fn add_string_to_cache(
+    fn add_to_cache(
         &self,
-        language_tag: &RefCount<LanguageTag>, // The requested language.
+        language_tag: &RefCount<LanguageTag>, // The language used to find the string.
         combined: String,
         data: CacheData,
     ) {
-- 
2.43.0


From 84ddc3c9c2ef29a8926f0be6897193d4952b7f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:06 +0000
Subject: [PATCH 15/46] fix: string_exact_match returns only an exact match

Subtags were removed from the requested language tag, thus the string of
'en' was returned as being an exact match for 'en-ZA'.
---
 crates/provider/sqlite3/src/provider.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index 539671c..98c31ff 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -445,6 +445,10 @@ impl LocalisationProviderSqlite3 {
                 let language = self.language_tag_registry.as_ref().tag(tag_raw.as_str())?;
                 strings.push((string, language));
             }
+            if exact {
+                // Less specific language tags are not an exact match.
+                return Ok(strings);
+            }
             if !strings.is_empty() {
                 #[cfg(feature = "logging")]
                 debug!("Found at least 1 string from '{}.sqlite3'.", component,);
-- 
2.43.0


From 182cbd4329caed34690bc77ee39dbf62e6712f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:09 +0000
Subject: [PATCH 16/46] fix: match whole subtags when searching for similar
 language tags

Using only a prefix of the text returned strings of other languages, such
as 'den' (Slave) when 'de' (German) was requested.
---
 crates/provider/sqlite3/src/provider.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index 98c31ff..775dad4 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -407,9 +407,6 @@ impl LocalisationProviderSqlite3 {
         let mut strings = Vec::<(String, RefCount<LanguageTag>)>::new();
         let mut tag = language_tag.as_str().to_string();
         while !tag.is_empty() {
-            if !exact {
-                tag.push('%');
-            }
             let mut rows = match statement.query([identifier, tag.as_str(), component]) {
                 Ok(value) => value,
                 Err(error) => {
@@ -2164,14 +2161,12 @@ fn query_pattern(schema_version: &str, only_one: bool, exact: bool) -> String {
     match schema_version {
         "1.0" => {
             let mut query = "SELECT string, languageTag FROM pattern WHERE identifier = ?1 AND \
-            languageTag "
+            (languageTag = ?2"
                 .to_string();
-            if exact {
-                query.push_str("= ?2")
-            } else {
-                query.push_str("LIKE ?2")
+            if !exact {
+                query.push_str(" OR languageTag LIKE ?2 || '-%'")
             }
-            query.push_str(" AND component = ?3");
+            query.push_str(") AND component = ?3 ORDER BY languageTag");
             if only_one {
                 query.push_str(" LIMIT 1")
             }
-- 
2.43.0


From 8a02dce8bd270ef23a6aad2b6dd41a3f1265852f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:11 +0000
Subject: [PATCH 17/46] fix: identifier_details covers all files of the
 component

An identifier without strings in a component found only in
__all_in_one__.sqlite3 was reported as the component not being found, and
the languages of <component>.sqlite3 were left out when
__all_in_one__.sqlite3 has a string for the identifier.
---
 crates/provider/sqlite3/src/provider.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index 775dad4..9fd710c 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -1435,9 +1435,17 @@ impl LocalisationProviderTrait for LocalisationProviderSqlite3 {
         match components.get(component) {
             None => Err(ProviderError::ComponentNotFound(component.to_string())),
             Some(component_details) => {
-                let mut languages = self.identifier_languages(component, identifier, true)?;
-                if languages.is_empty() {
-                    languages = self.identifier_languages(component, identifier, false)?;
+                let component_files = &self.components[component];
+                let mut languages = Vec::<RefCount<LanguageTag>>::new();
+                if component_files.0 {
+                    languages = self.identifier_languages(component, identifier, true)?;
+                }
+                if component_files.1 {
+                    for language in self.identifier_languages(component, identifier, false)? {
+                        if !languages.contains(&language) {
+                            languages.push(language);
+                        }
+                    }
                 }
                 Ok(IdentifierDetails {
                     languages,
-- 
2.43.0


From 5888fb097b2bb794987c91175457aeda74ab8c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:14 +0000
Subject: [PATCH 18/46] fix: provide the contributors of each language of the
 repository

---
 crates/provider/sqlite3/src/provider.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index 9fd710c..b5456c9 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -1088,6 +1088,13 @@ impl LocalisationProviderSqlite3 {
                     language_data.count += self.count(component.0, language, false)?;
                 }
                 let repository_language = repository_details.languages.get_mut(language).unwrap();
+                for contributor in language_data.contributors.iter() {
+                    if !repository_language.contributors.contains(contributor) {
+                        repository_language
+                            .contributors
+                            .push(contributor.to_string());
+                    }
+                }
                 repository_language.count += language_data.count;
                 component_details.total_strings += language_data.count;
                 repository_details.total_strings += language_data.count;
-- 
2.43.0


From 8a2f6e5130ca0242a2838ef571697830539f477a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:04 +0000
Subject: [PATCH 19/46] fix: language ratios are numbers when the default
 language has no strings

The ratios were NaN or infinite due to the division by zero.
---
 crates/provider/sqlite3/src/provider.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index b5456c9..97b7c75 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -1109,7 +1109,7 @@ impl LocalisationProviderSqlite3 {
             }
             let languages_iterator = component_details.languages.iter_mut();
             for language_data in languages_iterator {
-                language_data.1.ratio = language_data.1.count as f32 / _count as f32;
+                language_data.1.ratio = ratio(language_data.1.count, _count);
             }
 
             #[cfg(feature = "logging")]
@@ -1132,7 +1132,7 @@ impl LocalisationProviderSqlite3 {
             }
             let languages_iterator = repository_details.languages.iter_mut();
             for language_data in languages_iterator {
-                language_data.1.ratio = language_data.1.count as f32 / _count as f32;
+                language_data.1.ratio = ratio(language_data.1.count, _count);
             }
         }
         let _ = self.component_details.set(components_details);
@@ -2172,6 +2172,14 @@ fn columns_check(
 // "#[cfg(not(feature="sync"))]" inside `if` branch. These Github issues are
 // still open relating to this incorrect parsing error.
 
+// Ratio against the default language, and is zero when there are no strings for the default language.
+fn ratio(count: usize, default_count: usize) -> f32 {
+    match default_count {
+        0 => 0f32,
+        _ => count as f32 / default_count as f32,
+    }
+}
+
 fn query_pattern(schema_version: &str, only_one: bool, exact: bool) -> String {
     match schema_version {
         "1.0" => {
-- 
2.43.0


From 814b6d3ece66a8b6738ae86d67f007e1300c4851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:06 +0000
Subject: [PATCH 20/46] fix: schema verification detects missing trailing
 columns

---
 crates/provider/sqlite3/src/provider.rs | 27 +++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index 97b7c75..44b0b5d 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -1598,6 +1598,12 @@ pub fn verify_schema(connection: &Connection) -> Result<String, SchemaError> {
             table_exists(&table_list, "languageData")?;
 
             // Check required columns exists
+            last_column_exists(connection, "contributor", 7, "verified")?;
+            last_column_exists(connection, "language", 4, "added")?;
+            last_column_exists(connection, "pattern", 7, "verified")?;
+            last_column_exists(connection, "component", 5, "added")?;
+            last_column_exists(connection, "languageData", 5, "ratio")?;
+
             // Table: contributor
             let mut statement =
                 connection.prepare("SELECT * FROM pragma_table_info('contributor');")?;
@@ -1947,6 +1953,27 @@ fn table_exists(table_list: &Vec<String>, name: &str) -> Result<(), SchemaError>
     Ok(())
 }
 
+/// Check the table has the required number of columns, as only columns that are present are checked for their schema.
+fn last_column_exists(
+    connection: &Connection,
+    table: &str,
+    count: usize,
+    name: &str,
+) -> Result<(), SchemaError> {
+    let actual: usize = connection.query_row(
+        "SELECT count( * ) FROM pragma_table_info( ?1 )",
+        [table],
+        |row| row.get(0),
+    )?;
+    if actual < count {
+        return Err(SchemaError::MissingColumn(
+            table.to_string(),
+            name.to_string(),
+        ));
+    }
+    Ok(())
+}
+
 /// Holds the default value of the column.
 #[allow(dead_code)]
 enum DefaultValue {
-- 
2.43.0


From 1ee4db507727777075822fda8071b97c02985542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:09 +0000
Subject: [PATCH 21/46] fix: ignore Sqlite3 files having names that are not
 Unicode

Creating the provider panicked.
---
 crates/provider/sqlite3/src/provider.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index 44b0b5d..287d0bf 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -139,7 +139,14 @@ impl LocalisationProviderSqlite3 {
             if let Some(extension) = entry_data.path().extension() {
                 if extension == "sqlite3" {
                     let path = entry_data.path();
-                    let component = path.file_stem().unwrap().to_str().unwrap().to_string();
+                    let Some(component) = path.file_stem().and_then(|stem| stem.to_str()) else {
+                        // Not a name of a component.
+                        #[cfg(feature = "logging")]
+                        error!("{} is not valid Unicode.", path.display());
+
+                        continue;
+                    };
+                    let component = component.to_string();
 
                     #[cfg(logging)]
                     trace!("Sqlite3 file: {}", component);
-- 
2.43.0


From c712cccefe957d2bacc14d91275a7546bd312ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:47 +0000
Subject: [PATCH 22/46] fix: find the localised messages of tree and command
 errors

---
 crates/localiser/src/error.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/crates/localiser/src/error.rs b/crates/localiser/src/error.rs
index eb598b1..b229981 100644
--- a/crates/localiser/src/error.rs
+++ b/crates/localiser/src/error.rs
@@ -77,7 +77,7 @@ impl LocalisationTrait for TreeError {
             }
             TreeError::EndedAbruptly => {
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "string_ended_abruptly".to_string(),
                     values: None,
                 };
@@ -109,7 +109,7 @@ impl LocalisationTrait for TreeError {
                 );
                 message_values.insert("token".to_string(), PlaceholderValue::String(token.clone()));
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "invalid_token".to_string(),
                     values: Some(message_values),
                 };
@@ -136,7 +136,7 @@ impl LocalisationTrait for TreeError {
                     PlaceholderValue::String(identifier.clone()),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "unique_pattern".to_string(),
                     values: Some(message_values),
                 };
@@ -163,7 +163,7 @@ impl LocalisationTrait for TreeError {
                     PlaceholderValue::Unsigned(*position as u128),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "multi_number_sign".to_string(),
                     values: Some(message_values),
                 };
@@ -190,7 +190,7 @@ impl LocalisationTrait for TreeError {
                     PlaceholderValue::String(identifier.clone()),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "unique_named".to_string(),
                     values: Some(message_values),
                 };
@@ -309,7 +309,7 @@ impl LocalisationTrait for CommandError {
                     PlaceholderValue::String(command.to_string()),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "already_exists".to_string(),
                     values: Some(message_values),
                 };
@@ -336,7 +336,7 @@ impl LocalisationTrait for CommandError {
                     PlaceholderValue::String(command.to_string()),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "command_not_found".to_string(),
                     values: Some(message_values),
                 };
@@ -367,7 +367,7 @@ impl LocalisationTrait for CommandError {
                     PlaceholderValue::Unsigned(*index as u128),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "parameter_missing".to_string(),
                     values: Some(message_values),
                 };
@@ -398,7 +398,7 @@ impl LocalisationTrait for CommandError {
                     PlaceholderValue::Unsigned(*index as u128),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "invalid_type".to_string(),
                     values: Some(message_values),
                 };
-- 
2.43.0


From 44a72e31e3ce9261da3312349d6048b3ddc1b2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:49 +0000
Subject: [PATCH 23/46] fix: numbers of error messages are values of string
 placeholders

---
 crates/localiser/src/error.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/localiser/src/error.rs b/crates/localiser/src/error.rs
index b229981..127b6d5 100644
--- a/crates/localiser/src/error.rs
+++ b/crates/localiser/src/error.rs
@@ -105,7 +105,7 @@ impl LocalisationTrait for TreeError {
                 );
                 message_values.insert(
                     "position".to_string(),
-                    PlaceholderValue::Unsigned(*position as u128),
+                    PlaceholderValue::String(position.to_string()),
                 );
                 message_values.insert("token".to_string(), PlaceholderValue::String(token.clone()));
                 let message = LocalisationData {
@@ -160,7 +160,7 @@ impl LocalisationTrait for TreeError {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
                     "position".to_string(),
-                    PlaceholderValue::Unsigned(*position as u128),
+                    PlaceholderValue::String(position.to_string()),
                 );
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
@@ -364,7 +364,7 @@ impl LocalisationTrait for CommandError {
                 );
                 message_values.insert(
                     "index".to_string(),
-                    PlaceholderValue::Unsigned(*index as u128),
+                    PlaceholderValue::String(index.to_string()),
                 );
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
@@ -395,7 +395,7 @@ impl LocalisationTrait for CommandError {
                 );
                 message_values.insert(
                     "index".to_string(),
-                    PlaceholderValue::Unsigned(*index as u128),
+                    PlaceholderValue::String(index.to_string()),
                 );
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
@@ -1258,7 +1258,7 @@ impl LocalisationTrait for FormatterError {
                 );
                 message_values.insert(
                     "index".to_string(),
-                    PlaceholderValue::Unsigned(*index as u128),
+                    PlaceholderValue::String(index.to_string()),
                 );
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
@@ -1514,7 +1514,7 @@ impl LocalisationTrait for FormatterError {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
                     "index".to_string(),
-                    PlaceholderValue::Unsigned(*index as u128),
+                    PlaceholderValue::String(index.to_string()),
                 );
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
@@ -1541,7 +1541,7 @@ impl LocalisationTrait for FormatterError {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
                     "index".to_string(),
-                    PlaceholderValue::Unsigned(*index as u128),
+                    PlaceholderValue::String(index.to_string()),
                 );
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
@@ -1572,7 +1572,7 @@ impl LocalisationTrait for FormatterError {
                 );
                 message_values.insert(
                     "index".to_string(),
-                    PlaceholderValue::Unsigned(*index as u128),
+                    PlaceholderValue::String(index.to_string()),
                 );
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
-- 
2.43.0


From 96a2ecb9f2a4fd3e21ccff5d68ad60dfb11aa234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:32 +0000
Subject: [PATCH 24/46] fix: supply the placeholder values that the localised
 error messages expect

The messages of command errors, and of several formatter errors could not be formatted, as values were supplied under
other names than those of the placeholders in the strings. The string of invalid_selector also used one placeholder
identifier for two values, which is not allowed in pattern strings.
---
 crates/localiser/src/error.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/crates/localiser/src/error.rs b/crates/localiser/src/error.rs
index 127b6d5..beb9780 100644
--- a/crates/localiser/src/error.rs
+++ b/crates/localiser/src/error.rs
@@ -290,7 +290,7 @@ impl LocalisationTrait for CommandError {
                 values.insert("type".to_string(), type_string);
                 values.insert(
                     "variant".to_string(),
-                    PlaceholderValue::String("Registry".to_string()),
+                    PlaceholderValue::String("Custom".to_string()),
                 );
                 values.insert(
                     "error".to_string(),
@@ -305,7 +305,7 @@ impl LocalisationTrait for CommandError {
             CommandError::AlreadyExists(command) => {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
-                    "command".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(command.to_string()),
                 );
                 let message = LocalisationData {
@@ -332,7 +332,7 @@ impl LocalisationTrait for CommandError {
             CommandError::NotFound(command) => {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
-                    "command".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(command.to_string()),
                 );
                 let message = LocalisationData {
@@ -359,11 +359,11 @@ impl LocalisationTrait for CommandError {
             CommandError::ParameterMissing(command, index) => {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
-                    "command".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(command.to_string()),
                 );
                 message_values.insert(
-                    "index".to_string(),
+                    "parameter".to_string(),
                     PlaceholderValue::String(index.to_string()),
                 );
                 let message = LocalisationData {
@@ -390,11 +390,11 @@ impl LocalisationTrait for CommandError {
             CommandError::InvalidType(command, index) => {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
-                    "command".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(command.to_string()),
                 );
                 message_values.insert(
-                    "index".to_string(),
+                    "parameter".to_string(),
                     PlaceholderValue::String(index.to_string()),
                 );
                 let message = LocalisationData {
@@ -1323,7 +1323,7 @@ impl LocalisationTrait for FormatterError {
                     PlaceholderValue::String(keyword.to_string()),
                 );
                 message_values.insert(
-                    "placeholder".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(placeholder.to_string()),
                 );
                 let message = LocalisationData {
@@ -1389,7 +1389,7 @@ impl LocalisationTrait for FormatterError {
                     PlaceholderValue::String(keyword.to_string()),
                 );
                 message_values.insert(
-                    "placeholder".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(placeholder.to_string()),
                 );
                 let message = LocalisationData {
@@ -1451,7 +1451,7 @@ impl LocalisationTrait for FormatterError {
                     PlaceholderValue::String(keyword.to_string()),
                 );
                 message_values.insert(
-                    "placeholder".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(placeholder.to_string()),
                 );
                 let message = LocalisationData {
@@ -1478,7 +1478,7 @@ impl LocalisationTrait for FormatterError {
             FormatterError::InvalidSelector(option, keyword, placeholder) => {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
-                    "option".to_string(),
+                    "selector".to_string(),
                     PlaceholderValue::String(option.to_string()),
                 );
                 message_values.insert(
@@ -1486,7 +1486,7 @@ impl LocalisationTrait for FormatterError {
                     PlaceholderValue::String(keyword.to_string()),
                 );
                 message_values.insert(
-                    "placeholder".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(placeholder.to_string()),
                 );
                 let message = LocalisationData {
-- 
2.43.0


From 685b4488660fa774f59f2f0717b4c9d7ee18f809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:54 +0000
Subject: [PATCH 25/46] fix: placeholders of the strings invalid_selector and
 multi_number_sign

---
 crates/localiser/l10n/i18n_localiser.sqlite3 | Bin 73728 -> 73728 bytes
 1 file changed, 0 insertions(+), 0 deletions(-)

diff --git a/crates/localiser/l10n/i18n_localiser.sqlite3 b/crates/localiser/l10n/i18n_localiser.sqlite3
index 631fa164db468629e47c614e5d5f0a7b958ff301..7cf83f9f42e15d84346763655328f420eda0968e 100644
GIT binary patch
delta 146
zcmZoTz|wGlWr8##`$QRMR(1xxvd)bui{CS{Z07jD!N{p>z{#MgE7+Jj`QS&1$%a78
z^M!Xh6Cb1K<lK*5ObiU0w|`v6!{sLlQYPLQpFRB`FQfS6wtq^KJr40s-u|xvsAjVH
w{|k(aTR9llGIExC09EP>HVRMQ$H*8o{QwiAIES&Wfw``M3Bz`MCdP}h0JXL)+5i9m

delta 153
zcmZoTz|wGlWr8##+e8^>RyGE`v{xHb7Qbg?*v#>PgOO9!fRjN}SFo{g^1+W1lMR8G
z^Bn)=u#fSZw|`v6!xbP2k``}F&Ypgdmr;Cj+drkr>}UBWZ~fOW+5G<nMux2%jB6P=
zD?EV8^aUG5r|)BA43e+P%+E`$RY*zA$w^cwE-A{)OHb4@GB7gMH89sTFxjrp#CTB_
E04#nqR{#J2

-- 
2.43.0


From afeb5964ef21b2680294e8584a33bdaec2ae39e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:57 +0000
Subject: [PATCH 26/46] fix: find the localised messages of the lexer errors

---
 crates/lexer/l10n/i18n_lexer.sqlite3 | Bin 57344 -> 57344 bytes
 crates/lexer/src/error.rs            |  12 ++++++------
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/lexer/l10n/i18n_lexer.sqlite3 b/crates/lexer/l10n/i18n_lexer.sqlite3
index 624a48a3165869a6e5610ccba24c16fc99d7c62a..fc57b914ba34c6ecba04aef4e82e47f07ada1639 100644
GIT binary patch
delta 265
zcmZoTz}#?vd4e<}`$QRMR(1xxvd)bu@$!s$n~%tw3IM5J`ZIvM$&>x{8S@q&_6G`0
zJ`%44lz1M0!yiZ;Sg#EdJFs44(}7dmK-PnMB9rf*wgR&L-xHr~c*YaRsy>qrBp;v2
z0g?e{bAjZ(v&npU@j0m#sYU5Ui3J&{xswyl8cdEqXAG3wa9?cl%5xyaV&_YNcJ!PN
z<_B^f+>-;6|L-XRNyYmzK+^6$$Zc`=Wr1YPeF+&<6H_xwSQJ<lmBkq|4J|;XDgc#T
Pye}<+rYtp2H_8zJQl4yQ

delta 265
zcmZoTz}#?vd4e<}+e8^>RyGE`v{xHb;^i5WHXo5U6#!Dd^k)EhlPCM@GbSxQ><<*0
zd?a28DDgc0hCh%xuwEM^c3{28rUR$AfvgAjL?+)qZ3Sfgzb8J~@Qf#rRedHMNIpK3
z10(~^<^sumXOsDo;&W0fQj5}y5(_d?b0;U9HJBWK&KM}U;l9}9mFGZ;#m<)k?dUll
z%n#%|xF-iB|KC#tl8X0bfTZ1hklW(!%L2)o`w}v!CZ=YVuqd!9DvL8_8d`u%RRAix
PcwbrsO<8K5Zj>Vc>*H%?

diff --git a/crates/lexer/src/error.rs b/crates/lexer/src/error.rs
index 370003c..b03fb42 100644
--- a/crates/lexer/src/error.rs
+++ b/crates/lexer/src/error.rs
@@ -125,7 +125,7 @@ impl LocalisationTrait for IcuError {
 
             IcuError::Grapheme => {
                 let message = LocalisationData {
-                    component: "i18n_icu".to_string(),
+                    component: "i18n_lexer".to_string(),
                     identifier: "grapheme".to_string(),
                     values: None,
                 };
@@ -147,7 +147,7 @@ impl LocalisationTrait for IcuError {
             }
             IcuError::Syntax => {
                 let message = LocalisationData {
-                    component: "i18n_icu".to_string(),
+                    component: "i18n_lexer".to_string(),
                     identifier: "syntax".to_string(),
                     values: None,
                 };
@@ -155,7 +155,7 @@ impl LocalisationTrait for IcuError {
                 values.insert("type".to_string(), type_string);
                 values.insert(
                     "variant".to_string(),
-                    PlaceholderValue::String("Grapheme".to_string()),
+                    PlaceholderValue::String("Syntax".to_string()),
                 );
                 values.insert(
                     "message".to_string(),
@@ -169,7 +169,7 @@ impl LocalisationTrait for IcuError {
             }
             IcuError::WhiteSpace => {
                 let message = LocalisationData {
-                    component: "i18n_icu".to_string(),
+                    component: "i18n_lexer".to_string(),
                     identifier: "white_space".to_string(),
                     values: None,
                 };
@@ -177,7 +177,7 @@ impl LocalisationTrait for IcuError {
                 values.insert("type".to_string(), type_string);
                 values.insert(
                     "variant".to_string(),
-                    PlaceholderValue::String("Grapheme".to_string()),
+                    PlaceholderValue::String("WhiteSpace".to_string()),
                 );
                 values.insert(
                     "message".to_string(),
@@ -272,7 +272,7 @@ impl LocalisationTrait for LexerError {
             LexerError::NoGrammar => {
                 let message = LocalisationData {
                     component: "i18n_lexer".to_string(),
-                    identifier: "no_grammar_syntax".to_string(),
+                    identifier: "no_grammar".to_string(),
                     values: None,
                 };
                 let mut values = HashMap::<String, PlaceholderValue>::new();
-- 
2.43.0


From 29b654b29d2c58cd773396ec1614b02bdcfb7a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:57 +0000
Subject: [PATCH 27/46] fix: name of the type of registry errors in localised
 messages

---
 crates/utility/src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/utility/src/error.rs b/crates/utility/src/error.rs
index e9afd00..70d251c 100644
--- a/crates/utility/src/error.rs
+++ b/crates/utility/src/error.rs
@@ -31,7 +31,7 @@ impl LocalisationErrorTrait for RegistryError {}
 
 impl LocalisationTrait for RegistryError {
     fn localisation_data(&self) -> LocalisationData {
-        let type_string = PlaceholderValue::String("IcuError".to_string());
+        let type_string = PlaceholderValue::String("RegistryError".to_string());
         match self {
             #[cfg(not(feature = "extend"))]
             RegistryError::LanguageIdentifier(error) => {
-- 
2.43.0


From 5096187c018b24d9dcb27c5be4e4ad0a818b88a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:59 +0000
Subject: [PATCH 28/46] fix: format error messages that contain literal text
 patterns

---
 crates/localiser/src/error.rs        | 4 ++--
 crates/provider/sqlite3/src/error.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/localiser/src/error.rs b/crates/localiser/src/error.rs
index beb9780..17e5869 100644
--- a/crates/localiser/src/error.rs
+++ b/crates/localiser/src/error.rs
@@ -994,7 +994,7 @@ impl LocalisationTrait for FormatterError {
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
                     identifier: "invalid_root".to_string(),
-                    values: None,
+                    values: Some(HashMap::<String, PlaceholderValue>::new()),
                 };
                 let mut values = HashMap::<String, PlaceholderValue>::new();
                 values.insert("type".to_string(), type_string);
@@ -1684,7 +1684,7 @@ impl LocalisationTrait for FormatterError {
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
                     identifier: "no_icu_provider".to_string(),
-                    values: None,
+                    values: Some(HashMap::<String, PlaceholderValue>::new()),
                 };
                 let mut values = HashMap::<String, PlaceholderValue>::new();
                 values.insert("type".to_string(), type_string);
diff --git a/crates/provider/sqlite3/src/error.rs b/crates/provider/sqlite3/src/error.rs
index 906833e..7e667ac 100644
--- a/crates/provider/sqlite3/src/error.rs
+++ b/crates/provider/sqlite3/src/error.rs
@@ -146,7 +146,7 @@ impl LocalisationTrait for ProviderSqlite3Error {
                 let message = LocalisationData {
                     component: "i18n_provider_sqlite3".to_string(),
                     identifier: "path_conversion".to_string(),
-                    values: None,
+                    values: Some(HashMap::<String, PlaceholderValue>::new()),
                 };
                 let mut values = HashMap::<String, PlaceholderValue>::new();
                 values.insert("type".to_string(), type_string);
-- 
2.43.0


From f9ddfcc22558e64059f5d0adc9ab4ec6375679eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:04 +0000
Subject: [PATCH 29/46] fix: left-to-right direction of Armenian, Khojki,
 Kannada, Kaithi and Todhri

---
 crates/localiser/src/script.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/localiser/src/script.rs b/crates/localiser/src/script.rs
index cbc06da..687d9b0 100644
--- a/crates/localiser/src/script.rs
+++ b/crates/localiser/src/script.rs
@@ -55,7 +55,7 @@ impl DataProvider {
             "Armn".to_string(),
             ScriptData {
                 category: Category::Alphabetic,
-                directions: vec![ScriptDirection::TopToBottomRightToLeft],
+                directions: vec![ScriptDirection::TopToBottomLeftToRight],
                 historic: false,
             },
         );
@@ -655,7 +655,7 @@ impl DataProvider {
             "Khoj".to_string(),
             ScriptData {
                 category: Category::Abugida,
-                directions: vec![ScriptDirection::TopToBottomRightToLeft],
+                directions: vec![ScriptDirection::TopToBottomLeftToRight],
                 historic: true,
             },
         );
@@ -671,8 +671,8 @@ impl DataProvider {
             "Knda".to_string(),
             ScriptData {
                 category: Category::Abugida,
-                directions: vec![ScriptDirection::TopToBottomRightToLeft],
-                historic: true,
+                directions: vec![ScriptDirection::TopToBottomLeftToRight],
+                historic: false,
             },
         );
         data.insert(
@@ -699,7 +699,7 @@ impl DataProvider {
             "Kthi".to_string(),
             ScriptData {
                 category: Category::Abugida,
-                directions: vec![ScriptDirection::TopToBottomRightToLeft],
+                directions: vec![ScriptDirection::TopToBottomLeftToRight],
                 historic: true,
             },
         );
@@ -1484,7 +1484,7 @@ impl DataProvider {
             "Todr".to_string(),
             ScriptData {
                 category: Category::Alphabetic,
-                directions: vec![ScriptDirection::TopToBottomRightToLeft],
+                directions: vec![ScriptDirection::TopToBottomLeftToRight],
                 historic: false,
             },
         );
-- 
2.43.0


From 1b2b7c166a93c33d8ae68d82797def1729d6f417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:04 +0000
Subject: [PATCH 30/46] fix: script codes of Yi and of the Japanese syllabaries

---
 crates/localiser/src/script.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/localiser/src/script.rs b/crates/localiser/src/script.rs
index 687d9b0..33251af 100644
--- a/crates/localiser/src/script.rs
+++ b/crates/localiser/src/script.rs
@@ -549,7 +549,7 @@ impl DataProvider {
             },
         );
         data.insert(
-            "Hikt".to_string(),
+            "Hrkt".to_string(),
             ScriptData {
                 category: Category::Syllabic,
                 directions: vec![
@@ -1569,10 +1569,10 @@ impl DataProvider {
             },
         );
         data.insert(
-            "Yezi".to_string(),
+            "Yiii".to_string(),
             ScriptData {
                 category: Category::Syllabic,
-                directions: vec![ScriptDirection::TopToBottomRightToLeft],
+                directions: vec![ScriptDirection::TopToBottomLeftToRight],
                 historic: false,
             },
         );
-- 
2.43.0


From 54d9fc83e0eea7395406569ee625669727637dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:02 +0000
Subject: [PATCH 31/46] fix: reject month or day zero in ISO dates instead of
 panicking

---
 crates/localiser/src/formatter.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index e2bac36..2144d8e 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -950,6 +950,10 @@ pub fn decompose_iso_date(string: &str) -> Result<Date<Iso>, FormatterError> {
             }
         }
     }
+    if month == 0 || day == 0 {
+        // Only the upper bounds are checked by ICU.
+        return Err(FormatterError::Calendar(CalendarError::OutOfRange));
+    }
     let result = Date::try_new_iso_date(year, month, day)?;
     Ok(result)
 }
-- 
2.43.0


From 535df79a3e3282b295df9ee8551a8345d299d577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:26 +0000
Subject: [PATCH 32/46] fix: reject text after the day of ISO dates

---
 crates/localiser/src/formatter.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index 2144d8e..f091db1 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -949,6 +949,10 @@ pub fn decompose_iso_date(string: &str) -> Result<Date<Iso>, FormatterError> {
                 day = u8::from_str(slice)?;
             }
         }
+        if parts.len() > index + 1 {
+            // Text after the day.
+            return Err(FormatterError::Calendar(CalendarError::Parse));
+        }
     }
     if month == 0 || day == 0 {
         // Only the upper bounds are checked by ICU.
-- 
2.43.0


From 0c0d05220435b106c9afc7ace69feedc2e083064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:32 +0000
Subject: [PATCH 33/46] fix: name the column when an INTEGER or REAL column has
 an unexpected default

---
 crates/provider/sqlite3/src/provider.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index 287d0bf..e69d835 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -2053,7 +2053,7 @@ fn columns_check(
     );
     match type_ {
         "INTEGER" => {
-            let dflt_value: Option<usize> = row.get(4)?;
+            let dflt_value: Option<String> = row.get(4)?; // Text of the default expression.
             match default {
                 DefaultValue::Null => {
                     if dflt_value.is_some() {
@@ -2069,7 +2069,7 @@ fn columns_check(
                 }
                 // Included even though currently no default values are used.
                 DefaultValue::Integer(value) => {
-                    if dflt_value.is_none() || dflt_value != Some(value) {
+                    if dflt_value != Some(value.to_string()) {
                         return Err(SchemaError::ColumnDefault(
                             table.to_string(),
                             name.to_string(),
@@ -2089,7 +2089,7 @@ fn columns_check(
             }
         }
         "REAL" => {
-            let dflt_value: Option<f64> = row.get(4)?;
+            let dflt_value: Option<String> = row.get(4)?; // Text of the default expression.
             match default {
                 DefaultValue::Null => {
                     if dflt_value.is_some() {
@@ -2105,7 +2105,7 @@ fn columns_check(
                 }
                 // Included even though currently no default values are used.
                 DefaultValue::Real(value) => {
-                    if dflt_value.is_none() || dflt_value != Some(value) {
+                    if dflt_value != Some(value.to_string()) {
                         return Err(SchemaError::ColumnDefault(
                             table.to_string(),
                             name.to_string(),
-- 
2.43.0


From a801b2c8abf0fe110b887a468fe0e375f638e5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:32 +0000
Subject: [PATCH 34/46] fix: no panic for an unsupported schema version when
 the path is not Unicode

---
 crates/provider/sqlite3/src/provider.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index e69d835..3e684e0 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -1936,7 +1936,7 @@ pub fn verify_schema(connection: &Connection) -> Result<String, SchemaError> {
         }
         _ => {
             return Err(SchemaError::Version(
-                connection.path().unwrap().to_string(),
+                connection.path().unwrap_or_default().to_string(),
                 "1.0".to_string(),
             ))
         }
-- 
2.43.0


From 83771f910e331283485550905da36c610cd84fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:58 +0000
Subject: [PATCH 35/46] fix: name the missing column, not the last one, when a
 column of a table is missing

---
 crates/provider/sqlite3/src/provider.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index 3e684e0..826aaff 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -1604,13 +1604,6 @@ pub fn verify_schema(connection: &Connection) -> Result<String, SchemaError> {
             table_exists(&table_list, "component")?;
             table_exists(&table_list, "languageData")?;
 
-            // Check required columns exists
-            last_column_exists(connection, "contributor", 7, "verified")?;
-            last_column_exists(connection, "language", 4, "added")?;
-            last_column_exists(connection, "pattern", 7, "verified")?;
-            last_column_exists(connection, "component", 5, "added")?;
-            last_column_exists(connection, "languageData", 5, "ratio")?;
-
             // Table: contributor
             let mut statement =
                 connection.prepare("SELECT * FROM pragma_table_info('contributor');")?;
@@ -1933,6 +1926,13 @@ pub fn verify_schema(connection: &Connection) -> Result<String, SchemaError> {
                     _ => {}
                 }
             }
+
+            // Check trailing columns exists
+            last_column_exists(connection, "contributor", 7, "verified")?;
+            last_column_exists(connection, "language", 4, "added")?;
+            last_column_exists(connection, "pattern", 7, "verified")?;
+            last_column_exists(connection, "component", 5, "added")?;
+            last_column_exists(connection, "languageData", 5, "ratio")?;
         }
         _ => {
             return Err(SchemaError::Version(
-- 
2.43.0


From 8006aaad9e5e6580471af4c0ab94f42502993f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:19 +0000
Subject: [PATCH 36/46] fix: script codes of Gurung Khema and Zanabazar Square

---
 crates/localiser/src/script.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/localiser/src/script.rs b/crates/localiser/src/script.rs
index 33251af..a3f257c 100644
--- a/crates/localiser/src/script.rs
+++ b/crates/localiser/src/script.rs
@@ -408,7 +408,7 @@ impl DataProvider {
             },
         );
         data.insert(
-            "Gukn".to_string(),
+            "Gukh".to_string(),
             ScriptData {
                 category: Category::Abugida,
                 directions: vec![ScriptDirection::TopToBottomLeftToRight],
@@ -1577,7 +1577,7 @@ impl DataProvider {
             },
         );
         data.insert(
-            "Zand".to_string(),
+            "Zanb".to_string(),
             ScriptData {
                 category: Category::Abugida,
                 directions: vec![ScriptDirection::TopToBottomLeftToRight],
-- 
2.43.0


From c139e5f374e66f1295576a2c14fdd17c1b61916f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:03 +0000
Subject: [PATCH 37/46] fix: the Ethiopic script is not historic

---
 crates/localiser/src/script.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/localiser/src/script.rs b/crates/localiser/src/script.rs
index a3f257c..16d2b56 100644
--- a/crates/localiser/src/script.rs
+++ b/crates/localiser/src/script.rs
@@ -321,7 +321,7 @@ impl DataProvider {
             ScriptData {
                 category: Category::Abugida,
                 directions: vec![ScriptDirection::TopToBottomLeftToRight],
-                historic: true,
+                historic: false,
             },
         );
         data.insert(
-- 
2.43.0


From 83ae7e804a694b1b91b20f8c2e941c11d3628b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:37 +0000
Subject: [PATCH 38/46] fix: name the part and the named string in their places
 in the text of FormatterError::PatternPart

---
 crates/localiser/src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/localiser/src/error.rs b/crates/localiser/src/error.rs
index 17e5869..0f00282 100644
--- a/crates/localiser/src/error.rs
+++ b/crates/localiser/src/error.rs
@@ -1783,7 +1783,7 @@ impl Display for FormatterError {
                 write!(
                     formatter,
                     "FormatterError::PatternPart: Failed to retrieve the part ‘{}’ of the pattern for the named string ‘{}’.",
-                    identifier, index
+                    index, identifier
                 ),
             FormatterError::InvalidOptionValue( value, option, keyword ) =>
                 write!(
-- 
2.43.0


From c50fe73472900b4b57afe778cea3918cc24cf3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:37 +0000
Subject: [PATCH 39/46] fix: no line break in the text of
 LocaliserError::CacheEntry

---
 crates/localiser/src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/localiser/src/error.rs b/crates/localiser/src/error.rs
index 0f00282..af1921b 100644
--- a/crates/localiser/src/error.rs
+++ b/crates/localiser/src/error.rs
@@ -663,7 +663,7 @@ impl Display for LocaliserError {
             },
             LocaliserError::CacheEntry( component, identifier ) => write!(
                 formatter,
-                "LocaliserError::CacheEntry: Unable to get the string for the component ‘{}’ with the identifier
+                "LocaliserError::CacheEntry: Unable to get the string for the component ‘{}’ with the identifier \
                 ‘{}’ as the cache entry requires values for formatting.",
                 component,
                 identifier
-- 
2.43.0


From 3c4a8a2d17e9c8ddb16d9ad0a2a51fb10aa5de58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:37 +0000
Subject: [PATCH 40/46] fix: name the column and the table in their places in
 the text of SchemaError::ColumnMismatch

---
 crates/provider/sqlite3/src/error.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/provider/sqlite3/src/error.rs b/crates/provider/sqlite3/src/error.rs
index 7e667ac..9293b74 100644
--- a/crates/provider/sqlite3/src/error.rs
+++ b/crates/provider/sqlite3/src/error.rs
@@ -505,8 +505,8 @@ impl Display for SchemaError {
                 formatter,
                 "Check `verify_schema()` as default value type does not match column type for \
                 the column ‘{}’ of table ‘{}’.",
-                table,
-                column
+                column,
+                table
             ),
         }
     }
-- 
2.43.0


From 41acc0fb6bec92e468c67bfb3796eb82b3f5d812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:41 +0000
Subject: [PATCH 41/46] fix: name the option, the keyword and the calendar when
 an option is invalid

---
 crates/localiser/src/formatter.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index f091db1..74fc8eb 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -1113,7 +1113,7 @@ fn part_pattern(
                 group = Some(decimal_grouping_display(value.as_str())?);
             } else {
                 return Err(FormatterError::InvalidOption(
-                    value.as_str().to_string(),
+                    key.as_str().to_string(),
                     "decimal".to_string(),
                     placeholder_token.string.as_str().to_string(),
                 ));
@@ -1137,10 +1137,10 @@ fn part_pattern(
                 length_time = Some(time_length(value.as_str())?);
             } else if key.as_str() == "calendar" {
                 if !option_selectors.calendars.contains(&value.as_str()) {
-                    return Err(FormatterError::InvalidOption(
+                    return Err(FormatterError::InvalidOptionValue(
                         value.as_str().to_string(),
-                        "ordinal".to_string(),
-                        placeholder_token.string.as_str().to_string(),
+                        "calendar".to_string(),
+                        "date_time".to_string(),
                     ));
                 }
                 let mut new_calendar = "-u-ca-".to_string();
@@ -1181,8 +1181,8 @@ fn part_pattern(
                 calendar = Some(calendar_locale);
             } else {
                 return Err(FormatterError::InvalidOption(
-                    value.as_str().to_string(),
-                    "date-time".to_string(),
+                    key.as_str().to_string(),
+                    "date_time".to_string(),
                     placeholder_token.string.as_str().to_string(),
                 ));
             }
-- 
2.43.0


From ad034ca28914328a4f862634acd17fa8db2b0d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:36 +0000
Subject: [PATCH 42/46] fix: one instance per language tag when several threads
 look it up at once

---
 crates/utility/src/language.rs | 63 +++++++++++-----------------------
 1 file changed, 20 insertions(+), 43 deletions(-)

diff --git a/crates/utility/src/language.rs b/crates/utility/src/language.rs
index e2a3033..28fb067 100644
--- a/crates/utility/src/language.rs
+++ b/crates/utility/src/language.rs
@@ -180,29 +180,20 @@ impl LanguageTagRegistry {
         // Requested tag is not in registry, validate the supplied tag.
         let new_tag = IcuLanguage::canonicalize(language_tag)?;
 
-        // Check if requested tag is just another deprecated tag of already registered tag.
-        {
-            #[cfg(not(feature = "sync"))]
-            if let Some(result) = self.tags.borrow().get(&new_tag) {
-                self.deprecated
-                    .borrow_mut()
-                    .insert(language_tag.to_string(), RefCount::clone(result));
-                return Ok(RefCount::clone(result));
-            }
+        // Use the already registered tag when the requested tag is just another deprecated tag of it
+        // (or another thread added it in the meantime), otherwise add to registry. Return reference
+        // counted tag.
+        #[cfg(not(feature = "sync"))]
+        let mut tags = self.tags.borrow_mut();
 
-            #[cfg(feature = "sync")]
-            if let Some(result) = self.tags.lock().unwrap().get(&new_tag) {
-                self.deprecated
-                    .lock()
-                    .unwrap()
-                    .insert(language_tag.to_string(), RefCount::clone(result));
-                return Ok(RefCount::clone(result));
-            }
-        }
+        #[cfg(feature = "sync")]
+        let mut tags = self.tags.lock().unwrap();
 
-        // Requested tag is not in tags or deprecated, add to registry and return reference counted
-        // tag.
-        let rc_new_tag = RefCount::new(LanguageTag { tag: new_tag });
+        let rc_new_tag = RefCount::clone(
+            tags.entry(new_tag.clone())
+                .or_insert_with(|| RefCount::new(LanguageTag { tag: new_tag })),
+        );
+        drop(tags);
         if language_tag != rc_new_tag.as_str() {
             #[cfg(not(feature = "sync"))]
             self.deprecated
@@ -216,19 +207,7 @@ impl LanguageTagRegistry {
                 .insert(language_tag.to_string(), RefCount::clone(&rc_new_tag));
         }
 
-        #[cfg(not(feature = "sync"))]
-        self.tags.borrow_mut().insert(
-            rc_new_tag.as_str().to_string(),
-            RefCount::clone(&rc_new_tag),
-        );
-
-        #[cfg(feature = "sync")]
-        self.tags.lock().unwrap().insert(
-            rc_new_tag.as_str().to_string(),
-            RefCount::clone(&rc_new_tag),
-        );
-
-        Ok(RefCount::clone(&rc_new_tag))
+        Ok(rc_new_tag)
     }
 
     /// Obtain a reference counted [`Rc`] or [`Arc`] (using feature `sync`) ICU4X
@@ -270,19 +249,17 @@ impl LanguageTagRegistry {
 
         let icu_language = RefCount::new(language_tag.icu_language());
 
+        // Another thread may have added the language in the meantime, then that instance is used.
         #[cfg(not(feature = "sync"))]
-        self.icu.borrow_mut().insert(
-            RefCount::clone(language_tag),
-            RefCount::clone(&icu_language),
-        );
+        let mut icu = self.icu.borrow_mut();
 
         #[cfg(feature = "sync")]
-        self.icu.lock().unwrap().insert(
-            RefCount::clone(language_tag),
-            RefCount::clone(&icu_language),
-        );
+        let mut icu = self.icu.lock().unwrap();
 
-        icu_language
+        RefCount::clone(
+            icu.entry(RefCount::clone(language_tag))
+                .or_insert(icu_language),
+        )
     }
 
     /// Returns a vector list of all the registered language tags of the [BCP 47 Language Tag]
-- 
2.43.0


From 84520a79101b3b8c9e3dcfb4fd07180451d2fee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:26 +0000
Subject: [PATCH 43/46] fix: no stack overflow for long chains of branches in a
 pattern string

---
 crates/localiser/src/formatter.rs | 77 +++++++++++--------------------
 1 file changed, 26 insertions(+), 51 deletions(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index 74fc8eb..b5f54f6 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -213,18 +213,19 @@ impl Formatter {
         named: &str,
     ) -> Result<String, FormatterError> {
         let mut string = String::new();
-        let mut _len = 0usize;
-        {
-            let Some(pattern) = self.patterns.get(named) else {
+
+        // The strings being formatted, each with the index of its next part. The last one is the innermost branch.
+        let mut strings_stack = vec![(named.to_string(), 0usize)];
+        while let Some((named, i)) = strings_stack.last_mut() {
+            let Some(pattern) = self.patterns.get(named.as_str()) else {
                 return Err(FormatterError::PatternNamed(named.to_string()));
             };
-            _len = pattern.len();
-        }
-        let mut i = 0usize;
-        while i < _len {
-            let Some(part) = self.part_ref(named, &i) else {
-                return Err(FormatterError::PatternPart(named.to_string(), i));
+            let Some(part) = pattern.get(*i) else {
+                strings_stack.pop();
+                continue;
             };
+            *i += 1;
+            let mut branch: Option<String> = None;
             match part {
                 PatternPart::Text(text) => {
                     #[cfg(feature = "logging")]
@@ -411,8 +412,7 @@ impl Formatter {
                             match value {
                                 PlaceholderValue::FixedDecimal(number) => self.find_number_sign(
                                     localiser,
-                                    values,
-                                    &mut string,
+                                    &mut branch,
                                     number,
                                     plurals,
                                     &data_locale,
@@ -422,8 +422,7 @@ impl Formatter {
                                     let fixed_decimal = FixedDecimal::from(*number);
                                     self.find_number_sign(
                                         localiser,
-                                        values,
-                                        &mut string,
+                                        &mut branch,
                                         &fixed_decimal,
                                         plurals,
                                         &data_locale,
@@ -434,8 +433,7 @@ impl Formatter {
                                     let fixed_decimal = FixedDecimal::from(*number);
                                     self.find_number_sign(
                                         localiser,
-                                        values,
-                                        &mut string,
+                                        &mut branch,
                                         &fixed_decimal,
                                         plurals,
                                         &data_locale,
@@ -449,8 +447,7 @@ impl Formatter {
                                     )?;
                                     self.find_number_sign(
                                         localiser,
-                                        values,
-                                        &mut string,
+                                        &mut branch,
                                         &fixed_decimal,
                                         plurals,
                                         &data_locale,
@@ -472,8 +469,7 @@ impl Formatter {
                                     let fixed_decimal = FixedDecimal::from(*number);
                                     self.find_number_sign(
                                         localiser,
-                                        values,
-                                        &mut string,
+                                        &mut branch,
                                         &fixed_decimal,
                                         plurals,
                                         &data_locale,
@@ -490,33 +486,15 @@ impl Formatter {
                         ComplexType::Select => {
                             match value {
                                 PlaceholderValue::String(value) => {
-                                    self.select(
-                                        localiser,
-                                        values,
-                                        &mut string,
-                                        value,
-                                        *selectors_index,
-                                    )?;
+                                    self.select(&mut branch, value, *selectors_index)?;
                                 }
                                 PlaceholderValue::TaggedString(value) => {
                                     // LanguageTag is not used, and TaggedString is just treated as String for the selector
-                                    self.select(
-                                        localiser,
-                                        values,
-                                        &mut string,
-                                        value.as_string(),
-                                        *selectors_index,
-                                    )?;
+                                    self.select(&mut branch, value.as_string(), *selectors_index)?;
                                 }
                                 PlaceholderValue::Localised(localised, _) => {
                                     // LanguageTag is not used, and TaggedString is just treated as String for the selector
-                                    self.select(
-                                        localiser,
-                                        values,
-                                        &mut string,
-                                        localised,
-                                        *selectors_index,
-                                    )?;
+                                    self.select(&mut branch, localised, *selectors_index)?;
                                 }
                                 _ => {
                                     return Err(FormatterError::InvalidValue(
@@ -571,7 +549,9 @@ impl Formatter {
                     string.push_str(&function(parameters)?);
                 }
             }
-            i += 1;
+            if let Some(named) = branch {
+                strings_stack.push((named, 0usize));
+            }
         }
         Ok(string)
     }
@@ -580,8 +560,7 @@ impl Formatter {
     fn find_number_sign(
         &mut self,
         localiser: &Localiser,
-        values: &HashMap<String, PlaceholderValue>,
-        string: &mut String,
+        branch: &mut Option<String>,
         fixed_decimal: &FixedDecimal,
         plurals: PluralRules,
         data_locale: &DataLocale,
@@ -630,16 +609,13 @@ impl Formatter {
                 i += 1;
             }
         }
-        let part_string = self.format_pattern(localiser, values, &_named)?;
-        string.push_str(part_string.as_str());
+        *branch = Some(_named);
         Ok(())
     }
 
     fn select(
-        &mut self,
-        localiser: &Localiser,
-        values: &HashMap<String, PlaceholderValue>,
-        string: &mut String,
+        &self,
+        branch: &mut Option<String>,
         string_value: &String,
         selectors_index: usize,
     ) -> Result<(), FormatterError> {
@@ -656,8 +632,7 @@ impl Formatter {
                 selectors_index,
             ));
         };
-        let part_string = self.format_pattern(localiser, values, &named.to_string())?;
-        string.push_str(part_string.as_str());
+        *branch = Some(named.to_string());
         Ok(())
     }
 
-- 
2.43.0


From 10c4a37b8a0011f5b0c5ac51a435f90e839fef9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:16 +0000
Subject: [PATCH 44/46] fix: strings of components and identifiers that contain
 the separator do not share a cache entry

---
 crates/localiser/src/localiser.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/localiser/src/localiser.rs b/crates/localiser/src/localiser.rs
index eba429d..a17e48d 100644
--- a/crates/localiser/src/localiser.rs
+++ b/crates/localiser/src/localiser.rs
@@ -947,7 +947,8 @@ impl Localiser {
         fallback: bool, // true = fallback to default language.
         caching: bool, // true = cache the resultant Formatter for repeating use with different values.
     ) -> Result<(RefCount<String>, RefCount<LanguageTag>), LocaliserError> {
-        let mut combined = component.to_string();
+        // Either name may contain the separator, thus the length of the component's name is included.
+        let mut combined = format!("{}/{}", component.len(), component);
         combined.push('/');
         combined.push_str(identifier.as_ref());
         {
@@ -1125,7 +1126,8 @@ impl Localiser {
         fallback: bool, // true = fallback to default language, None = use the Localiser default.
         caching: bool, // true = cache the resultant Formatter for repeating use with different values.
     ) -> Result<(RefCount<String>, RefCount<LanguageTag>), LocaliserError> {
-        let mut combined = component.to_string();
+        // Either name may contain the separator, thus the length of the component's name is included.
+        let mut combined = format!("{}/{}", component.len(), component);
         combined.push('/');
         combined.push_str(identifier);
         {
-- 
2.43.0


From 1a31b20704445692711c80d31393ca9c60521147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:45 +0000
Subject: [PATCH 45/46] fix: the feature icu_extended provides locales instead
 of language identifiers, as documented

---
 crates/localiser/src/formatter.rs |  4 ++--
 crates/utility/src/error.rs       | 18 +++++++++---------
 crates/utility/src/language.rs    |  4 ++--
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index b5f54f6..2575bae 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -23,10 +23,10 @@ use icu_locid::Locale;
 use icu_plurals::{PluralCategory, PluralRules};
 use icu_provider::prelude::DataLocale;
 
-#[cfg(not(feature = "extend"))]
+#[cfg(not(feature = "icu_extended"))]
 use icu_locid::LanguageIdentifier as IcuLanguage;
 
-#[cfg(feature = "extend")]
+#[cfg(feature = "icu_extended")]
 use icu_locid::Locale as IcuLanguage;
 
 #[cfg(feature = "logging")]
diff --git a/crates/utility/src/error.rs b/crates/utility/src/error.rs
index 70d251c..052b207 100644
--- a/crates/utility/src/error.rs
+++ b/crates/utility/src/error.rs
@@ -15,15 +15,15 @@ use std::{
 ///
 /// * `LanguageIdentifier`: Wraps the ICU's [`ParserError`],
 ///
-/// else if cargo feature `extend` is enabled:
+/// else if cargo feature `icu_extended` is enabled:
 ///
 /// * `Locale`: Wraps the ICU's `ParserError`.
 #[derive(Debug, PartialEq, Copy, Clone)]
 #[non_exhaustive]
 pub enum RegistryError {
-    #[cfg(not(feature = "extend"))]
+    #[cfg(not(feature = "icu_extended"))]
     LanguageIdentifier(ParserError),
-    #[cfg(feature = "extend")]
+    #[cfg(feature = "icu_extended")]
     Locale(ParserError),
 }
 
@@ -33,7 +33,7 @@ impl LocalisationTrait for RegistryError {
     fn localisation_data(&self) -> LocalisationData {
         let type_string = PlaceholderValue::String("RegistryError".to_string());
         match self {
-            #[cfg(not(feature = "extend"))]
+            #[cfg(not(feature = "icu_extended"))]
             RegistryError::LanguageIdentifier(error) => {
                 // Currently no localisation is available for this error type: ParserError.
                 let mut values = HashMap::<String, PlaceholderValue>::new();
@@ -53,7 +53,7 @@ impl LocalisationTrait for RegistryError {
                 }
             }
 
-            #[cfg(feature = "extend")]
+            #[cfg(feature = "icu_extended")]
             RegistryError::Locale(error) => {
                 // Currently no localisation is available for this error type: ParserError.
                 let mut values = HashMap::<String, PlaceholderValue>::new();
@@ -79,12 +79,12 @@ impl LocalisationTrait for RegistryError {
 impl Display for RegistryError {
     fn fmt(&self, formatter: &mut Formatter) -> Result {
         match self {
-            #[cfg(not(feature = "extend"))]
+            #[cfg(not(feature = "icu_extended"))]
             RegistryError::LanguageIdentifier(ref error) => {
                 write!(formatter, "RegistryError::LanguageIdentifier: [{}].", error)
             }
 
-            #[cfg(feature = "extend")]
+            #[cfg(feature = "icu_extended")]
             RegistryError::Locale(ref error) => {
                 write!(formatter, "RegistryError::Locale: [{}].", error)
             }
@@ -96,12 +96,12 @@ impl Display for RegistryError {
 impl Error for RegistryError {}
 
 impl From<ParserError> for RegistryError {
-    #[cfg(not(feature = "extend"))]
+    #[cfg(not(feature = "icu_extended"))]
     fn from(error: ParserError) -> RegistryError {
         RegistryError::LanguageIdentifier(error)
     }
 
-    #[cfg(feature = "extend")]
+    #[cfg(feature = "icu_extended")]
     fn from(error: ParserError) -> RegistryError {
         RegistryError::Locale(error)
     }
diff --git a/crates/utility/src/language.rs b/crates/utility/src/language.rs
index 28fb067..608df67 100644
--- a/crates/utility/src/language.rs
+++ b/crates/utility/src/language.rs
@@ -5,10 +5,10 @@
 
 use crate::RegistryError;
 
-#[cfg(not(feature = "extend"))]
+#[cfg(not(feature = "icu_extended"))]
 use icu_locid::LanguageIdentifier as IcuLanguage;
 
-#[cfg(feature = "extend")]
+#[cfg(feature = "icu_extended")]
 use icu_locid::Locale as IcuLanguage;
 
 #[cfg(not(feature = "sync"))]
-- 
2.43.0


From 75b3e63228b3d8807af42a7b6973214ef9cd7f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:13 +0000
Subject: [PATCH 46/46] fix: the option calendar keeps the other extensions of
 the language tag

---
 crates/localiser/src/formatter.rs | 44 ++++++-------------------------
 1 file changed, 8 insertions(+), 36 deletions(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index 2575bae..5beb6f2 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -19,7 +19,7 @@ use icu_datetime::{
     DateFormatter, DateTimeFormatter, TimeFormatter,
 };
 use icu_decimal::{options, FixedDecimalFormatter};
-use icu_locid::Locale;
+use icu_locid::{extensions::unicode::key, Locale};
 use icu_plurals::{PluralCategory, PluralRules};
 use icu_provider::prelude::DataLocale;
 
@@ -1118,41 +1118,13 @@ fn part_pattern(
                         "date_time".to_string(),
                     ));
                 }
-                let mut new_calendar = "-u-ca-".to_string();
-                new_calendar.push_str(value.as_str());
-                let mut locale_string = icu_language.to_string();
-                match locale_string.find("-u-ca-") {
-                    None => {
-                        locale_string.push_str(new_calendar.as_str());
-                    }
-                    Some(tag_position) => {
-                        let mut hyphens = locale_string.match_indices('-');
-                        while let Some(pair) = hyphens.next() {
-                            if pair.0 == tag_position {
-                                hyphens.next(); // There is an experimental advance_by( 2 ) to replace two next()
-                                hyphens.next();
-                                match hyphens.next() {
-                                    None => {
-                                        // The calendar tag is last tag
-                                        let old_calendar =
-                                            locale_string.get(tag_position..).unwrap();
-                                        locale_string = locale_string
-                                            .replace(old_calendar, new_calendar.as_str());
-                                    }
-                                    Some(end) => {
-                                        new_calendar.push('-');
-                                        let old_calendar =
-                                            locale_string.get(tag_position..=end.0).unwrap();
-                                        locale_string = locale_string
-                                            .replace(old_calendar, new_calendar.as_str());
-                                    }
-                                }
-                                break;
-                            }
-                        }
-                    }
-                }
-                let calendar_locale = locale_string.parse()?;
+                // Replaces the calendar of the language tag, if it has one, all other extensions are kept.
+                let mut calendar_locale = Locale::from(RefCount::as_ref(icu_language).clone());
+                calendar_locale
+                    .extensions
+                    .unicode
+                    .keywords
+                    .set(key!("ca"), value.parse()?);
                 calendar = Some(calendar_locale);
             } else {
                 return Err(FormatterError::InvalidOption(
-- 
2.43.0

