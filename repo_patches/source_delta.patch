From 014246389ec12d9d2c4334378d061d3ff375a5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:04 +0000
Subject: [PATCH 01/47] verif hook: library target exposing the parser modules
 under cfg(pycore_verif)

---
 src/lib.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)
 create mode 100644 src/lib.rs

diff --git a/src/lib.rs b/src/lib.rs
new file mode 100644
index 0000000..7b20c4d
--- /dev/null
+++ b/src/lib.rs
@@ -0,0 +1,22 @@
+//! Verification hook: this library target is empty unless the crate is built with
+//! `--cfg pycore_verif`. With that flag it exposes the parser modules, which otherwise
+//! are private to the binary, so that an external harness can drive them.
+#![allow(unexpected_cfgs)]
+
+#[cfg(pycore_verif)]
+pub mod parser;
+
+#[cfg(pycore_verif)]
+pub use crate::parser::{
+    blocks::Blocks,
+    expressions::Expressions,
+    functions::Functions,
+    nodes::ASTNode,
+    parser::{Parser, PythonCoreParser},
+    patterns::Patterns,
+    source_buffer::{SourceBuffer, SourceBufferFunctionality},
+    statements::Statements,
+    tokenizer::{PythonCoreTokenizer, Tokenizer},
+    tokens::Token,
+    trivias::Trivia,
+};
-- 
2.43.0


From 411c243fc5a8de800aec05a70eccfc4fe74608a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:13 +0000
Subject: [PATCH 02/47] fix: apply indentation to the line that follows a blank
 or comment-only line

---
 src/parser/tokenizer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 1b90aaa..5e9dea6 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -50,6 +50,7 @@ impl Tokenizer for PythonCoreTokenizer {
             match &self.is_at_beginning_of_line {
                 true => {
                     self.is_at_beginning_of_line = false;
+                    is_blank_line = false;
                     let mut col: u32 = 0;
                     while   match self.source_buffer.get_char() {
                             ' ' => {
-- 
2.43.0


From 2ca8330e127b7b3c0e5ba09537cd7685575c8ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:15 +0000
Subject: [PATCH 03/47] fix: a line that starts with a backslash continuation
 is not a blank line

---
 src/parser/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 5e9dea6..5f39416 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -67,7 +67,7 @@ impl Tokenizer for PythonCoreTokenizer {
                     };
 
                     match self.source_buffer.get_char() {
-                        '#' | '\r' | '\n' | '\\' => {
+                        '#' | '\r' | '\n' => {
                             if col == 0 && self.is_interactive {
                                 match self.source_buffer.get_char() {
                                     '\r' | '\n' => {
-- 
2.43.0


From f352b85d46e2ea239b2681b463525a1e5f29077d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:16 +0000
Subject: [PATCH 04/47] fix: keep the trivia collected before an indent or
 dedent token

---
 src/parser/tokenizer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 5f39416..ca5ef12 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -111,11 +111,11 @@ impl Tokenizer for PythonCoreTokenizer {
             match self.pending {
                 _ if self.pending < 0 => {
                     self.pending += 1;
-                    return Ok( Box::new( Token::Dedent(None) ) )
+                    return Ok( Box::new( Token::Dedent(match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) } ) ) )
                 },
                 _ if self.pending > 0 => {
                     self.pending -= 1;
-                    return Ok( Box::new( Token::Indent(None) ) )
+                    return Ok( Box::new( Token::Indent(match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) } ) ) )
                 },
                 _ => { }
             }
-- 
2.43.0


From 9e86001219baeaed619af33f6641f833d95296f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:40 +0000
Subject: [PATCH 05/47] fix: close the open blocks at end of file instead of
 dropping their dedents

---
 src/parser/tokenizer.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index ca5ef12..2f6c38e 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -67,7 +67,7 @@ impl Tokenizer for PythonCoreTokenizer {
                     };
 
                     match self.source_buffer.get_char() {
-                        '#' | '\r' | '\n' => {
+                        '#' | '\r' | '\n' | '\0' => {
                             if col == 0 && self.is_interactive {
                                 match self.source_buffer.get_char() {
                                     '\r' | '\n' => {
@@ -173,6 +173,14 @@ impl Tokenizer for PythonCoreTokenizer {
                 /* Handle End Of File */
                 match self.source_buffer.get_char() {
                     '\0' => {
+                        while self.parenthesis.is_empty() && self.indent_stack.len() > 1 {
+                            self.indent_stack.pop();
+                            self.pending -= 1;
+                        }
+                        if self.pending < 0 {
+                            self.pending += 1;
+                            return Ok( Box::new( Token::Dedent(match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) } ) ) )
+                        }
                         return Ok(Box::new(Token::EOF(self.source_buffer.get_position(), match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) } )))
                     },
                     _ => {}
-- 
2.43.0


From 73aedb8e51d79dd9f58dfcb55d2949b8b3af046d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:09 +0000
Subject: [PATCH 06/47] fix: end the last logical line at end of file when it
 has no line break

---
 src/parser/tokenizer.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 2f6c38e..300fc42 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -11,7 +11,8 @@ pub struct PythonCoreTokenizer {
     tab_size: u32,
     is_interactive: bool,
     pending: i32,
-    indent_stack: Vec<u32>
+    indent_stack: Vec<u32>,
+    is_line_open: bool
 }
 
 
@@ -33,7 +34,8 @@ impl Tokenizer for PythonCoreTokenizer {
             tab_size: 4,
             is_interactive: false,
             pending: 0,
-            indent_stack: { let mut stack : Vec<u32> = Vec::new(); stack.push(0); stack }
+            indent_stack: { let mut stack : Vec<u32> = Vec::new(); stack.push(0); stack },
+            is_line_open: false
         }
     }
 
@@ -159,8 +161,11 @@ impl Tokenizer for PythonCoreTokenizer {
                                     }
                                 } {};
                         match buffer.as_str().starts_with("# type:") {
-                            true => return Ok(Box::new(Token::TypeComment(self.token_start_position, self.source_buffer.get_position(),
-                                                                          match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) }, Box::new(buffer)))),
+                            true => {
+                                self.is_line_open = true;
+                                return Ok(Box::new(Token::TypeComment(self.token_start_position, self.source_buffer.get_position(),
+                                                                          match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) }, Box::new(buffer))))
+                            },
                             _ => {
                                 trivia_collector.push(Box::new( Trivia::Comment(self.token_start_position, self.source_buffer.get_position(), Box::new(buffer)) ) );
                             }
@@ -173,6 +178,16 @@ impl Tokenizer for PythonCoreTokenizer {
                 /* Handle End Of File */
                 match self.source_buffer.get_char() {
                     '\0' => {
+                        if self.is_line_open && self.parenthesis.is_empty() {
+                            self.is_line_open = false;
+                            return Ok(Box::new(Token::Newline(
+                                self.token_start_position,
+                                self.source_buffer.get_position(),
+                                match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) },
+                                ' ',
+                                ' '
+                            )))
+                        }
                         while self.parenthesis.is_empty() && self.indent_stack.len() > 1 {
                             self.indent_stack.pop();
                             self.pending -= 1;
@@ -198,6 +213,7 @@ impl Tokenizer for PythonCoreTokenizer {
                             continue 'outer;
                         }
                         else {
+                            self.is_line_open = false;
                             return Ok(Box::new(Token::Newline(
                                 self.token_start_position,
                                 self.source_buffer.get_position(),
@@ -215,6 +231,7 @@ impl Tokenizer for PythonCoreTokenizer {
                             continue 'outer;
                         }
                         else {
+                            self.is_line_open = false;
                             return Ok(Box::new(Token::Newline(
                                 self.token_start_position,
                                 self.source_buffer.get_position(),
@@ -232,6 +249,7 @@ impl Tokenizer for PythonCoreTokenizer {
                             continue 'outer;
                         }
                         else {
+                            self.is_line_open = false;
                             return Ok(Box::new(Token::Newline(
                                 self.token_start_position,
                                 self.source_buffer.get_position(),
@@ -267,6 +285,7 @@ impl Tokenizer for PythonCoreTokenizer {
                     _ => {}
                 };
 
+                self.is_line_open = true;
                 break 'outer;
             }
         }
-- 
2.43.0


From 2db289bdfbd2d2628b849d1d6a94a2b081160df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:10 +0000
Subject: [PATCH 07/47] fix: record the line break that was read in newline
 trivia

---
 src/parser/tokenizer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 300fc42..9f5f9a4 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -227,7 +227,7 @@ impl Tokenizer for PythonCoreTokenizer {
                         let _ = self.source_buffer.advance();
                         self.is_at_beginning_of_line = true;
                         if is_blank_line || self.parenthesis.is_empty() == false {
-                            trivia_collector.push(Box::new( Trivia::Newline(self.token_start_position, self.source_buffer.get_position(), '\r', '\n') ) );
+                            trivia_collector.push(Box::new( Trivia::Newline(self.token_start_position, self.source_buffer.get_position(), '\r', ' ') ) );
                             continue 'outer;
                         }
                         else {
@@ -245,7 +245,7 @@ impl Tokenizer for PythonCoreTokenizer {
                         let _ = self.source_buffer.advance();
                         self.is_at_beginning_of_line = true;
                         if is_blank_line || self.parenthesis.is_empty() == false {
-                            trivia_collector.push(Box::new( Trivia::Newline(self.token_start_position, self.source_buffer.get_position(), '\r', '\n') ) );
+                            trivia_collector.push(Box::new( Trivia::Newline(self.token_start_position, self.source_buffer.get_position(), '\n', ' ') ) );
                             continue 'outer;
                         }
                         else {
-- 
2.43.0


From bb4c054353d4081cec885d16de6661b776a70da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:12 +0000
Subject: [PATCH 08/47] fix: a backslash in a string literal escapes the
 character that follows it

---
 src/parser/tokenizer.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 9f5f9a4..535dd03 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -1052,6 +1052,10 @@ impl Tokenizer for PythonCoreTokenizer {
                         for _i in 1 ..= 3 { buffer.push(self.source_buffer.get_char()); let _ = self.source_buffer.advance(); }
                         false
                     },
+                    ( '\\', a, _ ) if a != '\0' => {
+                        for _i in 1 ..= 2 { buffer.push(self.source_buffer.get_char()); let _ = self.source_buffer.advance(); }
+                        true
+                    },
                     _ => {
                         buffer.push(self.source_buffer.get_char());
                         let _ = self.source_buffer.advance();
@@ -1065,6 +1069,12 @@ impl Tokenizer for PythonCoreTokenizer {
                 buffer.push(self.source_buffer.get_char());
                 let _ = self.source_buffer.advance();
                 while match self.source_buffer.get_char() {
+                    '\\' => {
+                        let ( _, a, b ) = self.source_buffer.peek_three_chars();
+                        let count = match ( a, b ) { ( '\0', _ ) => 1, ( '\r', '\n' ) => 3, _ => 2 };
+                        for _i in 1 ..= count { buffer.push(self.source_buffer.get_char()); let _ = self.source_buffer.advance(); }
+                        true
+                    },
                     '\0' | '\r' | '\n' => return Err(format!("Unterminated single quote string at {}!", self.source_buffer.get_position()).to_string()),
                     _ => {
                         if self.source_buffer.get_char() == quote {
-- 
2.43.0


From 52a9d49dc805ef01382786dc59ef193b1ebbbfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:14 +0000
Subject: [PATCH 09/47] fix: recognise the prefixes of bytes literals

---
 src/parser/tokenizer.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 535dd03..92134aa 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -641,6 +641,16 @@ impl Tokenizer for PythonCoreTokenizer {
                                                             match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) } ))),
                     "yield" => Ok(Box::new(Token::PyYield(self.token_start_position, self.source_buffer.get_position(),
                                                             match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) } ))),
+                    "b" |
+                    "B" |
+                    "br" |
+                    "Br" |
+                    "bR" |
+                    "BR" |
+                    "rb" |
+                    "rB" |
+                    "Rb" |
+                    "RB" |
                     "r" |
                     "u" |
                     "R" |
-- 
2.43.0


From 9603106e384e1ae55c1efbfb53ebb857814488fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:31 +0000
Subject: [PATCH 10/47] fix: a zero literal does not take in the character that
 follows it

---
 src/parser/tokenizer.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 92134aa..d27c335 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -779,8 +779,6 @@ impl Tokenizer for PythonCoreTokenizer {
                     },
                     _ => {
                         let mut non_zero = false;
-                        buffer.push( self.source_buffer.get_char() );
-                        let _ = self.source_buffer.advance();
                         while   match self.source_buffer.get_char() {
                             '0' => {
                                 buffer.push( self.source_buffer.get_char() );
-- 
2.43.0


From 270daca8693fd85b0b0fc2084946dac220001a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:32 +0000
Subject: [PATCH 11/47] fix: accept underscores between the digits of a zero
 literal

---
 src/parser/tokenizer.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index d27c335..25525d3 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -780,6 +780,14 @@ impl Tokenizer for PythonCoreTokenizer {
                     _ => {
                         let mut non_zero = false;
                         while   match self.source_buffer.get_char() {
+                            '_' => {
+                                buffer.push( self.source_buffer.get_char() );
+                                let _ = self.source_buffer.advance();
+                                match self.source_buffer.get_char() {
+                                    '0'..='9' => true,
+                                    _ => return Err( format!("Syntax Error at {} - Expected digit after '_'!", &self.get_position()) )
+                                }
+                            },
                             '0' => {
                                 buffer.push( self.source_buffer.get_char() );
                                 let _ = self.source_buffer.advance();
-- 
2.43.0


From 26844b693971cbbc868dc44e28b206a6cb2f1dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:34 +0000
Subject: [PATCH 12/47] fix: an exponent needs at least one digit

---
 src/parser/tokenizer.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 25525d3..69dd8c5 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -829,8 +829,9 @@ impl Tokenizer for PythonCoreTokenizer {
                             },
                             _ => {}
                         }
-                        match self.source_buffer.get_char() {
-                            'e' | 'E' => {
+                        match self.source_buffer.peek_three_chars() {
+                            ( 'e' | 'E', '0' ..= '9', _ ) |
+                            ( 'e' | 'E', '+' | '-', '0' ..= '9' ) => {
                                 non_zero = false;
                                 buffer.push( self.source_buffer.get_char() );
                                 let _ = self.source_buffer.advance();
@@ -899,8 +900,9 @@ impl Tokenizer for PythonCoreTokenizer {
                     },
                     _ => false
                 } {};
-                match self.source_buffer.get_char() {
-                    'e' | 'E' => {
+                match self.source_buffer.peek_three_chars() {
+                    ( 'e' | 'E', '0' ..= '9', _ ) |
+                    ( 'e' | 'E', '+' | '-', '0' ..= '9' ) => {
                         buffer.push( self.source_buffer.get_char() );
                         let _ = self.source_buffer.advance();
                         match self.source_buffer.get_char() {
@@ -984,8 +986,9 @@ impl Tokenizer for PythonCoreTokenizer {
                     },
                     _ => {}
                 }
-                match &self.source_buffer.get_char() {
-                    'e' | 'E' => {
+                match self.source_buffer.peek_three_chars() {
+                    ( 'e' | 'E', '0' ..= '9', _ ) |
+                    ( 'e' | 'E', '+' | '-', '0' ..= '9' ) => {
                         buffer.push( self.source_buffer.get_char() );
                         let _ = self.source_buffer.advance();
                         match self.source_buffer.get_char() {
-- 
2.43.0


From 06123e6b374c5ed57ac53d4971d584c48f6df779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:42 +0000
Subject: [PATCH 13/47] fix: accept the empty dictionary display

---
 src/parser/expressions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 894b7f4..8855f54 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -185,7 +185,7 @@ impl Expressions for PythonCoreParser {
                                                     _ => Ok(Box::new(ASTNode::AtomDictionary(start_pos, self.lexer.get_position(), Box::new(symbol1), None, Box::new(symbol2))))
                                                 }
                                             },
-                                            None => Err(format!("SyntaxError at {}: Expecting dictionary/set in atom expression!", start_pos))
+                                            None => Ok(Box::new(ASTNode::AtomDictionary(start_pos, self.lexer.get_position(), Box::new(symbol1), None, Box::new(symbol2))))
                                         }
                                     },
                                     _ => Err(format!("SyntaxError at {}: Expecting end marker in dictionary/set atom expression!", start_pos))
-- 
2.43.0


From 8d342ddf5840fd720ce18507e18e58738fccd322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:44 +0000
Subject: [PATCH 14/47] fix: accept a trailing comma in parenthesised and list
 displays

---
 src/parser/expressions.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 8855f54..a066ba3 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -802,6 +802,8 @@ impl Expressions for PythonCoreParser {
                                         match &self.symbol {
                                             Ok(s4) => {
                                                 match &(**s4) {
+                                                    Token::PyRightParen(..) |
+                                                    Token::PyRightBracket(..) => { },
                                                     Token::PyMul(..) => {
                                                         nodes_list.push(self.parse_expressions_star_expr()?)
                                                     },
-- 
2.43.0


From 21f9afa19359a02486445cd3ab2e13397caa88f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:45 +0000
Subject: [PATCH 15/47] fix: parse the arguments of a call as an argument list

---
 src/parser/expressions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index a066ba3..6a591be 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -843,7 +843,7 @@ impl Expressions for PythonCoreParser {
                             Ok(s2) => {
                                 match &(**s2) {
                                     Token::PyRightParen(..) => { },
-                                    _ => right = Some(self.parse_expressions_subscript_list()?)
+                                    _ => right = Some(self.parse_expressions_arglist()?)
                                 }
                             },
                             _ => return Err(format!("Syntax Error at {} - Expecting symbol in trailer expression!", self.lexer.get_position()))
-- 
2.43.0


From c6618902663008b7462d85a98bdbcd4dc9da3b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:46 +0000
Subject: [PATCH 16/47] fix: only a second colon opens the step of a slice

---
 src/parser/expressions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 6a591be..c3c9d6f 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -962,7 +962,7 @@ impl Expressions for PythonCoreParser {
                         };
                         match &self.symbol {
                             Ok(s3) => {
-                                match &**s2{
+                                match &**s3 {
                                     Token::PyColon(..) => {
                                         symbol2 = Some(Box::new((**s3).clone()));
                                         let _ = self.advance();
-- 
2.43.0


From da28064ebac469f1483607d4d6121e55cbd5231d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:48 +0000
Subject: [PATCH 17/47] fix: accept an open slice before a comma in a subscript
 list

---
 src/parser/expressions.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index c3c9d6f..3e1aa5e 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -954,6 +954,7 @@ impl Expressions for PythonCoreParser {
                             Ok(s3) => {
                                 match &**s3 {
                                     Token::PyRightBracket(..) |
+                                    Token::PyComa(..) |
                                     Token::PyColon(..) => { },
                                     _ => second_node = Some(self.parse_expressions_test()?)
                                 }
@@ -970,6 +971,7 @@ impl Expressions for PythonCoreParser {
                                             Ok(s4) => {
                                                 match &**s4 {
                                                     Token::PyRightBracket(..) |
+                                                    Token::PyComa(..) |
                                                     Token::PyColon(..) => { },
                                                     _ => third_node = Some(self.parse_expressions_test()?)
                                                 }
-- 
2.43.0


From 4ef33499582b68fb871e9b36fe84ad3aa3bb6b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:50 +0000
Subject: [PATCH 18/47] fix: accept a trailing comma in a subscript list

---
 src/parser/expressions.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 3e1aa5e..08b4c96 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -915,8 +915,18 @@ impl Expressions for PythonCoreParser {
                             let symbol1 = (**s).clone();
                             separators_list.push( Box::new(symbol1) );
                             let _ = self.advance();
-                            nodes_list.push( self.parse_expressions_subscript()? );
-                            true
+                            match &self.symbol {
+                                Ok(s2) => {
+                                    match &**s2 {
+                                        Token::PyRightBracket(..) => false,
+                                        _ => {
+                                            nodes_list.push( self.parse_expressions_subscript()? );
+                                            true
+                                        }
+                                    }
+                                },
+                                _ => return Err(format!("Syntax Error at {} - Expecting symbol in subscript list expression!", self.lexer.get_position()))
+                            }
                         },
                         _ => false
                     }
-- 
2.43.0


From dcf206dcfed18393af900f509eedb75c7c62b312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:17 +0000
Subject: [PATCH 19/47] fix: targets of for, del and comprehensions are bit-or
 expressions, so 'in' ends them

---
 src/parser/expressions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 08b4c96..c4b1702 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1013,7 +1013,7 @@ impl Expressions for PythonCoreParser {
                     Token::PyMul(..) => {
                         nodes_list.push(self.parse_expressions_star_expr()?)
                     },
-                    _ => nodes_list.push(self.parse_expressions_named_expression()?)
+                    _ => nodes_list.push(self.parse_expressions_expr()?)
                 }
             },
             _ => return Err(format!("SyntaxError at {}: Expecting symbol in list expression!", self.lexer.get_position()))
@@ -1036,7 +1036,7 @@ impl Expressions for PythonCoreParser {
                                             true
                                         },
                                         _ => {
-                                            nodes_list.push(self.parse_expressions_named_expression()?);
+                                            nodes_list.push(self.parse_expressions_expr()?);
                                             true
                                         }
                                     }
-- 
2.43.0


From ad3a4c24bcf8a6ad467ad55e883b9667c172f82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:19 +0000
Subject: [PATCH 20/47] fix: accept a trailing comma in the targets of del

---
 src/parser/expressions.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index c4b1702..b057aab 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1029,7 +1029,10 @@ impl Expressions for PythonCoreParser {
                             match &self.symbol {
                                 Ok(s2) => {
                                     match &(**s2) {
-                                        Token::PyIn(..) => false,
+                                        Token::PyIn(..) |
+                                        Token::PySemiColon(..) |
+                                        Token::Newline(..) |
+                                        Token::EOF(..) => false,
                                         Token::PyComa(..) => return Err(format!("SyntaxError at {}: Missing elements between two ',' in list expression!", self.lexer.get_position())),
                                         Token::PyMul(..) => {
                                             nodes_list.push(self.parse_expressions_star_expr()?);
-- 
2.43.0


From 4a26546baaef6d028706228a477742ae887684e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:21 +0000
Subject: [PATCH 21/47] fix: accept a trailing comma in an expression list
 before ':', '=' and a type comment

---
 src/parser/expressions.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index b057aab..0e67939 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1079,6 +1079,9 @@ impl Expressions for PythonCoreParser {
                                     match &(**s2) {
                                         Token::Newline(..) |
                                         Token::PySemiColon(..) |
+                                        Token::PyColon(..) |
+                                        Token::PyAssign(..) |
+                                        Token::TypeComment(..) |
                                         Token::EOF(..) => false,
                                         Token::PyComa(..) => return Err(format!("SyntaxError at {}: Missing elements between two ',' in list expression!", self.lexer.get_position())),
                                         _ => {
-- 
2.43.0


From f6a76e844502acfcc88468d2e41be168781eb9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:22 +0000
Subject: [PATCH 22/47] fix: accept a dictionary display with three or more
 entries

---
 src/parser/expressions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 0e67939..689264b 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1196,7 +1196,7 @@ impl Expressions for PythonCoreParser {
                                         },
                                         _ => return Err(format!("SyntaxError at {}: Expecting symbol in argument list expression!", self.lexer.get_position()))
                                     };
-                                    false
+                                    true
                                 },
                                 _ => false
                             }
-- 
2.43.0


From 08d8be812bb3403d58a01dae3e63624a4ba47f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:24 +0000
Subject: [PATCH 23/47] fix: an entry of a dictionary or set display starts at
 its own first token

---
 src/parser/expressions.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 689264b..fdcfd0a 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1162,6 +1162,7 @@ impl Expressions for PythonCoreParser {
                                     let symbol1 = (**s).clone();
                                     separators_list.push( Box::new(symbol1) );
                                     let _ = self.advance();
+                                    let entry_pos = self.lexer.get_position();
                                     match &self.symbol {
                                         Ok(s2) => {
                                             match &(**s2) {
@@ -1171,7 +1172,7 @@ impl Expressions for PythonCoreParser {
                                                     let symbol2 = (**s2).clone();
                                                     let _ = self.advance();
                                                     let right_node = self.parse_expressions_expr()?;
-                                                    nodes_list.push( Box::new( ASTNode::PowerDictionary(start_pos, self.lexer.get_position(), Box::new(symbol2), right_node) ) );
+                                                    nodes_list.push( Box::new( ASTNode::PowerDictionary(entry_pos, self.lexer.get_position(), Box::new(symbol2), right_node) ) );
                                                     true
                                                 },
                                                 _ => {
@@ -1183,7 +1184,7 @@ impl Expressions for PythonCoreParser {
                                                                     let symbol3 = (**s3).clone();
                                                                     let _ = self.advance();
                                                                     let right_node = self.parse_expressions_test()?;
-                                                                    nodes_list.push( Box::new( ASTNode::DictionaryEntry(start_pos, self.lexer.get_position(), left_node, Box::new(symbol3), right_node) ) );
+                                                                    nodes_list.push( Box::new( ASTNode::DictionaryEntry(entry_pos, self.lexer.get_position(), left_node, Box::new(symbol3), right_node) ) );
                                                                     true
                                                                 },
                                                                 _ => return Err(format!("SyntaxError at {}: Expecting ':' in dictionary entry expression!", self.lexer.get_position()))
@@ -1213,6 +1214,7 @@ impl Expressions for PythonCoreParser {
                                     let symbol1 = (**s).clone();
                                     separators_list.push( Box::new(symbol1) );
                                     let _ = self.advance();
+                                    let entry_pos = self.lexer.get_position();
                                     match &self.symbol {
                                         Ok(s2) => {
                                             match &(**s2) {
@@ -1222,7 +1224,7 @@ impl Expressions for PythonCoreParser {
                                                     let symbol2 = (**s2).clone();
                                                     let _ = self.advance();
                                                     let right_node = self.parse_expressions_expr()?;
-                                                    nodes_list.push( Box::new( ASTNode::MulSet(start_pos, self.lexer.get_position(), Box::new(symbol2), right_node) ) );
+                                                    nodes_list.push( Box::new( ASTNode::MulSet(entry_pos, self.lexer.get_position(), Box::new(symbol2), right_node) ) );
                                                     true
                                                 },
                                                 _ => {
-- 
2.43.0


From 46aa23f48c3fc7a20f3a8d2f7d2eb299a6ca18f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 24/47] fix: accept dictionary and set comprehensions

---
 src/parser/expressions.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index fdcfd0a..85ba4eb 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1152,8 +1152,17 @@ impl Expressions for PythonCoreParser {
             },
             _ => return Err(format!("Syntax Error at {} - Expecting symbol in dictionary/set expression!", self.lexer.get_position()))
         }
-        match is_dictionary {
-            true => {
+        let is_comprehension = match &self.symbol {
+            Ok(s) => match &**s {
+                Token::PyFor(..) |
+                Token::PyAsync(..) => true,
+                _ => false
+            },
+            _ => return Err(format!("Syntax Error at {} - Expecting symbol in dictionary/set expression!", self.lexer.get_position()))
+        };
+        match ( is_comprehension, is_dictionary ) {
+            ( true, _ ) => nodes_list.push( self.parse_expressions_comp_for()? ),
+            ( _ , true ) => {
                 while
                     match &self.symbol {
                         Ok(s) => {
@@ -1205,7 +1214,7 @@ impl Expressions for PythonCoreParser {
                         _ => return Err(format!("Syntax Error at {} - Expecting symbol in argument list expression!", self.lexer.get_position()))
                     } {};
             },
-            false => {
+            ( _ , false ) => {
                 while
                     match &self.symbol {
                         Ok(s) => {
-- 
2.43.0


From 1466d9df345e5d4c74e837ac81e2a4e8adc6b6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:06 +0000
Subject: [PATCH 25/47] fix: a star parameter of a lambda takes no default
 value

---
 src/parser/expressions.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 85ba4eb..5e5c3fa 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1586,7 +1586,7 @@ impl Expressions for PythonCoreParser {
                     Token::PyMul(..) => {
                         mul_symbol = Some( s.clone() );
                         let _ = self.advance();
-                        mul_node = Some( self.parse_expressions_var_args_assignments()?  );
+                        mul_node = Some( self.parse_expressions_vfp_def()? );
                         while
                             match &self.symbol {
                                 Ok(s2) => {
@@ -1600,7 +1600,7 @@ impl Expressions for PythonCoreParser {
                                                         Token::PyPower(..) => {
                                                             power_symbol = Some( s3.clone() );
                                                             let _ = self.advance();
-                                                            power_node = Some( self.parse_expressions_var_args_assignments()? );
+                                                            power_node = Some( self.parse_expressions_vfp_def()? );
                                                             match &self.symbol {
                                                                 Ok(s4) => {
                                                                     match &**s4 {
@@ -1633,7 +1633,7 @@ impl Expressions for PythonCoreParser {
                     Token::PyPower(..) => {
                         power_symbol = Some( s.clone() );
                         let _ = self.advance();
-                        power_node = Some( self.parse_expressions_var_args_assignments()? );
+                        power_node = Some( self.parse_expressions_vfp_def()? );
                         match &self.symbol {
                             Ok(s2) => {
                                 match &**s2 {
@@ -1698,7 +1698,7 @@ impl Expressions for PythonCoreParser {
                                                                         (true, Token::PyMul(..)) => {
                                                                             mul_symbol = Some( s20.clone() );
                                                                             let _ = self.advance();
-                                                                            mul_node = Some( self.parse_expressions_var_args_assignments()?  );
+                                                                            mul_node = Some( self.parse_expressions_vfp_def()? );
                                                                             while
                                                                                 match &self.symbol {
                                                                                     Ok(s30) => {
@@ -1712,7 +1712,7 @@ impl Expressions for PythonCoreParser {
                                                                                                             Token::PyPower(..) => {
                                                                                                                 power_symbol = Some( s31.clone() );
                                                                                                                 let _ = self.advance();
-                                                                                                                power_node = Some( self.parse_expressions_var_args_assignments()? );
+                                                                                                                power_node = Some( self.parse_expressions_vfp_def()? );
                                                                                                                 match &self.symbol {
                                                                                                                     Ok(s32) => {
                                                                                                                         match &**s32 {
@@ -1746,7 +1746,7 @@ impl Expressions for PythonCoreParser {
                                                                         (true, Token::PyPower(..)) => {
                                                                             power_symbol = Some( s20.clone() );
                                                                             let _ = self.advance();
-                                                                            power_node = Some( self.parse_expressions_var_args_assignments()? );
+                                                                            power_node = Some( self.parse_expressions_vfp_def()? );
                                                                             match &self.symbol {
                                                                                 Ok(s21) => {
                                                                                     match &**s21 {
@@ -1772,7 +1772,7 @@ impl Expressions for PythonCoreParser {
                                                         Token::PyMul(..) => {
                                                             mul_symbol = Some( s6.clone() );
                                                             let _ = self.advance();
-                                                            mul_node = Some( self.parse_expressions_var_args_assignments()?  );
+                                                            mul_node = Some( self.parse_expressions_vfp_def()? );
                                                             while
                                                                 match &self.symbol {
                                                                     Ok(s8) => {
@@ -1786,7 +1786,7 @@ impl Expressions for PythonCoreParser {
                                                                                             Token::PyPower(..) => {
                                                                                                 power_symbol = Some( s9.clone() );
                                                                                                 let _ = self.advance();
-                                                                                                power_node = Some( self.parse_expressions_var_args_assignments()? );
+                                                                                                power_node = Some( self.parse_expressions_vfp_def()? );
                                                                                                 match &self.symbol {
                                                                                                     Ok(s10) => {
                                                                                                         match &**s10 {
@@ -1820,7 +1820,7 @@ impl Expressions for PythonCoreParser {
                                                         Token::PyPower(..) => {
                                                             power_symbol = Some( s6.clone() );
                                                             let _ = self.advance();
-                                                            power_node = Some( self.parse_expressions_var_args_assignments()? );
+                                                            power_node = Some( self.parse_expressions_vfp_def()? );
                                                             match &self.symbol {
                                                                 Ok(s7) => {
                                                                     match &**s7 {
-- 
2.43.0


From 9f9a026f71a1b12a7f37baab4e6d3ae80fd83926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:08 +0000
Subject: [PATCH 26/47] fix: accept a bare star in the parameters of a lambda

---
 src/parser/expressions.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 5e5c3fa..874fea3 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1586,7 +1586,10 @@ impl Expressions for PythonCoreParser {
                     Token::PyMul(..) => {
                         mul_symbol = Some( s.clone() );
                         let _ = self.advance();
-                        mul_node = Some( self.parse_expressions_vfp_def()? );
+                        mul_node = match &self.symbol {
+                            Ok(s) if matches!(**s, Token::PyComa(..)) => None,
+                            _ => Some( self.parse_expressions_vfp_def()? )
+                        };
                         while
                             match &self.symbol {
                                 Ok(s2) => {
@@ -1698,7 +1701,10 @@ impl Expressions for PythonCoreParser {
                                                                         (true, Token::PyMul(..)) => {
                                                                             mul_symbol = Some( s20.clone() );
                                                                             let _ = self.advance();
-                                                                            mul_node = Some( self.parse_expressions_vfp_def()? );
+                                                                            mul_node = match &self.symbol {
+                                                                                Ok(s) if matches!(**s, Token::PyComa(..)) => None,
+                                                                                _ => Some( self.parse_expressions_vfp_def()? )
+                                                                            };
                                                                             while
                                                                                 match &self.symbol {
                                                                                     Ok(s30) => {
@@ -1772,7 +1778,10 @@ impl Expressions for PythonCoreParser {
                                                         Token::PyMul(..) => {
                                                             mul_symbol = Some( s6.clone() );
                                                             let _ = self.advance();
-                                                            mul_node = Some( self.parse_expressions_vfp_def()? );
+                                                            mul_node = match &self.symbol {
+                                                                Ok(s) if matches!(**s, Token::PyComa(..)) => None,
+                                                                _ => Some( self.parse_expressions_vfp_def()? )
+                                                            };
                                                             while
                                                                 match &self.symbol {
                                                                     Ok(s8) => {
-- 
2.43.0


From d6cc093a318ced68b75d8e1e174d4a64cfb0d2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:10 +0000
Subject: [PATCH 27/47] fix: accept a trailing comma in the parameters of a
 lambda

---
 src/parser/expressions.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 874fea3..c942b73 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1600,6 +1600,7 @@ impl Expressions for PythonCoreParser {
                                             match &self.symbol {
                                                 Ok(s3) => {
                                                     match &**s3 {
+                                                        Token::PyColon(..) => false,
                                                         Token::PyPower(..) => {
                                                             power_symbol = Some( s3.clone() );
                                                             let _ = self.advance();
@@ -1662,6 +1663,7 @@ impl Expressions for PythonCoreParser {
                                             match &self.symbol {
                                                 Ok(s6) => {
                                                     match &**s6 {
+                                                        Token::PyColon(..) => false,
                                                         Token::PyDiv( .. ) => {
                                                             div_symbol = Some(s6.clone());
                                                             let _ = self.advance();
@@ -1675,6 +1677,7 @@ impl Expressions for PythonCoreParser {
                                                                                 match &self.symbol {
                                                                                     Ok(s12) => {
                                                                                         match &**s12 {
+                                                                                            Token::PyColon(..) => false,
                                                                                             Token::PyMul( .. ) |
                                                                                             Token::PyPower( .. ) => {
                                                                                                 coma_found = true;
@@ -1715,6 +1718,7 @@ impl Expressions for PythonCoreParser {
                                                                                                 match &self.symbol {
                                                                                                     Ok(s31) => {
                                                                                                         match &**s31 {
+                                                                                                            Token::PyColon(..) => false,
                                                                                                             Token::PyPower(..) => {
                                                                                                                 power_symbol = Some( s31.clone() );
                                                                                                                 let _ = self.advance();
@@ -1792,6 +1796,7 @@ impl Expressions for PythonCoreParser {
                                                                                 match &self.symbol {
                                                                                     Ok(s9) => {
                                                                                         match &**s9 {
+                                                                                            Token::PyColon(..) => false,
                                                                                             Token::PyPower(..) => {
                                                                                                 power_symbol = Some( s9.clone() );
                                                                                                 let _ = self.advance();
-- 
2.43.0


From 27d5ab37dcf0e9288a05675734d0f7c3553e56aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:44 +0000
Subject: [PATCH 28/47] fix: parse the bases of a class as an argument list

---
 src/parser/blocks.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index 135df0a..e10e5c8 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -629,7 +629,7 @@ impl Blocks for PythonCoreParser {
                                                             Ok(s5) => {
                                                                 match &*s5 {
                                                                     Token::PyRightParen(..) => None,
-                                                                    _ => Some(self.parse_expressions_var_args_list()?)
+                                                                    _ => Some(self.parse_expressions_arglist()?)
                                                                 }
                                                             },
                                                             _ => return Err(format!("SyntaxError at {}: Expecting symbol in class statement!", start_pos))
-- 
2.43.0


From b5a7b6bf76e87a7ce9397ae2fd918f6ecc03cb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:03 +0000
Subject: [PATCH 29/47] fix: a decorator takes in the line break that ends it

---
 src/parser/blocks.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index e10e5c8..de02a5c 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -250,6 +250,7 @@ impl Blocks for PythonCoreParser {
                                 match &*s5 {
                                     Token::Newline(..) => {
                                         let symbol4 = s5;
+                                        let _ = self.advance();
                                         Ok(Box::new( ASTNode::Decorator(start_pos, self.lexer.get_position(), symbol1, left_node,  symbol2, right_node, symbol3, symbol4) ))
                                     },
                                     _ => Err(format!("SyntaxError at {}: Expecting end of file in function input!", start_pos))
-- 
2.43.0


From 89939ff61916e073b8359c79f3bd95faa09c4a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 30/47] fix: a function definition needs a parameter list

---
 src/parser/blocks.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index de02a5c..ef6ce31 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -360,7 +360,7 @@ impl Blocks for PythonCoreParser {
                                                     Token::PyLeftParen(..) => {
                                                         Some(self.parse_blocks_parameters()?)
                                                     },
-                                                    _ => None
+                                                    _ => return Err(format!("SyntaxError at {}: Expecting '(' in function statement!", start_pos))
                                                 }
                                             },
                                             _ => return Err(format!("SyntaxError at {}: Expecting 'def' in function statement!", start_pos))
-- 
2.43.0


From 7d325aea679e26e042f7fcbcbdd0b309266e478d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:06 +0000
Subject: [PATCH 31/47] fix: single input accepts a compound statement that
 ends the source

---
 src/parser/blocks.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index ef6ce31..dd0ed0a 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -124,6 +124,9 @@ impl Blocks for PythonCoreParser {
                                         let symbol = Some( s2 );
                                         Ok(Box::new( ASTNode::SingleInput(start_pos, self.lexer.get_position(), right_node, symbol) ))
                                     },
+                                    Token::EOF(..) => {
+                                        Ok(Box::new( ASTNode::SingleInput(start_pos, self.lexer.get_position(), right_node, None) ))
+                                    },
                                     _ => Err(format!("SyntaxError at {}: Expecting Newline after compound statement in single input!", start_pos))
                                 }
                             },
-- 
2.43.0


From de31d0725bf062f602c41bfa038a8135d88e3c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 32/47] fix: report a match statement as an error instead of
 panicking

---
 src/parser/patterns.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/patterns.rs b/src/parser/patterns.rs
index 3e7eecd..51da836 100644
--- a/src/parser/patterns.rs
+++ b/src/parser/patterns.rs
@@ -9,7 +9,7 @@ pub trait Patterns {
 
 impl Patterns for PythonCoreParser {
     fn parse_patterns_match(&self) -> Result<Box<ASTNode>, String> {
-        todo!()
+        Err("SyntaxError: The match statement is not supported yet!".to_string())
     }
 }
 
-- 
2.43.0


From ed9feeccd97e9008a1d7110f887f800f64b167b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:09 +0000
Subject: [PATCH 33/47] fix: accept a trailing comma in the argument types of a
 function type

---
 src/parser/functions.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/functions.rs b/src/parser/functions.rs
index 3eee384..810b725 100644
--- a/src/parser/functions.rs
+++ b/src/parser/functions.rs
@@ -127,6 +127,7 @@ impl Functions for PythonCoreParser {
                                             match self.symbol.clone() {
                                                 Ok(s) => {
                                                     match &*s {
+                                                        Token::PyRightParen(..) => false,
                                                         Token::PyMul(..) => {
                                                             mul_symbol = Some( s );
                                                             let _ = self.advance();
-- 
2.43.0


From c43c84aa4f7c6989b6ca73b006b3d16b5891299f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:11 +0000
Subject: [PATCH 34/47] fix: accept a bare star in the argument types of a
 function type

---
 src/parser/functions.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser/functions.rs b/src/parser/functions.rs
index 810b725..4d8979b 100644
--- a/src/parser/functions.rs
+++ b/src/parser/functions.rs
@@ -78,7 +78,10 @@ impl Functions for PythonCoreParser {
                     Token::PyMul(..) => {
                         mul_symbol = Some( s );
                         let _ = self.advance();
-                        mul_node = Some( self.parse_expressions_test()? );
+                        mul_node = match self.symbol.clone() {
+                            Ok(s) if matches!(*s, Token::PyComa(..) | Token::PyRightParen(..)) => None,
+                            _ => Some( self.parse_expressions_test()? )
+                        };
                         while
                             match self.symbol.clone() {
                                     Ok(s2) => {
@@ -131,7 +134,10 @@ impl Functions for PythonCoreParser {
                                                         Token::PyMul(..) => {
                                                             mul_symbol = Some( s );
                                                             let _ = self.advance();
-                                                            mul_node = Some( self.parse_expressions_test()? );
+                                                            mul_node = match self.symbol.clone() {
+                                                                Ok(s) if matches!(*s, Token::PyComa(..) | Token::PyRightParen(..)) => None,
+                                                                _ => Some( self.parse_expressions_test()? )
+                                                            };
                                                             while
                                                                 match self.symbol.clone() {
                                                                     Ok(s2) => {
-- 
2.43.0


From a20a5033b66f2c64091706f93a06535315f62a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 35/47] fix: an import statement no longer recurses without end

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index fc937b5..678a90d 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -716,7 +716,7 @@ impl Statements for PythonCoreParser {
             Ok(s) => {
                 match &*s {
                     Token::PyImport(..) => {
-                        self.parse_statements_import_stmt()
+                        self.parse_statements_import_name()
                     },
                     Token::PyFrom(..) => {
                         self.parse_statements_import_from()
-- 
2.43.0


From cf0e6c69cafbdf8f16e8f75870a8146cd2af2991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:57 +0000
Subject: [PATCH 36/47] fix: a comma separates the message of an assert
 statement

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 678a90d..9a17882 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1156,7 +1156,7 @@ impl Statements for PythonCoreParser {
                         match self.symbol.clone() {
                             Ok(s2) => {
                                 match &*s2 {
-                                    Token::PyFrom(..) => {
+                                    Token::PyComa(..) => {
                                         let symbol2 = s2;
                                         let _ = self.advance();
                                         let right_node = self.parse_expressions_test()?;
-- 
2.43.0


From 30e4098fac96b01fa579a4aab7238ee3a61a30f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:59 +0000
Subject: [PATCH 37/47] fix: async def parses a function definition

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 9a17882..77af37e 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1228,7 +1228,7 @@ impl Statements for PythonCoreParser {
                             Ok(s) => {
                                 match &*s {
                                     Token::PyDef(..) => {
-                                        let right_node = self.parse_blocks_class_def()?;
+                                        let right_node = self.parse_blocks_func_def()?;
                                         Ok(Box::new( ASTNode::AsyncStmt(start_pos, self.lexer.get_position(), symbol, right_node) ))
                                     },
                                     Token::PyWith(..) => {
-- 
2.43.0


From 1fe904518d47f59003a22a9bdaf7f0e8aadb8075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:01 +0000
Subject: [PATCH 38/47] fix: a with item that has a target is a with item node

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 77af37e..e86d341 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1715,7 +1715,7 @@ impl Statements for PythonCoreParser {
                         let symbol = s;
                         let _ = self.advance();
                         let right_node = self.parse_expressions_expr()?;
-                        Ok(Box::new( ASTNode::ExceptStmt(start_pos, self.lexer.get_position(), left_node, symbol, right_node) ))
+                        Ok(Box::new( ASTNode::WithItem(start_pos, self.lexer.get_position(), left_node, Some((symbol, right_node))) ))
                     },
                     _ => {
                         Ok(Box::new( ASTNode::WithItem(start_pos, self.lexer.get_position(), left_node, None) ))
-- 
2.43.0


From 80caa03f20519bb5e77856a38a0f7974a8392e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:03 +0000
Subject: [PATCH 39/47] fix: accept a trailing comma in the names of a
 parenthesised from import

---
 src/parser/statements.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index e86d341..5b1fc96 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -941,8 +941,18 @@ impl Statements for PythonCoreParser {
                         Token::PyComa(..) => {
                             separators_list.push( s );
                             let _ = self.advance();
-                            nodes_list.push( self.parse_statements_import_as_name()? );
-                            true
+                            match self.symbol.clone() {
+                                Ok(s2) => {
+                                    match &*s2 {
+                                        Token::PyRightParen(..) => false,
+                                        _ => {
+                                            nodes_list.push( self.parse_statements_import_as_name()? );
+                                            true
+                                        }
+                                    }
+                                },
+                                _ => return Err(format!("SyntaxError at {}: Expecting symbol in import as names statement!", start_pos))
+                            }
                         },
                         _ => false
                     }
-- 
2.43.0


From 0917b212e3b2e31ed2cd8e6321b1b57efd16e20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 40/47] fix: a nested try statement leaves the kind of its
 outer except clauses alone

---
 src/parser/statements.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 5b1fc96..2e03f3c 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1505,7 +1505,7 @@ impl Statements for PythonCoreParser {
                     Token::PyTry(..) => {
                         let symbol1 = s;
                         let _ = self.advance();
-                        self.except_status = ET::ExceptNone;
+                        let outer_status = std::mem::replace(&mut self.except_status, ET::ExceptNone);
                         match self.symbol.clone() {
                             Ok(s2) => {
                                 match &*s2 {
@@ -1518,6 +1518,7 @@ impl Statements for PythonCoreParser {
                                                 match &*s3 {
                                                     Token::PyFinally(..) => {
                                                         let right_node = Some( self.parse_statements_finally_stmt()? );
+                                                        self.except_status = outer_status;
                                                         Ok(Box::new( ASTNode::TryStmt(start_pos, self.lexer.get_position(), symbol1, symbol2, left_node, None, None, right_node) ))
                                                     },
                                                     _ => {
@@ -1561,6 +1562,7 @@ impl Statements for PythonCoreParser {
                                                             _ => return Err(format!("SyntaxError at {}: Expecting symbol in try statement!", start_pos))
                                                         }
                                                         nodes_list.reverse();
+                                                        self.except_status = outer_status;
                                                         Ok(Box::new( ASTNode::TryStmt(start_pos, self.lexer.get_position(), symbol1, symbol2, left_node, Some( nodes_list ), else_node, right_node) ))
                                                     }
                                                 }
-- 
2.43.0


From 0e401d8f9f09f72733f210ddd1af93cf3c6d67a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:07 +0000
Subject: [PATCH 41/47] fix: accept an assignment expression as the condition
 of if, elif and while

---
 src/parser/statements.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 2e03f3c..548b523 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1270,7 +1270,7 @@ impl Statements for PythonCoreParser {
                     Token::PyIf(..) => {
                         let symbol1 = s;
                         let _ = self.advance();
-                        let left_node = self.parse_expressions_test()?;
+                        let left_node = self.parse_expressions_named_expression()?;
                         match self.symbol.clone() {
                             Ok(s2) => {
                                 match &*s2 {
@@ -1329,7 +1329,7 @@ impl Statements for PythonCoreParser {
                     Token::PyElif(..) => {
                         let symbol1 = s;
                         let _ = self.advance();
-                        let left_node = self.parse_expressions_test()?;
+                        let left_node = self.parse_expressions_named_expression()?;
                         match self.symbol.clone() {
                             Ok(s2) => {
                                 match &*s2 {
@@ -1391,7 +1391,7 @@ impl Statements for PythonCoreParser {
                     Token::PyWhile(..) => {
                         let symbol1 = s;
                         let _ = self.advance();
-                        let left_node = self.parse_expressions_test()?;
+                        let left_node = self.parse_expressions_named_expression()?;
                         match self.symbol.clone() {
                             Ok(s2) => {
                                 match &*s2 {
-- 
2.43.0


From c2a71ff51227f4a375845cfb73fa31297012f8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:09 +0000
Subject: [PATCH 42/47] fix: an except* clause needs an exception type

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 548b523..4e4af9a 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1797,7 +1797,7 @@ impl Statements for PythonCoreParser {
                         match self.symbol.clone() {
                             Ok(s2) => {
                                 match &*s2 {
-                                    Token::PyColon(..) => {
+                                    Token::PyColon(..) if symbol_mul.is_none() => {
                                         Ok(Box::new( ASTNode::ExceptClauseStmt(start_pos, self.lexer.get_position(), symbol1, symbol_mul, None) ))
                                     },
                                     _ => {
-- 
2.43.0


From 7971966f3a30d867878e7f150e3cf276736ec67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:25 +0000
Subject: [PATCH 43/47] fix: report a dedent to a column that no open block has

---
 src/parser/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 69dd8c5..76d0fdd 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -100,7 +100,7 @@ impl Tokenizer for PythonCoreTokenizer {
                                 self.indent_stack.pop();
                                 self.pending -= 1;
                             }
-                            if self.indent_stack.is_empty() || col < match self.indent_stack.last() { Some(x) => *x, _ => 0 } {
+                            if self.indent_stack.is_empty() || col != match self.indent_stack.last() { Some(x) => *x, _ => 0 } {
                                 return Err("Inconsistent indentation level in block control!".to_string())
                             }
                         }
-- 
2.43.0


From 69f3c65c0c5ed39fa204a80165f2d751bdd438f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:26 +0000
Subject: [PATCH 44/47] fix: the body of a lambda in a comprehension condition
 may itself be a lambda

---
 src/parser/expressions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index c942b73..dbbff27 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -680,7 +680,7 @@ impl Expressions for PythonCoreParser {
                                         Ok(Box::new(ASTNode::Lambda(start_pos, self.lexer.get_position(), symbol1, left, symbol2, right )))
                                     },
                                     _ => {
-                                        let right = self.parse_expressions_or_test()?;
+                                        let right = self.parse_expressions_no_cond_test()?;
                                         Ok(Box::new(ASTNode::Lambda(start_pos, self.lexer.get_position(), symbol1, left, symbol2, right )))
                                     }
                                 }
-- 
2.43.0


From 7bf930bb75a4f5ccebf9a4520ec01f5126969e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:13 +0000
Subject: [PATCH 45/47] fix: accept a trailing comma after the values of a
 parenthesised yield

---
 src/parser/expressions.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index dbbff27..a19e291 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1539,6 +1539,7 @@ impl Expressions for PythonCoreParser {
                                         Token::PySemiColon( .. ) |
                                         Token::Newline( .. ) |
                                         Token::EOF( .. ) |
+                                        Token::PyRightParen( .. ) |
                                         Token::PyColon( .. ) => false,
                                         Token::PyComa(..) => return Err(format!("SyntaxError at {}: Missing elements between two ',' in list expression!", self.lexer.get_position())),
                                         Token::PyMul(..) => {
-- 
2.43.0


From 52321da8efad8092be930105721cac40e39cf8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:53 +0000
Subject: [PATCH 46/47] fix: accept a trailing comma after yielded values that
 a type comment follows

---
 src/parser/expressions.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index a19e291..5ac54c0 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1540,6 +1540,7 @@ impl Expressions for PythonCoreParser {
                                         Token::Newline( .. ) |
                                         Token::EOF( .. ) |
                                         Token::PyRightParen( .. ) |
+                                        Token::TypeComment( .. ) |
                                         Token::PyColon( .. ) => false,
                                         Token::PyComa(..) => return Err(format!("SyntaxError at {}: Missing elements between two ',' in list expression!", self.lexer.get_position())),
                                         Token::PyMul(..) => {
-- 
2.43.0


From 70bed137a49ce93858907de44029a9278f2a9117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 47/47] fix: name the position in the error for a match
 statement

---
 src/parser/patterns.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/patterns.rs b/src/parser/patterns.rs
index 51da836..a4bf08a 100644
--- a/src/parser/patterns.rs
+++ b/src/parser/patterns.rs
@@ -1,5 +1,5 @@
 
-use crate::{ ASTNode, PythonCoreParser };
+use crate::{ ASTNode, PythonCoreParser, Tokenizer };
 
 
 pub trait Patterns {
@@ -9,7 +9,7 @@ pub trait Patterns {
 
 impl Patterns for PythonCoreParser {
     fn parse_patterns_match(&self) -> Result<Box<ASTNode>, String> {
-        Err("SyntaxError: The match statement is not supported yet!".to_string())
+        Err(format!("SyntaxError at {}: The match statement is not supported yet!", self.lexer.get_position()))
     }
 }
 
-- 
2.43.0

