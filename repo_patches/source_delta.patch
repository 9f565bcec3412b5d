From 3be8fcb22fb48784f5230768504a164a8f745c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:27 +0000
Subject: [PATCH 01/74] fix: do not underflow the end offset of the
 end-of-input token

---
 giron/src/scanner/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 9b5472b..a505541 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -1004,7 +1004,7 @@ where
             line_num: self.line,
             col: self.col,
             start: self.start,
-            end: self.current - 1,
+            end: self.current.saturating_sub(1),
         })
     }
 
-- 
2.43.0


From 58aabb9c5e893b240abce15e2ee589c449987dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:28 +0000
Subject: [PATCH 02/74] fix: report an error in the first token instead of
 panicking

---
 giron/src/parser/parser.rs   | 14 +++++++++++++-
 giron/src/scanner/scanner.rs | 18 ++++++++++++++++++
 2 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 6353f17..0f3af7e 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -75,6 +75,7 @@ pub struct Parser<I> {
     params_stack: Vec<Params>,
     marker_stack: Vec<Marker>,
     goal: SyntaxGoal,
+    first_error: Option<Error>,
 }
 
 impl<I> Parser<I>
@@ -83,7 +84,11 @@ where
 {
     pub fn new(source: I) -> Self {
         let mut scanner = Scanner::new(source);
-        let current = scanner.next(LexGoal::RegExp).unwrap();
+        // An error in the first token is reported once parsing starts.
+        let (current, first_error) = match scanner.next(LexGoal::RegExp) {
+            Ok(token) => (token, None),
+            Err(error) => (scanner.eof_token(), Some(error)),
+        };
 
         Parser {
             scanner,
@@ -99,6 +104,7 @@ where
             params_stack: vec![],
             marker_stack: vec![],
             goal: SyntaxGoal::Ambiguous,
+            first_error,
         }
     }
 
@@ -109,6 +115,9 @@ where
     /// Parse source as an ECMAScript script.
     pub fn parse_script(&mut self) -> Result<Node> {
         log!("parse_script");
+        if let Some(error) = self.first_error.take() {
+            return Err(error);
+        }
         self.goal = SyntaxGoal::Script;
         self.start_span();
         let mut body = self.parse_directive_prologues()?;
@@ -123,6 +132,9 @@ where
     /// Parse source as an ECMAScript module.
     pub fn parse_module(&mut self) -> Result<Node> {
         log!("parse_module");
+        if let Some(error) = self.first_error.take() {
+            return Err(error);
+        }
         self.goal = SyntaxGoal::Module;
         self.start_span();
         self.ctx.strict = true;
diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index a505541..d49fa69 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -1012,6 +1012,24 @@ where
         self.token(tokentype, value, None, None, None, None, None, None)
     }
 
+    /// An end-of-input token at the current position.
+    pub fn eof_token(&self) -> Token {
+        Token {
+            tokentype: TokenType::Eof,
+            value: Value::Null,
+            pattern: None,
+            flags: None,
+            octal: None,
+            cooked: None,
+            head: None,
+            tail: None,
+            line_num: self.line,
+            col: self.col,
+            start: self.start,
+            end: self.current.saturating_sub(1),
+        }
+    }
+
     fn expect(&mut self, expected: char) -> Result<()> {
         match self.consume() {
             Some(cp) if cp == expected => Ok(()),
-- 
2.43.0


From adbddf3432f99c4cc45f81db8bc767410aa0c4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:29 +0000
Subject: [PATCH 03/74] fix: reject unterminated template literals instead of
 panicking

---
 giron/src/scanner/scanner.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index d49fa69..48a74b2 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -654,7 +654,7 @@ where
                 self.consume();
                 tail = true;
             }
-            (_, _) => unreachable!(),
+            (_, _) => return self.error(ErrorType::UnexpectedEOS),
         }
         self.token(
             TokenType::Template,
@@ -689,7 +689,7 @@ where
                 self.consume();
                 tail = true;
             }
-            (_, _) => unreachable!(),
+            (_, _) => return self.error(ErrorType::UnexpectedEOS),
         }
         self.token(
             TokenType::Template,
-- 
2.43.0


From 7ec60eea32f4e44f7b66a3e1f64040f7ac689f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:29 +0000
Subject: [PATCH 04/74] fix: use the ECMAScript definition of white space

---
 giron/src/scanner/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 48a74b2..fa770ae 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -94,7 +94,7 @@ where
     fn scan_comments(&mut self) {
         loop {
             match self.peek2() {
-                (Some(cp), _) if cp.is_whitespace() => {
+                (Some(cp), _) if CodePoint::is_whitespace(cp) => {
                     self.consume();
                 }
                 (Some('\r'), Some('\n')) => {
-- 
2.43.0


From 8540abbab0e6e2871da4b91699b88f3698040d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:29 +0000
Subject: [PATCH 05/74] fix: reject unterminated multi-line comments

---
 giron/src/scanner/scanner.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index fa770ae..03a5e92 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -71,7 +71,7 @@ where
         }
 
         self.newline = false;
-        self.scan_comments();
+        self.scan_comments()?;
         self.start_new_token();
 
         match self.peek2() {
@@ -91,7 +91,7 @@ where
         }
     }
 
-    fn scan_comments(&mut self) {
+    fn scan_comments(&mut self) -> Result<()> {
         loop {
             match self.peek2() {
                 (Some(cp), _) if CodePoint::is_whitespace(cp) => {
@@ -105,8 +105,8 @@ where
                     self.consume();
                 }
                 (Some('/'), Some('/')) => self.scan_singleline_comment(),
-                (Some('/'), Some('*')) => self.scan_multiline_comment(),
-                (_, _) => break,
+                (Some('/'), Some('*')) => self.scan_multiline_comment()?,
+                (_, _) => return Ok(()),
             }
         }
     }
@@ -125,7 +125,7 @@ where
         }
     }
 
-    fn scan_multiline_comment(&mut self) {
+    fn scan_multiline_comment(&mut self) -> Result<()> {
         self.consume();
         self.consume();
         loop {
@@ -133,12 +133,12 @@ where
                 (Some('*'), Some('/')) => {
                     self.consume();
                     self.consume();
-                    break;
+                    return Ok(());
                 }
                 (Some(_), _) => {
                     self.consume();
                 }
-                (None, _) => break,
+                (None, _) => return self.error(ErrorType::UnexpectedEOS),
             }
         }
     }
-- 
2.43.0


From cf1424484a8faddaefa994d0c141aaa6acb2a6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:30 +0000
Subject: [PATCH 06/74] fix: scan the >>= operator

---
 giron/src/scanner/scanner.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 03a5e92..be565e0 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -872,6 +872,7 @@ where
                             (_, _) => self.punc1(">>>"),
                         }
                     }
+                    (Some('>'), Some('=')) => self.punc2(">>="),
                     (Some('>'), _) => self.punc1(">>"),
                     (_, _) => self.punc0(">"),
                 }
-- 
2.43.0


From cc776886f08dc34265b84e1d30273693aa6a12ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:01 +0000
Subject: [PATCH 07/74] fix: track line terminators before a token, not inside
 it

---
 giron/src/parser/parser.rs   |  3 +--
 giron/src/scanner/scanner.rs | 17 +++++++++++++++--
 giron/src/token/token.rs     |  5 +++++
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 0f3af7e..deea1d8 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -4030,9 +4030,8 @@ where
     }
 
     fn advance(&mut self, goal: LexGoal) -> Result<Token> {
-        let prev_line_num = self.current.line_num;
         let token = mem::replace(&mut self.current, self.scanner.next(goal)?);
-        self.has_line_terminator = self.current.line_num > prev_line_num;
+        self.has_line_terminator = self.current.newline;
         Ok(token)
     }
 
diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index be565e0..7809cd8 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -36,6 +36,9 @@ pub struct Scanner<I> {
     pub line: usize,
     pub col: usize,
     pub newline: bool,
+    start_line: usize,
+    newline_before: bool,
+    escaped: bool,
     reader: Reader<I>,
     record_raw: bool,
     raw_string: String,
@@ -55,6 +58,9 @@ where
             line: 1,
             col: 1,
             newline: false,
+            start_line: 1,
+            newline_before: false,
+            escaped: false,
             reader: Reader::new(source),
             record_raw: false,
             raw_string: String::with_capacity(8),
@@ -971,6 +977,9 @@ where
     fn start_new_token(&mut self) {
         self.col = 1;
         self.start = self.current;
+        self.start_line = self.line;
+        self.newline_before = self.newline;
+        self.escaped = false;
     }
 
     fn start_recording(&mut self) {
@@ -1002,7 +1011,9 @@ where
             cooked,
             head,
             tail,
-            line_num: self.line,
+            line_num: self.start_line,
+            newline: self.newline_before,
+            escaped: self.escaped,
             col: self.col,
             start: self.start,
             end: self.current.saturating_sub(1),
@@ -1024,7 +1035,9 @@ where
             cooked: None,
             head: None,
             tail: None,
-            line_num: self.line,
+            line_num: self.start_line,
+            newline: self.newline_before,
+            escaped: false,
             col: self.col,
             start: self.start,
             end: self.current.saturating_sub(1),
diff --git a/giron/src/token/token.rs b/giron/src/token/token.rs
index fea3a0b..200b08a 100644
--- a/giron/src/token/token.rs
+++ b/giron/src/token/token.rs
@@ -25,7 +25,12 @@ pub struct Token {
     pub cooked: Option<String>,
     pub head: Option<bool>,
     pub tail: Option<bool>,
+    /// Line on which the token starts.
     pub line_num: usize,
+    /// Whether a line terminator precedes the token.
+    pub newline: bool,
+    /// Whether an identifier or keyword was spelled with a unicode escape.
+    pub escaped: bool,
     pub col: usize,
     pub start: usize,
     pub end: usize,
-- 
2.43.0


From 1a80e2b6d7227bb0611d2bfe24f858153d9c7c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:01 +0000
Subject: [PATCH 08/74] fix: scan unicode escapes in identifiers

---
 giron/src/codepoint/codepoint.rs |  2 +-
 giron/src/scanner/scanner.rs     | 20 ++++++++++++++------
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/giron/src/codepoint/codepoint.rs b/giron/src/codepoint/codepoint.rs
index b9518ac..df08f6e 100644
--- a/giron/src/codepoint/codepoint.rs
+++ b/giron/src/codepoint/codepoint.rs
@@ -42,7 +42,7 @@ impl CodePoint for char {
 
     fn is_identifier_continue(self) -> bool {
         match self {
-            '$' | '_' | 'A'..='Z' | 'a'..='z' | '0'..='9' | '\u{005C}' => true,
+            '$' | '_' | 'A'..='Z' | 'a'..='z' | '0'..='9' | '\u{200C}' | '\u{200D}' => true,
             _ => self.is_id_continue(),
         }
     }
diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 7809cd8..aba64b2 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -81,7 +81,7 @@ where
         self.start_new_token();
 
         match self.peek2() {
-            (Some(cp), _) if cp.is_identifier_start() => self.scan_identifier(),
+            (Some(cp), _) if cp == '\\' || cp.is_identifier_start() => self.scan_identifier(),
             (Some('"'), _) | (Some('\''), _) => self.scan_string_literal(),
             (Some('.'), Some(cp)) if cp.is_decimal_digit() => self.scan_numeric_literal(),
             (Some(cp), _) if cp.is_decimal_digit() => self.scan_numeric_literal(),
@@ -159,11 +159,16 @@ where
         let part = self.scan_until_with(
             |cp| cp != '\\' && !cp.is_identifier_continue(),
             &mut |this| {
-                let cp = this.consume().unwrap();
-                if cp == '\\' {
-                    this.scan_unicode_esc_seq()
+                if this.matches('\\') {
+                    this.escaped = true;
+                    let cp = this.scan_unicode_esc_seq()?;
+                    if cp.is_identifier_continue() {
+                        Ok(cp)
+                    } else {
+                        this.error(ErrorType::InvalidOrUnexpectedToken)
+                    }
                 } else {
-                    Ok(cp)
+                    Ok(this.consume().unwrap())
                 }
             },
         )?;
@@ -184,7 +189,10 @@ where
 
     fn scan_identifier_start(&mut self) -> Result<char> {
         let cp = match self.peek() {
-            Some('\\') => self.scan_unicode_esc_seq()?,
+            Some('\\') => {
+                self.escaped = true;
+                self.scan_unicode_esc_seq()?
+            }
             Some(_) => self.consume().unwrap(),
             None => return self.error(ErrorType::UnexpectedEOS),
         };
-- 
2.43.0


From 89cc8e0d129445e2159a7066972be9fb60a26211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:02 +0000
Subject: [PATCH 09/74] fix: reject empty and out-of-range \u{...} escapes

---
 giron/src/scanner/scanner.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index aba64b2..ac09e68 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -213,17 +213,22 @@ where
 
         if self.matches('{') {
             self.consume();
+            let digits = self.scan_until_with(|cp| !cp.is_hex_digit(), &mut |this| {
+                this.consume().ok_or(Error {
+                    line: this.line,
+                    col: this.col,
+                    errortype: ErrorType::UnexpectedEOS,
+                })
+            })?;
+            if digits.is_empty() {
+                return self.error(ErrorType::InvalidUnicodeEscapeSequence);
+            }
             // reduce scanned chars to u32
-            let value = self
-                .scan_until_with(|cp| !cp.is_hex_digit(), &mut |this| {
-                    this.consume().ok_or(Error {
-                        line: this.line,
-                        col: this.col,
-                        errortype: ErrorType::UnexpectedEOS,
-                    })
-                })?
-                .chars()
-                .fold(0, |value, cp| value * 16 + cp.to_digit(16).unwrap());
+            let value = digits.chars().fold(0u32, |value, cp| {
+                value
+                    .saturating_mul(16)
+                    .saturating_add(cp.to_digit(16).unwrap())
+            });
             // consume "}"
             self.expect('}')?;
             char::from_u32(value).ok_or(Error {
-- 
2.43.0


From e2fd77a55fa79941d4eb9ed60c6838d38b7eb459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:56 +0000
Subject: [PATCH 10/74] fix: combine surrogate pair escapes in strings and
 templates

---
 giron/src/scanner/scanner.rs | 45 ++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index ac09e68..e9538c5 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -208,6 +208,32 @@ where
     /// "\" "u" HexDigit HexDigit HexDigit HexDigit
     /// "\" "u" "{" HexDigits "}"
     fn scan_unicode_esc_seq(&mut self) -> Result<char> {
+        let value = self.scan_unicode_esc_value()?;
+        char::from_u32(value).ok_or(Error {
+            line: self.line,
+            col: self.col,
+            errortype: ErrorType::InvalidUnicodeEscapeSequence,
+        })
+    }
+
+    /// Like `scan_unicode_esc_seq`, but an escaped surrogate pair
+    /// denotes a single codepoint.
+    fn scan_unicode_esc_seq_utf16(&mut self) -> Result<char> {
+        let mut value = self.scan_unicode_esc_value()?;
+        if 0xD800 <= value && value <= 0xDBFF && self.peek2() == (Some('\\'), Some('u')) {
+            let low = self.scan_unicode_esc_value()?;
+            if 0xDC00 <= low && low <= 0xDFFF {
+                value = 0x10000 + ((value - 0xD800) << 10) + (low - 0xDC00);
+            }
+        }
+        char::from_u32(value).ok_or(Error {
+            line: self.line,
+            col: self.col,
+            errortype: ErrorType::InvalidUnicodeEscapeSequence,
+        })
+    }
+
+    fn scan_unicode_esc_value(&mut self) -> Result<u32> {
         self.expect('\\')?;
         self.expect('u')?;
 
@@ -231,11 +257,10 @@ where
             });
             // consume "}"
             self.expect('}')?;
-            char::from_u32(value).ok_or(Error {
-                line: self.line,
-                col: self.col,
-                errortype: ErrorType::InvalidUnicodeEscapeSequence,
-            })
+            if value > 0x10FFFF {
+                return self.error(ErrorType::InvalidUnicodeEscapeSequence);
+            }
+            Ok(value)
         } else {
             let mut value = 0;
             for _ in 0..4 {
@@ -246,11 +271,7 @@ where
                     _ => return self.error(ErrorType::InvalidUnicodeEscapeSequence),
                 }
             }
-            char::from_u32(value).ok_or(Error {
-                line: self.line,
-                col: self.col,
-                errortype: ErrorType::InvalidOrUnexpectedToken,
-            })
+            Ok(value)
         }
     }
 
@@ -474,7 +495,7 @@ where
                     self.consume(); // consume line terminator
                 }
                 (Some('\\'), Some('x')) => return (self.scan_hex_esc_seq(), false),
-                (Some('\\'), Some('u')) => return (self.scan_unicode_esc_seq(), false),
+                (Some('\\'), Some('u')) => return (self.scan_unicode_esc_seq_utf16(), false),
                 (Some('\\'), Some(cp)) if cp.is_octal_digit() => {
                     return (self.scan_octal_esc_seq(), true)
                 }
@@ -752,7 +773,7 @@ where
                 })
             }
             (Some('\\'), Some('x')) => self.scan_hex_esc_seq(),
-            (Some('\\'), Some('u')) => self.scan_unicode_esc_seq(),
+            (Some('\\'), Some('u')) => self.scan_unicode_esc_seq_utf16(),
             // TODO: handle octal escape
             (Some('\\'), Some(_)) => {
                 self.consume();
-- 
2.43.0


From 70964eefbf46ca3d044c041feb3cc1905944563b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 11/74] fix: allow a line continuation just before the closing
 quote

---
 giron/src/scanner/scanner.rs | 126 +++++++++++++++++------------------
 1 file changed, 60 insertions(+), 66 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index e9538c5..51ff22d 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -475,71 +475,64 @@ where
         )
     }
 
-    fn scan_string_literal_cp(&mut self) -> (Result<char>, bool) {
-        loop {
-            match self.peek2() {
-                (Some('\\'), Some(cp)) if cp.is_single_escape_char() => {
-                    self.consume();
-                    let val = self.consume().map(|esc| esc.unescape()).ok_or(Error {
-                        line: self.line,
-                        col: self.col,
-                        errortype: ErrorType::UnexpectedEOS,
-                    });
-                    return (val, false);
-                }
-                (Some('\\'), Some(cp)) if cp.is_line_terminator() => {
-                    self.consume(); // consume "\"
-                    if let (Some('\r'), Some('\n')) = self.peek2() {
-                        self.consume(); // consume "\r" if <CR><LF>
-                    }
-                    self.consume(); // consume line terminator
-                }
-                (Some('\\'), Some('x')) => return (self.scan_hex_esc_seq(), false),
-                (Some('\\'), Some('u')) => return (self.scan_unicode_esc_seq_utf16(), false),
-                (Some('\\'), Some(cp)) if cp.is_octal_digit() => {
-                    return (self.scan_octal_esc_seq(), true)
-                }
-                (Some('\\'), Some(_)) => {
-                    return (
-                        self.consume().ok_or(Error {
-                            line: self.line,
-                            col: self.col,
-                            errortype: ErrorType::UnexpectedEOS,
-                        }),
-                        false,
-                    )
-                }
-                (Some(cp), _) if cp.is_line_terminator() => {
-                    return (
-                        Err(Error {
-                            line: self.line,
-                            col: self.col,
-                            errortype: ErrorType::InvalidOrUnexpectedToken,
-                        }),
-                        false,
-                    )
-                }
-                (Some(_), _) => {
-                    return (
-                        self.consume().ok_or(Error {
-                            line: self.line,
-                            col: self.col,
-                            errortype: ErrorType::UnexpectedEOS,
-                        }),
-                        false,
-                    )
-                }
-                (_, _) => {
-                    return (
-                        Err(Error {
-                            line: self.line,
-                            col: self.col,
-                            errortype: ErrorType::InvalidOrUnexpectedToken,
-                        }),
-                        false,
-                    )
+    /// Scans one character of a string literal. A line continuation
+    /// contributes no character.
+    fn scan_string_literal_cp(&mut self) -> (Result<Option<char>>, bool) {
+        match self.peek2() {
+            (Some('\\'), Some(cp)) if cp.is_single_escape_char() => {
+                self.consume();
+                let val = self.consume().map(|esc| esc.unescape()).ok_or(Error {
+                    line: self.line,
+                    col: self.col,
+                    errortype: ErrorType::UnexpectedEOS,
+                });
+                (val.map(Some), false)
+            }
+            (Some('\\'), Some(cp)) if cp.is_line_terminator() => {
+                self.consume(); // consume "\"
+                if let (Some('\r'), Some('\n')) = self.peek2() {
+                    self.consume(); // consume "\r" if <CR><LF>
                 }
+                self.consume(); // consume line terminator
+                (Ok(None), false)
+            }
+            (Some('\\'), Some('x')) => (self.scan_hex_esc_seq().map(Some), false),
+            (Some('\\'), Some('u')) => (self.scan_unicode_esc_seq_utf16().map(Some), false),
+            (Some('\\'), Some(cp)) if cp.is_octal_digit() => {
+                (self.scan_octal_esc_seq().map(Some), true)
             }
+            (Some('\\'), Some(_)) => (
+                self.consume().map(Some).ok_or(Error {
+                    line: self.line,
+                    col: self.col,
+                    errortype: ErrorType::UnexpectedEOS,
+                }),
+                false,
+            ),
+            (Some(cp), _) if cp.is_line_terminator() => (
+                Err(Error {
+                    line: self.line,
+                    col: self.col,
+                    errortype: ErrorType::InvalidOrUnexpectedToken,
+                }),
+                false,
+            ),
+            (Some(_), _) => (
+                self.consume().map(Some).ok_or(Error {
+                    line: self.line,
+                    col: self.col,
+                    errortype: ErrorType::UnexpectedEOS,
+                }),
+                false,
+            ),
+            (_, _) => (
+                Err(Error {
+                    line: self.line,
+                    col: self.col,
+                    errortype: ErrorType::InvalidOrUnexpectedToken,
+                }),
+                false,
+            ),
         }
     }
 
@@ -948,16 +941,17 @@ where
     //      Utility
     // *******************************************************************
 
-    fn scan_until_with<F, G>(&mut self, pred: F, read: &mut G) -> Result<String>
+    fn scan_until_with<F, G, R>(&mut self, pred: F, read: &mut G) -> Result<String>
     where
         F: Fn(char) -> bool,
-        G: FnMut(&mut Self) -> Result<char>,
+        G: FnMut(&mut Self) -> Result<R>,
+        R: Into<Option<char>>,
     {
         let mut res = String::new();
         loop {
             match self.peek() {
                 Some(cp) if pred(cp) => return Ok(res),
-                Some(_) => res.push(read(self)?),
+                Some(_) => res.extend(read(self)?.into()),
                 None => return Ok(res),
             }
         }
-- 
2.43.0


From 9dc312562f76c812e538e0a1a5fe33beacec2e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 12/74] fix: drop the backslash of a non-special string escape

---
 giron/src/scanner/scanner.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 51ff22d..a443afd 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -501,14 +501,17 @@ where
             (Some('\\'), Some(cp)) if cp.is_octal_digit() => {
                 (self.scan_octal_esc_seq().map(Some), true)
             }
-            (Some('\\'), Some(_)) => (
-                self.consume().map(Some).ok_or(Error {
-                    line: self.line,
-                    col: self.col,
-                    errortype: ErrorType::UnexpectedEOS,
-                }),
-                false,
-            ),
+            (Some('\\'), Some(_)) => {
+                self.consume(); // consume "\"
+                (
+                    self.consume().map(Some).ok_or(Error {
+                        line: self.line,
+                        col: self.col,
+                        errortype: ErrorType::UnexpectedEOS,
+                    }),
+                    false,
+                )
+            }
             (Some(cp), _) if cp.is_line_terminator() => (
                 Err(Error {
                     line: self.line,
-- 
2.43.0


From 448e32fb4e15a64668991c595ebe918af99f5636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:58 +0000
Subject: [PATCH 13/74] fix: allow U+2028 and U+2029 in string literals

---
 giron/src/scanner/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index a443afd..32dc77b 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -512,7 +512,7 @@ where
                     false,
                 )
             }
-            (Some(cp), _) if cp.is_line_terminator() => (
+            (Some('\r'), _) | (Some('\n'), _) => (
                 Err(Error {
                     line: self.line,
                     col: self.col,
-- 
2.43.0


From 2b7fe6369da20549a8505cfb67c6be9e254d68f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:58 +0000
Subject: [PATCH 14/74] fix: limit octal escapes to the value 0o377

---
 giron/src/scanner/scanner.rs | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 32dc77b..c0fd112 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -542,21 +542,17 @@ where
     fn scan_octal_esc_seq(&mut self) -> Result<char> {
         self.consume();
 
-        let value = self.scan_until_with(|cp| !cp.is_octal_digit(), &mut |this| {
-            this.consume().ok_or(Error {
-                line: this.line,
-                col: this.col,
-                errortype: ErrorType::UnexpectedEOS,
-            })
-        })?;
-
-        let mv = i64::from_str_radix(&value, 8)
-            .map(|i| i as u32)
-            .map_err(|_| Error {
-                line: self.line,
-                col: self.col,
-                errortype: ErrorType::InvalidOrUnexpectedToken,
-            })?;
+        // At most three digits, and only two after one of 4 to 7.
+        let mut mv = 0;
+        for _ in 0..3 {
+            match self.peek() {
+                Some(cp) if cp.is_octal_digit() && mv < 32 => {
+                    mv = mv * 8 + cp.to_digit(8).unwrap();
+                    self.consume();
+                }
+                _ => break,
+            }
+        }
 
         char::from_u32(mv).ok_or(Error {
             line: self.line,
-- 
2.43.0


From 99a1f77f948f56dcd9c035c8a4bbeaee762edd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 15/74] fix: evaluate integer literals of any length

---
 giron/src/scanner/scanner.rs | 46 +++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index c0fd112..9c929aa 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -332,17 +332,14 @@ where
                     })
                 })?;
                 // A number starting with 0 can either be octal or decimal.
-                i64::from_str_radix(&val, 8)
-                    .or_else(|_| {
-                        i64::from_str_radix(&val, 10)
-                        // TODO: Scan dot and exponent
-                    })
-                    .map(|i| i as f64)
-                    .map_err(|_| Error {
+                self.radix_value(&val, 8).or_else(|_| {
+                    // TODO: Scan dot and exponent
+                    val.parse().map_err(|_| Error {
                         line: self.line,
                         col: self.col,
                         errortype: ErrorType::InvalidOrUnexpectedToken,
                     })
+                })
             }
             (Some(cp), _) if cp.is_decimal_digit() => {
                 // scan decimal digit
@@ -435,13 +432,34 @@ where
             })
         })?;
 
-        i64::from_str_radix(&value, radix)
-            .map(|i| i as f64)
-            .map_err(|_| Error {
-                line: self.line,
-                col: self.col,
-                errortype: ErrorType::InvalidOrUnexpectedToken,
-            })
+        self.radix_value(&value, radix)
+    }
+
+    /// The value of a sequence of digits of a radix that is a power of two,
+    /// rounded to the nearest number.
+    fn radix_value(&self, digits: &str, radix: u32) -> Result<f64> {
+        let mut mantissa = 0u64;
+        let mut dropped = 0;
+        for cp in digits.chars() {
+            match cp.to_digit(radix) {
+                // Enough bits to round correctly: only note whether
+                // any of the remaining digits is nonzero.
+                Some(digit) if mantissa >> 59 != 0 => {
+                    mantissa |= (digit != 0) as u64;
+                    dropped += 1;
+                }
+                Some(digit) => mantissa = mantissa * (radix as u64) + (digit as u64),
+                None => return self.error(ErrorType::InvalidOrUnexpectedToken),
+            }
+        }
+        if digits.is_empty() {
+            return self.error(ErrorType::InvalidOrUnexpectedToken);
+        }
+        let mut value = mantissa as f64;
+        for _ in 0..dropped {
+            value *= radix as f64;
+        }
+        Ok(value)
     }
 
     // *******************************************************************
-- 
2.43.0


From 35b38c6db1b1e7669e75ba85e5deac66a21d80a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:59 +0000
Subject: [PATCH 16/74] fix: scan the fraction and exponent of decimals with a
 leading zero

---
 giron/src/scanner/scanner.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 9c929aa..2194167 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -324,7 +324,7 @@ where
             (Some('0'), Some('o')) | (Some('0'), Some('O')) => self.scan_radix_literal(8),
             (Some('0'), Some('x')) | (Some('0'), Some('X')) => self.scan_radix_literal(16),
             (Some('0'), Some(cp)) if cp != '.' => {
-                let val = self.scan_until_with(|cp| !cp.is_decimal_digit(), &mut |this| {
+                let mut val = self.scan_until_with(|cp| !cp.is_decimal_digit(), &mut |this| {
                     this.consume().ok_or(Error {
                         line: this.line,
                         col: this.col,
@@ -332,14 +332,18 @@ where
                     })
                 })?;
                 // A number starting with 0 can either be octal or decimal.
-                self.radix_value(&val, 8).or_else(|_| {
-                    // TODO: Scan dot and exponent
+                if val.len() > 1 && val.chars().all(|cp| cp.is_octal_digit()) {
+                    self.radix_value(&val, 8)
+                } else if self.matches('.') {
+                    self.scan_fractional_part(val)
+                } else {
+                    val.push_str(&self.scan_exponent()?);
                     val.parse().map_err(|_| Error {
                         line: self.line,
                         col: self.col,
                         errortype: ErrorType::InvalidOrUnexpectedToken,
                     })
-                })
+                }
             }
             (Some(cp), _) if cp.is_decimal_digit() => {
                 // scan decimal digit
-- 
2.43.0


From fec3b84cc1328b20cacef600fe5d21e51f12c8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:59 +0000
Subject: [PATCH 17/74] fix: reject an identifier or digit directly after a
 numeric literal

---
 giron/src/scanner/scanner.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 2194167..3150f3b 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -373,7 +373,12 @@ where
             (_, _) => self.error(ErrorType::InvalidOrUnexpectedToken),
         }?;
 
-        self.token_simple(TokenType::NumericLiteral, Value::Num(value))
+        match self.peek() {
+            Some(cp) if cp == '\\' || cp.is_identifier_start() || cp.is_decimal_digit() => {
+                self.error(ErrorType::InvalidOrUnexpectedToken)
+            }
+            _ => self.token_simple(TokenType::NumericLiteral, Value::Num(value)),
+        }
     }
 
     fn scan_fractional_part(&mut self, mut value: String) -> Result<f64> {
-- 
2.43.0


From 7c5deb91d5f39debb8d3931b6b79e6064a2439dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:59 +0000
Subject: [PATCH 18/74] fix: cook template escapes and line terminators as
 specified

---
 giron/src/scanner/scanner.rs | 43 +++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 3150f3b..45bbec5 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -762,7 +762,9 @@ where
         )
     }
 
-    fn scan_template_char(&mut self) -> Result<char> {
+    /// Scans one character of a template. A line continuation
+    /// contributes no character.
+    fn scan_template_char(&mut self) -> Result<Option<char>> {
         match self.peek2() {
             (Some('\\'), Some(cp)) if cp.is_line_terminator() => {
                 self.consume();
@@ -770,11 +772,11 @@ where
                     (Some('\r'), Some('\n')) => {
                         self.consume();
                         self.consume();
-                        Ok('\0')
+                        Ok(None)
                     }
                     (_, _) => {
                         self.consume();
-                        Ok('\0')
+                        Ok(None)
                     }
                 }
             }
@@ -785,28 +787,43 @@ where
             | (Some('\\'), Some('r'))
             | (Some('\\'), Some('t')) => {
                 self.consume();
-                self.consume().map(|cp| cp.unescape()).ok_or(Error {
+                self.consume().map(|cp| Some(cp.unescape())).ok_or(Error {
                     line: self.line,
                     col: self.col,
                     errortype: ErrorType::UnexpectedEOS,
                 })
             }
-            (Some('\\'), Some('x')) => self.scan_hex_esc_seq(),
-            (Some('\\'), Some('u')) => self.scan_unicode_esc_seq_utf16(),
-            // TODO: handle octal escape
+            (Some('\\'), Some('x')) => self.scan_hex_esc_seq().map(Some),
+            (Some('\\'), Some('u')) => self.scan_unicode_esc_seq_utf16().map(Some),
+            (Some('\\'), Some(cp)) if cp.is_decimal_digit() => {
+                self.consume();
+                self.consume();
+                match self.peek() {
+                    Some(next) if next.is_decimal_digit() => {
+                        self.error(ErrorType::InvalidOrUnexpectedToken)
+                    }
+                    _ if cp != '0' => self.error(ErrorType::InvalidOrUnexpectedToken),
+                    _ => Ok(Some('\0')),
+                }
+            }
             (Some('\\'), Some(_)) => {
                 self.consume();
-                self.consume().ok_or(Error {
+                self.consume().map(Some).ok_or(Error {
                     line: self.line,
                     col: self.col,
                     errortype: ErrorType::UnexpectedEOS,
                 })
             }
-            (Some(cp), _) if cp.is_line_terminator() => {
+            (Some('\r'), Some('\n')) => {
+                self.consume();
+                self.consume();
+                Ok(Some('\n'))
+            }
+            (Some('\r'), _) => {
                 self.consume();
-                Ok('\n')
+                Ok(Some('\n'))
             }
-            (Some(_), _) => self.consume().ok_or(Error {
+            (Some(_), _) => self.consume().map(Some).ok_or(Error {
                 line: self.line,
                 col: self.col,
                 errortype: ErrorType::UnexpectedEOS,
@@ -986,14 +1003,14 @@ where
     pub fn scan2_until_with<F, G>(&mut self, pred: F, read: &mut G) -> Result<String>
     where
         F: Fn((Option<char>, Option<char>)) -> bool,
-        G: FnMut(&mut Self) -> Result<char>,
+        G: FnMut(&mut Self) -> Result<Option<char>>,
     {
         let mut res = String::new();
         loop {
             match self.peek2() {
                 (Some(cp1), Some(cp2)) if pred((Some(cp1), Some(cp2))) => return Ok(res),
                 (Some(cp1), None) if pred((Some(cp1), None)) => return Ok(res),
-                (Some(_), _) => res.push(read(self)?),
+                (Some(_), _) => res.extend(read(self)?),
                 (None, _) => return Ok(res),
             }
         }
-- 
2.43.0


From 2744806784ed949e35fdb22be03ef5a1fa0daba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:00 +0000
Subject: [PATCH 19/74] fix: normalise line terminators in raw template values

---
 giron/src/scanner/scanner.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 45bbec5..85a17dd 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -1059,7 +1059,9 @@ where
 
     fn stop_recording(&mut self) -> String {
         self.record_raw = false;
-        mem::replace(&mut self.raw_string, String::with_capacity(8))
+        let raw = mem::replace(&mut self.raw_string, String::with_capacity(8));
+        // <CR><LF> and <CR> are normalised to <LF>.
+        raw.replace("\r\n", "\n").replace('\r', "\n")
     }
 
     fn token(
-- 
2.43.0


From 0a25d85eab4f13ce4a7e6dfed2d8ad0a07273161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:00 +0000
Subject: [PATCH 20/74] fix: reject unicode escapes in regular expression flags

---
 giron/src/scanner/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 85a17dd..1eb38ed 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -679,7 +679,7 @@ where
             &mut |this| {
                 let cp = this.consume().unwrap();
                 if cp == '\\' {
-                    this.scan_unicode_esc_seq()
+                    this.error(ErrorType::InvalidOrUnexpectedToken)
                 } else {
                     Ok(cp)
                 }
-- 
2.43.0


From 3de9a131971d7bbc6f4c7010e312e2b5ba2e06a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 21/74] fix: scan regular expression bodies as specified

---
 giron/src/scanner/scanner.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 1eb38ed..8c42ea1 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -633,32 +633,33 @@ where
             return self.error(ErrorType::InvalidOrUnexpectedToken);
         }
         let mut value = String::from("");
+        let mut in_class = false;
         loop {
             match self.peek() {
-                Some('[') => {
-                    let group = self.scan_until_with(|cp| cp == ']', &mut |this| {
-                        this.consume().ok_or(Error {
-                            line: this.line,
-                            col: this.col,
-                            errortype: ErrorType::UnexpectedEOS,
-                        })
-                    })?;
-                    value.push_str(&group);
-                }
+                // A line terminator can not be part of a regular expression.
+                Some(cp) if cp.is_line_terminator() => break,
                 Some('\\') => {
                     value.push(self.consume().ok_or(Error {
                         line: self.line,
                         col: self.col,
                         errortype: ErrorType::UnexpectedEOS,
                     })?);
+                    if let Some(true) = self.peek().map(|cp| cp.is_line_terminator()) {
+                        break;
+                    }
                     value.push(self.consume().ok_or(Error {
                         line: self.line,
                         col: self.col,
                         errortype: ErrorType::UnexpectedEOS,
                     })?);
                 }
-                Some(cp) if cp == '/' => break,
-                Some(_) => {
+                Some('/') if !in_class => break,
+                Some(cp) => {
+                    if cp == '[' {
+                        in_class = true;
+                    } else if cp == ']' {
+                        in_class = false;
+                    }
                     let res = self.consume().ok_or(Error {
                         line: self.line,
                         col: self.col,
-- 
2.43.0


From c7d67066ac980773891453348e594112498e7250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 22/74] fix: normalise line terminators in raw template values
 while recording

---
 giron/src/scanner/scanner.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 8c42ea1..2d5a433 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -1028,8 +1028,12 @@ where
     fn consume(&mut self) -> Option<char> {
         let cp = self.reader.next();
         if self.record_raw {
-            if let Some(cp) = cp {
-                self.raw_string.push(cp);
+            // <CR><LF> and <CR> are normalised to <LF>.
+            match (cp, self.peek()) {
+                (Some('\r'), Some('\n')) => (),
+                (Some('\r'), _) => self.raw_string.push('\n'),
+                (Some(cp), _) => self.raw_string.push(cp),
+                (None, _) => (),
             }
         }
         self.current += 1;
@@ -1060,9 +1064,7 @@ where
 
     fn stop_recording(&mut self) -> String {
         self.record_raw = false;
-        let raw = mem::replace(&mut self.raw_string, String::with_capacity(8));
-        // <CR><LF> and <CR> are normalised to <LF>.
-        raw.replace("\r\n", "\n").replace('\r', "\n")
+        mem::replace(&mut self.raw_string, String::with_capacity(8))
     }
 
     fn token(
-- 
2.43.0


From ede0b4f7dc6c92090398d0cb577a123f8d759752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:31 +0000
Subject: [PATCH 23/74] fix: give % the precedence of * and /

---
 giron/src/parser/syntax.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giron/src/parser/syntax.rs b/giron/src/parser/syntax.rs
index 38a6029..5f4829b 100644
--- a/giron/src/parser/syntax.rs
+++ b/giron/src/parser/syntax.rs
@@ -162,7 +162,7 @@ impl Syntax for Token {
             TokenType::Punctuator if self.matches_punc("-") => 9,
             TokenType::Punctuator if self.matches_punc("*") => 10,
             TokenType::Punctuator if self.matches_punc("/") => 10,
-            TokenType::Punctuator if self.matches_punc("%") => 11,
+            TokenType::Punctuator if self.matches_punc("%") => 10,
             TokenType::Keyword if self.matches_str("instanceof") => 7,
             TokenType::Keyword if (self.matches_str("in") && has_in) => 7,
             _ => 0,
-- 
2.43.0


From a15b2a4be27db6f4293fc3587bcc2d356acc71d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:32 +0000
Subject: [PATCH 24/74] fix: do not treat == as an assignment operator

---
 giron/src/parser/syntax.rs     | 1 -
 giron/src/token/punctuators.rs | 1 -
 2 files changed, 2 deletions(-)

diff --git a/giron/src/parser/syntax.rs b/giron/src/parser/syntax.rs
index 5f4829b..b091909 100644
--- a/giron/src/parser/syntax.rs
+++ b/giron/src/parser/syntax.rs
@@ -81,7 +81,6 @@ impl Syntax for Token {
             | Value::Punc(Punctuator::BitOrAssign)
             | Value::Punc(Punctuator::BitXorAssign)
             | Value::Punc(Punctuator::SlashAssign) => true,
-            Value::Punc(Punctuator::Equal) => true,
             _ => false,
         }
     }
diff --git a/giron/src/token/punctuators.rs b/giron/src/token/punctuators.rs
index 79a4b99..c62609c 100644
--- a/giron/src/token/punctuators.rs
+++ b/giron/src/token/punctuators.rs
@@ -77,7 +77,6 @@ impl Punctuator {
             | Punctuator::BitOrAssign
             | Punctuator::BitXorAssign
             | Punctuator::SlashAssign => true,
-            Punctuator::Equal => true,
             _ => false,
         }
     }
-- 
2.43.0


From 40c1ad6268ac17da403bc101c53fc7b3c7c4f7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:32 +0000
Subject: [PATCH 25/74] fix: check strict mode reserved words without panicking

---
 giron/src/parser/syntax.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/giron/src/parser/syntax.rs b/giron/src/parser/syntax.rs
index b091909..447c057 100644
--- a/giron/src/parser/syntax.rs
+++ b/giron/src/parser/syntax.rs
@@ -216,8 +216,12 @@ impl Syntax for Token {
     }
 
     fn is_strict_reserved_kw(&self) -> bool {
-        match self.to_str() {
-            "implements" | "interface" | "package" | "private" | "protected" | "public" => true,
+        match &self.value {
+            Value::Str(s) => match &s[..] {
+                "implements" | "interface" | "package" | "private" | "protected" | "public" => true,
+                "let" | "static" => true,
+                _ => false,
+            },
             _ => false,
         }
     }
-- 
2.43.0


From ab4f8b018120008c9eade27556c911174336a7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:30 +0000
Subject: [PATCH 26/74] fix: do not treat escaped or quoted words as keywords

---
 giron/src/parser/syntax.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/giron/src/parser/syntax.rs b/giron/src/parser/syntax.rs
index 447c057..da0763a 100644
--- a/giron/src/parser/syntax.rs
+++ b/giron/src/parser/syntax.rs
@@ -7,6 +7,7 @@ pub trait Syntax {
     fn to_string(self) -> String;
     fn to_str(&self) -> &str;
     fn matches_str(&self, val: &str) -> bool;
+    fn is_word(&self, val: &str) -> bool;
     fn matches_punc(&self, val: &str) -> bool;
     fn matches_null(&self) -> bool;
     fn is_assign_op(&self) -> bool;
@@ -47,8 +48,15 @@ impl Syntax for Token {
     }
 
     fn matches_str(&self, val: &str) -> bool {
-        match &self.value {
-            Value::Str(s) if &s[..] == val => true,
+        !self.escaped && self.is_word(val)
+    }
+
+    /// Like `matches_str`, but disregards whether the word is escaped.
+    fn is_word(&self, val: &str) -> bool {
+        match (&self.tokentype, &self.value) {
+            (TokenType::Identifier, Value::Str(s)) | (TokenType::Keyword, Value::Str(s)) => {
+                &s[..] == val
+            }
             _ => false,
         }
     }
@@ -123,7 +131,7 @@ impl Syntax for Token {
             _ => false,
         };
         let unary_keyword = match self.tokentype {
-            TokenType::Keyword => match self.to_str() {
+            TokenType::Keyword if !self.escaped => match self.to_str() {
                 "delete" | "void" | "typeof" => true,
                 "await" if has_await => true,
                 _ => false,
-- 
2.43.0


From 8addd98d03c94b832f1b27255a68e2509d8f4f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:31 +0000
Subject: [PATCH 27/74] fix: restrict yield, await, eval and arguments as
 identifiers

---
 giron/src/parser/parser.rs | 39 +++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index deea1d8..0cfe9c9 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -3832,8 +3832,8 @@ where
                     span: self.end_span(),
                 })
             }
-            TokenType::Keyword if self.current.matches_str("yield") => {
-                if self.params.has_yield {
+            TokenType::Keyword if self.current.is_word("yield") => {
+                if self.ctx.strict || self.params.has_yield {
                     self.error_current(ErrorType::YieldInParameter)
                 } else {
                     Ok(Node::Identifier {
@@ -3843,8 +3843,8 @@ where
                     })
                 }
             }
-            TokenType::Keyword if self.current.matches_str("await") => {
-                if self.params.has_await {
+            TokenType::Keyword if self.current.is_word("await") => {
+                if self.is_await_reserved() {
                     self.error_current(ErrorType::AwaitExpressionFormalParameter)
                 } else {
                     Ok(Node::Identifier {
@@ -3867,17 +3867,29 @@ where
         }
 
         match self.current.tokentype {
+            TokenType::Identifier
+                if self.ctx.strict
+                    && (self.current.is_word("eval") || self.current.is_word("arguments")) =>
+            {
+                self.error_current(ErrorType::UnexpectedStrictReserved)
+            }
             TokenType::Identifier => Ok(Binding::BindingIdentifier(BindingIdentifier {
                 name: self.advance(LexGoal::Div)?.to_string(),
                 span: self.end_span(),
             })),
-            TokenType::Keyword if self.current.matches_str("yield") => {
+            TokenType::Keyword
+                if self.current.is_word("yield")
+                    && !self.ctx.strict
+                    && !self.params.has_yield =>
+            {
                 Ok(Binding::BindingIdentifier(BindingIdentifier {
                     name: self.advance(LexGoal::Div)?.to_string(),
                     span: self.end_span(),
                 }))
             }
-            TokenType::Keyword if self.current.matches_str("await") => {
+            TokenType::Keyword
+                if self.current.is_word("await") && !self.is_await_reserved() =>
+            {
                 Ok(Binding::BindingIdentifier(BindingIdentifier {
                     name: self.advance(LexGoal::Div)?.to_string(),
                     span: self.end_span(),
@@ -3887,12 +3899,21 @@ where
         }
     }
 
+    /// Whether `await` can not be an identifier here.
+    fn is_await_reserved(&self) -> bool {
+        match self.goal {
+            SyntaxGoal::Script => self.params.has_await,
+            _ => true,
+        }
+    }
+
     fn parse_id_name(&mut self, goal: LexGoal) -> Result<String> {
         log!("parse_id_name");
         match self.current.tokentype {
-            TokenType::Identifier | TokenType::Keyword => {
-                Ok(self.advance(goal)?.value.string().unwrap())
-            }
+            TokenType::Identifier
+            | TokenType::Keyword
+            | TokenType::BooleanLiteral
+            | TokenType::NullLiteral => Ok(String::from(&self.advance(goal)?.value)),
             _ => self.unexpected_current(),
         }
     }
-- 
2.43.0


From 4abb02b882033ca2e0d0c6dfa62d4b82977a8f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:31 +0000
Subject: [PATCH 28/74] fix: look ahead without rewinding the scanner

---
 giron/src/scanner/scanner.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 2d5a433..39f9b62 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -97,6 +97,13 @@ where
         }
     }
 
+    /// The token after the current one, which stays the next token to scan.
+    pub fn peek_token(&mut self, goal: LexGoal) -> Result<Token> {
+        let token = self.next(goal)?;
+        self.unscanned = Some(token.clone());
+        Ok(token)
+    }
+
     fn scan_comments(&mut self) -> Result<()> {
         loop {
             match self.peek2() {
-- 
2.43.0


From e1495ca61959fd51c8142639bc59511f06409607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:19 +0000
Subject: [PATCH 29/74] fix: look ahead for async functions without rewinding

---
 giron/src/parser/parser.rs | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 0cfe9c9..fd9c43e 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -571,22 +571,10 @@ where
             }
             // special LL(2) grammar case
             TokenType::Identifier if self.current.matches_str("async") => {
-                self.start_span();
-                self.scanner.save_state();
-                let next_token = self.scanner.next(LexGoal::RegExp)?;
-                match &next_token.tokentype {
-                    TokenType::Keyword
-                        if next_token.matches_str("function")
-                            && self.current.line_num == next_token.line_num =>
-                    {
-                        self.scanner.restore_state(next_token);
-                        self.with_default(false, &mut Self::parse_hoistable_dclr)
-                    }
-                    _ => {
-                        self.scanner.restore_state(next_token);
-                        self.end_span();
-                        self.parse_expression_or_labelled_stmt()
-                    }
+                if self.is_async_function()? {
+                    self.with_default(false, &mut Self::parse_hoistable_dclr)
+                } else {
+                    self.parse_expression_or_labelled_stmt()
                 }
             }
             // declarations
@@ -604,6 +592,15 @@ where
         }
     }
 
+    /// Whether the current token is an `async` that begins an async function.
+    fn is_async_function(&mut self) -> Result<bool> {
+        if self.current.tokentype != TokenType::Identifier || !self.current.matches_str("async") {
+            return Ok(false);
+        }
+        let next_token = self.scanner.peek_token(LexGoal::Div)?;
+        Ok(next_token.matches_str("function") && !next_token.newline)
+    }
+
     fn parse_statement(&mut self) -> Result<Node> {
         log!("parse_statement");
         // Statement[Yield, Await, Return]:
-- 
2.43.0


From a3e0916bced1e15a0c90553fbd24f4b47a7686e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:19 +0000
Subject: [PATCH 30/74] fix: emit default imports as ImportDefaultSpecifier

---
 giron/src/parser/parser.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index fd9c43e..dadf8fe 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -226,9 +226,8 @@ where
                         &mut Self::parse_binding_id,
                     )?
                     .to_id()?;
-                let imported = local.clone();
                 let mut specifiers =
-                    vec![ImportDeclarationSpecifier::ImportSpecifier { local, imported }];
+                    vec![ImportDeclarationSpecifier::ImportDefaultSpecifier { local }];
                 match self.current.tokentype {
                     TokenType::Punctuator if self.current.matches_punc(",") => {
                         self.advance(LexGoal::RegExp)?;
-- 
2.43.0


From 7165a313f2540de3ef435370d6a3429e972628b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:20 +0000
Subject: [PATCH 31/74] fix: parse imports without an import clause

---
 giron/src/parser/parser.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index dadf8fe..0320761 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -246,7 +246,15 @@ where
                     _ => self.parse_import_from_dclr(specifiers),
                 }
             }
-            TokenType::StringLiteral => unimplemented!(),
+            TokenType::StringLiteral => {
+                let source = self.parse_module_specifier()?;
+                self.consume_semicolon(LexGoal::RegExp)?;
+                Ok(Node::ImportDeclaration {
+                    specifiers: vec![],
+                    source,
+                    span: self.end_span(),
+                })
+            }
             _ => self.unexpected_current(),
         }
     }
-- 
2.43.0


From 6b18ecfa5b63ef20f135516f76f937c9d5d28695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:20 +0000
Subject: [PATCH 32/74] fix: reject reserved words as imported bindings

---
 giron/src/parser/parser.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 0320761..f3ff09b 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -281,6 +281,7 @@ where
         self.consume("{", LexGoal::RegExp)?;
         let specifiers = self.parse_until_punc("}", &mut |this| {
             this.start_span();
+            let token = this.current.clone();
             let name = this.parse_id_name(LexGoal::RegExp)?;
             let span = this.end_span();
             match this.current.tokentype {
@@ -303,8 +304,11 @@ where
                     Ok(ImportDeclarationSpecifier::ImportSpecifier { local, imported })
                 }
                 _ => {
-                    if this.scanner.is_keyword(&name) {
-                        let token = this.advance(LexGoal::RegExp)?;
+                    if token.tokentype != TokenType::Identifier
+                        || token.is_strict_reserved_kw()
+                        || name == "eval"
+                        || name == "arguments"
+                    {
                         return Err(Error {
                             line: token.line_num,
                             col: token.col,
-- 
2.43.0


From 30df9e982838a769594376e05c1fb09890e29cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:21 +0000
Subject: [PATCH 33/74] fix: parse export clauses: from, semicolon, local and
 exported names

---
 giron/src/parser/parser.rs | 40 ++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index f3ff09b..9fc5509 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -452,9 +452,9 @@ where
                 })
             }
             TokenType::Punctuator if self.current.matches_punc("{") => {
-                let specifiers = self.parse_named_export_specifiers()?;
+                let (specifiers, reserved) = self.parse_named_export_specifiers()?;
                 match self.current.tokentype {
-                    TokenType::Keyword if self.current.matches_str("from") => {
+                    TokenType::Identifier if self.current.matches_str("from") => {
                         self.advance(LexGoal::RegExp)?;
                         let source = Some(self.parse_module_specifier()?);
                         self.consume_semicolon(LexGoal::RegExp)?;
@@ -465,12 +465,19 @@ where
                             span: self.end_span(),
                         })
                     }
-                    _ => Ok(Node::ExportNamedDeclaration {
-                        declaration: None,
-                        specifiers,
-                        source: None,
-                        span: self.end_span(),
-                    }),
+                    _ => {
+                        // The exported bindings must be identifier references.
+                        if let Some(token) = reserved {
+                            return self.error(token, ErrorType::UnexpectedReserved);
+                        }
+                        self.consume_semicolon(LexGoal::RegExp)?;
+                        Ok(Node::ExportNamedDeclaration {
+                            declaration: None,
+                            specifiers,
+                            source: None,
+                            span: self.end_span(),
+                        })
+                    }
                 }
             }
             TokenType::Punctuator if self.current.matches_punc("*") => {
@@ -487,20 +494,29 @@ where
         }
     }
 
-    fn parse_named_export_specifiers(&mut self) -> Result<Vec<ExportSpecifier>> {
+    /// Returns the specifiers and, if there is one, the first token that is
+    /// used as a local name but is a reserved word.
+    fn parse_named_export_specifiers(&mut self) -> Result<(Vec<ExportSpecifier>, Option<Token>)> {
+        let mut reserved = None;
         self.consume("{", LexGoal::RegExp)?;
         let specifiers = self.parse_until_punc("}", &mut |this| {
             this.start_span();
+            let token = this.current.clone();
             let name = this.parse_id_name(LexGoal::RegExp)?;
+            if reserved.is_none()
+                && (token.tokentype != TokenType::Identifier || token.is_strict_reserved_kw())
+            {
+                reserved = Some(token);
+            }
             match this.current.tokentype {
                 TokenType::Identifier if this.current.matches_str("as") => {
-                    let exported = Identifier {
+                    let local = Identifier {
                         name,
                         span: this.end_span(),
                     };
                     this.advance(LexGoal::RegExp)?;
                     this.start_span();
-                    let local = Identifier {
+                    let exported = Identifier {
                         name: this.parse_id_name(LexGoal::RegExp)?,
                         span: this.end_span(),
                     };
@@ -524,7 +540,7 @@ where
             }
         })?;
         self.consume("}", LexGoal::RegExp)?;
-        Ok(specifiers)
+        Ok((specifiers, reserved))
     }
 
     // *******************************************************************
-- 
2.43.0


From 8efcfc6f63a0b0ced7cb60cb4ed8b5bcee3b3eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:22 +0000
Subject: [PATCH 34/74] fix: parse exported let declarations and async
 functions

---
 giron/src/parser/parser.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 9fc5509..e4f1279 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -368,9 +368,10 @@ where
         match self.current.tokentype {
             TokenType::Keyword if self.current.matches_str("default") => {
                 self.advance(LexGoal::RegExp)?;
+                let is_async_function = self.is_async_function()?;
                 match self.current.tokentype {
                     TokenType::Identifier | TokenType::Keyword
-                        if self.current.is_hoistable_dclr_kw() =>
+                        if is_async_function || self.current.matches_str("function") =>
                     {
                         let declaration = self.with_params(
                             Params {
@@ -435,7 +436,7 @@ where
                     span: self.end_span(),
                 })
             }
-            TokenType::Keyword if self.current.is_dclr_kw() => {
+            TokenType::Keyword | TokenType::Identifier if self.current.is_dclr_kw() => {
                 let declaration = self.with_params(
                     Params {
                         has_yield: false,
@@ -549,14 +550,17 @@ where
 
     fn parse_declaration(&mut self) -> Result<Node> {
         log!("parse_declaration");
+        let is_async_function = self.is_async_function()?;
         match self.current.tokentype {
-            TokenType::Keyword if self.current.is_hoistable_dclr_kw() => {
+            TokenType::Identifier | TokenType::Keyword
+                if is_async_function || self.current.matches_str("function") =>
+            {
                 self.with_default(false, &mut Self::parse_hoistable_dclr)
             }
             TokenType::Keyword if self.current.matches_str("class") => {
                 self.with_default(false, &mut Self::parse_class_dclr)
             }
-            TokenType::Keyword if self.current.is_lexical_dclr_kw() => {
+            TokenType::Identifier | TokenType::Keyword if self.current.is_lexical_dclr_kw() => {
                 self.with_in(true, &mut Self::parse_lexical_dclr)
             }
             _ => self.unexpected_current(),
-- 
2.43.0


From f01e3a00991e145b87adc03a461c7795f1811380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:03 +0000
Subject: [PATCH 35/74] fix: accept for-of heads without a lexical declaration

---
 giron/src/parser/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index e4f1279..fe55eed 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -880,7 +880,7 @@ where
                         }));
                         self.parse_for_classic_stmt(init)
                     }
-                    TokenType::Keyword if self.current.matches_str("of") => {
+                    TokenType::Identifier if self.current.matches_str("of") => {
                         // "var" (BindingIdentifier | BindingPattern) "of"
                         self.parse_for_of_stmt(Box::from(id.to_node()?))
                     }
@@ -1030,7 +1030,7 @@ where
                         }
                         self.parse_for_in_stmt(Box::from(expr))
                     }
-                    TokenType::Keyword if self.current.matches_str("of") => {
+                    TokenType::Identifier if self.current.matches_str("of") => {
                         self.end_span(); // not needed
                         expr = match expr {
                             Node::ObjectExpression { .. } | Node::ArrayExpression { .. } => {
-- 
2.43.0


From 46dcfd9f7fe37b3f5f844b9469a9e2088dad6a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:03 +0000
Subject: [PATCH 36/74] fix: do not parse in as an operator in later for
 declarations

---
 giron/src/parser/parser.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index fe55eed..eff119a 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -868,7 +868,7 @@ where
                         declarations.extend(self.parse_while_punc(",", &mut |this| {
                             this.consume(",", LexGoal::RegExp)?;
                             this.save_params();
-                            this.params.has_in = true;
+                            this.params.has_in = false;
                             let res = this.parse_variable_dclr();
                             this.restore_params();
                             res
@@ -896,7 +896,7 @@ where
                                 declarations.extend(self.parse_while_punc(",", &mut |this| {
                                     this.consume(",", LexGoal::RegExp)?;
                                     this.save_params();
-                                    this.params.has_in = true;
+                                    this.params.has_in = false;
                                     let res = this.parse_variable_dclr();
                                     this.restore_params();
                                     res
@@ -950,7 +950,7 @@ where
                         declarations.extend(self.parse_while_punc(",", &mut |this| {
                             this.consume(",", LexGoal::RegExp)?;
                             this.save_params();
-                            this.params.has_in = true;
+                            this.params.has_in = false;
                             let res = this.parse_variable_dclr();
                             this.restore_params();
                             res
@@ -978,7 +978,7 @@ where
                                 declarations.extend(self.parse_while_punc(",", &mut |this| {
                                     this.consume(",", LexGoal::RegExp)?;
                                     this.save_params();
-                                    this.params.has_in = true;
+                                    this.params.has_in = false;
                                     let res = this.parse_variable_dclr();
                                     this.restore_params();
                                     res
@@ -1048,7 +1048,7 @@ where
                         let mut expressions = vec![expr];
                         expressions.extend(self.parse_while_punc(",", &mut |this| {
                             this.consume(",", LexGoal::RegExp)?;
-                            this.with_in(true, &mut Self::parse_assignment_expr)
+                            this.with_in(false, &mut Self::parse_assignment_expr)
                         })?);
                         let init = Some(Box::from(Node::SequenceExpression {
                             expressions,
-- 
2.43.0


From b855d7708b6f3a39f59d89a771116f0135160afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:04 +0000
Subject: [PATCH 37/74] fix: emit a lone for initializer as is

---
 giron/src/parser/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index eff119a..8eef204 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1045,6 +1045,10 @@ where
                         self.parse_for_of_stmt(Box::from(expr))
                     }
                     _ => {
+                        if !self.current.matches_punc(",") {
+                            self.end_span(); // not needed
+                            return self.parse_for_classic_stmt(Some(Box::from(expr)));
+                        }
                         let mut expressions = vec![expr];
                         expressions.extend(self.parse_while_punc(",", &mut |this| {
                             this.consume(",", LexGoal::RegExp)?;
-- 
2.43.0


From 042de915926f9a20dbc36189e1671bf172ef039b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:05 +0000
Subject: [PATCH 38/74] fix: emit for-in and for-of declarations as
 VariableDeclaration

---
 giron/src/parser/parser.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 8eef204..3212720 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -882,11 +882,13 @@ where
                     }
                     TokenType::Identifier if self.current.matches_str("of") => {
                         // "var" (BindingIdentifier | BindingPattern) "of"
-                        self.parse_for_of_stmt(Box::from(id.to_node()?))
+                        let left = self.for_declaration(id, "var");
+                        self.parse_for_of_stmt(left)
                     }
                     TokenType::Keyword if self.current.matches_str("in") => {
                         // "var" (BindingIdentifier | BindingPattern) "in"
-                        self.parse_for_in_stmt(Box::from(id.to_node()?))
+                        let left = self.for_declaration(id, "var");
+                        self.parse_for_in_stmt(left)
                     }
                     _ => {
                         match &id {
@@ -964,11 +966,13 @@ where
                     }
                     TokenType::Keyword if self.current.matches_str("in") => {
                         // LetOrConst Binding "in" ...
-                        self.parse_for_in_stmt(Box::from(id.to_node()?))
+                        let left = self.for_declaration(id, kind);
+                        self.parse_for_in_stmt(left)
                     }
                     TokenType::Identifier if self.current.matches_str("of") => {
                         // LetOrConst Binding "of" ...
-                        self.parse_for_of_stmt(Box::from(id.to_node()?))
+                        let left = self.for_declaration(id, kind);
+                        self.parse_for_of_stmt(left)
                     }
                     _ => {
                         match &id {
@@ -1066,6 +1070,15 @@ where
         }
     }
 
+    /// The declaration of a for-in or for-of head.
+    fn for_declaration(&mut self, id: Binding, kind: &'static str) -> Box<Node> {
+        Box::from(Node::VariableDeclaration {
+            declarations: vec![VariableDeclarator { id, init: None }],
+            kind,
+            span: self.end_span(),
+        })
+    }
+
     fn parse_for_classic_stmt(&mut self, init: Option<Box<Node>>) -> Result<Node> {
         // "for" "(" "var" VariableDeclarationList[~In, ?Yield, ?Await]
         //     ";" Expression[+In, ?Yield, ?Await](opt)
-- 
2.43.0


From e9efe64dd4eb37c3ecc54aba60a1091030f03f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:05 +0000
Subject: [PATCH 39/74] fix: insert a semicolon after do-while

---
 giron/src/parser/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 3212720..d1eeb50 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1198,7 +1198,10 @@ where
         self.consume("(", LexGoal::RegExp)?;
         let test = Box::from(self.with_in(true, &mut Self::parse_expression)?);
         self.consume(")", LexGoal::RegExp)?;
-        self.consume_semicolon(LexGoal::RegExp)?;
+        // A semicolon is always inserted here if there is none.
+        if self.current.matches_punc(";") {
+            self.advance(LexGoal::RegExp)?;
+        }
         Ok(Node::DoWhileStatement {
             body,
             test,
-- 
2.43.0


From f7dcab725768e9db3d544a6e94cacffb45315963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:24 +0000
Subject: [PATCH 40/74] fix: accept an empty switch body

---
 giron/src/parser/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index d1eeb50..ca1675a 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1237,7 +1237,7 @@ where
         self.consume("{", LexGoal::RegExp)?;
         let mut cases = vec![];
         let mut first_default = true;
-        loop {
+        while !self.current.matches_punc("}") {
             let test = match self.current.tokentype {
                 TokenType::Keyword if self.current.matches_str("case") => {
                     self.advance(LexGoal::RegExp)?;
-- 
2.43.0


From b4566d2df01e05b81c38b81dab54f607e8976aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:25 +0000
Subject: [PATCH 41/74] fix: accept a return without argument before a brace or
 the end

---
 giron/src/parser/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index ca1675a..355720f 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1344,6 +1344,8 @@ where
         self.consume_kw("return", LexGoal::RegExp)?;
         let argument = match self.current.tokentype {
             TokenType::Punctuator if self.current.matches_punc(";") => None,
+            TokenType::Punctuator if self.current.matches_punc("}") => None,
+            TokenType::Eof => None,
             _ if !self.has_line_terminator => {
                 Some(Box::from(self.with_in(true, &mut Self::parse_expression)?))
             }
-- 
2.43.0


From 1ada61f431f435195bec16cb7df133b4d42440e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:26 +0000
Subject: [PATCH 42/74] fix: scan a division after a function expression

---
 giron/src/parser/parser.rs   | 31 ++++++++++++++++---------------
 giron/src/scanner/scanner.rs |  2 +-
 2 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 355720f..2cbbba3 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1605,7 +1605,7 @@ where
                 has_await: r#async,
                 ..self.params
             },
-            &mut Self::parse_function_body,
+            &mut |this| this.parse_function_body(LexGoal::RegExp),
         )?;
         Ok(Node::FunctionDeclaration {
             id,
@@ -1618,15 +1618,16 @@ where
         })
     }
 
-    fn parse_function_body(&mut self) -> Result<Node> {
+    /// Parses a function body. The goal is that of the token after it.
+    fn parse_function_body(&mut self, goal: LexGoal) -> Result<Node> {
         let prev_in_function = self.ctx.in_function;
         self.ctx.in_function = true;
-        let res = self.with_return(true, &mut Self::parse_function_body_block);
+        let res = self.with_return(true, &mut |this| this.parse_function_body_block(goal));
         self.ctx.in_function = prev_in_function;
         res
     }
 
-    fn parse_function_body_block(&mut self) -> Result<Node> {
+    fn parse_function_body_block(&mut self, goal: LexGoal) -> Result<Node> {
         self.start_span();
         self.consume("{", LexGoal::RegExp)?;
         let prev_strict = self.ctx.strict;
@@ -1636,7 +1637,7 @@ where
         body.extend(self.parse_statement_list()?);
         self.ctx.in_iteration = prev_in_iteration;
 
-        self.consume("}", LexGoal::RegExp)?;
+        self.consume("}", goal)?;
         self.ctx.strict = prev_strict;
         Ok(Node::BlockStatement {
             body,
@@ -1729,7 +1730,7 @@ where
                                     has_await: false,
                                     ..this.params
                                 },
-                                &mut Self::parse_function_body,
+                                &mut |this| this.parse_function_body(LexGoal::RegExp),
                             )?);
                             let value = FunctionExpression {
                                 id: None,
@@ -1764,7 +1765,7 @@ where
                                     has_await: false,
                                     ..this.params
                                 },
-                                &mut Self::parse_function_body,
+                                &mut |this| this.parse_function_body(LexGoal::RegExp),
                             )?);
                             let value = FunctionExpression {
                                 id: None,
@@ -1813,7 +1814,7 @@ where
                                     has_await: r#async,
                                     ..this.params
                                 },
-                                &mut Self::parse_function_body,
+                                &mut |this| this.parse_function_body(LexGoal::RegExp),
                             )?);
                             let value = FunctionExpression {
                                 id: None,
@@ -1850,7 +1851,7 @@ where
                                     has_await: r#async,
                                     ..this.params
                                 },
-                                &mut Self::parse_function_body,
+                                &mut |this| this.parse_function_body(LexGoal::RegExp),
                             )?);
                             let value = FunctionExpression {
                                 id: None,
@@ -1903,7 +1904,7 @@ where
                                     has_await: r#async,
                                     ..this.params
                                 },
-                                &mut Self::parse_function_body,
+                                &mut |this| this.parse_function_body(LexGoal::RegExp),
                             )?);
                             let value = FunctionExpression {
                                 id: None,
@@ -3244,7 +3245,7 @@ where
         Ok(Node::FunctionExpression {
             id,
             params: self.parse_formal_params()?,
-            body: Box::from(self.parse_function_body()?),
+            body: Box::from(self.parse_function_body(LexGoal::Div)?),
             generator,
             expression: false,
             r#async,
@@ -3628,7 +3629,7 @@ where
                             has_await: false,
                             ..self.params
                         },
-                        &mut Self::parse_function_body,
+                        &mut |this| this.parse_function_body(LexGoal::RegExp),
                     )?),
                     generator,
                     expression: false,
@@ -3661,7 +3662,7 @@ where
                             has_await: false,
                             ..self.params
                         },
-                        &mut Self::parse_function_body,
+                        &mut |this| this.parse_function_body(LexGoal::RegExp),
                     )?),
                     generator,
                     expression: false,
@@ -3692,7 +3693,7 @@ where
                         has_yield: generator,
                         ..self.params
                     },
-                    &mut Self::parse_function_body,
+                    &mut |this| this.parse_function_body(LexGoal::RegExp),
                 )?);
                 let value = if r#async {
                     Some(PropertyValue::AsyncFunctionExpression(
@@ -3839,7 +3840,7 @@ where
                         has_yield: false,
                         ..self.params
                     },
-                    &mut Self::parse_function_body,
+                    &mut |this| this.parse_function_body(LexGoal::RegExp),
                 )?);
             }
             _ => {
diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 39f9b62..a339c4c 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -8,7 +8,7 @@ use crate::token::value::Value;
 use std::char;
 use std::mem;
 
-#[derive(PartialEq)]
+#[derive(PartialEq, Clone, Copy)]
 pub enum LexGoal {
     Div,
     RegExp,
-- 
2.43.0


From 85e70090bedb026361c58c440889d2a83c7b9bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:27 +0000
Subject: [PATCH 43/74] fix: reset iteration, switch and in-operator context in
 function bodies

---
 giron/src/parser/parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 2cbbba3..8e74937 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1631,11 +1631,18 @@ where
         self.start_span();
         self.consume("{", LexGoal::RegExp)?;
         let prev_strict = self.ctx.strict;
+        self.save_params();
+        self.params.has_in = true;
         let mut body = self.parse_directive_prologues()?;
 
         let prev_in_iteration = self.ctx.in_iteration;
+        let prev_in_switch = self.ctx.in_switch;
+        self.ctx.in_iteration = false;
+        self.ctx.in_switch = false;
         body.extend(self.parse_statement_list()?);
         self.ctx.in_iteration = prev_in_iteration;
+        self.ctx.in_switch = prev_in_switch;
+        self.restore_params();
 
         self.consume("}", goal)?;
         self.ctx.strict = prev_strict;
-- 
2.43.0


From 4e1735c7d98cab0130e032eda93559264b939e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:27 +0000
Subject: [PATCH 44/74] fix: allow the in operator outside of for heads

---
 giron/src/parser/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 8e74937..694ed0f 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -50,7 +50,7 @@ struct Params {
 impl Params {
     pub fn new() -> Self {
         Params {
-            has_in: false,
+            has_in: true,
             has_await: false,
             has_yield: false,
             has_tagged: false,
-- 
2.43.0


From 05df86e4a2dfa4594544299db2c4c88bedf27885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 45/74] fix: reject a line terminator between async and
 function, not its absence

---
 giron/src/parser/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 694ed0f..977bc6c 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1557,7 +1557,7 @@ where
         //     "async" [no LineTerminator here] "function" "*" BindingIdentifier[?Yield, ?Await]
         //       "(" FormalParameters[+Yield, +Await] ")" "{" AsyncGeneratorBody "}"
         //     [+Default] "async" [no LineTerminator here] "function" "*" "(" FormalParameters[+Yield, +Await] ")" "{" AsyncGeneratorBody "}"
-        if r#async && !self.has_line_terminator {
+        if r#async && self.has_line_terminator {
             return self.unexpected_current();
         }
         if !r#async {
-- 
2.43.0


From 8d32ba671b380572bc5baef710e15ff6cff068c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 46/74] fix: allow a default export of an anonymous class

---
 giron/src/parser/parser.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 977bc6c..6620d4b 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1661,13 +1661,18 @@ where
         self.ctx.strict = true;
         self.start_span();
         self.consume_kw("class", LexGoal::RegExp)?;
-        let id = match self.parse_binding_id()? {
-            Binding::BindingIdentifier(BindingIdentifier { name, span }) => {
-                Ok(Node::BindingIdentifier { name, span })
+        let is_anonymous = self.current.matches_punc("{") || self.current.matches_str("extends");
+        let id = if self.params.has_default && is_anonymous {
+            None
+        } else {
+            match self.parse_binding_id()? {
+                Binding::BindingIdentifier(BindingIdentifier { name, span }) => {
+                    Some(Box::from(Node::BindingIdentifier { name, span }))
+                }
+                _ => unreachable!(),
             }
-            _ => unreachable!(),
-        }?;
-        let res = self.parse_class_tail(Some(Box::from(id)))?;
+        };
+        let res = self.parse_class_tail(id)?;
         self.ctx.strict = prev_strict;
         Ok(res)
     }
-- 
2.43.0


From 51cff373c86c9886e1e9550faad40425bb42329f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:29 +0000
Subject: [PATCH 47/74] fix: tell class method modifiers from methods of that
 name

---
 giron/src/parser/parser.rs | 46 +++++++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 10 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 6620d4b..8ab32ac 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1723,15 +1723,16 @@ where
                     Ok(None)
                 }
                 _ => {
-                    let r#static = match this.current.tokentype {
-                        TokenType::Keyword if this.current.matches_str("static") => {
-                            this.advance(LexGoal::RegExp)?;
-                            true
-                        }
-                        _ => false,
-                    };
+                    let r#static =
+                        this.current.matches_str("static") && this.is_method_modifier()?;
+                    if r#static {
+                        this.advance(LexGoal::RegExp)?;
+                    }
+                    let is_modifier = this.is_method_modifier()?;
                     match this.current.tokentype {
-                        TokenType::Identifier if this.current.matches_str("get") => {
+                        TokenType::Identifier
+                            if is_modifier && this.current.matches_str("get") =>
+                        {
                             this.advance(LexGoal::RegExp)?;
                             let (key, computed) = this.parse_property_name()?;
                             this.consume("(", LexGoal::RegExp)?;
@@ -1760,7 +1761,9 @@ where
                                 r#static,
                             }))
                         }
-                        TokenType::Identifier if this.current.matches_str("set") => {
+                        TokenType::Identifier
+                            if is_modifier && this.current.matches_str("set") =>
+                        {
                             this.advance(LexGoal::RegExp)?;
                             let (key, computed) = this.parse_property_name()?;
                             let params = this.with_params(
@@ -1795,7 +1798,9 @@ where
                                 r#static,
                             }))
                         }
-                        TokenType::Identifier if this.current.matches_str("async") => {
+                        TokenType::Identifier
+                            if is_modifier && this.current.matches_str("async") =>
+                        {
                             this.advance(LexGoal::RegExp)?;
                             let r#async = true;
                             let generator = match this.current.tokentype {
@@ -1946,6 +1951,27 @@ where
         Ok(ClassBody { body })
     }
 
+    /// Whether the current `get`, `set`, `async` or `static` modifies the
+    /// method that follows, rather than being the name of a property.
+    fn is_method_modifier(&mut self) -> Result<bool> {
+        match self.current.tokentype {
+            TokenType::Identifier
+                if self.current.matches_str("get")
+                    || self.current.matches_str("set")
+                    || self.current.matches_str("async")
+                    || self.current.matches_str("static") =>
+            {
+                let next_token = self.scanner.peek_token(LexGoal::Div)?;
+                Ok(!(next_token.matches_punc("(")
+                    || next_token.matches_punc(",")
+                    || next_token.matches_punc(":")
+                    || next_token.matches_punc("=")
+                    || next_token.matches_punc("}")))
+            }
+            _ => Ok(false),
+        }
+    }
+
     fn parse_lexical_dclr(&mut self) -> Result<Node> {
         log!("parse_lexical_dclr");
         // VariableDeclaration {
-- 
2.43.0


From cb424c0a06425774c59ffd306f0f962a9595eb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:30 +0000
Subject: [PATCH 48/74] fix: reject a line terminator after async in classes,
 not its absence

---
 giron/src/parser/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 8ab32ac..7ddef6b 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1813,7 +1813,7 @@ where
                                 }
                                 _ => false,
                             };
-                            if !generator && !this.has_line_terminator {
+                            if !generator && this.has_line_terminator {
                                 return this.unexpected_current();
                             }
                             let (key, computed) = this.parse_property_name()?;
-- 
2.43.0


From 0aa99a7d3a01887127c7f0a3eea0eb42b9490bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:44 +0000
Subject: [PATCH 49/74] fix: require exactly one plain parameter in class
 setters

---
 giron/src/parser/parser.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 7ddef6b..93a7c27 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1772,7 +1772,7 @@ where
                                     has_await: false,
                                     ..this.params
                                 },
-                                &mut Self::parse_formal_params,
+                                &mut Self::parse_setter_params,
                             )?;
                             let body = Box::from(this.with_params(
                                 Params {
@@ -1951,6 +1951,15 @@ where
         Ok(ClassBody { body })
     }
 
+    fn parse_setter_params(&mut self) -> Result<Vec<FunctionParameter>> {
+        let params = self.parse_formal_params()?;
+        match &params[..] {
+            [FunctionParameter::RestElement { .. }] => self.unexpected_current(),
+            [_] => Ok(params),
+            _ => self.unexpected_current(),
+        }
+    }
+
     /// Whether the current `get`, `set`, `async` or `static` modifies the
     /// method that follows, rather than being the name of a property.
     fn is_method_modifier(&mut self) -> Result<bool> {
-- 
2.43.0


From eb21e1b7c6ce8a29338af0f658650d28936d191e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:44 +0000
Subject: [PATCH 50/74] fix: report literals with their own value and source
 text

---
 giron/src/estree/estree.rs   |  2 +-
 giron/src/parser/parser.rs   | 30 ++++++++++++++++++++----------
 giron/src/scanner/scanner.rs | 23 ++++++++++++++++-------
 giron/src/token/token.rs     |  2 ++
 giron/src/token/value.rs     |  2 ++
 5 files changed, 41 insertions(+), 18 deletions(-)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index ce910f1..6ddf153 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -61,7 +61,7 @@ pub struct ClassBody {
 #[serde(tag = "type")]
 pub struct Regex {
     pub pattern: String,
-    pub flags: Vec<char>,
+    pub flags: String,
 }
 
 #[derive(Serialize, Debug)]
diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 93a7c27..9569244 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -349,8 +349,7 @@ where
         match self.current.tokentype {
             TokenType::StringLiteral => {
                 self.start_span();
-                let value = self.advance(LexGoal::RegExp)?.value;
-                let raw = String::from(&value);
+                let Token { value, raw, .. } = self.advance(LexGoal::RegExp)?;
                 Ok(Literal {
                     value,
                     raw,
@@ -2629,15 +2628,26 @@ where
                 })
             }
             TokenType::Identifier | TokenType::Keyword => self.parse_id_reference(),
-            TokenType::NumericLiteral
-            | TokenType::StringLiteral
-            | TokenType::BooleanLiteral
-            | TokenType::NullLiteral => {
+            TokenType::NumericLiteral | TokenType::StringLiteral => {
+                self.start_span();
+                let Token { value, raw, .. } = self.advance(LexGoal::Div)?;
+                Ok(Node::Literal {
+                    value,
+                    raw,
+                    assign_target_type: "invalid",
+                    span: self.end_span(),
+                })
+            }
+            TokenType::BooleanLiteral | TokenType::NullLiteral if !self.current.escaped => {
                 self.start_span();
                 let value = self.advance(LexGoal::Div)?.value;
                 let raw = String::from(&value);
                 Ok(Node::Literal {
-                    value,
+                    value: match &raw[..] {
+                        "true" => Value::Bool(true),
+                        "false" => Value::Bool(false),
+                        _ => Value::Null,
+                    },
                     raw,
                     assign_target_type: "invalid",
                     span: self.end_span(),
@@ -2649,11 +2659,11 @@ where
                 self.start_span();
                 let token = self.advance(LexGoal::Div)?;
                 Ok(Node::RegexLiteral {
-                    value: String::from(&self.current.value),
-                    raw: String::from(&self.current.value),
+                    value: token.raw.clone(),
+                    raw: token.raw,
                     regex: Regex {
                         pattern: token.pattern.unwrap(),
-                        flags: token.flags.unwrap(),
+                        flags: token.flags.unwrap().into_iter().collect(),
                     },
                     assign_target_type: "invalid",
                     span: self.end_span(),
diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index a339c4c..baa170a 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -41,6 +41,7 @@ pub struct Scanner<I> {
     escaped: bool,
     reader: Reader<I>,
     record_raw: bool,
+    normalize_raw: bool,
     raw_string: String,
     curly_stack: Vec<Brace>,
     unscanned: Option<Token>,
@@ -63,6 +64,7 @@ where
             escaped: false,
             reader: Reader::new(source),
             record_raw: false,
+            normalize_raw: false,
             raw_string: String::with_capacity(8),
             curly_stack: Vec::new(),
             unscanned: None,
@@ -326,6 +328,7 @@ where
     // *******************************************************************
 
     pub fn scan_numeric_literal(&mut self) -> Result<Token> {
+        self.start_recording(false);
         let value = match self.peek2() {
             (Some('0'), Some('b')) | (Some('0'), Some('B')) => self.scan_radix_literal(2),
             (Some('0'), Some('o')) | (Some('0'), Some('O')) => self.scan_radix_literal(8),
@@ -485,6 +488,7 @@ where
     pub fn scan_string_literal(&mut self) -> Result<Token> {
         let quote;
         let mut octal = false;
+        self.start_recording(false);
         match self.peek() {
             Some('\'') | Some('"') => quote = self.consume().unwrap(),
             _ => return self.error(ErrorType::InvalidOrUnexpectedToken),
@@ -619,6 +623,7 @@ where
     // *******************************************************************
 
     pub fn scan_regexp_literal(&mut self) -> Result<Token> {
+        self.start_recording(false);
         let pattern = self.scan_regexp_body()?;
         let flags = self.scan_regexp_flags()?;
 
@@ -705,7 +710,7 @@ where
         let mut tail = false;
         let octal = false;
         self.expect('`')?;
-        self.start_recording();
+        self.start_recording(true);
         let cooked = self.scan2_until_with(
             |(cp1, cp2)| cp1 == Some('`') || (cp1 == Some('$') && cp2 == Some('{')),
             &mut |this| this.scan_template_char(),
@@ -740,7 +745,7 @@ where
         let mut tail = false;
         let octal = false;
         self.expect('}')?;
-        self.start_recording();
+        self.start_recording(true);
         let cooked = self.scan2_until_with(
             |(cp1, cp2)| cp1 == Some('`') || (cp1 == Some('$') && cp2 == Some('{')),
             &mut |this| this.scan_template_char(),
@@ -1035,10 +1040,10 @@ where
     fn consume(&mut self) -> Option<char> {
         let cp = self.reader.next();
         if self.record_raw {
-            // <CR><LF> and <CR> are normalised to <LF>.
+            // In templates <CR><LF> and <CR> are normalised to <LF>.
             match (cp, self.peek()) {
-                (Some('\r'), Some('\n')) => (),
-                (Some('\r'), _) => self.raw_string.push('\n'),
+                (Some('\r'), Some('\n')) if self.normalize_raw => (),
+                (Some('\r'), _) if self.normalize_raw => self.raw_string.push('\n'),
                 (Some(cp), _) => self.raw_string.push(cp),
                 (None, _) => (),
             }
@@ -1065,13 +1070,14 @@ where
         self.escaped = false;
     }
 
-    fn start_recording(&mut self) {
+    fn start_recording(&mut self, normalize: bool) {
         self.record_raw = true;
+        self.normalize_raw = normalize;
     }
 
     fn stop_recording(&mut self) -> String {
         self.record_raw = false;
-        mem::replace(&mut self.raw_string, String::with_capacity(8))
+        mem::replace(&mut self.raw_string, String::new())
     }
 
     fn token(
@@ -1085,9 +1091,11 @@ where
         head: Option<bool>,
         tail: Option<bool>,
     ) -> Result<Token> {
+        let raw = self.stop_recording();
         Ok(Token {
             tokentype,
             value,
+            raw,
             pattern,
             flags,
             octal,
@@ -1112,6 +1120,7 @@ where
         Token {
             tokentype: TokenType::Eof,
             value: Value::Null,
+            raw: String::new(),
             pattern: None,
             flags: None,
             octal: None,
diff --git a/giron/src/token/token.rs b/giron/src/token/token.rs
index 200b08a..b65c823 100644
--- a/giron/src/token/token.rs
+++ b/giron/src/token/token.rs
@@ -19,6 +19,8 @@ pub enum TokenType {
 pub struct Token {
     pub tokentype: TokenType,
     pub value: Value,
+    /// Source text of a numeric, string or regular expression literal.
+    pub raw: String,
     pub pattern: Option<String>,
     pub flags: Option<Vec<char>>,
     pub octal: Option<bool>,
diff --git a/giron/src/token/value.rs b/giron/src/token/value.rs
index 2af7cca..8415e82 100644
--- a/giron/src/token/value.rs
+++ b/giron/src/token/value.rs
@@ -7,6 +7,7 @@ pub enum Value {
     Str(String),
     Num(f64),
     Punc(Punctuator),
+    Bool(bool),
     Null,
 }
 
@@ -16,6 +17,7 @@ impl From<&Value> for String {
             Value::Str(s) => s.clone(),
             Value::Num(x) => x.to_string(),
             Value::Punc(p) => p.to_string(),
+            Value::Bool(b) => b.to_string(),
             Value::Null => String::from("null"),
         }
     }
-- 
2.43.0


From b663897bd018f483b18eef6e072407cda9c73e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:55 +0000
Subject: [PATCH 51/74] fix: use the ESTree node type and field names

---
 giron/src/estree/estree.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index 6ddf153..379f4f9 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -143,6 +143,7 @@ pub enum ArrayPatternElement {
         left: Binding,
         right: Node,
     },
+    #[serde(rename = "Identifier")]
     BindingIdentifier {
         name: String,
     },
@@ -224,6 +225,7 @@ pub struct AssignmentPattern {
 
 #[derive(Serialize, Debug)]
 #[serde(tag = "type")]
+#[serde(rename = "FunctionExpression")]
 pub struct AsyncFunctionExpression {
     pub id: Option<Box<Node>>, // Identifier | null
     pub params: Vec<FunctionParameter>,
@@ -302,6 +304,7 @@ pub enum FunctionParameter {
         left: Binding,
         right: Node,
     },
+    #[serde(rename = "Identifier")]
     BindingIdentifier {
         name: String,
     },
@@ -349,10 +352,12 @@ pub enum ObjectExpressionProperty {
         kind: &'static str,
         method: bool,
         shorthand: bool,
+        #[serde(skip)]
         span: Span,
     },
     SpreadElement {
         argument: Node,
+        #[serde(skip)]
         span: Span,
     },
 }
@@ -467,11 +472,13 @@ pub enum Node {
         #[serde(skip)]
         span: Span,
     },
+    #[serde(rename = "RestElement")]
     AssignmentRestElement {
         argument: Box<Node>,
         #[serde(skip)]
         span: Span,
     },
+    #[serde(rename = "ArrowFunctionExpression")]
     AsyncArrowFunctionExpression {
         id: Option<Box<Node>>, // Identifier | null
         params: Vec<FunctionParameter>,
@@ -484,6 +491,7 @@ pub enum Node {
         #[serde(skip)]
         span: Span,
     },
+    #[serde(rename = "FunctionExpression")]
     AsyncFunctionExpression {
         id: Option<Box<Node>>, // Identifier | null
         params: Vec<FunctionParameter>,
@@ -532,14 +540,16 @@ pub enum Node {
         span: Span,
     },
     ClassExpression {
-        id: Option<Box<Node>>,          // Identifier | null
-        super_class: Option<Box<Node>>, // Identifier | null
+        id: Option<Box<Node>>, // Identifier | null
+        #[serde(rename = "superClass")]
+        super_class: Option<Box<Node>>, // Expression | null
         body: ClassBody,
         #[serde(skip)]
         assign_target_type: &'static str,
         #[serde(skip)]
         span: Span,
     },
+    #[serde(rename = "MemberExpression")]
     ComputedMemberExpression {
         computed: bool,
         object: Box<Node>,   // Expression
@@ -605,6 +615,7 @@ pub enum Node {
         #[serde(skip)]
         span: Span,
     },
+    #[serde(rename = "Literal")]
     RegexLiteral {
         value: String,
         raw: String,
@@ -621,6 +632,7 @@ pub enum Node {
         #[serde(skip)]
         span: Span,
     },
+    #[serde(rename = "MemberExpression")]
     StaticMemberExpression {
         computed: bool,
         object: Box<Node>,   // Expression
@@ -709,6 +721,7 @@ pub enum Node {
     // ****************************************************
     // Statements & Declarations
     // ****************************************************
+    #[serde(rename = "FunctionDeclaration")]
     AsyncFunctionDeclaration {
         id: Option<Box<Node>>, // Identifier | null
         params: Vec<FunctionParameter>,
@@ -748,6 +761,7 @@ pub enum Node {
         #[serde(skip)]
         span: Span,
     },
+    #[serde(rename = "ExpressionStatement")]
     Directive {
         expression: Box<Node>, // Expression
         directive: String,
-- 
2.43.0


From 27fe72d3400e9895156aa812cb53eb9ffd48d50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:27 +0000
Subject: [PATCH 52/74] fix: convert nested and parenthesized patterns as the
 grammar says

---
 giron/src/estree/estree.rs | 261 ++++++++++++++++++++++++++++---------
 giron/src/parser/parser.rs |   8 ++
 2 files changed, 204 insertions(+), 65 deletions(-)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index 379f4f9..a8ea3df 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -68,6 +68,9 @@ pub struct Regex {
 #[serde(tag = "type")]
 pub struct SpreadElement {
     pub argument: Node,
+    /// Whether a comma follows the element.
+    #[serde(skip)]
+    pub comma: bool,
     #[serde(skip)]
     pub span: Span,
 }
@@ -125,6 +128,13 @@ impl Binding {
         }
     }
 
+    fn to_strict(self, marker: Marker) -> Result<Binding> {
+        match self {
+            Binding::Expression(node) => node.to_strict_binding(marker),
+            binding => Ok(binding),
+        }
+    }
+
     pub fn to_id(self) -> Result<Identifier> {
         match self {
             Binding::BindingIdentifier(BindingIdentifier { name, span }) => {
@@ -331,7 +341,7 @@ impl ArgumentListElement {
     pub fn as_node(self) -> Result<Node> {
         match self {
             ArgumentListElement::Expression(node) => Ok(node),
-            ArgumentListElement::SpreadElement(SpreadElement { argument, span }) => {
+            ArgumentListElement::SpreadElement(SpreadElement { argument, span, .. }) => {
                 Ok(Node::SpreadElement {
                     argument: Box::from(argument),
                     span,
@@ -357,6 +367,9 @@ pub enum ObjectExpressionProperty {
     },
     SpreadElement {
         argument: Node,
+        /// Whether a comma follows the element.
+        #[serde(skip)]
+        comma: bool,
         #[serde(skip)]
         span: Span,
     },
@@ -1004,6 +1017,10 @@ impl Node {
                 assign_target_type, ..
             } => assign_target_type,
             Node::ArrayAssignmentPattern { .. } => "simple",
+            Node::Identifier {
+                assign_target_type: "parenthesized",
+                ..
+            } => "simple",
             Node::Identifier {
                 assign_target_type, ..
             } => assign_target_type,
@@ -1056,19 +1073,12 @@ impl Node {
         }
     }
 
-    fn to_binding(self) -> Result<Binding> {
-        let node = self.to_binding_pattern()?;
-        match node {
+    fn to_identifier_binding(self, marker: Marker) -> Result<Binding> {
+        match self.to_binding_pattern()? {
             Node::BindingIdentifier { name, span } => {
                 Ok(Binding::BindingIdentifier(BindingIdentifier { name, span }))
             }
-            Node::ArrayPattern { elements, span, .. } => {
-                Ok(Binding::ArrayPattern(ArrayPattern { elements, span }))
-            }
-            Node::ObjectPattern {
-                properties, span, ..
-            } => Ok(Binding::ObjectPattern(ObjectPattern { properties, span })),
-            _ => Ok(Binding::Expression(Box::from(node))),
+            _ => Node::error(ErrorType::InvalidOrUnexpectedToken, marker),
         }
     }
 
@@ -1090,45 +1100,67 @@ impl Node {
 
     pub fn to_assignment_pattern(self) -> Result<Node> {
         match self {
-            Node::ArrayExpression { elements, span, .. } => {
-                Node::array_to_assign_pattern(elements, span)
-            }
+            Node::ArrayExpression {
+                elements,
+                assign_target_type: "invalid",
+                span,
+            } => Node::array_to_assign_pattern(elements, span),
             Node::ObjectExpression {
-                properties, span, ..
+                properties,
+                assign_target_type: "invalid",
+                span,
             } => Node::object_to_assign_pattern(properties, span),
             _ => Ok(self),
         }
     }
 
+    /// Marks an expression as parenthesized: it is no longer a pattern, nor an
+    /// identifier that can become a binding or a label.
+    pub fn parenthesize(&mut self) {
+        match self {
+            Node::ArrayExpression {
+                assign_target_type, ..
+            }
+            | Node::ObjectExpression {
+                assign_target_type, ..
+            }
+            | Node::AssignmentExpression {
+                assign_target_type, ..
+            } => *assign_target_type = "parenthesized",
+            Node::Identifier {
+                assign_target_type, ..
+            } if *assign_target_type == "simple" => *assign_target_type = "parenthesized",
+            _ => (),
+        }
+    }
+
     fn array_to_assign_pattern(
         elements: Vec<Option<ArrayExpressionElement>>,
         span: Span,
     ) -> Result<Node> {
         let mut pat_elems = vec![];
-        let last_idx = elements.len();
+        let last_idx = elements.len().saturating_sub(1);
         for (i, element) in elements.into_iter().enumerate() {
             match element {
                 Some(ArrayExpressionElement::Expression(expr)) => {
                     let element = expr.as_assignment_element()?;
                     pat_elems.push(Some(ArrayAssignmentPatternElement::Expression(element)));
                 }
-                Some(ArrayExpressionElement::SpreadElement(SpreadElement { argument, span })) => {
-                    if i != last_idx {
+                Some(ArrayExpressionElement::SpreadElement(SpreadElement {
+                    argument,
+                    comma,
+                    span,
+                })) => {
+                    if i != last_idx || comma {
                         return Node::error(ErrorType::ParamAfterRest, span.start);
                     }
-                    let argument = match argument {
-                        Node::ArrayExpression { span, .. }
-                        | Node::ObjectExpression { span, .. } => {
-                            return Node::error(ErrorType::InvalidRestBindingPattern, span.start)
-                        }
-                        _ => argument,
-                    };
+                    let argument = argument.to_assignment_pattern()?;
                     if argument.assign_target_type() != "simple" {
                         return Node::error(ErrorType::InvalidLhsInAssignment, span.start);
                     }
                     pat_elems.push(Some(ArrayAssignmentPatternElement::RestElement(
                         RestElement {
-                            argument: argument.to_binding()?,
+                            argument: Binding::Expression(Box::from(argument)),
                         },
                     )))
                 }
@@ -1149,8 +1181,8 @@ impl Node {
                 operator: "=",
                 left,
                 right,
+                assign_target_type: "invalid",
                 span,
-                ..
             } => {
                 if left.assign_target_type() != "simple" {
                     Node::error(ErrorType::InvalidLhsInAssignment, span.start)
@@ -1221,8 +1253,12 @@ impl Node {
                         shorthand,
                     });
                 }
-                ObjectExpressionProperty::SpreadElement { argument, span } => {
-                    if i != last_idx {
+                ObjectExpressionProperty::SpreadElement {
+                    argument,
+                    comma,
+                    span,
+                } => {
+                    if i != last_idx || comma {
                         return Node::error(ErrorType::ParamAfterRest, span.start);
                     }
                     let argument = match argument {
@@ -1236,7 +1272,7 @@ impl Node {
                         return Node::error(ErrorType::InvalidLhsInAssignment, span.start);
                     }
                     pat_props.push(ObjectPatternProperty::RestElement {
-                        argument: argument.to_binding()?,
+                        argument: Binding::Expression(Box::from(argument)),
                     });
                 }
             }
@@ -1250,17 +1286,38 @@ impl Node {
 
     pub fn to_binding_pattern(self) -> Result<Node> {
         match self {
-            Node::Identifier { name, span, .. } => Ok(Node::BindingIdentifier { name, span }),
-            Node::ArrayExpression { elements, span, .. } => Node::array_to_pattern(elements, span),
+            Node::Identifier {
+                name,
+                assign_target_type: "simple",
+                span,
+            } => Ok(Node::BindingIdentifier { name, span }),
+            Node::ArrayExpression {
+                elements,
+                assign_target_type: "invalid",
+                span,
+            } => Node::array_to_pattern(elements, span),
             Node::ObjectExpression {
-                properties, span, ..
+                properties,
+                assign_target_type: "invalid",
+                span,
             } => Node::object_to_pattern(properties, span),
+            Node::ArrayAssignmentPattern { elements, span, .. } => {
+                Node::assign_to_array_pattern(elements, span)
+            }
+            Node::ObjectPattern {
+                properties, span, ..
+            } => Node::assign_to_object_pattern(properties, span),
+            Node::AssignmentPattern { left, right, span } => Ok(Node::AssignmentPattern {
+                left: left.to_strict(span.clone().start)?,
+                right,
+                span,
+            }),
             Node::AssignmentExpression {
                 operator: "=",
                 left,
                 right,
+                assign_target_type: "invalid",
                 span,
-                ..
             } => Ok(Node::AssignmentPattern {
                 left: left.to_strict_binding(span.clone().start)?,
                 right,
@@ -1274,16 +1331,108 @@ impl Node {
         }
     }
 
+    /// Converts an array assignment pattern to a binding pattern.
+    fn assign_to_array_pattern(
+        elements: Vec<Option<ArrayAssignmentPatternElement>>,
+        span: Span,
+    ) -> Result<Node> {
+        let mut pat_elems = vec![];
+        for element in elements.into_iter() {
+            pat_elems.push(match element {
+                Some(ArrayAssignmentPatternElement::Expression(expr)) => {
+                    Some(expr.to_array_pattern_element(true)?)
+                }
+                Some(ArrayAssignmentPatternElement::RestElement(RestElement { argument })) => {
+                    Some(ArrayPatternElement::RestElement {
+                        argument: argument.to_strict(span.clone().start)?,
+                    })
+                }
+                None => None,
+            });
+        }
+        Ok(Node::ArrayPattern {
+            elements: pat_elems,
+            assign_target_type: "simple",
+            span,
+        })
+    }
+
+    /// Converts an object assignment pattern to a binding pattern.
+    fn assign_to_object_pattern(
+        properties: Vec<ObjectPatternProperty>,
+        span: Span,
+    ) -> Result<Node> {
+        let mut pat_props = vec![];
+        for property in properties.into_iter() {
+            pat_props.push(match property {
+                ObjectPatternProperty::Property {
+                    key,
+                    computed,
+                    value: Some(PropertyValue::Expression(expr)),
+                    kind,
+                    method,
+                    shorthand,
+                } => ObjectPatternProperty::Property {
+                    key,
+                    computed,
+                    value: Some(expr.to_property_value(span.clone().start)?),
+                    kind,
+                    method,
+                    shorthand,
+                },
+                ObjectPatternProperty::RestElement {
+                    argument: Binding::Expression(expr),
+                } => ObjectPatternProperty::RestElement {
+                    argument: expr.to_identifier_binding(span.clone().start)?,
+                },
+                property => property,
+            });
+        }
+        Ok(Node::ObjectPattern {
+            properties: pat_props,
+            assign_target_type: "simple",
+            span,
+        })
+    }
+
+    fn to_property_value(self, marker: Marker) -> Result<PropertyValue> {
+        match self.to_binding_pattern()? {
+            Node::AssignmentPattern { left, right, .. } => {
+                Ok(PropertyValue::AssignmentPattern(AssignmentPattern {
+                    left,
+                    right: *right,
+                }))
+            }
+            Node::BindingIdentifier { name, span } => {
+                Ok(PropertyValue::BindingIdentifier(BindingIdentifier {
+                    name,
+                    span,
+                }))
+            }
+            Node::ObjectPattern { properties, .. } => Ok(PropertyValue::BindingPattern(
+                BindingPattern::ObjectPattern { properties },
+            )),
+            Node::ArrayPattern { elements, .. } => Ok(PropertyValue::BindingPattern(
+                BindingPattern::ArrayPattern { elements },
+            )),
+            _ => Node::error(ErrorType::InvalidOrUnexpectedToken, marker),
+        }
+    }
+
     fn array_to_pattern(elements: Vec<Option<ArrayExpressionElement>>, span: Span) -> Result<Node> {
         let mut pat_elems = vec![];
-        let last_idx = elements.len() - 1;
+        let last_idx = elements.len().saturating_sub(1);
         for (i, element) in elements.into_iter().enumerate() {
             match element {
                 Some(ArrayExpressionElement::Expression(expr)) => {
                     pat_elems.push(Some(expr.to_array_pattern_element(i == last_idx)?))
                 }
-                Some(ArrayExpressionElement::SpreadElement(SpreadElement { argument, span })) => {
-                    if i != last_idx {
+                Some(ArrayExpressionElement::SpreadElement(SpreadElement {
+                    argument,
+                    comma,
+                    span,
+                })) => {
+                    if i != last_idx || comma {
                         return Node::error(ErrorType::ParamAfterRest, span.start);
                     }
                     pat_elems.push(Some(ArrayPatternElement::RestElement {
@@ -1356,31 +1505,9 @@ impl Node {
                     span,
                 } => {
                     let value = match value {
-                        Some(PropertyValue::Expression(expr)) => match expr.to_binding_pattern()? {
-                            Node::AssignmentPattern { left, right, .. } => {
-                                Ok(Some(PropertyValue::AssignmentPattern(AssignmentPattern {
-                                    left,
-                                    right: *right,
-                                })))
-                            }
-                            Node::BindingIdentifier { name, span } => {
-                                Ok(Some(PropertyValue::BindingIdentifier(BindingIdentifier {
-                                    name,
-                                    span,
-                                })))
-                            }
-                            Node::ObjectPattern { properties, .. } => {
-                                Ok(Some(PropertyValue::BindingPattern(
-                                    BindingPattern::ObjectPattern { properties },
-                                )))
-                            }
-                            Node::ArrayPattern { elements, .. } => {
-                                Ok(Some(PropertyValue::BindingPattern(
-                                    BindingPattern::ArrayPattern { elements },
-                                )))
-                            }
-                            _ => Node::error(ErrorType::InvalidOrUnexpectedToken, span.start),
-                        },
+                        Some(PropertyValue::Expression(expr)) => {
+                            expr.to_property_value(span.start).map(Some)
+                        }
                         None => Ok(None),
                         _ => Node::error(ErrorType::InvalidOrUnexpectedToken, span.start),
                     }?;
@@ -1393,10 +1520,14 @@ impl Node {
                         shorthand,
                     });
                 }
-                ObjectExpressionProperty::SpreadElement { argument, span } => {
-                    if i == last_idx {
+                ObjectExpressionProperty::SpreadElement {
+                    argument,
+                    comma,
+                    span,
+                } => {
+                    if i == last_idx && !comma {
                         pat_props.push(ObjectPatternProperty::RestElement {
-                            argument: argument.to_strict_binding(span.start)?,
+                            argument: argument.to_identifier_binding(span.start)?,
                         });
                     } else {
                         return Node::error(ErrorType::InvalidOrUnexpectedToken, span.start);
diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 9569244..efbe424 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2714,6 +2714,10 @@ where
         }
         let last_idx = arguments.len() - 1;
         for (i, argument) in arguments.into_iter().enumerate() {
+            if let ArgumentListElement::SpreadElement(SpreadElement { comma: true, .. }) = argument
+            {
+                return self.error_current(ErrorType::ParamAfterRest);
+            }
             let param = match argument.as_node()?.to_binding_pattern()? {
                 Node::AssignmentPattern { left, right, .. } => {
                     Ok(FunctionParameter::AssignmentPattern {
@@ -2763,6 +2767,7 @@ where
                 let argument = this.with_in(true, &mut Self::parse_assignment_expr)?;
                 let res = ArgumentListElement::SpreadElement(SpreadElement {
                     argument,
+                    comma: this.current.matches_punc(","),
                     span: this.end_span(),
                 });
                 if !this.current.matches_punc(")") {
@@ -3430,6 +3435,7 @@ where
                 let argument = this.with_in(true, &mut Self::parse_assignment_expr)?;
                 let res = ObjectExpressionProperty::SpreadElement {
                     argument,
+                    comma: this.current.matches_punc(","),
                     span: this.end_span(),
                 };
                 if !this.current.matches_punc("}") {
@@ -3814,11 +3820,13 @@ where
                 this.start_span();
                 this.advance(LexGoal::RegExp)?;
                 let argument = this.with_in(true, &mut Self::parse_assignment_expr)?;
+                let comma = this.current.matches_punc(",");
                 if !this.current.matches_punc("]") {
                     this.consume(",", LexGoal::RegExp)?;
                 }
                 Ok(Some(ArrayExpressionElement::SpreadElement(SpreadElement {
                     argument,
+                    comma,
                     span: this.end_span(),
                 })))
             }
-- 
2.43.0


From 92ac0be5e05fea372b558bd03015de8211bc7d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:48 +0000
Subject: [PATCH 53/74] fix: report the unexpected token, not an error in the
 token after it

---
 giron/src/parser/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index efbe424..b0e8bd6 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -4268,7 +4268,7 @@ where
     }
 
     fn error_current<T>(&mut self, errortype: ErrorType) -> Result<T> {
-        let token = self.advance(LexGoal::RegExp)?;
+        let token = self.current.clone();
         self.error(token, errortype)
     }
 
@@ -4283,7 +4283,7 @@ where
     }
 
     fn unexpected_current<T>(&mut self) -> Result<T> {
-        let token = self.advance(LexGoal::RegExp)?;
+        let token = self.current.clone();
         self.unexpected(token)
     }
 }
-- 
2.43.0


From 2128eac78d71817beeb8110d3c3ab60c9b74e1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:48 +0000
Subject: [PATCH 54/74] fix: report && and || as logical expressions

---
 giron/src/estree/estree.rs |  2 +-
 giron/src/parser/parser.rs | 24 +++++++++++++++++-------
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index a8ea3df..4887430 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -538,7 +538,7 @@ pub enum Node {
         span: Span,
     },
     LogicalExpression {
-        operator: &'static str,
+        operator: String,
         left: Box<Node>,  // Expression
         right: Box<Node>, // Expression
         #[serde(skip)]
diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index b0e8bd6..180c7b3 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2209,16 +2209,26 @@ where
             while self.current.is_bin_op()
                 && self.current.precedence(self.params.has_in) > op.precedence(self.params.has_in)
             {
+                self.start_span();
                 rhs = self.precedence_climbing(rhs, self.current.precedence(self.params.has_in))?;
             }
-            lhs = Node::BinaryExpression {
-                operator: op.to_string(),
-                left: Box::from(lhs),
-                right: Box::from(rhs),
-                assign_target_type: "invalid",
-                span: self.end_span(),
+            let span = self.peek_span();
+            lhs = if op.matches_punc("&&") || op.matches_punc("||") {
+                Node::LogicalExpression {
+                    operator: op.to_string(),
+                    left: Box::from(lhs),
+                    right: Box::from(rhs),
+                    span,
+                }
+            } else {
+                Node::BinaryExpression {
+                    operator: op.to_string(),
+                    left: Box::from(lhs),
+                    right: Box::from(rhs),
+                    assign_target_type: "invalid",
+                    span,
+                }
             };
-            self.start_span();
         }
         self.end_span();
         Ok(lhs)
-- 
2.43.0


From e40b51a192c44ab34138c450c9d9903c6f9dd6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:49 +0000
Subject: [PATCH 55/74] fix: scan a slash after a postfix operator as a
 division

---
 giron/src/parser/parser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 180c7b3..eeb9f52 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2300,7 +2300,7 @@ where
             let operator = self.advance(LexGoal::RegExp)?.to_string();
             let (line, col) = (self.current.line_num, self.current.col);
             let expr = self.parse_unary_expr()?;
-            if expr.assign_target_type() == "invalid" || expr.assign_target_type() == "strict" {
+            if expr.assign_target_type() != "simple" {
                 return Err(Error {
                     line,
                     col,
@@ -2319,7 +2319,7 @@ where
             let (line, col) = (self.current.line_num, self.current.col);
             let expr = self.parse_left_hand_side_expr()?;
             if !self.has_line_terminator && self.current.is_update_op() {
-                if expr.assign_target_type() == "invalid" || expr.assign_target_type() == "strict" {
+                if expr.assign_target_type() != "simple" {
                     return Err(Error {
                         line,
                         col,
@@ -2327,7 +2327,7 @@ where
                     });
                 }
                 Ok(Node::UpdateExpression {
-                    operator: self.advance(LexGoal::RegExp)?.to_string(),
+                    operator: self.advance(LexGoal::Div)?.to_string(),
                     argument: Box::from(expr),
                     prefix: false,
                     assign_target_type: "invalid",
-- 
2.43.0


From e261c26da8c06800ad9a05111b3fa01034dbd360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:19 +0000
Subject: [PATCH 56/74] fix: scan the token after a template part with the goal
 that applies there

---
 giron/src/parser/parser.rs | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index eeb9f52..75635ec 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -3213,16 +3213,7 @@ where
         log!("parse_template_head");
         match self.current.tokentype {
             TokenType::Template => match &self.current.head {
-                Some(true) => {
-                    let token = self.advance(LexGoal::Div)?;
-                    Ok(TemplateElement {
-                        value: TemplateElementValue {
-                            cooked: token.cooked.unwrap(),
-                            raw: String::from(&token.value),
-                        },
-                        tail: token.tail.unwrap(),
-                    })
-                }
+                Some(true) => self.parse_template_quasi(),
                 _ => self.error_current(ErrorType::UnexpectedTemplateString),
             },
             _ => self.unexpected_current(),
@@ -3232,20 +3223,27 @@ where
     fn parse_template_element(&mut self) -> Result<TemplateElement> {
         log!("parse_template_element");
         match self.current.tokentype {
-            TokenType::Template => {
-                let token = self.advance(LexGoal::Div)?;
-                Ok(TemplateElement {
-                    value: TemplateElementValue {
-                        cooked: token.cooked.unwrap(),
-                        raw: String::from(&token.value),
-                    },
-                    tail: token.tail.unwrap(),
-                })
-            }
+            TokenType::Template if self.current.head == Some(false) => self.parse_template_quasi(),
             _ => self.unexpected_current(),
         }
     }
 
+    fn parse_template_quasi(&mut self) -> Result<TemplateElement> {
+        // An expression follows unless the template ends.
+        let goal = match self.current.tail {
+            Some(true) => LexGoal::Div,
+            _ => LexGoal::RegExp,
+        };
+        let token = self.advance(goal)?;
+        Ok(TemplateElement {
+            value: TemplateElementValue {
+                cooked: token.cooked.unwrap(),
+                raw: String::from(&token.value),
+            },
+            tail: token.tail.unwrap(),
+        })
+    }
+
     fn parse_class_expr(&mut self) -> Result<Node> {
         // ClassExpression[Yield, Await]:
         //     "class" BindingIdentifier[?Yield, ?Await](opt) ClassTail[?Yield, ?Await]
-- 
2.43.0


From c380ff9e10aadf6bae68e4e74490f526a4105636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:20 +0000
Subject: [PATCH 57/74] fix: parse await expressions and yield without operand,
 reject both in parameters

---
 giron/src/parser/parser.rs | 80 +++++++++++++++++++++++++++-----------
 1 file changed, 57 insertions(+), 23 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 75635ec..52c68a4 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -76,6 +76,8 @@ pub struct Parser<I> {
     marker_stack: Vec<Marker>,
     goal: SyntaxGoal,
     first_error: Option<Error>,
+    /// Start of the last yield or await expression of the current function.
+    last_suspend: Option<usize>,
 }
 
 impl<I> Parser<I>
@@ -105,6 +107,7 @@ where
             marker_stack: vec![],
             goal: SyntaxGoal::Ambiguous,
             first_error,
+            last_suspend: None,
         }
     }
 
@@ -1621,7 +1624,9 @@ where
     fn parse_function_body(&mut self, goal: LexGoal) -> Result<Node> {
         let prev_in_function = self.ctx.in_function;
         self.ctx.in_function = true;
+        let prev_suspend = self.last_suspend.take();
         let res = self.with_return(true, &mut |this| this.parse_function_body_block(goal));
+        self.last_suspend = prev_suspend;
         self.ctx.in_function = prev_in_function;
         res
     }
@@ -2117,39 +2122,54 @@ where
         // },
         log!("parse_yield_expr");
         self.start_span();
+        self.last_suspend = Some(self.current.start);
         self.consume_kw("yield", LexGoal::RegExp)?;
-        if !self.has_line_terminator {
-            match self.current.tokentype {
-                TokenType::Punctuator if self.current.matches_punc("*") => {
-                    self.advance(LexGoal::RegExp)?;
-                    Ok(Node::YieldExpression {
-                        argument: Some(Box::from(
-                            self.with_yield(true, &mut Self::parse_assignment_expr)?,
-                        )),
-                        delegate: true,
-                        assign_target_type: "invalid",
-                        span: self.end_span(),
-                    })
-                }
-                TokenType::Punctuator if self.current.matches_punc("=>") => {
-                    self.parse_single_param_arrow_function_expr(String::from("yield"))
-                }
-                _ => Ok(Node::YieldExpression {
+        if self.has_line_terminator || self.is_end_of_operand() {
+            return Ok(Node::YieldExpression {
+                argument: None,
+                delegate: false,
+                assign_target_type: "invalid",
+                span: self.end_span(),
+            });
+        }
+        match self.current.tokentype {
+            TokenType::Punctuator if self.current.matches_punc("*") => {
+                self.advance(LexGoal::RegExp)?;
+                Ok(Node::YieldExpression {
                     argument: Some(Box::from(
                         self.with_yield(true, &mut Self::parse_assignment_expr)?,
                     )),
-                    delegate: false,
+                    delegate: true,
                     assign_target_type: "invalid",
                     span: self.end_span(),
-                }),
+                })
             }
-        } else {
-            Ok(Node::YieldExpression {
-                argument: None,
+            _ => Ok(Node::YieldExpression {
+                argument: Some(Box::from(
+                    self.with_yield(true, &mut Self::parse_assignment_expr)?,
+                )),
                 delegate: false,
                 assign_target_type: "invalid",
                 span: self.end_span(),
-            })
+            }),
+        }
+    }
+
+    /// Whether the current token can only follow a `yield` without operand.
+    fn is_end_of_operand(&self) -> bool {
+        match self.current.tokentype {
+            TokenType::Eof => true,
+            TokenType::Template => self.current.head == Some(false),
+            TokenType::Keyword => self.current.matches_str("in"),
+            TokenType::Punctuator => {
+                self.current.matches_punc(")")
+                    || self.current.matches_punc("]")
+                    || self.current.matches_punc("}")
+                    || self.current.matches_punc(",")
+                    || self.current.matches_punc(";")
+                    || self.current.matches_punc(":")
+            }
+            _ => false,
         }
     }
 
@@ -2277,6 +2297,15 @@ where
         //     ! UnaryExpression[?Yield, ?Await]
         //     [+Await] AwaitExpression[?Yield]
         match self.current.tokentype {
+            TokenType::Keyword if self.params.has_await && self.current.matches_str("await") => {
+                self.start_span();
+                self.last_suspend = Some(self.current.start);
+                self.advance(LexGoal::RegExp)?;
+                Ok(Node::AwaitExpression {
+                    argument: Box::new(self.parse_unary_expr()?),
+                    span: self.end_span(),
+                })
+            }
             TokenType::Punctuator | TokenType::Keyword
                 if self.current.is_unary_op(self.params.has_await) =>
             {
@@ -3351,6 +3380,7 @@ where
         //     ObjectBindingPattern[?Yield, ?Await]
         //     ArrayBindingPattern[?Yield, ?Await]
         self.consume("(", LexGoal::RegExp)?;
+        let prev_suspend = self.last_suspend.take();
         let parameters =
             self.parse_until_punc_or_rest(")", &mut |this| match this.current.tokentype {
                 TokenType::Punctuator if this.current.matches_punc("...") => {
@@ -3395,6 +3425,10 @@ where
                     Ok(param)
                 }
             })?;
+        // Parameters contain neither yield nor await expressions.
+        if mem::replace(&mut self.last_suspend, prev_suspend).is_some() {
+            return self.error_current(ErrorType::YieldInParameter);
+        }
         self.consume(")", LexGoal::RegExp)?;
         Ok(parameters)
     }
-- 
2.43.0


From c7770ad8113397647977e739d7dc5872ce034cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:52 +0000
Subject: [PATCH 58/74] fix: follow the cover grammars of arrow functions,
 calls and new expressions

---
 giron/src/parser/parser.rs | 441 +++++++++++++++++++++----------------
 1 file changed, 251 insertions(+), 190 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 52c68a4..ad7367c 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -78,6 +78,10 @@ pub struct Parser<I> {
     first_error: Option<Error>,
     /// Start of the last yield or await expression of the current function.
     last_suspend: Option<usize>,
+    /// Start of the last use of await as an identifier of the current function.
+    last_await_id: Option<usize>,
+    /// Why the expression being parsed is valid only as a pattern.
+    cover_error: Option<Error>,
 }
 
 impl<I> Parser<I>
@@ -108,6 +112,8 @@ where
             goal: SyntaxGoal::Ambiguous,
             first_error,
             last_suspend: None,
+            last_await_id: None,
+            cover_error: None,
         }
     }
 
@@ -1625,8 +1631,10 @@ where
         let prev_in_function = self.ctx.in_function;
         self.ctx.in_function = true;
         let prev_suspend = self.last_suspend.take();
+        let prev_await_id = self.last_await_id.take();
         let res = self.with_return(true, &mut |this| this.parse_function_body_block(goal));
         self.last_suspend = prev_suspend;
+        self.last_await_id = prev_await_id;
         self.ctx.in_function = prev_in_function;
         res
     }
@@ -2050,6 +2058,17 @@ where
     }
 
     fn parse_assignment_expr(&mut self) -> Result<Node> {
+        let outer = self.cover_error.take();
+        let expr = self.parse_cover_assignment_expr()?;
+        match mem::replace(&mut self.cover_error, outer) {
+            Some(error) => Err(error),
+            None => Ok(expr),
+        }
+    }
+
+    /// Parses an assignment expression that may turn out to be a pattern. If it
+    /// is valid only as a pattern then `cover_error` is set.
+    fn parse_cover_assignment_expr(&mut self) -> Result<Node> {
         log!("parse_assignment_expr");
         // AssignmentExpression[In, Yield, Await]:
         //     [+Yield] YieldExpression[?In, ?Await]
@@ -2062,18 +2081,41 @@ where
             return self.parse_yield_expr();
         }
         self.start_span();
+        let outer = self.cover_error.take();
         let mut lhs = self.parse_conditional_expr()?;
-
-        if let Node::Identifier { name, .. } = &lhs {
-            match self.current.tokentype {
-                TokenType::Punctuator if self.current.matches_punc("=>") => {
-                    lhs = self.parse_single_param_arrow_function_expr(name.clone())?;
-                }
-                _ => (),
+        let is_pattern = match &lhs {
+            Node::ArrayExpression {
+                assign_target_type, ..
+            }
+            | Node::ObjectExpression {
+                assign_target_type, ..
+            } => *assign_target_type == "invalid",
+            _ => false,
+        };
+        if !is_pattern {
+            if let Some(error) = self.cover_error.take() {
+                return Err(error);
             }
         }
 
         match self.current.tokentype {
+            TokenType::Punctuator if self.is_arrow() => {
+                self.cover_error = outer;
+                match lhs {
+                    Node::Identifier {
+                        name,
+                        assign_target_type: "simple",
+                        ..
+                    } => self.parse_arrow_function_expr(
+                        vec![FunctionParameter::BindingIdentifier { name }],
+                        false,
+                    ),
+                    Node::ArrowParameterPlaceHolder {
+                        params, r#async, ..
+                    } => self.parse_arrow_function_expr(params, r#async),
+                    _ => self.unexpected_current(),
+                }
+            }
             TokenType::Punctuator if self.current.matches_punc("=") => {
                 let token = self.advance(LexGoal::RegExp)?;
                 lhs = lhs.to_assignment_pattern()?;
@@ -2081,6 +2123,7 @@ where
                     return self.error(token, ErrorType::InvalidLhsInAssignment);
                 }
                 let rhs = self.parse_assignment_expr()?;
+                self.cover_error = outer;
                 Ok(Node::AssignmentExpression {
                     operator: "=",
                     left: Box::from(lhs),
@@ -2096,6 +2139,7 @@ where
                     return self.error(token, ErrorType::InvalidLhsInAssignment);
                 }
                 let rhs = self.parse_assignment_expr()?;
+                self.cover_error = outer;
                 Ok(Node::AssignmentExpression {
                     operator,
                     left: Box::from(lhs),
@@ -2106,11 +2150,17 @@ where
             }
             _ => {
                 self.end_span();
+                self.cover_error = outer.or(self.cover_error.take());
                 Ok(lhs)
             }
         }
     }
 
+    /// Whether the current token is an arrow that can follow parameters.
+    fn is_arrow(&self) -> bool {
+        self.current.matches_punc("=>") && !self.has_line_terminator
+    }
+
     fn parse_yield_expr(&mut self) -> Result<Node> {
         // YieldExpression[In, Await]:
         //     "yield"
@@ -2173,20 +2223,37 @@ where
         }
     }
 
-    fn parse_single_param_arrow_function_expr(&mut self, name: String) -> Result<Node> {
-        log!("parse_single_param_arrow_function_expr");
+    fn parse_arrow_function_expr(
+        &mut self,
+        params: Vec<FunctionParameter>,
+        r#async: bool,
+    ) -> Result<Node> {
+        log!("parse_arrow_function_expr");
         self.consume("=>", LexGoal::RegExp)?;
-        let (body, expression) = self.parse_arrow_body()?;
-        Ok(Node::ArrowFunctionExpression {
-            id: None,
-            params: vec![FunctionParameter::BindingIdentifier { name }],
-            body,
-            generator: false,
-            expression,
-            r#async: false,
-            assign_target_type: "invalid",
-            span: self.end_span(),
-        })
+        let (body, expression) = self.parse_arrow_body(r#async)?;
+        if r#async {
+            Ok(Node::AsyncArrowFunctionExpression {
+                id: None,
+                params,
+                body,
+                generator: false,
+                expression,
+                r#async: true,
+                assign_target_type: "invalid",
+                span: self.end_span(),
+            })
+        } else {
+            Ok(Node::ArrowFunctionExpression {
+                id: None,
+                params,
+                body,
+                generator: false,
+                expression,
+                r#async: false,
+                assign_target_type: "invalid",
+                span: self.end_span(),
+            })
+        }
     }
 
     fn parse_conditional_expr(&mut self) -> Result<Node> {
@@ -2370,10 +2437,7 @@ where
 
     fn parse_left_hand_side_expr(&mut self) -> Result<Node> {
         log!("parse_left_hand_side_expr");
-        match self.current.tokentype {
-            TokenType::Keyword if self.current.matches_str("new") => self.parse_new_expr(),
-            _ => self.parse_call_expr(),
-        }
+        self.parse_call_expr()
     }
 
     fn parse_call_expr(&mut self) -> Result<Node> {
@@ -2382,6 +2446,9 @@ where
         //     (CoverCallExpressionAndAsyncArrowHead | "super" Arguments)
         //         (Arguments | "[" Expression[+In] "]" | "." IdentifierName | TemplateLiteral[+Tagged])*
         self.start_span();
+        let start = self.current.start;
+        let is_async =
+            self.current.tokentype == TokenType::Identifier && self.current.matches_str("async");
         let callee = match self.current.tokentype {
             TokenType::Keyword if self.current.matches_str("super") => {
                 let object = self.parse_super()?;
@@ -2405,7 +2472,15 @@ where
             }
             _ => self.parse_member_expr(),
         }?;
-        self.parse_call_expr_tail(callee)
+        match callee {
+            Node::Identifier { .. }
+                if is_async && self.current.matches_punc("(") && !self.has_line_terminator =>
+            {
+                let callee = self.parse_async_call_or_arrow(callee, start)?;
+                self.parse_call_expr_tail(callee)
+            }
+            _ => self.parse_call_expr_tail(callee),
+        }
     }
 
     fn parse_call_expr_tail(&mut self, mut callee: Node) -> Result<Node> {
@@ -2462,6 +2537,7 @@ where
         //     "super" "[" Expression[+In] "]"
         //     super "." IdentifierName
         let mut expr = match self.current.tokentype {
+            TokenType::Keyword if self.current.matches_str("new") => self.parse_new_expr(),
             TokenType::Keyword if self.current.matches_str("super") => {
                 let object = self.parse_super()?;
                 match self.current.tokentype {
@@ -2547,16 +2623,11 @@ where
 
     fn parse_new_expr(&mut self) -> Result<Node> {
         log!("parse_new_expr");
-        // LeftHandSideExpression:
-        //     ("new")* MemberExpression
-        //     (PrimaryExpression | SuperProperty | new "." target)
-        //         ("[" Expression[+In] "]" | "." IdentifierName | TemplateLiteral[+Tagged])*
+        // MemberExpression:
+        //     "new" "." "target"
         //     "new" MemberExpression Arguments
-        //     (CoverCallExpressionAndAsyncArrowHead | "super" Arguments)
-        //         (Arguments | "[" Expression[+In] "]" | "." IdentifierName | TemplateLiteral[+Tagged])*
-        // SuperProperty[Yield, Await]:
-        //     "super" "[" Expression[+In] "]"
-        //     "super" "." IdentifierName
+        // NewExpression:
+        //     "new" NewExpression
         // NewExpression {
         //     callee: Box<Node>, // Expression
         //     arguments: Vec<ArgumentListElement>,
@@ -2588,12 +2659,6 @@ where
                     _ => self.unexpected_current(),
                 }
             }
-            TokenType::Keyword if self.current.matches_str("new") => Ok(Node::NewExpression {
-                callee: Box::from(self.parse_new_expr()?),
-                arguments: vec![],
-                assign_target_type: "invalid",
-                span: self.end_span(),
-            }),
             _ => {
                 let callee = Box::from(self.parse_member_expr()?);
                 let arguments = match self.current.tokentype {
@@ -2602,13 +2667,12 @@ where
                     }
                     _ => vec![],
                 };
-                let callee = Node::NewExpression {
+                Ok(Node::NewExpression {
                     callee,
                     arguments,
                     assign_target_type: "invalid",
                     span: self.end_span(),
-                };
-                self.parse_call_expr_tail(callee)
+                })
             }
         }
     }
@@ -2714,32 +2778,30 @@ where
         }
     }
 
-    fn parse_async_call_or_arrow(&mut self, callee: Box<Node>) -> Result<Node> {
+    fn parse_async_call_or_arrow(&mut self, callee: Node, start: usize) -> Result<Node> {
         log!("parse_async_call_or_arrow");
-        let arguments = self.parse_arguments()?;
-        match self.current.tokentype {
-            TokenType::Punctuator if self.current.matches_punc("=>") => {
-                self.advance(LexGoal::RegExp)?;
-                let (body, expression) = self.parse_arrow_body()?;
-                let params = self.arguments_to_params(arguments)?;
-                Ok(Node::AsyncArrowFunctionExpression {
-                    id: None,
-                    params,
-                    body,
-                    generator: false,
-                    expression,
-                    r#async: true,
-                    assign_target_type: "invalid",
-                    span: self.end_span(),
-                })
+        let outer = self.cover_error.take();
+        let arguments = self.parse_cover_arguments()?;
+        if self.is_arrow() {
+            self.cover_error = outer;
+            if self.last_suspend >= Some(start) || self.last_await_id >= Some(start) {
+                return self.error_current(ErrorType::AwaitExpressionFormalParameter);
             }
-            _ => Ok(Node::CallExpression {
-                callee,
-                arguments,
-                assign_target_type: "invalid",
-                span: self.end_span(),
-            }),
+            return Ok(Node::ArrowParameterPlaceHolder {
+                params: self.arguments_to_params(arguments)?,
+                r#async: true,
+                span: self.peek_span(),
+            });
         }
+        if let Some(error) = mem::replace(&mut self.cover_error, outer) {
+            return Err(error);
+        }
+        Ok(Node::CallExpression {
+            callee: Box::from(callee),
+            arguments,
+            assign_target_type: "invalid",
+            span: self.peek_span(),
+        })
     }
 
     fn arguments_to_params(
@@ -2788,6 +2850,16 @@ where
     }
 
     fn parse_arguments(&mut self) -> Result<Vec<ArgumentListElement>> {
+        let outer = self.cover_error.take();
+        let arguments = self.parse_cover_arguments()?;
+        match mem::replace(&mut self.cover_error, outer) {
+            Some(error) => Err(error),
+            None => Ok(arguments),
+        }
+    }
+
+    /// Parses arguments that may turn out to be parameters.
+    fn parse_cover_arguments(&mut self) -> Result<Vec<ArgumentListElement>> {
         log!("parse_arguments");
         // Arguments[Yield, Await]:
         //     "(" ")"
@@ -2803,7 +2875,7 @@ where
             TokenType::Punctuator if this.current.matches_punc("...") => {
                 this.start_span();
                 this.advance(LexGoal::RegExp)?;
-                let argument = this.with_in(true, &mut Self::parse_assignment_expr)?;
+                let argument = this.with_in(true, &mut Self::parse_cover_assignment_expr)?;
                 let res = ArgumentListElement::SpreadElement(SpreadElement {
                     argument,
                     comma: this.current.matches_punc(","),
@@ -2815,7 +2887,7 @@ where
                 Ok(res)
             }
             _ => {
-                let expr = this.with_in(true, &mut Self::parse_assignment_expr)?;
+                let expr = this.with_in(true, &mut Self::parse_cover_assignment_expr)?;
                 if !this.current.matches_punc(")") {
                     this.consume(",", LexGoal::RegExp)?;
                 }
@@ -2837,9 +2909,11 @@ where
         //     "(" Expression[+In, ?Yield, ?Await] "," "..." BindingIdentifier[?Yield, ?Await]")"
         //     "(" Expression[+In, ?Yield, ?Await] "," "..." BindingPattern[?Yield, ?Await] ")"
         self.start_span();
+        let start = self.current.start;
+        let outer = self.cover_error.take();
         self.consume("(", LexGoal::RegExp)?;
-        let mut definitely_arrow = false;
-        let expressions =
+        let mut definitely_arrow = self.current.matches_punc(")");
+        let mut expressions =
             self.parse_until_punc_or_rest(")", &mut |this| match this.current.tokentype {
                 TokenType::Punctuator if this.current.matches_punc("...") => {
                     this.start_span();
@@ -2851,7 +2925,7 @@ where
                     })
                 }
                 _ => {
-                    let expr = this.with_in(true, &mut Self::parse_assignment_expr)?;
+                    let expr = this.with_in(true, &mut Self::parse_cover_assignment_expr)?;
                     if !this.current.matches_punc(")") {
                         this.consume(",", LexGoal::RegExp)?;
                         if this.current.matches_punc(")") {
@@ -2862,36 +2936,33 @@ where
                 }
             })?;
         self.consume(")", LexGoal::Div)?;
-        let assign_target_type = if expressions.len() == 1 {
-            (&expressions[0]).assign_target_type()
-        } else {
-            "invalid"
-        };
-        match (definitely_arrow, self.current.matches_punc("=>")) {
-            (true, _) => self.seq_to_arrow(expressions),
-            (false, true) => self.seq_to_arrow(expressions),
-            (false, false) => Ok(Node::SequenceExpression {
-                expressions,
-                assign_target_type,
+        if self.is_arrow() {
+            self.cover_error = outer;
+            if self.last_suspend >= Some(start) {
+                return self.error_current(ErrorType::YieldInParameter);
+            }
+            return Ok(Node::ArrowParameterPlaceHolder {
+                params: self.seq_to_arrow_params(expressions)?,
+                r#async: false,
                 span: self.end_span(),
-            }),
+            });
         }
-    }
-
-    fn seq_to_arrow(&mut self, seq: Vec<Node>) -> Result<Node> {
-        log!("seq_to_arrow");
-        let params = self.seq_to_arrow_params(seq)?;
-        self.consume("=>", LexGoal::RegExp)?;
-        let (body, expression) = self.parse_arrow_body()?;
-        Ok(Node::ArrowFunctionExpression {
-            id: None,
-            params,
-            body,
-            generator: false,
-            expression,
-            r#async: false,
+        if definitely_arrow {
+            return self.unexpected_current();
+        }
+        if let Some(error) = mem::replace(&mut self.cover_error, outer) {
+            return Err(error);
+        }
+        let span = self.end_span();
+        if expressions.len() == 1 {
+            let mut expr = expressions.remove(0);
+            expr.parenthesize();
+            return Ok(expr);
+        }
+        Ok(Node::SequenceExpression {
+            expressions,
             assign_target_type: "invalid",
-            span: self.end_span(),
+            span,
         })
     }
 
@@ -3381,6 +3452,7 @@ where
         //     ArrayBindingPattern[?Yield, ?Await]
         self.consume("(", LexGoal::RegExp)?;
         let prev_suspend = self.last_suspend.take();
+        let prev_await_id = self.last_await_id.take();
         let parameters =
             self.parse_until_punc_or_rest(")", &mut |this| match this.current.tokentype {
                 TokenType::Punctuator if this.current.matches_punc("...") => {
@@ -3425,6 +3497,7 @@ where
                     Ok(param)
                 }
             })?;
+        self.last_await_id = prev_await_id;
         // Parameters contain neither yield nor await expressions.
         if mem::replace(&mut self.last_suspend, prev_suspend).is_some() {
             return self.error_current(ErrorType::YieldInParameter);
@@ -3861,7 +3934,7 @@ where
             TokenType::Punctuator if this.current.matches_punc("...") => {
                 this.start_span();
                 this.advance(LexGoal::RegExp)?;
-                let argument = this.with_in(true, &mut Self::parse_assignment_expr)?;
+                let argument = this.with_in(true, &mut Self::parse_cover_assignment_expr)?;
                 let comma = this.current.matches_punc(",");
                 if !this.current.matches_punc("]") {
                     this.consume(",", LexGoal::RegExp)?;
@@ -3873,7 +3946,7 @@ where
                 })))
             }
             _ => {
-                let element = this.with_in(true, &mut Self::parse_assignment_expr)?;
+                let element = this.with_in(true, &mut Self::parse_cover_assignment_expr)?;
                 if !this.current.matches_punc("]") {
                     this.consume(",", LexGoal::RegExp)?;
                 }
@@ -3890,60 +3963,52 @@ where
 
     fn parse_async_primary_expr(&mut self) -> Result<Node> {
         log!("parse_async_primary_expr");
+        let is_async_function = self.is_async_function()?;
         self.start_span();
+        if is_async_function {
+            self.advance(LexGoal::RegExp)?;
+            return self.parse_function_expr(true);
+        }
         let id = self.parse_id_reference()?;
         if !self.has_line_terminator {
             match self.current.tokentype {
-                TokenType::Punctuator if self.current.matches_punc(";") => Ok(id),
-                TokenType::Punctuator if self.current.matches_punc(".") => Ok(id),
-                TokenType::Punctuator if self.current.matches_punc("[") => Ok(id),
-                TokenType::Punctuator if self.current.matches_punc("`") => Ok(id),
-                TokenType::Punctuator if self.current.matches_punc("(") => {
-                    self.parse_async_call_or_arrow(Box::from(id))
-                }
-                TokenType::Keyword if self.current.matches_str("function") => {
-                    self.parse_function_expr(true)
-                }
-                _ => {
-                    let param = match self.with_await(true, &mut Self::parse_id_reference)? {
-                        Node::Identifier { name, .. } => {
-                            Ok(FunctionParameter::BindingIdentifier { name })
-                        }
-                        _ => unreachable!(),
-                    }?;
-                    if !self.has_line_terminator && self.current.matches_punc("=>") {
-                        self.advance(LexGoal::RegExp)?;
-                        let (body, expression) = self.parse_arrow_body()?;
-                        Ok(Node::AsyncArrowFunctionExpression {
-                            id: None,
-                            params: vec![param],
-                            body,
-                            generator: false,
-                            expression,
+                TokenType::Identifier | TokenType::Keyword => {
+                    // async x => ...
+                    let next_token = self.scanner.peek_token(LexGoal::Div)?;
+                    if next_token.matches_punc("=>") && !next_token.newline {
+                        let param = self.with_params(
+                            Params {
+                                has_await: true,
+                                ..self.params
+                            },
+                            &mut Self::parse_binding_id,
+                        )?;
+                        let Identifier { name, .. } = param.to_id()?;
+                        return Ok(Node::ArrowParameterPlaceHolder {
+                            params: vec![FunctionParameter::BindingIdentifier { name }],
                             r#async: true,
-                            assign_target_type: "invalid",
                             span: self.end_span(),
-                        })
-                    } else {
-                        self.unexpected_current()
+                        });
                     }
                 }
+                _ => (),
             }
-        } else {
-            self.end_span();
-            Ok(id)
         }
+        self.end_span();
+        Ok(id)
     }
 
-    fn parse_arrow_body(&mut self) -> Result<(Box<Node>, bool)> {
+    fn parse_arrow_body(&mut self, r#async: bool) -> Result<(Box<Node>, bool)> {
         log!("parse_arrow_body");
         let body;
         let mut expression = false;
+        let prev_suspend = self.last_suspend.take();
+        let prev_await_id = self.last_await_id.take();
         match self.current.tokentype {
             TokenType::Punctuator if self.current.matches_punc("{") => {
                 body = Box::from(self.with_params(
                     Params {
-                        has_await: true,
+                        has_await: r#async,
                         has_yield: false,
                         ..self.params
                     },
@@ -3953,7 +4018,7 @@ where
             _ => {
                 body = Box::from(self.with_params(
                     Params {
-                        has_await: true,
+                        has_await: r#async,
                         has_yield: false,
                         ..self.params
                     },
@@ -3962,6 +4027,8 @@ where
                 expression = true;
             }
         }
+        self.last_suspend = prev_suspend;
+        self.last_await_id = prev_await_id;
         Ok((body, expression))
     }
 
@@ -3972,88 +4039,82 @@ where
         //     [~Yield] yield
         //     [~Await] await
         self.start_span();
+        let token = self.current.clone();
+        let assign_target_type = self.id_reference_type(&token)?;
+        Ok(Node::Identifier {
+            name: self.advance(LexGoal::Div)?.to_string(),
+            assign_target_type,
+            span: self.end_span(),
+        })
+    }
 
-        if self.ctx.strict && self.current.is_strict_reserved_kw() {
-            return self.error_current(ErrorType::UnexpectedStrictReserved);
+    /// Checks that a token can be an identifier reference. Returns what kind of
+    /// assignment target it is.
+    fn id_reference_type(&mut self, token: &Token) -> Result<&'static str> {
+        if self.ctx.strict && token.is_strict_reserved_kw() {
+            return self.error(token.clone(), ErrorType::UnexpectedStrictReserved);
         }
 
-        match self.current.tokentype {
-            TokenType::Identifier => {
-                let name = self.advance(LexGoal::Div)?.to_string();
-                let assign_target_type = match &name[..] {
-                    "eval" | "arguments" if self.ctx.strict => "strict",
-                    _ => "simple",
-                };
-                Ok(Node::Identifier {
-                    name,
-                    assign_target_type,
-                    span: self.end_span(),
-                })
+        match token.tokentype {
+            TokenType::Identifier
+                if self.ctx.strict && (token.is_word("eval") || token.is_word("arguments")) =>
+            {
+                Ok("strict")
             }
-            TokenType::Keyword if self.current.is_word("yield") => {
+            TokenType::Identifier => Ok("simple"),
+            TokenType::Keyword if token.is_word("yield") => {
                 if self.ctx.strict || self.params.has_yield {
-                    self.error_current(ErrorType::YieldInParameter)
+                    self.error(token.clone(), ErrorType::YieldInParameter)
                 } else {
-                    Ok(Node::Identifier {
-                        name: self.advance(LexGoal::Div)?.to_string(),
-                        assign_target_type: "simple",
-                        span: self.end_span(),
-                    })
+                    Ok("simple")
                 }
             }
-            TokenType::Keyword if self.current.is_word("await") => {
+            TokenType::Keyword if token.is_word("await") => {
                 if self.is_await_reserved() {
-                    self.error_current(ErrorType::AwaitExpressionFormalParameter)
+                    self.error(token.clone(), ErrorType::AwaitExpressionFormalParameter)
                 } else {
-                    Ok(Node::Identifier {
-                        name: self.advance(LexGoal::Div)?.to_string(),
-                        assign_target_type: "simple",
-                        span: self.end_span(),
-                    })
+                    self.last_await_id = Some(token.start);
+                    Ok("simple")
                 }
             }
-            _ => self.unexpected_current(),
+            _ => self.unexpected(token.clone()),
         }
     }
 
     fn parse_binding_id(&mut self) -> Result<Binding> {
         log!("parse_binding_id");
         self.start_span();
+        let token = self.current.clone();
+        self.check_binding_id(&token)?;
+        Ok(Binding::BindingIdentifier(BindingIdentifier {
+            name: self.advance(LexGoal::Div)?.to_string(),
+            span: self.end_span(),
+        }))
+    }
 
-        if self.ctx.strict && self.current.is_strict_reserved_kw() {
-            return self.error_current(ErrorType::UnexpectedStrictReserved);
+    /// Checks that a token can be a binding identifier.
+    fn check_binding_id(&mut self, token: &Token) -> Result<()> {
+        if self.ctx.strict && token.is_strict_reserved_kw() {
+            return self.error(token.clone(), ErrorType::UnexpectedStrictReserved);
         }
 
-        match self.current.tokentype {
+        match token.tokentype {
             TokenType::Identifier
-                if self.ctx.strict
-                    && (self.current.is_word("eval") || self.current.is_word("arguments")) =>
+                if self.ctx.strict && (token.is_word("eval") || token.is_word("arguments")) =>
             {
-                self.error_current(ErrorType::UnexpectedStrictReserved)
+                self.error(token.clone(), ErrorType::UnexpectedStrictReserved)
             }
-            TokenType::Identifier => Ok(Binding::BindingIdentifier(BindingIdentifier {
-                name: self.advance(LexGoal::Div)?.to_string(),
-                span: self.end_span(),
-            })),
+            TokenType::Identifier => Ok(()),
             TokenType::Keyword
-                if self.current.is_word("yield")
-                    && !self.ctx.strict
-                    && !self.params.has_yield =>
+                if token.is_word("yield") && !self.ctx.strict && !self.params.has_yield =>
             {
-                Ok(Binding::BindingIdentifier(BindingIdentifier {
-                    name: self.advance(LexGoal::Div)?.to_string(),
-                    span: self.end_span(),
-                }))
+                Ok(())
             }
-            TokenType::Keyword
-                if self.current.is_word("await") && !self.is_await_reserved() =>
-            {
-                Ok(Binding::BindingIdentifier(BindingIdentifier {
-                    name: self.advance(LexGoal::Div)?.to_string(),
-                    span: self.end_span(),
-                }))
+            TokenType::Keyword if token.is_word("await") && !self.is_await_reserved() => {
+                self.last_await_id = Some(token.start);
+                Ok(())
             }
-            _ => self.unexpected_current(),
+            _ => self.unexpected(token.clone()),
         }
     }
 
-- 
2.43.0


From 29e8a649f0dbddc2bf0edd1e15236070adc34fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:31 +0000
Subject: [PATCH 59/74] fix: consume literal method names

---
 giron/src/parser/parser.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index ad7367c..fa42102 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -3749,7 +3749,10 @@ where
     fn parse_property_name(&mut self) -> Result<(PropertyKey, bool)> {
         log!("parse_property_name");
         match self.current.tokentype {
-            TokenType::Identifier | TokenType::Keyword => {
+            TokenType::Identifier
+            | TokenType::Keyword
+            | TokenType::BooleanLiteral
+            | TokenType::NullLiteral => {
                 self.start_span();
                 Ok((
                     PropertyKey::Identifier(Identifier {
@@ -3761,10 +3764,11 @@ where
             }
             TokenType::StringLiteral | TokenType::NumericLiteral => {
                 self.start_span();
+                let Token { value, raw, .. } = self.advance(LexGoal::RegExp)?;
                 Ok((
                     PropertyKey::Literal(Literal {
-                        value: self.current.value.clone(),
-                        raw: String::from(&self.current.value),
+                        value,
+                        raw,
                         span: self.end_span(),
                     }),
                     false,
-- 
2.43.0


From 9d76990695f3aa3b3b0f7da432b0f35f2559e008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:32 +0000
Subject: [PATCH 60/74] fix: parse generator expressions and function names in
 their own context

---
 giron/src/parser/parser.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index fa42102..b9be1f3 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -3405,17 +3405,29 @@ where
         }
         self.consume_kw("function", LexGoal::RegExp)?;
         let generator = match self.current.tokentype {
-            TokenType::Punctuator if self.current.matches_str("*") => true,
+            TokenType::Punctuator if self.current.matches_punc("*") => {
+                self.advance(LexGoal::RegExp)?;
+                true
+            }
             _ => false,
         };
+        // The name is bound inside the function.
+        self.save_params();
+        self.params.has_yield = generator;
+        self.params.has_await = r#async;
+        let prev_await_id = self.last_await_id.take();
         let id = match self.current.tokentype {
             TokenType::Punctuator if self.current.matches_punc("(") => None,
-            _ => Some(Box::from(self.parse_id_reference()?)),
+            _ => Some(Box::from(self.parse_binding_id()?.to_node()?)),
         };
+        self.last_await_id = prev_await_id;
+        let params = self.parse_formal_params()?;
+        let body = Box::from(self.parse_function_body(LexGoal::Div)?);
+        self.restore_params();
         Ok(Node::FunctionExpression {
             id,
-            params: self.parse_formal_params()?,
-            body: Box::from(self.parse_function_body(LexGoal::Div)?),
+            params,
+            body,
             generator,
             expression: false,
             r#async,
-- 
2.43.0


From a38951fc1b4f29640eb3c3207992847545da3a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:32 +0000
Subject: [PATCH 61/74] fix: parse class expressions as expressions

---
 giron/src/parser/parser.rs | 42 ++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index b9be1f3..6413032 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1684,12 +1684,18 @@ where
                 _ => unreachable!(),
             }
         };
-        let res = self.parse_class_tail(id)?;
+        let (super_class, body) = self.parse_class_tail(LexGoal::RegExp)?;
         self.ctx.strict = prev_strict;
-        Ok(res)
+        Ok(Node::ClassDeclaration {
+            id,
+            super_class,
+            body,
+            span: self.end_span(),
+        })
     }
 
-    fn parse_class_tail(&mut self, id: Option<Box<Node>>) -> Result<Node> {
+    /// Parses a class heritage and body. The goal is that of the token after.
+    fn parse_class_tail(&mut self, goal: LexGoal) -> Result<(Option<Box<Node>>, ClassBody)> {
         // ClassTail[Yield, Await]:
         //     ClassHeritage[?Yield, ?Await](opt) "{" ClassBody[?Yield, ?Await](opt) "}"
         // ClassHeritage[Yield, Await]:
@@ -1703,19 +1709,19 @@ where
         let super_class = match self.current.tokentype {
             TokenType::Keyword if self.current.matches_str("extends") => {
                 self.advance(LexGoal::RegExp)?;
-                Some(Box::from(self.parse_left_hand_side_expr()?))
+                let outer = self.cover_error.take();
+                let super_class = self.parse_left_hand_side_expr()?;
+                if let Some(error) = mem::replace(&mut self.cover_error, outer) {
+                    return Err(error);
+                }
+                Some(Box::from(super_class))
             }
             _ => None,
         };
         self.consume("{", LexGoal::RegExp)?;
         let body = self.parse_class_body()?;
-        self.consume("}", LexGoal::RegExp)?;
-        Ok(Node::ClassDeclaration {
-            id,
-            super_class,
-            body,
-            span: self.end_span(),
-        })
+        self.consume("}", goal)?;
+        Ok((super_class, body))
     }
 
     fn parse_class_body(&mut self) -> Result<ClassBody> {
@@ -3366,18 +3372,24 @@ where
         self.start_span();
         self.consume_kw("class", LexGoal::RegExp)?;
         let id = match self.current.tokentype {
+            TokenType::Keyword if self.current.matches_str("extends") => None,
             TokenType::Identifier | TokenType::Keyword => match self.parse_binding_id()? {
                 Binding::BindingIdentifier(BindingIdentifier { name, span }) => {
                     Some(Box::from(Node::BindingIdentifier { name, span }))
                 }
                 _ => unreachable!(),
             },
-            _ if self.params.has_default => None,
-            _ => return self.unexpected_current(),
+            _ => None,
         };
-        let res = self.parse_class_tail(id)?;
+        let (super_class, body) = self.parse_class_tail(LexGoal::Div)?;
         self.ctx.strict = prev_strict;
-        Ok(res)
+        Ok(Node::ClassExpression {
+            id,
+            super_class,
+            body,
+            assign_target_type: "invalid",
+            span: self.end_span(),
+        })
     }
 
     fn parse_function_expr(&mut self, r#async: bool) -> Result<Node> {
-- 
2.43.0


From 18609f5f574a02368e84fea19d76b2f1cbe36c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:45 +0000
Subject: [PATCH 62/74] fix: reject special constructors and static prototype
 methods

---
 giron/src/errors/errors.rs |  2 ++
 giron/src/estree/estree.rs | 12 ++++++++++++
 giron/src/parser/parser.rs | 38 ++++++++++++++++++++++----------------
 3 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/giron/src/errors/errors.rs b/giron/src/errors/errors.rs
index 43ae015..3b54004 100644
--- a/giron/src/errors/errors.rs
+++ b/giron/src/errors/errors.rs
@@ -123,6 +123,7 @@ pub enum ErrorType {
     InvalidUnicodeEscapeSequence,
     InvalidRestBindingPattern,
     UnexpectedStrictReserved,
+    StaticPrototype,
 }
 
 impl fmt::Display for Error {
@@ -162,6 +163,7 @@ impl fmt::Display for Error {
             ErrorType::InvalidUnicodeEscapeSequence => write!(f, "Invalid Unicode escape sequence"),
             ErrorType::InvalidRestBindingPattern => write!(f, "`...` must be followed by an identifier in declaration contexts"),
             ErrorType::UnexpectedStrictReserved => write!(f, "Unexpected strict mode reserved word"),
+            ErrorType::StaticPrototype => write!(f, "Classes may not have a static property named 'prototype'"),
         }
     }
 }
diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index 4887430..c51470e 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -208,6 +208,18 @@ pub enum PropertyKey {
 }
 
 impl PropertyKey {
+    /// Whether this is the given name, spelled as an identifier or a string.
+    pub fn is_named(&self, val: &str) -> bool {
+        match self {
+            PropertyKey::Identifier(Identifier { name, .. }) => name == val,
+            PropertyKey::Literal(Literal {
+                value: Value::Str(name),
+                ..
+            }) => name == val,
+            _ => false,
+        }
+    }
+
     pub fn as_node(self) -> Node {
         match self {
             PropertyKey::Identifier(Identifier { name, span }) => Node::Identifier {
diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 6413032..2ad45d6 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1753,6 +1753,7 @@ where
                         {
                             this.advance(LexGoal::RegExp)?;
                             let (key, computed) = this.parse_property_name()?;
+                            this.check_special_method_name(&key, r#static)?;
                             this.consume("(", LexGoal::RegExp)?;
                             this.consume(")", LexGoal::RegExp)?;
                             let body = Box::from(this.with_params(
@@ -1784,6 +1785,7 @@ where
                         {
                             this.advance(LexGoal::RegExp)?;
                             let (key, computed) = this.parse_property_name()?;
+                            this.check_special_method_name(&key, r#static)?;
                             let params = this.with_params(
                                 Params {
                                     has_yield: false,
@@ -1835,6 +1837,7 @@ where
                                 return this.unexpected_current();
                             }
                             let (key, computed) = this.parse_property_name()?;
+                            this.check_special_method_name(&key, r#static)?;
                             let params = this.with_params(
                                 Params {
                                     has_yield: generator,
@@ -1872,6 +1875,7 @@ where
                             let r#async = false;
                             let generator = true;
                             let (key, computed) = this.parse_property_name()?;
+                            this.check_special_method_name(&key, r#static)?;
                             let params = this.with_params(
                                 Params {
                                     has_yield: generator,
@@ -1908,22 +1912,13 @@ where
                             let r#async = false;
                             let generator = false;
                             let (key, computed) = this.parse_property_name()?;
-                            let kind = match &key {
-                                PropertyKey::Identifier(Identifier { name, .. }) => {
-                                    if name == &String::from("constructor") {
-                                        "constructor"
-                                    } else {
-                                        "method"
-                                    }
-                                }
-                                PropertyKey::Literal(Literal { raw, .. }) => {
-                                    if raw == &String::from("constructor") {
-                                        "constructor"
-                                    } else {
-                                        "method"
-                                    }
-                                }
-                                _ => "method",
+                            if r#static && key.is_named("prototype") {
+                                return this.error_current(ErrorType::StaticPrototype);
+                            }
+                            let kind = if !r#static && key.is_named("constructor") {
+                                "constructor"
+                            } else {
+                                "method"
                             };
                             let params = this.with_params(
                                 Params {
@@ -1969,6 +1964,17 @@ where
         Ok(ClassBody { body })
     }
 
+    /// A constructor is a plain method, and no static method is a prototype.
+    fn check_special_method_name(&mut self, key: &PropertyKey, is_static: bool) -> Result<()> {
+        if is_static && key.is_named("prototype") {
+            self.error_current(ErrorType::StaticPrototype)
+        } else if !is_static && key.is_named("constructor") {
+            self.unexpected_current()
+        } else {
+            Ok(())
+        }
+    }
+
     fn parse_setter_params(&mut self) -> Result<Vec<FunctionParameter>> {
         let params = self.parse_formal_params()?;
         match &params[..] {
-- 
2.43.0


From 18c07822724d2ff86b11f1ae16199895ddff4a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:41 +0000
Subject: [PATCH 63/74] fix: parse object literal properties, methods and
 shorthands

---
 giron/src/parser/parser.rs | 199 ++++++++++---------------------------
 1 file changed, 53 insertions(+), 146 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 2ad45d6..1aa65bb 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -3577,7 +3577,7 @@ where
             this.start_span();
             if this.current.matches_punc("...") {
                 this.advance(LexGoal::RegExp)?;
-                let argument = this.with_in(true, &mut Self::parse_assignment_expr)?;
+                let argument = this.with_in(true, &mut Self::parse_cover_assignment_expr)?;
                 let res = ObjectExpressionProperty::SpreadElement {
                     argument,
                     comma: this.current.matches_punc(","),
@@ -3589,141 +3589,39 @@ where
                 return Ok(res);
             }
 
-            let mut computed = false;
             let mut r#async = false;
             let mut generator = false;
             let mut kind = "init";
 
-            match this.current.tokentype {
-                TokenType::Identifier if this.current.matches_str("get") => {
-                    this.scanner.save_state();
-                    let next_token = this.scanner.next(LexGoal::RegExp)?;
-                    match &next_token.tokentype {
-                        TokenType::Punctuator => {
-                            this.scanner.restore_state(next_token);
-                        }
-                        _ => {
-                            this.scanner.restore_state(next_token);
-                            this.start_span();
-                            this.advance(LexGoal::RegExp)?;
-                            let span = this.end_span();
-                            if this.current.matches_punc("(") {
-                                return this.parse_method_definition(
-                                    PropertyKey::Identifier(Identifier {
-                                        name: String::from("get"),
-                                        span,
-                                    }),
-                                    kind,
-                                    r#async,
-                                    generator,
-                                    computed,
-                                );
-                            }
-                            kind = "get";
-                        }
-                    }
-                }
-                TokenType::Identifier if this.current.matches_str("set") => {
-                    this.scanner.save_state();
-                    let next_token = this.scanner.next(LexGoal::RegExp)?;
-                    match &next_token.tokentype {
-                        TokenType::Punctuator => {
-                            this.scanner.restore_state(next_token);
-                        }
-                        _ => {
-                            this.scanner.restore_state(next_token);
-                            this.start_span();
-                            this.advance(LexGoal::RegExp)?;
-                            let span = this.end_span();
-                            if this.current.matches_punc("(") {
-                                return this.parse_method_definition(
-                                    PropertyKey::Identifier(Identifier {
-                                        name: String::from("set"),
-                                        span,
-                                    }),
-                                    kind,
-                                    r#async,
-                                    generator,
-                                    computed,
-                                );
-                            }
-                            kind = "set";
-                        }
-                    }
-                }
-                TokenType::Identifier if this.current.matches_str("async") => {
-                    this.scanner.save_state();
-                    let next_token = this.scanner.next(LexGoal::RegExp)?;
-                    match &next_token.tokentype {
-                        TokenType::Punctuator => {
-                            this.scanner.restore_state(next_token);
-                        }
-                        _ => {
-                            this.scanner.restore_state(next_token);
-                            this.start_span();
-                            this.advance(LexGoal::RegExp)?;
-                            let span = this.end_span();
-                            if this.current.matches_punc("*") {
-                                this.advance(LexGoal::RegExp)?;
-                                generator = true;
-                            }
-                            if this.current.matches_punc("(") {
-                                return this.parse_method_definition(
-                                    PropertyKey::Identifier(Identifier {
-                                        name: String::from("async"),
-                                        span,
-                                    }),
-                                    kind,
-                                    r#async,
-                                    generator,
-                                    computed,
-                                );
-                            } else {
-                                r#async = true;
-                            }
-                        }
-                    }
-                }
-                TokenType::Punctuator if this.current.matches_punc("*") => {
-                    this.advance(LexGoal::RegExp)?;
-                    generator = true;
-                    let (key, computed) = this.parse_property_name()?;
-                    return this.parse_method_definition(key, kind, r#async, generator, computed);
+            if !this.current.matches_str("static") && this.is_method_modifier()? {
+                let modifier = this.advance(LexGoal::RegExp)?;
+                if modifier.matches_str("get") {
+                    kind = "get";
+                } else if modifier.matches_str("set") {
+                    kind = "set";
+                } else if this.has_line_terminator {
+                    return this.unexpected_current();
+                } else {
+                    r#async = true;
                 }
-                _ => (),
+            }
+            if kind == "init" && this.current.matches_punc("*") {
+                this.advance(LexGoal::RegExp)?;
+                generator = true;
             }
 
-            let key = match this.current.tokentype {
-                TokenType::Identifier | TokenType::Keyword => {
-                    this.start_span();
-                    let name = this.parse_id_name(LexGoal::Div)?;
-                    Ok(PropertyKey::Identifier(Identifier {
-                        name,
-                        span: this.end_span(),
-                    }))
-                }
-                TokenType::StringLiteral | TokenType::NumericLiteral => {
-                    this.start_span();
-                    let value = this.advance(LexGoal::RegExp)?.value;
-                    Ok(PropertyKey::Literal(Literal {
-                        // value: this.current.value.clone(),
-                        value,
-                        raw: String::from(&this.current.value),
-                        span: this.end_span(),
-                    }))
-                }
-                TokenType::Punctuator if this.current.matches_punc("[") => {
-                    computed = true;
-                    this.parse_computed_property_name()
-                }
-                _ => this.unexpected_current(),
-            }?;
+            let token = this.current.clone();
+            let (key, computed) = this.parse_property_name()?;
 
             let property = match this.current.tokentype {
+                TokenType::Punctuator if this.current.matches_punc("(") => {
+                    this.parse_method_definition(key, kind, r#async, generator, computed)?
+                }
+                _ if kind != "init" || r#async || generator => return this.unexpected_current(),
                 TokenType::Punctuator if this.current.matches_punc(":") => {
                     this.advance(LexGoal::RegExp)?;
                     let value = PropertyValue::Expression(
-                        this.with_in(true, &mut Self::parse_assignment_expr)?,
+                        this.with_in(true, &mut Self::parse_cover_assignment_expr)?,
                     );
                     ObjectExpressionProperty::Property {
                         key,
@@ -3735,40 +3633,49 @@ where
                         span: this.end_span(),
                     }
                 }
-                TokenType::Punctuator if this.current.matches_punc("=") => {
-                    this.advance(LexGoal::RegExp)?;
-                    let value = PropertyValue::Expression(
-                        this.with_in(true, &mut Self::parse_assignment_expr)?,
-                    );
+                _ => {
+                    let span = this.peek_span();
+                    let mut value = match token.tokentype {
+                        TokenType::Identifier | TokenType::Keyword => Node::Identifier {
+                            assign_target_type: this.id_reference_type(&token)?,
+                            name: token.to_string(),
+                            span,
+                        },
+                        _ => return this.unexpected_current(),
+                    };
+                    if this.current.matches_punc("=") {
+                        // An initializer is valid only in a pattern.
+                        let error = this.unexpected_current::<Node>().err();
+                        this.start_span();
+                        this.advance(LexGoal::RegExp)?;
+                        value = Node::AssignmentExpression {
+                            operator: "=",
+                            left: Box::from(value),
+                            right: Box::from(
+                                this.with_in(true, &mut Self::parse_assignment_expr)?,
+                            ),
+                            assign_target_type: "invalid",
+                            span: this.end_span(),
+                        };
+                        this.cover_error = this.cover_error.take().or(error);
+                    }
                     ObjectExpressionProperty::Property {
                         key,
                         computed,
-                        value: Some(value),
+                        value: Some(PropertyValue::Expression(value)),
                         kind,
                         method: false,
                         shorthand: true,
                         span: this.end_span(),
                     }
                 }
-                TokenType::Punctuator if this.current.matches_punc("(") => {
-                    this.parse_method_definition(key, kind, r#async, generator, computed)?
-                }
-                _ => ObjectExpressionProperty::Property {
-                    key,
-                    computed,
-                    value: None,
-                    kind,
-                    method: false,
-                    shorthand: true,
-                    span: this.end_span(),
-                },
             };
             if !this.current.matches_punc("}") {
                 this.consume(",", LexGoal::RegExp)?;
             }
             Ok(property)
         })?;
-        self.consume("}", LexGoal::RegExp)?;
+        self.consume("}", LexGoal::Div)?;
         Ok(Node::ObjectExpression {
             properties,
             assign_target_type: "invalid",
@@ -3852,7 +3759,7 @@ where
                     computed,
                     value,
                     kind,
-                    method: true,
+                    method: false,
                     shorthand: false,
                     span: self.end_span(),
                 })
@@ -3866,7 +3773,7 @@ where
                             has_await: false,
                             ..self.params
                         },
-                        &mut Self::parse_formal_params,
+                        &mut Self::parse_setter_params,
                     )?,
                     body: Box::from(self.with_params(
                         Params {
@@ -3885,7 +3792,7 @@ where
                     computed,
                     value,
                     kind,
-                    method: true,
+                    method: false,
                     shorthand: false,
                     span: self.end_span(),
                 })
-- 
2.43.0


From 0a519270fd011c07dd491a3abb86369548d7a2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:07 +0000
Subject: [PATCH 64/74] fix: parse property names and rest elements of object
 binding patterns

---
 giron/src/parser/parser.rs | 87 ++++++++------------------------------
 1 file changed, 17 insertions(+), 70 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 1aa65bb..56f5956 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -24,11 +24,6 @@ macro_rules! log {
 
 // **************************************************************
 
-pub enum ValueOrExpr {
-    Value(Value),
-    Expr(Node),
-}
-
 struct Context {
     strict: bool,
     in_function: bool,
@@ -3057,35 +3052,26 @@ where
             TokenType::Punctuator if this.current.matches_punc("...") => {
                 this.advance(LexGoal::RegExp)?;
                 Ok(ObjectPatternProperty::RestElement {
-                    argument: this.parse_binding_id_or_pat()?,
+                    argument: this.parse_binding_id()?,
                 })
             }
             _ => {
                 this.start_span();
-                let value = match this.current.tokentype {
-                    TokenType::Identifier
-                    | TokenType::Keyword
-                    | TokenType::StringLiteral
-                    | TokenType::NumericLiteral => {
-                        Ok(ValueOrExpr::Value(this.advance(LexGoal::RegExp)?.value))
-                    }
-                    TokenType::Punctuator if this.current.matches_punc("[") => {
-                        this.consume("[", LexGoal::RegExp)?;
-                        let expr = this.with_in(true, &mut Self::parse_assignment_expr)?;
-                        this.consume("]", LexGoal::RegExp)?;
-                        Ok(ValueOrExpr::Expr(expr))
-                    }
-                    _ => this.unexpected_current(),
-                }?;
+                let token = this.current.clone();
+                let (key, computed) = this.parse_property_name()?;
                 let span = this.end_span();
+                if !this.current.matches_punc(":") {
+                    match token.tokentype {
+                        TokenType::Identifier | TokenType::Keyword => {
+                            this.check_binding_id(&token)?
+                        }
+                        _ => return this.unexpected_current(),
+                    }
+                }
                 let property = match this.current.tokentype {
                     TokenType::Punctuator if this.current.matches_punc("=") => {
                         this.advance(LexGoal::RegExp)?;
-                        let name = match &value {
-                            ValueOrExpr::Value(Value::Str(s)) => Ok(s.clone()),
-                            _ => this.unexpected_current(),
-                        }?;
-                        let key = this.value_to_key(value, false, span.clone())?;
+                        let name = token.to_string();
                         let obj_value = PropertyValue::AssignmentPattern(AssignmentPattern {
                             left: Binding::BindingIdentifier(BindingIdentifier { name, span }),
                             right: this.with_in(true, &mut Self::parse_assignment_expr)?,
@@ -3101,11 +3087,6 @@ where
                     }
                     TokenType::Punctuator if this.current.matches_punc(":") => {
                         this.advance(LexGoal::RegExp)?;
-                        let key = this.value_to_key(value, true, span)?;
-                        let computed = match &key {
-                            PropertyKey::Expression(_) => true,
-                            _ => false,
-                        };
                         let (line, col) = (this.current.line_num, this.current.col);
                         let pattern = this.parse_binding_id_or_pat()?;
                         let obj_value = match this.current.tokentype {
@@ -3152,11 +3133,14 @@ where
                         })
                     }
                     _ => {
-                        let key = this.value_to_key(value, false, span)?;
+                        let name = token.to_string();
                         Ok(ObjectPatternProperty::Property {
                             key,
                             computed: false,
-                            value: None,
+                            value: Some(PropertyValue::BindingIdentifier(BindingIdentifier {
+                                name,
+                                span,
+                            })),
                             kind: "init",
                             method: false,
                             shorthand: true,
@@ -3176,43 +3160,6 @@ where
         }))
     }
 
-    fn value_to_key(
-        &mut self,
-        value: ValueOrExpr,
-        literal: bool,
-        span: Span,
-    ) -> Result<PropertyKey> {
-        match value {
-            ValueOrExpr::Expr(expr) if literal => Ok(PropertyKey::Expression(expr)),
-            ValueOrExpr::Value(value) => {
-                if literal {
-                    let raw = String::from(&value);
-                    Ok(PropertyKey::Literal(Literal { value, raw, span }))
-                } else {
-                    let val = &String::from(&value)[..];
-                    if self.scanner.is_keyword(val) {
-                        if (!self.params.has_yield && val == "yield")
-                            | (!self.params.has_await && val == "await")
-                        {
-                            Ok(PropertyKey::Identifier(Identifier {
-                                name: String::from(val),
-                                span,
-                            }))
-                        } else {
-                            self.unexpected_current()
-                        }
-                    } else {
-                        Ok(PropertyKey::Identifier(Identifier {
-                            name: String::from(val),
-                            span,
-                        }))
-                    }
-                }
-            }
-            _ => panic!(),
-        }
-    }
-
     fn parse_arr_binding_pat(&mut self) -> Result<Binding> {
         log!("parse_arr_binding_pat");
         // ArrayBindingPattern[Yield, Await]:
-- 
2.43.0


From ae8d8ed99dff09a85bdc2c5771ec451be01d67e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 65/74] fix: follow the lookahead restrictions of statements;
 require initializers of constants and patterns, reject lexical bindings named
 let

---
 giron/src/estree/estree.rs | 54 ++++++++++++++++++++++++-
 giron/src/parser/parser.rs | 83 +++++++++++++++++++++++++++++---------
 2 files changed, 116 insertions(+), 21 deletions(-)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index c51470e..61c035c 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -109,6 +109,20 @@ pub enum Binding {
 }
 
 impl Binding {
+    /// Whether a name is among those this binds.
+    pub fn binds(&self, name: &str) -> bool {
+        match self {
+            Binding::BindingIdentifier(id) => id.name == name,
+            Binding::ArrayPattern(ArrayPattern { elements, .. }) => {
+                elements.iter().flatten().any(|element| element.binds(name))
+            }
+            Binding::ObjectPattern(ObjectPattern { properties, .. }) => {
+                properties.iter().any(|property| property.binds(name))
+            }
+            Binding::Expression(_) => false,
+        }
+    }
+
     pub fn to_node(self) -> Result<Node> {
         match self {
             Binding::BindingIdentifier(BindingIdentifier { name, span }) => {
@@ -168,6 +182,22 @@ pub enum ArrayPatternElement {
     },
 }
 
+impl ArrayPatternElement {
+    fn binds(&self, name: &str) -> bool {
+        match self {
+            ArrayPatternElement::AssignmentPattern { left, .. } => left.binds(name),
+            ArrayPatternElement::BindingIdentifier { name: id } => id == name,
+            ArrayPatternElement::ArrayPattern { elements } => {
+                elements.iter().flatten().any(|element| element.binds(name))
+            }
+            ArrayPatternElement::ObjectPattern { properties } => {
+                properties.iter().any(|property| property.binds(name))
+            }
+            ArrayPatternElement::RestElement { argument } => argument.binds(name),
+        }
+    }
+}
+
 #[derive(Serialize, Debug)]
 #[serde(tag = "type")]
 pub struct RestElement {
@@ -306,6 +336,25 @@ pub enum ObjectPatternProperty {
     },
 }
 
+impl ObjectPatternProperty {
+    fn binds(&self, name: &str) -> bool {
+        match self {
+            ObjectPatternProperty::Property { value, .. } => match value {
+                Some(PropertyValue::AssignmentPattern(pattern)) => pattern.left.binds(name),
+                Some(PropertyValue::BindingIdentifier(id)) => id.name == name,
+                Some(PropertyValue::BindingPattern(BindingPattern::ArrayPattern { elements })) => {
+                    elements.iter().flatten().any(|element| element.binds(name))
+                }
+                Some(PropertyValue::BindingPattern(BindingPattern::ObjectPattern {
+                    properties,
+                })) => properties.iter().any(|property| property.binds(name)),
+                _ => false,
+            },
+            ObjectPatternProperty::RestElement { argument } => argument.binds(name),
+        }
+    }
+}
+
 // export type BindingPattern = ArrayPattern | ObjectPattern;
 #[derive(Serialize, Debug)]
 #[serde(tag = "type")]
@@ -1141,7 +1190,10 @@ impl Node {
             } => *assign_target_type = "parenthesized",
             Node::Identifier {
                 assign_target_type, ..
-            } if *assign_target_type == "simple" => *assign_target_type = "parenthesized",
+            } => match *assign_target_type {
+                "simple" | "parenthesized" => *assign_target_type = "parenthesized",
+                _ => *assign_target_type = "invalid",
+            },
             _ => (),
         }
     }
diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 56f5956..c61a3e7 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -684,11 +684,37 @@ where
 
     fn parse_expression_or_labelled_stmt(&mut self) -> Result<Node> {
         log!("parse_expression_or_labelled_stmt");
+        // An ExpressionStatement does not begin with "function", "class",
+        // "async function" or "let [".
+        match self.current.tokentype {
+            TokenType::Keyword if self.current.matches_str("function") && self.ctx.strict => {
+                return self.error_current(ErrorType::StrictFunction);
+            }
+            TokenType::Keyword
+                if self.current.matches_str("function") || self.current.matches_str("class") =>
+            {
+                return self.unexpected_current();
+            }
+            TokenType::Identifier if self.current.matches_str("let") => {
+                if self.scanner.peek_token(LexGoal::Div)?.matches_punc("[") {
+                    return self.unexpected_current();
+                }
+            }
+            _ => {
+                if self.is_async_function()? {
+                    return self.unexpected_current();
+                }
+            }
+        }
         self.start_span();
         let expr = self.with_in(true, &mut Self::parse_expression)?;
         match self.current.tokentype {
             TokenType::Punctuator if self.current.matches_punc(":") => match expr {
-                Node::Identifier { name, span, .. } => {
+                Node::Identifier {
+                    name,
+                    span,
+                    assign_target_type: "simple" | "strict",
+                } => {
                     self.parse_labelled_stmt(Some(Identifier { name, span }))
                 }
                 _ => self.parse_expression_stmt(Box::from(expr)),
@@ -729,10 +755,10 @@ where
         }
         self.save_params();
         self.params.has_in = true;
-        let mut declarations = vec![self.parse_variable_dclr()?];
+        let mut declarations = vec![self.parse_variable_dclr("var")?];
         declarations.extend(self.parse_while_punc(",", &mut |this| {
             this.consume(",", LexGoal::RegExp)?;
-            this.parse_variable_dclr()
+            this.parse_variable_dclr("var")
         })?);
         self.restore_params();
         self.consume_semicolon(LexGoal::RegExp)?;
@@ -743,25 +769,32 @@ where
         })
     }
 
-    fn parse_variable_dclr(&mut self) -> Result<VariableDeclarator> {
+    fn parse_variable_dclr(&mut self, kind: &'static str) -> Result<VariableDeclarator> {
         log!("parse_variable_dclr");
-        let id = self.parse_binding_id_or_pat()?;
+        let id = self.parse_dclr_binding(kind)?;
         let init = match self.current.tokentype {
             TokenType::Punctuator if self.current.matches_punc("=") => {
                 self.advance(LexGoal::RegExp)?;
                 Some(self.parse_assignment_expr()?)
             }
             _ => match &id {
-                Binding::BindingIdentifier { .. } => None,
-                _ => {
-                    let token = self.advance(LexGoal::RegExp)?;
-                    return self.error(token, ErrorType::MissingInitializer);
-                }
+                Binding::BindingIdentifier { .. } if kind != "const" => None,
+                _ => return self.error_current(ErrorType::MissingInitializer),
             },
         };
         Ok(VariableDeclarator { id, init })
     }
 
+    /// Parses the binding of a declaration. A lexical one can not be named "let".
+    fn parse_dclr_binding(&mut self, kind: &'static str) -> Result<Binding> {
+        let token = self.current.clone();
+        let id = self.parse_binding_id_or_pat()?;
+        if kind != "var" && id.binds("let") {
+            return self.unexpected(token);
+        }
+        Ok(id)
+    }
+
     fn parse_empty_stmt(&mut self) -> Result<Node> {
         log!("parse_empty_stmt");
         self.start_span();
@@ -794,11 +827,11 @@ where
         self.consume("(", LexGoal::RegExp)?;
         let test = Box::from(self.with_in(true, &mut Self::parse_expression)?);
         self.consume(")", LexGoal::RegExp)?;
-        let consequent = Box::from(self.parse_statement()?);
+        let consequent = Box::from(self.parse_if_body()?);
         let alternate = match self.current.tokentype {
             TokenType::Keyword if self.current.matches_str("else") => {
                 self.advance(LexGoal::RegExp)?;
-                Some(Box::from(self.parse_statement()?))
+                Some(Box::from(self.parse_if_body()?))
             }
             _ => None,
         };
@@ -810,6 +843,16 @@ where
         })
     }
 
+    /// Parses a branch of an if statement: outside strict mode it may be a
+    /// function declaration.
+    fn parse_if_body(&mut self) -> Result<Node> {
+        match self.current.tokentype {
+            TokenType::Keyword if self.current.matches_str("function") && !self.ctx.strict => self
+                .with_default(false, &mut |this| this.parse_function_dclr(false, false)),
+            _ => self.parse_statement(),
+        }
+    }
+
     fn parse_iteration_stmt(&mut self) -> Result<Node> {
         log!("parse_iteration_stmt");
         match self.current.tokentype {
@@ -872,7 +915,7 @@ where
                             this.consume(",", LexGoal::RegExp)?;
                             this.save_params();
                             this.params.has_in = false;
-                            let res = this.parse_variable_dclr();
+                            let res = this.parse_variable_dclr("var");
                             this.restore_params();
                             res
                         })?);
@@ -902,7 +945,7 @@ where
                                     this.consume(",", LexGoal::RegExp)?;
                                     this.save_params();
                                     this.params.has_in = false;
-                                    let res = this.parse_variable_dclr();
+                                    let res = this.parse_variable_dclr("var");
                                     this.restore_params();
                                     res
                                 })?);
@@ -945,7 +988,7 @@ where
                 };
                 self.advance(LexGoal::RegExp)?;
                 let (line, col) = (self.current.line_num, self.current.col);
-                let id = self.parse_binding_id_or_pat()?;
+                let id = self.parse_dclr_binding(kind)?;
                 match self.current.tokentype {
                     TokenType::Punctuator if self.current.matches_punc("=") => {
                         // LetOrConst Binding "=" "," ...
@@ -956,7 +999,7 @@ where
                             this.consume(",", LexGoal::RegExp)?;
                             this.save_params();
                             this.params.has_in = false;
-                            let res = this.parse_variable_dclr();
+                            let res = this.parse_variable_dclr(kind);
                             this.restore_params();
                             res
                         })?);
@@ -979,14 +1022,14 @@ where
                     }
                     _ => {
                         match &id {
-                            Binding::BindingIdentifier { .. } => {
+                            Binding::BindingIdentifier { .. } if kind != "const" => {
                                 // LetOrConst BindingIdentifier "," ...
                                 let mut declarations = vec![VariableDeclarator { id, init: None }];
                                 declarations.extend(self.parse_while_punc(",", &mut |this| {
                                     this.consume(",", LexGoal::RegExp)?;
                                     this.save_params();
                                     this.params.has_in = false;
-                                    let res = this.parse_variable_dclr();
+                                    let res = this.parse_variable_dclr(kind);
                                     this.restore_params();
                                     res
                                 })?);
@@ -2018,10 +2061,10 @@ where
             }
             _ => self.unexpected_current(),
         }?;
-        let mut declarations = vec![self.parse_variable_dclr()?];
+        let mut declarations = vec![self.parse_variable_dclr(kind)?];
         declarations.extend(self.parse_while_punc(",", &mut |this| {
             this.consume(",", LexGoal::RegExp)?;
-            this.parse_variable_dclr()
+            this.parse_variable_dclr(kind)
         })?);
         self.consume_semicolon(LexGoal::RegExp)?;
         Ok(Node::VariableDeclaration {
-- 
2.43.0


From e90133f6351fed28f49ce45cc0000fc5bbc5b12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:05 +0000
Subject: [PATCH 66/74] fix: parse patterns in the heads of for-in and for-of

---
 giron/src/parser/parser.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index c61a3e7..c4a695e 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1064,16 +1064,14 @@ where
                     }
                     _ => (),
                 }
-                let mut expr = self.with_in(false, &mut Self::parse_assignment_expr)?;
+                let is_async = self.current.matches_str("async");
+                let outer = self.cover_error.take();
+                let mut expr = self.with_in(false, &mut Self::parse_cover_assignment_expr)?;
+                let cover_error = mem::replace(&mut self.cover_error, outer);
                 match self.current.tokentype {
                     TokenType::Keyword if self.current.matches_str("in") => {
                         self.end_span(); // not needed
-                        expr = match expr {
-                            Node::ObjectExpression { .. } | Node::ArrayExpression { .. } => {
-                                expr.to_assignment_pattern()
-                            }
-                            _ => Ok(expr),
-                        }?;
+                        expr = expr.to_assignment_pattern()?;
                         if expr.assign_target_type() != "simple" {
                             let token = self.advance(LexGoal::RegExp)?;
                             return self.error(token, ErrorType::InvalidLhsInFor);
@@ -1082,12 +1080,12 @@ where
                     }
                     TokenType::Identifier if self.current.matches_str("of") => {
                         self.end_span(); // not needed
-                        expr = match expr {
-                            Node::ObjectExpression { .. } | Node::ArrayExpression { .. } => {
-                                expr.to_assignment_pattern()
+                        if is_async {
+                            if let Node::Identifier { .. } = expr {
+                                return self.unexpected_current();
                             }
-                            _ => Ok(expr),
-                        }?;
+                        }
+                        expr = expr.to_assignment_pattern()?;
                         if expr.assign_target_type() != "simple" {
                             let token = self.advance(LexGoal::RegExp)?;
                             return self.error(token, ErrorType::InvalidLhsInFor);
@@ -1095,6 +1093,9 @@ where
                         self.parse_for_of_stmt(Box::from(expr))
                     }
                     _ => {
+                        if let Some(error) = cover_error {
+                            return Err(error);
+                        }
                         if !self.current.matches_punc(",") {
                             self.end_span(); // not needed
                             return self.parse_for_classic_stmt(Some(Box::from(expr)));
-- 
2.43.0


From b8aa9c6bcf6c5148967b4b75f1725b87367997b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:06 +0000
Subject: [PATCH 67/74] fix: allow an initializer in a sloppy for-in head

---
 giron/src/parser/parser.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index c4a695e..d5abb6d 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -910,7 +910,20 @@ where
                     TokenType::Punctuator if self.current.matches_punc("=") => {
                         self.advance(LexGoal::RegExp)?;
                         let init = Some(self.with_in(false, &mut Self::parse_assignment_expr)?);
+                        let is_id = match &id {
+                            Binding::BindingIdentifier { .. } => true,
+                            _ => false,
+                        };
                         let mut declarations = vec![VariableDeclarator { id, init }];
+                        // Outside strict mode, "for (var a = 1 in b)" is allowed.
+                        if is_id && !self.ctx.strict && self.current.matches_str("in") {
+                            let left = Box::from(Node::VariableDeclaration {
+                                declarations,
+                                kind: "var",
+                                span: self.end_span(),
+                            });
+                            return self.parse_for_in_stmt(left);
+                        }
                         declarations.extend(self.parse_while_punc(",", &mut |this| {
                             this.consume(",", LexGoal::RegExp)?;
                             this.save_params();
-- 
2.43.0


From 584bd3dae9b32bdbdfb131da3c3c7aa60ef92b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:07 +0000
Subject: [PATCH 68/74] fix: recognise only lone string literals as directives

---
 giron/src/parser/parser.rs | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index d5abb6d..ad0613d 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -164,21 +164,31 @@ where
         loop {
             match self.current.tokentype {
                 TokenType::StringLiteral => {
-                    self.start_span();
-                    let expr = self.parse_expression()?;
-                    match &expr {
-                        Node::Literal { value, .. }
-                            if value == &Value::Str(String::from("use strict")) =>
-                        {
-                            self.ctx.strict = true;
+                    // A directive is a statement that is only a string literal.
+                    let raw = self.current.raw.clone();
+                    match self.parse_expression_or_labelled_stmt()? {
+                        Node::ExpressionStatement { expression, span } => match *expression {
+                            Node::Literal { .. } => {
+                                let directive = String::from(&raw[1..raw.len() - 1]);
+                                if directive == "use strict" {
+                                    self.ctx.strict = true;
+                                }
+                                body.push(Node::Directive {
+                                    expression,
+                                    directive,
+                                    span,
+                                });
+                            }
+                            _ => {
+                                body.push(Node::ExpressionStatement { expression, span });
+                                return Ok(body);
+                            }
+                        },
+                        stmt => {
+                            body.push(stmt);
+                            return Ok(body);
                         }
-                        _ => (),
                     }
-                    self.consume_semicolon(LexGoal::RegExp)?;
-                    body.push(Node::ExpressionStatement {
-                        expression: Box::from(expr),
-                        span: self.end_span(),
-                    });
                 }
                 _ => return Ok(body),
             }
-- 
2.43.0


From 52f2861ad06ad304c510fa48f51e639733c140d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:52 +0000
Subject: [PATCH 69/74] fix: reject labelled continue outside iteration
 statements

---
 giron/src/parser/parser.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index ad0613d..6636cf6 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1366,11 +1366,8 @@ where
             }
             _ => None,
         };
-        match &label {
-            None if !self.ctx.in_iteration => {
-                return self.error_current(ErrorType::NoIterationStatement)
-            }
-            _ => (),
+        if !self.ctx.in_iteration {
+            return self.error_current(ErrorType::NoIterationStatement);
         }
         self.consume_semicolon(LexGoal::RegExp)?;
         Ok(Node::ContinueStatement {
-- 
2.43.0


From c5f3ede76f2dac0cb13fc51fb6e1348249d8c345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:35 +0000
Subject: [PATCH 70/74] fix: scan a regular expression after an inserted
 semicolon

---
 giron/src/parser/parser.rs   |  7 +++++++
 giron/src/scanner/scanner.rs | 11 +++++++++++
 2 files changed, 18 insertions(+)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 6636cf6..e5408b2 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -4260,6 +4260,13 @@ where
                 TokenType::Eof => Ok(()),
                 _ => self.unexpected_current(),
             },
+            TokenType::Punctuator
+                if self.current.matches_punc("/") || self.current.matches_punc("/=") =>
+            {
+                // The semicolon is inserted, so what follows is an expression.
+                self.current = self.scanner.rescan_regexp(&self.current)?;
+                Ok(())
+            }
             _ => Ok(()),
         }
     }
diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index baa170a..869f721 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -1,6 +1,7 @@
 use crate::codepoint::codepoint::CodePoint;
 use crate::errors::errors::{Error, ErrorType};
 use crate::errors::result::Result;
+use crate::parser::syntax::Syntax;
 use crate::scanner::reader::Reader;
 use crate::token::punctuators::Punctuator;
 use crate::token::token::{Token, TokenType};
@@ -622,6 +623,16 @@ where
     //      Regular Expression Literals
     // *******************************************************************
 
+    /// Scans the division punctuator scanned last as a regular expression.
+    pub fn rescan_regexp(&mut self, token: &Token) -> Result<Token> {
+        if token.matches_punc("/=") {
+            self.reader.buf.push_front('=');
+        }
+        self.reader.buf.push_front('/');
+        self.current = token.start;
+        self.scan_regexp_literal()
+    }
+
     pub fn scan_regexp_literal(&mut self) -> Result<Token> {
         self.start_recording(false);
         let pattern = self.scan_regexp_body()?;
-- 
2.43.0


From b007f8d73350c648777d4da17d26215a3c7bf5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:17 +0000
Subject: [PATCH 71/74] fix: report the column on which a token starts

---
 giron/src/scanner/scanner.rs | 10 +++++++---
 giron/src/token/token.rs     |  2 +-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 869f721..7b4cc68 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -38,6 +38,7 @@ pub struct Scanner<I> {
     pub col: usize,
     pub newline: bool,
     start_line: usize,
+    start_col: usize,
     newline_before: bool,
     escaped: bool,
     reader: Reader<I>,
@@ -61,6 +62,7 @@ where
             col: 1,
             newline: false,
             start_line: 1,
+            start_col: 1,
             newline_before: false,
             escaped: false,
             reader: Reader::new(source),
@@ -630,6 +632,8 @@ where
         }
         self.reader.buf.push_front('/');
         self.current = token.start;
+        self.line = token.line_num;
+        self.col = token.col;
         self.scan_regexp_literal()
     }
 
@@ -1074,7 +1078,7 @@ where
     }
 
     fn start_new_token(&mut self) {
-        self.col = 1;
+        self.start_col = self.col;
         self.start = self.current;
         self.start_line = self.line;
         self.newline_before = self.newline;
@@ -1116,7 +1120,7 @@ where
             line_num: self.start_line,
             newline: self.newline_before,
             escaped: self.escaped,
-            col: self.col,
+            col: self.start_col,
             start: self.start,
             end: self.current.saturating_sub(1),
         })
@@ -1141,7 +1145,7 @@ where
             line_num: self.start_line,
             newline: self.newline_before,
             escaped: false,
-            col: self.col,
+            col: self.start_col,
             start: self.start,
             end: self.current.saturating_sub(1),
         }
diff --git a/giron/src/token/token.rs b/giron/src/token/token.rs
index b65c823..e8b53e5 100644
--- a/giron/src/token/token.rs
+++ b/giron/src/token/token.rs
@@ -27,7 +27,7 @@ pub struct Token {
     pub cooked: Option<String>,
     pub head: Option<bool>,
     pub tail: Option<bool>,
-    /// Line on which the token starts.
+    /// Line on which the token starts, and column below.
     pub line_num: usize,
     /// Whether a line terminator precedes the token.
     pub newline: bool,
-- 
2.43.0


From 9c8f8d7d9ff4fafef649502f929d82e462e2bf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:40 +0000
Subject: [PATCH 72/74] fix: scan what follows 'async in' and 'async
 instanceof' as an operand

---
 giron/src/parser/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index e5408b2..6f3b84f 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -3924,6 +3924,10 @@ where
         let id = self.parse_id_reference()?;
         if !self.has_line_terminator {
             match self.current.tokentype {
+                // What follows an operator is not scanned as what follows a parameter.
+                TokenType::Keyword
+                    if self.current.matches_str("in")
+                        || self.current.matches_str("instanceof") => {}
                 TokenType::Identifier | TokenType::Keyword => {
                     // async x => ...
                     let next_token = self.scanner.peek_token(LexGoal::Div)?;
-- 
2.43.0


From 611f7372258a09da79c8ede6009758be627418d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:04 +0000
Subject: [PATCH 73/74] fix: a setter's parameter takes no trailing comma

---
 giron/src/parser/parser.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 6f3b84f..37191ec 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2035,7 +2035,7 @@ where
     }
 
     fn parse_setter_params(&mut self) -> Result<Vec<FunctionParameter>> {
-        let params = self.parse_formal_params()?;
+        let params = self.parse_formal_params_with(false)?;
         match &params[..] {
             [FunctionParameter::RestElement { .. }] => self.unexpected_current(),
             [_] => Ok(params),
@@ -3466,6 +3466,10 @@ where
     }
 
     fn parse_formal_params(&mut self) -> Result<Vec<FunctionParameter>> {
+        self.parse_formal_params_with(true)
+    }
+
+    fn parse_formal_params_with(&mut self, trailing_comma: bool) -> Result<Vec<FunctionParameter>> {
         log!("parse_formal_params");
         // FormalParameters[Yield, Await]:
         //     [empty]
@@ -3534,6 +3538,9 @@ where
                     };
                     if !this.current.matches_punc(")") {
                         this.consume(",", LexGoal::RegExp)?;
+                        if !trailing_comma && this.current.matches_punc(")") {
+                            return this.unexpected_current();
+                        }
                     }
                     Ok(param)
                 }
-- 
2.43.0


From 4bae772851e942e7a8a0c422490da51304e0f6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:38 +0000
Subject: [PATCH 74/74] fix: parse let as an identifier where it begins no
 lexical declaration

---
 giron/src/parser/parser.rs | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 37191ec..08458fb 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -628,7 +628,14 @@ where
             TokenType::Keyword if self.current.matches_str("class") => {
                 self.with_default(false, &mut Self::parse_class_dclr)
             }
-            TokenType::Identifier | TokenType::Keyword if self.current.is_lexical_dclr_kw() => {
+            TokenType::Identifier if self.current.matches_str("let") => {
+                if self.is_let_declaration()? {
+                    self.with_in(true, &mut Self::parse_lexical_dclr)
+                } else {
+                    self.parse_expression_or_labelled_stmt()
+                }
+            }
+            TokenType::Keyword if self.current.is_lexical_dclr_kw() => {
                 self.with_in(true, &mut Self::parse_lexical_dclr)
             }
             // ExpressionStatement | LabelledStatement
@@ -645,6 +652,20 @@ where
         Ok(next_token.matches_str("function") && !next_token.newline)
     }
 
+    /// Whether the current token is a `let` that begins a lexical declaration.
+    /// Any other `let` is an identifier.
+    fn is_let_declaration(&mut self) -> Result<bool> {
+        if self.current.tokentype != TokenType::Identifier || !self.current.matches_str("let") {
+            return Ok(false);
+        }
+        let next_token = self.scanner.peek_token(LexGoal::Div)?;
+        Ok(match next_token.tokentype {
+            TokenType::Identifier => true,
+            TokenType::Keyword => next_token.is_word("yield") || next_token.is_word("await"),
+            _ => next_token.matches_punc("[") || next_token.matches_punc("{"),
+        })
+    }
+
     fn parse_statement(&mut self) -> Result<Node> {
         log!("parse_statement");
         // Statement[Yield, Await, Return]:
@@ -911,6 +932,7 @@ where
         self.start_span();
         self.consume_kw("for", LexGoal::RegExp)?;
         self.consume("(", LexGoal::RegExp)?;
+        let is_let_declaration = self.is_let_declaration()?;
         match self.current.tokentype {
             TokenType::Keyword if self.current.matches_str("var") => {
                 self.start_span();
@@ -984,7 +1006,9 @@ where
                     }
                 }
             }
-            TokenType::Keyword | TokenType::Identifier if self.current.is_lexical_dclr_kw() => {
+            TokenType::Keyword | TokenType::Identifier
+                if is_let_declaration || self.current.matches_str("const") =>
+            {
                 // "for" "(" LexicalDeclaration[~In, ?Yield, ?Await] Expression[+In, ?Yield, ?Await](opt)
                 //     ";" Expression[+In, ?Yield, ?Await](opt) ")" Statement[?Yield, ?Await, ?Return]
                 // for "(" ForDeclaration[?Yield, ?Await] "in" Expression[+In, ?Yield, ?Await] ")" Statement[?Yield, ?Await, ?Return]
@@ -1088,6 +1112,7 @@ where
                     _ => (),
                 }
                 let is_async = self.current.matches_str("async");
+                let is_let = self.current.matches_str("let");
                 let outer = self.cover_error.take();
                 let mut expr = self.with_in(false, &mut Self::parse_cover_assignment_expr)?;
                 let cover_error = mem::replace(&mut self.cover_error, outer);
@@ -1103,6 +1128,9 @@ where
                     }
                     TokenType::Identifier if self.current.matches_str("of") => {
                         self.end_span(); // not needed
+                        if is_let {
+                            return self.unexpected_current();
+                        }
                         if is_async {
                             if let Node::Identifier { .. } = expr {
                                 return self.unexpected_current();
-- 
2.43.0

