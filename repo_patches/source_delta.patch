From 2645d9a4c08a71975927b18d6c7a3d596f3f94d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:28 +0000
Subject: [PATCH 01/32] fix: lex invalid characters and unterminated byte
 strings as error tokens

The lexer hit todo!() on any character outside the Move alphabet and on
byte strings without a closing quote, so one keystroke made parsing panic.
---
 crates/parser/src/lexer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/parser/src/lexer.rs b/crates/parser/src/lexer.rs
index cee1c4c..7c9b044 100644
--- a/crates/parser/src/lexer.rs
+++ b/crates/parser/src/lexer.rs
@@ -205,7 +205,8 @@ pub fn find_token(text: &str) -> (SyntaxKind, usize) {
                 match get_string_len(line) {
                     Some(last_quote) => (BYTE_STRING, 2 + last_quote + 1),
                     None => {
-                        todo!()
+                        // Missing closing quote: the rest of the line is an invalid token.
+                        (ERROR, 2 + line.len())
                         // let loc = make_loc(file, start_offset, start_offset + line.len() + 2);
                         // return todo!()
                         // return Err(diag!(
@@ -307,7 +308,8 @@ pub fn find_token(text: &str) -> (SyntaxKind, usize) {
         '#' => (NUMSIGN, 1),
         '@' => (ATSIGN, 1),
         _ => {
-            todo!()
+            // Invalid character
+            (ERROR, c.len_utf8())
             // let loc = make_loc(file, start_offset, start_offset);
             // return todo!()
             // return Err(diag!(
-- 
2.43.0


From a8f6ee83d3dd67b0e3f33dabca12447a3088abcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:28 +0000
Subject: [PATCH 02/32] fix: measure byte strings in bytes, not in characters

A non-ASCII character inside a byte string made the token too short, which
split the literal or cut a character in half and panicked.
---
 crates/parser/src/lexer.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/crates/parser/src/lexer.rs b/crates/parser/src/lexer.rs
index 7c9b044..f851fe6 100644
--- a/crates/parser/src/lexer.rs
+++ b/crates/parser/src/lexer.rs
@@ -362,20 +362,16 @@ fn get_number_maybe_with_suffix(text: &str, num_text_len: usize) -> (SyntaxKind,
     }
 }
 
-// Return the length of the quoted string, or None if there is no closing quote.
+// Return the length (in bytes) of the quoted string, or None if there is no closing quote.
 fn get_string_len(text: &str) -> Option<usize> {
-    let mut pos = 0;
-    let mut iter = text.chars();
-    while let Some(chr) = iter.next() {
+    let mut iter = text.char_indices();
+    while let Some((pos, chr)) = iter.next() {
         if chr == '\\' {
             // Skip over the escaped character (e.g., a quote or another backslash)
-            if iter.next().is_some() {
-                pos += 1;
-            }
+            iter.next();
         } else if chr == '"' {
             return Some(pos);
         }
-        pos += 1;
     }
     None
 }
-- 
2.43.0


From 55f064c27f157fdb53e5d03fd1b54d9866760654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:44 +0000
Subject: [PATCH 03/32] fix: skip whitespace and comments when looking ahead

lookahead() stopped at comments and lookahead_2() at any trivia, so the
parse of a program depended on where its whitespace and comments were.
---
 crates/parser/src/lexer.rs | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/crates/parser/src/lexer.rs b/crates/parser/src/lexer.rs
index f851fe6..ac88173 100644
--- a/crates/parser/src/lexer.rs
+++ b/crates/parser/src/lexer.rs
@@ -90,27 +90,28 @@ impl<'t> Lexer<'t> {
     // }
 
     // Look ahead to the next token after the current one and return it without advancing
-    // the state of the lexer.
+    // the state of the lexer. Trivia is skipped.
     pub fn lookahead(&self) -> Token {
-        let text = self.text[self.cur_end..].trim_start();
-        // let offset = self.text.len() - text.len();
-        let (tok, len) = find_token(text);
-        Token::new(tok, len)
+        self.next_significant_token(self.cur_end).0
     }
 
     // Look ahead to the next two tokens after the current one and return them without advancing
-    // the state of the lexer.
+    // the state of the lexer. Trivia is skipped.
     pub fn lookahead_2(&self) -> (Token, Token) {
-        let text = &self.text[self.cur_end..];
-        // let text = self.text[self.cur_end..].trim_start();
-        let offset = self.text.len() - text.len();
-        let (first, length) = find_token(text);
+        let (first, end) = self.next_significant_token(self.cur_end);
+        let (second, _) = self.next_significant_token(end);
+        (first, second)
+    }
 
-        let text2 = &self.text[offset + length..];
-        // let text2 = self.text[offset + length..].trim_start();
-        // let offset2 = self.text.len() - text2.len();
-        let (second, sec_length) = find_token(text2);
-        (Token::new(first, length), Token::new(second, sec_length))
+    // The first non-trivia token at or after `pos`, and the position where it ends.
+    fn next_significant_token(&self, mut pos: usize) -> (Token, usize) {
+        loop {
+            let (kind, len) = find_token(&self.text[pos..]);
+            pos += len;
+            if !kind.is_trivia() {
+                return (Token::new(kind, len), pos);
+            }
+        }
     }
 
     pub fn bump(&mut self) {
-- 
2.43.0


From 222a2b20853f904c55eb1411e7a23cd91ab8a1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:44 +0000
Subject: [PATCH 04/32] fix: do not cut a qualified path short before '*' or
 '{'

'::' is a single token here, so the token after it is nth(1); nth(2) looked
past the next segment, and 'm::x * 2' or 'm::S{}' failed to parse.
---
 crates/parser/src/grammar/paths.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parser/src/grammar/paths.rs b/crates/parser/src/grammar/paths.rs
index 502ae23..46e8321 100644
--- a/crates/parser/src/grammar/paths.rs
+++ b/crates/parser/src/grammar/paths.rs
@@ -31,7 +31,7 @@ fn path(p: &mut Parser, mode: Mode) {
 
 fn path_for_qualifier(p: &mut Parser, mode: Mode, mut qual: CompletedMarker) {
     loop {
-        let use_tree = matches!(p.nth(2), T![*] | T!['{']);
+        let use_tree = matches!(p.nth(1), T![*] | T!['{']);
         if p.at(T![::]) && !use_tree {
             let path = qual.precede(p);
             p.bump(T![::]);
-- 
2.43.0


From e8562bf4265838a9543d2846a417ccfc105771d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:44 +0000
Subject: [PATCH 05/32] fix: reset the stuck-parser step limit whenever a token
 is consumed

The limit was counted over the whole file, so every file of more than a
few hundred tokens panicked with 'the parser seems stuck'.
---
 crates/parser/src/parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/parser/src/parser.rs b/crates/parser/src/parser.rs
index 3c2e1ba..5090d3b 100644
--- a/crates/parser/src/parser.rs
+++ b/crates/parser/src/parser.rs
@@ -264,6 +264,7 @@ impl<'t> Parser<'t> {
         for _ in 0..n_raw_tokens {
             self.lexer.bump();
         }
+        self.steps.set(0);
 
         self.push_event(Event::Token { kind, n_raw_tokens });
     }
-- 
2.43.0


From 132def6661354011e8fd759f7871cab780d84c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:10 +0000
Subject: [PATCH 06/32] fix: skip trivia in a loop instead of recursively

Each consecutive comment line added a stack frame, so a long run of
comments overflowed the stack.
---
 crates/parser/src/lexer.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/parser/src/lexer.rs b/crates/parser/src/lexer.rs
index ac88173..edf0e3a 100644
--- a/crates/parser/src/lexer.rs
+++ b/crates/parser/src/lexer.rs
@@ -116,16 +116,16 @@ impl<'t> Lexer<'t> {
 
     pub fn bump(&mut self) {
         self.prev_end = self.cur_end;
-        let text = &self.text[self.cur_end..];
-        // let text = self.text[self.cur_end..].trim_start();
-        self.cur_start = self.text.len() - text.len();
-        let (kind, len) = find_token(text);
-        if kind.is_trivia() {
+        loop {
+            let text = &self.text[self.cur_end..];
+            // let text = self.text[self.cur_end..].trim_start();
+            self.cur_start = self.text.len() - text.len();
+            let (kind, len) = find_token(text);
             self.advance_with_token(kind, len);
-            self.bump();
-            return;
+            if !kind.is_trivia() {
+                break;
+            }
         }
-        self.advance_with_token(kind, len);
         // self.cur_end = self.cur_start + len;
         // let token = Token::new(kind, len);
         // self.all_tokens.push(token.clone());
-- 
2.43.0


From f2d94f71799008ab9ae0a4c80f565fef66276c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:32 +0000
Subject: [PATCH 07/32] fix: make progress on unexpected tokens in every parser
 loop

Stray tokens between items, ')' in a block, ';' in parentheses and '{' in
an item, module or field list were reported but never consumed, so the
parser looped until it panicked with 'the parser seems stuck'; anything
but a module in an address block failed an assertion.
---
 crates/parser/src/grammar.rs                  |  4 ++--
 crates/parser/src/grammar/expressions.rs      |  6 ++++++
 crates/parser/src/grammar/expressions/atom.rs |  3 ++-
 crates/parser/src/grammar/items.rs            | 19 ++++++++++++-------
 crates/parser/src/grammar/items/adt.rs        | 10 +++++-----
 5 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/crates/parser/src/grammar.rs b/crates/parser/src/grammar.rs
index 9cbdd23..ff76fc7 100644
--- a/crates/parser/src/grammar.rs
+++ b/crates/parser/src/grammar.rs
@@ -7,7 +7,7 @@ mod generic_params;
 mod patterns;
 
 use crate::grammar::expressions::{stmt, StmtWithSemi};
-use crate::grammar::items::{address, item, module, script};
+use crate::grammar::items::{address, item, module, script, TOP_LEVEL_ITEM_RECOVERY_SET};
 use crate::marker::CompletedMarker;
 use crate::parser::Parser;
 use crate::SyntaxKind::{self, *};
@@ -72,7 +72,7 @@ pub(crate) fn root(p: &mut Parser) {
         } else if p.current().is_trivia() {
             p.bump_any()
         } else {
-            p.error("expected module or script");
+            p.error_and_skip_until("expected module or script", TOP_LEVEL_ITEM_RECOVERY_SET);
         }
     }
     m.complete(p, SOURCE_FILE);
diff --git a/crates/parser/src/grammar/expressions.rs b/crates/parser/src/grammar/expressions.rs
index 73d4a3c..08d77d8 100644
--- a/crates/parser/src/grammar/expressions.rs
+++ b/crates/parser/src/grammar/expressions.rs
@@ -147,6 +147,12 @@ pub(crate) fn stmt(p: &mut Parser, with_semi: StmtWithSemi) {
         let_stmt(p, m, with_semi);
         return;
     }
+    if p.at(T![')']) {
+        // An expression does not consume `)`, not even to recover.
+        m.abandon(p);
+        p.err_and_bump("expected expression");
+        return;
+    }
     expr(p);
     match with_semi {
         StmtWithSemi::Yes => {
diff --git a/crates/parser/src/grammar/expressions/atom.rs b/crates/parser/src/grammar/expressions/atom.rs
index 107b8bc..c577a83 100644
--- a/crates/parser/src/grammar/expressions/atom.rs
+++ b/crates/parser/src/grammar/expressions/atom.rs
@@ -146,7 +146,8 @@ fn paren_expr(p: &mut Parser) -> CompletedMarker {
     let m = p.start();
     p.expect(T!['(']);
 
-    while !p.at(EOF) && !p.at(T![')']) {
+    // An expression does not consume `;`, not even to recover.
+    while !p.at(EOF) && !p.at(T![')']) && !p.at(T![;]) {
         // saw_expr = true;
 
         // test tuple_attrs
diff --git a/crates/parser/src/grammar/items.rs b/crates/parser/src/grammar/items.rs
index 115059f..b5cddeb 100644
--- a/crates/parser/src/grammar/items.rs
+++ b/crates/parser/src/grammar/items.rs
@@ -3,7 +3,7 @@ mod adt;
 use crate::grammar::expressions::atom::bump_address;
 use crate::grammar::params::param_list;
 use crate::grammar::types::type_;
-use crate::grammar::{block_expr, name, name_r};
+use crate::grammar::{block_expr, error_block, name, name_r};
 use crate::marker::Marker;
 use crate::parser::Parser;
 use crate::SyntaxKind::{self, *};
@@ -85,7 +85,13 @@ pub(crate) fn address_item_list(p: &mut Parser) {
     p.bump(T!['{']);
 
     while !(p.at(T!['}']) || p.at(EOF)) {
-        module(p);
+        if p.at(T![module]) {
+            module(p);
+        } else if p.at(T!['{']) {
+            error_block(p, "expected module");
+        } else {
+            p.err_and_bump("expected module");
+        }
     }
     p.expect(T!['}']);
     m.complete(p, ADDRESS_ITEM_LIST);
@@ -124,7 +130,9 @@ pub(crate) fn item(p: &mut Parser) {
     //     p.error("unmatched `}`");
     //     p.bump(T!['}']);
     //     e.complete(p, ERROR);
-    if !p.at(EOF) && !p.at(T!['}']) {
+    if p.at(T!['{']) {
+        error_block(p, "expected an item");
+    } else if !p.at(EOF) && !p.at(T!['}']) {
         p.err_and_bump("expected an item");
     } else {
         p.error("expected an item");
@@ -136,10 +144,7 @@ pub(crate) fn opt_item(p: &mut Parser, m: Marker) -> Result<(), Marker> {
     match p.current() {
         T![fun] => function_def(p, m),
         T![struct] => adt::struct_(p, m),
-        _ => {
-            p.error("expected an item");
-            m.complete(p, ERROR);
-        }
+        _ => return Err(m),
     }
     Ok(())
 }
diff --git a/crates/parser/src/grammar/items/adt.rs b/crates/parser/src/grammar/items/adt.rs
index 9c8bf6c..b5598dd 100644
--- a/crates/parser/src/grammar/items/adt.rs
+++ b/crates/parser/src/grammar/items/adt.rs
@@ -1,5 +1,5 @@
 use super::*;
-use crate::grammar::{generic_params, types};
+use crate::grammar::{error_block, generic_params, types};
 
 pub(crate) fn struct_(p: &mut Parser, m: Marker) {
     p.bump(T![struct]);
@@ -44,10 +44,10 @@ pub(crate) fn record_field_list(p: &mut Parser) {
     let m = p.start();
     p.bump(T!['{']);
     while !p.at(T!['}']) && !p.at(EOF) {
-        // if p.at(T!['{']) {
-        //     error_block(p, "expected field");
-        //     continue;
-        // }
+        if p.at(T!['{']) {
+            error_block(p, "expected field");
+            continue;
+        }
         record_field(p);
         if !p.at(T!['}']) {
             p.expect(T![,]);
-- 
2.43.0


From 306cb7c45069915bf95f34e4f7357be5ea92224b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:32 +0000
Subject: [PATCH 08/32] fix: lex '&mutable' as '&' and an identifier

Only the prefix was compared, so a reference to anything whose name starts
with 'mut' became '&mut' followed by the rest of the name.
---
 crates/parser/src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parser/src/lexer.rs b/crates/parser/src/lexer.rs
index edf0e3a..f903859 100644
--- a/crates/parser/src/lexer.rs
+++ b/crates/parser/src/lexer.rs
@@ -227,7 +227,7 @@ pub fn find_token(text: &str) -> (SyntaxKind, usize) {
             }
         }
         '&' => {
-            if text.starts_with("&mut") {
+            if text.starts_with("&mut") && get_name_len(&text[1..]) == 3 {
                 (AMP_MUT, 4)
             } else if text.starts_with("&&") {
                 (AMP_AMP, 2)
-- 
2.43.0


From dd482dd899e3ac715ea0f31a9af8b94bfd4a0fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:33 +0000
Subject: [PATCH 09/32] fix: parse '&mut T' types

'&mut' is a single token, which the type grammar did not accept: only
'& mut T' parsed as a mutable reference type.
---
 crates/parser/src/grammar/types.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/parser/src/grammar/types.rs b/crates/parser/src/grammar/types.rs
index 53b705c..f212794 100644
--- a/crates/parser/src/grammar/types.rs
+++ b/crates/parser/src/grammar/types.rs
@@ -21,7 +21,7 @@ pub(super) fn ascription(p: &mut Parser) {
 pub(crate) fn type_(p: &mut Parser) {
     let allow_bounds = false;
     match p.current() {
-        T![&] => ref_type(p),
+        T![&] | AMP_MUT => ref_type(p),
         _ if is_path_start(p) => path_type(p),
         _ => {
             p.err_recover("expected type", TYPE_RECOVERY_SET);
@@ -30,10 +30,12 @@ pub(crate) fn type_(p: &mut Parser) {
 }
 
 pub(crate) fn ref_type(p: &mut Parser) {
-    assert!(p.at(T![&]));
+    assert!(p.at(T![&]) || p.at(AMP_MUT));
     let m = p.start();
-    p.bump(T![&]);
-    p.eat(T![mut]);
+    if !p.eat(AMP_MUT) {
+        p.bump(T![&]);
+        p.eat(T![mut]);
+    }
     type_(p);
     m.complete(p, REF_TYPE);
 }
-- 
2.43.0


From 38422ce56edd78c6e6b7b9ed6c41188fe0beec5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:10 +0000
Subject: [PATCH 10/32] fix: resolve_path returns None for an anchor outside
 the file set

It is documented to, but indexed the map and panicked.
---
 crates/vfs/src/file_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/vfs/src/file_set.rs b/crates/vfs/src/file_set.rs
index 0011f73..0d9a5e9 100644
--- a/crates/vfs/src/file_set.rs
+++ b/crates/vfs/src/file_set.rs
@@ -27,7 +27,7 @@ impl FileSet {
     /// If either `path`'s [`anchor`](AnchoredPath::anchor) or the resolved path is not in
     /// the set, returns [`None`].
     pub fn resolve_path(&self, path: AnchoredPath<'_>) -> Option<FileId> {
-        let mut base = self.paths[&path.anchor].clone();
+        let mut base = self.paths.get(&path.anchor)?.clone();
         base.pop();
         let path = base.join(path.path)?;
         self.files.get(&path).copied()
-- 
2.43.0


From 6a25ae1888ceb03a08896459dec9ff296b9b938d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:22 +0000
Subject: [PATCH 11/32] fix: a source root contains the paths below it, not
 those that share its name

'/foo' claimed '/foo-things/a.move' unless '/foo-things' was itself a
root, because roots were compared with paths byte by byte.
---
 crates/vfs/src/file_set.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/vfs/src/file_set.rs b/crates/vfs/src/file_set.rs
index 0d9a5e9..49b16bf 100644
--- a/crates/vfs/src/file_set.rs
+++ b/crates/vfs/src/file_set.rs
@@ -131,8 +131,13 @@ impl FileSetConfig {
         let automaton = PrefixOf::new(scratch_space.as_slice());
         let mut longest_prefix = self.len() - 1;
         let mut stream = self.map.search(automaton).into_stream();
-        while let Some((_, v)) = stream.next() {
-            longest_prefix = v as usize;
+        while let Some((prefix, v)) = stream.next() {
+            // A prefix of the path has to end where one of its components does.
+            match scratch_space.get(prefix.len()) {
+                Some(&next)
+                    if !std::path::is_separator(next.into()) && !prefix.ends_with(b"/") => {}
+                _ => longest_prefix = v as usize,
+            }
         }
         longest_prefix
     }
-- 
2.43.0


From 537b638323c96756e18bbca446919eb246904d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:44 +0000
Subject: [PATCH 12/32] fix: publish diagnostics while no source roots are
 configured

Nothing configures source roots yet, so every file landed in the one
default set, which counted as a library: diagnostics were computed and
then dropped, for every file.
---
 crates/move_language_server/src/reload.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/move_language_server/src/reload.rs b/crates/move_language_server/src/reload.rs
index 856c6b7..06628c3 100644
--- a/crates/move_language_server/src/reload.rs
+++ b/crates/move_language_server/src/reload.rs
@@ -65,12 +65,20 @@ impl GlobalState {
     }
 }
 
-#[derive(Default, Debug)]
+#[derive(Debug)]
 pub struct SourceRootConfig {
     pub(crate) fsc: FileSetConfig,
     pub(crate) local_filesets: Vec<usize>,
 }
 
+impl Default for SourceRootConfig {
+    /// No source roots are configured: the only file set is the one for all other files, and
+    /// it belongs to the workspace.
+    fn default() -> Self {
+        SourceRootConfig { fsc: FileSetConfig::default(), local_filesets: vec![0] }
+    }
+}
+
 impl SourceRootConfig {
     pub fn partition(&self, vfs: &vfs::Vfs) -> Vec<SourceRoot> {
         self.fsc
-- 
2.43.0


From e79f19b9ee6b684b94a8204b9532c869b536dcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:47 +0000
Subject: [PATCH 13/32] fix: report positions in the negotiated offset encoding

Columns were always UTF-8 byte offsets, also for clients that had not
negotiated UTF-8 and read them as UTF-16 units.
---
 crates/move_language_server/src/global_state.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/move_language_server/src/global_state.rs b/crates/move_language_server/src/global_state.rs
index c1b62e9..8f42df6 100644
--- a/crates/move_language_server/src/global_state.rs
+++ b/crates/move_language_server/src/global_state.rs
@@ -7,7 +7,7 @@ use std::{sync::Arc, time::Instant};
 
 use crate::config::Config;
 use crate::diagnostics::DiagnosticCollection;
-use crate::line_index::{LineEndings, LineIndex, OffsetEncoding};
+use crate::line_index::{LineEndings, LineIndex};
 use crate::main_loop::Task;
 use crate::mem_docs::MemDocs;
 use crate::reload::SourceRootConfig;
@@ -63,6 +63,7 @@ pub(crate) struct GlobalState {
 
 /// An immutable snapshot of the world's state at a point in time.
 pub(crate) struct GlobalStateSnapshot {
+    config: Arc<Config>,
     pub(crate) analysis: Analysis,
     mem_docs: MemDocs,
     vfs: Arc<RwLock<(vfs::Vfs, FxHashMap<FileId, LineEndings>)>>,
@@ -152,6 +153,7 @@ impl GlobalState {
 
     pub(crate) fn snapshot(&self) -> GlobalStateSnapshot {
         GlobalStateSnapshot {
+            config: Arc::clone(&self.config),
             analysis: self.analysis_host.analysis(),
             vfs: Arc::clone(&self.vfs),
             mem_docs: self.mem_docs.clone(),
@@ -222,7 +224,7 @@ impl GlobalStateSnapshot {
     pub(crate) fn file_line_index(&self, file_id: FileId) -> Cancellable<LineIndex> {
         let endings = self.vfs.read().1[&file_id];
         let index = self.analysis.file_line_index(file_id)?;
-        let res = LineIndex { index, endings, encoding: OffsetEncoding::Utf8 };
+        let res = LineIndex { index, endings, encoding: self.config.offset_encoding() };
         Ok(res)
     }
 
-- 
2.43.0


From 3405cb7a3da2514625e33053d0a591e3c1f495c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:23 +0000
Subject: [PATCH 14/32] fix: accept edit positions past the end of a line or of
 the text

Such a position went through unchecked: past the end of the text it
panicked and took the server down, and past the end of a line the edit
hit a later line. It is now the end of that line (its terminator
included, as test_apply_document_changes has it) or of the text.
---
 crates/move_language_server/src/lsp_utils.rs | 26 ++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/crates/move_language_server/src/lsp_utils.rs b/crates/move_language_server/src/lsp_utils.rs
index 687da3c..04a6559 100644
--- a/crates/move_language_server/src/lsp_utils.rs
+++ b/crates/move_language_server/src/lsp_utils.rs
@@ -82,6 +82,10 @@ pub(crate) fn apply_document_changes(
     for change in content_changes {
         match change.range {
             Some(range) => {
+                let range = lsp_types::Range::new(
+                    clamp_position(old_text, &line_index.encoding, range.start),
+                    clamp_position(old_text, &line_index.encoding, range.end),
+                );
                 if !index_valid.covers(range.end.line) {
                     line_index.index = Arc::new(ide_db::LineIndex::new(old_text));
                 }
@@ -97,6 +101,28 @@ pub(crate) fn apply_document_changes(
     }
 }
 
+/// A position past the end of a line is the end of that line, terminator included (past the last
+/// line: the end of the text), so that every position stays within the text.
+fn clamp_position(
+    text: &str,
+    encoding: &OffsetEncoding,
+    position: lsp_types::Position,
+) -> lsp_types::Position {
+    let line_len = |line: &str| match encoding {
+        OffsetEncoding::Utf8 => line.len() as u32,
+        OffsetEncoding::Utf16 => line.encode_utf16().count() as u32,
+    };
+    match text.split_inclusive('\n').nth(position.line as usize) {
+        Some(line) => {
+            lsp_types::Position::new(position.line, position.character.min(line_len(line)))
+        }
+        None => {
+            let last_line = text.matches('\n').count() as u32;
+            lsp_types::Position::new(last_line, line_len(text.rsplit('\n').next().unwrap()))
+        }
+    }
+}
+
 /// Checks that the edits inside the completion and the additional edits do not overlap.
 /// LSP explicitly forbids the additional edits to overlap both with the main edit and themselves.
 pub(crate) fn all_edits_are_disjoint(
-- 
2.43.0


From cc108c5f758f903e0d47dd216081df1f87b3988e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:25 +0000
Subject: [PATCH 15/32] fix: read ranged edits in the negotiated offset
 encoding

They were always read as UTF-16, also from clients told to use UTF-8.
---
 crates/move_language_server/src/lsp_utils.rs | 12 ++++++++++--
 crates/move_language_server/src/main_loop.rs |  8 ++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/crates/move_language_server/src/lsp_utils.rs b/crates/move_language_server/src/lsp_utils.rs
index 04a6559..e14b570 100644
--- a/crates/move_language_server/src/lsp_utils.rs
+++ b/crates/move_language_server/src/lsp_utils.rs
@@ -51,12 +51,20 @@ impl GlobalState {
 pub(crate) fn apply_document_changes(
     old_text: &mut String,
     content_changes: Vec<lsp_types::TextDocumentContentChangeEvent>,
+) {
+    apply_encoded_document_changes(old_text, OffsetEncoding::Utf16, content_changes)
+}
+
+pub(crate) fn apply_encoded_document_changes(
+    old_text: &mut String,
+    encoding: OffsetEncoding,
+    content_changes: Vec<lsp_types::TextDocumentContentChangeEvent>,
 ) {
     let mut line_index = LineIndex {
         index: Arc::new(ide_db::LineIndex::new(old_text)),
-        // We don't care about line endings or offset encoding here.
+        // We don't care about line endings here.
         endings: LineEndings::Unix,
-        encoding: OffsetEncoding::Utf16,
+        encoding,
     };
 
     // The changes we got must be applied sequentially, but can cross lines so we
diff --git a/crates/move_language_server/src/main_loop.rs b/crates/move_language_server/src/main_loop.rs
index e6ae6ba..5fe932a 100644
--- a/crates/move_language_server/src/main_loop.rs
+++ b/crates/move_language_server/src/main_loop.rs
@@ -7,7 +7,7 @@ use std::time::{Duration, Instant};
 use crate::config::Config;
 use crate::dispatch::{NotificationDispatcher, RequestDispatcher};
 use crate::global_state::{file_id_to_url, GlobalState};
-use crate::lsp_utils::{apply_document_changes, is_cancelled, notification_is, Progress};
+use crate::lsp_utils::{apply_encoded_document_changes, is_cancelled, notification_is, Progress};
 use crate::mem_docs::DocumentData;
 use crate::{from_proto, handlers, lsp_ext, Result};
 use ide_db::base_db::FileId;
@@ -286,7 +286,11 @@ impl GlobalState {
                     let vfs = &mut this.vfs.write().0;
                     let file_id = vfs.file_id(&path).unwrap();
                     let mut text = String::from_utf8(vfs.file_contents(file_id).to_vec()).unwrap();
-                    apply_document_changes(&mut text, params.content_changes);
+                    apply_encoded_document_changes(
+                        &mut text,
+                        this.config.offset_encoding(),
+                        params.content_changes,
+                    );
 
                     vfs.set_file_contents(path, Some(text.into_bytes()));
                 }
-- 
2.43.0


From f1c8d481286f10ed8dd6bcbfd67e110eb8cfda60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:51 +0000
Subject: [PATCH 16/32] fix: never publish diagnostics of an older text

Diagnostics are computed on a pool of threads. A computation on an older
snapshot can deliver its result after the document has changed, or even
after a computation on a newer snapshot has delivered its own: the older
result was published under the newer version, and could stay published.
---
 crates/move_language_server/src/global_state.rs |  3 +++
 crates/move_language_server/src/main_loop.rs    | 12 +++++++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/move_language_server/src/global_state.rs b/crates/move_language_server/src/global_state.rs
index 8f42df6..4ea3847 100644
--- a/crates/move_language_server/src/global_state.rs
+++ b/crates/move_language_server/src/global_state.rs
@@ -47,6 +47,8 @@ pub(crate) struct GlobalState {
     pub(crate) config: Arc<Config>,
     pub(crate) analysis_host: AnalysisHost,
     pub(crate) diagnostics: DiagnosticCollection,
+    /// The number of times diagnostics have been requested.
+    pub(crate) diagnostics_generation: u64,
     pub(crate) mem_docs: MemDocs,
     pub(crate) shutdown_requested: bool,
     pub(crate) last_reported_status: Option<lsp_ext::ServerStatusParams>,
@@ -87,6 +89,7 @@ impl GlobalState {
             config: Arc::new(config),
             analysis_host,
             diagnostics: Default::default(),
+            diagnostics_generation: 0,
             mem_docs: MemDocs::default(),
             shutdown_requested: false,
             last_reported_status: None,
diff --git a/crates/move_language_server/src/main_loop.rs b/crates/move_language_server/src/main_loop.rs
index 5fe932a..63e4bd8 100644
--- a/crates/move_language_server/src/main_loop.rs
+++ b/crates/move_language_server/src/main_loop.rs
@@ -77,7 +77,8 @@ impl fmt::Debug for Event {
 #[derive(Debug)]
 pub(crate) enum Task {
     Response(lsp_server::Response),
-    Diagnostics(Vec<(FileId, Vec<lsp_types::Diagnostic>)>),
+    /// Tagged with the generation (see `GlobalState::diagnostics_generation`) they belong to.
+    Diagnostics(u64, Vec<(FileId, Vec<lsp_types::Diagnostic>)>),
 }
 
 impl GlobalState {
@@ -150,7 +151,10 @@ impl GlobalState {
                 loop {
                     match task {
                         Task::Response(response) => self.respond(response),
-                        Task::Diagnostics(diagnostics_per_file) => {
+                        // Something has changed in the meantime, newer ones are on their way
+                        Task::Diagnostics(generation, _)
+                            if generation != self.diagnostics_generation => {}
+                        Task::Diagnostics(_, diagnostics_per_file) => {
                             for (file_id, diagnostics) in diagnostics_per_file {
                                 self.diagnostics.set_native_diagnostics(file_id, diagnostics)
                             }
@@ -317,6 +321,8 @@ impl GlobalState {
 
         tracing::trace!("updating notifications for {:?}", subscriptions);
 
+        self.diagnostics_generation += 1;
+        let generation = self.diagnostics_generation;
         let snapshot = self.snapshot();
         self.task_pool.handle.spawn(move || {
             let diagnostics = subscriptions
@@ -333,7 +339,7 @@ impl GlobalState {
                         .map(|diags| (file_id, diags))
                 })
                 .collect::<Vec<_>>();
-            Task::Diagnostics(diagnostics)
+            Task::Diagnostics(generation, diagnostics)
         })
     }
 }
-- 
2.43.0


From c72ef9d90fe7a7ec00b855db012249835749b31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:25 +0000
Subject: [PATCH 17/32] hooks: entry points for the verification harness (cfg
 vp_hooks)

---
 crates/move_language_server/src/lib.rs        |   2 +
 crates/move_language_server/src/main_loop.rs  |   3 +
 .../src/main_loop/vp_hooks.rs                 | 118 ++++++++++++++++++
 .../move_language_server/src/thread_pool.rs   |   5 +
 4 files changed, 128 insertions(+)
 create mode 100644 crates/move_language_server/src/main_loop/vp_hooks.rs

diff --git a/crates/move_language_server/src/lib.rs b/crates/move_language_server/src/lib.rs
index 1989081..581d0c4 100644
--- a/crates/move_language_server/src/lib.rs
+++ b/crates/move_language_server/src/lib.rs
@@ -22,6 +22,8 @@ pub mod config;
 
 pub use caps::server_capabilities;
 pub use main_loop::main_loop;
+#[cfg(vp_hooks)]
+pub use main_loop::vp_hooks;
 
 pub type Error = Box<dyn std::error::Error + Send + Sync>;
 pub type Result<T, E = Error> = std::result::Result<T, E>;
diff --git a/crates/move_language_server/src/main_loop.rs b/crates/move_language_server/src/main_loop.rs
index 63e4bd8..1ed4b1f 100644
--- a/crates/move_language_server/src/main_loop.rs
+++ b/crates/move_language_server/src/main_loop.rs
@@ -16,6 +16,9 @@ use lsp_server::Connection;
 use lsp_types::notification::Notification;
 use vfs::VfsPath;
 
+#[cfg(vp_hooks)]
+pub mod vp_hooks;
+
 pub fn main_loop(config: Config, connection: lsp_server::Connection) -> Result<()> {
     // Windows scheduler implements priority boosts: if thread waits for an
     // event (like a condvar), and event fires, priority of the thread is
diff --git a/crates/move_language_server/src/main_loop/vp_hooks.rs b/crates/move_language_server/src/main_loop/vp_hooks.rs
new file mode 100644
index 0000000..09a5e56
--- /dev/null
+++ b/crates/move_language_server/src/main_loop/vp_hooks.rs
@@ -0,0 +1,118 @@
+//! Access to internals for the verification harness. Only compiled with `--cfg vp_hooks`.
+use crossbeam_channel::{unbounded, Receiver, Sender};
+use lsp_server::Message;
+use lsp_types::{CompletionItem, Diagnostic, Range, TextEdit};
+use vfs::{FileId, VfsPath};
+
+use crate::config::Config;
+use crate::diagnostics::DiagnosticCollection;
+use crate::global_state::GlobalState;
+use crate::line_index::LineEndings;
+use crate::lsp_ext::CodeAction;
+use crate::thread_pool::TaskPool;
+use crate::Result;
+
+use super::{Event, Task};
+
+/// The normalised text, and whether it was reported as having DOS line ends.
+pub fn normalize_line_endings(text: String) -> (String, bool) {
+    let (text, endings) = LineEndings::normalize(text);
+    (text, endings == LineEndings::Dos)
+}
+
+pub fn all_edits_are_disjoint(completion: &CompletionItem, additional: &[TextEdit]) -> bool {
+    crate::lsp_utils::all_edits_are_disjoint(completion, additional)
+}
+
+#[derive(Default)]
+pub struct DiagnosticStore(DiagnosticCollection);
+
+impl DiagnosticStore {
+    pub fn clear_check(&mut self) {
+        self.0.clear_check()
+    }
+    pub fn add_check(&mut self, file: FileId, diagnostic: Diagnostic, fixes: Vec<CodeAction>) {
+        self.0.add_check_diagnostic(file, diagnostic, fixes)
+    }
+    pub fn set_native(&mut self, file: FileId, diagnostics: Vec<Diagnostic>) {
+        self.0.set_native_diagnostics(file, diagnostics)
+    }
+    pub fn get(&self, file: FileId) -> Vec<Diagnostic> {
+        self.0.diagnostics_for(file).cloned().collect()
+    }
+    pub fn fixes(&self, file: FileId) -> Vec<(Range, String)> {
+        let fixes = self.0.check_fixes.get(&file).into_iter().flatten();
+        fixes.map(|fix| (fix.range, fix.action.title.clone())).collect()
+    }
+    pub fn take_changes(&mut self) -> Option<Vec<FileId>> {
+        self.0.take_changes().map(|files| files.into_iter().collect())
+    }
+}
+
+pub struct Pool<T>(TaskPool<T>);
+
+impl<T: Send + 'static> Pool<T> {
+    pub fn new(sender: Sender<T>) -> Pool<T> {
+        Pool(TaskPool::new(sender))
+    }
+    pub fn spawn(&mut self, task: impl FnOnce() -> T + Send + 'static) {
+        self.0.spawn(task)
+    }
+    pub fn spawn_with_sender(&mut self, task: impl FnOnce(Sender<T>) + Send + 'static) {
+        self.0.spawn_with_sender(task)
+    }
+}
+
+/// The server without its event loop: the caller decides when messages and results of background
+/// computations are handled.
+pub struct Server {
+    state: GlobalState,
+    outbox: Receiver<Message>,
+    results: Vec<Task>,
+}
+
+impl Server {
+    pub fn new(config: Config) -> Server {
+        let (sender, outbox) = unbounded();
+        Server { state: GlobalState::new(sender, config), outbox, results: Vec::new() }
+    }
+
+    pub fn handle_message(&mut self, message: Message) -> Result<()> {
+        let res = self.state.handle_event(Event::Lsp(message));
+        self.collect_results();
+        res
+    }
+
+    /// Waits until all background computations have finished.
+    pub fn finish_computations(&mut self) {
+        self.state.task_pool.handle.join();
+        self.collect_results();
+    }
+
+    fn collect_results(&mut self) {
+        let results = self.state.task_pool.receiver.try_iter();
+        self.results.extend(results);
+    }
+
+    /// The number of results that have arrived but have not been handled.
+    pub fn n_results(&self) -> usize {
+        self.results.len()
+    }
+
+    pub fn handle_result(&mut self, n: usize) -> Result<()> {
+        let task = self.results.remove(n);
+        let res = self.state.handle_event(Event::Task(task));
+        self.collect_results();
+        res
+    }
+
+    /// The messages sent to the client since the last call.
+    pub fn take_sent(&mut self) -> Vec<Message> {
+        self.outbox.try_iter().collect()
+    }
+
+    pub fn file_contents(&self, path: &VfsPath) -> Option<Vec<u8>> {
+        let vfs = &self.state.vfs.read().0;
+        vfs.file_id(path).map(|it| vfs.file_contents(it).to_vec())
+    }
+}
diff --git a/crates/move_language_server/src/thread_pool.rs b/crates/move_language_server/src/thread_pool.rs
index 8338937..c275c8a 100644
--- a/crates/move_language_server/src/thread_pool.rs
+++ b/crates/move_language_server/src/thread_pool.rs
@@ -34,6 +34,11 @@ impl<T> TaskPool<T> {
         })
     }
 
+    #[cfg(vp_hooks)]
+    pub(crate) fn join(&self) {
+        self.inner.join()
+    }
+
     pub(crate) fn len(&self) -> usize {
         self.inner.queued_count()
     }
-- 
2.43.0


From deb99268b0e20be49be8b0b2fb3854a709ec07be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:08 +0000
Subject: [PATCH 18/32] fix: documents whose URI is no file URI are not files

---
 crates/move_language_server/src/from_proto.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/move_language_server/src/from_proto.rs b/crates/move_language_server/src/from_proto.rs
index 4de913d..9944823 100644
--- a/crates/move_language_server/src/from_proto.rs
+++ b/crates/move_language_server/src/from_proto.rs
@@ -15,6 +15,10 @@ use crate::{
 };
 
 pub(crate) fn abs_path(url: &lsp_types::Url) -> Result<AbsPathBuf> {
+    // `to_file_path` does not look at the scheme: `git:/dir/file` is not the file `/dir/file`
+    if url.scheme() != "file" {
+        return Err("url is not a file".into());
+    }
     let path = url.to_file_path().map_err(|()| "url is not a file")?;
     Ok(AbsPathBuf::try_from(path).unwrap())
 }
-- 
2.43.0


From 01007c21e21413d24eb9b3a9f9cd11cd46a6d340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:27 +0000
Subject: [PATCH 19/32] hooks: results handled together, copies of the store
 (cfg vp_hooks)

---
 .../src/main_loop/vp_hooks.rs                  | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/crates/move_language_server/src/main_loop/vp_hooks.rs b/crates/move_language_server/src/main_loop/vp_hooks.rs
index 09a5e56..733a6b6 100644
--- a/crates/move_language_server/src/main_loop/vp_hooks.rs
+++ b/crates/move_language_server/src/main_loop/vp_hooks.rs
@@ -24,7 +24,7 @@ pub fn all_edits_are_disjoint(completion: &CompletionItem, additional: &[TextEdi
     crate::lsp_utils::all_edits_are_disjoint(completion, additional)
 }
 
-#[derive(Default)]
+#[derive(Default, Clone)]
 pub struct DiagnosticStore(DiagnosticCollection);
 
 impl DiagnosticStore {
@@ -106,6 +106,22 @@ impl Server {
         res
     }
 
+    /// Handles the `n`th result while the `more` are waiting to be handled, so that they are taken
+    /// in the same turn of the loop. The indices are those before the call.
+    pub fn handle_results(&mut self, n: usize, more: &[usize]) -> Result<()> {
+        let mut results: Vec<Option<Task>> = self.results.drain(..).map(Some).collect();
+        let task = results[n].take().unwrap();
+        for &n in more {
+            let task = results[n].take().unwrap();
+            self.state.task_pool.handle.spawn(move || task);
+            self.state.task_pool.handle.join();
+        }
+        self.results.extend(results.into_iter().flatten());
+        let res = self.state.handle_event(Event::Task(task));
+        self.collect_results();
+        res
+    }
+
     /// The messages sent to the client since the last call.
     pub fn take_sent(&mut self) -> Vec<Message> {
         self.outbox.try_iter().collect()
-- 
2.43.0


From 3b2f8e8616e6e8145fb395249ca2123e4808768b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:24 +0000
Subject: [PATCH 20/32] fix: decode the output of dove as a whole, not piece by
 piece

---
 editors/code/src/components/dove.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/editors/code/src/components/dove.ts b/editors/code/src/components/dove.ts
index f4ddcef..b2e817d 100644
--- a/editors/code/src/components/dove.ts
+++ b/editors/code/src/components/dove.ts
@@ -103,6 +103,9 @@ export class Dove {
         let stderr = '';
         await new Promise((resolve) => {
             const process = spawn(this.executable, [command, ...args], { cwd });
+            // output is cut at any byte, which can be inside of a character
+            process.stdout.setEncoding('utf8');
+            process.stderr.setEncoding('utf8');
             process.stdout.on('data', (data) => {
                 stdout += data;
             });
-- 
2.43.0


From 8e70ed301f6c6c1b7d60aff061664410e684b03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:31 +0000
Subject: [PATCH 21/32] fix: a dove that cannot be started is reported, not
 thrown

---
 editors/code/src/components/dove.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/editors/code/src/components/dove.ts b/editors/code/src/components/dove.ts
index b2e817d..83657da 100644
--- a/editors/code/src/components/dove.ts
+++ b/editors/code/src/components/dove.ts
@@ -112,6 +112,9 @@ export class Dove {
             process.stderr.on('data', (data) => {
                 stderr += data;
             });
+            process.on('error', (err) => {
+                stderr += err.message;
+            });
             process.on('close', (code) => {
                 resolve(code);
             });
-- 
2.43.0


From 26f217ca85c008a40008b64255ef6ab31e7a3a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:51 +0000
Subject: [PATCH 22/32] fix: use the configured language server, not a path of
 one developer's machine

---
 editors/code/src/components/bootstrap.ts | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/editors/code/src/components/bootstrap.ts b/editors/code/src/components/bootstrap.ts
index e7fd746..577648f 100644
--- a/editors/code/src/components/bootstrap.ts
+++ b/editors/code/src/components/bootstrap.ts
@@ -44,10 +44,9 @@ export async function bootstrap(
         throw new Error(message);
     };
 
-    // const languageServerPath = await bootstrapLanguageServer(context, state).catch(
-    //     handleError.bind(null, 'move-language-server')
-    // );
-    const languageServerPath = "/home/mkurnikov/code/move-language-server/target/debug/move_language_server";
+    const languageServerPath = await bootstrapLanguageServer(context, state).catch(
+        handleError.bind(null, 'move-language-server')
+    );
 
     const doveExecutablePath = await bootstrapDoveExecutable(context, state).catch(
         handleError.bind(null, 'dove')
-- 
2.43.0


From 5553ec3f4e038f14f6b16b68d0816e8816df86df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:50 +0000
Subject: [PATCH 23/32] fix: an executable for darwin is not one for Windows

---
 editors/code/src/components/bootstrap.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/editors/code/src/components/bootstrap.ts b/editors/code/src/components/bootstrap.ts
index 577648f..41df5cd 100644
--- a/editors/code/src/components/bootstrap.ts
+++ b/editors/code/src/components/bootstrap.ts
@@ -112,9 +112,11 @@ async function getBinaryPathEnsureExists(
     });
     if (!release) throw new AssertionError({ message: `Invalid binaryName ${binaryName}` });
 
+    // at the start of a word, as "darwin" holds "win"
+    const platformPattern = new RegExp(`(^|[^a-z])${platformLabel}`);
     const asset = release.assets.find(
         ({ browser_download_url, name }) =>
-            name.startsWith(binaryName) && name.includes(platformLabel)
+            name.startsWith(binaryName) && platformPattern.test(name)
     );
     assert(!!asset, `Bad release: ${JSON.stringify(release)}`);
 
-- 
2.43.0


From aef18ac8310f675f3ef0d3d3ec7bb897e1f1a412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:44 +0000
Subject: [PATCH 24/32] fix: no language server is started for a workspace that
 has been stopped

---
 editors/code/src/components/ws.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/editors/code/src/components/ws.ts b/editors/code/src/components/ws.ts
index 61f50a5..e4f172d 100644
--- a/editors/code/src/components/ws.ts
+++ b/editors/code/src/components/ws.ts
@@ -25,6 +25,7 @@ export class ClientWorkspaceFactory implements Disposable {
     private readonly workspaces: Map<vscode.WorkspaceFolder, ClientWorkspace> = new Map();
     private doveExecutable: string | null = null;
     private languageServerExecutable: string | null = null;
+    private disposed = false;
 
     constructor(
         private readonly extensionContext: vscode.ExtensionContext,
@@ -54,6 +55,9 @@ export class ClientWorkspaceFactory implements Disposable {
             );
         }
 
+        // could have been disposed of in the meantime
+        if (this.disposed) return;
+
         log.debug(`initClientWorkspace called inside ${folder.uri.fsPath}`);
         let ws = this.workspaces.get(folder);
         if (!ws && isMoveDocument(text_document)) {
@@ -80,6 +84,7 @@ export class ClientWorkspaceFactory implements Disposable {
 
     dispose() {
         log.debug('Disposing ClientWorkspaceFactory');
+        this.disposed = true;
         return Promise.all([...this.workspaces.values()].map((ws) => ws.stop()));
     }
 }
@@ -89,6 +94,7 @@ export class ClientWorkspaceFactory implements Disposable {
 export class ClientWorkspace {
     private readonly disposables: Disposable[] = [];
     private readonly languageClients: lc.LanguageClient[] = [];
+    private stopped = false;
 
     constructor(
         readonly folder: vscode.WorkspaceFolder,
@@ -100,7 +106,7 @@ export class ClientWorkspace {
         log.debug(`Starting new ClientWorkspace instance at ${this.folder.uri.toString()}`);
 
         const metadata = await dove.metadataWithErrorMessage(this.folder);
-        if (!metadata) return;
+        if (!metadata || this.stopped) return;
 
         const serverInitOpts = getServerInitOptsFromMetadata(metadata);
         const client = createLanguageServerClient(
@@ -116,6 +122,7 @@ export class ClientWorkspace {
 
     async stop(): Promise<any> {
         log.debug(`Stopping language clients for "${this.folder.uri.toString()}"`);
+        this.stopped = true;
         for (const client of this.languageClients) {
             await client.stop();
         }
-- 
2.43.0


From 7c3f87df461eae1f931d36dffa24a7f6c0f53987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:53 +0000
Subject: [PATCH 25/32] fix: changes made while the extension starts are not
 lost

---
 editors/code/src/extension.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/editors/code/src/extension.ts b/editors/code/src/extension.ts
index 1d18deb..484ee0c 100644
--- a/editors/code/src/extension.ts
+++ b/editors/code/src/extension.ts
@@ -42,10 +42,6 @@ async function tryActivate(context: vscode.ExtensionContext) {
             }
         })
     );
-    // Manually trigger the first event to start up server instance if necessary,
-    // since VSCode doesn't do that on startup by itself.
-    await clientWorkspaceFactory.initClientWorkspace(window.activeTextEditor?.document);
-
     // Reloading is inspired by @DanTup maneuver: https://github.com/microsoft/vscode/issues/45774#issuecomment-373423895
     log.debug('Register command "move.reload"');
     context.subscriptions.push(
@@ -107,6 +103,10 @@ async function tryActivate(context: vscode.ExtensionContext) {
             await onDidDoveTomlChanged(document.uri);
         })
     );
+
+    // Manually trigger the first event to start up server instance if necessary,
+    // since VSCode doesn't do that on startup by itself.
+    await clientWorkspaceFactory.initClientWorkspace(window.activeTextEditor?.document);
 }
 
 // this method is called when your extension is deactivated
-- 
2.43.0


From fbb295191ee1cae7ca21c501d2d4cb60373be377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:46 +0000
Subject: [PATCH 26/32] fix: highlight names that begin with a keyword or
 contain 0x as names

`(?<=fun)` also matched inside a name like `fun1`, and everything up to the
next parenthesis was then highlighted as a function name.
---
 editors/code/syntaxes/move.tmLanguage.json | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/editors/code/syntaxes/move.tmLanguage.json b/editors/code/syntaxes/move.tmLanguage.json
index f189593..4999351 100644
--- a/editors/code/syntaxes/move.tmLanguage.json
+++ b/editors/code/syntaxes/move.tmLanguage.json
@@ -64,7 +64,7 @@
                 { "include": "#comments" },
                 {
                     "comment": "Address literal",
-                    "begin": "(?<=address)",
+                    "begin": "(?<=\\baddress)\\b",
                     "end": "(?={)",
                     "patterns": [{ "include": "#comments" }, { "include": "#address_literal" }]
                 },
@@ -84,7 +84,7 @@
                 { "include": "#comments" },
                 {
                     "comment": "Module name",
-                    "begin": "(?<=module)",
+                    "begin": "(?<=\\bmodule)\\b",
                     "end": "(?={)",
                     "name": "entity.name.type.move",
                     "patterns": [{ "include": "#comments" }]
@@ -193,7 +193,7 @@
                 { "include": "#comments" },
                 {
                     "comment": "Struct definition",
-                    "begin": "(?<=struct)",
+                    "begin": "(?<=\\bstruct)\\b",
                     "end": "(?={)",
                     "patterns": [
                         { "include": "#comments" },
@@ -301,7 +301,7 @@
                 { "include": "#types" },
                 {
                     "comment": "Function name",
-                    "begin": "(?<=fun)",
+                    "begin": "(?<=\\bfun)\\b",
                     "end": "(?=[<(])",
                     "patterns": [
                         { "include": "#comments" },
@@ -525,7 +525,7 @@
                 {
                     "comment": "Hex literal (still to find out)",
                     "name": "constant.numeric.hex.move",
-                    "match": "0x[_a-fA-F0-9]+(?:[iu](?:8|16|32|64|size))?"
+                    "match": "\\b0x[_a-fA-F0-9]+(?:[iu](?:8|16|32|64|size))?"
                 },
                 {
                     "comment": "Numeric literal",
@@ -596,7 +596,7 @@
                 { "include": "#types" },
                 {
                     "comment": "Function name",
-                    "begin": "(?<=define)",
+                    "begin": "(?<=\\bdefine)\\b",
                     "end": "(?=[(])",
                     "patterns": [
                         { "include": "#comments" },
@@ -624,7 +624,7 @@
             "patterns": [
                 {
                     "comment": "Spec target",
-                    "match": "\\b(module|schema|struct|fun)",
+                    "match": "\\b(module|schema|struct|fun)\\b",
                     "name": "storage.modifier.spec.target.move"
                 },
                 {
-- 
2.43.0


From 1d4d60d80065cbceef3374f575f6c6d00503e3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:46 +0000
Subject: [PATCH 27/32] fix: end the highlighting of a byte string at its
 closing quote

It went on to the last quote of the line.
---
 editors/code/syntaxes/move.tmLanguage.json | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/editors/code/syntaxes/move.tmLanguage.json b/editors/code/syntaxes/move.tmLanguage.json
index 4999351..b920ace 100644
--- a/editors/code/syntaxes/move.tmLanguage.json
+++ b/editors/code/syntaxes/move.tmLanguage.json
@@ -541,7 +541,7 @@
                 },
                 {
                     "comment": "ASCII Bytestring literal",
-                    "match": "\\b(\"(.*)\")",
+                    "match": "\\b(\"((?:[^\"\\\\]|\\\\.)*)\")",
                     "captures": {
                         "1": { "name": "string.quoted.double.raw.byte.move" }
                     }
-- 
2.43.0


From 035d5be54c6bb1ee0c0540e846e4afd7bd367c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:46 +0000
Subject: [PATCH 28/32] fix: highlight types and control keywords in arguments
 of calls

`if (` in an argument was highlighted as the call of a function `if`.
---
 editors/code/syntaxes/move.tmLanguage.json | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/editors/code/syntaxes/move.tmLanguage.json b/editors/code/syntaxes/move.tmLanguage.json
index b920ace..d84229c 100644
--- a/editors/code/syntaxes/move.tmLanguage.json
+++ b/editors/code/syntaxes/move.tmLanguage.json
@@ -385,6 +385,8 @@
                 { "include": "#module_access" },
                 { "include": "#move_copy" },
                 { "include": "#literals" },
+                { "include": "#types" },
+                { "include": "#control" },
                 { "include": "#fun_call" },
                 { "include": "#block" },
                 { "include": "#mut" },
-- 
2.43.0


From badc187ccbde0d1c1c3cf2c637e8c14c0b3a9fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:46 +0000
Subject: [PATCH 29/32] fix: highlight comments everywhere between tokens

A comment directly after `module`, `struct`, `fun` or `address` hid the name
that follows, and comments in `vector<...>`, before a spec block and after
`resource` were highlighted as code.
---
 editors/code/syntaxes/move.tmLanguage.json | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/editors/code/syntaxes/move.tmLanguage.json b/editors/code/syntaxes/move.tmLanguage.json
index d84229c..96f99e8 100644
--- a/editors/code/syntaxes/move.tmLanguage.json
+++ b/editors/code/syntaxes/move.tmLanguage.json
@@ -61,13 +61,13 @@
             },
             "end": "(?<=})",
             "patterns": [
-                { "include": "#comments" },
                 {
                     "comment": "Address literal",
                     "begin": "(?<=\\baddress)\\b",
                     "end": "(?={)",
                     "patterns": [{ "include": "#comments" }, { "include": "#address_literal" }]
                 },
+                { "include": "#comments" },
                 { "include": "#module" }
             ]
         },
@@ -81,7 +81,6 @@
                 "1": { "name": "storage.modifier.type.move" }
             },
             "patterns": [
-                { "include": "#comments" },
                 {
                     "comment": "Module name",
                     "begin": "(?<=\\bmodule)\\b",
@@ -89,6 +88,7 @@
                     "name": "entity.name.type.move",
                     "patterns": [{ "include": "#comments" }]
                 },
+                { "include": "#comments" },
                 {
                     "comment": "Module scope",
                     "begin": "{",
@@ -190,7 +190,6 @@
             },
             "end": "(?<=})",
             "patterns": [
-                { "include": "#comments" },
                 {
                     "comment": "Struct definition",
                     "begin": "(?<=\\bstruct)\\b",
@@ -215,6 +214,7 @@
                         { "include": "#type_param" }
                     ]
                 },
+                { "include": "#comments" },
                 {
                     "comment": "Struct body",
                     "begin": "{",
@@ -237,7 +237,7 @@
                 "1": { "name": "storage.modifier.type.move" }
             },
             "end": "(?<=})",
-            "patterns": [{ "include": "#struct" }]
+            "patterns": [{ "include": "#comments" }, { "include": "#struct" }]
         },
 
         "native_fun": {
@@ -296,7 +296,6 @@
             },
             "end": "(?=[;{])",
             "patterns": [
-                { "include": "#comments" },
                 { "include": "#module_access" },
                 { "include": "#types" },
                 {
@@ -311,6 +310,7 @@
                         }
                     ]
                 },
+                { "include": "#comments" },
                 { "include": "#type_param" },
                 {
                     "comment": "Parentheses",
@@ -493,7 +493,11 @@
                 "1": { "name": "support.type.vector.move" }
             },
             "end": ">",
-            "patterns": [{ "include": "#primitives" }, { "include": "#vector" }]
+            "patterns": [
+                { "include": "#comments" },
+                { "include": "#primitives" },
+                { "include": "#vector" }
+            ]
         },
 
         "primitives": {
@@ -593,7 +597,6 @@
             },
             "end": "(?=[{])",
             "patterns": [
-                { "include": "#comments" },
                 { "include": "#spec_types" },
                 { "include": "#types" },
                 {
@@ -607,7 +610,8 @@
                             "match": "\\b(\\w+)\\b"
                         }
                     ]
-                }
+                },
+                { "include": "#comments" }
             ]
         },
 
@@ -624,6 +628,7 @@
             },
             "end": "(?<=})",
             "patterns": [
+                { "include": "#comments" },
                 {
                     "comment": "Spec target",
                     "match": "\\b(module|schema|struct|fun)\\b",
-- 
2.43.0


From 759c8624629e1ce196a4d15521297bbe1c2b496c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:52 +0000
Subject: [PATCH 30/32] hooks: run the code generator on a given grammar
 (guarded by cfg vp_hooks)

---
 crates/generate_ast/src/main.rs     |  8 +++++++
 crates/generate_ast/src/vp_hooks.rs | 33 +++++++++++++++++++++++++++++
 2 files changed, 41 insertions(+)
 create mode 100644 crates/generate_ast/src/vp_hooks.rs

diff --git a/crates/generate_ast/src/main.rs b/crates/generate_ast/src/main.rs
index 80c6fe7..e185463 100644
--- a/crates/generate_ast/src/main.rs
+++ b/crates/generate_ast/src/main.rs
@@ -4,5 +4,13 @@ mod ast;
 mod generate_all;
 mod syntax_kind;
 mod utils;
+#[cfg(vp_hooks)]
+mod vp_hooks;
 
+#[cfg(not(vp_hooks))]
 fn main() {}
+
+#[cfg(vp_hooks)]
+fn main() {
+    vp_hooks::main()
+}
diff --git a/crates/generate_ast/src/vp_hooks.rs b/crates/generate_ast/src/vp_hooks.rs
new file mode 100644
index 0000000..9221348
--- /dev/null
+++ b/crates/generate_ast/src/vp_hooks.rs
@@ -0,0 +1,33 @@
+//! Runs the generator on a grammar or a list of kinds that is read from standard input, for the
+//! verification harness. Only compiled with `--cfg vp_hooks`.
+use std::io::Read;
+
+use crate::ast::{gen_nodes::generate_nodes, gen_tokens::generate_tokens, lower};
+use crate::syntax_kind::{generate_syntax_kinds, SymbolKindsSrc, KINDS_SRC};
+
+pub(crate) fn main() {
+    let mut input = String::new();
+    std::io::stdin().read_to_string(&mut input).unwrap();
+    match std::env::args().nth(1).as_deref() {
+        Some("nodes") => print!("{}", generate_nodes(KINDS_SRC, &lower(&input.parse().unwrap()))),
+        Some("tokens") => print!("{}", generate_tokens(&lower(&input.parse().unwrap()))),
+        _ => print!("{}", kinds(&input)),
+    }
+}
+
+/// Each line is the sort of a kind, its name, and for punctuation its text.
+fn kinds(input: &str) -> String {
+    let lines: Vec<Vec<&str>> = input.lines().map(|it| it.split(' ').collect()).collect();
+    let of = |sort: &str| -> Vec<&str> {
+        lines.iter().filter(|it| it[0] == sort).map(|it| it[1]).collect()
+    };
+    let punct: Vec<(&str, &str)> =
+        lines.iter().filter(|it| it[0] == "punct").map(|it| (it[2], it[1])).collect();
+    generate_syntax_kinds(SymbolKindsSrc {
+        punct: &punct,
+        keywords: &of("keyword"),
+        literals: &of("literal"),
+        tokens: &of("token"),
+        nodes: &of("node"),
+    })
+}
-- 
2.43.0


From 3050cc2413be86605f3bd76611f4dd9449218bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:30 +0000
Subject: [PATCH 31/32] fix: dispose of the trace channel of a stopped language
 client

---
 editors/code/src/components/ws.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/editors/code/src/components/ws.ts b/editors/code/src/components/ws.ts
index e4f172d..c363d70 100644
--- a/editors/code/src/components/ws.ts
+++ b/editors/code/src/components/ws.ts
@@ -116,6 +116,9 @@ export class ClientWorkspace {
         );
         this.languageClients.push(client);
         this.disposables.push(client.start());
+        // the client disposes only of the channels it makes itself
+        const traceChannel = client.clientOptions.traceOutputChannel;
+        if (traceChannel) this.disposables.push(traceChannel);
 
         this.disposables.push(activateTaskProvider(this.folder, dove.executable));
     }
-- 
2.43.0


From f537b941c28c709e06c43b440ec3ece50cf69151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:56 +0000
Subject: [PATCH 32/32] vp_hooks: parts can be replaced by stubs

---
 .../src/main_loop/vp_hooks.rs                 | 337 ++++++++++++------
 1 file changed, 235 insertions(+), 102 deletions(-)

diff --git a/crates/move_language_server/src/main_loop/vp_hooks.rs b/crates/move_language_server/src/main_loop/vp_hooks.rs
index 733a6b6..7da3817 100644
--- a/crates/move_language_server/src/main_loop/vp_hooks.rs
+++ b/crates/move_language_server/src/main_loop/vp_hooks.rs
@@ -1,134 +1,267 @@
 //! Access to internals for the verification harness. Only compiled with `--cfg vp_hooks`.
-use crossbeam_channel::{unbounded, Receiver, Sender};
-use lsp_server::Message;
-use lsp_types::{CompletionItem, Diagnostic, Range, TextEdit};
-use vfs::{FileId, VfsPath};
-
-use crate::config::Config;
-use crate::diagnostics::DiagnosticCollection;
-use crate::global_state::GlobalState;
-use crate::line_index::LineEndings;
-use crate::lsp_ext::CodeAction;
-use crate::thread_pool::TaskPool;
-use crate::Result;
-
-use super::{Event, Task};
-
-/// The normalised text, and whether it was reported as having DOS line ends.
-pub fn normalize_line_endings(text: String) -> (String, bool) {
-    let (text, endings) = LineEndings::normalize(text);
-    (text, endings == LineEndings::Dos)
+//!
+//! Each part can be replaced by a stub with `--cfg vp_hooks_stub="part"`, so that a part that no longer
+//! fits the internals does not keep the others from being used.
+pub use self::{edits::*, pool::*, server::*, store::*, text::*};
+
+#[cfg(not(vp_hooks_stub = "text"))]
+mod text {
+    use crate::line_index::LineEndings;
+
+    /// The normalised text, and whether it was reported as having DOS line ends.
+    pub fn normalize_line_endings(text: String) -> (String, bool) {
+        let (text, endings) = LineEndings::normalize(text);
+        (text, endings == LineEndings::Dos)
+    }
 }
 
-pub fn all_edits_are_disjoint(completion: &CompletionItem, additional: &[TextEdit]) -> bool {
-    crate::lsp_utils::all_edits_are_disjoint(completion, additional)
+#[cfg(vp_hooks_stub = "text")]
+mod text {
+    pub fn normalize_line_endings(_: String) -> (String, bool) {
+        unimplemented!()
+    }
 }
 
-#[derive(Default, Clone)]
-pub struct DiagnosticStore(DiagnosticCollection);
+#[cfg(not(vp_hooks_stub = "edits"))]
+mod edits {
+    use lsp_types::{CompletionItem, TextEdit};
 
-impl DiagnosticStore {
-    pub fn clear_check(&mut self) {
-        self.0.clear_check()
-    }
-    pub fn add_check(&mut self, file: FileId, diagnostic: Diagnostic, fixes: Vec<CodeAction>) {
-        self.0.add_check_diagnostic(file, diagnostic, fixes)
-    }
-    pub fn set_native(&mut self, file: FileId, diagnostics: Vec<Diagnostic>) {
-        self.0.set_native_diagnostics(file, diagnostics)
-    }
-    pub fn get(&self, file: FileId) -> Vec<Diagnostic> {
-        self.0.diagnostics_for(file).cloned().collect()
-    }
-    pub fn fixes(&self, file: FileId) -> Vec<(Range, String)> {
-        let fixes = self.0.check_fixes.get(&file).into_iter().flatten();
-        fixes.map(|fix| (fix.range, fix.action.title.clone())).collect()
-    }
-    pub fn take_changes(&mut self) -> Option<Vec<FileId>> {
-        self.0.take_changes().map(|files| files.into_iter().collect())
+    pub fn all_edits_are_disjoint(completion: &CompletionItem, additional: &[TextEdit]) -> bool {
+        crate::lsp_utils::all_edits_are_disjoint(completion, additional)
     }
 }
 
-pub struct Pool<T>(TaskPool<T>);
+#[cfg(vp_hooks_stub = "edits")]
+mod edits {
+    use lsp_types::{CompletionItem, TextEdit};
 
-impl<T: Send + 'static> Pool<T> {
-    pub fn new(sender: Sender<T>) -> Pool<T> {
-        Pool(TaskPool::new(sender))
-    }
-    pub fn spawn(&mut self, task: impl FnOnce() -> T + Send + 'static) {
-        self.0.spawn(task)
-    }
-    pub fn spawn_with_sender(&mut self, task: impl FnOnce(Sender<T>) + Send + 'static) {
-        self.0.spawn_with_sender(task)
+    pub fn all_edits_are_disjoint(_: &CompletionItem, _: &[TextEdit]) -> bool {
+        unimplemented!()
     }
 }
 
-/// The server without its event loop: the caller decides when messages and results of background
-/// computations are handled.
-pub struct Server {
-    state: GlobalState,
-    outbox: Receiver<Message>,
-    results: Vec<Task>,
-}
+#[cfg(not(vp_hooks_stub = "store"))]
+mod store {
+    use lsp_types::{Diagnostic, Range};
+    use vfs::FileId;
 
-impl Server {
-    pub fn new(config: Config) -> Server {
-        let (sender, outbox) = unbounded();
-        Server { state: GlobalState::new(sender, config), outbox, results: Vec::new() }
-    }
+    use crate::diagnostics::DiagnosticCollection;
+    use crate::lsp_ext::CodeAction;
 
-    pub fn handle_message(&mut self, message: Message) -> Result<()> {
-        let res = self.state.handle_event(Event::Lsp(message));
-        self.collect_results();
-        res
+    #[derive(Default, Clone)]
+    pub struct DiagnosticStore(DiagnosticCollection);
+
+    impl DiagnosticStore {
+        pub fn clear_check(&mut self) {
+            self.0.clear_check()
+        }
+        pub fn add_check(&mut self, file: FileId, diagnostic: Diagnostic, fixes: Vec<CodeAction>) {
+            self.0.add_check_diagnostic(file, diagnostic, fixes)
+        }
+        pub fn set_native(&mut self, file: FileId, diagnostics: Vec<Diagnostic>) {
+            self.0.set_native_diagnostics(file, diagnostics)
+        }
+        pub fn get(&self, file: FileId) -> Vec<Diagnostic> {
+            self.0.diagnostics_for(file).cloned().collect()
+        }
+        pub fn fixes(&self, file: FileId) -> Vec<(Range, String)> {
+            let fixes = self.0.check_fixes.get(&file).into_iter().flatten();
+            fixes.map(|fix| (fix.range, fix.action.title.clone())).collect()
+        }
+        pub fn take_changes(&mut self) -> Option<Vec<FileId>> {
+            self.0.take_changes().map(|files| files.into_iter().collect())
+        }
     }
+}
+
+#[cfg(vp_hooks_stub = "store")]
+mod store {
+    use lsp_types::{Diagnostic, Range};
+    use vfs::FileId;
+
+    use crate::lsp_ext::CodeAction;
+
+    #[derive(Default, Clone)]
+    pub struct DiagnosticStore;
 
-    /// Waits until all background computations have finished.
-    pub fn finish_computations(&mut self) {
-        self.state.task_pool.handle.join();
-        self.collect_results();
+    impl DiagnosticStore {
+        pub fn clear_check(&mut self) {
+            unimplemented!()
+        }
+        pub fn add_check(&mut self, _: FileId, _: Diagnostic, _: Vec<CodeAction>) {
+            unimplemented!()
+        }
+        pub fn set_native(&mut self, _: FileId, _: Vec<Diagnostic>) {
+            unimplemented!()
+        }
+        pub fn get(&self, _: FileId) -> Vec<Diagnostic> {
+            unimplemented!()
+        }
+        pub fn fixes(&self, _: FileId) -> Vec<(Range, String)> {
+            unimplemented!()
+        }
+        pub fn take_changes(&mut self) -> Option<Vec<FileId>> {
+            unimplemented!()
+        }
     }
+}
+
+#[cfg(not(vp_hooks_stub = "pool"))]
+mod pool {
+    use crossbeam_channel::Sender;
+
+    use crate::thread_pool::TaskPool;
+
+    pub struct Pool<T>(TaskPool<T>);
 
-    fn collect_results(&mut self) {
-        let results = self.state.task_pool.receiver.try_iter();
-        self.results.extend(results);
+    impl<T: Send + 'static> Pool<T> {
+        pub fn new(sender: Sender<T>) -> Pool<T> {
+            Pool(TaskPool::new(sender))
+        }
+        pub fn spawn(&mut self, task: impl FnOnce() -> T + Send + 'static) {
+            self.0.spawn(task)
+        }
+        pub fn spawn_with_sender(&mut self, task: impl FnOnce(Sender<T>) + Send + 'static) {
+            self.0.spawn_with_sender(task)
+        }
     }
+}
 
-    /// The number of results that have arrived but have not been handled.
-    pub fn n_results(&self) -> usize {
-        self.results.len()
+#[cfg(vp_hooks_stub = "pool")]
+mod pool {
+    use crossbeam_channel::Sender;
+
+    pub struct Pool<T>(std::marker::PhantomData<T>);
+
+    impl<T: Send + 'static> Pool<T> {
+        pub fn new(_: Sender<T>) -> Pool<T> {
+            unimplemented!()
+        }
+        pub fn spawn(&mut self, _: impl FnOnce() -> T + Send + 'static) {
+            unimplemented!()
+        }
+        pub fn spawn_with_sender(&mut self, _: impl FnOnce(Sender<T>) + Send + 'static) {
+            unimplemented!()
+        }
     }
+}
+
+#[cfg(not(vp_hooks_stub = "server"))]
+mod server {
+    use crossbeam_channel::{unbounded, Receiver};
+    use lsp_server::Message;
+    use vfs::VfsPath;
+
+    use crate::config::Config;
+    use crate::global_state::GlobalState;
+    use crate::main_loop::{Event, Task};
+    use crate::Result;
 
-    pub fn handle_result(&mut self, n: usize) -> Result<()> {
-        let task = self.results.remove(n);
-        let res = self.state.handle_event(Event::Task(task));
-        self.collect_results();
-        res
+    /// The server without its event loop: the caller decides when messages and results of background
+    /// computations are handled.
+    pub struct Server {
+        state: GlobalState,
+        outbox: Receiver<Message>,
+        results: Vec<Task>,
     }
 
-    /// Handles the `n`th result while the `more` are waiting to be handled, so that they are taken
-    /// in the same turn of the loop. The indices are those before the call.
-    pub fn handle_results(&mut self, n: usize, more: &[usize]) -> Result<()> {
-        let mut results: Vec<Option<Task>> = self.results.drain(..).map(Some).collect();
-        let task = results[n].take().unwrap();
-        for &n in more {
-            let task = results[n].take().unwrap();
-            self.state.task_pool.handle.spawn(move || task);
+    impl Server {
+        pub fn new(config: Config) -> Server {
+            let (sender, outbox) = unbounded();
+            Server { state: GlobalState::new(sender, config), outbox, results: Vec::new() }
+        }
+
+        pub fn handle_message(&mut self, message: Message) -> Result<()> {
+            let res = self.state.handle_event(Event::Lsp(message));
+            self.collect_results();
+            res
+        }
+
+        /// Waits until all background computations have finished.
+        pub fn finish_computations(&mut self) {
             self.state.task_pool.handle.join();
+            self.collect_results();
+        }
+
+        fn collect_results(&mut self) {
+            let results = self.state.task_pool.receiver.try_iter();
+            self.results.extend(results);
+        }
+
+        /// The number of results that have arrived but have not been handled.
+        pub fn n_results(&self) -> usize {
+            self.results.len()
+        }
+
+        pub fn handle_result(&mut self, n: usize) -> Result<()> {
+            let task = self.results.remove(n);
+            let res = self.state.handle_event(Event::Task(task));
+            self.collect_results();
+            res
+        }
+
+        /// Handles the `n`th result while the `more` are waiting to be handled, so that they are taken
+        /// in the same turn of the loop. The indices are those before the call.
+        pub fn handle_results(&mut self, n: usize, more: &[usize]) -> Result<()> {
+            let mut results: Vec<Option<Task>> = self.results.drain(..).map(Some).collect();
+            let task = results[n].take().unwrap();
+            for &n in more {
+                let task = results[n].take().unwrap();
+                self.state.task_pool.handle.spawn(move || task);
+                self.state.task_pool.handle.join();
+            }
+            self.results.extend(results.into_iter().flatten());
+            let res = self.state.handle_event(Event::Task(task));
+            self.collect_results();
+            res
+        }
+
+        /// The messages sent to the client since the last call.
+        pub fn take_sent(&mut self) -> Vec<Message> {
+            self.outbox.try_iter().collect()
         }
-        self.results.extend(results.into_iter().flatten());
-        let res = self.state.handle_event(Event::Task(task));
-        self.collect_results();
-        res
-    }
 
-    /// The messages sent to the client since the last call.
-    pub fn take_sent(&mut self) -> Vec<Message> {
-        self.outbox.try_iter().collect()
+        pub fn file_contents(&self, path: &VfsPath) -> Option<Vec<u8>> {
+            let vfs = &self.state.vfs.read().0;
+            vfs.file_id(path).map(|it| vfs.file_contents(it).to_vec())
+        }
     }
+}
+
+#[cfg(vp_hooks_stub = "server")]
+mod server {
+    use lsp_server::Message;
+    use vfs::VfsPath;
+
+    use crate::config::Config;
+    use crate::Result;
 
-    pub fn file_contents(&self, path: &VfsPath) -> Option<Vec<u8>> {
-        let vfs = &self.state.vfs.read().0;
-        vfs.file_id(path).map(|it| vfs.file_contents(it).to_vec())
+    pub struct Server;
+
+    impl Server {
+        pub fn new(_: Config) -> Server {
+            unimplemented!()
+        }
+        pub fn handle_message(&mut self, _: Message) -> Result<()> {
+            unimplemented!()
+        }
+        pub fn finish_computations(&mut self) {
+            unimplemented!()
+        }
+        pub fn n_results(&self) -> usize {
+            unimplemented!()
+        }
+        pub fn handle_result(&mut self, _: usize) -> Result<()> {
+            unimplemented!()
+        }
+        pub fn handle_results(&mut self, _: usize, _: &[usize]) -> Result<()> {
+            unimplemented!()
+        }
+        pub fn take_sent(&mut self) -> Vec<Message> {
+            unimplemented!()
+        }
+        pub fn file_contents(&self, _: &VfsPath) -> Option<Vec<u8>> {
+            unimplemented!()
+        }
     }
 }
-- 
2.43.0

