From 44669025f324badb590556e45e3b5aeca337f615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:44 +0000
Subject: [PATCH 01/18] fix: do not print debug output while parsing a hex
 character literal

The parser printed the parsed code (e.g. 'Ok(35)') on stdout for every
'\xNN' literal, which corrupted the output of the dump and check tools.
---
 src/ast/expression/character.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/ast/expression/character.rs b/src/ast/expression/character.rs
index 083a6c1..cd30d37 100644
--- a/src/ast/expression/character.rs
+++ b/src/ast/expression/character.rs
@@ -14,10 +14,7 @@ named!(character_content<CompleteStr, char>,
           code: take!(2) >>
           (u8::from_str_radix(code.0, 16))
         ),
-        |r: Result<u8, std::num::ParseIntError>| {
-            println!("{:?}", r);
-            r.map(|u| u as char)
-        }
+        |r: Result<u8, std::num::ParseIntError>| r.map(|u| u as char)
       )
     | anychar
   )
-- 
2.43.0


From ee799281de189602c876e3f32f9c595b54887696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:47 +0000
Subject: [PATCH 02/18] fix: accept a record update closed without white space

'{ model | a = 1}' was rejected although '{ a = 1}' is accepted; the
bundled examples/BrowserElement.elm could not be parsed because of it.
---
 src/ast/expression/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/expression/mod.rs b/src/ast/expression/mod.rs
index e62b93f..c176464 100644
--- a/src/ast/expression/mod.rs
+++ b/src/ast/expression/mod.rs
@@ -136,7 +136,7 @@ named_args!(record_update(indentation: u32) <CompleteStr, Expression>,
       ) >>
       (Expression::RecordUpdate(name.to_string(), pairs))
     ),
-    terminated!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE), char!('}'))
+    terminated!(call!(opt_spaces_or_new_lines_and_indent, indentation, IR::GTE), char!('}'))
   )
 );
 
-- 
2.43.0


From bf4fa8dc65d4bae80f6d70596a5f9613e455fe65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:49 +0000
Subject: [PATCH 03/18] fix: accept capitals and the digit 0 in type variables

Type variables such as 'toMsg' or 'a0' stopped at the first capital or
zero, so that the file was rejected.
---
 src/ast/type_/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/type_/mod.rs b/src/ast/type_/mod.rs
index f71ff90..3eb4fea 100644
--- a/src/ast/type_/mod.rs
+++ b/src/ast/type_/mod.rs
@@ -8,7 +8,7 @@ use ast::type_::core::Type;
 use nom::types::CompleteStr;
 
 named!(type_variable<CompleteStr, Type>,
-  map!(re_matches!(r#"^([a-z][a-z1-9_]*)"#), |c| Type::TypeVariable(c[0].to_string()))
+  map!(re_matches!(r#"^([a-z][a-zA-Z0-9_]*)"#), |c| Type::TypeVariable(c[0].to_string()))
 );
 
 named!(type_constant<CompleteStr, Type>,
-- 
2.43.0


From af9e7687fefd3fac3387ffe6628b51c511a4c978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:39 +0000
Subject: [PATCH 04/18] fix: treat brackets around a single expression as
 grouping

'( a )', and any bracketed expression with white space or a new line just
inside the brackets, was parsed as a tuple with one entry, which Elm does
not have, while '(a)' was parsed as 'a'. The contents of every tuple were
also parsed twice per level, which made the parser exponential in the
nesting depth.
---
 src/ast/expression/mod.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/ast/expression/mod.rs b/src/ast/expression/mod.rs
index c176464..0bf045c 100644
--- a/src/ast/expression/mod.rs
+++ b/src/ast/expression/mod.rs
@@ -41,7 +41,15 @@ named_args!(tuple(indentation: u32) <CompleteStr, Expression>,
         ),
         char!(')')
     ),
-    Expression::Tuple
+    |mut entries: Vec<Expression>| {
+        // Brackets around a single expression only group it
+        if entries.len() == 1 {
+            entries.remove(0)
+        }
+        else {
+            Expression::Tuple(entries)
+        }
+    }
   )
 );
 
@@ -140,14 +148,6 @@ named_args!(record_update(indentation: u32) <CompleteStr, Expression>,
   )
 );
 
-named_args!(parens(indentation: u32) <CompleteStr, Expression>,
-    delimited!(
-        char!('('),
-        call!(expression, indentation),
-        char!(')')
-    )
-);
-
 // Term
 
 named_args!(pub term(indentation: u32) <CompleteStr, Expression>,
@@ -159,7 +159,6 @@ named_args!(pub term(indentation: u32) <CompleteStr, Expression>,
     | float
     | integer
     | character
-    | call!(parens, indentation)
     | call!(list, indentation)
     | call!(tuple, indentation)
     | call!(record_update, indentation)
-- 
2.43.0


From ffd848b2dd3ca1c60ad92bcdd1ac67ff7244dbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:42 +0000
Subject: [PATCH 05/18] fix: treat brackets around a single type as grouping,
 allow functions in tuples

'(List a)' was parsed as a tuple type with one entry, and a tuple type
with a function type as an entry, '(a -> b, c)', was rejected. Each level
of bracketed function types was also parsed twice, which made the parser
exponential in the nesting depth.
---
 src/ast/type_/mod.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/ast/type_/mod.rs b/src/ast/type_/mod.rs
index 3eb4fea..3d098c9 100644
--- a/src/ast/type_/mod.rs
+++ b/src/ast/type_/mod.rs
@@ -31,11 +31,19 @@ named_args!(type_tuple(indentation: u32)<CompleteStr, Type>,
             char!(','),
             opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE))
         ),
-        call!(type_, indentation)
+        call!(type_annotation, indentation)
       ),
       terminated!(opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE)), char!(')'))
     ),
-    Type::TypeTuple
+    |mut entries: Vec<Type>| {
+        // Brackets around a single type only group it
+        if entries.len() == 1 {
+            entries.remove(0)
+        }
+        else {
+            Type::TypeTuple(entries)
+        }
+    }
   )
 );
 
@@ -96,11 +104,6 @@ named_args!(type_parameter(indentation: u32)<CompleteStr, Type>,
     | call!(type_record_constructor, indentation)
     | call!(type_record, indentation)
     | call!(type_tuple, indentation)
-    | delimited!(
-        preceded!(char!('('), opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE))),
-        call!(type_annotation, indentation),
-        terminated!(opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE)), char!(')'))
-      )
   )
 );
 
@@ -128,11 +131,6 @@ named_args!(pub type_(indentation: u32)<CompleteStr, Type>,
     | call!(type_record_constructor, indentation)
     | call!(type_record, indentation)
     | call!(type_tuple, indentation)
-    | delimited!(
-        preceded!(char!('('), opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE))),
-        call!(type_annotation, indentation),
-        terminated!(opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE)), char!(')'))
-      )
   )
 );
 
-- 
2.43.0


From a78cfeb3d03c7217b2ab7d263b127e38d165dc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:45 +0000
Subject: [PATCH 06/18] fix: accept escaped character literals

'\n', '\r', '\t', '\\', '\'' and '\"' were all rejected.
---
 src/ast/expression/character.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ast/expression/character.rs b/src/ast/expression/character.rs
index cd30d37..62fde0e 100644
--- a/src/ast/expression/character.rs
+++ b/src/ast/expression/character.rs
@@ -16,6 +16,15 @@ named!(character_content<CompleteStr, char>,
         ),
         |r: Result<u8, std::num::ParseIntError>| r.map(|u| u as char)
       )
+    | preceded!(
+        char!('\\'),
+        alt!(
+            value!('\n', char!('n'))
+          | value!('\r', char!('r'))
+          | value!('\t', char!('t'))
+          | one_of!("\\'\"")
+        )
+      )
     | anychar
   )
 );
-- 
2.43.0


From 61c71533ab2a21f726090ba064a4bbbeeb69a469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:47 +0000
Subject: [PATCH 07/18] fix: accept quotes inside triple quoted strings

A quote character anywhere inside """...""" made the parser reject the
file.
---
 src/ast/expression/string.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ast/expression/string.rs b/src/ast/expression/string.rs
index 904d5ad..3047ce3 100644
--- a/src/ast/expression/string.rs
+++ b/src/ast/expression/string.rs
@@ -16,7 +16,12 @@ named!(single_string<CompleteStr, String>,
 
 named!(multi_string<CompleteStr, String>,
   map!(
-    delimited!(tag!(r#"""""#), re_matches!(r#"^([^"]*)"#), tag!(r#"""""#)),
+    delimited!(
+      tag!(r#"""""#),
+      // Up to two quotes in a row, and any escaped quote, are part of the content
+      re_matches!(r#"^("{0,2}(\\(?s:.)|[^"\\]))*"#),
+      tag!(r#"""""#)
+    ),
     // There is a match above so we'll have a single entry in the vec
     |v| v[0].to_string()
   )
-- 
2.43.0


From ebbc894164d535b6970e840f76c689f4f2e7a01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:50 +0000
Subject: [PATCH 08/18] fix: accept imports that continue on indented lines

A multi line 'import A' / 'exposing' / '( b, c )', as elm-format writes
it, was rejected although module declarations accept this layout.
---
 src/ast/statement/import.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/ast/statement/import.rs b/src/ast/statement/import.rs
index ce02a48..75c5bb2 100644
--- a/src/ast/statement/import.rs
+++ b/src/ast/statement/import.rs
@@ -1,4 +1,4 @@
-use ast::helpers::{module_name, spaces, up_name};
+use ast::helpers::{module_name, spaces, spaces_or_new_lines_and_indent, up_name, IR};
 use ast::statement::core::Statement;
 use ast::statement::export::exports;
 
@@ -11,13 +11,21 @@ named!(pub import_statement<CompleteStr, Statement>,
     name: module_name >>
     alias: opt!(
       preceded!(
-        delimited!(spaces, tag!("as"), spaces),
+        delimited!(
+          call!(spaces_or_new_lines_and_indent, 0, IR::GT),
+          tag!("as"),
+          call!(spaces_or_new_lines_and_indent, 0, IR::GT)
+        ),
         up_name
       )
     ) >>
     exposing: opt!(
       preceded!(
-        delimited!(spaces, tag!("exposing"), spaces),
+        delimited!(
+          call!(spaces_or_new_lines_and_indent, 0, IR::GT),
+          tag!("exposing"),
+          call!(spaces_or_new_lines_and_indent, 0, IR::GT)
+        ),
         exports
       )
     ) >>
-- 
2.43.0


From 6ca293e820cf85a71dc246009e1f0390a610ba2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:22 +0000
Subject: [PATCH 09/18] Add a parse entry point for the verification harness,
 behind --cfg elm_parser_verif

---
 src/lib.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index e5c7d39..62c7ba5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3,3 +3,20 @@ extern crate nom;
 extern crate regex;
 
 mod ast;
+
+/// Entry point for the verification harness, which needs the private parser. Only compiled with
+/// `--cfg elm_parser_verif`.
+#[cfg(elm_parser_verif)]
+pub mod verif {
+    use ast::file;
+    use nom::types::CompleteStr;
+
+    /// Parses a file and returns the text left over and the AST as `elm-parser-dump` shows it
+    /// (but on one line), or the error.
+    pub fn parse(source: &str) -> Result<(String, String), String> {
+        match file(CompleteStr(source)) {
+            Ok((rest, ast)) => Ok((rest.to_string(), format!("{:?}", ast))),
+            Err(error) => Err(format!("{:?}", error)),
+        }
+    }
+}
-- 
2.43.0


From 8a14971076c317c0d6fdec320d6a49cd01bc8736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:09 +0000
Subject: [PATCH 10/18] fix: reject reserved words as type variables

---
 src/ast/type_/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ast/type_/mod.rs b/src/ast/type_/mod.rs
index 3d098c9..65c8d15 100644
--- a/src/ast/type_/mod.rs
+++ b/src/ast/type_/mod.rs
@@ -8,7 +8,17 @@ use ast::type_::core::Type;
 use nom::types::CompleteStr;
 
 named!(type_variable<CompleteStr, Type>,
-  map!(re_matches!(r#"^([a-z][a-zA-Z0-9_]*)"#), |c| Type::TypeVariable(c[0].to_string()))
+  map_res!(
+    lo_name,
+    |name: String| {
+        if name == "_" {
+            Err("Not a type variable: ".to_string() + &name)
+        }
+        else {
+            Ok(Type::TypeVariable(name))
+        }
+    }
+  )
 );
 
 named!(type_constant<CompleteStr, Type>,
-- 
2.43.0


From cf2ef20007d70ae2204c4549e6aad3613edb4bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:09 +0000
Subject: [PATCH 11/18] fix: do not parse a let binding twice when it is
 malformed

---
 src/ast/expression/mod.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/ast/expression/mod.rs b/src/ast/expression/mod.rs
index 0bf045c..752a263 100644
--- a/src/ast/expression/mod.rs
+++ b/src/ast/expression/mod.rs
@@ -228,12 +228,26 @@ named_args!(let_binding(indentation: u32) <CompleteStr, LetEntry>,
    )
 );
 
+// The start of a let binding. Anything that starts like this can only be a binding, so there is no
+// need to parse it again as a function if the rest of the binding does not parse
+named_args!(let_binding_start(indentation: u32) <CompleteStr, char>,
+   do_parse!(
+       call!(let_binding_target, indentation) >>
+       call!(spaces_or_new_lines_and_indent, indentation, IR::GTE) >>
+       equals: char!('=') >>
+       (equals)
+   )
+);
+
 named_args!(let_bindings(indentation: u32) <CompleteStr, Vec<LetEntry>>,
     separated_nonempty_list!(
         call!(spaces_or_new_lines_and_indent, indentation, IR::EQ),
         alt!(
             call!(let_binding, indentation)
-          | map!(call!(function, indentation), LetEntry::LetFunction)
+          | preceded!(
+                not!(call!(let_binding_start, indentation)),
+                map!(call!(function, indentation), LetEntry::LetFunction)
+            )
         )
     )
 );
-- 
2.43.0


From 15e7df1c9147add616c05c46b7898eac85ebe612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:25 +0000
Subject: [PATCH 12/18] fix: do not read the branches of an outer case as those
 of a one line case

---
 src/ast/expression/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ast/expression/mod.rs b/src/ast/expression/mod.rs
index 752a263..d73382c 100644
--- a/src/ast/expression/mod.rs
+++ b/src/ast/expression/mod.rs
@@ -20,7 +20,8 @@ use ast::expression::integer::integer;
 use ast::expression::string::string;
 use ast::expression::variable::variable;
 use ast::helpers::{
-    lo_name, operator, opt_spaces_or_new_lines_and_indent, spaces_or_new_lines_and_indent, IR,
+    lo_name, operator, opt_spaces_or_new_lines_and_indent, spaces0, spaces_or_new_lines_and_indent,
+    IR,
 };
 
 // use nom;
@@ -292,8 +293,14 @@ named_args!(case_expression(indentation: u32) <CompleteStr, Expression>,
        expression: call!(expression, indentation) >>
        call!(spaces_or_new_lines_and_indent, indentation, IR::GTE) >>
        tag!("of") >>
+       on_new_line: map!(peek!(pair!(spaces0, opt!(alt!(tag!("\n") | tag!("--"))))), |v| v.1.is_some()) >>
        new_indent: call!(spaces_or_new_lines_and_indent, indentation, IR::GTE) >>
-       cases: call!(cases, new_indent) >>
+       cases: alt!(
+           cond_reduce!(on_new_line, call!(cases, new_indent))
+           // There is no indentation to line further cases up with when the first one does not
+           // start a line, so any which follow belong to an outer case expression
+         | cond_reduce!(!on_new_line, map!(call!(case, new_indent), |case| vec![case]))
+       ) >>
        (Expression::Case(Box::new(expression), cases))
    )
 );
-- 
2.43.0


From 0fd986ed0a202dac4dbf8a714623ec015a6c29ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:19 +0000
Subject: [PATCH 13/18] fix: let entries and case branches each need a line of
 their own

---
 src/ast/helpers.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ast/helpers.rs b/src/ast/helpers.rs
index 59c898d..625cdd8 100644
--- a/src/ast/helpers.rs
+++ b/src/ast/helpers.rs
@@ -115,10 +115,11 @@ named_args!(pub spaces_or_new_lines_and_indent(indentation: u32, ir: IR) <Comple
         let has_new_line = v.iter().any(|ref subv| subv.iter().any(|(ref content, _)| *content == SpacesContent::NewLineAndSpaces));
 
         // Only apply test if there have been new lines - otherwise we've just had some spaces or
-        // comments and there isn't any new indentation to test
+        // comments and there isn't any new indentation to test. Entries which have to line up each
+        // need a line of their own though
         match ir {
             IR::EQ => {
-                if !has_new_line || new_indent == indentation {
+                if has_new_line && new_indent == indentation {
                     Ok(new_indent)
                 }
                 else {
-- 
2.43.0


From 0c1214b3290af54cc7616236c91a547d5ed8d6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:32 +0000
Subject: [PATCH 14/18] fix: reject a sign in a hexadecimal character literal

---
 src/ast/expression/character.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/expression/character.rs b/src/ast/expression/character.rs
index 62fde0e..aca68d8 100644
--- a/src/ast/expression/character.rs
+++ b/src/ast/expression/character.rs
@@ -11,7 +11,7 @@ named!(character_content<CompleteStr, char>,
       map_res!(
         do_parse!(
           tag!("\\x") >>
-          code: take!(2) >>
+          code: take_while_m_n!(2, 2, |c: char| c.is_digit(16)) >>
           (u8::from_str_radix(code.0, 16))
         ),
         |r: Result<u8, std::num::ParseIntError>| r.map(|u| u as char)
-- 
2.43.0


From 5de8ed2bcb541a3cda449b9493a16af83011d759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:42 +0000
Subject: [PATCH 15/18] fix: do not read a block comment that begins with a
 dash as a record

---
 src/ast/expression/mod.rs | 10 +++++-----
 src/ast/helpers.rs        |  5 +++++
 src/ast/type_/mod.rs      |  6 +++---
 3 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/ast/expression/mod.rs b/src/ast/expression/mod.rs
index d73382c..d0ac2ad 100644
--- a/src/ast/expression/mod.rs
+++ b/src/ast/expression/mod.rs
@@ -20,8 +20,8 @@ use ast::expression::integer::integer;
 use ast::expression::string::string;
 use ast::expression::variable::variable;
 use ast::helpers::{
-    lo_name, operator, opt_spaces_or_new_lines_and_indent, spaces0, spaces_or_new_lines_and_indent,
-    IR,
+    lo_name, open_brace, operator, opt_spaces_or_new_lines_and_indent, spaces0,
+    spaces_or_new_lines_and_indent, IR,
 };
 
 // use nom;
@@ -78,7 +78,7 @@ named_args!(list(indentation: u32) <CompleteStr, Expression>,
 named_args!(record(indentation: u32) <CompleteStr, Expression>,
   map!(
     delimited!(
-        preceded!(char!('{'), opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE))),
+        preceded!(open_brace, opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE))),
         separated_list!(
             delimited!(
                 opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE)),
@@ -104,7 +104,7 @@ named_args!(record(indentation: u32) <CompleteStr, Expression>,
 named_args!(simplified_record(indentation: u32) <CompleteStr, Expression>,
   map!(
     delimited!(
-        char!('{'),
+        open_brace,
         separated_list!(
             char!(','),
             do_parse!(
@@ -122,7 +122,7 @@ named_args!(simplified_record(indentation: u32) <CompleteStr, Expression>,
 
 named_args!(record_update(indentation: u32) <CompleteStr, Expression>,
   delimited!(
-    preceded!(char!('{'), call!(opt_spaces_or_new_lines_and_indent, indentation, IR::GTE)),
+    preceded!(open_brace, call!(opt_spaces_or_new_lines_and_indent, indentation, IR::GTE)),
     do_parse!(
       name: lo_name >>
       call!(opt_spaces_or_new_lines_and_indent, indentation, IR::GTE) >>
diff --git a/src/ast/helpers.rs b/src/ast/helpers.rs
index 625cdd8..d297c88 100644
--- a/src/ast/helpers.rs
+++ b/src/ast/helpers.rs
@@ -79,6 +79,11 @@ named!(single_line_comment<CompleteStr, String>,
   map!(preceded!(tag!("--"), re_matches!(r"^(.*)")), |v| v[0].to_string())
 );
 
+// The start of a record. With a dash behind it the brace starts a block comment instead
+named!(pub open_brace<CompleteStr, char>,
+  terminated!(char!('{'), not!(char!('-')))
+);
+
 // IndentRelation
 pub enum IR {
     EQ,
diff --git a/src/ast/type_/mod.rs b/src/ast/type_/mod.rs
index 65c8d15..bba394a 100644
--- a/src/ast/type_/mod.rs
+++ b/src/ast/type_/mod.rs
@@ -1,7 +1,7 @@
 pub mod core;
 
 use ast::helpers::{
-    lo_name, spaces_and_newlines, spaces_or_new_lines_and_indent, up_name, Name, IR,
+    lo_name, open_brace, spaces_and_newlines, spaces_or_new_lines_and_indent, up_name, Name, IR,
 };
 use ast::type_::core::Type;
 
@@ -81,7 +81,7 @@ named_args!(type_record_pairs(indentation: u32)<CompleteStr, Vec<(Name, Type)>>,
 
 named_args!(type_record_constructor(indentation: u32)<CompleteStr, Type>,
   delimited!(
-    char!('{'),
+    open_brace,
     do_parse!(
       call!(spaces_or_new_lines_and_indent, indentation, IR::GTE) >>
       var: type_variable >>
@@ -98,7 +98,7 @@ named_args!(type_record_constructor(indentation: u32)<CompleteStr, Type>,
 
 named_args!(type_record(indentation: u32)<CompleteStr, Type>,
   delimited!(
-    preceded!(char!('{'), opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE))),
+    preceded!(open_brace, opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE))),
     map!(
       call!(type_record_pairs, indentation),
       Type::TypeRecord
-- 
2.43.0


From 178b72aa13e4934d0cd0c44e6a5992169e73b2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:09 +0000
Subject: [PATCH 16/18] fix: reject record updates and extensible records
 without fields

---
 src/ast/expression/mod.rs | 2 +-
 src/ast/type_/mod.rs      | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ast/expression/mod.rs b/src/ast/expression/mod.rs
index d0ac2ad..f2280de 100644
--- a/src/ast/expression/mod.rs
+++ b/src/ast/expression/mod.rs
@@ -128,7 +128,7 @@ named_args!(record_update(indentation: u32) <CompleteStr, Expression>,
       call!(opt_spaces_or_new_lines_and_indent, indentation, IR::GTE) >>
       char!('|') >>
       multispace0 >>
-      pairs: separated_list!(
+      pairs: separated_nonempty_list!(
         delimited!(
             call!(opt_spaces_or_new_lines_and_indent, indentation, IR::GTE),
             char!(','),
diff --git a/src/ast/type_/mod.rs b/src/ast/type_/mod.rs
index bba394a..321c004 100644
--- a/src/ast/type_/mod.rs
+++ b/src/ast/type_/mod.rs
@@ -88,6 +88,8 @@ named_args!(type_record_constructor(indentation: u32)<CompleteStr, Type>,
       call!(spaces_or_new_lines_and_indent, indentation, IR::GTE) >>
       char!('|') >>
       call!(spaces_or_new_lines_and_indent, indentation, IR::GTE) >>
+      // There is no point in extending a record with nothing
+      peek!(lo_name) >>
       record_pairs: call!(type_record_pairs, indentation) >>
       call!(spaces_or_new_lines_and_indent, indentation, IR::GTE) >>
       (Type::TypeRecordConstructor(Box::new(var), record_pairs))
-- 
2.43.0


From 2e589cd0c5c476c932b9c2d27c37482cf01d2bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:52 +0000
Subject: [PATCH 17/18] fix: reject type declarations headed by anything but a
 name and variables

---
 src/ast/statement/type_declaration.rs | 32 ++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/ast/statement/type_declaration.rs b/src/ast/statement/type_declaration.rs
index fba98ff..7cc116d 100644
--- a/src/ast/statement/type_declaration.rs
+++ b/src/ast/statement/type_declaration.rs
@@ -1,16 +1,42 @@
 use ast::helpers::{spaces, spaces_or_new_lines_and_indent, IR};
 use ast::statement::core::Statement;
-use ast::type_::{type_, type_annotation, type_constructor};
+use ast::type_::core::Type;
+use ast::type_::{type_annotation, type_constructor};
 
 use nom::types::CompleteStr;
 
+// What a declaration defines: a name, without a path, and type variables
+named_args!(type_head(indentation: u32)<CompleteStr, Type>,
+  map_res!(
+    call!(type_constructor, indentation),
+    |head: Type| {
+        let valid = match head {
+            Type::TypeConstructor(ref name, ref args) => {
+                name.len() == 1 && args.iter().all(|arg| match arg {
+                    Type::TypeVariable(_) => true,
+                    _ => false,
+                })
+            }
+            _ => false,
+        };
+
+        if valid {
+            Ok(head)
+        }
+        else {
+            Err("Expected a name and type variables".to_string())
+        }
+    }
+  )
+);
+
 named!(pub type_alias_declaration<CompleteStr, Statement>,
   do_parse!(
     tag!("type") >>
     spaces >>
     tag!("alias") >>
     spaces >>
-    name: call!(type_, 0) >>
+    name: call!(type_head, 0) >>
     spaces >>
     char!('=') >>
     call!(spaces_or_new_lines_and_indent, 1, IR::GTE) >>
@@ -23,7 +49,7 @@ named_args!(pub type_declaration(indentation: u32)<CompleteStr, Statement>,
   do_parse!(
     tag!("type") >>
     spaces >>
-    name: call!(type_, indentation) >>
+    name: call!(type_head, indentation) >>
     new_indent: call!(spaces_or_new_lines_and_indent, 0, IR::GT) >>
     char!('=') >>
     call!(spaces_or_new_lines_and_indent, new_indent, IR::GTE) >>
-- 
2.43.0


From 22109a1435c85d37001c30baa188167288f5a502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:14 +0000
Subject: [PATCH 18/18] fix: do not end with success after failing to read a
 directory

---
 src/dump.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dump.rs b/src/dump.rs
index dc4fb2e..525f7c1 100644
--- a/src/dump.rs
+++ b/src/dump.rs
@@ -81,7 +81,7 @@ fn main() {
             let attr = std::fs::metadata(path).expect("file not found");
 
             if attr.is_dir() {
-                dump_directory(path, quiet);
+                dump_directory(path, quiet).expect("something went wrong reading the directory");
             } else {
                 dump_file(path, quiet);
             }
-- 
2.43.0

