From 31f846b561a078a44c4b0c28f211c106cb35c4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 01/12] fix: do not overflow the stack on a long run of unary
 operators

A value such as ----...1 recursed once per sign without a bound, so a few thousand signs aborted the process.
---
 src/parse/parser.rs | 47 +++++++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 2b223a7..d4b7af1 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -661,24 +661,37 @@ fn parse_unary_op(
         (next == Some('-') && op == UnaryOp::Minus) || (next == Some('+') && op == UnaryOp::Plus)
     );
 
-    let line = stream.line();
-    let col = stream.col();
+    // Collect any further signs in a loop: recursing for each one could overflow the stack.
+    let mut ops = vec![(op, stream.line(), stream.col())];
+    loop {
+        let op = match stream.peek() {
+            Some('+') => UnaryOp::Plus,
+            Some('-') => UnaryOp::Minus,
+            Some(_) => break,
+            None => return parse_err(stream.file(), UnexpectedEnd(stream.line())),
+        };
+        let _ = stream.next();
+        ops.push((op, stream.line(), stream.col()));
+    }
 
-    let res = match stream.peek() {
-        Some(_) => parse_value(
-            &mut stream,
-            obj_pairs,
-            &mut globals,
-            &mut included,
-            line,
-            col,
-            depth + 1,
-            cur_brace,
-            false,
-        )?,
-        None => return parse_err(stream.file(), UnexpectedEnd(line)),
-    };
-    unary_op_on_value(stream, res, op, line, col)
+    let (line, col) = (stream.line(), stream.col());
+    let mut res = parse_value(
+        &mut stream,
+        obj_pairs,
+        &mut globals,
+        &mut included,
+        line,
+        col,
+        depth + 1,
+        cur_brace,
+        false,
+    )?;
+
+    // The sign closest to the value applies first.
+    for (op, line, col) in ops.into_iter().rev() {
+        res = unary_op_on_value(stream, res, op, line, col)?;
+    }
+    Ok(res)
 }
 
 // Gets the next numeric (either Int or Frac) in the character stream.
-- 
2.43.0


From 481b963d4e80bc888f82a8d541508f00a715d47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 02/12] fix: bound the recursion of dot notation

A chain such as a.a.a.a...0 on an Arr recursed once per dot without a bound and could overflow the stack.
---
 src/parse/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index d4b7af1..62ce8ed 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -871,6 +871,12 @@ fn parse_variable(
     };
 
     if dot {
+        // Dot notation recurses once per dot, even where it indexes the same container again and
+        // again. Allow it on top of the nesting of containers, but not without a limit.
+        if depth > 2 * MAX_DEPTH {
+            return parse_err(stream.file(), MaxDepth(stream.line(), stream.col()));
+        }
+
         value = match value {
             Value::Arr(arr) => {
                 let (line, col) = (stream.line(), stream.col());
-- 
2.43.0


From ed4710ba6e61c8bae8967127fd262cc0b6e7d094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 03/12] fix: count nested includes towards the maximum
 recursion depth

The depth restarted at 1 in every included file, so a long chain of includes overflowed the stack instead of reporting that the maximum recursion depth was exceeded.
---
 src/parse/parser.rs | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 62ce8ed..a91166b 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -40,25 +40,33 @@ lazy_static! {
 /// Parses given file as an `Obj`.
 pub fn parse_obj_file(path: &str) -> ParseResult<Obj> {
     let stream = CharStream::from_file(path)?;
-    parse_obj_stream(stream, &mut (Default::default(), Default::default()))
+    parse_obj_stream(stream, &mut (Default::default(), Default::default()), 1)
 }
 
 // Parses given file as an `Obj`, keeping track of already encountered includes.
-fn parse_obj_file_includes(path: &str, included: &mut IncludedMap) -> ParseResult<Obj> {
+fn parse_obj_file_includes(
+    path: &str,
+    included: &mut IncludedMap,
+    depth: usize,
+) -> ParseResult<Obj> {
     let stream = CharStream::from_file(path)?;
-    parse_obj_stream(stream, included)
+    parse_obj_stream(stream, included, depth)
 }
 
 /// Parses given &str as an `Obj`.
 pub fn parse_obj_str(contents: &str) -> ParseResult<Obj> {
     let contents = String::from(contents);
     let stream = CharStream::from_string(contents)?;
-    parse_obj_stream(stream, &mut (Default::default(), Default::default()))
+    parse_obj_stream(stream, &mut (Default::default(), Default::default()), 1)
 }
 
 // Parses an Obj given a character stream.
 #[inline]
-fn parse_obj_stream(mut stream: CharStream, mut included: &mut IncludedMap) -> ParseResult<Obj> {
+fn parse_obj_stream(
+    mut stream: CharStream,
+    mut included: &mut IncludedMap,
+    depth: usize,
+) -> ParseResult<Obj> {
     let mut obj_pairs: Pairs = Default::default();
 
     // Go to the first non-whitespace character, or return if there is none.
@@ -76,7 +84,7 @@ fn parse_obj_stream(mut stream: CharStream, mut included: &mut IncludedMap) -> P
         &mut globals,
         &mut included,
         &mut parent,
-        1,
+        depth,
         None,
     )? {}
 
@@ -229,7 +237,7 @@ fn parse_field_value_pair(
 }
 
 // Parses an Arr given a file.
-fn parse_arr_file(path: &str, mut included: &mut IncludedMap) -> ParseResult<Arr> {
+fn parse_arr_file(path: &str, mut included: &mut IncludedMap, depth: usize) -> ParseResult<Arr> {
     let mut stream = CharStream::from_file(path)?;
 
     let obj_pairs: Pairs = Default::default();
@@ -254,7 +262,7 @@ fn parse_arr_file(path: &str, mut included: &mut IncludedMap) -> ParseResult<Arr
             &mut included,
             value_line,
             value_col,
-            1,
+            depth,
             None,
             true,
         )?;
@@ -372,7 +380,7 @@ fn parse_arr(
 }
 
 // Parses a Tup given a file.
-fn parse_tup_file(path: &str, mut included: &mut IncludedMap) -> ParseResult<Tup> {
+fn parse_tup_file(path: &str, mut included: &mut IncludedMap, depth: usize) -> ParseResult<Tup> {
     let mut stream = CharStream::from_file(path)?;
 
     let mut vec: Vec<Value> = Default::default();
@@ -394,7 +402,7 @@ fn parse_tup_file(path: &str, mut included: &mut IncludedMap) -> ParseResult<Tup
             &mut included,
             value_line,
             value_col,
-            1,
+            depth,
             None,
             true,
         )?;
@@ -1156,10 +1164,10 @@ fn parse_include(
         value.clone()
     } else {
         let value: Value = match include_type {
-            IncludeType::Obj => parse_obj_file_includes(path_str, included)?.into(),
+            IncludeType::Obj => parse_obj_file_includes(path_str, included, depth)?.into(),
             IncludeType::Str => parse_str_file(path_str)?.into(),
-            IncludeType::Arr => parse_arr_file(path_str, included)?.into(),
-            IncludeType::Tup => parse_tup_file(path_str, included)?.into(),
+            IncludeType::Arr => parse_arr_file(path_str, included, depth)?.into(),
+            IncludeType::Tup => parse_tup_file(path_str, included, depth)?.into(),
         };
         // Use full path as included key.
         included.0.insert(full_path_str.into(), value.clone());
-- 
2.43.0


From bcdc3f5146d0dbbcef41139fd07284e210804f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 04/12] fix: do not reuse an include that was read as another
 type

Already processed includes were found by path only, so <Str "f"> followed by <Arr "f"> gave the Str for both.
---
 src/parse/parser.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index a91166b..fcf01fa 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -27,7 +27,7 @@ use std::{
 
 type Pairs = Vec<Pair>;
 type GlobalMap = HashMap<String, Value>;
-type IncludedMap = (HashMap<String, Value>, HashSet<String>);
+type IncludedMap = (HashMap<(IncludeType, String), Value>, HashSet<String>);
 
 lazy_static! {
     // Objs that signify that an include keyword was encountered.
@@ -1015,6 +1015,15 @@ fn parse_str(stream: &mut CharStream) -> ParseResult<Value> {
     Ok(s.into())
 }
 
+// The type a file is included as.
+#[derive(Clone, Copy, Eq, Hash, PartialEq)]
+enum IncludeType {
+    Obj,
+    Str,
+    Arr,
+    Tup,
+}
+
 fn parse_include(
     mut stream: &mut CharStream,
     obj_pairs: &[Pair],
@@ -1022,13 +1031,6 @@ fn parse_include(
     mut included: &mut IncludedMap,
     depth: usize,
 ) -> ParseResult<Value> {
-    enum IncludeType {
-        Obj,
-        Str,
-        Arr,
-        Tup,
-    }
-
     // Check depth.
     if depth > MAX_DEPTH {
         return parse_err(stream.file(), MaxDepth(stream.line(), stream.col()));
@@ -1159,8 +1161,10 @@ fn parse_include(
     }
 
     // Get either the tracked value or parse it if it's our first time seeing the include.
-    let value = if included.0.contains_key(full_path_str) {
-        let value = &included.0[full_path_str];
+    // The same file may be included as different types.
+    let key = (include_type, String::from(full_path_str));
+    let value = if included.0.contains_key(&key) {
+        let value = &included.0[&key];
         value.clone()
     } else {
         let value: Value = match include_type {
@@ -1169,8 +1173,8 @@ fn parse_include(
             IncludeType::Arr => parse_arr_file(path_str, included, depth)?.into(),
             IncludeType::Tup => parse_tup_file(path_str, included, depth)?.into(),
         };
-        // Use full path as included key.
-        included.0.insert(full_path_str.into(), value.clone());
+        // Use type and full path as included key.
+        included.0.insert(key, value.clone());
         value
     };
 
-- 
2.43.0


From 0d72dbdfbbeb6dabcde569a82e3f25a51a99e07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 05/12] fix: make dot notation find exactly the fields of the
 object

Inherited fields could not be reached with dot notation, and obj.null, obj.true, obj.Str etc. gave the keyword's value although no such field exists.
---
 src/parse/parser.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index fcf01fa..1b2af52 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -579,6 +579,7 @@ fn parse_value(
         ch if is_numeric_char(ch) => parse_numeric(&mut stream, line, col)?,
         ch if Obj::is_valid_field_char(ch, true) || ch == '@' => parse_variable(
             &mut stream,
+            None,
             obj_pairs,
             globals,
             included,
@@ -788,9 +789,11 @@ fn parse_numeric(stream: &mut CharStream, line: usize, col: usize) -> ParseResul
     }
 }
 
-// Parses a variable name and gets a value from the corresponding variable.
+// Parses a variable name and gets a value from the corresponding variable. If `source` is given, the
+// name follows a dot and is that of a field of `source`.
 fn parse_variable(
     mut stream: &mut CharStream,
+    source: Option<&Obj>,
     obj_pairs: &[Pair],
     mut globals: &mut GlobalMap,
     mut included: &mut IncludedMap,
@@ -845,6 +848,15 @@ fn parse_variable(
     }
 
     let mut value = match var.as_str() {
+        // Field of an object, its own or inherited. Keywords are not special here.
+        var if source.is_some() => match source.and_then(|obj| obj.get(var)) {
+            Some(value) => value,
+            None => {
+                let var = String::from(var);
+                return parse_err(stream.file(), VariableNotFound(var, line, col));
+            }
+        },
+
         "null" => Value::Null,
         "true" => Value::Bool(true),
         "false" => Value::Bool(false),
@@ -953,6 +965,7 @@ fn parse_variable(
 
                 parse_variable(
                     &mut stream,
+                    Some(&obj),
                     obj.pairs_ref(),
                     globals,
                     included,
-- 
2.43.0


From a22898f688391afac4a06ad7cf5ac1f50d1c3a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 06/12] fix: reject empty field names and '^' names in
 Obj::from_pairs

Obj::is_valid_field accepted them against its documentation; an Obj built with such a field could not be written and read back.
---
 src/obj.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/obj.rs b/src/obj.rs
index f689bb4..bfc9970 100644
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -262,6 +262,11 @@ impl Obj {
     /// The first character must be alphabetic or '_'. Subsequent characters are allowed to be
     /// alphabetic, digits, or '_'.
     pub fn is_valid_field(field: &str) -> bool {
+        // '^' is only valid as the field that denotes the parent, which is not a regular field.
+        if field.is_empty() || field.starts_with('^') {
+            return false;
+        }
+
         let mut first = true;
 
         for ch in field.chars() {
-- 
2.43.0


From 8b9acb9eb742ac6d2d6b7977fde5e96df52c6d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 07/12] fix: reject '^' in the name of a global

A global such as @^ or @^x was accepted, but it could never be referenced.
---
 src/parse/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 1b2af52..b38144f 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -519,7 +519,7 @@ fn parse_field(
             parse_err(stream.file(), InvalidFieldName(field.clone(), line, col))
         }
         "^" => Ok((field.clone(), FieldType::Parent)),
-        bad if bad.starts_with('^') => {
+        bad if bad.starts_with('^') || bad.starts_with("@^") => {
             parse_err(stream.file(), InvalidFieldName(field.clone(), line, col))
         }
         _ => Ok((
-- 
2.43.0


From 2f2e1300cdbf11872b5a310f2811d51aaf58b7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 08/12] fix: do not panic when the path of the including file
 cannot be resolved

This happened for a file that was removed meanwhile, a pipe such as /dev/stdin, or a directory whose name is not UTF-8.
---
 src/parse/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index b38144f..9c0d5e3 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -1163,7 +1163,10 @@ fn parse_include(
 
     // Prevent cyclic includes by temporarily storing the current file path.
     let storing = if let Some(file) = stream.file() {
-        let full_file = String::from(Path::new(&file).canonicalize().unwrap().to_str().unwrap());
+        let full_file = match Path::new(&file).canonicalize() {
+            Ok(ref path) if path.to_str().is_some() => String::from(path.to_str().unwrap()),
+            _ => return parse_err(stream.file(), InvalidIncludePath(include_file, line, col)),
+        };
         included.1.insert(full_file.clone());
         Some(full_file)
     } else {
-- 
2.43.0


From 3cd86629132961f246349bbd87129d59f10a440b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 09/12] fix: say which include could not be read

The error for an included file that is not valid UTF-8 or cannot be opened had no location at all.
---
 src/parse/parser.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 9c0d5e3..207fec0 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -1183,12 +1183,23 @@ fn parse_include(
         let value = &included.0[&key];
         value.clone()
     } else {
-        let value: Value = match include_type {
-            IncludeType::Obj => parse_obj_file_includes(path_str, included, depth)?.into(),
-            IncludeType::Str => parse_str_file(path_str)?.into(),
-            IncludeType::Arr => parse_arr_file(path_str, included, depth)?.into(),
-            IncludeType::Tup => parse_tup_file(path_str, included, depth)?.into(),
+        let value = match include_type {
+            IncludeType::Obj => parse_obj_file_includes(path_str, included, depth).map(Value::Obj),
+            IncludeType::Str => parse_str_file(path_str).map(Value::Str),
+            IncludeType::Arr => parse_arr_file(path_str, included, depth).map(Value::Arr),
+            IncludeType::Tup => parse_tup_file(path_str, included, depth).map(Value::Tup),
         };
+        // If the file could not be read, say which include that was.
+        let value = value.map_err(|e| match e.kind {
+            IoError(ref error) if e.file.is_none() => ParseError {
+                file: stream.file(),
+                kind: IoError(format!(
+                    "Could not include file \"{}\" at line {}, column {}: {}",
+                    include_file, line, col, error
+                )),
+            },
+            _ => e,
+        })?;
         // Use type and full path as included key.
         included.0.insert(key, value.clone());
         value
-- 
2.43.0


From 66b22094f3617ec725c97231eb1db57a265031c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:58 +0000
Subject: [PATCH 10/12] fix: try_obj! is usable wherever an expression is

An attribute on a block is rejected by stable compilers except in statement
position, and the form with a trailing comma ended in a semicolon.
---
 src/macros.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index 55bc773..0cb4c6f 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -94,10 +94,9 @@ macro_rules! obj {
 macro_rules! try_obj {
     { $( $field:expr => $inner:expr ),+ , } => {
         // Rule with trailing comma.
-        try_obj!{ $( $field => $inner ),* };
+        try_obj!{ $( $field => $inner ),+ }
     };
     { $( $field:expr => $inner:expr ),+ } => {
-        #[allow(clippy::useless_let_if_seq)]
         {
             use $crate::obj::{Obj, Pair};
 
-- 
2.43.0


From 10ff040127a84e714f250201c27c2c1f3ff29e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:11 +0000
Subject: [PATCH 11/12] fix: each macro works when it alone is imported

arr! and obj! expanded to try_arr! and try_obj! by their bare names, which
are not in scope after, say, `use over::arr`.
---
 src/macros.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index 0cb4c6f..ffd0d3a 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -31,10 +31,10 @@ macro_rules! arr {
     };
     [ $( $elem:expr ),+ , ] => {
         // Rule with trailing comma.
-        try_arr![ $( $elem ),+ ].unwrap()
+        $crate::try_arr![ $( $elem ),+ ].unwrap()
     };
     [ $( $elem:expr ),+ ] => {
-        try_arr![ $( $elem ),+ ].unwrap()
+        $crate::try_arr![ $( $elem ),+ ].unwrap()
     };
 }
 
@@ -45,7 +45,7 @@ macro_rules! arr {
 macro_rules! try_arr {
     [ $( $elem:expr ),+ , ] => {
         // Rule with trailing comma.
-        try_arr![ $( $elem ),+ ]
+        $crate::try_arr![ $( $elem ),+ ]
     };
     [ $( $elem:expr ),+ ] => {
         {
@@ -59,7 +59,7 @@ macro_rules! try_arr {
 #[macro_export]
 macro_rules! tup {
     ( $( $elem:expr ),* , ) => {
-        tup!( $( $elem ),* )
+        $crate::tup!( $( $elem ),* )
     };
     ( $( $elem:expr ),* ) => {
         {
@@ -80,10 +80,10 @@ macro_rules! obj {
     };
     { $( $field:expr => $inner:expr ),+ , } => {
         // Rule with trailing comma.
-        try_obj!{ $( $field => $inner ),+ }.unwrap()
+        $crate::try_obj!{ $( $field => $inner ),+ }.unwrap()
     };
     { $( $field:expr => $inner:expr ),+ } => {
-        try_obj!{ $( $field => $inner ),+ }.unwrap()
+        $crate::try_obj!{ $( $field => $inner ),+ }.unwrap()
     };
 }
 
@@ -94,7 +94,7 @@ macro_rules! obj {
 macro_rules! try_obj {
     { $( $field:expr => $inner:expr ),+ , } => {
         // Rule with trailing comma.
-        try_obj!{ $( $field => $inner ),+ }
+        $crate::try_obj!{ $( $field => $inner ),+ }
     };
     { $( $field:expr => $inner:expr ),+ } => {
         {
-- 
2.43.0


From c31f4e8fbd533c9f9262a249238ba96c249bd356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:28 +0000
Subject: [PATCH 12/12] fix: tup!() compiles

The macro takes any number of elements but could not be expanded for none.
---
 src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index ffd0d3a..0fb3aee 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -63,7 +63,7 @@ macro_rules! tup {
     };
     ( $( $elem:expr ),* ) => {
         {
-            $crate::tup::Tup::from_values(vec![ $( $elem.into() ),+ ])
+            $crate::tup::Tup::from_values(vec![ $( $elem.into() ),* ])
         }
     };
 }
-- 
2.43.0

