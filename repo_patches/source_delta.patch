From b1d5c01fa7bb8e97e974a06bbdb706623ad0e50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 01/16] fix: keep elements matched by a nested group when the
 outer group rewinds

---
 src/validate.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/validate.rs b/src/validate.rs
index 564e539..d659e7f 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -207,9 +207,13 @@ impl WorkingMap {
     fn commit(&mut self) {
         // If validate code is implemented correctly, then unwrap() should
         // never panic.
-        // This throws away the list that was popped; those values were
-        // successfully matched and are no longer needed.
-        self.snaps.pop_back().unwrap();
+        let mut top_snap = self.snaps.pop_back().unwrap();
+        // If there is an enclosing snapshot, it may still need to be rewound,
+        // so hand over the elements that were matched.  Otherwise they are no
+        // longer needed and can be thrown away.
+        if let Some(snap) = self.snaps.back_mut() {
+            snap.append(&mut top_snap);
+        }
     }
 
     // Peek at the value correspending to a given key (if any)
@@ -283,9 +287,13 @@ impl WorkingArray {
     fn commit(&mut self) {
         // If validate code is implemented correctly, then unwrap() should
         // never panic.
-        // This throws away the list that was popped; those values were
-        // successfully matched and are no longer needed.
-        self.snaps.pop_back().unwrap();
+        let mut top_snap = self.snaps.pop_back().unwrap();
+        // If there is an enclosing snapshot, it may still need to be rewound,
+        // so hand over the elements that were matched.  Otherwise they are no
+        // longer needed and can be thrown away.
+        if let Some(snap) = self.snaps.back_mut() {
+            snap.append(&mut top_snap);
+        }
     }
 
     // Peek at the front of the working array.
-- 
2.43.0


From d0f1594eeea5b8c8fd6d37381bab225dce7fad46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 02/16] fix: honor an occurrence upper limit of zero

---
 src/validate.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/validate.rs b/src/validate.rs
index d659e7f..4613008 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -619,7 +619,7 @@ fn validate_array_occur(
     let (lower_limit, upper_limit) = occur.limits();
     let mut count: usize = 0;
 
-    loop {
+    while count < upper_limit {
         match validate_array_member(&occur.node, working_array, ctx) {
             Ok(_) => (),
             Err(e) => {
@@ -634,10 +634,6 @@ fn validate_array_occur(
             }
         }
         count += 1;
-        if count >= upper_limit {
-            // Stop matching; we've consumed the maximum number of this key.
-            break;
-        }
     }
     if count < lower_limit {
         return Err(mismatch(format!("more array element [{}]", occur)));
@@ -893,7 +889,7 @@ fn validate_map_occur(
     let (lower_limit, upper_limit) = occur.limits();
     let mut count: usize = 0;
 
-    loop {
+    while count < upper_limit {
         match validate_map_member(&occur.node, working_map, ctx) {
             Ok(_) => (),
             Err(e) => {
@@ -908,10 +904,6 @@ fn validate_map_occur(
             }
         }
         count += 1;
-        if count >= upper_limit {
-            // Stop matching; we've consumed the maximum number of this key.
-            break;
-        }
     }
     if count < lower_limit {
         // Read this format string as "{{" then "{}" then "}}"
-- 
2.43.0


From 958564982a774683ad180a48e6ad7895f047e5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 03/16] fix: don't loop forever on an occurrence that consumes
 nothing

---
 src/validate.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/validate.rs b/src/validate.rs
index 4613008..bb7876e 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -620,6 +620,7 @@ fn validate_array_occur(
     let mut count: usize = 0;
 
     while count < upper_limit {
+        let remaining = working_array.array.len();
         match validate_array_member(&occur.node, working_array, ctx) {
             Ok(_) => (),
             Err(e) => {
@@ -634,6 +635,11 @@ fn validate_array_occur(
             }
         }
         count += 1;
+        if working_array.array.len() == remaining {
+            // The match consumed nothing, so it can be repeated any number of
+            // times without making progress.
+            count = upper_limit;
+        }
     }
     if count < lower_limit {
         return Err(mismatch(format!("more array element [{}]", occur)));
@@ -890,6 +896,7 @@ fn validate_map_occur(
     let mut count: usize = 0;
 
     while count < upper_limit {
+        let remaining = working_map.map.len();
         match validate_map_member(&occur.node, working_map, ctx) {
             Ok(_) => (),
             Err(e) => {
@@ -904,6 +911,11 @@ fn validate_map_occur(
             }
         }
         count += 1;
+        if working_map.map.len() == remaining {
+            // The match consumed nothing, so it can be repeated any number of
+            // times without making progress.
+            count = upper_limit;
+        }
     }
     if count < lower_limit {
         // Read this format string as "{{" then "{}" then "}}"
-- 
2.43.0


From 754924b688a001b19e737e764a33b85efbbfdef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:03 +0000
Subject: [PATCH 04/16] fix: rewind when an unwrapped array or map only partly
 matches

---
 src/validate.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/validate.rs b/src/validate.rs
index bb7876e..2337a05 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -598,11 +598,19 @@ fn validate_array_unwrap(
     // Array node too.
     match node {
         Node::Array(a) => {
+            // An unwrapped array behaves like a group: if it doesn't match
+            // completely, rewind so that nothing is consumed.
+            working_array.snapshot();
+
             // Recurse into each member of the unwrapped array.
             for member in &a.members {
-                validate_array_member(member, working_array, ctx)?;
+                if let Err(e) = validate_array_member(member, working_array, ctx) {
+                    working_array.rewind();
+                    return Err(e);
+                }
             }
             // All array members validated Ok.
+            working_array.commit();
             Ok(())
         }
         _ => Err(mismatch("unwrap array")),
@@ -875,11 +883,20 @@ fn validate_map_unwrap(node: &Node, working_map: &mut WorkingMap, ctx: &Context)
     // Map node too.
     match node {
         Node::Map(m) => {
+            // An unwrapped map behaves like a group: if it doesn't match
+            // completely, rewind so that nothing is consumed, and forget any
+            // MapCut errors.
+            working_map.snapshot();
+
             // Recurse into each member of the unwrapped array.
             for member in &m.members {
-                validate_map_member(member, working_map, ctx)?;
+                if let Err(e) = validate_map_member(member, working_map, ctx) {
+                    working_map.rewind();
+                    return Err(e.erase_mapcut());
+                }
             }
             // All array members validated Ok.
+            working_map.commit();
             Ok(())
         }
         _ => Err(mismatch("unwrap map")),
-- 
2.43.0


From baa3f525b7df34dff5ed4de88f6fdb9381c0b785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:03 +0000
Subject: [PATCH 05/16] fix: rewind when an occurrence doesn't reach its lower
 limit

---
 src/validate.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/validate.rs b/src/validate.rs
index 2337a05..007361c 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -627,6 +627,10 @@ fn validate_array_occur(
     let (lower_limit, upper_limit) = occur.limits();
     let mut count: usize = 0;
 
+    // If we fail to reach the lower limit, the elements that matched so far
+    // must be put back.
+    working_array.snapshot();
+
     while count < upper_limit {
         let remaining = working_array.array.len();
         match validate_array_member(&occur.node, working_array, ctx) {
@@ -639,6 +643,7 @@ fn validate_array_occur(
                 // The error is something serious (e.g. MissingRule or
                 // Unsupported).  We should fail now and propagate that
                 // error upward.
+                working_array.rewind();
                 return Err(e);
             }
         }
@@ -650,8 +655,10 @@ fn validate_array_occur(
         }
     }
     if count < lower_limit {
+        working_array.rewind();
         return Err(mismatch(format!("more array element [{}]", occur)));
     }
+    working_array.commit();
     Ok(())
 }
 
@@ -912,6 +919,10 @@ fn validate_map_occur(
     let (lower_limit, upper_limit) = occur.limits();
     let mut count: usize = 0;
 
+    // If we fail to reach the lower limit, the elements that matched so far
+    // must be put back.
+    working_map.snapshot();
+
     while count < upper_limit {
         let remaining = working_map.map.len();
         match validate_map_member(&occur.node, working_map, ctx) {
@@ -924,6 +935,7 @@ fn validate_map_occur(
                 // Either we got a MapCut error, or it's something even more
                 // serious (e.g. MissingRule or Unsupported).  We should fail
                 // now and propagate that error upward.
+                working_map.rewind();
                 return Err(e);
             }
         }
@@ -935,11 +947,13 @@ fn validate_map_occur(
         }
     }
     if count < lower_limit {
+        working_map.rewind();
         // Read this format string as "{{" then "{}" then "}}"
         // The first and last print a single brace; the value is in the
         // middle, e.g "{foo}".
         return Err(mismatch(format!("map{{{}}}]", occur)));
     }
+    working_map.commit();
     Ok(())
 }
 
-- 
2.43.0


From 53c04a38594c1f990c35fdd73bd512b42509c7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:23 +0000
Subject: [PATCH 06/16] fix: propagate fatal errors raised while searching for
 a map key

---
 src/validate.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/validate.rs b/src/validate.rs
index 007361c..6bc34ef 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -430,9 +430,11 @@ fn map_search<'a>(
     ctx: &Context,
 ) -> TempResult<(Value, &'a Value)> {
     for (key, value) in &working_map.map {
-        let attempt = validate(key, node, ctx);
-        if attempt.is_ok() {
-            return Ok((key.clone(), value));
+        match validate(key, node, ctx) {
+            Ok(()) => return Ok((key.clone(), value)),
+            // A fatal error must fail the entire validation.
+            Err(e) if e.is_fatal() => return Err(e),
+            Err(_) => (),
         }
     }
     // We searched all the keys without finding a match.  Validation fails.
-- 
2.43.0


From 3a5b029fd5693b15447a94cff4f77cae3e5822d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:14 +0000
Subject: [PATCH 07/16] fix: keep searching when a map key without cut has a
 mismatched value

---
 src/validate.rs | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/validate.rs b/src/validate.rs
index 6bc34ef..d7e9644 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -5,6 +5,7 @@
 use std::collections::{BTreeMap, HashMap, VecDeque};
 use std::convert::TryInto;
 use std::mem::discriminant;
+use std::ops::Bound;
 
 use crate::context::LookupContext;
 use crate::ivt::*;
@@ -348,11 +349,12 @@ fn validate(value: &Value, node: &Node, ctx: &Context) -> ValidateResult {
 fn validate_map_key<'a>(
     value_map: &'a mut WorkingMap,
     node: &Node,
+    after: Option<&Value>,
     ctx: &Context,
 ) -> TempResult<(Value, &'a Value)> {
     match node {
         Node::Literal(l) => map_search_literal(l, value_map),
-        _ => map_search(node, value_map, ctx),
+        _ => map_search(node, value_map, after, ctx),
     }
 }
 
@@ -422,14 +424,17 @@ fn map_search_literal<'a>(
 }
 
 // Iterate over each key in the working map, looking for a match.
+// If `after` is specified, only keys following that key are considered.
 // If we find a match, return a copy of the key, and a reference to the value.
 // This is less efficient than map_search_literal.
 fn map_search<'a>(
     node: &Node,
     working_map: &'a mut WorkingMap,
+    after: Option<&Value>,
     ctx: &Context,
 ) -> TempResult<(Value, &'a Value)> {
-    for (key, value) in &working_map.map {
+    let start = after.map_or(Bound::Unbounded, Bound::Excluded);
+    for (key, value) in working_map.map.range((start, Bound::Unbounded)) {
         match validate(key, node, ctx) {
             Ok(()) => return Ok((key.clone(), value)),
             // A fatal error must fail the entire validation.
@@ -980,24 +985,30 @@ fn validate_map_keyvalue(
     let val_node = &kv.value;
     let cut = kv.cut;
 
-    // If we fail to validate a key, exit now with an error.
-    let (working_key, working_val) = validate_map_key(working_map, key_node, ctx)?;
+    let mut after: Option<Value> = None;
+    loop {
+        // If we fail to validate a key, exit now with an error.
+        let (working_key, working_val) =
+            validate_map_key(working_map, key_node, after.as_ref(), ctx)?;
 
-    // Match the value that was returned.
-    match validate(working_val, val_node, ctx) {
-        Ok(()) => {
-            working_map.remove(&working_key);
-            Ok(())
-        }
-        Err(e) => {
-            match (cut, e) {
+        // Match the value that was returned.
+        match validate(working_val, val_node, ctx) {
+            Ok(()) => {
+                working_map.remove(&working_key);
+                return Ok(());
+            }
+            Err(e) => match (cut, e) {
                 (true, ValidateError::Mismatch(m)) => {
                     // If "cut" semantics are in force, then rewrite Mismatch errors.
                     // This allows special handling when nested inside Occur nodes.
-                    Err(ValidateError::MapCut(m))
+                    return Err(ValidateError::MapCut(m));
                 }
-                (_, x) => Err(x),
-            }
+                (false, ValidateError::Mismatch(_)) if !matches!(**key_node, Node::Literal(_)) => {
+                    // This pair doesn't match, but a later key might.
+                    after = Some(working_key);
+                }
+                (_, x) => return Err(x),
+            },
         }
     }
 }
-- 
2.43.0


From 7877950cf0b8c1583728fa652333ce46f819a1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:14 +0000
Subject: [PATCH 08/16] fix: match inline choiceified groups by value inside
 maps

---
 src/validate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.rs b/src/validate.rs
index d7e9644..3e1babe 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -784,7 +784,7 @@ fn validate_map_member(
         }
         Node::Choice(c) => validate_map_choice(&c.options, working_map, ctx),
         Node::Choiceify(r) => validate_map_choiceify(r, working_map, ctx),
-        Node::ChoiceifyInline(a) => validate_map_choice(&a.members, working_map, ctx),
+        Node::ChoiceifyInline(a) => validate_map_choiceify_members(&a.members, working_map, ctx),
 
         // I don't think any of these are possible using CDDL grammar.
         Node::Literal(_) => Err(ValidateError::Structural("literal map member".into())),
-- 
2.43.0


From 0c6d01fecdeb1cd18d2d34c9eacd6602f7d2160b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:14 +0000
Subject: [PATCH 09/16] fix: allow literal characters up to U+10FFFD

---
 src/parser/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index e52fe05..4d9b6d1 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -387,7 +387,7 @@ fn is_unescaped_bchar(c: char) -> bool {
         (0x20 ..= 0x26),
         (0x28 ..= 0x5B),
         (0x5D ..= 0x7E),
-        (0x80 ..= 0x10FFD),
+        (0x80 ..= 0x10FFFD),
     ];
     let cv = c as u32;
 
@@ -489,7 +489,7 @@ fn is_unescaped_schar(c: char) -> bool {
         (0x20 ..= 0x21),
         (0x23 ..= 0x5B),
         (0x5D ..= 0x7E),
-        (0x80 ..= 0x10FFD),
+        (0x80 ..= 0x10FFFD),
     ];
     let cv = c as u32;
 
-- 
2.43.0


From e4f89f788c428254aae334372cda04b74d8f5e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:14 +0000
Subject: [PATCH 10/16] fix: parse the literal -9223372036854775808

---
 src/parser/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 4d9b6d1..b29a152 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -316,10 +316,10 @@ fn parse_int(raw: RawInt) -> Result<Value, CowParseError> {
         .map_err(|_| parse_error(ErrorKind::MalformedInteger, raw.slice))?;
 
     if raw.neg {
-        // i64 has a larger positive range than negative range, so if we
-        // survive the conversion to i64 then unary `-` must succeed.
-        let negint: i64 = try_into_int(posint, raw.slice)?;
-        Ok(Value::Nint(-negint))
+        // Use i128 so that negation can't overflow; i64::MIN has no positive
+        // counterpart.
+        let negint: i64 = try_into_int(-i128::from(posint), raw.slice)?;
+        Ok(Value::Nint(negint))
     } else {
         Ok(Value::Uint(posint))
     }
-- 
2.43.0


From cc1333afacb7dc6f6ed7c9995ae26f557040c76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:14 +0000
Subject: [PATCH 11/16] fix: don't reject large float literals as malformed
 occurrences

---
 src/parser/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index b29a152..fd5f827 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -34,7 +34,7 @@ use nom::{
     character::complete::{
         anychar, char as charx, digit0, digit1, hex_digit1, multispace1, not_line_ending, one_of,
     },
-    combinator::{all_consuming, map, map_res, opt, recognize, value as valuex},
+    combinator::{all_consuming, map, map_res, opt, peek, recognize, value as valuex},
     multi::{many0, many1, separated_list1},
     sequence::{delimited, pair, preceded, separated_pair, terminated, tuple},
 };
@@ -741,6 +741,10 @@ where
 //       / "?"
 #[rustfmt::skip]
 fn occur_star(input: &str) -> JResult<&str, Occur> {
+    // Don't convert the first integer until we've seen the "*", because it may
+    // turn out to be something else (e.g. a large floating-point value).
+    peek(pair(opt(uint), tag("*")))(input)?;
+
     let f = tuple((
         opt(uint_u64),
         tag("*"),
-- 
2.43.0


From 1aeb0ad6398ce0ec5565b6f41325ecc048b8bed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:50 +0000
Subject: [PATCH 12/16] fix: report malformed literals in group entries with
 their own error kind

---
 src/parser/mod.rs | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index fd5f827..74774e2 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -648,7 +648,8 @@ fn grpent_member(input: &str) -> JResult<&str, Member> {
         Type1::Simple(Type2::Value(_)) |
         Type1::Simple(Type2::Typename(_)) => {
             // Next, try to match ":" ws ty
-            if let Ok((input, tail_type)) = grpent_memberkey_tail(input) {
+            // (A malformed literal there is an error; don't discard it.)
+            if let (input, Some(tail_type)) = opt(grpent_memberkey_tail)(input)? {
                 let member = assemble_basic_member(first_type1, tail_type);
                 match member {
                     Ok(member) => return Ok((input, member)),
@@ -665,12 +666,12 @@ fn grpent_member(input: &str) -> JResult<&str, Member> {
     // should return a Member, with key: Some(MemberKey{val, cut})
     // and value: Type
 
-    if let Ok((input, matched_tuple)) = tuple((
+    if let (input, Some(matched_tuple)) = opt(tuple((
         opt(terminated(tag("^"), ws)),
         tag("=>"),
         ws,
         ty,
-    ))(input) {
+    )))(input)? {
         let (cut, _, _, val) = matched_tuple;
         let member = Member {
             key: Some(MemberKey {
@@ -686,22 +687,20 @@ fn grpent_member(input: &str) -> JResult<&str, Member> {
     // should return a Member, with key: None and value: Type containing Vec<Type1>
     // This is a lot like the fn `ty` but we will concatenate this with first_type1
 
-    if let Ok((input, mut ty1s)) = many0(
+    let (input, mut ty1s) = many0(
         preceded(
             delimited(ws, tag("/"), ws),
             type1
         )
-    )(input) {
-        // insert the first type1 (from the top of this function)
-        ty1s.insert(0, first_type1);
-        let member = Member {
-            key: None,
-            value: Type(ty1s),
-        };
-        return Ok((input, member));
-    }
+    )(input)?;
 
-    Err(nom::Err::Error(parse_error(ErrorKind::Unparseable, "grpent_member")))
+    // insert the first type1 (from the top of this function)
+    ty1s.insert(0, first_type1);
+    let member = Member {
+        key: None,
+        value: Type(ty1s),
+    };
+    Ok((input, member))
 }
 
 #[rustfmt::skip]
-- 
2.43.0


From d2d2756150169aa99bb65c7d3df574ef3781956d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:09 +0000
Subject: [PATCH 13/16] fix: allow quotes in UTF-8 byte string literals

---
 src/parser/mod.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 74774e2..2064e59 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -416,6 +416,24 @@ fn bchar(input: &str) -> JResult<&str, &str> {
     (input)
 }
 
+// The `unescape` function implements the JSON rules, where `"` must be escaped
+// and `\'` doesn't exist.  For a byte string it's the other way around.
+fn unescape_bchar(s: &str) -> Result<String, CowParseError> {
+    let mut json = String::with_capacity(s.len());
+    let mut chars = s.chars();
+    while let Some(c) = chars.next() {
+        match c {
+            '"' => json.push_str("\\\""),
+            '\\' => match chars.next() {
+                Some('\'') => json.push('\''),
+                d => json.extend(Some(c).into_iter().chain(d)),
+            },
+            _ => json.push(c),
+        }
+    }
+    unescape(json).map_err(|_| parse_error(ErrorKind::MalformedText, s))
+}
+
 // This is basically identical to `text_literal` except that
 // it uses single-quotes.
 #[rustfmt::skip]
@@ -426,9 +444,7 @@ fn bytestring_utf8(input: &str) -> JResult<&str, String> {
         tag("'")
     );
 
-    map_res_fail(f, |s| {
-        unescape(s).map_err(|_| parse_error(ErrorKind::MalformedText, s) )
-    })
+    map_res_fail(f, unescape_bchar)
     (input)
 }
 
-- 
2.43.0


From 968315264b1e34abb768b4461be98b28e315a5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 14/16] fix: unwrap arrays and maps named through aliases or
 generic parameters

---
 src/validate.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/validate.rs b/src/validate.rs
index 3e1babe..c373b6a 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -602,8 +602,12 @@ fn validate_array_unwrap(
     ctx: &Context,
 ) -> ValidateResult {
     // After traversing an unwrap from inside an array, the next node must be an
-    // Array node too.
+    // Array node too (or a name or generic parameter that leads to one).
     match node {
+        Node::Rule(r) => {
+            let answer = ctx.lookup_rule(r)?;
+            validate_array_unwrap(answer.node, working_array, &answer.ctx)
+        }
         Node::Array(a) => {
             // An unwrapped array behaves like a group: if it doesn't match
             // completely, rewind so that nothing is consumed.
@@ -894,8 +898,12 @@ fn validate_map_choiceify(
 
 fn validate_map_unwrap(node: &Node, working_map: &mut WorkingMap, ctx: &Context) -> ValidateResult {
     // After traversing an unwrap from inside a map, the next node must be a
-    // Map node too.
+    // Map node too (or a name or generic parameter that leads to one).
     match node {
+        Node::Rule(r) => {
+            let answer = ctx.lookup_rule(r)?;
+            validate_map_unwrap(answer.node, working_map, &answer.ctx)
+        }
         Node::Map(m) => {
             // An unwrapped map behaves like a group: if it doesn't match
             // completely, rewind so that nothing is consumed, and forget any
-- 
2.43.0


From fa41ff05e1d4067c722f8bc61312afad1c71cdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 15/16] fix: don't parse the contents of nested parentheses
 twice at each level

---
 src/parser/mod.rs | 123 +++++++++++++++++++++++++++++++---------------
 1 file changed, 84 insertions(+), 39 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 2064e59..944eca1 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -654,7 +654,14 @@ fn assemble_basic_member(key: Type1, value: Type) -> Result<Member, CowParseErro
 fn grpent_member(input: &str) -> JResult<&str, Member> {
 
     // The leading Type1 is required for this parser.
-    let (input, first_type1) = terminated(type1, ws)(input)?;
+    let (input, first_type1) = type1(input)?;
+    grpent_member_rest(first_type1, input)
+}
+
+// The part of a grpent_member that follows the leading Type1.
+#[rustfmt::skip]
+fn grpent_member_rest(first_type1: Type1, input: &str) -> JResult<&str, Member> {
+    let (input, _) = ws(input)?;
 
     // If the type1 matches is a plain value or typename (aka id), then we may
     // be looking at a memberkey followed by a ":".  That syntax isn't allowed
@@ -732,12 +739,52 @@ fn grpent_parens(input: &str) -> JResult<&str, Group> {
     )(input)
 }
 
+// A grpent that starts with "(": either a member whose first type is
+// parenthesized, or a parenthesized group.
+//
+// As with memberkeys (see above) we can't try one and then the other, or else
+// nested parentheses lead to 2^N iterations.  So parse the contents once; a
+// single member without an occurrence, key, or trailing comma is a type, and
+// everything else is a group.
+#[rustfmt::skip]
+fn grpent_parens_or_member(input: &str) -> JResult<&str, GrpEntVal> {
+    let close = |input| preceded(ws, charx(')'))(input);
+
+    let (input, _) = pair(charx('('), ws)(input)?;
+    let (input, first) = opt(grpent)(input)?;
+
+    let (input, first_choice) = match first {
+        None => (input, GrpChoice(Vec::new())),
+        Some(GrpEnt { occur, val }) => {
+            let (after, closed) = opt(close)(input)?;
+            match (occur, val, closed) {
+                (None, GrpEntVal::Member(Member { key: None, value }), Some(_)) => {
+                    let (input, first_type1) = type1_rest(Type2::Parethesized(value), after)?;
+                    let (input, member) = grpent_member_rest(first_type1, input)?;
+                    return Ok((input, GrpEntVal::Member(member)));
+                }
+                (occur, val, _) => {
+                    let (input, (_, mut ents)) = pair(optcom, grpchoice)(input)?;
+                    ents.0.insert(0, GrpEnt { occur, val });
+                    (input, ents)
+                }
+            }
+        }
+    };
+
+    let (input, group) = group_rest(first_choice, input)?;
+    let (input, _) = close(input)?;
+    Ok((input, GrpEntVal::Parenthesized(group)))
+}
+
 #[rustfmt::skip]
 fn grpent_val(input: &str) -> JResult<&str, GrpEntVal> {
+    if input.starts_with('(') {
+        return grpent_parens_or_member(input);
+    }
     alt((
         map(grpent_member, GrpEntVal::Member),
         map(ident, |s| GrpEntVal::Groupname(s.into())),
-        map(grpent_parens, GrpEntVal::Parenthesized),
     ))
     (input)
 }
@@ -832,24 +879,26 @@ fn group(input: &str) -> JResult<&str, Group> {
     // but separated_list1 returns an error if the
     // list-item succeeds on "", which grpchoice does.
 
-    let f = pair(
-        grpchoice,
-        many0(preceded(
-            delimited(
-                ws,
-                tag("//"),
-                ws,
-            ),
-            grpchoice
-        ))
-    );
+    let (input, first) = grpchoice(input)?;
+    group_rest(first, input)
+}
 
-    map(f, |(first, mut rest)| {
-        // Build a new vector containing all the grpchoice elements.
-        let mut gcs = vec![first];
-        gcs.append(&mut rest);
-        Group(gcs)
-    })(input)
+// The part of a group that follows the first grpchoice.
+#[rustfmt::skip]
+fn group_rest(first: GrpChoice, input: &str) -> JResult<&str, Group> {
+    let (input, mut rest) = many0(preceded(
+        delimited(
+            ws,
+            tag("//"),
+            ws,
+        ),
+        grpchoice
+    ))(input)?;
+
+    // Build a new vector containing all the grpchoice elements.
+    let mut gcs = vec![first];
+    gcs.append(&mut rest);
+    Ok((input, Group(gcs)))
 }
 
 // "(" S type S ")"
@@ -930,15 +979,7 @@ fn type2_choiceify_inline(input: &str) -> JResult<&str, Group> {
         tag("&"),
         preceded(
             ws,
-            delimited(
-                charx('('),
-                delimited(
-                    ws,
-                    group,
-                    ws,
-                ),
-                charx(')')
-            )
+            grpent_parens
         )
     )
     (input)
@@ -1001,16 +1042,20 @@ fn range_or_control_op(input: &str) -> JResult<&str, (&str, Type2)> {
 // type1 = type2 [S (rangeop / ctlop) S type2]
 #[rustfmt::skip]
 fn type1(input: &str) -> JResult<&str, Type1> {
-    let f = pair(
-        type2,
-        opt(
-            preceded(
-                ws,
-                range_or_control_op
-            )
+    let (input, first_type2) = type2(input)?;
+    type1_rest(first_type2, input)
+}
+
+// The part of a type1 that follows the first type2.
+#[rustfmt::skip]
+fn type1_rest(first_type2: Type2, input: &str) -> JResult<&str, Type1> {
+    let (input, rest) = opt(
+        preceded(
+            ws,
+            range_or_control_op
         )
-    );
-    map(f, |ty1| match ty1 {
+    )(input)?;
+    let ty1 = match (first_type2, rest) {
         (ty2, None) => Type1::Simple(ty2),
         (start, Some(("..", end))) => Type1::Range(TypeRange {
             start,
@@ -1027,8 +1072,8 @@ fn type1(input: &str) -> JResult<&str, Type1> {
             op: op.into(),
             arg,
         }),
-    })
-    (input)
+    };
+    Ok((input, ty1))
 }
 
 // type = type1 [ / type1 ... ]  (skipping over type1 for now)
-- 
2.43.0


From 7d289ff48ec38e9b0b93a348328a82ae20b074b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:32 +0000
Subject: [PATCH 16/16] fix: don't search the same map entries again for each
 repetition

A repeated key-value pair started its search anew each time, so that entries
it had passed over were validated again after each match.  With maps nested
in maps that takes exponential time.
---
 src/validate.rs | 42 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/src/validate.rs b/src/validate.rs
index c373b6a..975f10f 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -740,7 +740,7 @@ fn validate_map_member(
         // FIXME: does it make sense for this to destructure & dispatch
         // each Node type here?  Is there any way to make this generic?
         Node::Occur(o) => validate_map_occur(o, working_map, ctx),
-        Node::KeyValue(kv) => validate_map_keyvalue(kv, working_map, ctx),
+        Node::KeyValue(kv) => validate_map_keyvalue(kv, working_map, &mut None, ctx),
         Node::Rule(r) => {
             // We can't use the generic validate() here; we would forget that
             // we were in a map context.  We need to punch down a level into
@@ -938,9 +938,12 @@ fn validate_map_occur(
     // must be put back.
     working_map.snapshot();
 
+    // The last key that was considered, if a key-value pair is repeated.
+    let mut after: Option<Value> = None;
+
     while count < upper_limit {
         let remaining = working_map.map.len();
-        match validate_map_member(&occur.node, working_map, ctx) {
+        match validate_map_repeat(&occur.node, working_map, &mut after, ctx) {
             Ok(_) => (),
             Err(e) => {
                 if e.is_mismatch() {
@@ -972,10 +975,41 @@ fn validate_map_occur(
     Ok(())
 }
 
+/// Validate one repetition of an occurrence against a mutable working map.
+///
+/// If a single key-value pair is repeated, there is no need to look at the
+/// same entries again each time: those that it has passed over once will
+/// never match.  (Doing so takes exponential time if maps are nested.)
+fn validate_map_repeat(
+    node: &Node,
+    working_map: &mut WorkingMap,
+    after: &mut Option<Value>,
+    ctx: &Context,
+) -> ValidateResult {
+    match node {
+        Node::KeyValue(kv) => validate_map_keyvalue(kv, working_map, after, ctx),
+        Node::Rule(r) => {
+            let answer = ctx.lookup_rule(r)?;
+            validate_map_repeat(answer.node, working_map, after, &answer.ctx)
+        }
+        Node::Group(g) if g.members.len() == 1 => {
+            // A member that doesn't match consumes nothing, so there is
+            // nothing to rewind.
+            validate_map_repeat(&g.members[0], working_map, after, ctx)
+                .map_err(|e| e.erase_mapcut())
+        }
+        _ => validate_map_member(node, working_map, ctx),
+    }
+}
+
 /// Validate a key-value pair against a mutable working map.
+///
+/// The search (for keys that aren't literals) begins after the key `after`,
+/// if any, which is then set to the last key that was considered.
 fn validate_map_keyvalue(
     kv: &KeyValue,
     working_map: &mut WorkingMap,
+    after: &mut Option<Value>,
     ctx: &Context,
 ) -> ValidateResult {
     // CDDL syntax reminder:
@@ -993,7 +1027,6 @@ fn validate_map_keyvalue(
     let val_node = &kv.value;
     let cut = kv.cut;
 
-    let mut after: Option<Value> = None;
     loop {
         // If we fail to validate a key, exit now with an error.
         let (working_key, working_val) =
@@ -1003,6 +1036,7 @@ fn validate_map_keyvalue(
         match validate(working_val, val_node, ctx) {
             Ok(()) => {
                 working_map.remove(&working_key);
+                *after = Some(working_key);
                 return Ok(());
             }
             Err(e) => match (cut, e) {
@@ -1013,7 +1047,7 @@ fn validate_map_keyvalue(
                 }
                 (false, ValidateError::Mismatch(_)) if !matches!(**key_node, Node::Literal(_)) => {
                     // This pair doesn't match, but a later key might.
-                    after = Some(working_key);
+                    *after = Some(working_key);
                 }
                 (_, x) => return Err(x),
             },
-- 
2.43.0

