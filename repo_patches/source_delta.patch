From 643841c8baa2c90203836667afbc1d05a5e6fc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:57 +0000
Subject: [PATCH 01/42] fix: RepeatBetween consults its lookahead at the
 current position and rejects short input

---
 src/decoder.rs     | 9 ++++++---
 src/loc_decoder.rs | 8 +++++---
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 113093c..ec8c848 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1389,9 +1389,9 @@ impl Decoder {
                 let max = max.eval_value(scope).unwrap_usize();
                 let mut res = WithErr::new((Vec::new(), input));
                 loop {
-                    let v = &res.as_ref().0;
+                    let (v, input) = res.as_ref();
                     // REVIEW - does the order of the conditions in the OR matter?
-                    if reps_left_tree.matches(input).ok_or(
+                    if reps_left_tree.matches(*input).ok_or(
                         DecodeErrorKind::NoValidBranch {
                             offset: input.offset,
                         }
@@ -1400,7 +1400,10 @@ impl Decoder {
                         || v.len() == max
                     {
                         if v.len() < min {
-                            unreachable!("incoherent bounds for RepeatBetween(_, {min}, {max}, _)");
+                            return Err(DecodeErrorKind::NoValidBranch {
+                                offset: input.offset,
+                            }
+                            .with_trace(v.len()));
                         }
                         break;
                     }
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 099dec3..152fe9d 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -1571,10 +1571,10 @@ impl Decoder {
                 let max = max.eval_value_with_loc(scope).unwrap_usize();
                 let mut res = WithErr::new((Vec::new(), input));
                 loop {
-                    let v = &res.as_ref().0;
+                    let (v, input) = res.as_ref();
                     // REVIEW - does the order of the conditions in the OR matter?
                     if reps_left_tree
-                        .matches(input)
+                        .matches(*input)
                         .ok_or(DecodeErrorKind::NoValidBranch {
                             offset: input.offset,
                         })?
@@ -1582,7 +1582,9 @@ impl Decoder {
                         || v.len() == max
                     {
                         if v.len() < min {
-                            unreachable!("incoherent bounds for RepeatBetween(_, {min}, {max}, _)");
+                            return Err(DecodeErrorKind::NoValidBranch {
+                                offset: input.offset,
+                            });
                         }
                         break;
                     }
-- 
2.43.0


From 4fdc3040d8a372ec3478bc3e03afe6495fd1cf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:18 +0000
Subject: [PATCH 02/42] fix: ByteSet::max_elem reports the greatest member
 instead of the greatest non-member

---
 src/byte_set.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/byte_set.rs b/src/byte_set.rs
index 7c1c47b..7174841 100644
--- a/src/byte_set.rs
+++ b/src/byte_set.rs
@@ -108,13 +108,13 @@ impl ByteSet {
         if let Some(i) = max_set_bit(self.bits[3]) {
             return Some(0xc0 + i);
         }
-        if let Some(i) = max_set_bit(!self.bits[2]) {
+        if let Some(i) = max_set_bit(self.bits[2]) {
             return Some(0x80 + i);
         }
-        if let Some(i) = max_set_bit(!self.bits[1]) {
+        if let Some(i) = max_set_bit(self.bits[1]) {
             return Some(0x40 + i);
         }
-        if let Some(i) = max_set_bit(!self.bits[0]) {
+        if let Some(i) = max_set_bit(self.bits[0]) {
             return Some(i);
         }
         None
-- 
2.43.0


From 2c686c6800cb73a837ca49cccd25c7af5a79c67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:18 +0000
Subject: [PATCH 03/42] fix: RepeatUntilSeq location spans the bytes it
 consumed

---
 src/loc_decoder.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 152fe9d..088dbd1 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -1651,9 +1651,10 @@ impl Decoder {
                     })?;
                     break_if_done!(res => (v, input));
                 }
-                let total_len = input.offset - start_offset;
-                Ok(res
-                    .map(|(v, input, _)| (ParsedValue::new_seq(v, start_offset, total_len), input)))
+                Ok(res.map(|(v, input, _)| {
+                    let total_len = input.offset - start_offset;
+                    (ParsedValue::new_seq(v, start_offset, total_len), input)
+                }))
             }
             Decoder::AccumUntil(f_done, f_update, init, _vt, a) => {
                 let accum = init.eval_value_with_loc(scope);
-- 
2.43.0


From 0f13ab952c967c05a4aacc4312ce0424c17bf0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:18 +0000
Subject: [PATCH 04/42] fix: Bounds::checked_shl does not report a wrapped
 upper bound

---
 src/bounds.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bounds.rs b/src/bounds.rs
index 7d76f80..fe16bae 100644
--- a/src/bounds.rs
+++ b/src/bounds.rs
@@ -388,12 +388,12 @@ impl Div<Bounds> for Bounds {
 impl Bounds {
     pub fn checked_shl(self, rhs: Self) -> Option<Self> {
         let min2 = u32::try_from(rhs.min).ok()?;
-        let min = self.min.checked_shl(min2)?;
+        let min = self.min.checked_shl(min2).filter(|m| m >> min2 == self.min)?;
         let max = match (self.max, rhs.max) {
             (Some(m1), Some(m2)) => {
                 let max2 = u32::try_from(m2).ok()?;
-                // REVIEW - there may be edge-cases here where max2 < 64 but m1 overflows, yielding unexpectedly small values
-                m1.checked_shl(max2)
+                // NOTE - if any set bit would be shifted out, there is no finite upper bound to report
+                m1.checked_shl(max2).filter(|m| m >> max2 == m1)
             }
             _ => None,
         };
-- 
2.43.0


From fda0e3b7de8e31a7e037a9488d15fc526d78c79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:18 +0000
Subject: [PATCH 05/42] fix: sub_range accepts a sub-range that reaches the end
 of the range

---
 src/decoder/seq_kind.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder/seq_kind.rs b/src/decoder/seq_kind.rs
index 11d8717..4309ac4 100644
--- a/src/decoder/seq_kind.rs
+++ b/src/decoder/seq_kind.rs
@@ -54,7 +54,7 @@ pub(crate) fn sub_range(
     len: usize,
 ) -> std::ops::Range<usize> {
     assert!(
-        start + len < range.len(),
+        start + len <= range.len(),
         "sub_range invalid: start={start} len={len} range={range:?}"
     );
     range.start + start..range.start + start + len
-- 
2.43.0


From 089a6dad184aa1c7a91497dc1c9e6b6758c5362e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:31 +0000
Subject: [PATCH 06/42] fix: located evaluation handles integer ranges in
 AsChar and FlatMap like the plain one

---
 src/loc_decoder.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 088dbd1..8005b01 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -798,6 +798,10 @@ impl Expr {
                         char::from_u32(u32::try_from(x).unwrap())
                             .unwrap_or(char::REPLACEMENT_CHARACTER),
                     ),
+                    Value::Usize(x) => Value::Char(
+                        char::from_u32(u32::try_from(x).unwrap())
+                            .unwrap_or(char::REPLACEMENT_CHARACTER),
+                    ),
                     _ => panic!("AsChar: expected U8, U16, U32, or U64"),
                 },
             )),
@@ -921,10 +925,16 @@ impl Expr {
                     Some(values) => {
                         let mut vs: Vec<Value> = Vec::new();
                         for v in values {
-                            if let Value::Seq(vn) = expr.eval_lambda_with_loc(scope, &v) {
-                                vs.extend(vn);
-                            } else {
-                                panic!("FlatMap: expected Seq");
+                            match expr.eval_lambda_with_loc(scope, &v) {
+                                Value::Seq(vn) => {
+                                    vs.extend(vn);
+                                }
+                                Value::EnumFromTo(range) => {
+                                    vs.extend(range.map(Value::from));
+                                }
+                                _ => {
+                                    panic!("FlatMap: expected Seq (or EnumFromTo)");
+                                }
                             }
                         }
                         Cow::Owned(ParsedValue::from_evaluated(Value::Seq(vs.into())))
-- 
2.43.0


From 08dbb684b4a429f080e810b15db9d52ca7971f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:36 +0000
Subject: [PATCH 07/42] fix: plain evaluation folds over integer ranges like
 the located one

---
 src/decoder.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index ec8c848..3634305 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -361,12 +361,16 @@ impl Expr {
                     _ => panic!("FlatMap: expected Seq"),
                 }
             }
-            Expr::FlatMapAccum(expr, accum, _accum_type, seq) => match seq.eval_value(scope) {
-                Value::Seq(values) => {
+            Expr::FlatMapAccum(expr, accum, _accum_type, seq) => match seq
+                .eval_value(scope)
+                .get_sequence()
+            {
+                Some(values) => {
                     let mut accum = accum.eval_value(scope);
                     let mut vs = Vec::new();
                     for v in values {
-                        let ret = expr.eval_lambda(scope, &Value::Tuple(vec![accum, v]));
+                        let ret =
+                            expr.eval_lambda(scope, &Value::Tuple(vec![accum, v.into_owned()]));
                         accum = match extract_pair(ret.unwrap_tuple()) {
                             (accum, Value::Seq(vn)) => {
                                 vs.extend(vn);
@@ -379,11 +383,15 @@ impl Expr {
                 }
                 _ => panic!("FlatMapAccum: expected Seq"),
             },
-            Expr::LeftFold(expr, accum, _accum_type, seq) => match seq.eval_value(scope) {
-                Value::Seq(values) => {
+            Expr::LeftFold(expr, accum, _accum_type, seq) => match seq
+                .eval_value(scope)
+                .get_sequence()
+            {
+                Some(values) => {
                     let mut accum = accum.eval_value(scope);
                     for v in values {
-                        let tmp = expr.eval_lambda(scope, &Value::Tuple(vec![accum, v]));
+                        let tmp =
+                            expr.eval_lambda(scope, &Value::Tuple(vec![accum, v.into_owned()]));
                         accum = tmp
                     }
                     Cow::Owned(accum)
-- 
2.43.0


From af001a5b6ce369bd254cc9d5fbe6a7d4425e49e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:41 +0000
Subject: [PATCH 08/42] fix: located pattern matching sees permitted fallbacks
 and embedded numbers like the plain one

---
 src/loc_decoder.rs | 63 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 46 insertions(+), 17 deletions(-)

diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 8005b01..9239f59 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -374,22 +374,38 @@ impl ParsedValue {
                     inner: Value::Bool(b1),
                     ..
                 }) if b0 == b1),
-            Pattern::U8(i0) => matches!(self, ParsedValue::Flat(Parsed {
-                    inner: Value::U8(i1),
-                    ..
-                }) if i0 == i1),
-            Pattern::U16(i0) => matches!(self, ParsedValue::Flat(Parsed {
-                    inner: Value::U16(i1),
-                    ..
-                }) if i0 == i1),
-            Pattern::U32(i0) => matches!(self, ParsedValue::Flat(Parsed {
-                    inner: Value::U32(i1),
-                    ..
-                }) if i0 == i1),
-            Pattern::U64(i0) => matches!(self, ParsedValue::Flat(Parsed {
-                    inner: Value::U64(i1),
-                    ..
-                }) if i0 == i1),
+            Pattern::U8(i0) => match self {
+                ParsedValue::Flat(Parsed { inner: v, .. }) => match v {
+                    Value::U8(i1) => i0 == i1,
+                    Value::Numeric(n) => n.matches_u8(*i0),
+                    _ => false,
+                },
+                _ => false,
+            },
+            Pattern::U16(i0) => match self {
+                ParsedValue::Flat(Parsed { inner: v, .. }) => match v {
+                    Value::U16(i1) => i0 == i1,
+                    Value::Numeric(n) => n.matches_u16(*i0),
+                    _ => false,
+                },
+                _ => false,
+            },
+            Pattern::U32(i0) => match self {
+                ParsedValue::Flat(Parsed { inner: v, .. }) => match v {
+                    Value::U32(i1) => i0 == i1,
+                    Value::Numeric(n) => n.matches_u32(*i0),
+                    _ => false,
+                },
+                _ => false,
+            },
+            Pattern::U64(i0) => match self {
+                ParsedValue::Flat(Parsed { inner: v, .. }) => match v {
+                    Value::U64(i1) => i0 == i1,
+                    Value::Numeric(n) => n.matches_u64(*i0),
+                    _ => false,
+                },
+                _ => false,
+            },
             Pattern::Char(c0) => matches!(self, ParsedValue::Flat(Parsed {
                     inner: Value::Char(c1),
                     ..
@@ -432,6 +448,7 @@ impl ParsedValue {
                     Value::U32(n) => bounds.contains(usize::try_from(*n).unwrap()),
                     Value::U64(n) => bounds.contains(usize::try_from(*n).unwrap()),
                     Value::Usize(n) => bounds.contains(*n),
+                    Value::Numeric(n) => n.matches_int_range(*bounds),
                     _ => false,
                 },
                 _ => false,
@@ -479,6 +496,18 @@ impl ParsedValue {
         ParsedValue::Record(Parsed { loc, inner: fields })
     }
 
+    /// Higher-level version of `coerce_mapped_value` that also unwraps any `ParsedValue::Permit(Err)`
+    /// for pattern-matching purposes.
+    pub(crate) fn coerce_nominal_value(&self) -> &Self {
+        match self {
+            ParsedValue::Mapped(_orig, v) => v.coerce_nominal_value(),
+            ParsedValue::Branch(_n, v) => v.coerce_nominal_value(),
+            ParsedValue::Permit(Ok(v)) => v.coerce_nominal_value(),
+            ParsedValue::Permit(Err(Some(v))) => v.coerce_nominal_value(),
+            v => v,
+        }
+    }
+
     pub(crate) fn coerce_mapped_value(&self) -> &Self {
         match self {
             ParsedValue::Mapped(_orig, v) => v.coerce_mapped_value(),
@@ -579,7 +608,7 @@ impl ParsedValue {
 
     fn matches<'a>(&self, scope: &'a LocScope<'a>, pattern: &Pattern) -> Option<LocMultiScope<'a>> {
         let mut pattern_scope = LocMultiScope::new(scope);
-        self.coerce_mapped_value()
+        self.coerce_nominal_value()
             .matches_inner(&mut pattern_scope, pattern)
             .then_some(pattern_scope)
     }
-- 
2.43.0


From a3fc84d5482d415db6cb5e4ee788ed1afcb61707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:44 +0000
Subject: [PATCH 09/42] fix: located projection from a permitted failure yields
 a fallback instead of panicking

---
 src/loc_decoder.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 9239f59..060db7b 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -323,6 +323,7 @@ impl ParsedValue {
                     None => panic!("`{label}` not found in record: {self:?}"),
                 }
             }
+            ParsedValue::Permit(Err(None | Some(_))) => &ParsedValue::Permit(Err(None)),
             _ => panic!("expected record, found {self:?}"),
         }
     }
@@ -483,6 +484,7 @@ impl ParsedValue {
     fn tuple_proj(&self, index: usize) -> &Self {
         match self.coerce_mapped_value() {
             ParsedValue::Tuple(Parsed { inner, .. }) => &inner[index],
+            ParsedValue::Permit(Err(None | Some(_))) => &ParsedValue::Permit(Err(None)),
             _ => panic!("expected tuple"),
         }
     }
-- 
2.43.0


From 38d0ef1a7658ee83983103b791a85a541ac0a57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:11 +0000
Subject: [PATCH 10/42] fix: nested patterns see through mapped, branch and
 permitted values like the outermost one

---
 src/decoder/value.rs | 10 ++++++----
 src/loc_decoder.rs   | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/decoder/value.rs b/src/decoder/value.rs
index 3d60dc8..ca47aa0 100644
--- a/src/decoder/value.rs
+++ b/src/decoder/value.rs
@@ -236,7 +236,7 @@ impl Value {
             Pattern::Tuple(ps) => match self {
                 Value::Tuple(vs) if ps.len() == vs.len() => {
                     for (p, v) in Iterator::zip(ps.iter(), vs.iter()) {
-                        if !v.matches_inner(scope, p) {
+                        if !v.coerce_nominal_value().matches_inner(scope, p) {
                             return false;
                         }
                     }
@@ -247,7 +247,7 @@ impl Value {
             Pattern::Seq(ps) => match self {
                 Value::Seq(vs) if ps.len() == vs.len() => {
                     for (p, v) in Iterator::zip(ps.iter(), vs.iter()) {
-                        if !v.matches_inner(scope, p) {
+                        if !v.coerce_nominal_value().matches_inner(scope, p) {
                             return false;
                         }
                     }
@@ -256,12 +256,14 @@ impl Value {
                 _ => false,
             },
             Pattern::Variant(label0, p) => match self {
-                Value::Variant(label1, v) if label0 == label1 => v.matches_inner(scope, p),
+                Value::Variant(label1, v) if label0 == label1 => {
+                    v.coerce_nominal_value().matches_inner(scope, p)
+                }
                 _ => false,
             },
             Pattern::Option(None) => matches!(self, Value::Option(None)),
             Pattern::Option(Some(p)) => match self {
-                Value::Option(Some(v)) => v.matches_inner(scope, p),
+                Value::Option(Some(v)) => v.coerce_nominal_value().matches_inner(scope, p),
                 _ => false,
             },
         }
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 060db7b..6d6bf2f 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -414,7 +414,7 @@ impl ParsedValue {
             Pattern::Tuple(ps) => match self {
                 ParsedValue::Tuple(vs) if ps.len() == vs.inner.len() => {
                     for (p, v) in Iterator::zip(ps.iter(), vs.inner.iter()) {
-                        if !v.matches_inner(scope, p) {
+                        if !v.coerce_nominal_value().matches_inner(scope, p) {
                             return false;
                         }
                     }
@@ -425,7 +425,7 @@ impl ParsedValue {
             Pattern::Seq(ps) => match self {
                 ParsedValue::Seq(vs) if ps.len() == vs.inner.len() => {
                     for (p, v) in Iterator::zip(ps.iter(), vs.inner.iter()) {
-                        if !v.matches_inner(scope, p) {
+                        if !v.coerce_nominal_value().matches_inner(scope, p) {
                             return false;
                         }
                     }
@@ -434,12 +434,14 @@ impl ParsedValue {
                 _ => false,
             },
             Pattern::Variant(label0, p) => match self {
-                ParsedValue::Variant(label1, v) if label0 == label1 => v.matches_inner(scope, p),
+                ParsedValue::Variant(label1, v) if label0 == label1 => {
+                    v.coerce_nominal_value().matches_inner(scope, p)
+                }
                 _ => false,
             },
             Pattern::Option(None) => matches!(self, ParsedValue::Option(None)),
             Pattern::Option(Some(p)) => match self {
-                ParsedValue::Option(Some(v)) => v.matches_inner(scope, p),
+                ParsedValue::Option(Some(v)) => v.coerce_nominal_value().matches_inner(scope, p),
                 _ => false,
             },
             Pattern::Int(bounds) => match self {
-- 
2.43.0


From 1befd0b0e112de875d4f39220914abd79b18b79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:37 +0000
Subject: [PATCH 11/42] fix: length of a sequence is not silently wrapped to 32
 bits

---
 src/decoder.rs     | 2 +-
 src/loc_decoder.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 3634305..658787c 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -253,7 +253,7 @@ impl Expr {
             Expr::SeqLength(seq) => match seq.eval(scope).coerce_mapped_value().get_sequence() {
                 Some(values) => {
                     let len = values.len();
-                    Cow::Owned(Value::U32(len as u32))
+                    Cow::Owned(Value::U32(u32::try_from(len).unwrap()))
                 }
                 _ => panic!("SeqLength: expected Seq"),
             },
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 6d6bf2f..26e54f4 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -845,7 +845,7 @@ impl Expr {
             {
                 Some(values) => {
                     let len = values.len();
-                    Cow::Owned(ParsedValue::from_evaluated(Value::U32(len as u32)))
+                    Cow::Owned(ParsedValue::from_evaluated(Value::U32(u32::try_from(len).unwrap())))
                 }
                 _ => panic!("SeqLength: expected Seq (or EnumFromTo)"),
             },
-- 
2.43.0


From 08633fed2be16f9caf51b821864c1e5331071ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:42 +0000
Subject: [PATCH 12/42] fix: an optional format is compiled against what
 follows it

---
 src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 658787c..27db5f1 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -812,7 +812,7 @@ impl<'a> Compiler<'a> {
                 ))
             }
             Format::Maybe(x, a) => {
-                let da = Box::new(self.compile_format(a, Rc::new(Next::Empty))?);
+                let da = Box::new(self.compile_format(a, next)?);
                 Ok(Decoder::Maybe(x.clone(), da))
             }
             Format::Peek(a) => {
-- 
2.43.0


From 420a435861a38bd6e2f9e530c74e41a9ddf22081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:42 +0000
Subject: [PATCH 13/42] fix: a named repetition is compiled against what
 follows it when its element depends on that

---
 src/format.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/format.rs b/src/format.rs
index 12f1662..0509838 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -450,10 +450,10 @@ impl Format {
                 fmts.iter().any(|f| f.depends_on_next(module))
             }
             Format::Repeat(..) | Format::Repeat1(..) | Format::RepeatBetween(..) => true,
-            Format::RepeatCount(..) | Format::RepeatUntilLast(..) | Format::RepeatUntilSeq(..) => {
-                false
-            }
-            Format::AccumUntil(..) => false,
+            Format::RepeatCount(_, f)
+            | Format::RepeatUntilLast(_, f)
+            | Format::RepeatUntilSeq(_, f)
+            | Format::AccumUntil(.., f) => f.depends_on_next(module),
             Format::Maybe(..) => true,
             Format::Peek(..) | Format::PeekNot(..) => false,
             Format::Slice(..) => false,
-- 
2.43.0


From 43d6940b8d514cb0cfc8eeb4c0969ca7fd0aba4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:42 +0000
Subject: [PATCH 14/42] fix: lookahead past a repetition with equal bounds does
 not panic

---
 src/lib.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 21c666f..dca9637 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1670,10 +1670,6 @@ impl<'a> MatchTreeStep<'a> {
             Next::RepeatBetween(n, m, a, next0) => {
                 let min = *n;
                 let max = *m;
-                if min == max {
-                    // FIXME - this is technically allowable but we don't expect to get here...
-                    unreachable!("RepeatBetween(x, y, ..) precludes x == y");
-                }
                 if min > 0 {
                     Self::from_mt_format(
                         module,
-- 
2.43.0


From d5297131abfe6651d1cdc7c66e4741a4ff6ce950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:42 +0000
Subject: [PATCH 15/42] fix: a permitted failure consumes nothing, so repeating
 it is rejected like any nullable format

---
 src/codegen/typed_format.rs | 6 ++++--
 src/format.rs               | 6 +++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/codegen/typed_format.rs b/src/codegen/typed_format.rs
index cba0d8e..10f1547 100644
--- a/src/codegen/typed_format.rs
+++ b/src/codegen/typed_format.rs
@@ -481,9 +481,11 @@ impl TypedFormat<GenType> {
             }
             #[cfg(feature = "format_enforce")]
             TypedFormat::Enforce(.., inner) => inner.match_bounds(),
-            TypedFormat::Permit(.., inner, _) | TypedFormat::Hint(.., inner) => {
-                inner.match_bounds()
+            // NOTE - the fallback value of a failed Permit consumes nothing
+            TypedFormat::Permit(.., inner, _) => {
+                Bounds::union(Bounds::exact(0), inner.match_bounds())
             }
+            TypedFormat::Hint(.., inner) => inner.match_bounds(),
             TypedFormat::LiftedOption(_, f) => {
                 f.as_ref().map_or(Bounds::exact(0), |f| f.match_bounds())
             }
diff --git a/src/format.rs b/src/format.rs
index 0509838..b4deb63 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -312,7 +312,11 @@ impl Format {
             Format::LetFormat(first, _, second) | Format::MonadSeq(first, second) => {
                 first.match_bounds(module) + second.match_bounds(module)
             }
-            Format::Permit(inner, ..) | Format::Hint(.., inner) => inner.match_bounds(module),
+            // NOTE - the fallback value of a failed Permit consumes nothing
+            Format::Permit(inner, ..) => {
+                Bounds::union(Bounds::exact(0), inner.match_bounds(module))
+            }
+            Format::Hint(.., inner) => inner.match_bounds(module),
             #[cfg(feature = "format_enforce")]
             Format::Enforce(inner) => inner.match_bounds(module),
             Format::LiftedOption(opt) => match opt {
-- 
2.43.0


From d7f4a486bf67e5a5edd954601f8ab7fc05c0c04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:42 +0000
Subject: [PATCH 16/42] fix: lookahead into a slice admits the bytes its
 content leaves unread

---
 src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index dca9637..61b67d3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1613,10 +1613,10 @@ impl<'a> MatchTreeStep<'a> {
     ) -> MatchTreeStep<'a> {
         if n > 0 {
             let mut tree = Self::from_next(module, inner);
-            tree.accept = false;
-            if tree.branches.is_empty() {
+            if tree.accept || tree.branches.is_empty() {
+                // once the inner format may be complete, the rest of the slice can be anything
                 let next = Rc::new(Next::Slice(n - 1, Rc::new(Next::Empty), next.clone()));
-                tree.branches.push((ByteSet::full(), next));
+                tree = Self::branch(ByteSet::full(), next);
             } else {
                 for (_bs, inside) in tree.branches.iter_mut() {
                     *inside = Rc::new(Next::Slice(n - 1, inside.clone(), next.clone()));
-- 
2.43.0


From 210360a330a62db0a1d271e166bcec6a23f84631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:29 +0000
Subject: [PATCH 17/42] fix: bitwise and of bounds admits the bits of an
 inexact operand

The upper end of `a & b` was computed with the operand masks of the wrong
side, so that exact(3) & (0..=3) was 0..=0 although 3 & 3 = 3.
---
 src/bounds.rs | 31 +------------------------------
 1 file changed, 1 insertion(+), 30 deletions(-)

diff --git a/src/bounds.rs b/src/bounds.rs
index fe16bae..4c0d42a 100644
--- a/src/bounds.rs
+++ b/src/bounds.rs
@@ -277,22 +277,6 @@ impl Bounds {
             max: self.max.map(|n| n.div_ceil(8)),
         }
     }
-
-    /// Finds the pair `(x, m)` that yields the maximal `x & m` for `x` in the bounds of `self`.
-    ///
-    /// May fudge the value of `x` to an out-of-range value to shortcut the computation of `x & m`
-    /// over all in-range values, with the guarantee that the resulting bitwise-and will be no less
-    /// than the true maximum of `y & m` for actually-in-range `y`.
-    fn best_mask(&self, m: usize) -> (usize, usize) {
-        if self.contains(m) {
-            (m, m)
-        } else {
-            match self.max {
-                Some(n) => (mask(n), m),
-                _ => (m, m),
-            }
-        }
-    }
 }
 
 macro_rules! try_from_bounds {
@@ -455,20 +439,7 @@ impl BitAnd<Bounds> for Bounds {
         Bounds {
             min: (k1 & k2),
             max: match (lo_self.max, lo_rhs.max) {
-                (Some(m1), Some(m2)) => Some(match (lo_self.min == m1, lo_rhs.min == m2) {
-                    (true, true) => blend_bits(k1, k2, m1, m2),
-                    (true, false) => {
-                        // NOTE - the order of x2 and m in blend_bits matters
-                        let (x2, m) = lo_rhs.best_mask(m1);
-                        blend_bits(k1, k2, m, x2)
-                    }
-                    (false, true) => {
-                        // NOTE - the order of x1 and m in blend_bits matters
-                        let (x1, m) = lo_self.best_mask(m2);
-                        blend_bits(k1, k2, x1, m)
-                    }
-                    (false, false) => blend_bits(k1, k2, mask(m1), mask(m2)),
-                }),
+                (Some(m1), Some(m2)) => Some(blend_bits(k1, k2, mask(m1), mask(m2))),
                 _ => None,
             },
         }
-- 
2.43.0


From 18fad65193ebf943f7f2e0e45af8823dd3702876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:32 +0000
Subject: [PATCH 18/42] fix: bits past the end of a slice are not readable

In bits-mode the position one to seven bits past a limit measured in bytes
compared as unordered with it, so up to seven bits beyond the slice were read.
---
 src/parser/offset.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/offset.rs b/src/parser/offset.rs
index 2d10ba7..2302bdb 100644
--- a/src/parser/offset.rs
+++ b/src/parser/offset.rs
@@ -171,7 +171,10 @@ impl PartialOrd for ByteOffset {
             Ordering::Equal => match (o1, o2) {
                 (None, None) => Some(Ordering::Equal),
                 (Some(m1), Some(m2)) => Some(m1.cmp(&m2)),
-                _ => None,
+                // NOTE - the same position in different modes is neither equal, nor before or after
+                (None, Some(0)) | (Some(0), None) => None,
+                (None, Some(_)) => Some(Ordering::Less),
+                (Some(_), None) => Some(Ordering::Greater),
             },
             _ => Some(partial),
         }
-- 
2.43.0


From a442956432253358fda194c7eb8fff369551e178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:32 +0000
Subject: [PATCH 19/42] fix: capturing more bytes than a view holds is an error
 instead of a panic

---
 generated/gencode.rs | 14 +++++++-------
 src/codegen/model.rs |  4 ++--
 src/parser/view.rs   | 13 ++++++++++---
 3 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/generated/gencode.rs b/generated/gencode.rs
index 3aac61b..a95c39b 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -8877,7 +8877,7 @@ return Err(ParseError::ExcludedBranch(5712308626808297759u64));
 let _here = _input.get_offset_u64();
 let waldo = {
 let scope = _input.view();
-scope.offset((try_sub!(r#where, _here, 13646096770106105413u64)) as usize)?.read_len(5u8 as usize)
+scope.offset((try_sub!(r#where, _here, 13646096770106105413u64)) as usize)?.read_len(5u8 as usize)?
 };
 _input.skip_remainder();
 PResult::Ok(waldo_main { r#where, noise, waldo })
@@ -13775,7 +13775,7 @@ u32be(x)
 };
 let signature = {
 let here_view = _input.view();
-here_view.read_len(signature_length as usize)
+here_view.read_len(signature_length as usize)?
 };
 PResult::Ok(opentype_dsig_sig_format1 { signature_length, signature })
 }
@@ -14261,7 +14261,7 @@ let svg_document_length = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u32be(x)
 };
-let _svg_document = list_view.offset(svg_document_offset as usize)?.read_len(svg_document_length as usize);
+let _svg_document = list_view.offset(svg_document_offset as usize)?.read_len(svg_document_length as usize)?;
 let _svg_document_utf8 = std::marker::PhantomData;
 PResult::Ok(opentype_svg_document_record { start_glyph_id, end_glyph_id, svg_document_offset, svg_document_length, _svg_document, _svg_document_utf8 })
 }
@@ -16409,7 +16409,7 @@ unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?
 };
 let map_data = {
 let here_view = _input.view();
-here_view.read_len((map_count * (entry_size as u32)) as usize)
+here_view.read_len((map_count * (entry_size as u32)) as usize)?
 };
 PResult::Ok(opentype_var_delta_set_index_map { format, entry_size, inner_index_bits, map_count, map_data })
 }
@@ -21056,7 +21056,7 @@ fn Decoder_opentype_post_pascal_string<'input>(_input: &mut Parser<'input>) -> R
 let length = _input.read_byte()?;
 let string = {
 let pascal_string_data = _input.view();
-pascal_string_data.read_len(length as usize)
+pascal_string_data.read_len(length as usize)?
 };
 PResult::Ok(opentype_post_pascal_string { length, string })
 }
@@ -21088,7 +21088,7 @@ let offset = {
 let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
-let data = storage_view.offset(offset as usize)?.read_len(length as usize);
+let data = storage_view.offset(offset as usize)?.read_len(length as usize)?;
 opentype_name_name_record_string { offset, data }
 };
 PResult::Ok(opentype_name_name_record { platform, encoding, language, name_id, length, string })
@@ -21122,7 +21122,7 @@ let offset = {
 let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
-let data = storage_view.offset(offset as usize)?.read_len(length as usize);
+let data = storage_view.offset(offset as usize)?.read_len(length as usize)?;
 opentype_name_name_record_string { offset, data }
 };
 PResult::Ok(opentype_name_lang_tag_record { length, lang_tag })
diff --git a/src/codegen/model.rs b/src/codegen/model.rs
index aadbed2..dede208 100644
--- a/src/codegen/model.rs
+++ b/src/codegen/model.rs
@@ -242,9 +242,9 @@ pub fn get_view(parser: RustExpr) -> RustExpr {
     call!(parser, view)
 }
 
-/// Model RustExpr for handling `ViewFormat::CaptureBytes(len)` in the Parser (View) model.
+/// Model RustExpr for handling `ViewFormat::CaptureBytes(len)` in the Parser (View) model (Try-call).
 pub fn read_from_view(view: RustExpr, len: RustExpr) -> RustExpr {
-    call!(view, read_len, len)
+    try_call!(view, read_len, len)
 }
 
 /// Model RustExpr for handling `ViewFormat::ReadArray(len, kind)` in the Parser (View) model.
diff --git a/src/parser/view.rs b/src/parser/view.rs
index 4a1f5c9..b6c9947 100644
--- a/src/parser/view.rs
+++ b/src/parser/view.rs
@@ -24,9 +24,16 @@ impl<'a> View<'a> {
         }
     }
 
-    /// Reads a slice of `len` bytes from the View, offset by `offset`.
-    pub fn read_len(&self, len: usize) -> &'a [u8] {
-        &self.buffer[..len]
+    /// Reads a slice of `len` bytes from the start of the View.
+    ///
+    /// Returns an error if the View holds fewer than `len` bytes.
+    pub fn read_len(&self, len: usize) -> Result<&'a [u8], DoodleParseError> {
+        self.buffer.get(..len).ok_or_else(|| {
+            DoodleParseError::Overrun(OverrunKind::EndOfStream {
+                offset: ByteOffset::from_bytes(self.start_offset.saturating_add(len)),
+                max_offset: ByteOffset::from_bytes(self.start_offset + self.buffer.len()),
+            })
+        })
     }
 
     pub fn offset(&self, offset: usize) -> Result<Self, DoodleParseError> {
-- 
2.43.0


From fe80738268f7b194e3e50896e8f0c45f3353fadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:50 +0000
Subject: [PATCH 20/42] fix: positions and alignment in a parser over a view
 count from the start of the buffer

The interpreters and the seeking of the same parser already do.
---
 src/parser/mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 36f9f96..10d5585 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -163,11 +163,15 @@ impl<'a> Parser<'a> {
     /// ```
     pub fn skip_align(&mut self, n: usize) -> Result<(), ParseError> {
         let current_offset = self.offset.get_current_offset();
+        // NOTE - byte-positions are counted from the start of the entire buffer, also when parsing from a view into it
+        let start = self.buffer.start_offset;
         let aligned_offset = match current_offset {
-            ByteOffset::Bytes(nbytes) if nbytes % n == 0 => current_offset,
+            ByteOffset::Bytes(nbytes) if (start + nbytes) % n == 0 => current_offset,
             ByteOffset::Bits { bits_advanced, .. } if bits_advanced % n == 0 => current_offset,
 
-            ByteOffset::Bytes(nbytes) => ByteOffset::from_bytes(((nbytes / n) + 1) * n),
+            ByteOffset::Bytes(nbytes) => {
+                ByteOffset::from_bytes((((start + nbytes) / n) + 1) * n - start)
+            }
             ByteOffset::Bits {
                 starting_byte,
                 bits_advanced,
@@ -351,7 +355,7 @@ impl<'a> Parser<'a> {
     /// As currently defined, will panic if we are in bits-mode.
     pub fn get_offset_u64(&self) -> u64 {
         match self.get_current_offset() {
-            ByteOffset::Bytes(n) => n as u64,
+            ByteOffset::Bytes(n) => (self.buffer.start_offset + n) as u64,
             ByteOffset::Bits { .. } => {
                 // FIXME - this panic should perhaps be eliminated if possible
                 unreachable!("no unequivocal way to compute a byte-offset while in bits-mode");
-- 
2.43.0


From 6a98e55ad37037e7cf0d750d6e39610d0c6de69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:33 +0000
Subject: [PATCH 21/42] fix: generated lookahead accepts the end of input and
 other bytes where its tree does

The interpreters fall back to the accepting alternative both when no branch
holds the next byte and when there is no next byte; generated parsers failed.
---
 generated/gencode.rs | 800 ++++++++++++++++++++++++++++++++-----------
 src/codegen/mod.rs   |  31 +-
 2 files changed, 627 insertions(+), 204 deletions(-)

diff --git a/generated/gencode.rs b/generated/gencode.rs
index a95c39b..026bc6e 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -8890,7 +8890,10 @@ while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
 {
-let ret = match _input.read_byte()? {
+let ret = if _input.remaining() == 0 {
+0
+} else {
+match _input.read_byte()? {
 90u8 => {
 1
 },
@@ -8900,7 +8903,8 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8638089167112501923u64));
+0
+}
 }
 };
 _input.close_peek_context()?;
@@ -8986,12 +8990,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 31 {
+let ret = if _input.remaining() == 0 {
+0
+} else {
+let b = _input.read_byte()?;
+if b == 31 {
 1
 } else {
 0
+}
 };
 _input.close_peek_context()?;
 ret
@@ -9056,9 +9064,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -9545,12 +9557,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
 };
 _input.close_peek_context()?;
 ret
@@ -9738,7 +9754,10 @@ while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
 {
-let ret = match _input.read_byte()? {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+match _input.read_byte()? {
 0u8 => {
 0
 },
@@ -9772,7 +9791,8 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14550754927305275517u64));
+1
+}
 }
 };
 _input.close_peek_context()?;
@@ -9858,7 +9878,10 @@ while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
 {
-let ret = match _input.read_byte()? {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+match _input.read_byte()? {
 0u8 => {
 0
 },
@@ -9900,7 +9923,8 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10940017698627680568u64));
+1
+}
 }
 };
 _input.close_peek_context()?;
@@ -10350,9 +10374,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -10377,9 +10405,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -10924,9 +10956,13 @@ let mut accum = Vec::new();
 while view_input.remaining() > 0 {
 let matching_ix = {
 view_input.open_peek_context();
-view_input.read_byte()?;
 {
-let ret = 0;
+let ret = if view_input.remaining() == 0 {
+1
+} else {
+view_input.read_byte()?;
+0
+};
 view_input.close_peek_context()?;
 ret
 }
@@ -10965,9 +11001,13 @@ let mut accum = Vec::new();
 while view_input.remaining() > 0 {
 let matching_ix = {
 view_input.open_peek_context();
-view_input.read_byte()?;
 {
-let ret = 0;
+let ret = if view_input.remaining() == 0 {
+1
+} else {
+view_input.read_byte()?;
+0
+};
 view_input.close_peek_context()?;
 ret
 }
@@ -11038,9 +11078,13 @@ let mut accum = Vec::new();
 while view_input.remaining() > 0 {
 let matching_ix = {
 view_input.open_peek_context();
-view_input.read_byte()?;
 {
-let ret = 0;
+let ret = if view_input.remaining() == 0 {
+1
+} else {
+view_input.read_byte()?;
+0
+};
 view_input.close_peek_context()?;
 ret
 }
@@ -14326,7 +14370,10 @@ while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
 {
-let ret = match _input.read_byte()? {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+match _input.read_byte()? {
 0u8 => {
 0
 },
@@ -14368,7 +14415,8 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3433937857563719729u64));
+1
+}
 }
 };
 _input.close_peek_context()?;
@@ -14391,12 +14439,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 31 {
+let ret = if _input.remaining() == 0 {
+0
+} else {
+let b = _input.read_byte()?;
+if b == 31 {
 1
 } else {
 0
+}
 };
 _input.close_peek_context()?;
 ret
@@ -14492,9 +14544,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -21519,9 +21575,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -21682,9 +21742,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -22620,12 +22684,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
 };
 _input.close_peek_context()?;
 ret
@@ -22827,12 +22895,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
 };
 _input.close_peek_context()?;
 ret
@@ -22908,12 +22980,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
 };
 _input.close_peek_context()?;
 ret
@@ -22989,12 +23065,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
 };
 _input.close_peek_context()?;
 ret
@@ -23199,12 +23279,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
 };
 _input.close_peek_context()?;
 ret
@@ -23280,12 +23364,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
 };
 _input.close_peek_context()?;
 ret
@@ -23453,12 +23541,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
 };
 _input.close_peek_context()?;
 ret
@@ -23534,12 +23626,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
 };
 _input.close_peek_context()?;
 ret
@@ -23602,7 +23698,10 @@ while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
 {
-let ret = match _input.read_byte()? {
+let ret = if _input.remaining() == 0 {
+0
+} else {
+match _input.read_byte()? {
 0u8 => {
 0
 },
@@ -23612,7 +23711,8 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(275550262640764009u64));
+0
+}
 }
 };
 _input.close_peek_context()?;
@@ -23644,12 +23744,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
 };
 _input.close_peek_context()?;
 ret
@@ -23692,7 +23796,10 @@ while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
 {
-let ret = match _input.read_byte()? {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+match _input.read_byte()? {
 byte if (byte != 0) => {
 0
 },
@@ -23702,7 +23809,8 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11297314001547702431u64));
+1
+}
 }
 };
 _input.close_peek_context()?;
@@ -23730,12 +23838,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
 };
 _input.close_peek_context()?;
 ret
@@ -23806,12 +23918,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() == 0 {
+0
+} else {
+let b = _input.read_byte()?;
+if b == 0 {
 1
 } else {
 0
+}
 };
 _input.close_peek_context()?;
 ret
@@ -23963,9 +24079,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -24023,9 +24143,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -24050,9 +24174,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -24089,9 +24217,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -24256,9 +24388,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -24467,9 +24603,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -24612,9 +24752,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 1;
+let ret = if _input.remaining() == 0 {
+0
+} else {
+_input.read_byte()?;
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -24677,9 +24821,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -24975,9 +25123,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -25034,9 +25186,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -25168,9 +25324,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -25233,9 +25393,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -25268,9 +25432,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -29401,7 +29569,10 @@ while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
 {
-let ret = match _input.read_byte()? {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+match _input.read_byte()? {
 byte if ((ByteSet::from_bits([18446744073709551614u64, 18446744073709551615u64, 0u64, 0u64])).contains(byte)) => {
 0
 },
@@ -29439,7 +29610,8 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8473763373531540844u64));
+1
+}
 }
 };
 _input.close_peek_context()?;
@@ -29468,7 +29640,10 @@ while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
 {
-let ret = match _input.read_byte()? {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+match _input.read_byte()? {
 0u8 => {
 0
 },
@@ -29510,7 +29685,8 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9532564966458988001u64));
+1
+}
 }
 };
 _input.close_peek_context()?;
@@ -30655,9 +30831,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -30680,9 +30860,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -30705,9 +30889,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -30747,9 +30935,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -30839,9 +31031,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -30864,9 +31060,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -30889,9 +31089,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31060,9 +31264,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31085,9 +31293,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31110,9 +31322,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31173,9 +31389,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31198,9 +31418,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31374,9 +31598,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31452,9 +31680,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31477,9 +31709,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31682,9 +31918,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31707,9 +31947,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31732,9 +31976,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31833,9 +32081,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31942,9 +32194,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32295,9 +32551,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32330,9 +32590,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32381,9 +32645,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32448,9 +32716,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32498,9 +32770,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32523,9 +32799,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32548,9 +32828,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32710,9 +32994,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32735,9 +33023,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32898,9 +33190,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32923,9 +33219,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32987,9 +33287,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -33027,9 +33331,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -33266,9 +33574,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -36296,9 +36608,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 1;
+let ret = if _input.remaining() == 0 {
+0
+} else {
+_input.read_byte()?;
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -36530,9 +36846,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -36585,9 +36905,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -36640,9 +36964,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -36695,9 +37023,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -36750,9 +37082,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -36805,9 +37141,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -36860,9 +37200,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -36915,9 +37259,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -36970,9 +37318,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37025,9 +37377,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37080,9 +37436,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37135,9 +37495,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37190,9 +37554,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37245,9 +37613,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37300,9 +37672,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37397,9 +37773,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37439,9 +37819,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37528,9 +37912,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37862,12 +38250,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 31 {
+let ret = if _input.remaining() == 0 {
+0
+} else {
+let b = _input.read_byte()?;
+if b == 31 {
 1
 } else {
 0
+}
 };
 _input.close_peek_context()?;
 ret
@@ -37975,12 +38367,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
 };
 _input.close_peek_context()?;
 ret
@@ -39082,9 +39478,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index 48cfa17..60b4f7f 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -739,6 +739,21 @@ fn invoke_matchtree(tree: &MatchTree, ctxt: ProdCtxt<'_>) -> RustExpr {
 // follows the same rules as CaseLogic::to_ast as far as the expression type of the generated code
 fn embed_matchtree(tree: &MatchTree, ctxt: ProdCtxt<'_>) -> GenBlock {
     fn expand_matchtree(tree: &MatchTree, ctxt: ProdCtxt<'_>) -> GenBlock {
+        let block = expand_branches(tree, ctxt);
+        match tree.accept {
+            // NOTE - a tree that accepts here also does so when there is no further byte to descend on
+            Some(ix) if !tree.branches.is_empty() => {
+                GenBlock::simple_expr(RustExpr::Control(Box::new(RustControl::If(
+                    Box::new(model::eq0(model::rem_bytes(ctxt.parser()))),
+                    vec![RustStmt::Return(ReturnKind::Implicit, RustExpr::num_lit(ix))],
+                    Some(block.flatten()),
+                ))))
+            }
+            _ => block,
+        }
+    }
+
+    fn expand_branches(tree: &MatchTree, ctxt: ProdCtxt<'_>) -> GenBlock {
         match &tree.branches[..] {
             [] => {
                 if let Some(ix) = tree.accept {
@@ -826,10 +841,18 @@ fn embed_matchtree(tree: &MatchTree, ctxt: ProdCtxt<'_>) -> GenBlock {
                     RustExpr::scoped(["ParseError"], "ExcludedBranch")
                         .call_with([RustExpr::u64lit(get_trace(&(tree, "catchall-nomatch")))]),
                 ));
-                let match_block = RustControl::Match(
-                    call,
-                    RustMatchBody::Refutable(cases, RustCatchAll::ReturnErrorValue { value }),
-                );
+                let body = match tree.accept {
+                    Some(ix) => {
+                        let lhs = MatchCaseLHS::Pattern(RustPattern::CatchAll(None));
+                        let rhs = RustStmt::Return(ReturnKind::Implicit, RustExpr::num_lit(ix));
+                        cases.push((lhs, vec![rhs]));
+                        RustMatchBody::Irrefutable(cases)
+                    }
+                    None => {
+                        RustMatchBody::Refutable(cases, RustCatchAll::ReturnErrorValue { value })
+                    }
+                };
+                let match_block = RustControl::Match(call, body);
                 GenBlock::simple_expr(RustExpr::Control(Box::new(match_block)))
             }
         }
-- 
2.43.0


From 21c634eed3bc75e3088c4ec9ec6e3be9e80ac56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:36 +0000
Subject: [PATCH 22/42] fix: generated repetitions with a minimum do not accept
 the end of input before reaching it

---
 generated/gencode.rs | 34 +++++++++++++++++-----------------
 src/codegen/mod.rs   | 18 ++++++++++--------
 2 files changed, 27 insertions(+), 25 deletions(-)

diff --git a/generated/gencode.rs b/generated/gencode.rs
index 026bc6e..efdf854 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -8886,7 +8886,7 @@ PResult::Ok(waldo_main { r#where, noise, waldo })
 /// d#3
 fn Decoder3(_input: &mut Parser<'_>) -> Result<Vec<u32>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -8987,7 +8987,7 @@ PResult::Ok(accum)
 /// d#6
 fn Decoder6(_input: &mut Parser<'_>) -> Result<Vec<gzip_main>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -9237,7 +9237,7 @@ let idat = {
 let idat = {
 let xs = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 _input.read_byte()?;
@@ -9503,7 +9503,7 @@ PResult::Ok(tiff_main { start_of_header, byte_order, magic, offset, ifd })
 fn Decoder_tar_main(_input: &mut Parser<'_>) -> Result<tar_main, ParseError> {
 let contents = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -14436,7 +14436,7 @@ PResult::Ok(accum)
 /// d#79
 fn Decoder79(_input: &mut Parser<'_>) -> Result<Vec<gzip_main>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -23694,7 +23694,7 @@ PResult::Ok(ret)
 fn Decoder_tar_ascii_string_opt0_nonempty(_input: &mut Parser<'_>) -> Result<tar_ascii_string_opt0_nonempty, ParseError> {
 let string = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -23915,7 +23915,7 @@ accum
 };
 {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -24749,7 +24749,7 @@ PResult::Ok(accum)
 /// d#287
 fn Decoder287(_input: &mut Parser<'_>) -> Result<Vec<gif_color_table_entry>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -25501,7 +25501,7 @@ PResult::Ok(png_time { year, month, day, hour, minute, second })
 /// d#302
 fn Decoder302(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let reps_left = {
 _input.open_peek_context();
 {
@@ -26478,7 +26478,7 @@ PResult::Ok(accum)
 /// d#303
 fn Decoder303(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let reps_left = {
 _input.open_peek_context();
 {
@@ -27500,7 +27500,7 @@ PResult::Ok(zlib_main { compression_method_flags, flags, dict_id, data, adler32
 /// d#305
 fn Decoder305(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let reps_left = {
 _input.open_peek_context();
 {
@@ -28477,7 +28477,7 @@ PResult::Ok(accum)
 /// d#306
 fn Decoder306(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let reps_left = {
 _input.open_peek_context();
 {
@@ -29706,7 +29706,7 @@ PResult::Ok(accum)
 /// d#312
 fn Decoder312(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let reps_left = {
 _input.open_peek_context();
 {
@@ -36605,7 +36605,7 @@ let sz = (try_sub!(length, 2u16, 3198904588321530108u64)) as usize;
 _input.start_slice(sz)?;
 let ret = ((|| {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -38247,7 +38247,7 @@ PResult::Ok(gzip_fcomment { comment })
 /// d#452
 fn Decoder452(_input: &mut Parser<'_>) -> Result<Vec<gzip_main>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -38313,7 +38313,7 @@ PResult::Ok(accum)
 fn Decoder453(_input: &mut Parser<'_>) -> Result<tar_main, ParseError> {
 let contents = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -39183,7 +39183,7 @@ fn Decoder477(_input: &mut Parser<'_>) -> Result<u32, ParseError> {
 let tuple_var = {
 let arg0 = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let reps_left = {
 _input.open_peek_context();
 {
diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index 60b4f7f..1b78ca6 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -3071,10 +3071,11 @@ where
                     )
                     .into();
                     let escape_clause = GenControl::If(Box::new(cond), b_stop, Some(b_continue));
-                    GenControl::While(
-                        Box::new(model::gt0(model::rem_bytes(ctxt.parser()))),
-                        GenBlock::from_parts(vec![bind_ix], Some(escape_clause.into())),
-                    )
+                    // NOTE - the tree also decides whether the repetition may stop at the end of the input
+                    GenControl::Loop(GenBlock::from_parts(
+                        vec![bind_ix],
+                        Some(escape_clause.into()),
+                    ))
                 };
                 stmts.push(ctrl.into());
                 GenBlock::from_parts(stmts, Some(RustExpr::local(model::R1BOM_ACCUM).into()))
@@ -3105,10 +3106,11 @@ where
                     };
                     let b_stop = GenControl::Break.into();
                     let escape_clause = GenControl::If(Box::new(cond), b_stop, Some(b_continue));
-                    GenControl::While(
-                        Box::new(model::gt0(model::rem_bytes(ctxt.parser()))),
-                        GenBlock::from_parts(vec![bind_reps_left], Some(escape_clause.into())),
-                    )
+                    // NOTE - the tree also decides whether the repetition may stop at the end of the input
+                    GenControl::Loop(GenBlock::from_parts(
+                        vec![bind_reps_left],
+                        Some(escape_clause.into()),
+                    ))
                 };
                 stmts.push(ctrl.into());
                 GenBlock::from_parts(stmts, Some(RustExpr::local(model::BETWEEN_ACCUM).into()))
-- 
2.43.0


From b2f9632e5f9624f710f3e2ebf2af08ddee7a7273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:08 +0000
Subject: [PATCH 23/42] fix: a successful alternative discards its branch-point
 in generated parsers

---
 generated/gencode.rs | 18 ++++++++++++++++++
 src/codegen/mod.rs   | 11 +++++++++--
 src/codegen/model.rs |  5 +++++
 src/parser/mod.rs    | 18 ++++++++++++++++--
 src/parser/offset.rs | 20 ++++++++++++++++++++
 5 files changed, 68 insertions(+), 4 deletions(-)

diff --git a/generated/gencode.rs b/generated/gencode.rs
index efdf854..eb89da7 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -8614,6 +8614,7 @@ PResult::Ok(main_data::waldo(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8627,6 +8628,7 @@ PResult::Ok(main_data::peano(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8640,6 +8642,7 @@ PResult::Ok(main_data::gif(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8653,6 +8656,7 @@ PResult::Ok(main_data::tgz(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8666,6 +8670,7 @@ PResult::Ok(main_data::gzip(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8679,6 +8684,7 @@ PResult::Ok(main_data::jpeg(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8692,6 +8698,7 @@ PResult::Ok(main_data::mpeg4(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8705,6 +8712,7 @@ PResult::Ok(main_data::png(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8718,6 +8726,7 @@ PResult::Ok(main_data::riff(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8731,6 +8740,7 @@ PResult::Ok(main_data::tiff(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8744,6 +8754,7 @@ PResult::Ok(main_data::tar(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8757,6 +8768,7 @@ PResult::Ok(main_data::elf(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8770,6 +8782,7 @@ PResult::Ok(main_data::opentype(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8783,6 +8796,7 @@ PResult::Ok(main_data::numbers(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8796,6 +8810,7 @@ PResult::Ok(main_data::rle(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -14320,6 +14335,7 @@ PResult::Ok(text_maybe_gzip::compressed(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -24670,6 +24686,7 @@ PResult::Ok(())
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -25109,6 +25126,7 @@ PResult::Ok(png_itxt_text::compressed(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index 1b78ca6..eb89029 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -3497,7 +3497,8 @@ where
                 let mut stmts = Vec::with_capacity(2 * l - 1);
                 let mut last_ctrl = None;
 
-                {
+                // NOTE - the final branch is parsed without a branch-point, so there is none to open if it is the only one
+                if l > 1 {
                     let start_alternation = model::start_alt(ctxt.parser()).into();
                     stmts.push(start_alternation);
                 }
@@ -3506,7 +3507,13 @@ where
                     let n_left = (l - 1) - ix;
                     let on_match = |ret_expr: RustExpr| match n_left {
                         0 => GenBlock::implicit_return(ret_expr),
-                        1.. => GenBlock::explicit_return(ret_expr),
+                        1.. => {
+                            let mut block = GenBlock::explicit_return(ret_expr);
+                            block.prepend_stmt(
+                                RustStmt::Expr(model::try_end_alt(ctxt.parser())).into(),
+                            );
+                            block
+                        }
                     };
                     let on_err = match n_left {
                         0 => GenBlock::implicit_return(RustExpr::ResultErr(Box::new(
diff --git a/src/codegen/model.rs b/src/codegen/model.rs
index dede208..30709fc 100644
--- a/src/codegen/model.rs
+++ b/src/codegen/model.rs
@@ -319,6 +319,11 @@ pub fn try_next_alt(parser: RustExpr, next_is_final: bool) -> RustExpr {
     try_call!(parser, next_alt, RustExpr::bool_lit(next_is_final))
 }
 
+/// Model RustExpr for discarding the branch-point of a `Format::UnionNondet` after a successful parse of a non-final branch.
+pub fn try_end_alt(parser: RustExpr) -> RustExpr {
+    try_call!(parser, end_alt)
+}
+
 // !SECTION
 
 // SECTION - boilerplate patterns based on incidental implementation details of codegen process
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 10d5585..1c2c040 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -304,11 +304,17 @@ impl<'a> Parser<'a> {
     /// let mut p = Parser::new(&buf);
     /// p.start_alt();
     /// match parse_a(&mut p) {
-    ///     Ok(result_a) => return ..., // short circuit to escape future alternation branches
+    ///     Ok(result_a) => {
+    ///         p.end_alt()?; // the branch-point is no longer needed
+    ///         return ...; // short circuit to escape future alternation branches
+    ///     }
     ///     Err(_) => p.next_alt(false)?, // the next branch, B, is not the last
     /// }
     /// match parse_b(&mut p) {
-    ///     Ok(result_b) => return ..., // short circuit to escape future alternation branches
+    ///     Ok(result_b) => {
+    ///         p.end_alt()?; // the branch-point is no longer needed
+    ///         return ...; // short circuit to escape future alternation branches
+    ///     }
     ///     Err(_) => p.next_alt(true)?, // the next branch, C, is the last
     /// }
     /// match parse_c(&mut p) {
@@ -324,6 +330,14 @@ impl<'a> Parser<'a> {
         Ok(())
     }
 
+    /// Closes the latest 'Alts' context after any branch other than the last was parsed successfully, without rewinding.
+    ///
+    /// The final branch is parsed with no branch-point left to return to, and must not be followed by a call to this method.
+    pub fn end_alt(&mut self) -> Result<(), ParseError> {
+        self.offset.close_parallel()?;
+        Ok(())
+    }
+
     /// Returns the number of bytes that remain in the current, possibly slice-limited context.
     ///
     /// The return value will be `0` if and only if `self.read_byte` will return `Err(ParseError::Overrun(...))`.
diff --git a/src/parser/offset.rs b/src/parser/offset.rs
index 2302bdb..4b161a5 100644
--- a/src/parser/offset.rs
+++ b/src/parser/offset.rs
@@ -288,6 +288,21 @@ impl ViewStack {
         }
         Err(StateError::NoRecovery)
     }
+
+    /// Drops the most recent [`Lens::Alts`] and every `Lens` above it, as no recovery to it is called for
+    /// once a branch of the alternation has been parsed successfully.
+    ///
+    /// Returns `Err(StateError::NoRecovery)` if there is no such `Lens`.
+    pub(crate) fn discard_parallel(&mut self) -> Result<(), StateError> {
+        let is_alts = |lens: &Lens| matches!(lens, Lens::Alts { .. });
+        match self.stack.iter().rposition(is_alts) {
+            Some(ix) => {
+                self.stack.truncate(ix);
+                Ok(())
+            }
+            None => Err(StateError::NoRecovery),
+        }
+    }
 }
 
 /// Enumeration over the (four) format-combinators that require special handling,
@@ -619,6 +634,11 @@ impl BufferOffset {
         self.view_stack.push_lens(parallel);
     }
 
+    /// Closes the most recently-opened [`Lens::Alts`], along with anything opened since, leaving the current offset as-is.
+    pub(crate) fn close_parallel(&mut self) -> Result<(), StateError> {
+        self.view_stack.discard_parallel()
+    }
+
     /// Performs a [`ViewStack::restore`] operation on the internal ViewStack, replacing
     /// the current offset and ViewStack's values with the return-value of that method call.
     ///
-- 
2.43.0


From 9289e4a23a16e52e07d42af4b74a2b088f001f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:46 +0000
Subject: [PATCH 24/42] fix: generated negative lookahead closes its context
 when it fails

---
 generated/gencode.rs | 1 +
 src/codegen/mod.rs   | 9 ++++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/generated/gencode.rs b/generated/gencode.rs
index eb89da7..7b24b29 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -24745,6 +24745,7 @@ Err(_e)
 if res.is_err() {
 _input.close_peek_not_context()?
 } else {
+_input.close_peek_not_context()?;
 return Err(ParseError::NegatedSuccess);
 }
 };
diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index eb89029..80057b6 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -2965,7 +2965,14 @@ where
                 let close_or_fail = GenExpr::Control(Box::new(RustControl::If(
                     Box::new(RustExpr::local(model::PEEK_NOT_RES).call_method("is_err")),
                     GenBlock::simple_expr(model::try_close_peek_not(ctxt.parser())),
-                    Some(GenBlock::explicit_return(model::err_bad_peek_not())),
+                    Some({
+                        // NOTE - the context is closed in either case, as whatever catches the error should not find it open
+                        let mut block = GenBlock::explicit_return(model::err_bad_peek_not());
+                        block.prepend_stmt(
+                            RustStmt::Expr(model::try_close_peek_not(ctxt.parser())).into(),
+                        );
+                        block
+                    }),
                 )));
                 let stmts = vec![open_peek_not, bind_res];
                 GenBlock::from_parts(stmts, Some(close_or_fail))
-- 
2.43.0


From d5621b6c2249429153047d72f413b986b966a6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:06 +0000
Subject: [PATCH 25/42] fix: generated parsers resume at the start of a
 permitted failure

---
 generated/gencode.rs |  3 +++
 src/codegen/mod.rs   | 15 ++++++++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/generated/gencode.rs b/generated/gencode.rs
index 7b24b29..fd36d25 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -11355,6 +11355,7 @@ None
 }
 };
 let dsig = {
+_input.start_alt();
 let res = (|| match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1146308935u32, tables)).copied() {
 Some(ref table) => {
 let mut view_parser = Parser::from(font_view.offset(table.offset as usize)?);
@@ -11372,10 +11373,12 @@ PResult::Ok(None)
 })();
 match res {
 Ok(res) => {
+_input.end_alt()?;
 res
 },
 
 Err(err) => {
+_input.next_alt(true)?;
 log::error!("expect-level value assertion failed: {}", err);
 None
 }
diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index 80057b6..fe3c9d8 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -3648,12 +3648,21 @@ impl ToAst for DerivedLogic<GTExpr> {
             DerivedLogic::Permit(inner, expr) => {
                 let rhs = inner.to_ast(ctxt).abstracted_try();
                 let bind_res = GenStmt::assign(model::PERMIT_BIND, rhs);
-                let if_ok = GenBlock::simple_expr(RustExpr::local(model::PERMIT_BIND));
+                // NOTE - the fallback-value of a failed parse consumes nothing, so we have to return to where we started
+                let start_permit = model::start_alt(ctxt.parser()).into();
+                let if_ok = GenBlock::lift_block(
+                    vec![RustStmt::Expr(model::try_end_alt(ctxt.parser()))],
+                    RustExpr::local(model::PERMIT_BIND),
+                );
                 let if_err = {
-                    let (stmts, expr) = model::yield_value_with_error(
+                    let (mut stmts, expr) = model::yield_value_with_error(
                         (&**expr).clone(),
                         RustExpr::local(model::PERMIT_ERR),
                     );
+                    stmts.insert(
+                        0,
+                        RustStmt::Expr(model::try_next_alt(ctxt.parser(), true)),
+                    );
                     GenBlock::lift_block(stmts, expr)
                 };
                 let ctrl = GenExpr::Control(Box::new(RustControl::Match(
@@ -3666,7 +3675,7 @@ impl ToAst for DerivedLogic<GTExpr> {
                         .to_vec(),
                     ),
                 )));
-                let block = GenBlock::from_parts(vec![bind_res], Some(ctrl));
+                let block = GenBlock::from_parts(vec![start_permit, bind_res], Some(ctrl));
                 block
             }
             #[cfg(feature = "format_enforce")]
-- 
2.43.0


From a065b75bf019d64ce0890be15a5426de5bdea3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:50 +0000
Subject: [PATCH 26/42] fix: skipping the remainder stays in bits-mode

---
 src/parser/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 1c2c040..1556b2a 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -107,7 +107,9 @@ impl<'a> Parser<'a> {
     }
 
     pub fn skip_remainder(&mut self) {
-        let after_skip = self.offset.current_limit();
+        // NOTE - advancing rather than assigning the limit, as the latter may be a byte-offset even in bits-mode
+        let current_offset = self.offset.get_current_offset();
+        let after_skip = current_offset.increment_by(self.offset.rem_local());
         unsafe {
             self.offset.set_offset(after_skip);
         }
-- 
2.43.0


From 4d192503fc73e2f8ce91899b99dc57893a9fc443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:41 +0000
Subject: [PATCH 27/42] fix: the number of elements announced by the input is
 not allocated before they are read

---
 src/decoder.rs     | 6 +++---
 src/loc_decoder.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 27db5f1..5168ebc 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1378,7 +1378,7 @@ impl Decoder {
             Decoder::RepeatCount(expr, a) => {
                 let count = expr.eval_value(scope).unwrap_usize();
                 Ok(WithErr::fold(
-                    (Vec::with_capacity(count), input),
+                    (Vec::new(), input),
                     0..count,
                     |(mut v, input), _| {
                         Ok(
@@ -1646,7 +1646,7 @@ impl Decoder {
                 let view_window = Self::eval_view_expr(scope, v_expr)?;
 
                 // accumulate `len` bytes into a Vec<Value>
-                let mut accum = Vec::with_capacity(len);
+                let mut accum = Vec::new();
                 let mut buf = view_window;
                 for _ in 0..len {
                     let Some((byte, new_buf)) = buf.read_byte() else {
@@ -1668,7 +1668,7 @@ impl Decoder {
                 let view_window = Self::eval_view_expr(scope, v_expr)?;
 
                 // REVIEW - hardcoded big-endianness
-                let mut accum = Vec::with_capacity(len);
+                let mut accum = Vec::new();
                 let mut buf = view_window;
                 for ix in 0..len {
                     let (val, new_buf) = try_with!(read_base(buf, *kind) => ("ReadArray", format!("index: {ix}"), format!("kind: {kind:?}"), format!("view: {v_expr:?}")));
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 26e54f4..27eaf10 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -1594,7 +1594,7 @@ impl Decoder {
             Decoder::RepeatCount(expr, a) => {
                 let count = expr.eval_value_with_loc(scope).unwrap_usize();
                 Ok(WithErr::fold(
-                    (Vec::with_capacity(count), input),
+                    (Vec::new(), input),
                     0..count,
                     |(mut v, input), _| {
                         Ok(a.parse_with_loc(program, scope, input)?
@@ -1885,7 +1885,7 @@ impl Decoder {
 
                 let view_window = Self::eval_view_expr_with_loc(scope, v_expr)?;
                 // accumulate `len` bytes into a Vec<Value>
-                let mut accum = Vec::with_capacity(len);
+                let mut accum = Vec::new();
                 let mut buf = view_window;
                 for i in 0..len {
                     let Some((byte, new_buf)) = buf.read_byte() else {
@@ -1912,7 +1912,7 @@ impl Decoder {
                 let view_window = Self::eval_view_expr_with_loc(scope, v_expr)?;
 
                 // REVIEW - hardcoded big-endianness
-                let mut accum = Vec::with_capacity(len);
+                let mut accum = Vec::new();
                 let mut buf = view_window;
                 for _ in 0..len {
                     let (val, new_buf) = read_base(buf, *kind)?;
-- 
2.43.0


From db0905d73b8d1e0b6e4acdfb74b7fc9fb2688ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:22 +0000
Subject: [PATCH 28/42] fix: lengths and offsets too large to add up are out of
 bounds instead of an overflow

---
 src/decoder.rs       | 2 +-
 src/loc_decoder.rs   | 2 +-
 src/parser/offset.rs | 5 +++--
 src/read.rs          | 6 +++++-
 4 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 5168ebc..f218ac6 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1537,7 +1537,7 @@ impl Decoder {
             Decoder::WithRelativeOffset(base_addr, expr, a) => {
                 let base = base_addr.eval_value(scope).unwrap_usize();
                 let offset = expr.eval_value(scope).unwrap_usize();
-                let abs_offset = base + offset;
+                let abs_offset = base.saturating_add(offset);
                 let seek_input = input.seek_to(abs_offset).ok_or(
                     DecodeErrorKind::bad_seek(abs_offset, input.input.len())
                         .with_trace("WithRelativeOffset(seek)"),
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 27eaf10..cacc42e 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -1786,7 +1786,7 @@ impl Decoder {
             Decoder::WithRelativeOffset(base_addr, expr, a) => {
                 let base_addr = base_addr.eval_value_with_loc(scope).unwrap_usize();
                 let offset = expr.eval_value_with_loc(scope).unwrap_usize();
-                let abs_offset = base_addr + offset;
+                let abs_offset = base_addr.saturating_add(offset);
                 let seek_input = input
                     .seek_to(abs_offset)
                     .ok_or(DecodeErrorKind::bad_seek(abs_offset, input.input.len()))?;
diff --git a/src/parser/offset.rs b/src/parser/offset.rs
index 4b161a5..2210a77 100644
--- a/src/parser/offset.rs
+++ b/src/parser/offset.rs
@@ -68,15 +68,16 @@ impl ByteOffset {
         matches!(self, Self::Bits { .. })
     }
 
+    // NOTE - `delta` may be any number found in the input, so an offset beyond `usize::MAX` has to stay out of bounds
     pub(crate) fn increment_by(&self, delta: usize) -> Self {
         match *self {
-            ByteOffset::Bytes(n_bytes) => Self::Bytes(n_bytes + delta),
+            ByteOffset::Bytes(n_bytes) => Self::Bytes(n_bytes.saturating_add(delta)),
             ByteOffset::Bits {
                 starting_byte,
                 bits_advanced,
             } => Self::Bits {
                 starting_byte,
-                bits_advanced: bits_advanced + delta,
+                bits_advanced: bits_advanced.saturating_add(delta),
             },
         }
     }
diff --git a/src/read.rs b/src/read.rs
index 49a348b..7176a34 100644
--- a/src/read.rs
+++ b/src/read.rs
@@ -47,7 +47,11 @@ impl<'a> ReadCtxt<'a> {
     /// Returns `None` if the specified position is out of bounds, i.e., if `offset + n`
     /// exceeds the length of the input.
     pub fn split_at(&self, n: usize) -> Option<(ReadCtxt<'a>, ReadCtxt<'a>)> {
-        if self.offset + n <= self.input.len() {
+        if self
+            .offset
+            .checked_add(n)
+            .is_some_and(|end| end <= self.input.len())
+        {
             let fst = ReadCtxt {
                 input: &self.input[..self.offset + n],
                 ..*self
-- 
2.43.0


From 06d883a531b25a858ada6a5d18a0631264ef41b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:30 +0000
Subject: [PATCH 29/42] fix: generated alternatives that cannot fail are an Ok
 for the code inspecting them

---
 src/codegen/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index fe3c9d8..f3f2f9b 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -2678,8 +2678,9 @@ impl GenBlock {
                     ret: Some(ret),
                 }
             } else {
+                // NOTE - the result is inspected, so even a value that cannot fail has to be an `Ok`
                 Self {
-                    ret: Some(ret),
+                    ret: Some(ret.wrap_ok(Some("PResult"))),
                     ..self
                 }
             }
-- 
2.43.0


From 85c12945e724302983d6c3fe090e2fe853ca9286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:30 +0000
Subject: [PATCH 30/42] fix: a nondeterministic union of a single format
 generates the value of that format

---
 src/codegen/mod.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index f3f2f9b..c56e810 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -3502,14 +3502,16 @@ where
                     "ParallelLogic::Alts found with empty list of parse-alternations"
                 );
 
+                // NOTE - a sole branch has no alternative to fall back on, and is parsed as it is
+                if let [sole_branch] = alts.as_slice() {
+                    return sole_branch.to_ast(ctxt);
+                }
+
                 let mut stmts = Vec::with_capacity(2 * l - 1);
                 let mut last_ctrl = None;
 
-                // NOTE - the final branch is parsed without a branch-point, so there is none to open if it is the only one
-                if l > 1 {
-                    let start_alternation = model::start_alt(ctxt.parser()).into();
-                    stmts.push(start_alternation);
-                }
+                let start_alternation = model::start_alt(ctxt.parser()).into();
+                stmts.push(start_alternation);
 
                 for (ix, branch_cl) in alts.iter().enumerate() {
                     let n_left = (l - 1) - ix;
-- 
2.43.0


From f2845e675d284965f120031ff15e936f4021284a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:10 +0000
Subject: [PATCH 31/42] fix: matches! form of a match ignores the cases after a
 wildcard

---
 src/codegen/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index c56e810..c165e9e 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -1488,7 +1488,10 @@ fn try_as_matches_macro_cases(
                         return None;
                     }
                     accum.push(embed_pattern(pat));
-                } else if !matches!(pat, TypedPattern::Wildcard(..)) {
+                } else if matches!(pat, TypedPattern::Wildcard(..)) {
+                    // cases that follow a wildcard are never reached
+                    break;
+                } else {
                     return None;
                 }
             }
-- 
2.43.0


From b800e2dbfdd8a9aa4f6e1b69cbe743bf262014e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:11 +0000
Subject: [PATCH 32/42] fix: a statement that rebinds a name still refers to
 its outer binding

---
 src/codegen/rust_ast/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/codegen/rust_ast/mod.rs b/src/codegen/rust_ast/mod.rs
index 6f9022d..9ff0d53 100644
--- a/src/codegen/rust_ast/mod.rs
+++ b/src/codegen/rust_ast/mod.rs
@@ -4527,12 +4527,12 @@ pub mod var_container {
             Name: AsRef<str> + ?Sized,
         {
             for stmt in self.iter() {
-                if stmt.binds_var(var) {
-                    break;
-                }
                 if stmt.contains_var_ref(var) {
                     return true;
                 }
+                if stmt.binds_var(var) {
+                    break;
+                }
             }
             false
         }
-- 
2.43.0


From 31834be7b3c7e86ad3b1cbf35d5d6fb878a9d73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:30 +0000
Subject: [PATCH 33/42] fix: the second argument of a pair function is not
 captured by the first binding

---
 src/codegen/mod.rs | 54 +++++++++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index c165e9e..092a17f 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -1470,6 +1470,24 @@ fn embed_match_expr(
     RustExpr::Control(Box::new(RustControl::Match(Box::new(head), rust_body)))
 }
 
+/// Binds up to two names to the given expressions, neither of which sees the binding of the other.
+fn bind_pair(fst: Option<(&Label, RustExpr)>, snd: Option<(&Label, RustExpr)>) -> Vec<RustStmt> {
+    match (fst, snd) {
+        (Some((fst, rhs0)), Some((snd, rhs1))) if rhs1.contains_var_ref(fst) => {
+            let binds = [fst, snd].map(|lbl| RustPattern::CatchAll(Some(lbl.clone())));
+            vec![RustStmt::destructure(
+                RustPattern::TupleLiteral(binds.to_vec()),
+                RustExpr::Tuple(vec![rhs0, rhs1]),
+            )]
+        }
+        (fst, snd) => [fst, snd]
+            .into_iter()
+            .flatten()
+            .map(|(lbl, rhs)| RustStmt::assign(lbl.clone(), rhs))
+            .collect(),
+    }
+}
+
 /// Speculatively collects the RustPatterns corresponding to the match-set of a `matches!`-like `match` expression,
 /// given a set of patterns and their corresponding branch-values.
 ///
@@ -1949,25 +1967,13 @@ impl GenLambda {
                         match pat {
                             RustPattern::TupleLiteral(pair) => match &pair[..] {
                                 [RustPattern::CatchAll(fst), RustPattern::CatchAll(snd)] => {
-                                    let mut out_stmts = Vec::new();
-                                    if let Some(fst_lbl) = fst {
-                                        if rest.contains_var_ref(fst_lbl)
-                                            || tail.contains_var_ref(fst_lbl)
-                                        {
-                                            let fst_bind =
-                                                RustStmt::assign(fst_lbl.clone(), param0);
-                                            out_stmts.push(fst_bind);
-                                        }
-                                    }
-                                    if let Some(snd_lbl) = snd {
-                                        if rest.contains_var_ref(snd_lbl)
-                                            || tail.contains_var_ref(snd_lbl)
-                                        {
-                                            let snd_bind =
-                                                RustStmt::assign(snd_lbl.clone(), param1);
-                                            out_stmts.push(snd_bind);
-                                        }
-                                    }
+                                    let is_used = |lbl: &&Label| {
+                                        rest.contains_var_ref(*lbl) || tail.contains_var_ref(*lbl)
+                                    };
+                                    let mut out_stmts = bind_pair(
+                                        fst.as_ref().filter(is_used).map(|lbl| (lbl, param0)),
+                                        snd.as_ref().filter(is_used).map(|lbl| (lbl, param1)),
+                                    );
                                     out_stmts.extend_from_slice(rest.as_ref());
                                     RustExpr::BlockScope(out_stmts, tail)
                                 }
@@ -2004,13 +2010,13 @@ impl GenLambda {
                                                 RustPattern::CatchAll(Some(fst_lbl)),
                                                 RustPattern::CatchAll(Some(snd_lbl)),
                                             ) => {
-                                                let fst_bind =
-                                                    RustStmt::assign(fst_lbl.clone(), param0);
-                                                let snd_bind =
-                                                    RustStmt::assign(snd_lbl.clone(), param1);
+                                                let pair_binds = bind_pair(
+                                                    Some((fst_lbl, param0)),
+                                                    Some((snd_lbl, param1)),
+                                                );
                                                 match stmts_to_block(Cow::Borrowed(rhs)) {
                                                     Some((block, ret)) => {
-                                                        let all_stmts = [fst_bind, snd_bind]
+                                                        let all_stmts = pair_binds
                                                             .into_iter()
                                                             .chain(block.iter().cloned())
                                                             .collect();
-- 
2.43.0


From 07a86e6ac1ef2447e76c6a40da80e7349dfc79ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:41 +0000
Subject: [PATCH 34/42] fix: helpers for mixed 64-bit operands named by
 generated code exist

---
 src/numeric/eval.rs | 125 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 120 insertions(+), 5 deletions(-)

diff --git a/src/numeric/eval.rs b/src/numeric/eval.rs
index 4f4cdca..465512e 100644
--- a/src/numeric/eval.rs
+++ b/src/numeric/eval.rs
@@ -313,7 +313,7 @@ widening_quotient! {
 }
 
 // (T0, T1) -> T binary operations
-// Responsible for 210 functions
+// Responsible for 264 functions
 mixed_widening! {
     CheckedAdd, checked_add =>
         // <= Bits8 (6 functions)
@@ -357,6 +357,29 @@ mixed_widening! {
 
         (u32, i32 => (add_u32_i32_i64, i64)),
         (i32, u32 => (add_i32_u32_i64, i64)),
+
+        // >Bits32, <=Bits64 (18 functions)
+        (u64, u8 => (add_u64_u8_u64, u64)),
+        (u8, u64 => (add_u8_u64_u64, u64)),
+        (u64, u16 => (add_u64_u16_u64, u64)),
+        (u16, u64 => (add_u16_u64_u64, u64)),
+        (u64, u32 => (add_u64_u32_u64, u64)),
+        (u32, u64 => (add_u32_u64_u64, u64)),
+
+        (i64, u8 => (add_i64_u8_i64, i64)),
+        (u8, i64 => (add_u8_i64_i64, i64)),
+        (i64, i8 => (add_i64_i8_i64, i64)),
+        (i8, i64 => (add_i8_i64_i64, i64)),
+
+        (i64, u16 => (add_i64_u16_i64, i64)),
+        (u16, i64 => (add_u16_i64_i64, i64)),
+        (i64, i16 => (add_i64_i16_i64, i64)),
+        (i16, i64 => (add_i16_i64_i64, i64)),
+
+        (i64, u32 => (add_i64_u32_i64, i64)),
+        (u32, i64 => (add_u32_i64_i64, i64)),
+        (i64, i32 => (add_i64_i32_i64, i64)),
+        (i32, i64 => (add_i32_i64_i64, i64)),
         ;
     CheckedSub, checked_sub =>
         // <= Bits8 (6 functions)
@@ -399,7 +422,30 @@ mixed_widening! {
         (i16, i32 => (sub_i16_i32_i32, i32), (sub_i16_i32_i64, i64)),
 
         (u32, i32 => (sub_u32_i32_i64, i64)),
-        (i32, u32 => (sub_i32_u32_i64, i64));
+        (i32, u32 => (sub_i32_u32_i64, i64)),
+
+        // >Bits32, <=Bits64 (18 functions)
+        (u64, u8 => (sub_u64_u8_u64, u64)),
+        (u8, u64 => (sub_u8_u64_u64, u64)),
+        (u64, u16 => (sub_u64_u16_u64, u64)),
+        (u16, u64 => (sub_u16_u64_u64, u64)),
+        (u64, u32 => (sub_u64_u32_u64, u64)),
+        (u32, u64 => (sub_u32_u64_u64, u64)),
+
+        (i64, u8 => (sub_i64_u8_i64, i64)),
+        (u8, i64 => (sub_u8_i64_i64, i64)),
+        (i64, i8 => (sub_i64_i8_i64, i64)),
+        (i8, i64 => (sub_i8_i64_i64, i64)),
+
+        (i64, u16 => (sub_i64_u16_i64, i64)),
+        (u16, i64 => (sub_u16_i64_i64, i64)),
+        (i64, i16 => (sub_i64_i16_i64, i64)),
+        (i16, i64 => (sub_i16_i64_i64, i64)),
+
+        (i64, u32 => (sub_i64_u32_i64, i64)),
+        (u32, i64 => (sub_u32_i64_i64, i64)),
+        (i64, i32 => (sub_i64_i32_i64, i64)),
+        (i32, i64 => (sub_i32_i64_i64, i64));
     CheckedMul, checked_mul =>
         // <= Bits8 (6 functions)
         (u8, i8 => (mul_u8_i8_i16, i16), (mul_u8_i8_i32, i32), (mul_u8_i8_i64, i64)),
@@ -441,10 +487,33 @@ mixed_widening! {
         (i16, i32 => (mul_i16_i32_i32, i32), (mul_i16_i32_i64, i64)),
 
         (u32, i32 => (mul_u32_i32_i64, i64)),
-        (i32, u32 => (mul_i32_u32_i64, i64));
+        (i32, u32 => (mul_i32_u32_i64, i64)),
+
+        // >Bits32, <=Bits64 (18 functions)
+        (u64, u8 => (mul_u64_u8_u64, u64)),
+        (u8, u64 => (mul_u8_u64_u64, u64)),
+        (u64, u16 => (mul_u64_u16_u64, u64)),
+        (u16, u64 => (mul_u16_u64_u64, u64)),
+        (u64, u32 => (mul_u64_u32_u64, u64)),
+        (u32, u64 => (mul_u32_u64_u64, u64)),
+
+        (i64, u8 => (mul_i64_u8_i64, i64)),
+        (u8, i64 => (mul_u8_i64_i64, i64)),
+        (i64, i8 => (mul_i64_i8_i64, i64)),
+        (i8, i64 => (mul_i8_i64_i64, i64)),
+
+        (i64, u16 => (mul_i64_u16_i64, i64)),
+        (u16, i64 => (mul_u16_i64_i64, i64)),
+        (i64, i16 => (mul_i64_i16_i64, i64)),
+        (i16, i64 => (mul_i16_i64_i64, i64)),
+
+        (i64, u32 => (mul_i64_u32_i64, i64)),
+        (u32, i64 => (mul_u32_i64_i64, i64)),
+        (i64, i32 => (mul_i64_i32_i64, i64)),
+        (i32, i64 => (mul_i32_i64_i64, i64));
 }
 
-// Responsible for 140 functions
+// Responsible for 176 functions
 mixed_widening_quotient! {
     CheckedDiv, checked_div =>
         // <= Bits8 (6 functions)
@@ -489,6 +558,29 @@ mixed_widening_quotient! {
 
         (u32, i32 => (div_u32_i32_i64, i64)),
         (i32, u32 => (div_i32_u32_i64, i64)),
+
+        // >Bits32, <=Bits64 (18 functions)
+        (u64, u8 => (div_u64_u8_u64, u64)),
+        (u8, u64 => (div_u8_u64_u64, u64)),
+        (u64, u16 => (div_u64_u16_u64, u64)),
+        (u16, u64 => (div_u16_u64_u64, u64)),
+        (u64, u32 => (div_u64_u32_u64, u64)),
+        (u32, u64 => (div_u32_u64_u64, u64)),
+
+        (i64, u8 => (div_i64_u8_i64, i64)),
+        (u8, i64 => (div_u8_i64_i64, i64)),
+        (i64, i8 => (div_i64_i8_i64, i64)),
+        (i8, i64 => (div_i8_i64_i64, i64)),
+
+        (i64, u16 => (div_i64_u16_i64, i64)),
+        (u16, i64 => (div_u16_i64_i64, i64)),
+        (i64, i16 => (div_i64_i16_i64, i64)),
+        (i16, i64 => (div_i16_i64_i64, i64)),
+
+        (i64, u32 => (div_i64_u32_i64, i64)),
+        (u32, i64 => (div_u32_i64_i64, i64)),
+        (i64, i32 => (div_i64_i32_i64, i64)),
+        (i32, i64 => (div_i32_i64_i64, i64)),
         ;
     CheckedRem, checked_rem =>
         // <= Bits8 (6 functions)
@@ -531,7 +623,30 @@ mixed_widening_quotient! {
         (i16, i32 => (rem_i16_i32_i32, i32), (rem_i16_i32_i64, i64)),
 
         (u32, i32 => (rem_u32_i32_i64, i64)),
-        (i32, u32 => (rem_i32_u32_i64, i64));
+        (i32, u32 => (rem_i32_u32_i64, i64)),
+
+        // >Bits32, <=Bits64 (18 functions)
+        (u64, u8 => (rem_u64_u8_u64, u64)),
+        (u8, u64 => (rem_u8_u64_u64, u64)),
+        (u64, u16 => (rem_u64_u16_u64, u64)),
+        (u16, u64 => (rem_u16_u64_u64, u64)),
+        (u64, u32 => (rem_u64_u32_u64, u64)),
+        (u32, u64 => (rem_u32_u64_u64, u64)),
+
+        (i64, u8 => (rem_i64_u8_i64, i64)),
+        (u8, i64 => (rem_u8_i64_i64, i64)),
+        (i64, i8 => (rem_i64_i8_i64, i64)),
+        (i8, i64 => (rem_i8_i64_i64, i64)),
+
+        (i64, u16 => (rem_i64_u16_i64, i64)),
+        (u16, i64 => (rem_u16_i64_i64, i64)),
+        (i64, i16 => (rem_i64_i16_i64, i64)),
+        (i16, i64 => (rem_i16_i64_i64, i64)),
+
+        (i64, u32 => (rem_i64_u32_i64, i64)),
+        (u32, i64 => (rem_u32_i64_i64, i64)),
+        (i64, i32 => (rem_i64_i32_i64, i64)),
+        (i32, i64 => (rem_i32_i64_i64, i64));
 }
 // !SECTION
 
-- 
2.43.0


From 6e392f4d8edeccef89f5cea10457a32b77504ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:43 +0000
Subject: [PATCH 35/42] fix: negation and absolute value of the least signed
 integer are reported, not wrapped or panicked on

---
 src/numeric/eval.rs | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/numeric/eval.rs b/src/numeric/eval.rs
index 465512e..2b1baba 100644
--- a/src/numeric/eval.rs
+++ b/src/numeric/eval.rs
@@ -692,7 +692,10 @@ macro_rules! negate_as_signed {
     ( $( $t:ty, $fname:ident );+ $(;)? ) => {
         $(
             pub fn $fname(x: $t) -> Eval<$t> {
-                Eval::Direct(<$t as Neg>::neg(x))
+                match x.checked_neg() {
+                    Some(res) => Eval::Direct(res),
+                    None => Eval::Indirect(IndirectEval { value: Rc::new(LazyCell::new(Box::new(move || BigInt::from(x).neg()))) }),
+                }
             }
         )*
     };
@@ -755,12 +758,10 @@ macro_rules! negate_unsigned_unsigned {
 macro_rules! abs_as_signed {
     ( $( $t:ty, $fname:ident );+ $(;)? ) => {
         $( pub fn $fname(x: $t) -> Eval<$t> {
-            let tmp = <$t as ::num_traits::Signed>::abs(&x);
-            // NOTE - Signed::abs(iX::MIN) == iX::MIN
-            if tmp == <$t>::MIN {
-                Eval::Indirect(IndirectEval { value: Rc::new(LazyCell::new(Box::new(move || ::num_bigint::BigInt::from(x).abs()))) })
-            } else {
-                Eval::Direct(tmp)
+            // NOTE - the absolute value of iX::MIN is not representable as iX
+            match x.checked_abs() {
+                Some(res) => Eval::Direct(res),
+                None => Eval::Indirect(IndirectEval { value: Rc::new(LazyCell::new(Box::new(move || ::num_bigint::BigInt::from(x).abs()))) }),
             }
         } )+
     };
@@ -777,18 +778,13 @@ macro_rules! abs_as_signed {
     };
 }
 
-/// Macro for taking absolute value via `Signed` impl on input followed by as-cast
+/// Macro for taking absolute value as the unsigned integer of the same width followed by as-cast
 macro_rules! abs_signed_unsigned {
     ( $( $t:ty =>  $( ( $fname:ident, $t1:ty) ),+ $(,)? );+ $(;)? ) => {
         $(
             $(
                 pub fn $fname(x: $t) -> Eval<$t1> {
-                    let tmp = <$t as ::num_traits::Signed>::abs(&x);
-                    if tmp == <$t>::MIN {
-                        Eval::Direct(<$t>::MAX as $t1 + 1)
-                    } else {
-                        Eval::Direct(tmp as $t1)
-                    }
+                    Eval::Direct(x.unsigned_abs() as $t1)
                 }
             )+
         )+
-- 
2.43.0


From 71b482afcd541d1d476446988bf61e104357ad66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:45 +0000
Subject: [PATCH 36/42] fix: negating an unsigned integer into a narrow signed
 one uses the fallback that exists

---
 src/numeric/codegen.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/numeric/codegen.rs b/src/numeric/codegen.rs
index 88f5c40..d276abe 100644
--- a/src/numeric/codegen.rs
+++ b/src/numeric/codegen.rs
@@ -178,8 +178,8 @@ fn negate_is_nonlossy(source: MachineRep, target: MachineRep) -> bool {
             std::cmp::Ordering::Equal | std::cmp::Ordering::Greater
         )
     } else {
-        // Unsigned negation is never lossy because we avoid downcasting entirely
-        true
+        // Between unsigned types only the negation of 0 is representable, regardless of width
+        !target.is_signed() || target.encompasses(source)
     }
 }
 
-- 
2.43.0


From 5e6b9b42d94c9051573b45f4de9fa856ec57999a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:53 +0000
Subject: [PATCH 37/42] fix: an array whose size does not fit is past the end,
 not a panic or a short buffer

---
 smallsorts/src/binary/read.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/smallsorts/src/binary/read.rs b/smallsorts/src/binary/read.rs
index 2e28c02..1a7cbff 100644
--- a/smallsorts/src/binary/read.rs
+++ b/smallsorts/src/binary/read.rs
@@ -537,7 +537,7 @@ impl<'a> ReadCtxt<'a> {
         &mut self,
         length: usize,
     ) -> Result<ReadArray<'a, T>, ParseError> {
-        let scope = self.read_scope(length * T::SIZE)?;
+        let scope = self.read_scope(length.checked_mul(T::SIZE).ok_or(ReadEof {})?)?;
         let args = ();
         Ok(ReadArray {
             scope,
@@ -555,7 +555,7 @@ impl<'a> ReadCtxt<'a> {
         if T::SIZE > stride {
             return Err(ParseError::BadValue);
         }
-        let scope = self.read_scope(length * stride)?;
+        let scope = self.read_scope(length.checked_mul(stride).ok_or(ReadEof {})?)?;
         let args = ();
         Ok(ReadArray {
             scope,
@@ -592,7 +592,7 @@ impl<'a> ReadCtxt<'a> {
         args: T::Args<'a>,
     ) -> Result<ReadArray<'a, T>, ParseError> {
         let stride = T::size(args);
-        let scope = self.read_scope(length * stride)?;
+        let scope = self.read_scope(length.checked_mul(stride).ok_or(ReadEof {})?)?;
         Ok(ReadArray {
             scope,
             length,
-- 
2.43.0


From 499e45744112908e4462ea4d7ed455531e0ee8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:53 +0000
Subject: [PATCH 38/42] fix: reading an item of a strided array honours the
 stride

---
 smallsorts/src/binary/read.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smallsorts/src/binary/read.rs b/smallsorts/src/binary/read.rs
index 1a7cbff..7e0b460 100644
--- a/smallsorts/src/binary/read.rs
+++ b/smallsorts/src/binary/read.rs
@@ -658,7 +658,7 @@ impl<'a, T: ReadFixedSizeDep> ReadArray<'a, T> {
     pub fn read_item(&self, index: usize) -> Result<T::HostType<'a>, ParseError> {
         if index < self.length {
             let size = T::size(self.args);
-            let offset = index * size;
+            let offset = index * self.stride;
             let scope = self.scope.offset_length(offset, size).unwrap();
             let mut ctxt = scope.ctxt();
             T::read_dep(&mut ctxt, self.args)
-- 
2.43.0


From a8b4b4594ae13bd07b41b48e9795e096aa31f176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:53 +0000
Subject: [PATCH 39/42] fix: size hint of an array iterator counts what remains

---
 smallsorts/src/binary/read.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smallsorts/src/binary/read.rs b/smallsorts/src/binary/read.rs
index 7e0b460..0aebd7c 100644
--- a/smallsorts/src/binary/read.rs
+++ b/smallsorts/src/binary/read.rs
@@ -814,7 +814,7 @@ impl<'a, 'b, T: ReadUnchecked> Iterator for ReadArrayIter<'a, T> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let remaining = self.scope.data().len() / self.stride;
+        let remaining = (self.scope.data().len() / self.stride).saturating_sub(self.index);
         (remaining, Some(remaining))
     }
 }
-- 
2.43.0


From e42c035ac024b62f426534e752872aa96715eb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:53 +0000
Subject: [PATCH 40/42] fix: offsets far past the end are reported, not
 overflowed on

---
 smallsorts/src/binary/read.rs | 4 ++--
 src/parser/view.rs            | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/smallsorts/src/binary/read.rs b/smallsorts/src/binary/read.rs
index 0aebd7c..dfd5ce7 100644
--- a/smallsorts/src/binary/read.rs
+++ b/smallsorts/src/binary/read.rs
@@ -272,7 +272,7 @@ impl<'a> ReadScope<'a> {
     }
 
     pub fn offset(&self, offset: usize) -> ReadScope<'a> {
-        let base = self.base + offset;
+        let base = self.base.saturating_add(offset);
         let data = self.data.get(offset..).unwrap_or(&[]);
         ReadScope { base, data }
     }
@@ -281,7 +281,7 @@ impl<'a> ReadScope<'a> {
         if offset < self.data.len() || length == 0 {
             let data = self.data.get(offset..).unwrap_or(&[]);
             if length <= data.len() {
-                let base = self.base + offset;
+                let base = self.base.saturating_add(offset);
                 let data = &data[0..length];
                 Ok(ReadScope { base, data })
             } else {
diff --git a/src/parser/view.rs b/src/parser/view.rs
index b6c9947..1df8807 100644
--- a/src/parser/view.rs
+++ b/src/parser/view.rs
@@ -39,7 +39,7 @@ impl<'a> View<'a> {
     pub fn offset(&self, offset: usize) -> Result<Self, DoodleParseError> {
         if offset > self.buffer.len() {
             Err(DoodleParseError::Overrun(OverrunKind::EndOfStream {
-                offset: ByteOffset::from_bytes(self.start_offset + offset),
+                offset: ByteOffset::from_bytes(self.start_offset.saturating_add(offset)),
                 max_offset: ByteOffset::from_bytes(self.start_offset + self.buffer.len()),
             }))
         } else {
@@ -62,7 +62,9 @@ impl<'a> View<'a> {
             Err(e) => match e {
                 AllSortsParseError::BadEof => {
                     Err(DoodleParseError::Overrun(OverrunKind::EndOfStream {
-                        offset: ByteOffset::from_bytes(self.start_offset + len * size),
+                        offset: ByteOffset::from_bytes(
+                            self.start_offset.saturating_add(len.saturating_mul(size)),
+                        ),
                         max_offset: ByteOffset::from_bytes(self.start_offset + self.buffer.len()),
                     }))
                 }
-- 
2.43.0


From d8da8dcd0174815c3546f9cc52216398b5f29b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:55 +0000
Subject: [PATCH 41/42] fix: computing the bounds of bitwise operators panicked
 for upper ends of 2^63 and above

---
 src/bounds.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bounds.rs b/src/bounds.rs
index 4c0d42a..047ceea 100644
--- a/src/bounds.rs
+++ b/src/bounds.rs
@@ -455,7 +455,7 @@ fn blend_bits(k1: usize, k2: usize, m1: usize, m2: usize) -> usize {
 
 fn mask(x: usize) -> usize {
     if x != 0 {
-        1_usize.checked_shl(x.ilog2() + 1).unwrap() - 1
+        usize::MAX >> x.leading_zeros()
     } else {
         0
     }
-- 
2.43.0


From 0cfdac02524144930f809e583080b73dbb6b50f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:30 +0000
Subject: [PATCH 42/42] fix: generated code lost the grouping of right-nested
 divisions, remainders, products and shifts

---
 src/codegen/rust_ast/mod.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/codegen/rust_ast/mod.rs b/src/codegen/rust_ast/mod.rs
index 9ff0d53..e9bd563 100644
--- a/src/codegen/rust_ast/mod.rs
+++ b/src/codegen/rust_ast/mod.rs
@@ -3287,6 +3287,22 @@ impl InfixOperator {
         }
     }
 
+    /// Contextual precedence of the right-hand operand.
+    ///
+    /// As infix operators group to the left, a right-hand operand of the same class must be parenthesized
+    /// unless the operation is associative, e.g. `a / (b / c)` is not the same as `a / b / c`.
+    fn rhs_precedence(&self) -> Precedence {
+        match self {
+            InfixOperator::Sub
+            | InfixOperator::Mul
+            | InfixOperator::Div
+            | InfixOperator::Rem
+            | InfixOperator::Shl
+            | InfixOperator::Shr => Precedence::CAST,
+            _ => self.precedence(),
+        }
+    }
+
     pub(crate) fn out_type(&self, lhs_type: PrimType, rhs_type: PrimType) -> Option<PrimType> {
         match self {
             InfixOperator::Eq | InfixOperator::Neq => {
@@ -3439,7 +3455,7 @@ impl ToFragmentExt for RustOp {
             RustOp::InfixOp(op, lhs, rhs) => cond_paren(
                 lhs.to_fragment_precedence(inherent)
                     .cat(Fragment::string(op.token()))
-                    .cat(rhs.to_fragment_precedence(inherent)),
+                    .cat(rhs.to_fragment_precedence(op.rhs_precedence())),
                 prec,
                 inherent,
             ),
-- 
2.43.0

