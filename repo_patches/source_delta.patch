From 316ae801ad96fdbf138277b5b42dbd583e997a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:13 +0000
Subject: [PATCH 01/21] fix: reject fractions with a zero denominator instead
 of panicking

---
 src/io/parse_cgd_line.rs          | 2 +-
 src/spacegroups/parse_operator.rs | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/io/parse_cgd_line.rs b/src/io/parse_cgd_line.rs
index 5d0db33..db0ae1f 100644
--- a/src/io/parse_cgd_line.rs
+++ b/src/io/parse_cgd_line.rs
@@ -78,7 +78,7 @@ fn field(input: &str) -> IResult<&str, Field> {
 fn fraction(input: &str) -> IResult<&str, Ratio<i32>> {
     map_opt(
         separated_pair(integer, char('/'), unsigned_integer),
-        |(n, d)| Some(Ratio::new(n, d as i32))
+        |(n, d)| if d != 0 { Some(Ratio::new(n, d as i32)) } else { None }
     )(input)
 }
 
diff --git a/src/spacegroups/parse_operator.rs b/src/spacegroups/parse_operator.rs
index cde208a..384ac10 100644
--- a/src/spacegroups/parse_operator.rs
+++ b/src/spacegroups/parse_operator.rs
@@ -81,7 +81,11 @@ fn unsigned_fraction(input: &str) -> IResult<&str, Fraction> {
             separated_pair(
                 integer, tuple((space0, char('/'), space0)), integer
             ),
-            |(n, d)| Some(Ratio::new(n as i32, d as i32))
+            |(n, d)| if d != 0 {
+                Some(Ratio::new(n as i32, d as i32))
+            } else {
+                None
+            }
         ),
         map_opt(integer, |n| Some(Ratio::from_integer(n as i32))),
     ))(input)
-- 
2.43.0


From f4ac2fcbffafd3fdc1d8a15b4341b4346bfc7c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:14 +0000
Subject: [PATCH 02/21] fix: reject operators with trailing text, dropped
 coefficients or too many coordinates

---
 src/spacegroups/parse_operator.rs | 22 ++++++++++++----------
 src/spacegroups/parse_table.rs    |  4 ++--
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/spacegroups/parse_operator.rs b/src/spacegroups/parse_operator.rs
index 384ac10..aa526ab 100644
--- a/src/spacegroups/parse_operator.rs
+++ b/src/spacegroups/parse_operator.rs
@@ -26,8 +26,10 @@ type Operator = (Vec<Vec<Ratio<i32>>>, Vec<Ratio<i32>>);
 
 pub fn parse_operator(input: &str) -> Result<(&str, Operator), String>
 {
-    match delimited(space0, operator, space0)(input).finish() {
-        Ok((rest, op)) => Ok((rest, convert_operator(&op))),
+    let converted = map_opt(operator, |op| convert_operator(&op));
+
+    match delimited(space0, converted, space0)(input).finish() {
+        Ok((rest, op)) => Ok((rest, op)),
         Err(err) => Err(err.to_string()),
     }
 }
@@ -107,21 +109,21 @@ fn integer(input: &str) -> IResult<&str, u32> {
 }
 
 
-fn convert_operator(op: &[Coordinate]) -> Operator {
+fn convert_operator(op: &[Coordinate]) -> Option<Operator> {
+    let n = op.len();
+
     let mut rows = vec![];
     let mut shift = vec![];
 
     for (r, s) in op {
-        rows.push(r.clone());
+        if n > r.len() || r.iter().skip(n).any(|x| *x != Ratio::new(0, 1)) {
+            return None;
+        }
+        rows.push(r.iter().take(n).copied().collect());
         shift.push(*s);
     }
 
-    let n = shift.len();
-    let rows = rows.iter()
-        .map(|v| v.iter().take(n).copied().collect())
-        .collect();
-
-    (rows, shift)
+    Some((rows, shift))
 }
 
 
diff --git a/src/spacegroups/parse_table.rs b/src/spacegroups/parse_table.rs
index e6ba02f..a9b6491 100644
--- a/src/spacegroups/parse_table.rs
+++ b/src/spacegroups/parse_table.rs
@@ -184,9 +184,9 @@ impl Centering {
 
 impl<CS: Clone> AffineMap<BigRational, CS> {
     pub fn from_string(s: &str) -> Option<Self> {
-        let (_, (linear, shift)) = parse_operator(s).ok()?;
+        let (rest, (linear, shift)) = parse_operator(s).ok()?;
 
-        if linear.len() != shift.len() {
+        if !rest.is_empty() || linear.len() != shift.len() {
             None
         } else {
             let linear: Vec<_> = linear.iter().map(promote_vec).collect();
-- 
2.43.0


From 3b6ebc73f109f22f7dc602ef3fc2c8c517dee244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 03/21] fix: report short lines and singular transforms in the
 space group table instead of panicking

---
 src/spacegroups/parse_table.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/spacegroups/parse_table.rs b/src/spacegroups/parse_table.rs
index a9b6491..320ebfd 100644
--- a/src/spacegroups/parse_table.rs
+++ b/src/spacegroups/parse_table.rs
@@ -207,7 +207,10 @@ fn promote_vec<T: Coord>(v: &Vec<Ratio<i32>>) -> Vec<T> {
 
 impl<CSIn: Clone, CSOut: Clone>  CoordinateMap<BigRational, CSIn, CSOut> {
     pub fn from_string(s: &str) -> Option<Self> {
-        Some(CoordinateMap::new(&AffineMap::from_string(s)?))
+        let forward = AffineMap::from_string(s)?;
+        forward.inverse()?; // reject singular transformations
+
+        Some(CoordinateMap::new(&forward))
     }
 }
 
@@ -232,7 +235,7 @@ pub fn parse_space_group_table<T: Read>(input: T) -> Option<Tables> {
             let fields: Vec<_> = content.split_whitespace().collect();
 
             if fields[0].to_lowercase() == "alias" {
-                alias.insert(fields[1].into(), fields[2].into());
+                alias.insert((*fields.get(1)?).into(), (*fields.get(2)?).into());
             } else if fields[0].to_lowercase() == "lookup" {
                 lookup.push(make_lookup_entry(&fields)?);
             } else {
@@ -260,8 +263,8 @@ pub fn parse_space_group_table<T: Read>(input: T) -> Option<Tables> {
 
 
 fn make_lookup_entry(fields: &Vec<&str>) -> Option<Lookup> {
-    let name = fields[1].to_string();
-    let spec = fields[4..].join(" ");
+    let name = fields.get(1)?.to_string();
+    let spec = fields.get(4..)?.join(" ");
     let from_std = CoordinateMap::from_string(&spec)?;
 
     let system = CrystalSystem::from_string(fields[2])?;
-- 
2.43.0


From 3b60c246dabcf83dce1dba2638e1b28153d0a53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:17 +0000
Subject: [PATCH 04/21] fix: write the constant term of an operator when it is
 plus or minus one

---
 src/spacegroups/parse_table.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spacegroups/parse_table.rs b/src/spacegroups/parse_table.rs
index 320ebfd..4604d07 100644
--- a/src/spacegroups/parse_table.rs
+++ b/src/spacegroups/parse_table.rs
@@ -91,7 +91,7 @@ fn write_op_row(
             } else if val.is_negative() {
                 write!(f, "-")?;
             }
-            if !val.abs().is_one() {
+            if axis.is_empty() || !val.abs().is_one() {
                 write!(f, "{}", val.abs())?;
             }
             write!(f, "{}", axis)?;
-- 
2.43.0


From 804810eea1ad0043303ff93e6c1849271d02b8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:18 +0000
Subject: [PATCH 05/21] fix: recognise symmetries whose positions differ by an
 integer across zero

---
 src/symmetries.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symmetries.rs b/src/symmetries.rs
index 9dfd9e1..8f84cf6 100644
--- a/src/symmetries.rs
+++ b/src/symmetries.rs
@@ -280,7 +280,7 @@ fn raw_translational_equivalences<T, CS>(graph: &Graph<T, CS>) -> Partition<u32>
 
 
 fn mod1(p: &Point) -> Point {
-    p.iter().map(|x| x % BigInt::one()).collect()
+    p.iter().map(|x| x - x.floor()).collect()
 }
 
 
-- 
2.43.0


From c47504ad74030574f885329fafeae18791443461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 06/21] fix: reduce negative multiples of the prime to zero in
 modular elimination

---
 src/arithmetic/modular_solver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arithmetic/modular_solver.rs b/src/arithmetic/modular_solver.rs
index 347f16a..420cec0 100644
--- a/src/arithmetic/modular_solver.rs
+++ b/src/arithmetic/modular_solver.rs
@@ -32,7 +32,7 @@ pub fn modular_row_echelon_form(matrix: &Matrix, prime: i64) -> Matrix {
     for row in matrix {
         assert!(a.len() == 0 || row.len() == a[0].len());
         let row = row.iter()
-            .map(|&n| n % prime + if n < 0 { prime } else { 0 })
+            .map(|&n| n.rem_euclid(prime))
             .collect();
         a.push(row);
     }
-- 
2.43.0


From 2e6e8a00ff1dd314e5be71d43f904bd9a8bb4f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:20 +0000
Subject: [PATCH 07/21] fix: advance the pivot row only when a pivot was found
 in modular elimination

---
 src/arithmetic/modular_solver.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arithmetic/modular_solver.rs b/src/arithmetic/modular_solver.rs
index 420cec0..9d5166d 100644
--- a/src/arithmetic/modular_solver.rs
+++ b/src/arithmetic/modular_solver.rs
@@ -63,9 +63,9 @@ pub fn modular_row_echelon_form(matrix: &Matrix, prime: i64) -> Matrix {
                     }
                 }
             }
-        }
 
-        irow += 1;
+            irow += 1;
+        }
     }
 
     a
-- 
2.43.0


From bba6c1642e5abf1d5314a2e98a4fc9f97560a928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:20 +0000
Subject: [PATCH 08/21] fix: leave no remainder when a negative entry divides
 evenly in column reduction

---
 src/arithmetic/linear_algebra.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arithmetic/linear_algebra.rs b/src/arithmetic/linear_algebra.rs
index 99c3f1d..58a9c22 100644
--- a/src/arithmetic/linear_algebra.rs
+++ b/src/arithmetic/linear_algebra.rs
@@ -167,7 +167,7 @@ fn reduce_column_primitive_int<T>(col: usize, v: &mut Vec<T>, b: &Vec<T>)
     where T: num_traits::PrimInt + SubAssign
 {
     let f = v[col] / b[col] - (
-        if v[col] < T::zero() { T::one() } else { T::zero() }
+        if v[col] % b[col] < T::zero() { T::one() } else { T::zero() }
     );
 
     if f != T::zero() {
-- 
2.43.0


From 92b9bc294ce22cd6289f9691f7dd742df88b9573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:21 +0000
Subject: [PATCH 09/21] fix: return the full shift space when there are no
 shift equations

---
 src/spacegroups/basics.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/spacegroups/basics.rs b/src/spacegroups/basics.rs
index 5f6999e..4f2f5af 100644
--- a/src/spacegroups/basics.rs
+++ b/src/spacegroups/basics.rs
@@ -152,8 +152,12 @@ pub fn shift_space<CS: Clone>(ops: &Vec<AffineMap<BigRational, CS>>)
         }
     }
 
-    let eqns: Vec<Matrix<_>> = eqns.iter().map(|v| Matrix::row(v)).collect();
-    Matrix::vstack(&eqns).null_space()
+    if eqns.is_empty() {
+        Some(id)
+    } else {
+        let eqns: Vec<Matrix<_>> = eqns.iter().map(|v| Matrix::row(v)).collect();
+        Matrix::vstack(&eqns).null_space()
+    }
 }
 
 
-- 
2.43.0


From a2a9fd40ad5957a4e74fbc384dd372eda89ab63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 10/21] fix: return the symmetry group in generation order
 instead of hash order

---
 src/symmetries.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/symmetries.rs b/src/symmetries.rs
index 8f84cf6..dab801d 100644
--- a/src/symmetries.rs
+++ b/src/symmetries.rs
@@ -178,19 +178,21 @@ fn multiplicative_group<T>(identity: &T, gens: &Vec<T>) -> Vec<T>
 {
     // TODO should be an iterator to be more general (infinite groups!)
 
-    let mut result = HashSet::from([identity.clone()]);
+    let mut seen = HashSet::from([identity.clone()]);
+    let mut result = vec![identity.clone()];
     let mut queue = VecDeque::from([identity.clone()]);
 
     while let Some(phi) = queue.pop_front() {
         for psi in gens {
             let product = &phi * psi;
-            if !result.contains(&product) {
+            if !seen.contains(&product) {
                 queue.push_back(product.clone());
-                result.insert(product);
+                seen.insert(product.clone());
+                result.push(product);
             }
         }
     }
-    result.into_iter().collect()
+    result
 }
 
 
-- 
2.43.0


From 656ff35fa9f12a221c8122db88471a1fc971907b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:23 +0000
Subject: [PATCH 11/21] fix: keep entries after the last complete block in CGD
 input

---
 src/io/parse_cgd_blocks.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/io/parse_cgd_blocks.rs b/src/io/parse_cgd_blocks.rs
index d84cbb2..7511ce4 100644
--- a/src/io/parse_cgd_blocks.rs
+++ b/src/io/parse_cgd_blocks.rs
@@ -135,11 +135,18 @@ pub fn parse_blocks<T: Read>(input: T) -> Vec<Block> {
         }
     }
 
-    if in_block {
-        let last_entry = current_block.entries.last_mut().unwrap();
+    if let Some(first_entry) = current_block.entries.first() {
+        if !in_block {
+            current_block.lineno_start = first_entry.line_number;
+            current_block.block_type = "--void--".to_string();
+        }
+    }
 
+    if let Some(last_entry) = current_block.entries.last_mut() {
         current_block.lineno_end = last_entry.line_number;
-        last_entry.add_error("final block is missing an 'end' statement");
+        if in_block {
+            last_entry.add_error("final block is missing an 'end' statement");
+        }
         blocks.push(current_block);
     }
 
-- 
2.43.0


From 1bb3dcb566fb2dc644f37a5a5ed7e36a1ce21e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:25 +0000
Subject: [PATCH 12/21] fix: warn about any text after a block type or end
 statement

---
 src/io/parse_cgd_blocks.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/parse_cgd_blocks.rs b/src/io/parse_cgd_blocks.rs
index 7511ce4..2f5846a 100644
--- a/src/io/parse_cgd_blocks.rs
+++ b/src/io/parse_cgd_blocks.rs
@@ -103,7 +103,7 @@ pub fn parse_blocks<T: Read>(input: T) -> Vec<Block> {
                             entry.add_error("block has no type or content");
                         }
                         current_block.lineno_end = entry.line_number;
-                        if entry.fields.len() > 1 {
+                        if entry.fields.len() > 0 {
                             entry.add_warning("text after 'end' ignored");
                         }
                         current_block.entries.push(entry);
@@ -116,7 +116,7 @@ pub fn parse_blocks<T: Read>(input: T) -> Vec<Block> {
                         current_block.block_type = new_key;
                         in_block = true;
                         current_key = None;
-                        if entry.fields.len() > 1 {
+                        if entry.fields.len() > 0 {
                             entry.add_warning("text after block type ignored");
                         }
                         current_block.entries.push(entry);
-- 
2.43.0


From 2fecb9298e140086a4ca96b34067dedfd23ad470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:25 +0000
Subject: [PATCH 13/21] fix: compare characters without truncation when looking
 for blanks

---
 src/io/parse_cgd_line.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/parse_cgd_line.rs b/src/io/parse_cgd_line.rs
index db0ae1f..77401ac 100644
--- a/src/io/parse_cgd_line.rs
+++ b/src/io/parse_cgd_line.rs
@@ -3,7 +3,7 @@ use std::iter;
 use nom::{IResult, Finish};
 use nom::bytes::complete::{take_till1, take_until1, tag};
 use nom::character::complete::{char, digit1, space0, space1};
-use nom::character::{is_space, is_alphabetic};
+use nom::character::is_alphabetic;
 use nom::multi::separated_list0;
 use nom::number::complete::double;
 use nom::sequence::{separated_pair, preceded, delimited, pair};
@@ -97,7 +97,7 @@ fn quoted_string(input: &str) -> IResult<&str, &str> {
 
 
 fn name(input: &str) -> IResult<&str, &str> {
-    take_till1(|c| c == '"' || c == '#' || is_space(c as u8))(input)
+    take_till1(|c| c == '"' || c == '#' || c == ' ' || c == '\t')(input)
 }
 
 
-- 
2.43.0


From e6f6b2cae023933c79a41cd01fb0bbdc3ea4ec64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:26 +0000
Subject: [PATCH 14/21] fix: treat words like inf and nan as names in CGD input

---
 src/io/parse_cgd_line.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/io/parse_cgd_line.rs b/src/io/parse_cgd_line.rs
index 77401ac..fe1cee2 100644
--- a/src/io/parse_cgd_line.rs
+++ b/src/io/parse_cgd_line.rs
@@ -107,7 +107,9 @@ fn unsigned_integer(input: &str) -> IResult<&str, u32> {
 
 
 fn double_to_field() -> impl Fn(f64) -> Option<Field> {
-    |f| if f == (f as i32) as f64 {
+    |f| if !f.is_finite() {
+        None
+    } else if f == (f as i32) as f64 {
         Some(Field::Int(f as i32))
     } else {
         Some(Field::Double(f))
-- 
2.43.0


From 29500c382db19580c861ed4d167686343e959ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:30 +0000
Subject: [PATCH 15/21] fix: map edge vectors, not rows of their matrix, when
 looking for symmetries

---
 src/symmetries.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symmetries.rs b/src/symmetries.rs
index dab801d..91466e6 100644
--- a/src/symmetries.rs
+++ b/src/symmetries.rs
@@ -147,7 +147,7 @@ pub fn symmetries<T, CS>(graph: &Graph<T, CS>) -> Vec<Automorphism<T, CS>>
 
     for i in 0..edge_lists.len() {
         if p.find(&edge_lists[i]) != p.find(&edge_lists[0]) {
-            let m = &bases[i] * &inv_b;
+            let m = (&inv_b * &bases[i]).transpose();
 
             if is_unimodular(&m) {
                 let aff = &AffineMap::new(&m, &Vector::zero(T::dim()));
-- 
2.43.0


From ffdb8236ed2ad1c290543f176be9f0e800e5de69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:06 +0000
Subject: [PATCH 16/21] fix: express shifts in the translation basis, not its
 transpose, in the minimal image

---
 src/symmetries.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symmetries.rs b/src/symmetries.rs
index 91466e6..36cd1a0 100644
--- a/src/symmetries.rs
+++ b/src/symmetries.rs
@@ -77,7 +77,7 @@ pub fn minimal_image<TIn, TOut, CSIn, CSOut>(graph: &Graph<TIn, CSIn>)
     } else {
         let b = extended_translation_basis(graph, &orbits[0]);
         let rows = b.iter().map(|v| Matrix::row(v)).collect::<Vec<_>>();
-        let m = Matrix::vstack(&rows).inverse().unwrap();
+        let m = Matrix::vstack(&rows).transpose().inverse().unwrap();
         let aff = &AffineMap::new(&m, &Vector::zero(TIn::dim()));
 
         let mut imgs = HashMap::new();
-- 
2.43.0


From 3dd4e197f200d1cedee5452ab7b42047d9195b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:55 +0000
Subject: [PATCH 17/21] fix: require invariance of the metric, not its inverse,
 in the space of Gram matrices

---
 src/spacegroups/basics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spacegroups/basics.rs b/src/spacegroups/basics.rs
index 4f2f5af..c3d721d 100644
--- a/src/spacegroups/basics.rs
+++ b/src/spacegroups/basics.rs
@@ -120,7 +120,7 @@ pub fn gram_matrix_configuration_space<CS: Clone>(
                 let mut eqn = vec![BigRational::zero(); m];
                 for ja in 0..dim {
                     for jb in 0..dim {
-                        eqn[k[(ja, jb)]] += &s[(ia, ja)] * &s[(ib, jb)];
+                        eqn[k[(ja, jb)]] += &s[(ja, ia)] * &s[(jb, ib)];
                     }
                 }
                 eqn[k[(ia, ib)]] -= BigRational::one();
-- 
2.43.0


From b132c6b7e9f5d2a384b8c48b0e90a04decd3bdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:08 +0000
Subject: [PATCH 18/21] fix: reduce a planar basis of equally long vectors at
 an acute angle

---
 src/spacegroups/lattices.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/spacegroups/lattices.rs b/src/spacegroups/lattices.rs
index 41975d7..674bd3a 100644
--- a/src/spacegroups/lattices.rs
+++ b/src/spacegroups/lattices.rs
@@ -109,6 +109,10 @@ fn lagrange_reduced<T, F>(u: &[T], v: &[T], dot: F, epsilon: &T)
 {
     let norm = |v: &[T]| dot(v, v);
     let fudge = &T::one() - epsilon;
+    let skewed = |u: &[T], v: &[T]| {
+        let t = abs(dot(u, v));
+        &t + &t > norm(u) + epsilon
+    };
     let mut u = u.to_vec();
     let mut v = v.to_vec();
 
@@ -116,7 +120,7 @@ fn lagrange_reduced<T, F>(u: &[T], v: &[T], dot: F, epsilon: &T)
         (u, v) = (v, u);
     }
 
-    while norm(&u) < &norm(&v) * &fudge {
+    while norm(&u) < &norm(&v) * &fudge || skewed(&u, &v) {
         let t = dot(&u, &v).div_rounded(&norm(&u));
         let w = sub(&v, &mul(&u, &t));
         (u, v) = (w, u);
-- 
2.43.0


From 90f2ab2d78b13015ea8a3111291250fb3933f8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:49 +0000
Subject: [PATCH 19/21] fix: drop a needless condition of the planar reduction

The vectors b132c6b was meant for are obtuse without it: equally long
vectors at an acute angle give the same Dirichlet vectors either way.
---
 src/spacegroups/lattices.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/spacegroups/lattices.rs b/src/spacegroups/lattices.rs
index 674bd3a..41975d7 100644
--- a/src/spacegroups/lattices.rs
+++ b/src/spacegroups/lattices.rs
@@ -109,10 +109,6 @@ fn lagrange_reduced<T, F>(u: &[T], v: &[T], dot: F, epsilon: &T)
 {
     let norm = |v: &[T]| dot(v, v);
     let fudge = &T::one() - epsilon;
-    let skewed = |u: &[T], v: &[T]| {
-        let t = abs(dot(u, v));
-        &t + &t > norm(u) + epsilon
-    };
     let mut u = u.to_vec();
     let mut v = v.to_vec();
 
@@ -120,7 +116,7 @@ fn lagrange_reduced<T, F>(u: &[T], v: &[T], dot: F, epsilon: &T)
         (u, v) = (v, u);
     }
 
-    while norm(&u) < &norm(&v) * &fudge || skewed(&u, &v) {
+    while norm(&u) < &norm(&v) * &fudge {
         let t = dot(&u, &v).div_rounded(&norm(&u));
         let w = sub(&v, &mul(&u, &t));
         (u, v) = (w, u);
-- 
2.43.0


From 38c28b118457eb769bc321a61ec1b1501549882a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:03 +0000
Subject: [PATCH 20/21] fix: allow the primitive setting of a group without
 centering

---
 src/spacegroups/basics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spacegroups/basics.rs b/src/spacegroups/basics.rs
index c3d721d..26c3055 100644
--- a/src/spacegroups/basics.rs
+++ b/src/spacegroups/basics.rs
@@ -63,7 +63,7 @@ impl<CS, CSP> PrimitiveSetting<CS, CSP>
         let id = Matrix::identity(dim);
         let s0 = Vector::zero(dim);
 
-        let mut translations = vec![];
+        let mut translations = id.get_rows();
         for op in ops_all {
             if op.linear_matrix() == id && op.shift() != s0 {
                 translations.push(op.shift().into_iter().collect());
-- 
2.43.0


From 67046c1de93be40de78bc074bfbd7cc21d148000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:45 +0000
Subject: [PATCH 21/21] fix: take mirrors with different axes as the basis of a
 planar group

---
 src/spacegroups/finder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spacegroups/finder.rs b/src/spacegroups/finder.rs
index bae7037..beaf0df 100644
--- a/src/spacegroups/finder.rs
+++ b/src/spacegroups/finder.rs
@@ -218,8 +218,8 @@ fn crystal_system_and_basis_2d<T>(ops: &[Matrix<T>])
             s.is_orientation_preserving && s.is_clockwise && s.order == m
         ).unwrap();
         &s.matrix * &x
-    } else if mirrors.len() > 1 {
-        Matrix::col(&mirrors[1].axis.clone().unwrap())
+    } else if let Some(s) = mirrors.iter().find(|s| s.axis != mirrors[0].axis) {
+        Matrix::col(&s.axis.clone().unwrap())
     } else {
         let t = if x[(0, 0)] == T::zero() {
             Matrix::col(&[T::one(), T::zero()])
-- 
2.43.0

