From 2d45414e0b50283b8ce8f9fafac765af6f81ea69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:01:04 +0000
Subject: [PATCH 1/9] fix: do not print working coefficients to standard output

Homographic transformations wrote their internal state to stdout on
every step, a debugging leftover. Callers had their output polluted, and
any operation panicked when stdout could not be written to.
---
 src/strategy/homographic.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/strategy/homographic.rs b/src/strategy/homographic.rs
index f5f8da3..50221e9 100644
--- a/src/strategy/homographic.rs
+++ b/src/strategy/homographic.rs
@@ -1084,8 +1084,6 @@ impl Homographic {
         Option<Ratio>,
         Option<Homographic>,
     ) {
-        // FIXME: debug
-        println!("{} {} {} {}", self.nx, self.n, self.dx, self.d);
         if self.are_singularities_outside_domain() {
             if let Ok(primer) = self.primer_egest() {
                 return (None, primer, None, Some(self));
@@ -1137,8 +1135,6 @@ impl Homographic {
 
 impl Strategy for Homographic {
     fn egest(&mut self) -> Result<Option<protocol::Reduction>, Box<dyn Strategy>> {
-        // FIXME: debug
-        println!("{} {} {} {}", self.nx, self.n, self.dx, self.d);
         if self.are_singularities_outside_domain() {
             if let Ok(reduction) = self.reduction_egest() {
                 return Ok(reduction);
-- 
2.43.0


From 8f507c87b7581cb87a4e7d6bdd8fb6cf71d9b858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:01:04 +0000
Subject: [PATCH 2/9] fix: reject homographic transformations with a null
 denominator

When both denominator coefficients were zero and the operand was not a
special value, a Number with an endless symbol sequence was returned
instead of panicking with a division by zero.
---
 src/strategy/homographic.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/strategy/homographic.rs b/src/strategy/homographic.rs
index 50221e9..2368b4c 100644
--- a/src/strategy/homographic.rs
+++ b/src/strategy/homographic.rs
@@ -862,6 +862,10 @@ pub fn new(
         (special, primer, ratio, None)
     }
 
+    if dx == 0 && d == 0 {
+        panic!("division by zero");
+    }
+
     if nx == 0 && dx == 0 {
         return as_ratio(n, d);
     }
-- 
2.43.0


From 68302b032474dbb16fd7f952ac4e12a9bd9319cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:11:11 +0000
Subject: [PATCH 3/9] fix: fail on negation overflow in every build profile

Negating the smallest machine integer wrapped silently when overflow
checks were off, as in release builds. Transformations with such a
coefficient then returned a Number of the wrong sign or magnitude. They
now panic, as for any other overflow.
---
 src/strategy/combine.rs     | 24 ++++++++++++------------
 src/strategy/homographic.rs | 16 ++++++++--------
 src/strategy/support.rs     | 12 ++++++------
 3 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/strategy/combine.rs b/src/strategy/combine.rs
index 01420b3..7bf7690 100644
--- a/src/strategy/combine.rs
+++ b/src/strategy/combine.rs
@@ -727,19 +727,19 @@ pub fn new(
 
     macro_rules! reflect_x {
         () => {
-            a *= -1;
-            b *= -1;
-            e *= -1;
-            f *= -1;
+            a = a.checked_neg().unwrap();
+            b = b.checked_neg().unwrap();
+            e = e.checked_neg().unwrap();
+            f = f.checked_neg().unwrap();
         };
     }
 
     macro_rules! reflect_y {
         () => {
-            a *= -1;
-            c *= -1;
-            e *= -1;
-            g *= -1;
+            a = a.checked_neg().unwrap();
+            c = c.checked_neg().unwrap();
+            e = e.checked_neg().unwrap();
+            g = g.checked_neg().unwrap();
         };
     }
 
@@ -1106,10 +1106,10 @@ impl Combine {
     }
 
     fn reflect(&mut self) -> protocol::Primer {
-        self.a = -self.a;
-        self.b = -self.b;
-        self.c = -self.c;
-        self.d = -self.d;
+        self.a = self.a.checked_neg().unwrap();
+        self.b = self.b.checked_neg().unwrap();
+        self.c = self.c.checked_neg().unwrap();
+        self.d = self.d.checked_neg().unwrap();
         protocol::Primer::Reflect
     }
 
diff --git a/src/strategy/homographic.rs b/src/strategy/homographic.rs
index 2368b4c..27717ae 100644
--- a/src/strategy/homographic.rs
+++ b/src/strategy/homographic.rs
@@ -889,12 +889,12 @@ pub fn new(
             swap(&mut dx, &mut d);
         }
         Some(protocol::Primer::Reflect) => {
-            nx = -nx;
-            dx = -dx;
+            nx = nx.checked_neg().unwrap();
+            dx = dx.checked_neg().unwrap();
         }
         Some(protocol::Primer::Ground) => {
-            nx = -nx;
-            dx = -dx;
+            nx = nx.checked_neg().unwrap();
+            dx = dx.checked_neg().unwrap();
             swap(&mut nx, &mut n);
             swap(&mut dx, &mut d);
         }
@@ -968,16 +968,16 @@ impl Homographic {
     }
 
     fn ground(&mut self) -> protocol::Primer {
-        self.dx = -self.dx;
-        self.d = -self.d;
+        self.dx = self.dx.checked_neg().unwrap();
+        self.d = self.d.checked_neg().unwrap();
         swap(&mut self.nx, &mut self.dx);
         swap(&mut self.n, &mut self.d);
         protocol::Primer::Ground
     }
 
     fn reflect(&mut self) -> protocol::Primer {
-        self.nx = -self.nx;
-        self.n = -self.n;
+        self.nx = self.nx.checked_neg().unwrap();
+        self.n = self.n.checked_neg().unwrap();
         protocol::Primer::Reflect
     }
 
diff --git a/src/strategy/support.rs b/src/strategy/support.rs
index bbbcb00..5f75e6b 100644
--- a/src/strategy/support.rs
+++ b/src/strategy/support.rs
@@ -155,16 +155,16 @@ pub fn updated_range(
     }
 
     if dmin < 0 {
-        nmin *= -1;
-        dmin *= -1;
+        nmin = nmin.checked_neg().unwrap();
+        dmin = dmin.checked_neg().unwrap();
     }
     if dmax < 0 {
-        nmax *= -1;
-        dmax *= -1;
+        nmax = nmax.checked_neg().unwrap();
+        dmax = dmax.checked_neg().unwrap();
     }
     if dnew < 0 {
-        nnew *= -1;
-        dnew *= -1;
+        nnew = nnew.checked_neg().unwrap();
+        dnew = dnew.checked_neg().unwrap();
     }
 
     if nmin == 0 {
-- 
2.43.0


From ea6cb2d0449a5ceb97c7a0cef144a7db2e95383a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:11:11 +0000
Subject: [PATCH 4/9] fix: accept the smallest machine integer in signed ratios

Number::ratio panicked with an overflow when a term was
isize::min_value() and overflow checks were on, although its magnitude
fits the unsigned terms a ratio is made of.
---
 src/lib.rs            | 4 ++--
 src/strategy/ratio.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c1adac3..be8af35 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -87,8 +87,8 @@ impl Number {
     pub fn ratio(num: isize, den: isize) -> Number {
         Number::ratio_u(
             (num >= 0 && den >= 0) || (num < 0 && den < 0),
-            if num >= 0 { num } else { -num } as usize,
-            if den >= 0 { den } else { -den } as usize,
+            num.wrapping_abs() as usize,
+            den.wrapping_abs() as usize,
         )
     }
 
diff --git a/src/strategy/ratio.rs b/src/strategy/ratio.rs
index d322086..1066448 100644
--- a/src/strategy/ratio.rs
+++ b/src/strategy/ratio.rs
@@ -240,8 +240,8 @@ pub fn new_i(
 ) {
     new(
         (num >= 0 && den >= 0) || (num < 0 && den < 0),
-        if num >= 0 { num } else { -num } as usize,
-        if den >= 0 { den } else { -den } as usize,
+        num.wrapping_abs() as usize,
+        den.wrapping_abs() as usize,
     )
 }
 
-- 
2.43.0


From e94f7e4e6e5036b2596c6461baddba0a36714a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:11:11 +0000
Subject: [PATCH 5/9] fix: do not read symbols when primers already decide a
 comparison

Symbols of both numbers were read even when their primers differ. The
comparison could then fail with an overflow although its outcome was
already known.
---
 src/compare.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/compare.rs b/src/compare.rs
index 192438d..9fb2861 100644
--- a/src/compare.rs
+++ b/src/compare.rs
@@ -297,11 +297,13 @@ fn compare_others(
     p2: Option<protocol::Primer>,
     c2: Clog,
 ) -> Ordering {
-    compare_primers(&p1, &p2).then(compare_clogs(
-        c1,
-        c2,
-        p1 != Some(protocol::Primer::Reflect) && p1 != Some(protocol::Primer::Turn),
-    ))
+    compare_primers(&p1, &p2).then_with(|| {
+        compare_clogs(
+            c1,
+            c2,
+            p1 != Some(protocol::Primer::Reflect) && p1 != Some(protocol::Primer::Turn),
+        )
+    })
 }
 
 fn compare_primers(p1: &Option<protocol::Primer>, p2: &Option<protocol::Primer>) -> Ordering {
-- 
2.43.0


From 93c415d7b5d86dd13f0fdfc570562bf44ce3d79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:15:13 +0000
Subject: [PATCH 6/9] Add caller driven symbol sources behind
 cfg(clarith_verif)

An observation hook, compiled out by default: builds a Clog whose symbols
come from a closure, so that a test harness can feed endless sequences
and see every read.
---
 src/lib.rs   |  3 +++
 src/verif.rs | 40 ++++++++++++++++++++++++++++++++++++++++
 2 files changed, 43 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index be8af35..e89fbf5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -31,6 +31,9 @@ mod strategy;
 
 pub mod protocol;
 
+#[cfg(clarith_verif)]
+pub mod verif;
+
 use crate::strategy::Strategy;
 use std::cmp::Ordering;
 
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..0edf7a1
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,40 @@
+/*
+ * Copyright 2019 Rafael Lorandi <coolparadox@gmail.com>
+ *
+ * This file is part of clarith, a library for performing arithmetic
+ * in continued logarithm representation.
+ *
+ * clarith is free software: you can redistribute it and/or modify
+ * it under the terms of the GNU General Public License as published by
+ * the Free Software Foundation, either version 3 of the License, or
+ * (at your option) any later version.
+ *
+ * clarith is distributed in the hope that it will be useful,
+ * but WITHOUT ANY WARRANTY; without even the implied warranty of
+ * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ * GNU General Public License for more details.
+ *
+ * You should have received a copy of the GNU General Public License
+ * along with clarith.  If not, see <http://www.gnu.org/licenses/>
+ */
+
+//! Observation hook, only compiled with `--cfg clarith_verif`.
+
+use crate::protocol::Reduction;
+use crate::strategy::Strategy;
+use crate::Clog;
+
+struct Source<F>(F);
+
+impl<F: FnMut() -> Option<Reduction>> Strategy for Source<F> {
+    fn egest(&mut self) -> Result<Option<Reduction>, Box<dyn Strategy>> {
+        Ok((self.0)())
+    }
+}
+
+/// A Clog whose symbols come from the caller, who thereby sees every read.
+pub fn clog_from<F: FnMut() -> Option<Reduction> + 'static>(source: F) -> Clog {
+    Clog {
+        strategy: Box::new(Source(source)),
+    }
+}
-- 
2.43.0


From f0231bf56fb7177d848b8f5d8cb177eedc12c074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:36 +0000
Subject: [PATCH 7/9] fix: give infinite homographic bounds the sign of the
 side they are approached from

The bound of a homographic image whose denominator vanishes was taken as
positive or negative infinity from the sign of its numerator alone.  When the
denominator at the other end is negative that is the opposite infinity, so a
result such as the reciprocal of a negative number could not be recognized
before a long run of its operand was read, which overflowed.
---
 src/strategy/homographic.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/strategy/homographic.rs b/src/strategy/homographic.rs
index 27717ae..cb7ecae 100644
--- a/src/strategy/homographic.rs
+++ b/src/strategy/homographic.rs
@@ -988,14 +988,21 @@ impl Homographic {
     }
 
     fn image_extremes(&self) -> (isize, isize, isize, isize) {
-        let (n0, d0) = self.value_at_zero();
+        let (mut n0, d0) = self.value_at_zero();
         if n0 == 0 && d0 == 0 {
             return (0, 0, 0, 0);
         }
-        let (n1, d1) = self.value_at_one();
+        let (mut n1, d1) = self.value_at_one();
         if n1 == 0 && d1 == 0 {
             return (0, 0, 0, 0);
         }
+        // an infinite bound is approached from the side of the other one
+        if d0 == 0 {
+            n0 = n0.signum() * d1.signum();
+        }
+        if d1 == 0 {
+            n1 = n1.signum() * d0.signum();
+        }
         support::updated_range(n0, d0, n0, d0, n1, d1)
     }
 
-- 
2.43.0


From 66107aae8f2768490356b5ad65e6728eff12e6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:16:15 +0000
Subject: [PATCH 8/9] fix: refuse to read on after a failed read

---
 src/lib.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e89fbf5..8027f93 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -36,6 +36,7 @@ pub mod verif;
 
 use crate::strategy::Strategy;
 use std::cmp::Ordering;
+use std::mem::replace;
 
 /// A number greater than zero and lesser than one with unbounded precision.
 pub struct Clog {
@@ -48,16 +49,29 @@ impl Clog {
      * If self is one half, no symbol is returned.
      */
     pub fn egest(&mut self) -> Option<protocol::Reduction> {
-        match self.strategy.egest() {
-            Ok(reduction) => reduction,
-            Err(new_strategy) => {
-                self.strategy = new_strategy;
-                self.egest()
+        // a read that fails leaves Failed behind instead of a half updated strategy
+        let mut strategy = replace(&mut self.strategy, Box::new(Failed));
+        loop {
+            match strategy.egest() {
+                Ok(reduction) => {
+                    self.strategy = strategy;
+                    return reduction;
+                }
+                Err(new_strategy) => strategy = new_strategy,
             }
         }
     }
 }
 
+/// Strategy of a Clog that failed to egest.
+struct Failed;
+
+impl Strategy for Failed {
+    fn egest(&mut self) -> Result<Option<protocol::Reduction>, Box<dyn Strategy>> {
+        panic!("read after failure");
+    }
+}
+
 /// A finite unbounded number with unbounded precision.
 pub enum Number {
     Special(protocol::Special),
-- 
2.43.0


From 2ba7279c30d3f688376e117dd947301afc07b092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:23:01 +0000
Subject: [PATCH 9/9] fix: read operands in a loop instead of recursing

---
 src/strategy/combine.rs     | 36 ++++++++++++++++++++----------------
 src/strategy/homographic.rs | 32 ++++++++++++++++----------------
 2 files changed, 36 insertions(+), 32 deletions(-)

diff --git a/src/strategy/combine.rs b/src/strategy/combine.rs
index 7bf7690..5d5e3e4 100644
--- a/src/strategy/combine.rs
+++ b/src/strategy/combine.rs
@@ -869,16 +869,18 @@ impl Combine {
         Option<Homographic>,
         Option<Combine>,
     ) {
-        if self.are_singularities_outside_domain() {
-            if let Ok(primer) = self.primer_egest() {
-                return (None, primer, None, None, Some(self));
+        loop {
+            if self.are_singularities_outside_domain() {
+                if let Ok(primer) = self.primer_egest() {
+                    return (None, primer, None, None, Some(self));
+                }
             }
-        }
-        match self.prime_ingest() {
-            Ok((special, primer, ratio, homographic)) => {
-                (special, primer, ratio, homographic, None)
+            match self.prime_ingest() {
+                Ok((special, primer, ratio, homographic)) => {
+                    return (special, primer, ratio, homographic, None);
+                }
+                Err(myself) => self = myself,
             }
-            Err(myself) => myself.prime(),
         }
     }
 
@@ -1276,15 +1278,17 @@ impl Combine {
 
 impl Strategy for Combine {
     fn egest(&mut self) -> Result<Option<protocol::Reduction>, Box<dyn Strategy>> {
-        if self.are_singularities_outside_domain() {
-            if let Ok(reduction) = self.reduction_egest() {
-                return Ok(reduction);
+        loop {
+            if self.are_singularities_outside_domain() {
+                if let Ok(reduction) = self.reduction_egest() {
+                    return Ok(reduction);
+                }
+            }
+            match self.reduction_ingest() {
+                (_, Some(homographic)) => return Err(Box::new(homographic)),
+                (Some(ratio), _) => return Err(Box::new(ratio)),
+                _ => {}
             }
-        }
-        match self.reduction_ingest() {
-            (_, Some(homographic)) => Err(Box::new(homographic)),
-            (Some(ratio), _) => Err(Box::new(ratio)),
-            _ => self.egest(),
         }
     }
 }
diff --git a/src/strategy/homographic.rs b/src/strategy/homographic.rs
index cb7ecae..afa9139 100644
--- a/src/strategy/homographic.rs
+++ b/src/strategy/homographic.rs
@@ -1095,15 +1095,15 @@ impl Homographic {
         Option<Ratio>,
         Option<Homographic>,
     ) {
-        if self.are_singularities_outside_domain() {
-            if let Ok(primer) = self.primer_egest() {
-                return (None, primer, None, Some(self));
+        loop {
+            if self.are_singularities_outside_domain() {
+                if let Ok(primer) = self.primer_egest() {
+                    return (None, primer, None, Some(self));
+                }
+            }
+            if let Some((special, primer, ratio)) = self.prime_ingest() {
+                return (special, primer, ratio, None);
             }
-        }
-        match self.prime_ingest() {
-            Some((special, primer, ratio)) => (special, primer, ratio, None),
-            // FIXME: recursion
-            None => self.prime(),
         }
     }
 
@@ -1146,15 +1146,15 @@ impl Homographic {
 
 impl Strategy for Homographic {
     fn egest(&mut self) -> Result<Option<protocol::Reduction>, Box<dyn Strategy>> {
-        if self.are_singularities_outside_domain() {
-            if let Ok(reduction) = self.reduction_egest() {
-                return Ok(reduction);
+        loop {
+            if self.are_singularities_outside_domain() {
+                if let Ok(reduction) = self.reduction_egest() {
+                    return Ok(reduction);
+                }
+            }
+            if let Some(ratio) = self.reduction_ingest() {
+                return Err(Box::new(ratio));
             }
-        }
-        match self.reduction_ingest() {
-            Some(ratio) => Err(Box::new(ratio)),
-            // FIXME: recursion
-            None => self.egest(),
         }
     }
 }
-- 
2.43.0

