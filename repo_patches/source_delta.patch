From a1b7c170efe3e42ea481efa1dc192af015ca88a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:04 +0000
Subject: [PATCH 01/25] fix: a rule that drops a blank off the tape needs the
 edge

Pushing a blank onto an empty side leaves no block, but on a tape with
further blocks on that side it does. The footprint of a rule did not
record that the side was empty, so the rule was applied to tapes where
it does not hold.
---
 src/prover.rs |  2 +-
 src/tape.rs   | 20 +++++++++++++++++++-
 tm/prover.py  |  2 +-
 tm/tape.py    | 23 ++++++++++++++++++++++-
 4 files changed, 43 insertions(+), 4 deletions(-)

diff --git a/src/prover.rs b/src/prover.rs
index 790a444..7479981 100644
--- a/src/prover.rs
+++ b/src/prover.rs
@@ -139,7 +139,7 @@ impl<'p, Prog: GetInstr> Prover<'p, Prog> {
                 lspan: sig.lspan[..lmax].to_vec(),
                 rspan: sig.rspan[..rmax].to_vec(),
             },
-            tape.edges(),
+            tape.limits(),
         )
     }
 
diff --git a/src/tape.rs b/src/tape.rs
index 4ce4bad..ec12c98 100644
--- a/src/tape.rs
+++ b/src/tape.rs
@@ -593,6 +593,9 @@ pub struct EnumTape {
 
     l_edge: Cell<bool>,
     r_edge: Cell<bool>,
+
+    l_drop: Cell<bool>,
+    r_drop: Cell<bool>,
 }
 
 impl Display for EnumTape {
@@ -636,6 +639,8 @@ impl From<&BasicTape> for EnumTape {
             r_offset: Cell::new(0),
             l_edge: Cell::new(false),
             r_edge: Cell::new(false),
+            l_drop: Cell::new(false),
+            r_drop: Cell::new(false),
         }
     }
 }
@@ -649,6 +654,14 @@ impl EnumTape {
         (self.l_edge.get(), self.r_edge.get())
     }
 
+    /// A blank dropped at the end of the tape is not a touch,
+    /// but it would not have been dropped before other blocks.
+    pub fn limits(&self) -> (bool, bool) {
+        let (l_edge, r_edge) = self.edges();
+
+        (l_edge || self.l_drop.get(), r_edge || self.r_drop.get())
+    }
+
     fn touch_edge(&self, shift: Shift) {
         (if shift { &self.r_edge } else { &self.l_edge }).set(true);
     }
@@ -686,7 +699,12 @@ impl EnumTape {
             }
         }
 
-        if !push.blank() {
+        if push.blank() {
+            if color == 0 {
+                (if shift { &self.l_drop } else { &self.r_drop })
+                    .set(true);
+            }
+        } else {
             let opp = &push.0[0];
 
             if color == opp.color {
diff --git a/tm/prover.py b/tm/prover.py
index dd7bf0f..2fc7c6e 100644
--- a/tm/prover.py
+++ b/tm/prover.py
@@ -102,7 +102,7 @@ class Prover:
 
         lmax, rmax = tape.offsets
 
-        return (sig[0], sig[1][:lmax], sig[2][:rmax]), tape.edges
+        return (sig[0], sig[1][:lmax], sig[2][:rmax]), tape.limits
 
     def try_rule(
             self,
diff --git a/tm/tape.py b/tm/tape.py
index a3a27df..a66d8d4 100644
--- a/tm/tape.py
+++ b/tm/tape.py
@@ -214,6 +214,9 @@ class EnumTape:
     l_edge: bool
     r_edge: bool
 
+    l_drop: bool
+    r_drop: bool
+
     enums: dict[BlockId, Enums]
 
     def __init__(self, tape: Tape):
@@ -225,6 +228,9 @@ class EnumTape:
         self.l_edge = False
         self.r_edge = False
 
+        self.l_drop = False
+        self.r_drop = False
+
         self.enums = {
             id(block): (side, num)
             for side, span in enumerate((tape.lspan, tape.rspan))
@@ -239,6 +245,15 @@ class EnumTape:
     def edges(self) -> tuple[bool, bool]:
         return self.l_edge, self.r_edge
 
+    @property
+    def limits(self) -> tuple[bool, bool]:
+        # A blank dropped at the end of the tape is not a touch,
+        # but it would not have been dropped before other blocks.
+        return (
+            self.l_edge or self.l_drop,
+            self.r_edge or self.r_drop,
+        )
+
     def touch_edge(self, shift: Shift) -> None:
         if shift:
             self.r_edge = True
@@ -299,7 +314,13 @@ class EnumTape:
                 else:
                     self.check_offsets(pull[1])
 
-        if push and color == (opp := push[0]).color:
+        if not push:
+            if color == 0:
+                if shift:
+                    self.l_drop = True
+                else:
+                    self.r_drop = True
+        elif color == (opp := push[0]).color:
             self.check_offsets(opp)
 
         _ = self.tape.step(shift, color, skip)
-- 
2.43.0


From c211babc0f1909f069e4c63d91b5c0ed5acca8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:04 +0000
Subject: [PATCH 02/25] fix: infer macro dimensions from instruction targets as
 well

A state or colour none of whose slots is defined was not counted, so
macro colours of different blocks collided.
---
 tm/macro.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tm/macro.py b/tm/macro.py
index 097d68b..2dbc856 100644
--- a/tm/macro.py
+++ b/tm/macro.py
@@ -126,8 +126,15 @@ def prog_params(comp: GetInstr) -> Params:
     else:
         assert isinstance(comp, dict)
 
-        base_states = len(set(map(lambda s: s[0], comp)))
-        base_colors = len(set(map(lambda s: s[1], comp)))
+        # Undefined slots are not listed, so states and colors
+        # can occur as targets of instructions alone.
+        base_states = 1 + max(
+            max(state, trans)
+            for (state, _), (_, _, trans) in comp.items())
+
+        base_colors = 1 + max(
+            max(color, pr)
+            for (_, color), (pr, _, _) in comp.items())
 
     return base_states, base_colors
 
-- 
2.43.0


From cc4026de68d3b5144e5eba089b5a9da62c93a79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:35 +0000
Subject: [PATCH 03/25] fix: apply a Rust rule in full, subtracting where it
 decreases

---
 src/rules.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/rules.rs b/src/rules.rs
index 43a6fbf..73d8b82 100644
--- a/src/rules.rs
+++ b/src/rules.rs
@@ -150,6 +150,8 @@ pub fn apply_rule(
 ) -> Option<Count> {
     let (times, min_pos, min_res) = count_apps(rule, tape)?;
 
+    let mut results = vec![];
+
     for (pos, diff) in rule {
         let result = match *diff {
             Op::Plus(plus) => {
@@ -163,6 +165,10 @@ pub fn apply_rule(
             Op::Mult(_) => unimplemented!(),
         };
 
+        results.push((pos, result));
+    }
+
+    for (pos, result) in results {
         tape.set_count(pos, result);
     }
 
@@ -170,9 +176,11 @@ pub fn apply_rule(
 }
 
 fn apply_plus(count: Count, diff: Diff, times: Count) -> Option<Count> {
-    let diff: Count = diff.unsigned_abs().into();
+    let mult = Count::from(diff.unsigned_abs()).checked_mul(times)?;
 
-    let mult = diff.checked_mul(times)?;
-
-    Some(count + mult)
+    if diff < 0 {
+        count.checked_sub(mult)
+    } else {
+        count.checked_add(mult)
+    }
 }
-- 
2.43.0


From 804e9e744636fa0a46c53ad56a8068f09c371974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:13 +0000
Subject: [PATCH 04/25] fix: infer Rust rules from the full counts

---
 src/rules.rs | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/rules.rs b/src/rules.rs
index 73d8b82..3f6d78b 100644
--- a/src/rules.rs
+++ b/src/rules.rs
@@ -22,27 +22,38 @@ enum DiffResult {
 }
 
 fn calculate_diff(
-    a: Diff,
-    b: Diff,
-    c: Diff,
-    d: Diff,
+    a: Count,
+    b: Count,
+    c: Count,
+    d: Count,
 ) -> Option<DiffResult> {
     if a == b && b == c && c == d {
         return None;
     }
 
-    let Some(diff_1) = b.checked_sub(a) else {
-        return Some(DiffResult::Unknown);
-    };
+    let diff =
+        |prev: Count, next: Count| i128::from(next) - i128::from(prev);
 
-    let Some(diff_2) = c.checked_sub(b) else {
-        return Some(DiffResult::Unknown);
-    };
+    let diff_1 = diff(a, b);
 
-    if diff_1 == diff_2 && diff_2 == (d - c) {
-        return Some(DiffResult::Got(Op::Plus(diff_1)));
+    if diff_1 == diff(b, c) && diff_1 == diff(c, d) {
+        return Some(
+            Diff::try_from(diff_1)
+                .map_or(DiffResult::Unknown, |plus| {
+                    DiffResult::Got(Op::Plus(plus))
+                }),
+        );
     }
 
+    let (Ok(a), Ok(b), Ok(c), Ok(d)) = (
+        Diff::try_from(a),
+        Diff::try_from(b),
+        Diff::try_from(c),
+        Diff::try_from(d),
+    ) else {
+        return Some(DiffResult::Unknown);
+    };
+
     if a == 0 || b == 0 {
         return Some(DiffResult::Unknown);
     }
@@ -82,9 +93,7 @@ pub fn make_rule(
 
     for (s, spans) in countses.iter().enumerate() {
         for (i, &(a, b, c, d)) in spans.iter().enumerate() {
-            match calculate_diff(
-                a as Diff, b as Diff, c as Diff, d as Diff,
-            ) {
+            match calculate_diff(a, b, c, d) {
                 None => continue,
                 Some(DiffResult::Unknown) => {
                     return None;
-- 
2.43.0


From 030c1e2d8edf2bfd1a93caac552762bcbbf6424d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:53 +0000
Subject: [PATCH 05/25] fix: stop a Rust run when a count overflows

---
 src/machine.rs | 10 ++++++----
 src/tape.rs    | 23 ++++++++++++++++-------
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/machine.rs b/src/machine.rs
index d831a4b..8c794c7 100644
--- a/src/machine.rs
+++ b/src/machine.rs
@@ -6,7 +6,9 @@ use crate::{
     instrs::{CompProg, Parse as _, Slot, State},
     prover::{Prover, ProverResult},
     rules::apply_rule,
-    tape::{Alignment as _, BasicTape as Tape, Count, HeadTape},
+    tape::{
+        checked_sum, Alignment as _, BasicTape as Tape, Count, HeadTape,
+    },
 };
 
 type Step = u64;
@@ -256,7 +258,7 @@ pub fn run_prover(prog: &str, sim_lim: Step) -> MachineResult {
             Some(ProverResult::Got(rule)) => {
                 if let Some(times) = apply_rule(&rule, &mut tape) {
                     // println!("--> applying rule: {:?}", rule);
-                    rulapp += times;
+                    rulapp = checked_sum(rulapp, times);
                     continue;
                 }
             },
@@ -281,7 +283,7 @@ pub fn run_prover(prog: &str, sim_lim: Step) -> MachineResult {
 
         let stepped = tape.step(shift, color, same);
 
-        steps += stepped;
+        steps = checked_sum(steps, stepped);
 
         state = next_state;
 
@@ -349,7 +351,7 @@ pub fn run_quick_machine(prog: &str, sim_lim: Step) -> MachineResult {
 
         let stepped = tape.step(shift, color, same);
 
-        steps += stepped;
+        steps = checked_sum(steps, stepped);
 
         state = next_state;
 
diff --git a/src/tape.rs b/src/tape.rs
index ec12c98..e67002b 100644
--- a/src/tape.rs
+++ b/src/tape.rs
@@ -9,6 +9,11 @@ use crate::instrs::{Color, Shift};
 pub type Count = u64;
 pub type Counts = (Vec<Count>, Vec<Count>);
 
+/// Better to stop than to go on with a wrong number.
+pub const fn checked_sum(a: Count, b: Count) -> Count {
+    a.checked_add(b).expect("count overflow")
+}
+
 /**************************************/
 
 pub trait Block: Display {
@@ -66,7 +71,7 @@ impl Block for BasicBlock {
     }
 
     fn add_count(&mut self, count: Count) {
-        self.count += count;
+        self.count = checked_sum(self.count, count);
     }
 
     fn decrement(&mut self) {
@@ -111,7 +116,7 @@ impl<B: Block> Span<B> {
             .iter()
             .filter(|block| block.get_color() != 0)
             .map(Block::get_count)
-            .sum::<Count>()
+            .fold(0, checked_sum)
     }
 
     fn counts(&self) -> Vec<Count> {
@@ -133,7 +138,10 @@ impl<B: Block> Span<B> {
             (skip && !self.blank() && self.0[0].get_color() == scan)
                 .then(|| self.0.remove(0))
                 .as_ref()
-                .map_or_else(|| 1, |block| 1 + block.get_count());
+                .map_or_else(
+                    || 1,
+                    |block| checked_sum(1, block.get_count()),
+                );
 
         let next_scan = if self.blank() {
             0
@@ -288,9 +296,10 @@ impl<B: Block> Tape<B> {
     }
 
     pub fn marks(&self) -> Count {
-        Count::from(self.scan != 0)
-            + self.lspan.marks()
-            + self.rspan.marks()
+        checked_sum(
+            Count::from(self.scan != 0),
+            checked_sum(self.lspan.marks(), self.rspan.marks()),
+        )
     }
 
     pub fn blocks(&self) -> usize {
@@ -571,7 +580,7 @@ impl Block for EnumBlock {
     }
 
     fn add_count(&mut self, count: Count) {
-        self.count += count;
+        self.count = checked_sum(self.count, count);
     }
 
     fn decrement(&mut self) {
-- 
2.43.0


From 6d7be2d6eed1222f85fec9a44a9bb4eb713215dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:16 +0000
Subject: [PATCH 06/25] fix: reading a count is a touch on the Rust side too

---
 src/tape.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/tape.rs b/src/tape.rs
index e67002b..2c0475a 100644
--- a/src/tape.rs
+++ b/src/tape.rs
@@ -736,6 +736,17 @@ impl EnumTape {
 
 impl IndexTape for EnumTape {
     fn get_count(&self, index: &Index) -> Count {
+        let (side, pos) = *index;
+
+        self.check_offsets(
+            &(if side {
+                &self.tape.rspan
+            } else {
+                &self.tape.lspan
+            })
+            .0[pos],
+        );
+
         self.tape.get_count(index)
     }
 
-- 
2.43.0


From 84d8625f14c2b0bef069c932300d6b991c917598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:26 +0000
Subject: [PATCH 07/25] fix: add quotients exactly when one denominator does
 not divide the other

---
 tm/num.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tm/num.py b/tm/num.py
index 20a4360..45ec5d5 100644
--- a/tm/num.py
+++ b/tm/num.py
@@ -719,7 +719,7 @@ class Div(Num):
         if den < oden:
             return other + self
 
-        if pgcd(den, oden) > 1:
+        if den % oden == 0:
             return (num + ((den // oden) * other.num)) // den
 
         return ((oden * num) + (den * other.num)) // (den * oden)
-- 
2.43.0


From d7ec07293865a68a82f0e3d233d6124dea666de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:26 +0000
Subject: [PATCH 08/25] fix: residues of powers of 2 mod 30 and of 3 mod powers
 of 2

---
 tm/num.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tm/num.py b/tm/num.py
index 45ec5d5..db637d7 100644
--- a/tm/num.py
+++ b/tm/num.py
@@ -5,7 +5,7 @@ from __future__ import annotations
 
 import itertools
 from abc import abstractmethod
-from math import sqrt, floor, ceil, log, log2, log10, gcd as pgcd
+from math import sqrt, floor, ceil, log, log10, gcd as pgcd
 from functools import cache
 from collections import defaultdict
 
@@ -901,7 +901,7 @@ class Exp(Num):
                             case 3:
                                 return 8
                             case 0:  # no-cover
-                                return 15
+                                return 16
                             case 1:  # no-cover
                                 return 2
                             case 2:  # no-cover
@@ -911,8 +911,8 @@ class Exp(Num):
                 if mod == 6:
                     return 3
 
-                if int(log_mod := log2(mod)) == log_mod:  # no-branch
-                    exp %= int(2 ** (int(log_mod) - 2))
+                if mod & (mod - 1) == 0:  # no-branch
+                    exp %= max(2, mod // 4)
 
             case 6:
                 if mod == 10:  # no-branch
-- 
2.43.0


From 1e8d92329a1e024e6577fd91ba725f34c5cc809b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:25 +0000
Subject: [PATCH 09/25] fix: compare multiples of powers by exact integers

---
 tm/num.py | 39 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/tm/num.py b/tm/num.py
index db637d7..0c8f545 100644
--- a/tm/num.py
+++ b/tm/num.py
@@ -609,15 +609,15 @@ class Mul(Num):
 
                 if rexp < roexp:
                     if not isinstance(diff := roexp - rexp, int):  # no-branch
-                        return True  # no-cover
+                        return 0 < lo  # no-cover
 
-                    return ceil(l / lo) <= (base ** diff)  # type: ignore[no-any-return]
+                    return l < lo * (base ** diff)  # type: ignore[no-any-return]
 
                 else:
                     if not isinstance(diff := rexp - roexp, int):  # no-branch
-                        return False  # no-cover
+                        return l < 0  # no-cover
 
-                    return ceil(lo / l) > (base ** diff)  # type: ignore[no-any-return]
+                    return l * (base ** diff) < lo  # type: ignore[no-any-return]
 
         if l < 0:
             if other < 0:  # no-cover
@@ -636,7 +636,15 @@ class Mul(Num):
 
         if isinstance(other, Exp):
             if 0 < l < 10:
-                return r < other
+                if not r < other:
+                    return False
+
+                if not isinstance(l, int) or not isinstance(r, Exp):
+                    return True
+
+                diff = int_diff(other.exp, r.exp)
+
+                return diff is None or l < r.base ** diff
 
         if 0 < l and isinstance(r, Add) and r.l == -1 and r.r == other:
             return False
@@ -1292,6 +1300,27 @@ def add_exponents(
     return (l_co + (r_co * diff_exp)) * l_exp
 
 
+def int_diff(l: Count, r: Count) -> int | None:
+    if isinstance(l, Div) and isinstance(r, Div):
+        if l.den != r.den or (diff := int_diff(l.num, r.num)) is None:
+            return None
+
+        return diff // l.den
+
+    def split(num: Count) -> tuple[int, Num | None]:
+        if isinstance(num, int):
+            return num, None
+
+        if isinstance(num, Add) and isinstance(num.l, int):
+            return num.l, num.r
+
+        return 0, num
+
+    (l_int, l_num), (r_int, r_num) = split(l), split(r)
+
+    return l_int - r_int if l_num is r_num else None
+
+
 def gcd(l: int, r: Count) -> int:
     if l == 1:  # no-cover
         return 1
-- 
2.43.0


From 3ea36d5d651a3e0600cc300be43e0105112b3d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:25 +0000
Subject: [PATCH 10/25] fix: compare small symbolic numbers with integers
 exactly

---
 tm/num.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/tm/num.py b/tm/num.py
index 0c8f545..49df52a 100644
--- a/tm/num.py
+++ b/tm/num.py
@@ -290,7 +290,7 @@ class Add(Num):
 
         if isinstance(other, int):
             if isinstance(l, int):
-                return r < 0
+                return r < other - l
 
             if l < 0 and r < 0:  # no-cover
                 return True
@@ -580,6 +580,13 @@ class Mul(Num):
         l, r = self.l, self.r
 
         if isinstance(other, int):
+            if isinstance(l, int):
+                return (
+                    r < -(-other // l)
+                    if l > 0 else
+                    r > other // l
+                )
+
             return l < 0
 
         if isinstance(other, Mul):
@@ -1132,11 +1139,15 @@ class Exp(Num):
         )
 
     def __lt__(self, other: Count) -> bool:
-        if isinstance(other, int):
-            return False
-
         base, exp = self.base, self.exp
 
+        if isinstance(other, int):
+            return (
+                isinstance(exp, int)
+                and exp < other.bit_length()
+                and base ** exp < other
+            )
+
         if isinstance(other, Exp):
             assert base == other.base
             return exp < other.exp
-- 
2.43.0


From ead7154a2e6702cf8bdf31f7cb028b46e41a4041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:25 +0000
Subject: [PATCH 11/25] fix: a power is less than itself plus something
 positive

---
 tm/num.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tm/num.py b/tm/num.py
index 49df52a..61679ae 100644
--- a/tm/num.py
+++ b/tm/num.py
@@ -1155,6 +1155,9 @@ class Exp(Num):
         if isinstance(other, Add):
             l, r = other.l, other.r
 
+            if self == r:
+                return 0 < l
+
             if isinstance(l, int):  # no-branch
                 return self < r
 
-- 
2.43.0


From e9ca17ddf0bfa0f664cde54b530ccb4fe0280bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:28 +0000
Subject: [PATCH 12/25] fix: test the growing-quotient rule on every
 observation

---
 tm/rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tm/rules.py b/tm/rules.py
index 6b007ad..9b56a0d 100644
--- a/tm/rules.py
+++ b/tm/rules.py
@@ -109,8 +109,8 @@ def calculate_diff(*counts: Count) -> Op | None:
 
     div_diff = count_2 - (count_1 * (1 + div))
 
-    if all(aft - (bef * (1 + divv)) == div_diff
-           for bef, aft, divv, _ in divmods):
+    if all(aft - (bef * (1 + div)) == div_diff
+           for bef, aft, _, _ in divmods):
         return 1 + div, div_diff
 
     for add, sub in POSSIBLE_RULE_PAIRS:
-- 
2.43.0


From dd83b7e723a810a63e9e5ff572b68fee7e13df3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:07 +0000
Subject: [PATCH 13/25] fix: infer the dimensions for segments from instruction
 targets as well

---
 src/lib.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5b6dcbf..f34a6cc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -83,9 +83,15 @@ mod wrappers {
     ) -> Option<usize> {
         let prog = &CompProg::from_str(prog);
 
-        let (states, colors) = prog
-            .keys()
-            .fold((0, 0), |acc, &(a, b)| (acc.0.max(a), acc.1.max(b)));
+        let (states, colors) = prog.iter().fold(
+            (0, 0),
+            |acc, (&(state, color), &(print, _, next))| {
+                (
+                    acc.0.max(state).max(next),
+                    acc.1.max(color).max(print),
+                )
+            },
+        );
 
         let params = (1 + states, 1 + colors);
 
-- 
2.43.0


From 34c4147f291cae6b752268960a73146c1264d459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:28 +0000
Subject: [PATCH 14/25] fix: cut only trailing states and colors that nothing
 mentions

---
 tools/normalize.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/tools/normalize.py b/tools/normalize.py
index fe3a52d..da4ad40 100644
--- a/tools/normalize.py
+++ b/tools/normalize.py
@@ -197,24 +197,20 @@ class Normalizer:
             return
 
     def cut_unused_states(self) -> None:
-        states_to_del = {
-            state
-            for state, switch in self.prog.items()
-            if all(switch[color] is None for color in self.colors)
-        }
+        for state in sorted(self.states, reverse = True)[:-1]:
+            if any(state == trans
+                   for _, _, trans in self.used_instructions):
+                break
 
-        for state in states_to_del:
             del self.prog[state]
 
-        for state in sorted(self.states, reverse = True)[:-1]:
-            if not any(state in instr
-                       for instr in self.used_instructions):
-                del self.prog[state]
-
     def cut_unused_colors(self) -> None:
-        for color in self.colors:
+        for color in sorted(self.colors, reverse = True)[:-1]:
             if any(sw[color] is not None for sw in self.prog.values()):
-                continue
+                break
+
+            if any(color == pr for pr, _, _ in self.used_instructions):
+                break
 
             for switch in self.prog.values():
                 del switch[color]
-- 
2.43.0


From 70cc25a95a6f82fcc2221c923f1d51b7ae03e4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:59 +0000
Subject: [PATCH 15/25] fix: cinch to the state in which the run first writes

---
 tools/normalize.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/tools/normalize.py b/tools/normalize.py
index da4ad40..c9059d6 100644
--- a/tools/normalize.py
+++ b/tools/normalize.py
@@ -187,15 +187,24 @@ class Normalizer:
         return self
 
     def cinch(self) -> None:
-        for state in self.states:  # no-branch
-            if (instr := self.prog[state][0]) is None or instr[0] == 0:
-                continue
+        start = 0
 
-            if state != 0:
-                self.swap_states(0, state)
+        for _ in self.states:  # no-branch
+            if (instr := self.prog[start][0]) is None:
+                return
+
+            color, _, state = instr
 
+            if color != 0:
+                break
+
+            start = state
+        else:
             return
 
+        if start != 0:
+            self.swap_states(0, start)
+
     def cut_unused_states(self) -> None:
         for state in sorted(self.states, reverse = True)[:-1]:
             if any(state == trans
-- 
2.43.0


From 93986f6c2ea3d7c47dfb2f61cb5942cbf013ac1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:59 +0000
Subject: [PATCH 16/25] fix: normalize programs whose first instruction is
 undefined

---
 tools/normalize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/normalize.py b/tools/normalize.py
index c9059d6..c24b302 100644
--- a/tools/normalize.py
+++ b/tools/normalize.py
@@ -178,7 +178,7 @@ class Normalizer:
         return self
 
     def normalize_directions(self) -> Self:
-        if (index := self[0, 0]) is None or index[1]:
+        if (index := self.prog[0][0]) is None or index[1]:
             return self
 
         for slot, (color, shift, state) in self.used_instr_slots:
-- 
2.43.0


From 344367bab6953c53a3016321047e854614584ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:05 +0000
Subject: [PATCH 17/25] fix: tree normal form follows the renamed machine

---
 tools/tree_norm.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/tools/tree_norm.py b/tools/tree_norm.py
index 4351abd..152b479 100644
--- a/tools/tree_norm.py
+++ b/tools/tree_norm.py
@@ -13,23 +13,28 @@ def tree_norm(prog: str) -> str:
     avail_state, avail_color = 1, 1
 
     for _ in range(1_000):  # no-branch
-        if state == avail_state:
-            avail_state += 1
-        elif state > avail_state:
-            norm.swap_states(state, avail_state)
-            avail_state = state
-
-        if (scan := tape.scan) == avail_color:
-            avail_color += 1
-        elif scan > avail_color:
-            norm.swap_colors(scan, avail_color)
-            avail_color = scan
-
         if (avail_state >= len(norm.states)
                 and avail_color >= len(norm.colors)):
             break
 
-        color, shift, next_state = norm[state, scan]
+        try:
+            color, shift, next_state = norm[state, tape.scan]
+        except KeyError:
+            break
+
+        if color > avail_color:
+            norm.swap_colors(color, avail_color)
+            color = avail_color
+
+        if color == avail_color:
+            avail_color += 1
+
+        if next_state > avail_state:
+            norm.swap_states(next_state, avail_state)
+            next_state = avail_state
+
+        if next_state == avail_state:
+            avail_state += 1
 
         tape.step(shift, color, state == next_state)
 
-- 
2.43.0


From 479f1fd00a705dc36771f8660f1ce4ffb436bd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:12 +0000
Subject: [PATCH 18/25] fix: count spin-outs in the 2-4 runner like the others

---
 machines/2-4.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/machines/2-4.c b/machines/2-4.c
index 9093f44..9e59f2f 100644
--- a/machines/2-4.c
+++ b/machines/2-4.c
@@ -45,7 +45,6 @@ int main (void) {
               a3c, a3s, a3t);
 
  B:
-  CHECK_RECUR(b0s, b0t, 1);
   INSTRUCTION(1, b0c, b0s, b0t,
               b1c, b1s, b1t,
               b2c, b2s, b2t,
-- 
2.43.0


From b7545ad16dbed443b9d7671e4445a26b4ebb8187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:24 +0000
Subject: [PATCH 19/25] fix: give states H, L and R labels of their own in C

---
 tools/c.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tools/c.py b/tools/c.py
index b6c01b9..f8162cb 100644
--- a/tools/c.py
+++ b/tools/c.py
@@ -18,8 +18,16 @@ def make_shift(sh: Shift) -> str:
     return ('RIGHT' if sh else 'LEFT') + ';'
 
 
+# labels and macros of machine.h
+RESERVED = { 'H', 'L', 'R' }
+
+
+def make_name(st: State) -> str:
+    return f'{name}_' if (name := show_state(st)) in RESERVED else name
+
+
 def make_trans(tr: State) -> str:
-    return f'goto {show_state(tr) if 0 <= tr else "_"};'
+    return f'goto {make_name(tr) if 0 <= tr else "_"};'
 
 
 def make_binary_write(pr: Color) -> str:
@@ -159,7 +167,7 @@ def make_switch(state: State, instrs: tuple[Instr, ...]) -> str:
 
 
 def make_label(state: State) -> str:
-    return f' {show_state(state)}:'
+    return f' {make_name(state)}:'
 
 
 def parse_prog(prog: str) -> list[tuple[State, Switch]]:
-- 
2.43.0


From 02380815ec164a9d2ee3b292e28de832fd8eb68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:48 +0000
Subject: [PATCH 20/25] fix: give 2315619 a tape it does not run off

---
 machines/structured/2315619.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machines/structured/2315619.c b/machines/structured/2315619.c
index 22935e1..353113c 100644
--- a/machines/structured/2315619.c
+++ b/machines/structured/2315619.c
@@ -1,6 +1,6 @@
 #define PROGRAM "1RB 2LB 1LC  1LA 2RB 1RB  1R_ 2LA 0LC"
 
-#define TAPELEN 48
+#define TAPELEN 60
 
 #include "machine.h"
 
-- 
2.43.0


From aeb3fa810754be632eee181633876ed31cf0a190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:52 +0000
Subject: [PATCH 21/25] fix: give 2333909, 32779477 and 3932964 tapes they do
 not run off

---
 machines/structured/2333909.c  | 2 +-
 machines/structured/32779477.c | 2 +-
 machines/structured/3932964.c  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/machines/structured/2333909.c b/machines/structured/2333909.c
index 490b2fe..b59101c 100644
--- a/machines/structured/2333909.c
+++ b/machines/structured/2333909.c
@@ -1,6 +1,6 @@
 #define PROGRAM "1RB 2RB 1LB 1LA  1LB 3RA 3LA 2RB"
 
-#define TAPELEN 4065
+#define TAPELEN 6700
 
 #include "machine.h"
 
diff --git a/machines/structured/32779477.c b/machines/structured/32779477.c
index b37dfec..6a87045 100644
--- a/machines/structured/32779477.c
+++ b/machines/structured/32779477.c
@@ -1,4 +1,4 @@
-#define TAPELEN 20000
+#define TAPELEN 20500
 
 #include "machine.h"
 
diff --git a/machines/structured/3932964.c b/machines/structured/3932964.c
index 55a6951..cba99d0 100644
--- a/machines/structured/3932964.c
+++ b/machines/structured/3932964.c
@@ -1,6 +1,6 @@
 #define PROGRAM "1RB 2LA 1RA 1RA  1LB 1LA 3RB 1RH"
 
-#define TAPELEN 2080
+#define TAPELEN 4100
 
 #include "machine.h"
 
-- 
2.43.0


From 4d1165cde6e6a53124b26f161fbd4ff9118ebe48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:52 +0000
Subject: [PATCH 22/25] fix: print the halting mark in 3932964

---
 machines/structured/3932964.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/machines/structured/3932964.c b/machines/structured/3932964.c
index cba99d0..49127ab 100644
--- a/machines/structured/3932964.c
+++ b/machines/structured/3932964.c
@@ -56,6 +56,7 @@ int main(void)
   }
 
   // B3
+  WRITE(1);
   RIGHT;
 
  H:
-- 
2.43.0


From 18a03fbc614f76d9817a324b5b09871c039d566f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:23 +0000
Subject: [PATCH 23/25] fix: predict recurrence times beyond the range of a
 cycle correctly

---
 src/prover.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/prover.rs b/src/prover.rs
index 7479981..f786ea5 100644
--- a/src/prover.rs
+++ b/src/prover.rs
@@ -270,6 +270,9 @@ impl PastConfig {
             panic!();
         };
 
+        // predictions can go beyond what a cycle holds
+        let [e, d, c, b, a] = [e, d, c, b, a].map(i64::from);
+
         self.cycles.remove(0);
 
         // println!("{e} {d} {c} {b} {a}");
@@ -300,7 +303,11 @@ impl PastConfig {
                 return None;
             }
 
-            return Some((nxt1 - a, nxt2 - nxt1, nxt3 - nxt2));
+            return Some((
+                Cycle::try_from(nxt1 - a).ok()?,
+                Cycle::try_from(nxt2 - nxt1).ok()?,
+                Cycle::try_from(nxt3 - nxt2).ok()?,
+            ));
         }
 
         None
-- 
2.43.0


From 31746c49e68b207261d3da0805b279bc6c4bc2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:21 +0000
Subject: [PATCH 24/25] fix: print every program that just_so keeps, in input
 order

---
 just_so.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/just_so.py b/just_so.py
index b1a2f6d..dd34b70 100644
--- a/just_so.py
+++ b/just_so.py
@@ -15,11 +15,11 @@ CYCLES = 2_000
 CANT_REACH = cant_spin_out
 
 
-def worker(prog: str) -> None:
+def worker(prog: str) -> str | None:
     if CANT_REACH(prog, CYCLES) is not None:
-        return
+        return None
 
-    print(prog.strip())
+    return prog.strip()
 
 
 if __name__ == '__main__':
@@ -47,4 +47,6 @@ if __name__ == '__main__':
         CANT_REACH = segment_cant_halt  # type: ignore[assignment]
 
     with Pool() as pool:
-        pool.map(worker, sys.stdin)
+        for prog in pool.imap(worker, sys.stdin, chunksize = 16):
+            if prog is not None:
+                print(prog)
-- 
2.43.0


From 486f2a3dc9e3375008661eb24741acdf90cdf3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:07 +0000
Subject: [PATCH 25/25] fix: name drawings after the program, without its line
 end

---
 dump_graphs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dump_graphs.py b/dump_graphs.py
index 50f5901..3c63596 100644
--- a/dump_graphs.py
+++ b/dump_graphs.py
@@ -8,7 +8,9 @@ from tools.dot import make_dot
 if __name__ == '__main__':
     _, path = tempfile.mkstemp()
 
-    for prog in sys.stdin:
+    for line in sys.stdin:
+        prog = line.strip()
+
         with open(path, 'w') as temp:
             temp.write(make_dot(prog))
 
-- 
2.43.0

