From 21e7853a51eec1e3ac210b2d0b9274e6d1425d21 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:21:36 +0000
Subject: [PATCH 01/14] fix: adding quotients whose denominators share a factor
 but do not divide

---
 tm/num.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tm/num.py b/tm/num.py
index 20a4360..45ec5d5 100644
--- a/tm/num.py
+++ b/tm/num.py
@@ -719,7 +719,7 @@ class Div(Num):
         if den < oden:
             return other + self
 
-        if pgcd(den, oden) > 1:
+        if den % oden == 0:
             return (num + ((den // oden) * other.num)) // den
 
         return ((oden * num) + (den * other.num)) // (den * oden)
-- 
2.43.0


From 6de8b8fa861157583807068f1c26c3484b5d911b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 02/14] fix: reduce a square base exactly instead of through
 floats

---
 tm/num.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tm/num.py b/tm/num.py
index 45ec5d5..64acbea 100644
--- a/tm/num.py
+++ b/tm/num.py
@@ -5,7 +5,7 @@ from __future__ import annotations
 
 import itertools
 from abc import abstractmethod
-from math import sqrt, floor, ceil, log, log2, log10, gcd as pgcd
+from math import isqrt, ceil, log, log2, log10, gcd as pgcd
 from functools import cache
 from collections import defaultdict
 
@@ -805,11 +805,11 @@ def make_exp(base: int, exp: Count) -> Exp:
             exp *= 3
             break
 
-        if floor(root := sqrt(base)) != ceil(root):
+        if (root := isqrt(base)) ** 2 != base:
             break
 
-        exp *= int(log(base, root))
-        base = int(root)
+        exp *= 2
+        base = root
 
     exps = EXPS[base]
 
-- 
2.43.0


From ec454a6230202ee38e8764443f49d5ca091f7118 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:54:48 +0000
Subject: [PATCH 03/14] fix: check every observed step of a multiplicative rule
 with the same multiplier

---
 tm/rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tm/rules.py b/tm/rules.py
index 6b007ad..9b56a0d 100644
--- a/tm/rules.py
+++ b/tm/rules.py
@@ -109,8 +109,8 @@ def calculate_diff(*counts: Count) -> Op | None:
 
     div_diff = count_2 - (count_1 * (1 + div))
 
-    if all(aft - (bef * (1 + divv)) == div_diff
-           for bef, aft, divv, _ in divmods):
+    if all(aft - (bef * (1 + div)) == div_diff
+           for bef, aft, _, _ in divmods):
         return 1 + div, div_diff
 
     for add, sub in POSSIBLE_RULE_PAIRS:
-- 
2.43.0


From 644ffa75ce07d1d96487ec265f0b73aaac4d4752 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:40:28 +0000
Subject: [PATCH 04/14] fix: count printed colors and target states in
 prog_params

Colors that are printed but have no defined instruction were left out, so
the positional encoding of macro cells was not injective: 2LB 1RB ...  1RA
1LB ... with two-cell blocks reported B2 as undefined instead of A2.
---
 tm/macro.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tm/macro.py b/tm/macro.py
index 097d68b..562e3d8 100644
--- a/tm/macro.py
+++ b/tm/macro.py
@@ -126,8 +126,14 @@ def prog_params(comp: GetInstr) -> Params:
     else:
         assert isinstance(comp, dict)
 
-        base_states = len(set(map(lambda s: s[0], comp)))
-        base_colors = len(set(map(lambda s: s[1], comp)))
+        base_states = 1 + max(
+            (max(state, trans)
+             for (state, _), (_, _, trans) in comp.items()),
+            default = 0)
+        base_colors = 1 + max(
+            (max(scan, color)
+             for (_, scan), (color, _, _) in comp.items()),
+            default = 0)
 
     return base_states, base_colors
 
-- 
2.43.0


From 30a07265c785cad2b060574e2d4307a1001219af Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:52:53 +0000
Subject: [PATCH 05/14] fix: remainders of 2 ** 4k by 30 and of odd powers of 3
 by 4

---
 tm/num.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tm/num.py b/tm/num.py
index 64acbea..ca006c3 100644
--- a/tm/num.py
+++ b/tm/num.py
@@ -901,7 +901,7 @@ class Exp(Num):
                             case 3:
                                 return 8
                             case 0:  # no-cover
-                                return 15
+                                return 16
                             case 1:  # no-cover
                                 return 2
                             case 2:  # no-cover
@@ -912,7 +912,7 @@ class Exp(Num):
                     return 3
 
                 if int(log_mod := log2(mod)) == log_mod:  # no-branch
-                    exp %= int(2 ** (int(log_mod) - 2))
+                    exp %= 2 ** max(1, int(log_mod) - 2)
 
             case 6:
                 if mod == 10:  # no-branch
-- 
2.43.0


From b47c2166ee942e2c76d548371ff877035d61df8e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:53:33 +0000
Subject: [PATCH 06/14] fix: gcd with a small power

---
 tm/num.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tm/num.py b/tm/num.py
index ca006c3..e435e35 100644
--- a/tm/num.py
+++ b/tm/num.py
@@ -1321,6 +1321,9 @@ def gcd(l: int, r: Count) -> int:
 
     blog = int(log(l, base))
 
+    if isinstance(exp := r.exp, int):
+        blog = min(blog, exp)
+
     over = base ** blog
 
     for _ in itertools.count():
-- 
2.43.0


From 667d6c29ac990532cbb4a940da59b2fd872bec9d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:11:04 +0000
Subject: [PATCH 07/14] fix: equal towers hash alike

---
 tm/num.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tm/num.py b/tm/num.py
index e435e35..f08f31d 100644
--- a/tm/num.py
+++ b/tm/num.py
@@ -1197,7 +1197,7 @@ class Tet(Num):
         return f'({self.base} ↑↑ {self.height})'
 
     def __hash__(self) -> int:
-        return id(self)
+        return hash((self.base, self.height))
 
     def digits(self) -> int:
         raise OverflowError
-- 
2.43.0


From 84a6bc01168124493be61e93318e4e586a27a497 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:30:03 +0000
Subject: [PATCH 08/14] fix: tree normal form after a renaming

---
 tools/tree_norm.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tools/tree_norm.py b/tools/tree_norm.py
index 4351abd..77fb1b2 100644
--- a/tools/tree_norm.py
+++ b/tools/tree_norm.py
@@ -17,13 +17,23 @@ def tree_norm(prog: str) -> str:
             avail_state += 1
         elif state > avail_state:
             norm.swap_states(state, avail_state)
-            avail_state = state
+            state = avail_state
+            avail_state += 1
 
         if (scan := tape.scan) == avail_color:
             avail_color += 1
         elif scan > avail_color:
             norm.swap_colors(scan, avail_color)
-            avail_color = scan
+
+            for block in tape.lspan + tape.rspan:
+                block.color = (
+                    avail_color if block.color == scan else
+                    scan if block.color == avail_color else
+                    block.color
+                )
+
+            tape.scan = scan = avail_color
+            avail_color += 1
 
         if (avail_state >= len(norm.states)
                 and avail_color >= len(norm.colors)):
-- 
2.43.0


From cce9a1507bbfbd0d82bcc4f1d065a7d85dd9b100 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:32:23 +0000
Subject: [PATCH 09/14] fix: normalizing a program without a first instruction

---
 tools/normalize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/normalize.py b/tools/normalize.py
index fe3a52d..5cf1adb 100644
--- a/tools/normalize.py
+++ b/tools/normalize.py
@@ -178,7 +178,7 @@ class Normalizer:
         return self
 
     def normalize_directions(self) -> Self:
-        if (index := self[0, 0]) is None or index[1]:
+        if (index := self.prog[0][0]) is None or index[1]:
             return self
 
         for slot, (color, shift, state) in self.used_instr_slots:
-- 
2.43.0


From f2fc26290fc718c3a603c3926bdb80e3e2dba3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 05:05:35 +0000
Subject: [PATCH 10/14] fix: subtract when a shrinking count is not the one
 that bounds a rule (Rust)

---
 src/rules.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/rules.rs b/src/rules.rs
index 43a6fbf..4974d9e 100644
--- a/src/rules.rs
+++ b/src/rules.rs
@@ -170,9 +170,13 @@ pub fn apply_rule(
 }
 
 fn apply_plus(count: Count, diff: Diff, times: Count) -> Option<Count> {
-    let diff: Count = diff.unsigned_abs().into();
+    let absdiff: Count = diff.unsigned_abs().into();
 
-    let mult = diff.checked_mul(times)?;
+    let mult = absdiff.checked_mul(times)?;
 
-    Some(count + mult)
+    if diff < 0 {
+        count.checked_sub(mult)
+    } else {
+        count.checked_add(mult)
+    }
 }
-- 
2.43.0


From 5bd7f26d294610aebf4ac4652804761250e9af99 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 05:06:05 +0000
Subject: [PATCH 11/14] fix: leave the tape alone when a rule cannot be applied
 (Rust)

---
 src/rules.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rules.rs b/src/rules.rs
index 4974d9e..6dbb4b0 100644
--- a/src/rules.rs
+++ b/src/rules.rs
@@ -150,6 +150,8 @@ pub fn apply_rule(
 ) -> Option<Count> {
     let (times, min_pos, min_res) = count_apps(rule, tape)?;
 
+    let mut results = Vec::with_capacity(rule.len());
+
     for (pos, diff) in rule {
         let result = match *diff {
             Op::Plus(plus) => {
@@ -163,6 +165,10 @@ pub fn apply_rule(
             Op::Mult(_) => unimplemented!(),
         };
 
+        results.push((pos, result));
+    }
+
+    for (pos, result) in results {
         tape.set_count(pos, result);
     }
 
-- 
2.43.0


From 958f7061b33159a41da2afa508517e1e34197e71 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 05:06:27 +0000
Subject: [PATCH 12/14] fix: a count read by a rule is a count the derived rule
 depends on (Rust)

---
 src/tape.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/tape.rs b/src/tape.rs
index 4ce4bad..6d61191 100644
--- a/src/tape.rs
+++ b/src/tape.rs
@@ -709,6 +709,16 @@ impl EnumTape {
 
 impl IndexTape for EnumTape {
     fn get_count(&self, index: &Index) -> Count {
+        let &(side, pos) = index;
+
+        let span = if side {
+            &self.tape.rspan
+        } else {
+            &self.tape.lspan
+        };
+
+        self.check_offsets(&span.0[pos]);
+
         self.tape.get_count(index)
     }
 
-- 
2.43.0


From eaf98d1bbaecc11a1d225894c886bdb061af569a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 05:06:27 +0000
Subject: [PATCH 13/14] fix: report the cycles of a run that ends in blank or
 at its limit (Rust)

---
 src/machine.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/machine.rs b/src/machine.rs
index d831a4b..dafbecd 100644
--- a/src/machine.rs
+++ b/src/machine.rs
@@ -236,20 +236,19 @@ pub fn run_prover(prog: &str, sim_lim: Step) -> MachineResult {
     let mut last_slot: Option<Slot> = None;
 
     for cycle in 0..sim_lim {
+        cycles = cycle;
+
         match prover.try_rule(cycle as i32, state, &tape) {
             None => {},
             Some(ProverResult::ConfigLimit) => {
-                cycles = cycle;
                 result = Some(TermRes::cfglim);
                 break;
             },
             Some(ProverResult::InfiniteRule) => {
-                cycles = cycle;
                 result = Some(TermRes::infrul);
                 break;
             },
             Some(ProverResult::MultRule) => {
-                cycles = cycle;
                 result = Some(TermRes::mulrul);
                 break;
             },
@@ -265,7 +264,6 @@ pub fn run_prover(prog: &str, sim_lim: Step) -> MachineResult {
         let slot = (state, tape.scan);
 
         let Some(&(color, shift, next_state)) = comp.get(&slot) else {
-            cycles = cycle;
             result = Some(TermRes::undfnd);
             last_slot = Some(slot);
             break;
@@ -274,7 +272,6 @@ pub fn run_prover(prog: &str, sim_lim: Step) -> MachineResult {
         let same = state == next_state;
 
         if same && tape.at_edge(shift) {
-            cycles = cycle;
             result = Some(TermRes::spnout);
             break;
         }
@@ -330,10 +327,11 @@ pub fn run_quick_machine(prog: &str, sim_lim: Step) -> MachineResult {
     let mut last_slot: Option<Slot> = None;
 
     for cycle in 0..sim_lim {
+        cycles = cycle;
+
         let slot = (state, tape.scan);
 
         let Some(&(color, shift, next_state)) = comp.get(&slot) else {
-            cycles = cycle;
             result = Some(TermRes::undfnd);
             last_slot = Some(slot);
             break;
@@ -342,7 +340,6 @@ pub fn run_quick_machine(prog: &str, sim_lim: Step) -> MachineResult {
         let same = state == next_state;
 
         if same && tape.at_edge(shift) {
-            cycles = cycle;
             result = Some(TermRes::spnout);
             break;
         }
-- 
2.43.0


From 24b8de79d597bdc82d634525efa7349dde6b0169 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 07:23:40 +0000
Subject: [PATCH 14/14] fix: pass every printed color and target state to
 segment_cant_halt

A program that prints a color or enters a state for which it has no
instruction was analysed as if those slots did not exist: 1RB 1LA ...  1LA
2RA ... halts after 6 steps and was reported not to, and 1RB 0RA  0LC 0RB
... ... panicked.
---
 src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5b6dcbf..6c96220 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -83,9 +83,10 @@ mod wrappers {
     ) -> Option<usize> {
         let prog = &CompProg::from_str(prog);
 
-        let (states, colors) = prog
-            .keys()
-            .fold((0, 0), |acc, &(a, b)| (acc.0.max(a), acc.1.max(b)));
+        let (states, colors) =
+            prog.iter().fold((0, 0), |acc, (&(a, b), &(pr, _, tr))| {
+                (acc.0.max(a).max(tr), acc.1.max(b).max(pr))
+            });
 
         let params = (1 + states, 1 + colors);
 
-- 
2.43.0

