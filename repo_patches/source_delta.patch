From b80f3bab5db37d80af1ce8c4f4cf00223fa58aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:31 +0000
Subject: [PATCH 01/48] fix: keep the chart consistent when a solve is
 interrupted while indexing an item

---
 dyna/execute/solver.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/dyna/execute/solver.py b/dyna/execute/solver.py
index 151431b..17a028c 100644
--- a/dyna/execute/solver.py
+++ b/dyna/execute/solver.py
@@ -178,8 +178,12 @@ class Chart:
         return self.chart.items()
 
     def __setitem__(self, item, v):
-        self._update_index(item)
+        # Store the value before indexing the item: lookups read the value of
+        # every item that an index returns, so an interrupt that lands between
+        # the two steps must not leave an indexed item without a value.
+        new = item not in self.chart
         self.chart[item] = v
+        if new: self._update_index(item)
 
     def __getitem__(self, q):
         "Drive subgoal by matching against the chart."
@@ -222,16 +226,15 @@ class Chart:
     # It should be possible to determine which indexes we want by static
     # analysis -- it's the same thing that McAllester does.
     def _update_index(self, item):
-        if item not in self.chart:
-            # only need to update indexes when we get a new item because they
-            # only track the support.
-            fa = (item.fn, item.arity)
-            if fa in self.index:
-                for m in self.index[fa]:
-                    k = tuple(item.args[i] for i in m)
-                    ix = self.index[fa][m]
-                    if k not in ix: ix[k] = set()
-                    ix[k].add(item)
+        # only need to update indexes when we get a new item because they
+        # only track the support.
+        fa = (item.fn, item.arity)
+        if fa in self.index:
+            for m in self.index[fa]:
+                k = tuple(item.args[i] for i in m)
+                ix = self.index[fa][m]
+                if k not in ix: ix[k] = set()
+                ix[k].add(item)
 
 
 def query_mode(q):
-- 
2.43.0


From deb13df3d2ce6feeb232ad12754029b95b318bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:36 +0000
Subject: [PATCH 02/48] fix: the nonground engine double counts a nonground
 item that matches two subgoals of a rule which do not unify with each other

---
 dyna/execute/solver2.py | 11 ++++++++++-
 dyna/program.py         |  7 +++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/dyna/execute/solver2.py b/dyna/execute/solver2.py
index 6b11942..9316543 100644
--- a/dyna/execute/solver2.py
+++ b/dyna/execute/solver2.py
@@ -15,13 +15,22 @@ from dyna.builtin import BuiltinConstraint, NotMatchesConstraint, cmps
 from dyna.execute.base import BaseSolver
 
 
+def same_functor(x, y):
+    """
+    A nonground item can match subgoals that do not unify with each other (e.g.,
+    `n(X,X)` matches both `n(Z,1)` and `n(0,0)`).
+    """
+    return (isinstance(x, Term) and isinstance(y, Term)
+            and x.fn == y.fn and x.arity == y.arity)
+
+
 class Solver(BaseSolver):
     """
     Dyna inference which supports nonground updates.
     """
 
     def __init__(self, program, debug=False, priority=None, AgendaType=LocatorMaxHeap):
-        program = program.linearize()   # so I don't have to worry about double counting diagonals...
+        program = program.linearize(overlap=same_functor)   # so I don't have to worry about double counting diagonals...
         self.program = program
 
         self.chart = {}
diff --git a/dyna/program.py b/dyna/program.py
index 5e93a71..1bcc847 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -1828,11 +1828,14 @@ input/output declarations</summary>\
     #___________________________________________________________________________
     # Program normalization
 
-    def linearize(self, driver=None):
+    def linearize(self, driver=None, overlap=unifies):
         """
         Split overlapping body subgoals into fresh copies so every rule is locally linear.
         Note: this should not be confused with the type of linearization done in Newton's
         algorithm or `solve_linear`.
+
+        Two subgoals overlap if a single item can match both of them.  For ground items,
+        that is the case iff the subgoals unify (the default for `overlap`).
         """
         tmps = OrderedSet()
         for i, s in enumerate(self):
@@ -1843,7 +1846,7 @@ input/output declarations</summary>\
                 if self.is_builtin(x): continue
                 for k in range(j+1, len(s.body)):
                     y = s.body[k]
-                    if unifies(x, y):
+                    if overlap(x, y):
                         tmps.add((i,k))
 
         if not tmps:
-- 
2.43.0


From baab15663fea0382eb3157b9b54055a392f12ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:36 +0000
Subject: [PATCH 03/48] fix: a time budget's timer outlives the call when
 Ctrl-C or an error ends it, and clobbers an enclosing budget

---
 dyna/execute/base.py  |  2 +-
 dyna/programs.py      |  3 ++-
 dyna/search/search.py |  3 ++-
 dyna/util/budget.py   | 44 +++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 49 insertions(+), 3 deletions(-)
 create mode 100644 dyna/util/budget.py

diff --git a/dyna/execute/base.py b/dyna/execute/base.py
index e64b78f..cc1348e 100644
--- a/dyna/execute/base.py
+++ b/dyna/execute/base.py
@@ -1,6 +1,6 @@
 from dyna import Program, Rule, term, fresh, Product
 from dyna.builtin import Builtins
-from arsenal.robust import timelimit, Timeout
+from dyna.util.budget import timelimit, Timeout
 from semirings import Float
 
 
diff --git a/dyna/programs.py b/dyna/programs.py
index a5c86d4..09730b2 100644
--- a/dyna/programs.py
+++ b/dyna/programs.py
@@ -2,7 +2,7 @@
 Program collections
 """
 
-from arsenal import groupby2, iterview, colors, timelimit, Integerizer
+from arsenal import groupby2, iterview, colors, Integerizer
 from time import time
 from itertools import product
 from collections import defaultdict
@@ -10,6 +10,7 @@ from io import StringIO
 
 from dyna import Hypergraph
 from dyna.util import escape_str, graphviz, Edge
+from dyna.util.budget import timelimit
 from dyna.program import Program, TransformedProgram, Define, inf
 
 import pandas
diff --git a/dyna/search/search.py b/dyna/search/search.py
index e7ccc9e..4452021 100644
--- a/dyna/search/search.py
+++ b/dyna/search/search.py
@@ -1,5 +1,5 @@
 import numpy as np
-from arsenal import colors, take, Integerizer, timelimit
+from arsenal import colors, take, Integerizer
 from arsenal.datastructures.pdict import pdict
 from collections import Counter
 from functools import lru_cache
@@ -12,6 +12,7 @@ from dyna import (
 )
 from dyna.transform.fold import prune_r_S
 from dyna.util import OrderedSet
+from dyna.util.budget import timelimit
 
 
 class Agenda:
diff --git a/dyna/util/budget.py b/dyna/util/budget.py
new file mode 100644
index 0000000..185c134
--- /dev/null
+++ b/dyna/util/budget.py
@@ -0,0 +1,44 @@
+"""
+Time budgets
+"""
+
+import signal
+from arsenal.robust import Timeout
+from contextlib import contextmanager
+from time import monotonic
+
+
+@contextmanager
+def timelimit(seconds):
+    """
+    Raise `Timeout` if the body takes longer than `seconds` (`None` means no limit).
+
+    Unlike `arsenal.timelimit`, the timer does not outlive the body when the
+    body is left by an exception (e.g., Ctrl-C or an instantiation fault), and
+    an enclosing limit stays in force (during the body as well as after it).
+    """
+    if seconds is None:
+        yield
+        return
+
+    [outer, _] = signal.getitimer(signal.ITIMER_REAL)
+    if 0 < outer <= seconds:    # the enclosing limit expires first
+        yield
+        return
+
+    def signal_handler(signum, frame):
+        raise Timeout(f'Call took longer than {seconds} seconds.')
+
+    start = monotonic()
+    was = signal.signal(signal.SIGALRM, signal_handler)
+    try:
+        signal.setitimer(signal.ITIMER_REAL, seconds)
+        yield
+    finally:
+        signal.setitimer(signal.ITIMER_REAL, 0)
+        signal.signal(signal.SIGALRM, signal.SIG_DFL if was is None else was)
+        if outer > 0:           # resume the enclosing limit
+            signal.setitimer(signal.ITIMER_REAL, max(outer - (monotonic() - start), 1e-6))
+
+
+timelimit.Timeout = Timeout
-- 
2.43.0


From da992d10c39230dfbcc2695172f9c56c56d1c6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:36 +0000
Subject: [PATCH 04/48] fix: adding a constant to an item whose existing rule
 has an empty body crashes

---
 dyna/program.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyna/program.py b/dyna/program.py
index 1bcc847..eda8006 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -409,7 +409,7 @@ input/output declarations</summary>\
             return i
         else:
             s = self.rules[i]
-            [S] = s.body
+            S = self.get_const_rhs(s)   # the body may be empty, i.e., the semiring's one
             self.rules[i] = Rule(s.head, S + C)
             self._invalidate_caches()   # rules[i] changed in place; keep the if-branch invariant
             return i
-- 
2.43.0


From ecb6e3edc4ffea0de31067c3ba29d79ed9582c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:34 +0000
Subject: [PATCH 05/48] fix: DisjointEstimate leaves overlapping entries behind
 when a merge grows the new entry

---
 dyna/term.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dyna/term.py b/dyna/term.py
index a87f873..3539e92 100644
--- a/dyna/term.py
+++ b/dyna/term.py
@@ -1024,10 +1024,13 @@ class DisjointEstimate:
         # actually merge.  Two freshenings maintain it: on entry, and after each `generalizer` (which
         # can re-inject the matched entry's vars).  O(#merges), not O(#entries), freshenings per add.
         r = fresh(r)
-        for i in reversed(range(len(self.xs))):
+        i = len(self.xs)
+        while i > 0:
+            i -= 1
             if unifies(r, self.xs[i]):   # overlaps
                 r = fresh(generalizer(r, self.xs[i]))
                 del self.xs[i]
+                i = len(self.xs)   # r grew, so it may overlap entries that it did not overlap before
         self.xs.append(canonicalize(r))
     def find_all(self, x):
         "Return the unique branch of the partition that x falls into (or throw an error)"
-- 
2.43.0


From b8f6607154b1d1705ec3a0c355c0a0133850b648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:46 +0000
Subject: [PATCH 06/48] fix: scc_solver loses items when a nonground item
 shares its canonical variables with the chart

---
 dyna/program.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dyna/program.py b/dyna/program.py
index eda8006..30b77a2 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -989,8 +989,10 @@ input/output declarations</summary>\
             # Materialize so that lookup's unify scopes close before tarjan
             # reads the result — otherwise transitive bindings on `x` mutate
             # tarjan's dict-key hash mid-walk.
+            # Rename `x` apart: canonical terms share their variables with the
+            # chart's keys, so binding them would hide part of the chart.
             out = []
-            for r in s1.program.lookup(x):
+            for r in s1.program.lookup(fresh(x)):
                 for _ in s1.ground_out_rule(r):
                     for b in r.body:
                         if not s1.program.is_exogenous(b):
-- 
2.43.0


From 84b471336cad320ba1bfeb8af9fcc466b324862b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:19 +0000
Subject: [PATCH 07/48] fix: scc_solver's two passes disagree on the names of
 split subgoals

---
 dyna/program.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dyna/program.py b/dyna/program.py
index 30b77a2..8a16f34 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -968,7 +968,10 @@ input/output declarations</summary>\
         if not isinstance(data, Program):
             data = Program(data, semiring=self.Semiring)
 
-        p = self.linearize()
+        # Linearize as `solver2` does, so that neither pass introduces further
+        # (differently named) items on its own.
+        from dyna.execute.solver2 import same_functor
+        p = self.linearize(overlap=same_functor)
 
         bound_program = p.magic_templates() if magic else p
 
-- 
2.43.0


From f9e65bc640c80fc0475bef0552884a4fd07908e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:01 +0000
Subject: [PATCH 08/48] fix: listing the derivations of a program with
 duplicate rules crashes

---
 dyna/derivations.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/dyna/derivations.py b/dyna/derivations.py
index 76c91a3..fadc413 100644
--- a/dyna/derivations.py
+++ b/dyna/derivations.py
@@ -10,6 +10,7 @@ from io import StringIO
 from dyna.term import covers, fresh, Product, unify
 from dyna.util import escape_str, escape_html, dot2svg, tikz, latex
 from dyna.rule import Rule, is_const
+from dyna.syntax import term
 from dyna import PrettyPrinter
 
 
@@ -417,12 +418,20 @@ def peel(ds):
     return dds
 
 
+def lookup_chart(chart, x):
+    "Look up the derivations of `x` in `chart`."
+    # Unlike `user_lookup`, no constant folding; it would merge equal derivations,
+    # e.g., those by two copies of the same rule, into a single `2 * derivation`.
+    if isinstance(x, str): x = term(x)
+    return [fresh(r) for r in chart.lookup(x)]
+
+
 def Naive(p, T, x):
-    return Derivations(peel(naive(p, T=T).user_lookup(x)))
+    return Derivations(peel(lookup_chart(naive(p, T=T), x)))
 
 
 def Seminaive(p, T, x, verbose=False):
-    return Derivations(peel(seminaive(p, T=T, verbose=verbose).user_lookup(x)))
+    return Derivations(peel(lookup_chart(seminaive(p, T=T, verbose=verbose), x)))
 
 
 def sld(p, x):
-- 
2.43.0


From d30812b4db11019f382ffe515e64e726a9d10737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:19 +0000
Subject: [PATCH 09/48] fix: agenda-based derivation enumeration crashes when a
 rule is used recursively

---
 dyna/derivations.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dyna/derivations.py b/dyna/derivations.py
index fadc413..7bfd24c 100644
--- a/dyna/derivations.py
+++ b/dyna/derivations.py
@@ -397,7 +397,10 @@ def agenda(p):
 
         new.update(driver, value)
 
-        for i, r in enumerate(p):
+        for i, _r in enumerate(p):
+            # Use a copy; creating derivations that use this rule (recursively)
+            # requires the rule's own variables to be unbound.
+            r = fresh(_r)
             for k in range(len(r.body)):
                 for _ in unify(driver, r.body[k]):
 
-- 
2.43.0


From c2655f8113048f72dc9cf0f830b1558eb4bd7326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:34 +0000
Subject: [PATCH 10/48] fix: the value of a derivation crashes in semirings
 that do not know Product

---
 dyna/derivations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyna/derivations.py b/dyna/derivations.py
index 7bfd24c..b66296c 100644
--- a/dyna/derivations.py
+++ b/dyna/derivations.py
@@ -60,7 +60,7 @@ class Derivation(Rule):
             if len(d) == 0:
                 return Product()
             else:
-                return Derivation.value(d[0]) * Derivation.value(d[1:])
+                return Product() * Derivation.value(d[0]) * Derivation.value(d[1:])
         elif is_const(d):
             return d
         else:
-- 
2.43.0


From fffffcc1d836339ad5d99aa7f18137a615ef3490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:17 +0000
Subject: [PATCH 11/48] fix: top-down derivation enumeration crashes in
 semirings that do not know Product

---
 dyna/derivations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyna/derivations.py b/dyna/derivations.py
index b66296c..b76f353 100644
--- a/dyna/derivations.py
+++ b/dyna/derivations.py
@@ -450,7 +450,7 @@ def sld(p, x):
         else:
             for d1 in sld(p, x[0]):
                 for d2 in sld(p, x[1:]):
-                    yield d1 * d2
+                    yield Product((d1, *d2))
         return
     if p.is_const(x):
         yield x
-- 
2.43.0


From bd0db4572191074880822408c27afdbe3554b574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:35 +0000
Subject: [PATCH 12/48] fix: constraint propagation must not feed the fresh
 copy's variables back into its chart

Checking an arithmetic constraint on a fresh copy reported bindings of the
copy's variables too, so that propagating e.g. '0 is X - X' went on forever.
---
 dyna/propagate.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dyna/propagate.py b/dyna/propagate.py
index 106822a..314fd37 100644
--- a/dyna/propagate.py
+++ b/dyna/propagate.py
@@ -3,7 +3,7 @@ Constraint propagation
 """
 from arsenal import colors
 from dyna.pretty import PrettyPrinter
-from dyna.term import Term, fresh, Var, replace_in_expr, Subst, FAIL
+from dyna.term import Term, fresh, Var, replace_in_expr, Subst, FAIL, term_vars
 from dyna.program import Program
 from dyna.builtin import Builtins
 
@@ -146,7 +146,11 @@ class ConstraintPropagation:
                     assert count == 0, 'only semidet constraints should run'
                     count += 1
                     subst1 = Subst().mgu(fresh(q0), q)
-                    yield subst1
+                    # Keep only what was learned about q's own variables; bindings
+                    # of the fresh copy's variables would feed new variables back
+                    # into the chart forever (e.g., on `0 is X - X`).
+                    vs = term_vars(q)
+                    yield {k: v for k, v in subst1.items() if k in vs}
                 if count == 0:
                     yield None
             else:
-- 
2.43.0


From 5e871e98d8c207a452df92a6cefd3f935c447742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:35 +0000
Subject: [PATCH 13/48] fix: Hypergraph.reachability should not change the
 hypergraph

---
 dyna/util/graphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyna/util/graphs.py b/dyna/util/graphs.py
index d807f45..3c814c4 100644
--- a/dyna/util/graphs.py
+++ b/dyna/util/graphs.py
@@ -158,7 +158,7 @@ class Hypergraph:
         agenda.update(T)
         while agenda:
             x = agenda.pop()
-            for e in self.incoming[x]:
+            for e in self.incoming.get(x, ()):
                 if e.head in T:
                     for b in e.body:
                         if b not in T and b in C:
-- 
2.43.0


From f2320273328fa05c9442d74f968773f89143bdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:34 +0000
Subject: [PATCH 14/48] fix: CoarseGraph.split_input_dependent compared inputs
 that are not the graph's nodes

---
 dyna/analyze/coarse_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyna/analyze/coarse_graph.py b/dyna/analyze/coarse_graph.py
index 457ba76..300908a 100644
--- a/dyna/analyze/coarse_graph.py
+++ b/dyna/analyze/coarse_graph.py
@@ -55,7 +55,7 @@ class CoarseGraph:
         g = self.g
         T = g.transitive_closure(reflexive=True)
 
-        inputs = set(p.inputs.just_heads() if p.inputs is not None else [])
+        inputs = {self.nodes.root(x) for x in p.inputs.just_heads()}
 
         I = []; D = []
         for r in p:
-- 
2.43.0


From 733729182c28e065499e8c2cf250be43e9150795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:34 +0000
Subject: [PATCH 15/48] fix: CoarseGraph.possibly_expansive failed on rules
 with builtins

---
 dyna/analyze/coarse_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyna/analyze/coarse_graph.py b/dyna/analyze/coarse_graph.py
index 300908a..2724222 100644
--- a/dyna/analyze/coarse_graph.py
+++ b/dyna/analyze/coarse_graph.py
@@ -116,7 +116,7 @@ class CoarseGraph:
             x = self.nodes.root(r.head)
             count = 0
             for y in r.body:   # can we reach x in more than one way?
-                if p.is_const(y): continue
+                if p.is_const(y) or p.is_builtin(y): continue
                 y = self.nodes.root(y)
                 count += (x in T.outgoing[y])
                 if count > 1: return True
-- 
2.43.0


From 39f3b92acf879019c3af2a52ef302f09713cc4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:12 +0000
Subject: [PATCH 16/48] fix: rendered pictures are published to the shared
 cache only once complete

---
 dyna/util/util.py | 125 +++++++++++++++++++++++++++-------------------
 1 file changed, 75 insertions(+), 50 deletions(-)

diff --git a/dyna/util/util.py b/dyna/util/util.py
index da180f3..3127590 100644
--- a/dyna/util/util.py
+++ b/dyna/util/util.py
@@ -1,6 +1,8 @@
 import hashlib
+import os
 import re
 import subprocess
+import tempfile
 import webbrowser
 import numpy as np
 
@@ -274,7 +276,6 @@ class latex:
         self.force = force
 
         self.f_svg = Path(f'/tmp/{self.name}.svg')
-        self.f_tex = Path(f'/tmp/{self.name}.tex')
         self.f_pdf = Path(f'/tmp/{self.name}.pdf')
         self.f_png = Path(f'/tmp/{self.name}.png')
 
@@ -308,47 +309,55 @@ class latex:
         self.to_svg()
         webbrowser.open(self.f_svg)
 
-    def to_svg(self):
+    def to_pdf(self):
         assert isinstance(self.code, str)
 
+        if self.force or not self.f_pdf.exists():
+            with publish(self.f_pdf) as pdf:
+                tex = pdf.with_suffix('.tex')
+
+                with open(tex, 'w', encoding='utf-8') as f:
+                    f.write(self.code)
+
+                try:
+                    run_cmd([
+                        'pdflatex', '-interaction=nonstopmode',
+                        f'-output-directory={pdf.parent}',
+                        tex,
+                    ])
+
+                except AssertionError as e:                  # pragma: no cover
+                    print(colors.light.red % 'ERROR:', e)
+                    print('OFFENDING TIKZ CODE:', self.code)
+                    raise e
+
+    def to_svg(self):
         if self.force or not self.f_svg.exists():
+            self.to_pdf()
+            with publish(self.f_svg) as svg:
 
-            with open(self.f_tex, 'w', encoding='utf-8') as f:
-                f.write(self.code)
+                if 1:
+                    # Inkscape
+                    run_cmd([
+                        'inkscape', '--without-gui',
+                        self.f_pdf,
+                        f'--export-plain-svg={svg}',
+                    ])
 
-            try:
-                run_cmd([
-                    'pdflatex', '-interaction=nonstopmode',
-                    '-output-directory=/tmp',
-                    self.f_tex,
-                ])
-
-            except AssertionError as e:                  # pragma: no cover
-                print(colors.light.red % 'ERROR:', e)
-                print('OFFENDING TIKZ CODE:', self.code)
-                raise e
-
-            if 1:
-                # Inkscape
-                run_cmd([
-                    'inkscape', '--without-gui',
-                    self.f_pdf,
-                    f'--export-plain-svg={self.f_svg}',
-                ])
-
-            else:
-                # pdf2svg
-                run_cmd(['pdf2svg', self.f_pdf, self.f_svg])
+                else:
+                    # pdf2svg
+                    run_cmd(['pdf2svg', self.f_pdf, svg])
 
         return open(self.f_svg, encoding='utf-8').read()
 
-    def to_png(self, *args, **kwargs):
+    def to_png(self):
         # Inkscape: pdf -> png
-        self.to_svg(*args, **kwargs)
-        run_cmd([
-            'inkscape', '--without-gui', self.f_pdf,
-            f'--export-png={self.f_png}',
-        ])
+        self.to_pdf()
+        with publish(self.f_png) as png:
+            run_cmd([
+                'inkscape', '--without-gui', self.f_pdf,
+                f'--export-png={png}',
+            ])
         return Image(self.f_png)
 
 
@@ -375,6 +384,19 @@ class tikz(latex):
         ), preamble, opts, code), **kwargs)
 
 
+@contextmanager
+def publish(target):
+    """
+    Rendered files are cached under a name that other processes look for too.
+    So we render in a private directory, and move the file to its place only
+    once it is complete; a renderer that fails or is interrupted leaves nothing.
+    """
+    with tempfile.TemporaryDirectory(dir=target.parent) as d:
+        f = Path(d) / target.name
+        yield f
+        os.replace(f, target)
+
+
 def run_cmd(cmd):
     assert isinstance(cmd, list)
 
@@ -396,32 +418,35 @@ class graphviz:
         self.code = code
         self.force = force
         self.base = Path(f'/tmp/{hashit(code)}')
-        self.f_dot = self.base + '.dot'
         self.f_svg = self.base + '.svg'
         self.f_png = self.base + '.png'
 
     def to_svg(self):
         if not self.f_svg.exists() or self.force:
-            with open(self.f_dot, 'w', encoding='utf-8') as f:
-                f.write(self.code)
-            cmd = f'dot -Tsvg {self.f_dot} -o {self.f_svg}'
-            try:
-                run_cmd(cmd.split())
-            except AssertionError:       # pragma: no cover
-                print(self.code)
-                raise
+            with publish(self.f_svg) as svg:
+                dot = svg.with_suffix('.dot')
+                with open(dot, 'w', encoding='utf-8') as f:
+                    f.write(self.code)
+                cmd = f'dot -Tsvg {dot} -o {svg}'
+                try:
+                    run_cmd(cmd.split())
+                except AssertionError:       # pragma: no cover
+                    print(self.code)
+                    raise
         return open(self.f_svg, encoding='utf-8').read()
 
     def to_png(self):
         if not self.f_png.exists() or self.force:
-            with open(self.f_dot, 'w', encoding='utf-8') as f:
-                f.write(self.code)
-            cmd = f'dot -Tpng {self.f_dot} -o {self.f_png}'
-            try:
-                run_cmd(cmd.split())
-            except AssertionError:      # pragma: no cover
-                print(self.code)
-                raise
+            with publish(self.f_png) as png:
+                dot = png.with_suffix('.dot')
+                with open(dot, 'w', encoding='utf-8') as f:
+                    f.write(self.code)
+                cmd = f'dot -Tpng {dot} -o {png}'
+                try:
+                    run_cmd(cmd.split())
+                except AssertionError:      # pragma: no cover
+                    print(self.code)
+                    raise
         return Image(self.f_png)
 
     def _repr_html_(self):
-- 
2.43.0


From d7651dad73f4c18d412af8d15749a19daafc69b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:07 +0000
Subject: [PATCH 17/48] fix: products of a semiring constant and a list of
 subgoals in Abbreviate and snap_unifications

---
 dyna/term.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dyna/term.py b/dyna/term.py
index 3539e92..8b5cc6a 100644
--- a/dyna/term.py
+++ b/dyna/term.py
@@ -53,7 +53,7 @@ def join_f(f, *xs):
     else:
         for d1 in f(xs[0]):
             for d2 in join_f(f, *xs[1:]):
-                yield d1 * d2
+                yield Product() * d1 * d2
 
 #def join(f, xs):
 #    assert isinstance(xs, tuple), xs
@@ -213,7 +213,7 @@ class Product(tuple):
                 yield from self[1:].snap_unifications()
         else:
             for ys in self[1:].snap_unifications():
-                yield x0 * ys
+                yield Product((x0,)) * ys
 
     def covers(self, ys, s=Ellipsis):
         """
-- 
2.43.0


From 8456747b8baac87faa8f632a750a88cc9089d709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:12 +0000
Subject: [PATCH 18/48] fix: solving 'X is Y*Z' for a factor should not divide
 by a zero factor

---
 dyna/builtin.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/dyna/builtin.py b/dyna/builtin.py
index 78d4b88..21b3826 100644
--- a/dyna/builtin.py
+++ b/dyna/builtin.py
@@ -305,11 +305,15 @@ class Builtins:
                             yield from unify(X, Y * Z)
                             return
                         if isnum(X) and isnum(Y):
-                            yield from unify(Z, X / Y)
-                            return
+                            if Y != 0:
+                                yield from unify(Z, X / Y)
+                                return
+                            if X != 0: return      # no solution; if X == 0, Z is unconstrained
                         if isnum(X) and isnum(Z):
-                            yield from unify(Y, X / Z)
-                            return
+                            if Z != 0:
+                                yield from unify(Y, X / Z)
+                                return
+                            if X != 0: return      # no solution; if X == 0, Y is unconstrained
 
                         # identity elements
                         if isnum(Y) and Y == 1:
@@ -352,6 +356,8 @@ class Builtins:
 
                 elif k.fn == '/':
                     # Just rewrites `X is Y / Z` ==> Y is X * Z =
+                    if isnum(snap(Y)) and isnum(snap(Z)) and snap(Z) == 0:
+                        raise ZeroDivisionError(f'division by zero in `{q}`')
                     yield from self(Term('is', Y, Term('*', X, Z)))
                     return
 
-- 
2.43.0


From 58b56042d9cf12b7eaf1461c601795f5b6cc9b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:55 +0000
Subject: [PATCH 19/48] fix: products of a semiring constant and a list of
 subgoals in run_builtins

---
 dyna/program.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dyna/program.py b/dyna/program.py
index 8a16f34..d8345a8 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -1505,10 +1505,10 @@ input/output declarations</summary>\
             if self.is_builtin(ys[0]):
                 for v in self.lookup_vals(ys[0]):
                     for vs in self._run_builtins(ys[1:]):
-                        yield v * vs
+                        yield Product() * v * vs
             else:
                 for vs in self._run_builtins(ys[1:]):
-                    yield ys[0] * vs
+                    yield Product((ys[0],)) * vs
 
     #def rewrites(self, rewrites):
     #    "Apply rewrites to the bodies of all rules in this program."
-- 
2.43.0


From 20f115dc2fd759545d9438f42586c55234454af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:55 +0000
Subject: [PATCH 20/48] fix: prune_fast failed on programs whose inputs include
 a builtin type

---
 dyna/analyze/dead.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dyna/analyze/dead.py b/dyna/analyze/dead.py
index 4d44b22..ba39ffc 100644
--- a/dyna/analyze/dead.py
+++ b/dyna/analyze/dead.py
@@ -105,8 +105,11 @@ class ProgramCoarsening:
     def __init__(self, p):
         self.parent = p
 
+        # builtin types (e.g., `$bound(X)`) are not items
+        input_types = [x for x in p.inputs.just_heads() if not p.is_builtin(x)]
+
         nodes = DisjointEstimate()
-        for x in p.inputs.just_heads():
+        for x in input_types:
             nodes.add(x)
         for x, *ys in p:
             nodes.add(x)
@@ -117,7 +120,7 @@ class ProgramCoarsening:
 
         # coarse-grained hypergraph
         g = Hypergraph()
-        for x in p.inputs.just_heads():
+        for x in input_types:
             for [i] in self.f(x):
                 g.add_edge(i, None)
         for r in p:
@@ -126,7 +129,7 @@ class ProgramCoarsening:
                     g.add_edge(xx, None, *yy)
 
         # the useful coarse-grained items
-        inputs = {i for x in p.inputs.just_heads() for [i] in self.f(x)}
+        inputs = {i for x in input_types for [i] in self.f(x)}
         outputs = {i for x in p.outputs.just_heads() for [i] in self.f(x)}
         self._useful = g.reachability(inputs, outputs)
 
-- 
2.43.0


From a89fb2a8e0e1d43f67a3425b04d83ada77269cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:55 +0000
Subject: [PATCH 21/48] fix: $not_matches failed when its pattern was bound by
 a unification

---
 dyna/builtin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyna/builtin.py b/dyna/builtin.py
index 21b3826..f8f9174 100644
--- a/dyna/builtin.py
+++ b/dyna/builtin.py
@@ -35,7 +35,7 @@ class NotMatchesConstraint(BuiltinConstraint):
     def run(self, program):
         q = self
         assert q.fn == '$not_matches'
-        [get_x, y] = q.args
+        [get_x, y] = map(snap, q.args)
         x = syntax.term(get_x) if isinstance(get_x, str) else get_x()
         if unifies(x, y):
             # $not_matches("p("ROOT",0,N)",p($X0,$X1,$X2)) ==> keep
-- 
2.43.0


From 06d5df447cf91622b870e27ae4bb38355eab7402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:00 +0000
Subject: [PATCH 22/48] fix: the measure of unfolding a builtin

---
 dyna/transform/unfold.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dyna/transform/unfold.py b/dyna/transform/unfold.py
index 76c2baa..f99ffe8 100644
--- a/dyna/transform/unfold.py
+++ b/dyna/transform/unfold.py
@@ -136,9 +136,12 @@ class Unfold(TransformedProgram):
         m_new = [None]*len(self)
         m_parent = M(self.parent); m_defs = M(self.defs)
 
+        def m_def(D):   # builtins (`D is None`) do not contribute to a derivation's measure
+            return M.Interval.zero if D is None else m_defs.m[D]
+
         for N, r in enumerate(self):
             if N in self.new2def:
-                m_new[N] = m_parent.m[self.i] + m_defs.m[self.new2def[N]]
+                m_new[N] = m_parent.m[self.i] + m_def(self.new2def[N])
             else:
                 m_new[N] = m_parent.m[self.parent.rules.index(r)]
 
@@ -149,7 +152,7 @@ class Unfold(TransformedProgram):
             # don't count the size of the subgoal that we replaced in the unfold action
             extra = M.min_size(self.parent.rules[P].body[:self.j]) + M.min_size(self.parent.rules[P].body[self.j+1:])
             safe.append(
-                    (m_parent.m[P] + m_defs.m[D]).lo + extra > 0
+                    (m_parent.m[P] + m_def(D)).lo + extra > 0
             )
         return M.safety(m_new, self, safe)
 
-- 
2.43.0


From dbd68c621d594d0d177e42be8733d785395ffc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:38 +0000
Subject: [PATCH 23/48] fix: slash and left-corner tests for useful $other
 items must rename apart

---
 dyna/transform/lct.py   | 1 +
 dyna/transform/slash.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/dyna/transform/lct.py b/dyna/transform/lct.py
index e0775b6..095adb7 100644
--- a/dyna/transform/lct.py
+++ b/dyna/transform/lct.py
@@ -136,6 +136,7 @@ class LCT(TransformedProgram):
             return x
 
     def _is_useful_other(self, x):
+        x = fresh(x)   # rename apart; `x` may come from the same rule as `y`
         return any(unifies(x, y) for y in self._useful_other)
 
     def transform(self, d):
diff --git a/dyna/transform/slash.py b/dyna/transform/slash.py
index 9160717..d37b5c9 100644
--- a/dyna/transform/slash.py
+++ b/dyna/transform/slash.py
@@ -136,6 +136,7 @@ class Slash(TransformedProgram):
             return x
 
     def _is_useful_other(self, x):
+        x = fresh(x)   # rename apart; `x` may come from the same rule as `y`
         return any(unifies(x, y) for y in self._useful_other)
 
     def tidy(self, **kwargs):
-- 
2.43.0


From 002cf99d72ef16a1f5228538add0f60a585f7c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:01 +0000
Subject: [PATCH 24/48] fix: abbreviate should not declare builtin types as
 inputs

---
 dyna/analyze/abbreviate.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dyna/analyze/abbreviate.py b/dyna/analyze/abbreviate.py
index 80a2c41..72b53d4 100644
--- a/dyna/analyze/abbreviate.py
+++ b/dyna/analyze/abbreviate.py
@@ -101,8 +101,9 @@ class Abbreviate(TransformedProgram):
                     add_rule(r_id, new_rule)
 
         super().__init__('specialize', program, new_rules)
-        # the user's type parameter are now required as input
-        self.set_input_types(self.inputs + self.types._input_type.inputs)
+        # the user's type parameter are now required as input (builtin types, e.g., `$bound(X)`, are not items)
+        types = self.types._input_type.inputs
+        self.set_input_types(self.inputs + types.spawn([t for t in types if not self.is_builtin(t.head)]))
 
     def __dropped_var_correction(self, body_closure, new_rule, debug):
         # apply the multiplicity correction if a free local variable is lost
-- 
2.43.0


From be2e9cc336fbd9ef42710066b12037c0a533b494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:01 +0000
Subject: [PATCH 25/48] fix: drop the prune_fast change that the abbreviate fix
 made redundant

---
 dyna/analyze/dead.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/dyna/analyze/dead.py b/dyna/analyze/dead.py
index ba39ffc..4d44b22 100644
--- a/dyna/analyze/dead.py
+++ b/dyna/analyze/dead.py
@@ -105,11 +105,8 @@ class ProgramCoarsening:
     def __init__(self, p):
         self.parent = p
 
-        # builtin types (e.g., `$bound(X)`) are not items
-        input_types = [x for x in p.inputs.just_heads() if not p.is_builtin(x)]
-
         nodes = DisjointEstimate()
-        for x in input_types:
+        for x in p.inputs.just_heads():
             nodes.add(x)
         for x, *ys in p:
             nodes.add(x)
@@ -120,7 +117,7 @@ class ProgramCoarsening:
 
         # coarse-grained hypergraph
         g = Hypergraph()
-        for x in input_types:
+        for x in p.inputs.just_heads():
             for [i] in self.f(x):
                 g.add_edge(i, None)
         for r in p:
@@ -129,7 +126,7 @@ class ProgramCoarsening:
                     g.add_edge(xx, None, *yy)
 
         # the useful coarse-grained items
-        inputs = {i for x in input_types for [i] in self.f(x)}
+        inputs = {i for x in p.inputs.just_heads() for [i] in self.f(x)}
         outputs = {i for x in p.outputs.just_heads() for [i] in self.f(x)}
         self._useful = g.reachability(inputs, outputs)
 
-- 
2.43.0


From 534208d60b4369269cd7f517bf882dcb81d631db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:17 +0000
Subject: [PATCH 26/48] fix: elim must split every pair of subgoals that match
 the eliminated rule

---
 dyna/program.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dyna/program.py b/dyna/program.py
index d8345a8..a3d3ae3 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -1534,7 +1534,10 @@ input/output declarations</summary>\
 
     def elim(self, s, **kwargs):
         #try:
-        return self.linearize(driver=self.rules[s].head).linear_rule_elimination(s, **kwargs)
+        # at most one subgoal of each rule may match the eliminated rule's head
+        # (even if no single item matches two of them)
+        h = fresh(self.rules[s].head)
+        return self.linearize(driver=h, overlap=lambda x, y: unifies(y, h)).linear_rule_elimination(s, **kwargs)
         #except AssertionError as e:
         #    import warnings
         #    warnings.warn(str(e))
-- 
2.43.0


From 8b574a1e81df1ca109682f9c0fd4d7b7c7e03ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:01 +0000
Subject: [PATCH 27/48] fix: generalizer must not share a variable between
 different pairs of clashing subterms

---
 dyna/term.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/dyna/term.py b/dyna/term.py
index 8b5cc6a..684b2fc 100644
--- a/dyna/term.py
+++ b/dyna/term.py
@@ -646,15 +646,10 @@ def generalizer(t1, t2, s1=Ellipsis, s2=Ellipsis):
             return Term(*(traverse(a, b) for a, b in zip(x, y)))
 
         else:
-            if x in s1:
-                return s1[x]
-            if y in s2:
-                return s2[y]
-
-            z = Var()
-            s1[x] = z
-            s2[y] = z
-            return z
+            # each *pair* of clashing subterms gets its own variable; sharing it
+            # with another pair would claim an equality that one side lacks
+            if (x, y) not in s1: s1[x, y] = Var()
+            return s1[x, y]
 
     return traverse(t1, t2)
 
-- 
2.43.0


From 93e1817ce77af09ac3ca2b39437dfd013791e06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:11 +0000
Subject: [PATCH 28/48] fix: propagation of a builtin must not leak fresh
 variables inside the values it learns

---
 dyna/propagate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyna/propagate.py b/dyna/propagate.py
index 314fd37..52cc9e1 100644
--- a/dyna/propagate.py
+++ b/dyna/propagate.py
@@ -150,7 +150,7 @@ class ConstraintPropagation:
                     # of the fresh copy's variables would feed new variables back
                     # into the chart forever (e.g., on `0 is X - X`).
                     vs = term_vars(q)
-                    yield {k: v for k, v in subst1.items() if k in vs}
+                    yield {k: subst1(v) for k, v in subst1.items() if k in vs}
                 if count == 0:
                     yield None
             else:
-- 
2.43.0


From b487f870976ac646872660de018ba60026b695c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:22 +0000
Subject: [PATCH 29/48] fix: constraint propagation must combine the equalities
 it collects

---
 dyna/analyze/rewrites.py |  2 +-
 dyna/propagate.py        | 11 +++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/dyna/analyze/rewrites.py b/dyna/analyze/rewrites.py
index c728230..238a902 100644
--- a/dyna/analyze/rewrites.py
+++ b/dyna/analyze/rewrites.py
@@ -70,7 +70,7 @@ class Rewrites:
         chart = cp(R.body)
         if chart is None: return
 
-        subst = Subst({x: y for _,x,y in cp.bindings})
+        subst = cp.subst     # most general unifier of the equalities
         chart = {subst(x) for x in chart if isinstance(x, Term) and x.fn != '='}
 
         assert all(isinstance(x, Term) for x in chart)
diff --git a/dyna/propagate.py b/dyna/propagate.py
index 52cc9e1..9837568 100644
--- a/dyna/propagate.py
+++ b/dyna/propagate.py
@@ -68,6 +68,7 @@ class ConstraintPropagation:
         self.chart = None
         self.agenda = None
         self.bindings = None
+        self.subst = None
         self.checked = None
         self.propagation_hooks = list(propagation_hooks)
 
@@ -175,6 +176,7 @@ class ConstraintPropagation:
         self.chart = chart = Chart()
         self.agenda = agenda = set()
         self.bindings = []
+        self.subst = Subst()
         self.checked = set()
 
         update = self.update
@@ -213,8 +215,13 @@ class ConstraintPropagation:
             if isinstance(driver, Term) and driver.fn == '=':
                 X,Y = driver.args
 
-                # check for a contradiction
-                if not isinstance(X, Var) and not isinstance(Y, Var) and X != Y: return
+                # check for a contradiction with the equalities applied so far
+                # (including cyclic ones, like `X = f(X)`), and learn what they
+                # imply together (e.g., `X = f(A)` and `X = f(1)` imply `A = 1`).
+                before = set(self.subst)
+                if self.subst.mgu(X, Y) is Subst.FAIL: return
+                for k in list(self.subst):
+                    if k not in before: update(Term('=', k, self.subst[k]))
 
                 # Release the equality constraint now that it has be
                 # successfully applied.
-- 
2.43.0


From f1d5c49a2e5f16bd7fb682c878eb0d2bba9d42f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:28 +0000
Subject: [PATCH 30/48] fix: type subsumption must not depend on which of
 several equal variables propagation keeps

---
 dyna/analyze/rewrites.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dyna/analyze/rewrites.py b/dyna/analyze/rewrites.py
index 238a902..0ce1a5a 100644
--- a/dyna/analyze/rewrites.py
+++ b/dyna/analyze/rewrites.py
@@ -5,7 +5,7 @@ from arsenal import colors
 from itertools import combinations
 
 from dyna.pretty import PrettyPrinter
-from dyna.term import Term, fresh, term_vars, Subst, is_var, generalizer, deref, MostGeneralSet
+from dyna.term import Term, fresh, term_vars, Subst, is_var, generalizer, deref, same, MostGeneralSet
 from dyna.program import Program, Rule
 from dyna.propagate import ConstraintPropagation, scons
 
@@ -143,9 +143,11 @@ class Rewrites:
         # specialize the r rule to match s's head.
         R = self(Rule(r.head, *r.body, *sc), drop_checked=True)
         S = self(s, drop_checked=True)
+        s_subst = self.cp.subst
 
         t = Rule(r.head, *s.body, *r.body, *sc)
         T = self(t, ALLOW_FREE_MERGE=False, drop_checked=True)
+        t_subst = self.cp_no_free_merge.subst
 
         if DEBUG > 2:
             head_cond = S is not None and T is not None and s.head == T.head
@@ -173,7 +175,11 @@ class Rewrites:
         if R is None: return False
         if T is None: return False
 
-        return S.head == T.head and set(S.body) >= set(T.body)
+        # `T` must not equate more of `s`'s variables than `S` does, nor constrain
+        # them further.  Propagation picks an arbitrary variable to stand for each
+        # class of equal variables, so we compare up to that choice.
+        xs = Term('$vars', *term_vars(s))
+        return same(fresh(s_subst(xs)), t_subst(xs)) and {t_subst(x) for x in S.body} >= set(T.body)
 
     def same(self, r, s):
         return self.covers(r, s) and self.covers(s, r)  # pylint: disable=W1114
-- 
2.43.0


From cf6fcdad0de3a6aa6fb8dc7e4d6eaa4a458f0eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:06 +0000
Subject: [PATCH 31/48] fix: fold* must not declare the builtins of a rule as
 inputs of its subproblem

---
 dyna/search/old.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyna/search/old.py b/dyna/search/old.py
index 539fd11..0fee68b 100644
--- a/dyna/search/old.py
+++ b/dyna/search/old.py
@@ -251,7 +251,7 @@ class MacroFold(Action):
         if key not in rule_states:
             init = Program(
                 [r],
-                inputs = Program([Rule(fresh(x)) for x in r.body if not is_const(x)]),
+                inputs = Program([Rule(fresh(x)) for x in r.body if not is_const(x) and not program.is_builtin(x)]),
                 outputs = Program([Rule(fresh(r.head))]),
             )
             rule_states[key] = init.beam(100_000, 100, verbosity=0, kill=True, cost=self.graph.cost, TRANSFORMS=['fold']).best
-- 
2.43.0


From bf4ddab5b50f4fff6c9e6e6e557029b08559840a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:08 +0000
Subject: [PATCH 32/48] fix: fold* must not graft a cached solution's auxiliary
 definitions into a program that already has them

---
 dyna/search/old.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dyna/search/old.py b/dyna/search/old.py
index 0fee68b..8fdef3c 100644
--- a/dyna/search/old.py
+++ b/dyna/search/old.py
@@ -248,7 +248,10 @@ class MacroFold(Action):
         r = program.rules[r_ix]
         key = r
         self.graph.n_macro_fold_lookup  += 1
-        if key not in rule_states:
+        # A cached solution brings its own auxiliary definitions, so it must not be
+        # grafted into a program that already has them (e.g., for a duplicate of `r`).
+        used = {(x.head.fn, x.head.arity) for x in program} - {(r.head.fn, r.head.arity)}
+        if key not in rule_states or any((x.head.fn, x.head.arity) in used for x in rule_states[key]):
             init = Program(
                 [r],
                 inputs = Program([Rule(fresh(x)) for x in r.body if not is_const(x) and not program.is_builtin(x)]),
-- 
2.43.0


From e72f62f92878b10475a33300c88b15f182459acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:24 +0000
Subject: [PATCH 33/48] fix: forward chaining must initialize every occurrence
 of a rule that a program contains twice

---
 dyna/execute/base.py    | 9 +++++----
 dyna/execute/solver.py  | 2 +-
 dyna/execute/solver2.py | 2 +-
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/dyna/execute/base.py b/dyna/execute/base.py
index cc1348e..8278771 100644
--- a/dyna/execute/base.py
+++ b/dyna/execute/base.py
@@ -116,13 +116,14 @@ class BaseSolver:
         for value in self.join(r.body, self.one):
             yield value * self.program.multiple(r)
 
-    def init_rule(self, r):
+    def init_rule(self, r, i=None):
         "Ground out the rule `r` against the current memo table."
         assert isinstance(r, Rule), r
         # use id(r) to avoid possibility that two rule test equal, e.g., if we
-        # have two `x += 1` rules.
-        if id(r) in self.initialized: return
-        self.initialized.add(id(r))
+        # have two `x += 1` rules; the position `i` tells apart two occurrences
+        # of the very same rule object, e.g., in `p + p`.
+        if (i, id(r)) in self.initialized: return
+        self.initialized.add((i, id(r)))
         # Notes: If a rule is late to the game, then the chart may be populated.
         # Thus, the rule r may have contribution even if it's RHS is not a
         # constant.  This is different from the fresh slate situation.  Thus,
diff --git a/dyna/execute/solver.py b/dyna/execute/solver.py
index 17a028c..61eb840 100644
--- a/dyna/execute/solver.py
+++ b/dyna/execute/solver.py
@@ -79,7 +79,7 @@ class Solver(BaseSolver):
         self.agenda[item] = p
 
     def _forward_chaining(self):
-        for r in self.program: self.init_rule(r)
+        for i, r in enumerate(self.program): self.init_rule(r, i)
         while self.agenda:
             [a, _] = self.agenda.popitem()
             Δ = self.change.pop(a)
diff --git a/dyna/execute/solver2.py b/dyna/execute/solver2.py
index 9316543..883b4c8 100644
--- a/dyna/execute/solver2.py
+++ b/dyna/execute/solver2.py
@@ -109,7 +109,7 @@ class Solver(BaseSolver):
         self.chart[item] = v
 
     def _forward_chaining(self):
-        for r in self.program: self.init_rule(r)
+        for i, r in enumerate(self.program): self.init_rule(r, i)
         while self.agenda:
             [a, _] = self.agenda.popitem()
             Δ = self.change.pop(a)
-- 
2.43.0


From 46999f8d28933c4e35d9ead8243463a46442e0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:06 +0000
Subject: [PATCH 34/48] fix: rule elimination must remove only the rule at the
 given index, not another occurrence of it

---
 dyna/transform/rule_elimination.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dyna/transform/rule_elimination.py b/dyna/transform/rule_elimination.py
index 54271f2..b31673b 100644
--- a/dyna/transform/rule_elimination.py
+++ b/dyna/transform/rule_elimination.py
@@ -47,7 +47,7 @@ class LinearRuleElimination(TransformedProgram):
 
         new_program = program.spawn()
 #        new_program = []
-        for _r in program:
+        for k, _r in enumerate(program):
             r = fresh(_r) if _r is s else _r
             count = 0
             for j, b in enumerate(r.body):
@@ -98,7 +98,7 @@ class LinearRuleElimination(TransformedProgram):
                 # sufficient to avoid issues.
                 assert False, f'call linearize before elim! {program}\n\n{program.linearize()}'
 
-            if _r is s: continue
+            if k == i % len(program): continue   # (not `_r is s`, as the program may contain `s` twice)
             new_program.append(r)
 
         super().__init__(f'LinearRuleElimination({self.i})', program, new_program)
-- 
2.43.0


From 87f851f1b4c9c24922d925a130d73fdeda3e062b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:54 +0000
Subject: [PATCH 35/48] fix: the megafold-defs action must fold by definitions
 that share a root with the program

---
 dyna/search/old.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/dyna/search/old.py b/dyna/search/old.py
index 8fdef3c..5213315 100644
--- a/dyna/search/old.py
+++ b/dyna/search/old.py
@@ -327,12 +327,9 @@ class Graph1(GraphInterface):
     # T&S'84 paper so it makes sense that we started there too! They are also
     # much faster to pattern match for since its just only permutation not two!)
     def find_defs(self, p):
-        ds = []
-        for x in p.transforms():
-            # TODO: For consistency, both `Fold` and `CSE` below should use
-            # `Define` instead to introduce their new rules.
-            if isinstance(x, Define): ds.extend(x.defs)
-        return ds
+        # TODO: For consistency, both `Fold` and `CSE` below should use
+        # `Define` instead to introduce their new rules.
+        return [x for x in p.transforms() if isinstance(x, Define)]
 
     def actions(self, s):
 
@@ -374,9 +371,11 @@ class Graph1(GraphInterface):
                 actions.append(Action(q.noop, []))
 
         if 'megafold-defs' in self.TRANSFORMS:
-            defs = self.find_defs(p)
-            if defs:
-                for q in p.megafolds(defs=Program(defs)):
+            # fold by each definition, stated in the program that introduced it
+            # (the safety check needs definitions that share a root with `p`)
+            for x in self.find_defs(p):
+                Rs = p.fold_proposals(defs=Program([x.rules[k] for k in x._new_ix]))
+                for q in p.megafolds(defs=x, Rs=Rs):
                     actions.append(Action(q.noop, []))
 
         for i,r in enumerate(p):
-- 
2.43.0


From 4967f40a3ea374854b4026113ce8f8faa3d0c574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:14 +0000
Subject: [PATCH 36/48] fix: code that handles the expiry of its own time
 budget must not swallow that of an enclosing one

---
 dyna/execute/base.py |  4 ++--
 dyna/programs.py     |  6 +++---
 dyna/util/budget.py  | 13 ++++++++++++-
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/dyna/execute/base.py b/dyna/execute/base.py
index 8278771..732aefd 100644
--- a/dyna/execute/base.py
+++ b/dyna/execute/base.py
@@ -1,6 +1,6 @@
 from dyna import Program, Rule, term, fresh, Product
 from dyna.builtin import Builtins
-from dyna.util.budget import timelimit, Timeout
+from dyna.util.budget import timelimit, pending, Timeout
 from semirings import Float
 
 
@@ -89,7 +89,7 @@ class BaseSolver:
         except Timeout as e:
             self.interrupted = True
             #print('timed out')
-            if throw: raise e   # pragma: no cover
+            if throw or pending(e): raise e   # pragma: no cover
         return self
 
     forward_chaining = __call__
diff --git a/dyna/programs.py b/dyna/programs.py
index 09730b2..166160b 100644
--- a/dyna/programs.py
+++ b/dyna/programs.py
@@ -10,7 +10,7 @@ from io import StringIO
 
 from dyna import Hypergraph
 from dyna.util import escape_str, graphviz, Edge
-from dyna.util.budget import timelimit
+from dyna.util.budget import timelimit, pending
 from dyna.program import Program, TransformedProgram, Define, inf
 
 import pandas
@@ -220,8 +220,8 @@ class ProgramCollection(list):
                     with timelimit(budget):
                         y = run(x)
                     t = time() - b4
-                except timelimit.Timeout:
-                    pass
+                except timelimit.Timeout as e:
+                    if pending(e): raise    # an enclosing limit, not the budget of this race
                 else:
                     if t < best_t:
                         best_t = t
diff --git a/dyna/util/budget.py b/dyna/util/budget.py
index 185c134..bd19b08 100644
--- a/dyna/util/budget.py
+++ b/dyna/util/budget.py
@@ -16,6 +16,8 @@ def timelimit(seconds):
     Unlike `arsenal.timelimit`, the timer does not outlive the body when the
     body is left by an exception (e.g., Ctrl-C or an instantiation fault), and
     an enclosing limit stays in force (during the body as well as after it).
+    Code that handles a `Timeout` should let it pass if it is `pending`: then it
+    announces the end of an enclosing limit rather than of its own.
     """
     if seconds is None:
         yield
@@ -26,8 +28,11 @@ def timelimit(seconds):
         yield
         return
 
+    timeout = Timeout(f'Call took longer than {seconds} seconds.')
+    timeout.pending = True      # as long as the body is running
+
     def signal_handler(signum, frame):
-        raise Timeout(f'Call took longer than {seconds} seconds.')
+        raise timeout
 
     start = monotonic()
     was = signal.signal(signal.SIGALRM, signal_handler)
@@ -36,9 +41,15 @@ def timelimit(seconds):
         yield
     finally:
         signal.setitimer(signal.ITIMER_REAL, 0)
+        timeout.pending = False
         signal.signal(signal.SIGALRM, signal.SIG_DFL if was is None else was)
         if outer > 0:           # resume the enclosing limit
             signal.setitimer(signal.ITIMER_REAL, max(outer - (monotonic() - start), 1e-6))
 
 
+def pending(e):
+    "Does the exception `e` announce the end of a time limit whose body is still running?"
+    return getattr(e, 'pending', False)
+
+
 timelimit.Timeout = Timeout
-- 
2.43.0


From 6dcfbcf83685d1fbeb209b55441eeb1974320a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:50 +0000
Subject: [PATCH 37/48] fix: race and search must measure time on a clock that
 cannot be set back

---
 dyna/programs.py   |  6 +++---
 dyna/search/old.py | 10 +++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/dyna/programs.py b/dyna/programs.py
index 166160b..3d493ee 100644
--- a/dyna/programs.py
+++ b/dyna/programs.py
@@ -3,7 +3,7 @@ Program collections
 """
 
 from arsenal import groupby2, iterview, colors, Integerizer
-from time import time
+from time import monotonic
 from itertools import product
 from collections import defaultdict
 from io import StringIO
@@ -216,10 +216,10 @@ class ProgramCollection(list):
         while best_t == inf:
             for x in iterview(self, transient=True, msg=colors.cyan % f'race({budget:g})'):
                 try:
-                    b4 = time()
+                    b4 = monotonic()
                     with timelimit(budget):
                         y = run(x)
-                    t = time() - b4
+                    t = monotonic() - b4
                 except timelimit.Timeout as e:
                     if pending(e): raise    # an enclosing limit, not the budget of this race
                 else:
diff --git a/dyna/search/old.py b/dyna/search/old.py
index 5213315..0488824 100644
--- a/dyna/search/old.py
+++ b/dyna/search/old.py
@@ -7,7 +7,7 @@ Findings of the Association for Computational Linguistics: EMNLP 2021
 https://aclanthology.org/2021.findings-emnlp.322/
 
 """
-from time import time
+from time import monotonic
 
 from arsenal import colors
 from arsenal.maths.combinatorics import powerset
@@ -29,9 +29,9 @@ class Search:
                  benchmark = None, verbosity = 1, kill = False, run = True):
         self.i = 0
         self.name = name
-        self.last_update = 0
-        self.last_checkpoint = 0
-        self.start_time = time()
+        self.last_update = -float('inf')
+        self.last_checkpoint = -float('inf')
+        self.start_time = monotonic()
         self.best = None
         self.best_cost = None
         self.verbosity = verbosity
@@ -92,7 +92,7 @@ class Search:
         self.programs[self.i] = p
 
         cost = self.G.cost(p)
-        now = time()
+        now = monotonic()
         x = dict(
             i = self.i,
             elapsed = now-self.start_time,
-- 
2.43.0


From f9323d2fe60c7c2431736f209eb7bb5485b3fab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:14 +0000
Subject: [PATCH 38/48] fix: symbolic evaluation works in semirings that do not
 know Product

The empty conjunction was the semiring's one, and multiplying it by a subgoal
fails unless the semiring special-cases its one (MaxPlus does not).
---
 dyna/program.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyna/program.py b/dyna/program.py
index a3d3ae3..ef550a2 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -1237,7 +1237,7 @@ input/output declarations</summary>\
         if not isinstance(xs, tuple):
             return ResultStream(self.lookup_vals, xs)
         elif len(xs) == 0:
-            return Constant(self.Semiring.one)
+            return Constant(Product())   # neutral, whatever the semiring
         elif len(xs) == 1:   # special case to avoid extra semiones
             return self[xs[0]]
         else:
-- 
2.43.0


From 553cb0d50a21aab14584ac935a2ed5d73a5d0f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:00 +0000
Subject: [PATCH 39/48] fix: newton and solve_linear lose rules with builtins

A builtin was counted as an item of the (linearized) system, where it has no
value: rules such as p(Y) += q(X), Y is X+1 contributed nothing.
---
 dyna/execute/linear.py | 5 +++--
 dyna/program.py        | 7 ++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/dyna/execute/linear.py b/dyna/execute/linear.py
index 5996e16..431b7be 100644
--- a/dyna/execute/linear.py
+++ b/dyna/execute/linear.py
@@ -50,7 +50,8 @@ class kleene_linsolve(TransformedProgram):
         # The following two loops instantiate p's rules according to the
         # estimated support in `bsol`.
         for r in p:
-            for _ in bsol[r.body]:
+            # Builtins go last: the lookup evaluates them with their variables bound.
+            for _ in bsol[tuple(sorted(r.body, key=p.is_builtin))]:
 
                 # Below, we extract <= 1 variable and fold coefficients
                 vs = []
@@ -58,7 +59,7 @@ class kleene_linsolve(TransformedProgram):
                 for b in r.body:          # XXX: assumes commutativity - better to check!
                     if p.is_const(b):
                         coeff *= b
-                    else:
+                    elif not p.is_builtin(b):
                         vs.append(b)
                 assert len(vs) <= 1
 
diff --git a/dyna/program.py b/dyna/program.py
index ef550a2..91aaa45 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -1120,7 +1120,8 @@ input/output declarations</summary>\
         # empty
         chart = Program(semiring=self.semiring)
         # initialize with dim<=1 derivations
-        change_p = Program([r for r in self if r.is_const() or r.is_linear()],
+        def is_item(y): return not (self.is_const(y) or self.is_builtin(y))
+        change_p = Program([r for r in self if sum(map(is_item, r.body)) <= 1],
                            inputs='', outputs='', semiring=self.semiring, has_builtins=False)
         t = 0
         while True:
@@ -1134,11 +1135,11 @@ input/output declarations</summary>\
                 x = r.head; ys = r.body; K = len(ys)
                 # recursive case
                 for k in range(K):
-                    if self.is_const(ys[k]): continue
+                    if not is_item(ys[k]): continue
                     next_change_p[x] = next_chart[ys[:k]] * Constant(ys[k], ys[k]) * next_chart[ys[k+1:]]
                 # base case
                 for i,j in combinations(range(K), 2):
-                    if self.is_const(ys[i]) or self.is_const(ys[j]): continue
+                    if not (is_item(ys[i]) and is_item(ys[j])): continue
                     assert i < j
                     next_change_p[x] = next_chart[ys[:i]] * change[ys[i]] * chart[ys[i+1:j]] * change[ys[j]] * chart[ys[j+1:]]
             chart = next_chart
-- 
2.43.0


From 58b8719b0fea9d88ab9f586b52d362e6fbc43c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:41 +0000
Subject: [PATCH 40/48] fix: fc(max_iter=0) raised UnboundLocalError

---
 dyna/program.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyna/program.py b/dyna/program.py
index 91aaa45..3076543 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -882,7 +882,7 @@ input/output declarations</summary>\
     # TODO: add the precision option like agenda.
     def fc(self, *, max_iter=None, chart=None, verbose=False, proj=lambda p: p):
         "Naive forward chaining (possibly with delayed constraints)"
-        old = Program([], Program([]), Program([]), semiring=self.Semiring) if chart is None else chart
+        new = old = Program([], Program([]), Program([]), semiring=self.Semiring) if chart is None else chart
         for m in (range(max_iter) if max_iter is not None else count()):
             if verbose: print('Iter', m, old)
             new = proj(self.step(old))
-- 
2.43.0


From 22f6b6858ad5d349d9abcbfef9e3d1b8f34f4668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:08 +0000
Subject: [PATCH 41/48] fix: solving never ends at, and comparison rejects,
 equal infinite values

---
 dyna/execute/base.py |  3 ++-
 dyna/program.py      |  4 ++--
 dyna/util/util.py    | 10 ++++++++++
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/dyna/execute/base.py b/dyna/execute/base.py
index 732aefd..cf1689d 100644
--- a/dyna/execute/base.py
+++ b/dyna/execute/base.py
@@ -1,5 +1,6 @@
 from dyna import Program, Rule, term, fresh, Product
 from dyna.builtin import Builtins
+from dyna.util import distance
 from dyna.util.budget import timelimit, pending, Timeout
 from semirings import Float
 
@@ -71,7 +72,7 @@ class BaseSolver:
         # being exact — important for LogVal, whose stock `__eq__` uses
         # `np.allclose` and would collapse small-but-distinct values,
         # causing premature fixpoint convergence here.
-        return self.Weight.metric(x, y) <= self.tol
+        return distance(self.Weight, x, y) <= self.tol
 
     #___________________________________________________________________________
     # Inference methods
diff --git a/dyna/program.py b/dyna/program.py
index 3076543..b610043 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -21,7 +21,7 @@ from dyna.term import (
     deref, join_f, NoDupsSet,
     Stream, ResultStream, Constant
 )
-from dyna.util import FrozenBag, tarjan, instance_cache, GroundingsPrinter
+from dyna.util import FrozenBag, tarjan, instance_cache, GroundingsPrinter, distance
 from dyna.util.bucket_queue import BucketQueue
 from dyna.util import OrderedSet
 from dyna.exceptions import DynaParserException
@@ -603,7 +603,7 @@ input/output declarations</summary>\
         if set(A_chart) != set(B_chart):
             chart_d = float('inf')
         else:
-            chart_d = max((sr.metric(A_chart[k], B_chart[k]) for k in A_chart),
+            chart_d = max((distance(sr, A_chart[k], B_chart[k]) for k in A_chart),
                           default=0)
         # Structural part: symbolic rules must match exactly. Use the
         # same bucketing / alignment as `Program.__eq__`.
diff --git a/dyna/util/util.py b/dyna/util/util.py
index 3127590..58e0f9c 100644
--- a/dyna/util/util.py
+++ b/dyna/util/util.py
@@ -16,6 +16,16 @@ from path import Path
 
 import ipywidgets as widgets
 
+def distance(semiring, x, y):
+    """
+    The semiring's own distance between the values `x` and `y`, except that it
+    cannot compare two infinite values (inf - inf is nan), which are only near
+    each other if they are equal.
+    """
+    d = semiring.metric(x, y)
+    return d if d == d else (0 if x == y else float('inf'))
+
+
 def interactive_forward_chaining(p):
     import dyna
 
-- 
2.43.0


From 5727a4ab32f98324275bb8cd53a775fdeec4c403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:45 +0000
Subject: [PATCH 42/48] fix: an item whose first update is infinite yields nan
 through rules that use it twice

---
 dyna/execute/solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dyna/execute/solver.py b/dyna/execute/solver.py
index 61eb840..7a41e33 100644
--- a/dyna/execute/solver.py
+++ b/dyna/execute/solver.py
@@ -92,12 +92,14 @@ class Solver(BaseSolver):
                 if self.debug: print(f'{colors.light.yellow % "pop"}: {fresh(a)} ... no change')
                 continue
             # update the chart with the Δ update
+            first = a not in self.chart.chart
             self.chart[a] = new
             self.pops1 += 1   # pop actually result in propagation
             if self.debug: print(f'{colors.light.yellow % "pop"}: {a} += {Δ}', colors.magenta % f'(old: {old}, new: {new})')
             # ground out rules against the current chart
             for i, s, P in self.drive_rules(a, old, Δ):
                 # carefully apply the Δ-update to avoid double counting.
+                if first and a in s.body[:i]: continue   # no old value to multiply with (0 * inf is nan)
                 c = self.one
                 for j, z in enumerate(s.body):   # XXX: better to reuse prefix products or binarize
                     if j < i and z == a:
-- 
2.43.0


From 5dd51f71861d642e97d9a509b6b529f1ca363fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:58 +0000
Subject: [PATCH 43/48] fix: constant folding fails to merge equal rules whose
 subgoals differ only in their variables

---
 dyna/program.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dyna/program.py b/dyna/program.py
index b610043..39532da 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -2320,6 +2320,7 @@ class ConstantFolded(TransformedProgram):
         # fall back to "skeleton key is the rule itself", which keeps
         # them un-merged but doesn't crash.
         merged = {}
+        tied = defaultdict(list)
         for r in intermediate:
             C, xs = self._split_const_and_symbolic(parent, r)
             # Bucket key uses xs in canonical order (so commutative `*`
@@ -2329,6 +2330,17 @@ class ConstantFolded(TransformedProgram):
             # by position and would be sensitive to a reorder here.
             xs_sorted = sorted(xs, key=_subgoal_sort_key)
             key = canonicalize(Term('$skel', r.head, *xs_sorted))
+            # Subgoals that differ only in their variables tie for their place in
+            # the canonical order, so that equal skeletons may have unequal keys.
+            if key not in merged and len(set(map(_subgoal_sort_key, xs))) < len(xs):
+                skel = Rule(r.head, *xs)
+                bucket = tied[skel._hash_cache]
+                for key_, skel_ in bucket:
+                    if skel_.same(skel):
+                        key = key_
+                        break
+                else:
+                    bucket.append((key, skel))
             if key in merged:
                 head_, xs_, total = merged[key]
                 merged[key] = (head_, xs_, total + C)
-- 
2.43.0


From 8205664f6c8618cf676fdaaecb85e267dc48696f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:24 +0000
Subject: [PATCH 44/48] fix: interrupting an edit of a program leaves its
 caches and buckets stale

---
 dyna/program.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/dyna/program.py b/dyna/program.py
index 39532da..5c21dfd 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -410,8 +410,9 @@ input/output declarations</summary>\
         else:
             s = self.rules[i]
             S = self.get_const_rhs(s)   # the body may be empty, i.e., the semiring's one
-            self.rules[i] = Rule(s.head, S + C)
-            self._invalidate_caches()   # rules[i] changed in place; keep the if-branch invariant
+            s = Rule(s.head, S + C)
+            self._invalidate_caches()   # rules[i] changes in place; keep the if-branch invariant
+            self.rules[i] = s
             return i
 
     # Warning: this function just creates an index; it does not merge rules; the
@@ -419,13 +420,14 @@ input/output declarations</summary>\
     # It won't point to all instances.
     def _make_buckets(self):
         "Initialize the constant-folding buckets."
-        self._buckets = {}
+        buckets = {}
         for i, r in enumerate(self):
             C = self.get_const_rhs(r)
             if C is not None:
                 h = canonicalize(r.head)
-                if self._buckets.get(h) is None:   # use existing bucket
-                    self._buckets[h] = i
+                if buckets.get(h) is None:   # use existing bucket
+                    buckets[h] = i
+        self._buckets = buckets   # only once complete (we may be interrupted)
 
     # XXX: the main thing going on with update is that we call constant_folding_rhs and fresh
     def update(self, head, *body):
@@ -461,15 +463,16 @@ input/output declarations</summary>\
         self._caches.clear()   # degrees, prune*, ...
 
     def _add_rule(self, r):
+        self._invalidate_caches()   # before the change, lest we are interrupted
         i = len(self.rules)
         self.rules.append(r)
         if self._cache_f2r is not None:
             self._cache_f2r[r.head.fn].append(i)
-        self._invalidate_caches()
         return i
 
     def pop(self, i):
         "Remove rule at index i from the program"
+        self._invalidate_caches()   # before the change, lest we are interrupted
         r = self.rules.pop(i)
 
         # `_cache_f2r` and `_buckets` both index rules by *position*. Popping
@@ -498,7 +501,6 @@ input/output declarations</summary>\
 
         self._cache_f2r = None
         self._buckets = None
-        self._invalidate_caches()
         return r
 
     def fresh(self):
-- 
2.43.0


From 251874b7cc652ed499934be5bf814bc9357cc937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:31 +0000
Subject: [PATCH 45/48] fix: the linear solver loses or spoils the values of
 nonground items

A subgoal was identified with its instance rather than with the more general
item that it matched, rules were not instantiated against items that the
boolean support subsumes, and zero times infinity gave nan.
---
 dyna/execute/linear.py | 82 ++++++++++++++++++++++++++----------------
 1 file changed, 52 insertions(+), 30 deletions(-)

diff --git a/dyna/execute/linear.py b/dyna/execute/linear.py
index 431b7be..2665dfb 100644
--- a/dyna/execute/linear.py
+++ b/dyna/execute/linear.py
@@ -1,6 +1,6 @@
 import numpy as np
 from arsenal import Integerizer, colors
-from dyna import TransformedProgram, Rule, Term, term_vars, canonicalize
+from dyna import Program, TransformedProgram, Rule, term_vars, canonicalize, fresh, is_var, unify
 
 
 def kleene(A, semiring, reflexive=True):
@@ -21,7 +21,10 @@ def kleene(A, semiring, reflexive=True):
         for i in range(N):
             for k in range(N):
                 # i ➙ j ⇝ j ➙ k
-                new[i,k] = old[i,k] + old[i,j] * sjj * old[j,k]
+                new[i,k] = old[i,k]
+                # zero times infinity is zero (but nan for floats)
+                if old[i,j] != zero and old[j,k] != zero:
+                    new[i,k] += old[i,j] * sjj * old[j,k]
         old, new = new, old   # swap to repurpose space
     if reflexive:  # post processing fix-up: add the identity matrix
         for i in range(N): old[i,i] += one
@@ -32,12 +35,6 @@ class kleene_linsolve(TransformedProgram):
 
     def __init__(self, p):
 
-        # First, we estimate the support of the program. Note that this is
-        # faster than solving the program because it runs in the boolean
-        # semiring where cycles do not slow us down.
-        b = p.booleanize()
-        bsol = b.agenda()
-
         # TODO: We need to be more careful about cases where the rule doesn't
         # come to ground.  I'm not entirely sure how to get a finite linear
         # system, but I think it should be possible.  In the worst case, we can
@@ -47,37 +44,51 @@ class kleene_linsolve(TransformedProgram):
         M = p.Semiring.chart()
         V = p.Semiring.chart()
 
-        # The following two loops instantiate p's rules according to the
-        # estimated support in `bsol`.
-        for r in p:
-            # Builtins go last: the lookup evaluates them with their variables bound.
-            for _ in bsol[tuple(sorted(r.body, key=p.is_builtin))]:
+        # The loops below instantiate p's rules against the items that are
+        # reachable.  An item counts for itself: a subgoal gets the value of
+        # every item that it unifies with, more general ones included.
+        support = set(); agenda = []
+        def fire(r, rest, v=None, item=None):
+            for _ in builtins[rest]:
+                head = canonicalize(r.head)
+                if head not in support:
+                    support.add(head)
+                    agenda.append(head)
 
-                # Below, we extract <= 1 variable and fold coefficients
-                vs = []
                 coeff = p.Semiring.one
                 for b in r.body:          # XXX: assumes commutativity - better to check!
                     if p.is_const(b):
                         coeff *= b
-                    elif not p.is_builtin(b):
-                        vs.append(b)
-                assert len(vs) <= 1
 
-                if len(vs) == 0:
-                    V[canonicalize(r.head)] += coeff
+                if v is None:
+                    V[head] += coeff
 
                 else:
-                    [var] = vs
-
-                    [h, v] = canonicalize(Term('tmp', r.head, var)).args
-
-                    if len(term_vars(v) - term_vars(h)) > 0:
+                    if len(term_vars(v) - term_vars(r.head)) > 0:
                         #print('warning dropped variable')
-                        #print(h, '+=', v)
+                        #print(r.head, '+=', v)
                         coeff = coeff * p.Semiring.multiple(float('inf'))
 
-                    M[h, v] += coeff
+                    M[head, item] += coeff
 
+        builtins = Program(semiring=p.Semiring)
+        linear = []
+        for r in p:
+            # Below, we extract <= 1 variable.
+            vs = [b for b in r.body if not (p.is_const(b) or p.is_builtin(b) or self._is_value(b, r))]
+            assert len(vs) <= 1
+            # Builtins go last: the lookup evaluates them with their variables bound.
+            rest = tuple(sorted((b for b in r.body if b not in vs), key=p.is_builtin))
+            if len(vs) == 0:
+                fire(r, rest)
+            else:
+                linear.append((r, rest, vs[0]))
+
+        while agenda:
+            item = agenda.pop()
+            for r, rest, v in linear:
+                for _ in unify(fresh(item), v):
+                    fire(r, rest, v, item)
 
         pack = pack_arrays(M, V, p.Semiring)
         self.arrays = pack
@@ -85,12 +96,23 @@ class kleene_linsolve(TransformedProgram):
         #print(p)
         #print(pack)
 
-        sol = kleene(pack.MM, p.Semiring) @ pack.VV
-
-        Sol = [Rule(x, sol[i]) for i,x in enumerate(pack.ix)]
+        K = kleene(pack.MM, p.Semiring); zero = p.Semiring.zero
+        Sol = []
+        for i, x in enumerate(pack.ix):
+            value = zero
+            for j in range(len(pack.ix)):
+                # zero times infinity is zero (but nan for floats)
+                if K[i,j] != zero and pack.VV[j] != zero:
+                    value = value + K[i,j] * pack.VV[j]
+            Sol.append(Rule(x, value))
 
         super().__init__('linear-solve', p, Sol)
 
+    @staticmethod
+    def _is_value(x, r):
+        "Is the subgoal `x` a variable that another subgoal of `r` binds?"
+        return is_var(x) and any(x in term_vars(y) for y in r.body if y is not x)
+
 
 # TODO: Cut out the conversion to arrays, just work with charts
 class pack_arrays:
-- 
2.43.0


From ba6e6bcf6466477d46329c82ff7fe36b321133ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:31 +0000
Subject: [PATCH 46/48] fix: the linear solver crashes on weights that are
 variables

---
 dyna/execute/linear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dyna/execute/linear.py b/dyna/execute/linear.py
index 2665dfb..bafe6ae 100644
--- a/dyna/execute/linear.py
+++ b/dyna/execute/linear.py
@@ -1,6 +1,6 @@
 import numpy as np
 from arsenal import Integerizer, colors
-from dyna import Program, TransformedProgram, Rule, term_vars, canonicalize, fresh, is_var, unify
+from dyna import Program, TransformedProgram, Rule, term_vars, canonicalize, deref, fresh, is_var, unify
 
 
 def kleene(A, semiring, reflexive=True):
@@ -58,7 +58,7 @@ class kleene_linsolve(TransformedProgram):
                 coeff = p.Semiring.one
                 for b in r.body:          # XXX: assumes commutativity - better to check!
                     if p.is_const(b):
-                        coeff *= b
+                        coeff *= deref(b)
 
                 if v is None:
                     V[head] += coeff
-- 
2.43.0


From dfa8c4e1d01a5a4c14c9ec9b5c3643c63f9b6bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:48 +0000
Subject: [PATCH 47/48] fix: naive iteration may alternate in the last digit of
 a float forever

---
 dyna/program.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/dyna/program.py b/dyna/program.py
index 5c21dfd..ad755dd 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -887,7 +887,7 @@ input/output declarations</summary>\
         new = old = Program([], Program([]), Program([]), semiring=self.Semiring) if chart is None else chart
         for m in (range(max_iter) if max_iter is not None else count()):
             if verbose: print('Iter', m, old)
-            new = proj(self.step(old))
+            new = proj(self.step(old)._in_order_of(old))
             if new == old: break
             old = new
         return new
@@ -896,11 +896,21 @@ input/output declarations</summary>\
         old = Program([], inputs=Program([]), outputs=Program([]), semiring=self.Semiring) if old is None else old
         while True:
             yield old
-            new = proj(self.step(old))
+            new = proj(self.step(old)._in_order_of(old))
             if new == old: break
             old = new
         return new
 
+    def _in_order_of(self, old):
+        """
+        List the rules in the order of `old`.  Values are summed in the order of
+        the chart, so iterates that alternate in their order may alternate in
+        the last digits of a float forever.
+        """
+        at = {}
+        for i, r in enumerate(old): at.setdefault(canonicalize(r.head), i)
+        return self.spawn(sorted(self, key=lambda r: at.get(canonicalize(r.head), len(at))))
+
     def magic_templates(self):
         "Textbook magic templates, output-directed, on the Boolean semiring."
         # Identify leaves of the coarse dependency graph for use in the ordering heuristic
-- 
2.43.0


From 2a844a4e3aac759fafd703af3546bf982599f926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:33 +0000
Subject: [PATCH 48/48] fix: the Newton method takes a variable that is a
 weight for an item

---
 dyna/program.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/dyna/program.py b/dyna/program.py
index ad755dd..42f2ada 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -1132,8 +1132,16 @@ input/output declarations</summary>\
         # empty
         chart = Program(semiring=self.semiring)
         # initialize with dim<=1 derivations
-        def is_item(y): return not (self.is_const(y) or self.is_builtin(y))
-        change_p = Program([r for r in self if sum(map(is_item, r.body)) <= 1],
+        def is_value(y, r):
+            "Is `y` a variable that is a weight, which another subgoal of `r` binds?"
+            return is_var(y) and any(y in term_vars(z) for z in r.body if z is not y)
+        def is_item(y, r): return not (self.is_const(y) or self.is_builtin(y) or is_value(y, r))
+        def join(chart, ys, r):
+            "Like `chart[ys]`, but weights that aren't bound yet are kept."
+            s = Constant(Product())
+            for y in ys: s = s * (Constant(y, term_vars(y)) if is_value(y, r) else chart[y])
+            return s
+        change_p = Program([r for r in self if sum(is_item(y, r) for y in r.body) <= 1],
                            inputs='', outputs='', semiring=self.semiring, has_builtins=False)
         t = 0
         while True:
@@ -1147,13 +1155,16 @@ input/output declarations</summary>\
                 x = r.head; ys = r.body; K = len(ys)
                 # recursive case
                 for k in range(K):
-                    if not is_item(ys[k]): continue
-                    next_change_p[x] = next_chart[ys[:k]] * Constant(ys[k], ys[k]) * next_chart[ys[k+1:]]
+                    if not is_item(ys[k], r): continue
+                    next_change_p[x] = join(next_chart, ys[:k], r) * Constant(ys[k], ys[k]) * join(next_chart, ys[k+1:], r)
                 # base case
                 for i,j in combinations(range(K), 2):
-                    if not (is_item(ys[i]) and is_item(ys[j])): continue
+                    if not (is_item(ys[i], r) and is_item(ys[j], r)): continue
                     assert i < j
-                    next_change_p[x] = next_chart[ys[:i]] * change[ys[i]] * chart[ys[i+1:j]] * change[ys[j]] * chart[ys[j+1:]]
+                    next_change_p[x] = (
+                        join(next_chart, ys[:i], r) * change[ys[i]] * join(chart, ys[i+1:j], r) * change[ys[j]]
+                        * join(chart, ys[j+1:], r)
+                    )
             chart = next_chart
             change_p = next_change_p
 
-- 
2.43.0

