From 370856bede1124392745c3356d9cc0f0f395edbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:01 +0000
Subject: [PATCH 01/63] fix: read coefficients and grades of a
 base-representation multivector through its blade form

---
 galgebra/ga.py |  4 +---
 galgebra/mv.py | 16 ++++++++--------
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index 0f3ad92..02c294a 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -1650,9 +1650,7 @@ class Ga(metric.Metric):
         dictionary entries are sympy expressions.
         """
         if isinstance(A, mv.Mv):
-            A.blade_rep()
-            A.characterise_Mv()
-            Aobj = expand(A.obj)
+            Aobj = expand(A.blade_rep().obj)
         else:
             Aobj = A
         coefs, blades = metric.linear_expand(Aobj)
diff --git a/galgebra/mv.py b/galgebra/mv.py
index 544d8d5..34a7604 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1030,14 +1030,14 @@ class Mv(printer.GaPrintable):
 
     def scalar(self) -> Expr:
         """ return scalar part of multivector as sympy expression """
-        return self.Ga.scalar_part(self.obj)
+        return self.Ga.scalar_part(self.blade_rep().obj)
 
     def get_grade(self, r: int) -> 'Mv':
         """ return r-th grade of multivector as a multivector """
-        return Mv(self.Ga.get_grade(self.obj, r), ga=self.Ga)
+        return Mv(self.Ga.get_grade(self.blade_rep().obj, r), ga=self.Ga)
 
     def components(self) -> List['Mv']:
-        cb = metric.linear_expand_terms(self.obj)
+        cb = metric.linear_expand_terms(self.blade_rep().obj)
         cb = sorted(cb, key=lambda x: self.Ga.blades.flat.index(x[1]))
         return [self.Ga.mv(coef * base) for coef, base in cb]
 
@@ -1053,7 +1053,7 @@ class Mv(printer.GaPrintable):
         """
         blade_lst = self.Ga.blades[grade]
         coef_lst = [S.Zero] * len(blade_lst)
-        for coef, blade in metric.linear_expand_terms(self.obj):
+        for coef, blade in metric.linear_expand_terms(self.blade_rep().obj):
             if coef == S.Zero:
                 continue  # TODO: why does expansion return this?
             try:
@@ -1080,7 +1080,7 @@ class Mv(printer.GaPrintable):
                 if not blade.is_base() or not blade.is_blade():
                     raise ValueError("%s expression isn't a basis blade" % blade)
         blade_lst = [x.obj for x in blade_lst]
-        coefs, bases = metric.linear_expand(self.obj)
+        coefs, bases = metric.linear_expand(self.blade_rep().obj)
         coef_lst = []
         for blade in blade_lst:
             if blade in bases:
@@ -1096,7 +1096,7 @@ class Mv(printer.GaPrintable):
         """
         bases_lst = [x.obj for x in bases_lst]
         obj = 0
-        for coef, base in metric.linear_expand_terms(self.obj):
+        for coef, base in metric.linear_expand_terms(self.blade_rep().obj):
             if base in bases_lst:
                 obj += coef * base
         return Mv(obj, ga=self.Ga)
@@ -1126,11 +1126,11 @@ class Mv(printer.GaPrintable):
 
     def even(self) -> 'Mv':
         """ return even parts of multivector """
-        return Mv(self.Ga.even_odd(self.obj, True), ga=self.Ga)
+        return Mv(self.Ga.even_odd(self.blade_rep().obj, True), ga=self.Ga)
 
     def odd(self) -> 'Mv':
         """ return odd parts of multivector """
-        return Mv(self.Ga.even_odd(self.obj, False), ga=self.Ga)
+        return Mv(self.Ga.even_odd(self.blade_rep().obj, False), ga=self.Ga)
 
     # ## GSG code starts ###
     def g_invol(self) -> 'Mv':
-- 
2.43.0


From 2e0348696191897b072b9f260e5436245d5b76b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:01 +0000
Subject: [PATCH 02/63] fix: expand base/blade conversions so nested sums are
 not left unconverted

---
 galgebra/ga.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index 02c294a..8f21e45 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -1562,7 +1562,7 @@ class Ga(metric.Metric):
             return A
         else:
             # return expand(A).subs(self.base_expansion_dict)
-            return nc_subs(expand(A), self.base_expansion_dict.items())
+            return expand(nc_subs(expand(A), self.base_expansion_dict.items()))
 
     def blade_to_base_rep(self, A):
 
@@ -1570,7 +1570,7 @@ class Ga(metric.Metric):
             return A
         else:
             # return expand(A).subs(self.blade_expansion_dict)
-            return nc_subs(expand(A), self.blade_expansion_dict.items())
+            return expand(nc_subs(expand(A), self.blade_expansion_dict.items()))
 
     ###### Products (*,^,|,<,>) for multivector representations ########
 
-- 
2.43.0


From 599c77549e0f7440d1c566b2c3d27638c1e48156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:01 +0000
Subject: [PATCH 03/63] fix: characterise the grades of a base-representation
 multivector

---
 galgebra/mv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 34a7604..cd42fb9 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -159,7 +159,9 @@ class Mv(printer.GaPrintable):
                 else:
                     self.char_Mv = True
                     self.is_blade_rep = False
-                    self.i_grade = None
+                    # the grades are those of the equivalent sum of blades
+                    self.grades = self.Ga.grades(obj)
+                    self.i_grade = self.grades[0] if len(self.grades) == 1 else None
                     return
         if len(grades) == 1:
             self.i_grade = grades[0]
-- 
2.43.0


From 11d2d702f479c8b6e65a912d0eb6165b38ed7a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:01 +0000
Subject: [PATCH 04/63] fix: equal multivectors in blade and base
 representation hash equal

---
 galgebra/mv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index cd42fb9..d72bfe0 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -476,7 +476,7 @@ class Mv(printer.GaPrintable):
             # ensure we match equality
             return hash(self.obj)
         else:
-            return hash((self.Ga, self.obj))
+            return hash((self.Ga, expand(self.blade_rep().obj)))
 
     def __eq__(self, A):
         if isinstance(A, Mv):
-- 
2.43.0


From 556060a5958b4e2d423b50bf0b2374b0edb0f612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:01 +0000
Subject: [PATCH 05/63] fix: keep shirokov_inverse exact instead of introducing
 floats

---
 galgebra/mv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index d72bfe0..5c4bfaf 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1431,7 +1431,7 @@ class Mv(printer.GaPrintable):
         N = 2**exponent
         Uk = self
         for k in range(1, N):
-            Ck = (N / k) * Uk.scalar()
+            Ck = (S(N) / k) * Uk.scalar()
             adjU = Ck - Uk
             Uk = -self * adjU
         if Uk.scalar() == 0:
-- 
2.43.0


From d4f2513db3efbe7a9b20319b506ad6fe53507970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:01 +0000
Subject: [PATCH 06/63] fix: pure_grade reports the negated maximum grade
 whatever the term order

---
 galgebra/mv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 5c4bfaf..6f261df 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1540,7 +1540,7 @@ class Mv(printer.GaPrintable):
         self.characterise_Mv()
         if self.i_grade is not None:
             return self.i_grade
-        return -self.grades[-1]
+        return -max(self.grades)
 
     def _eval_derivative_n_times(self, x, n) -> 'Mv':
         for i in range(n):
-- 
2.43.0


From c352696d53cdd9be90afaf460f3cd8c6a2bb89cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 07/63] fix: remove_scalar_part of an unexpanded product drops
 the scalar part

---
 galgebra/ga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index 8f21e45..55a4c27 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -1703,8 +1703,8 @@ class Ga(metric.Metric):
         if isinstance(A, mv.Mv):
             return self.remove_scalar_part(A.obj)
         else:
+            A = expand(A)
             if isinstance(A, Add):
-                A = expand(A)
                 return sum([x for x in A.args if not x.is_commutative])
             elif isinstance(A, Symbol):
                 if A.is_commutative:
-- 
2.43.0


From 22bc0891ace9696cc9b04e3fdd2557bf73c5f653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 08/63] fix: is_zero recognises a multivector that vanishes on
 expansion

---
 galgebra/mv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 6f261df..aebe43e 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1028,7 +1028,7 @@ class Mv(printer.GaPrintable):
     '''
 
     def is_zero(self) -> bool:
-        return self.obj == 0
+        return expand(self.obj) == 0
 
     def scalar(self) -> Expr:
         """ return scalar part of multivector as sympy expression """
-- 
2.43.0


From 4c04cd6bad504e066417ebc09edcb0193aca941e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 09/63] fix: set_coef resets the cached grade and blade flags

---
 galgebra/mv.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index aebe43e..6de46d9 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1272,7 +1272,7 @@ class Mv(printer.GaPrintable):
             raise ValueError('"' + str(self) + '**2" is not a scalar in exp.')
 
     def set_coef(self, igrade: int, ibase: int, value: Expr) -> None:
-        if self.blade_rep:
+        if self.is_blade_rep:
             base = self.Ga.blades[igrade][ibase]
         else:
             base = self.Ga.bases[igrade][ibase]
@@ -1282,6 +1282,11 @@ class Mv(printer.GaPrintable):
             self.obj += (value - coefs[bases_lst.index(base)]) * base
         else:
             self.obj += value * base
+        # the cached properties were those of the old value
+        self.char_Mv = False
+        self.blade_flg = None
+        self.versor_flg = None
+        self.characterise_Mv()
 
     def Fmt(self, fmt: int = 1, title: str = None) -> printer.GaPrintable:
         """
-- 
2.43.0


From 4b204529378148169a81b419dd0187d2ad698d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:04 +0000
Subject: [PATCH 10/63] fix: shirokov_inverse in the algebra without basis
 vectors

---
 galgebra/mv.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 6de46d9..5199d9a 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1435,6 +1435,7 @@ class Mv(printer.GaPrintable):
         exponent = (n + 1) // 2
         N = 2**exponent
         Uk = self
+        adjU = self.Ga.mv(-S.One)  # so that Uk == -self * adjU; n == 0 needs no iteration
         for k in range(1, N):
             Ck = (S(N) / k) * Uk.scalar()
             adjU = Ck - Uk
-- 
2.43.0


From be41c2b39f24e4d3e27fd0f51e3cf216f46a61c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:38 +0000
Subject: [PATCH 11/63] fix: a scalar whose expression holds cancelling blades
 equals and hashes as the scalar

---
 galgebra/mv.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 5199d9a..79bbf6f 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -474,7 +474,7 @@ class Mv(printer.GaPrintable):
     def __hash__(self) -> int:
         if self.is_scalar():
             # ensure we match equality
-            return hash(self.obj)
+            return hash(self._scalar_obj())
         else:
             return hash((self.Ga, expand(self.blade_rep().obj)))
 
@@ -484,7 +484,11 @@ class Mv(printer.GaPrintable):
             # diff = (self - A).expand()
             return diff.obj == S.Zero
         else:
-            return self.is_scalar() and self.obj == A
+            return self.is_scalar() and self._scalar_obj() == A
+
+    def _scalar_obj(self) -> Expr:
+        """ expression of a scalar, without terms that cancel on expansion """
+        return self.obj if self.obj.is_commutative else expand(self.obj)
 
     """
     def __eq__(self, A):
-- 
2.43.0


From f4deb30f632a14d10290998f1bb9476d14d53f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:41 +0000
Subject: [PATCH 12/63] fix: compare is independent of term order and returns c
 with B = c*A

---
 galgebra/mv.py | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 79bbf6f..f2cf0c5 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1564,26 +1564,18 @@ def compare(A: Mv, B: Mv) -> Union[Expr, int]:
     otherwise return 0.
     """
     if isinstance(A, Mv) and isinstance(B, Mv):
-        Acoefs, Abases = metric.linear_expand(A.obj)
-        Bcoefs, Bbases = metric.linear_expand(B.obj)
-        if len(Acoefs) != len(Bcoefs):
-            return 0
-        if Abases != Bbases:
-            return 0
-        if Bcoefs[0] != 0 and Abases[0] == Bbases[0]:
-            c = simplify(Acoefs[0]/Bcoefs[0])
-            print('c =', c)
-        else:
-            return 0
-        for acoef, abase, bcoef, bbase in zip(Acoefs[1:], Abases[1:], Bcoefs[1:], Bbases[1:]):
-            print(acoef, '\n', abase, '\n', bcoef, '\n', bbase)
-            if bcoef != 0 and abase == bbase:
-                print('c-a/b =', simplify(c-(acoef/bcoef)))
-                if simplify(acoef/bcoef) != c:
-                    return 0
-                else:
-                    pass
-            else:
+        Acoefs = A.blade_coefs()
+        Bcoefs = B.blade_coefs()
+        c = 0
+        for acoef, bcoef in zip(Acoefs, Bcoefs):
+            acoef, bcoef = simplify(acoef), simplify(bcoef)
+            if acoef == 0 and bcoef == 0:
+                continue
+            if acoef == 0 or bcoef == 0:
+                return 0
+            if c == 0:
+                c = simplify(bcoef/acoef)
+            elif simplify(bcoef - c*acoef) != 0:
                 return 0
         return c
     else:
-- 
2.43.0


From f221c8380eba805d4662c5668c658cef96cb4849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:33 +0000
Subject: [PATCH 13/63] fix: pDiff in curvilinear coordinates accepts
 expressions, base representation and non-coordinate variables

---
 galgebra/ga.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index 55a4c27..f748109 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -2038,9 +2038,11 @@ class Ga(metric.Metric):
         # Simple partial differentiation, once with respect to a single
         # variable, but including case of non-constant basis vectors
 
-        dA = self.mv(expand(diff(A if isinstance(A, Expr) else A.obj, coord)))
+        A = mv.Mv(A, ga=self).blade_rep()
+        dA = self.mv(expand(diff(A.obj, coord)))
 
-        if self.connect_flg and self.dslot == -1 and not A.is_scalar():  # Basis blades are function of coordinates
+        # Basis blades are function of coordinates
+        if self.connect_flg and self.dslot == -1 and coord in self.coords and not A.is_scalar():
             B = self.remove_scalar_part(A)
             if B != S.Zero:
                 if isinstance(B, Add):
-- 
2.43.0


From e53f966364e5a1813e43c172c8ad6cbc55b13be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:17 +0000
Subject: [PATCH 14/63] fix: Dop.TSimplify and Dop.components keep the side the
 operator acts on, TSimplify accepts multivector coefficients

---
 galgebra/mv.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index f2cf0c5..e73cb0d 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1807,8 +1807,8 @@ class Dop(dop._BaseDop):
 
     def TSimplify(self):
         return Dop([
-            (metric.Simp.apply(coef), pdiff) for coef, pdiff in self.terms
-        ], ga=self.Ga)
+            (coef.func(metric.Simp.apply), pdiff) for coef, pdiff in self.terms
+        ], ga=self.Ga, cmpflg=self.cmpflg)
 
     def __truediv__(self, dopr):
         if isinstance(dopr, (Dop, Mv)):
@@ -1859,7 +1859,7 @@ class Dop(dop._BaseDop):
 
     def components(self) -> Tuple['Dop', ...]:
         return tuple(
-            Dop([(sdop, Mv(base, ga=self.Ga))], ga=self.Ga)
+            Dop([(sdop, Mv(base, ga=self.Ga))], ga=self.Ga, cmpflg=self.cmpflg)
             for sdop, base in self.Dop_mv_expand()
         )
 
-- 
2.43.0


From e43b59089937a71459705d5ebc7c8402d53390d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:17 +0000
Subject: [PATCH 15/63] fix: consolidating operator terms removes coefficients
 that cancel

---
 galgebra/dop.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/galgebra/dop.py b/galgebra/dop.py
index 19f3226..6f83a15 100644
--- a/galgebra/dop.py
+++ b/galgebra/dop.py
@@ -29,7 +29,9 @@ def _consolidate_terms(terms):
             else:
                 new_coefs.append(coef)
                 new_pdiffs.append(pd)
-    return tuple(zip(new_coefs, new_pdiffs))
+    return tuple(
+        (coef, pd) for coef, pd in zip(new_coefs, new_pdiffs) if coef != S.Zero
+    )
 
 
 def _merge_terms(terms1, terms2):
-- 
2.43.0


From 3093156a992bbb3c43777d2d13d53cdf54c1fb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:17 +0000
Subject: [PATCH 16/63] fix: scalar operators whose coefficients differ only in
 form compare equal

---
 galgebra/dop.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/galgebra/dop.py b/galgebra/dop.py
index 6f83a15..f55aeaf 100644
--- a/galgebra/dop.py
+++ b/galgebra/dop.py
@@ -229,7 +229,12 @@ class Sdop(_BaseDop):
     def __eq__(self, other):
         if isinstance(other, Sdop):
             diff = self - other
-            return len(diff.terms) == 0
+            # sympy compares structurally, so unexpanded coefficients can differ
+            # by an expression that is only zero after simplification
+            return all(
+                isinstance(coef, Expr) and simplify(coef) == S.Zero
+                for coef, pdiff in diff.terms
+            )
         else:
             return NotImplemented
 
-- 
2.43.0


From 3cc9162d7337ce359ddabb54a2ee80f14fb631bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:17 +0000
Subject: [PATCH 17/63] fix: comparing operators of opposite direction is False
 instead of an error

---
 galgebra/mv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index e73cb0d..df1308f 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1843,7 +1843,7 @@ class Dop(dop._BaseDop):
 
     def __eq__(self, other):
         if isinstance(other, Dop):
-            if self.Ga != other.Ga:
+            if self.Ga != other.Ga or self.cmpflg != other.cmpflg:
                 return NotImplemented
 
             diff = self - other
-- 
2.43.0


From d575018e883fb705386ea86b0af8748dcd19195a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:25 +0000
Subject: [PATCH 18/63] fix: operators whose multivector coefficients differ
 only in form compare equal

---
 galgebra/mv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index df1308f..8a8998d 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1847,7 +1847,8 @@ class Dop(dop._BaseDop):
                 return NotImplemented
 
             diff = self - other
-            return len(diff.terms) == 0
+            zero = Mv(S.Zero, ga=self.Ga)
+            return all(zero == coef for coef, pdiff in diff.terms)
         else:
             return NotImplemented
 
-- 
2.43.0


From 673dab5bbfafd8c45b1857edf451b4f960e6c795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:25 +0000
Subject: [PATCH 19/63] fix: adding a multivector of another algebra to an
 operator is refused

---
 galgebra/mv.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 8a8998d..457b96c 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1717,6 +1717,9 @@ class Dop(dop._BaseDop):
 
             return Dop(dop._merge_terms(dop1.terms, dop2.terms), cmpflg=dop1.cmpflg, ga=dop1.Ga)
         else:
+            if isinstance(dop1, (Dop, Mv)) and isinstance(dop2, (Dop, Mv)) and dop1.Ga != dop2.Ga:
+                raise ValueError('In Dop.Add Dop arguments are not from same geometric algebra')
+
             # convert values to multiplicative operators
             if isinstance(dop1, Dop):
                 if not isinstance(dop2, Mv):
-- 
2.43.0


From 7d6eb2ce4f0fa842db97c608b2f2ed72e23d9192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:05 +0000
Subject: [PATCH 20/63] fix: inverse of an orthogonal metric held by a bare
 Metric

---
 galgebra/metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/metric.py b/galgebra/metric.py
index aa26f91..5171a38 100644
--- a/galgebra/metric.py
+++ b/galgebra/metric.py
@@ -530,7 +530,7 @@ class Metric(object):
         if self.is_ortho:  # Orthogonal metric
             g_inv = eye(self.n)
             for i in range(self.n):
-                g_inv[i, i] = S.One/self.g(i, i)
+                g_inv[i, i] = S.One/self.g[i, i]
             return g_inv
         elif self.gsym is None:
             return simplify(self.g.inv())
-- 
2.43.0


From 1fe698d2d9b5841e79d3f8b9418734377f4c01dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:05 +0000
Subject: [PATCH 21/63] fix: Christoffel symbols of the second kind of a
 normalized basis used the normalized inverse metric

---
 galgebra/metric.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/galgebra/metric.py b/galgebra/metric.py
index 5171a38..c200887 100644
--- a/galgebra/metric.py
+++ b/galgebra/metric.py
@@ -583,8 +583,12 @@ class Metric(object):
             # Christoffel symbols of the second kind, \Gamma_{ij}^{k} = \Gamma_{ijl}g^{lk}
             # \partial_{x^{i}}e_{j} = \Gamma_{ij}^{k}e_{k}
 
+            # the symbols of the first kind are those of the original basis,
+            # also when the basis has been normalized
+            g_inv = simplify(self.g_raw.inv()) if self.norm else self.g_inv
+
             def Gamma2_ijk(i, j, k):
-                return sum([Gamma_ijl * self.g_inv[l, k] for l, Gamma_ijl in enumerate(Gamma1[i][j])])
+                return sum([Gamma_ijl * g_inv[l, k] for l, Gamma_ijl in enumerate(Gamma1[i][j])])
 
             Gamma2 = [[[
                 Simp.apply(Gamma2_ijk(i, j, k))
-- 
2.43.0


From 24d6176c80a95ef5d9dfea6d7ac474547f94a1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:05 +0000
Subject: [PATCH 22/63] fix: the general metric g='g' is symmetric

---
 galgebra/metric.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/galgebra/metric.py b/galgebra/metric.py
index c200887..6cb4765 100644
--- a/galgebra/metric.py
+++ b/galgebra/metric.py
@@ -776,17 +776,17 @@ class Metric(object):
                 if g == 'g':  # general symbolic metric tensor (g_ij functions of position)
                     self.g = Matrix([
                         [
-                            Function('g_{}_{}'.format(coord, coord2))(*self.coords)
-                            for coord2 in self.coords
+                            Function('g_{}_{}'.format(self.coords[min(i, j)], self.coords[max(i, j)]))(*self.coords)
+                            for j in self.n_range
                         ]
-                        for coord in self.coords
+                        for i in self.n_range
                     ])
                     self.g_inv = Matrix([
                         [
-                            Function('g__{}__{}'.format(coord, coord2))(*self.coords)
-                            for coord2 in self.coords
+                            Function('g__{}__{}'.format(self.coords[min(i, j)], self.coords[max(i, j)]))(*self.coords)
+                            for j in self.n_range
                         ]
-                        for coord in self.coords
+                        for i in self.n_range
                     ])
                 else:  # specific symbolic metric tensor (g_ij are symbolic or numerical constants)
                     self.g = self.metric_symbols_list(g)  # construct symbolic metric from string and basis
-- 
2.43.0


From b590a135914d556e08b7dc8d3acf146e1ecb3039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:05 +0000
Subject: [PATCH 23/63] fix: substitute the coordinate map of a submanifold
 simultaneously

---
 galgebra/ga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index f748109..7e63a52 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -2318,7 +2318,7 @@ class Sm(Ga):
                     s = S.Zero
                     for k in ga.n_range:
                         for l in ga.n_range:
-                            s += dxdu[k][i] * dxdu[l][j] * g_base[k, l].subs(sub_pairs)
+                            s += dxdu[k][i] * dxdu[l][j] * g_base[k, l].subs(sub_pairs, simultaneous=True)
                     g[i, j] = trigsimp(s)
 
         Ga.__init__(self, root, g=g, coords=coords, norm=norm, debug=debug)
-- 
2.43.0


From b3f43aeac3fe2f114c079230e8bdae1083dc0c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:05 +0000
Subject: [PATCH 24/63] fix: submanifold defined by a vector-valued map

---
 galgebra/ga.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index 7e63a52..339597c 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -2286,13 +2286,11 @@ class Sm(Ga):
 
             # print 'sm ebasis =', self.ebasis
 
-            self.g = []
-            for b1 in self.ebasis:
-                # Metric tensor from dot products of basis vectors
-                tmp = []
-                for b2 in self.ebasis:
-                    tmp.append(b1 | b2)
-                self.g.append(tmp)
+            # Metric tensor from dot products of basis vectors
+            g = eye(n_sub)
+            for i, b1 in enumerate(self.ebasis):
+                for j, b2 in enumerate(self.ebasis):
+                    g[i, j] = trigsimp((b1 | b2).scalar())
 
         else:
 
-- 
2.43.0


From 15d9989f18041e9d098d6ec348006a3d7ed68195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:57 +0000
Subject: [PATCH 25/63] fix: trace of a linear transformation needed
 coordinates and was wrong for normalized or coordinate-dependent bases

---
 galgebra/lt.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index c528e1c..9fc8631 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -508,12 +508,9 @@ class Lt(printer.GaPrintable):
         :math:`L`, defined by :math:`{{\operatorname{tr}}\lp {L} \rp }=\nabla_{a}\cdot{{L}\lp {a} \rp }`
         where :math:`a` is a vector in the tangent space.
         """
-        connect_flg = self.Ga.connect_flg
-        self.Ga.connect_flg = False
-        F_x = mv.Mv(self(self.Ga.coord_vec, obj=True), ga=self.Ga)
-        tr_F = (self.Ga.grad | F_x).scalar()
-        self.Ga.connect_flg = connect_flg
-        return tr_F
+        if self.Ga.sing_flg:  # no reciprocal basis
+            return self.matrix().trace()
+        return sum(((e_r | self(e)).scalar() for e, e_r in zip(self.Ga.mv(), self.Ga.mvr())), S.Zero)
 
     r'''
     def adj(self) -> 'Lt':
-- 
2.43.0


From 6cb8364e3a08cc9c9df891d28d1ffba0c30b5a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:57 +0000
Subject: [PATCH 26/63] fix: determinant and singularity of a linear
 transformation in a degenerate metric

---
 galgebra/lt.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index 9fc8631..fab3e6b 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -499,7 +499,10 @@ class Lt(printer.GaPrintable):
           basis blade for the pseudoscalar grade space.
         - Expression returned is a real SymPy scalar, not a GAlgebra 0-vector.
         """
-        return (self(self.Ga.e) * self.Ga.e.inv()).scalar()
+        E = self.Ga.e
+        if self.Ga.sing_flg:  # E has no inverse, but self(E) is still a multiple of E
+            return self(E).blade_coefs([E])[0]
+        return (self(E) * E.inv()).scalar()
     # ## GSG code ends ###
 
     def tr(self) -> Expr:  # tr(L) defined by tr(L) = grad|L(x)
@@ -547,8 +550,7 @@ class Lt(printer.GaPrintable):
     # ## GSG code starts ###
     def is_singular(self):
         """Returns `True` if and only if  linear transformation `self` is singular."""
-        E = self.Ga.E()
-        return simplify((self(E) < E.inv()).scalar()) == S.Zero
+        return simplify(self.det()) == S.Zero
     # ## GSG code ends
 
     # ## GSG code starts ###
-- 
2.43.0


From 07e2456ddd8cfba1095992b5352f3ba24358a1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:06 +0000
Subject: [PATCH 27/63] fix: linear transformation given by a dictionary with
 multivector images or missing basis vectors

---
 galgebra/lt.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index fab3e6b..1d57061 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -306,8 +306,13 @@ class Lt(printer.GaPrintable):
         self.Vqform = None
 
         if isinstance(mat_rep, dict):         # Dictionary input
-            for key in mat_rep:
-                self.lt_dict[key] = mat_rep[key]
+            # basis vectors without an image are mapped to zero
+            self.lt_dict = {base: S.Zero for base in self.Ga.basis}
+            for key, image in mat_rep.items():
+                base = key.obj if isinstance(key, mv.Mv) else key
+                if base not in self.lt_dict:
+                    raise ValueError('{} is not a basis vector of the algebra'.format(key))
+                self.lt_dict[base] = image.obj if isinstance(image, mv.Mv) else image
 
         elif isinstance(mat_rep, list):       # List input
             if not isinstance(mat_rep[0], list):
-- 
2.43.0


From 68d97d06bcf3338cc8b87b47a99ac48f63300a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:06 +0000
Subject: [PATCH 28/63] fix: a linear transformation given by a list of the
 wrong length was silently truncated

---
 galgebra/lt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index 1d57061..af2ad24 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -315,6 +315,8 @@ class Lt(printer.GaPrintable):
                 self.lt_dict[base] = image.obj if isinstance(image, mv.Mv) else image
 
         elif isinstance(mat_rep, list):       # List input
+            if len(mat_rep) != self.Ga.n or any(isinstance(row, list) and len(row) != self.Ga.n for row in mat_rep):
+                raise ValueError('List and basis dimensions not equal for list = ' + str(mat_rep))
             if not isinstance(mat_rep[0], list):
                 # At this point mat_rep[i] is the desired image vector for the
                 # i_th basis image vectors.
-- 
2.43.0


From cd3ae3fa97eb0248851ccd008ba4c6986b9b7936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:06 +0000
Subject: [PATCH 29/63] fix: linear transformation by a multivector that is not
 a versor was accepted

---
 galgebra/lt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index af2ad24..fe85c86 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -342,7 +342,7 @@ class Lt(printer.GaPrintable):
         # outermorphism on a multivector is by dictionary lookup, not by a
         # sandwich product of the multivector with the versor.
         elif isinstance(mat_rep, mv.Mv):     # Versor input
-            if not mat_rep.is_versor:
+            if not mat_rep.is_versor():
                 raise ValueError(mat_rep, 'is not a versor in Versor input for Lt!\n')
             V = mat_rep
             Vg_invol = V.g_invol()
-- 
2.43.0


From 5cb4141b364c841df274caacec731f4c58c3dd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:04 +0000
Subject: [PATCH 30/63] fix: applying a linear transformation to a multivector
 in base representation

---
 galgebra/lt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index fe85c86..e25b0ab 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -434,7 +434,7 @@ class Lt(printer.GaPrintable):
                 else:
                     return mv.Mv(lt_M, ga=self.Ga)
             else:
-                mv_obj = M.obj
+                mv_obj = M.blade_rep().obj
         else:
             mv_obj = mv.Mv(M, ga=self.Ga).obj
 
-- 
2.43.0


From ef93a9b06578226915a35b028960f92b862eabf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:15 +0000
Subject: [PATCH 31/63] fix: a tensor given by name picked up slots made for
 other tensors

---
 galgebra/lt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index e25b0ab..040bd79 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -834,7 +834,7 @@ class Mlt(printer.GaPrintable):
             Mlt.increment_slots(nargs, Ga)
             self.fvalue = S.Zero
             for t_index, a_prod in zip(itertools.product(self.Ga.basis_super_scripts, repeat=self.nargs),
-                                       itertools.product(*self.Ga._mlt_pdiffs)):
+                                       itertools.product(*self.Ga._mlt_pdiffs[:self.nargs])):
                 name = '{}_{}'.format(f, ''.join(map(str, t_index)))
                 if fct:  # Tensor field
                     coef = Function(name, real=True)(*self.Ga.coords)
-- 
2.43.0


From 23c9c9cde20d17b725d50e5e3d8220032d7dd28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:15 +0000
Subject: [PATCH 32/63] fix: evaluating a tensor in an oblique or degenerate
 basis used wrong components of its arguments

---
 galgebra/lt.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index 040bd79..e632a55 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -869,8 +869,7 @@ class Mlt(printer.GaPrintable):
         else:
             sub_lst = []
             for x, ai in zip(args, self.Ga._mlt_pdiffs):
-                for r_base, aij in zip(self.Ga.r_basis_mv, ai):
-                    sub_lst.append((aij, (r_base | x).scalar()))
+                sub_lst += zip(ai, x.get_coefs(1))
             return self.fvalue.subs(sub_lst, simultaneous=True)
 
     def __add__(self, X):
-- 
2.43.0


From cc4b6190963dfa50db38b59783ff3986ff2d0961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:15 +0000
Subject: [PATCH 33/63] fix: pdiff and contract of a tensor differentiated with
 respect to the coordinates instead of the slot

---
 galgebra/lt.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index e632a55..17f80db 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -932,8 +932,12 @@ class Mlt(printer.GaPrintable):
         ``T.pdiff(2)`` is a vector function.
         """
         # Take geometric derivative of mlt with respect to slot argument
-        self.Ga.dslot = slot - 1
-        return self.Ga.grad * self.Ga.mv(self.fvalue)
+        return sum((e_r * dT for e_r, dT in self._slot_derivs(self.fvalue, slot)), self.Ga.mv(S.Zero))
+
+    def _slot_derivs(self, fvalue, slot: int):
+        """ Pairs of reciprocal basis vectors and derivatives of `fvalue` with respect to the components of a slot """
+        F = self.Ga.mv(fvalue)
+        return [(e_r, F.diff(a)) for e_r, a in zip(self.Ga.mvr(), self.Ga._mlt_pdiffs[slot - 1])]
 
     @staticmethod
     def remove_slot(mv, slot, nargs, ga):
@@ -957,11 +961,10 @@ class Mlt(printer.GaPrintable):
         min_slot = min(slot1, slot2)
         max_slot = max(slot1, slot2)
         cnargs = self.nargs - 2
-        self.Ga.dslot = min_slot - 1
-        grad_self = self.Ga.grad * self.Ga.mv(self.fvalue)
+        grad_self = self.pdiff(min_slot)
         grad_self = Mlt.remove_slot(grad_self.obj, min_slot, self.nargs, self.Ga)
-        self.Ga.dslot = max_slot - 2
-        div_grad_self = self.Ga.grad | self.Ga.mv(grad_self)
+        div_grad_self = sum(
+            (e_r | dT for e_r, dT in self._slot_derivs(grad_self, max_slot - 1)), self.Ga.mv(S.Zero))
         div_grad_self = Mlt.remove_slot(div_grad_self.obj, max_slot - 1, self.nargs - 1, self.Ga)
         return Mlt(div_grad_self, self.Ga, cnargs)
 
-- 
2.43.0


From f47caf74b7d7bde025a48a260431d2e8013351bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:33 +0000
Subject: [PATCH 34/63] fix: outer and inner products of scalar-valued tensors
 raised TypeError

---
 galgebra/lt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index 17f80db..e37f89f 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -905,7 +905,7 @@ class Mlt(printer.GaPrintable):
         if isinstance(X, Mlt):
             nargs = self.nargs + X.nargs
             Mlt.increment_slots(nargs, self.Ga)
-            value = self(*self.Ga._mlt_a[:self.nargs]) ^ X(*X.Ga._mlt_a[self.nargs:nargs])
+            value = self.Ga.mv(self(*self.Ga._mlt_a[:self.nargs])) ^ X(*X.Ga._mlt_a[self.nargs:nargs])
             return Mlt(value, self.Ga, nargs)
         else:
             return Mlt(X * self.fvalue, self.Ga, self.nargs)
@@ -914,7 +914,7 @@ class Mlt(printer.GaPrintable):
         if isinstance(X, Mlt):
             nargs = self.nargs + X.nargs
             Mlt.increment_slots(nargs, self.Ga)
-            value = self(*self.Ga._mlt_a[:self.nargs]) | X(*X.Ga._mlt_a[self.nargs:nargs])
+            value = self.Ga.mv(self(*self.Ga._mlt_a[:self.nargs])) | X(*X.Ga._mlt_a[self.nargs:nargs])
             return Mlt(value, self.Ga, nargs)
         else:
             return Mlt(X * self.fvalue, self.Ga, self.nargs)
-- 
2.43.0


From d55039bfc9067d0c57a04a3e22a4b622ddb6a1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:58 +0000
Subject: [PATCH 35/63] fix: sums, products and derivatives of vector-valued
 tensors were taken for the tensor of a vector

---
 galgebra/lt.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index e37f89f..d268877 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -872,10 +872,17 @@ class Mlt(printer.GaPrintable):
                 sub_lst += zip(ai, x.get_coefs(1))
             return self.fvalue.subs(sub_lst, simultaneous=True)
 
+    @classmethod
+    def _from_value(cls, fvalue, Ga, nargs):
+        """ The tensor with component expression `fvalue`, which may be a multivector of any grade """
+        T = cls(S.Zero, Ga, nargs)
+        T.fvalue = fvalue
+        return T
+
     def __add__(self, X):
         if isinstance(X, Mlt):
             if self.nargs == X.nargs:
-                return Mlt(self.fvalue + X.fvalue, self.Ga, self.nargs)
+                return Mlt._from_value(self.fvalue + X.fvalue, self.Ga, self.nargs)
             else:
                 raise ValueError('In Mlt add number of args not the same\n')
         else:
@@ -884,7 +891,7 @@ class Mlt(printer.GaPrintable):
     def __sub__(self, X):
         if isinstance(X, Mlt):
             if self.nargs == X.nargs:
-                return Mlt(self.fvalue - X.fvalue, self.Ga, self.nargs)
+                return Mlt._from_value(self.fvalue - X.fvalue, self.Ga, self.nargs)
             else:
                 raise ValueError('In Mlt sub number of args not the same\n')
         else:
@@ -897,32 +904,32 @@ class Mlt(printer.GaPrintable):
             self_args = self.Ga._mlt_a[:self.nargs]
             X_args = X.Ga._mlt_a[self.nargs:nargs]
             value = (self(*self_args) * X(*X_args)).expand()
-            return Mlt(value, self.Ga, nargs)
+            return Mlt._from_value(value, self.Ga, nargs)
         else:
-            return Mlt(X * self.fvalue, self.Ga, self.nargs)
+            return Mlt._from_value(X * self.fvalue, self.Ga, self.nargs)
 
     def __xor__(self, X):
         if isinstance(X, Mlt):
             nargs = self.nargs + X.nargs
             Mlt.increment_slots(nargs, self.Ga)
             value = self.Ga.mv(self(*self.Ga._mlt_a[:self.nargs])) ^ X(*X.Ga._mlt_a[self.nargs:nargs])
-            return Mlt(value, self.Ga, nargs)
+            return Mlt._from_value(value, self.Ga, nargs)
         else:
-            return Mlt(X * self.fvalue, self.Ga, self.nargs)
+            return Mlt._from_value(X * self.fvalue, self.Ga, self.nargs)
 
     def __or__(self, X):
         if isinstance(X, Mlt):
             nargs = self.nargs + X.nargs
             Mlt.increment_slots(nargs, self.Ga)
             value = self.Ga.mv(self(*self.Ga._mlt_a[:self.nargs])) | X(*X.Ga._mlt_a[self.nargs:nargs])
-            return Mlt(value, self.Ga, nargs)
+            return Mlt._from_value(value, self.Ga, nargs)
         else:
-            return Mlt(X * self.fvalue, self.Ga, self.nargs)
+            return Mlt._from_value(X * self.fvalue, self.Ga, self.nargs)
 
     def dd(self):
         Mlt.increment_slots(self.nargs + 1, self.Ga)
         dd_fvalue = (self.Ga._mlt_a[self.nargs] | self.Ga.grad) * self.fvalue
-        return Mlt(dd_fvalue, self.Ga, self.nargs + 1)
+        return Mlt._from_value(dd_fvalue, self.Ga, self.nargs + 1)
 
     def pdiff(self, slot: int):
         r"""
@@ -966,7 +973,7 @@ class Mlt(printer.GaPrintable):
         div_grad_self = sum(
             (e_r | dT for e_r, dT in self._slot_derivs(grad_self, max_slot - 1)), self.Ga.mv(S.Zero))
         div_grad_self = Mlt.remove_slot(div_grad_self.obj, max_slot - 1, self.nargs - 1, self.Ga)
-        return Mlt(div_grad_self, self.Ga, cnargs)
+        return Mlt._from_value(div_grad_self, self.Ga, cnargs)
 
     def cderiv(self):
         """
@@ -978,16 +985,14 @@ class Mlt(printer.GaPrintable):
         """
         Mlt.increment_slots(self.nargs + 1, self.Ga)
         agrad = self.Ga._mlt_a[self.nargs] | self.Ga.grad
-        CD = Mlt((agrad * self.Ga.mv(self.fvalue)).obj, self.Ga, self.nargs + 1)
-        if CD != 0:
-            CD = CD.fvalue
+        CD = agrad * self.Ga.mv(self.fvalue)
         for i in range(self.nargs):
             args = self.Ga._mlt_a[:self.nargs]
             tmp = agrad * self.Ga._mlt_a[i]
             if tmp.obj != 0:
                 args[i] = tmp
                 CD = CD - self(*args)
-        CD = Mlt(CD, self.Ga, self.nargs + 1)
+        CD = Mlt._from_value(CD, self.Ga, self.nargs + 1)
         return CD
 
     def expand(self):
-- 
2.43.0


From c56ee6a52e768f0e0c5de5ca19c23a088ec6ffd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:54 +0000
Subject: [PATCH 36/63] fix: combining tensors of different algebras is refused

---
 galgebra/lt.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index d268877..3865ac2 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -879,8 +879,13 @@ class Mlt(printer.GaPrintable):
         T.fvalue = fvalue
         return T
 
+    def _check_same_ga(self, X):
+        if self.Ga != X.Ga:
+            raise ValueError("Attempting to combine Mlt's from different geometric algebras")
+
     def __add__(self, X):
         if isinstance(X, Mlt):
+            self._check_same_ga(X)
             if self.nargs == X.nargs:
                 return Mlt._from_value(self.fvalue + X.fvalue, self.Ga, self.nargs)
             else:
@@ -890,6 +895,7 @@ class Mlt(printer.GaPrintable):
 
     def __sub__(self, X):
         if isinstance(X, Mlt):
+            self._check_same_ga(X)
             if self.nargs == X.nargs:
                 return Mlt._from_value(self.fvalue - X.fvalue, self.Ga, self.nargs)
             else:
@@ -899,6 +905,7 @@ class Mlt(printer.GaPrintable):
 
     def __mul__(self, X):
         if isinstance(X, Mlt):
+            self._check_same_ga(X)
             nargs = self.nargs + X.nargs
             Mlt.increment_slots(nargs, self.Ga)
             self_args = self.Ga._mlt_a[:self.nargs]
@@ -910,6 +917,7 @@ class Mlt(printer.GaPrintable):
 
     def __xor__(self, X):
         if isinstance(X, Mlt):
+            self._check_same_ga(X)
             nargs = self.nargs + X.nargs
             Mlt.increment_slots(nargs, self.Ga)
             value = self.Ga.mv(self(*self.Ga._mlt_a[:self.nargs])) ^ X(*X.Ga._mlt_a[self.nargs:nargs])
@@ -919,6 +927,7 @@ class Mlt(printer.GaPrintable):
 
     def __or__(self, X):
         if isinstance(X, Mlt):
+            self._check_same_ga(X)
             nargs = self.nargs + X.nargs
             Mlt.increment_slots(nargs, self.Ga)
             value = self.Ga.mv(self(*self.Ga._mlt_a[:self.nargs])) | X(*X.Ga._mlt_a[self.nargs:nargs])
-- 
2.43.0


From 8cb5139a36ec4a3b4584d7bb1d4490c7f1ee004c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:12 +0000
Subject: [PATCH 37/63] fix: normalizing a metric given as a matrix changed the
 matrix of the caller, lists and dictionaries handed in were aliased

---
 galgebra/dop.py    |  2 +-
 galgebra/metric.py | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/galgebra/dop.py b/galgebra/dop.py
index f55aeaf..ac7c753 100644
--- a/galgebra/dop.py
+++ b/galgebra/dop.py
@@ -332,7 +332,7 @@ class Pdop(_BaseDop):
             __arg = {}
 
         if isinstance(__arg, dict):  # Pdop defined by dictionary
-            self.pdiffs = __arg
+            self.pdiffs = copy.copy(__arg)
         elif isinstance(__arg, Symbol):  # First order derivative with respect to symbol
             self.pdiffs = {__arg: 1}
         else:
diff --git a/galgebra/metric.py b/galgebra/metric.py
index 6cb4765..30f5327 100644
--- a/galgebra/metric.py
+++ b/galgebra/metric.py
@@ -11,6 +11,7 @@ from sympy import (
     sqf_list, sqrt, eye, S, expand, Mul,
     Add, simplify, Expr, Abs, Function, MatrixSymbol
 )
+from sympy.matrices import MatrixBase
 
 from . import printer
 from ._utils import cached_property as _cached_property
@@ -723,7 +724,8 @@ class Metric(object):
 
         self.debug = debug
         self.is_ortho = False  # Is basis othogonal
-        self.coords = coords  # Manifold coordinates
+        # Manifold coordinates (a copy, the caller may go on to change a list)
+        self.coords = copy.copy(coords)
         self.norm = norm  # True to normalize basis vectors
         # Generate list of basis vectors and reciprocal basis vectors
         # as non-commutative symbols
@@ -735,7 +737,6 @@ class Metric(object):
             if coords is not None:  # basis defined by root string with symbol list as indices
                 self.basis = symbols_list(basis, coords)
                 self.r_symbols = symbols_list(basis, coords, sub=False)
-                self.coords = coords
                 if self.debug:
                     printer.oprint('x^{i}', self.coords)
             else:
@@ -791,8 +792,9 @@ class Metric(object):
                 else:  # specific symbolic metric tensor (g_ij are symbolic or numerical constants)
                     self.g = self.metric_symbols_list(g)  # construct symbolic metric from string and basis
             else:  # metric is given as list of function or list of lists of function or matrix of functions
-                if isinstance(g, Matrix):
-                    self.g = g
+                if isinstance(g, MatrixBase):
+                    # a mutable copy, normalizing must not change the matrix of the caller
+                    self.g = Matrix(g)
                 else:
                     if len(g) > 0 and isinstance(g[0], list):
                         self.g = Matrix(g)
-- 
2.43.0


From 37dafe56f3e5339c346611d45864657df73b54e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 38/63] fix: comparing a scalar multivector with a scalar saw
 only its unsimplified form

---
 galgebra/mv.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 457b96c..5b740e8 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -11,7 +11,7 @@ from typing import List, Any, Tuple, Union, TYPE_CHECKING
 from sympy import (
     Symbol, Function, S, expand, Add,
     sin, cos, sinh, cosh, sqrt, trigsimp,
-    simplify, diff, Expr, Abs, collect, SympifyError,
+    simplify, diff, Expr, Abs, collect, sympify, SympifyError,
 )
 from sympy import exp as sympy_exp
 from sympy import N as Nsympy
@@ -479,7 +479,8 @@ class Mv(printer.GaPrintable):
             return hash((self.Ga, expand(self.blade_rep().obj)))
 
     def __eq__(self, A):
-        if isinstance(A, Mv):
+        if isinstance(A, Mv) or (isinstance(A, (Expr, numbers.Number)) and sympify(A).is_commutative):
+            # scalars are compared like multivectors, with simplification
             diff = (self - A).expand().simplify()
             # diff = (self - A).expand()
             return diff.obj == S.Zero
-- 
2.43.0


From 97415f61a5ed421dd26a30855720c25b2f0e36c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:15 +0000
Subject: [PATCH 39/63] fix: expression parser dropped parentheses and
 mis-associated chains of operators

---
 galgebra/_utils/parser.py | 40 ++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/galgebra/_utils/parser.py b/galgebra/_utils/parser.py
index d790a3d..e6d3291 100644
--- a/galgebra/_utils/parser.py
+++ b/galgebra/_utils/parser.py
@@ -5,14 +5,19 @@ from typing import List
 
 # The `#` character is included because we generate tokens containing it in
 # _parse_paren.
-_operand_re = r"([A-Za-z0-9\_\#]+)"
+_atom_re = r"(?:[A-Za-z0-9_\#\.]|\[[^\[\]]*\])+"
+_operand_re = r"ATOM(?:\*\*[-+]*ATOM)*".replace('ATOM', _atom_re)
 
+# A chain of operands joined by operators of one group. All operands but the
+# first can be signed.
 _operator_res = {
-    '<>|': re.compile(r'(ARG(\||<|>)ARG)'.replace('ARG', _operand_re)),
-    '^': re.compile(r'(ARG[\^]ARG([\^]ARG)*)'.replace('ARG', _operand_re)),
-    '*': re.compile(r'(ARG[\*]ARG([\*]ARG)*)'.replace('ARG', _operand_re)),
+    '<>|': re.compile(r'(ARG)((?:[<>\|][-+]*ARG)+)'.replace('ARG', _operand_re)),
+    '^': re.compile(r'(ARG)((?:[\^][-+]*ARG)+)'.replace('ARG', _operand_re)),
+    '*': re.compile(r'(ARG)((?:[\*/][-+]*ARG)+)'.replace('ARG', _operand_re)),
 }
 
+_operation_re = re.compile(r'[<>\|\^\*/][-+]*ARG'.replace('ARG', _operand_re))
+
 
 def _contains_interval(interval1, interval2):  # interval1 inside interval2
     if interval1[0] > interval2[0] and interval1[1] < interval2[1]:
@@ -21,6 +26,18 @@ def _contains_interval(interval1, interval2):  # interval1 inside interval2
         return False
 
 
+def _is_parenthesized(line):
+    """ True if the first character is a parenthesis closed by the last one """
+    if line[:1] != '(':
+        return False
+    level = 0
+    for ich, ch in enumerate(line):
+        level += (ch == '(') - (ch == ')')
+        if level == 0:
+            return ich == len(line) - 1
+    return False
+
+
 # counter to generate unique tokens
 _parse_paren_calls = 0
 
@@ -112,20 +129,23 @@ def _unparse_paren(level_lst):
     for level in level_lst[1:]:
         for group in level:
             new_string = group[-1]
-            if new_string[:2] == '((' and new_string[-2:] == '))':
+            if _is_parenthesized(new_string) and _is_parenthesized(new_string[1:-1]):
                 new_string = new_string[1:-1]
             line = line.replace(group[-2], new_string)
     return line
 
 
 def _sub_paren(s):
-    string = s.group(0)
-    return '(%s)' % string
+    # left associative
+    string = s.group(1)
+    for operation in _operation_re.findall(s.group(2)):
+        string = '(%s%s)' % (string, operation)
+    return string
 
 
 def _add_paren(line, re_exprs):
     paren_flg = False
-    if (line[0] == '(') and (line[-1] == ')'):
+    if _is_parenthesized(line):
         paren_flg = True
         line = line[1:-1]
     if ('(' in line) or (')' in line):
@@ -152,7 +172,9 @@ def validate_op_order(op_order: List[str]) -> None:
 
 
 def parse_line(line: str, op_order: List[str]) -> str:
-    line = line.replace(' ', '')
+    if re.search(r'\w\s+\w', line):
+        raise ValueError('Missing operator in: ' + line + '\n')
+    line = re.sub(r'\s+', '', line)
     level_lst = _parse_paren(line)
     ilevel = 0
     for level in level_lst:
-- 
2.43.0


From 561b78a2373cac428634ec0d86140b343efa4718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:15 +0000
Subject: [PATCH 40/63] fix: LaTeX of an operator printed the element of an
 identity term twice

---
 galgebra/mv.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 5b740e8..5c9dbf5 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1950,10 +1950,8 @@ class Dop(dop._BaseDop):
             else:
                 if str_sdop == '1':
                     s += str_base
-                if str_sdop == '-1':
+                elif str_sdop == '-1':
                     s += '-' + str_base
-                    if str_sdop[1:] != '1':
-                        s += ' ' + str_sdop[1:]
                 else:
                     if len(sdop.terms) > 1:
                         if self.cmpflg:
-- 
2.43.0


From f2872ea205e623e6b7b86f5bccff1e7d0b0d40b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:15 +0000
Subject: [PATCH 41/63] fix: LaTeX of tensors with one term, no term or
 multivector values

---
 galgebra/lt.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index 3865ac2..478d93e 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -11,7 +11,7 @@ from functools import reduce
 from typing import Mapping
 
 from sympy import (
-    expand, symbols, Matrix, Transpose, zeros, Symbol, Function, S, Add, Expr, simplify
+    expand, symbols, Matrix, Transpose, zeros, Symbol, Function, S, Add, Mul, Expr, simplify
 )
 from sympy.matrices import MatrixBase
 from sympy.printing.latex import LatexPrinter as _LatexPrinter
@@ -715,6 +715,8 @@ class Mlt(printer.GaPrintable):
         if self.nargs <= 1:
             return print_obj._print(self.fvalue)
         expr_lst = Mlt.expand_expr(self.fvalue, self.Ga)
+        if len(expr_lst) == 0:
+            return printer.ZERO_STR
         latex_str = '\\begin{aligned} '
         first = True
         lcnt = print_obj._settings['galgebra_mlt_lcnt']
@@ -774,11 +776,15 @@ class Mlt(printer.GaPrintable):
     @staticmethod
     def expand_expr(expr, ga):
         lst_expr = []
+        if isinstance(expr, mv.Mv):
+            expr = expr.obj
         expr = expand(expr)
-        for term in expr.args:
+        if expr == S.Zero:
+            return []
+        for term in Add.make_args(expr):
             coef = S.One
             a_lst = []
-            for factor in term.args:
+            for factor in Mul.make_args(term):
                 if factor in ga._mlt_acoefs:
                     a_lst.append(factor)
                 else:
-- 
2.43.0


From 924e57f4ef6a0af4afdfff88c066d40eb36da25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:15 +0000
Subject: [PATCH 42/63] fix: Fmt left a single member unclosed and dropped the
 values of a dictionary

---
 galgebra/printer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/galgebra/printer.py b/galgebra/printer.py
index 5afb3c6..fc5558e 100644
--- a/galgebra/printer.py
+++ b/galgebra/printer.py
@@ -1191,9 +1191,13 @@ def Fmt(obj, fmt=0):
                 #title = cell.title
                 #cell.title = None
                 latex_cell = latex(cell)
+                if isinstance(obj, dict):
+                    latex_cell += ' : ' + latex(obj[cell])
                 latex_cell = latex_cell.replace('\n', ' ')
                 #cell.title = title
-                if i == 1:
+                if n == 1:
+                    latex_str += r'\begin{array}{c} \left ' + ldelim + r' ' + latex_cell + r'\right ' + rdelim + r' \\ \end{array}'
+                elif i == 1:
                     latex_str += r'\begin{array}{c} \left ' + ldelim + r' ' + latex_cell + r', \right. \\ '
                 elif i == n:
                     latex_str += r' \left. ' + latex_cell + r'\right ' + rdelim + r' \\ \end{array}'
-- 
2.43.0


From 66b7f388c69897aa067e6b7b7cec8d874f6a5404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:15 +0000
Subject: [PATCH 43/63] fix: LaTeX of the identity Pdop was empty

---
 galgebra/dop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/galgebra/dop.py b/galgebra/dop.py
index ac7c753..ad6761b 100644
--- a/galgebra/dop.py
+++ b/galgebra/dop.py
@@ -150,7 +150,7 @@ class Sdop(_BaseDop):
         s = ''
         for coef, pdop in self.terms:
             coef_str = print_obj._print(coef)
-            pd_str = print_obj._print(pdop)
+            pd_str = print_obj._print(pdop) if pdop.order > 0 else ''
             if coef == S.One:
                 if pd_str == '':
                     s += '1'
@@ -378,7 +378,7 @@ class Pdop(_BaseDop):
 
     def _latex(self, print_obj):
         if self.order == 0:
-            return ''
+            return '1'
         s = r'\frac{\partial'
         if self.order > 1:
             s += '^{' + print_obj._print(self.order) + '}'
-- 
2.43.0


From 83fbded8c44d66262ea793e433559c8b8aa10513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:07 +0000
Subject: [PATCH 44/63] fix: property C18: tex() repeated the text of the
 previous document

---
 galgebra/printer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/galgebra/printer.py b/galgebra/printer.py
index fc5558e..d56b6a4 100644
--- a/galgebra/printer.py
+++ b/galgebra/printer.py
@@ -895,9 +895,9 @@ def tex(paper=(14, 11), debug=False, prog=False, pt='10pt'):
     at the beginning of the program.
     """
 
-    latex_str = GaLatexPrinter.latex_str + sys.stdout.getvalue()
-    GaLatexPrinter.latex_str = ''
     GaLatexPrinter.restore()
+    latex_str = GaLatexPrinter.latex_str
+    GaLatexPrinter.latex_str = ''
     r"""
     Each line in the latex_str is interpreted to be an equation or align
     environment.  If the line does not begin with '\begin{align*}' then
-- 
2.43.0


From d60a5164cf91e2a1f42392b12ede18b78fbf4674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:07 +0000
Subject: [PATCH 45/63] fix: property C18: entering LaTeX mode twice lost
 standard output

---
 galgebra/printer.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/galgebra/printer.py b/galgebra/printer.py
index d56b6a4..dee4430 100644
--- a/galgebra/printer.py
+++ b/galgebra/printer.py
@@ -444,6 +444,7 @@ class GaLatexPrinter(LatexPrinter):
     latex_flg = False
     latex_str = ''
     ipy = False
+    buffer = None  # what `redirect` put in place of sys.stdout
 
     preamble = \
 """
@@ -502,20 +503,22 @@ class GaLatexPrinter(LatexPrinter):
     @staticmethod
     def redirect():
         GaLatexPrinter.latex_flg = True
-        if GaLatexPrinter.ipy:
-            pass
-        else:
+        # a second request keeps the redirection (and the text) of the first
+        if not GaLatexPrinter.ipy and GaLatexPrinter.buffer is None:
             GaLatexPrinter.stdout = sys.stdout
-            sys.stdout = io.StringIO()
+            GaLatexPrinter.buffer = io.StringIO()
+            sys.stdout = GaLatexPrinter.buffer
 
     @staticmethod
     def restore():
         if GaLatexPrinter.latex_flg:
-            if not GaLatexPrinter.ipy:
-                GaLatexPrinter.latex_str += sys.stdout.getvalue()
             GaLatexPrinter.latex_flg = False
-            if not GaLatexPrinter.ipy:
-                sys.stdout = GaLatexPrinter.stdout
+            GaLatexPrinter.ipy = False
+            if GaLatexPrinter.buffer is not None:
+                GaLatexPrinter.latex_str += GaLatexPrinter.buffer.getvalue()
+                if sys.stdout is GaLatexPrinter.buffer:
+                    sys.stdout = GaLatexPrinter.stdout
+                GaLatexPrinter.buffer = None
 
     def _print_Pow(self, expr):
         base = self._print(expr.base)
-- 
2.43.0


From a16c4467fa39b58a2d197bff6085cc0b69acb9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:07 +0000
Subject: [PATCH 46/63] fix: property C18: enhance_print(None) did not turn
 colors off

---
 galgebra/printer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/galgebra/printer.py b/galgebra/printer.py
index dee4430..d211f3b 100644
--- a/galgebra/printer.py
+++ b/galgebra/printer.py
@@ -248,11 +248,15 @@ def enhance_print(base='blue', fct='red', deriv='cyan'):
 
     Pass ``None`` to disable coloring.
     """
-    GaPrinter.set_global_settings(
+    colors = dict(
         function_color=fct,
         derivative_color=deriv,
         basis_vector_color=base,
     )
+    # `set_global_settings` skips settings that are None
+    for name in colors:
+        GaPrinter._global_settings.pop(name, None)
+    GaPrinter.set_global_settings(**colors)
 
 
 # patch the docstring using our known color names
-- 
2.43.0


From 9c62d8bfb860589efd0acde6f8b187faa501cdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:14 +0000
Subject: [PATCH 47/63] fix: property C18: Format() did nothing after a first
 session

---
 galgebra/gprinter.py | 8 ++------
 galgebra/printer.py  | 9 +--------
 2 files changed, 3 insertions(+), 14 deletions(-)

diff --git a/galgebra/gprinter.py b/galgebra/gprinter.py
index d26aff6..10b46fc 100644
--- a/galgebra/gprinter.py
+++ b/galgebra/gprinter.py
@@ -1,4 +1,4 @@
-from .printer import GaLatexPrinter, isinteractive, Format_cnt, latex
+from .printer import GaLatexPrinter, isinteractive, latex
 import subprocess
 import sys
 import shutil
@@ -119,17 +119,13 @@ def gFormat(Fmode: bool = True, Dmode: bool = True, inverse='full'):
         Value for the ``omit_partial_derivative_fraction`` setting of
         :class:`GaLatexPrinter`.
     """
-    global Format_cnt
-
     GaLatexPrinter.set_global_settings(
         omit_partial_derivative_fraction=Dmode,
         omit_function_args=Fmode,
         inv_trig_style=inverse,
     )
 
-    if Format_cnt == 0:
-        Format_cnt += 1
-
+    if not LaTeX.latex_flg:
         LaTeX.latex_flg = True
 
         if isinteractive():
diff --git a/galgebra/printer.py b/galgebra/printer.py
index d211f3b..13a6204 100644
--- a/galgebra/printer.py
+++ b/galgebra/printer.py
@@ -116,8 +116,6 @@ from ._utils.printable import Printable as SympyPrintable
 
 ZERO_STR = ' 0 '
 
-Format_cnt = 0
-
 ip_cmds = r"""
 $\DeclareMathOperator{\Tr}{Tr}
 \DeclareMathOperator{\Adj}{Adj}
@@ -816,18 +814,13 @@ def Format(Fmode: bool = True, Dmode: bool = True, inverse='full'):
         Value for the ``omit_partial_derivative_fraction`` setting of
         :class:`GaLatexPrinter`.
     """
-    global Format_cnt
-
     GaLatexPrinter.set_global_settings(
         omit_partial_derivative_fraction=Dmode,
         omit_function_args=Fmode,
         inv_trig_style=inverse,
     )
 
-    if Format_cnt == 0:
-        Format_cnt += 1
-
-        GaLatexPrinter.latex_flg = True
+    if not GaLatexPrinter.latex_flg:
         GaLatexPrinter.redirect()
 
         if isinteractive():
-- 
2.43.0


From 686030a24d832fa0c2fe692a50f873fac37f2d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:14 +0000
Subject: [PATCH 48/63] fix: property C18: gprint failed on a percent sign

---
 galgebra/gprinter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/galgebra/gprinter.py b/galgebra/gprinter.py
index 10b46fc..09db49e 100644
--- a/galgebra/gprinter.py
+++ b/galgebra/gprinter.py
@@ -148,6 +148,7 @@ def gprint(*xargs):
     i = 0
     for xi in xargs:
         if isinstance(xi, str):
+            xi = xi.replace('%', '%%')
             if r'\\' in xi and i > 0:
                 if isinteractive():
                     xi_rep = xi.replace(r'\\', r'\end{equation*}@\begin{equation*} ')
-- 
2.43.0


From bafcdd18511983a6d8319ebc2e0e7f1e29c1d943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:19 +0000
Subject: [PATCH 49/63] fix: property C17: LaTeX of functions lost their
 arguments

---
 galgebra/printer.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/galgebra/printer.py b/galgebra/printer.py
index 13a6204..67fbfad 100644
--- a/galgebra/printer.py
+++ b/galgebra/printer.py
@@ -95,7 +95,7 @@ from sympy.printing.conventions import split_super_sub
 from sympy.printing.latex import (
     LatexPrinter, accepted_latex_functions, other_symbols
 )
-from sympy.core.function import _coeff_isneg
+from sympy.core.function import AppliedUndef, _coeff_isneg
 from sympy.core.operations import AssocOp
 from sympy import init_printing
 from sympy.core.alphabets import greeks
@@ -639,9 +639,12 @@ class GaLatexPrinter(LatexPrinter):
 
         func = expr.func.__name__
         name = func
-        if hasattr(self, '_print_' + func):
+        is_undef = isinstance(expr, AppliedUndef)
+        if hasattr(self, '_print_' + func) and not is_undef:
             return getattr(self, '_print_' + func)(expr, exp)
         else:
+            # only undefined functions are fields whose arguments are implied
+            omit_args = self._settings["omit_function_args"] and is_undef
             args = [str(self._print(arg)) for arg in expr.args]
 
             # How inverse trig functions should be displayed, formats are:
@@ -700,16 +703,16 @@ class GaLatexPrinter(LatexPrinter):
                     # with the function name itself
                     name += r" {%s}"
                 else:
-                    if not self._settings["omit_function_args"]:
+                    if not omit_args:
                         name += r"%s"
             else:
-                if func in accepted_latex_functions or not self._settings["omit_function_args"]:
+                if func in accepted_latex_functions or not omit_args:
                     name += r"{\left (%s \right )}"
 
             if inv_trig_power_case and exp is not None:
                 name += r"^{%s}" % exp
 
-            if func in accepted_latex_functions or not self._settings["omit_function_args"]:
+            if func in accepted_latex_functions or not omit_args:
                 if len(args) == 1:
                     name = name % args[0]
                 else:
-- 
2.43.0


From e8c1155ede4f212030b70e0ff35cb219382aac3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:10 +0000
Subject: [PATCH 50/63] fix: property C19: a scalar root with several names and
 a grade number raised TypeError

---
 galgebra/ga.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index 339597c..8fdce51 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -878,14 +878,16 @@ class Ga(metric.Metric):
         if not isinstance(root, str):
             return mv.Mv(root, *args, **kwargs)
 
-        if ' ' in root and ' ' not in args[0]:
+        several_types = len(args) > 0 and isinstance(args[0], str) and ' ' in args[0]
+
+        if ' ' in root and not several_types:
             root_lst = root.split(' ')
             mv_lst = []
             for root in root_lst:
                 mv_lst.append(mv.Mv(root, *args, **kwargs))
             return tuple(mv_lst)
 
-        if ' ' in root and ' ' in args[0]:
+        if ' ' in root and several_types:
             root_lst = root.split(' ')
             mvtype_lst = args[0].split(' ')
             if len(root_lst) != len(mvtype_lst):
-- 
2.43.0


From c4e14d87f70b59d5c109e04c151b8139f68c4665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:10 +0000
Subject: [PATCH 51/63] fix: property C19: coefficients of different blades of
 a grade got the same name

---
 galgebra/ga.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index 8fdce51..3fade66 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -1138,10 +1138,10 @@ class Ga(metric.Metric):
     @_cached_property
     def basis_super_scripts(self) -> List[str]:
         if self.coords is None:
-            base0 = str(self.basis[0])
-            if '_' in base0:
-                sub_index = base0.index('_')
-                return [str(base)[sub_index + 1:] for base in self.basis]
+            # the parts of the names after the underscore, if they tell the basis vectors apart
+            subs = [str(base).partition('_')[2] for base in self.basis]
+            if all(subs) and len(set(subs)) == self.n:
+                return subs
             else:
                 return [str(i + 1) for i in self.n_range]
         else:
@@ -1149,9 +1149,14 @@ class Ga(metric.Metric):
 
     @_cached_property
     def blade_super_scripts(self) -> GradedTuple[str]:
-        return self.indexes._map(lambda base_index: ''.join(
-            self.basis_super_scripts[i] for i in base_index
-        ))
+        def super_scripts_of_grade(base_indexes):
+            scripts = [[self.basis_super_scripts[i] for i in base_index] for base_index in base_indexes]
+            plain = tuple(''.join(s) for s in scripts)
+            if len(set(plain)) == len(plain):
+                return plain
+            # ambiguous, like those of `e_1^e_23` and `e_12^e_3`
+            return tuple('__'.join(s) for s in scripts)
+        return GradedTuple(super_scripts_of_grade(b) for b in self.indexes)
 
     @_cached_property
     def mv_blades(self) -> GradedTuple[_mv.Mv]:
-- 
2.43.0


From a76009b28730c9c287a632e92f09c2c1d3165384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:10 +0000
Subject: [PATCH 52/63] fix: property C19: every preset of Ga.preset raised

---
 galgebra/ga.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index 3fade66..7cd076c 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -12,7 +12,7 @@ from ._backports.typing import OrderedDict
 from sympy import (
     diff, Symbol, S, Mul, Add, Expr,
     expand, simplify, eye, trigsimp,
-    symbols, sqrt, Matrix,
+    symbols, sqrt, cos, Matrix,
 )
 
 from . import printer
@@ -632,10 +632,10 @@ class Ga(metric.Metric):
             raise ValueError(str(setting) + 'not in Ga.presets.')
         set_lst = Ga.presets[setting].split(':')
         X = symbols(set_lst[0], real=True)
-        g = eval(set_lst[1])
-        simps = eval(set_lst[2])
+        # the metric is an expression of the coordinates, by name or by index
+        g = eval(set_lst[1], {'X': X, 'cos': cos, **{str(x): x for x in X}})
         args = [root]
-        kwargs = {'g': g, 'coords': X, 'debug': debug, 'I': True, 'gsym': False}
+        kwargs = {'g': g, 'coords': X, 'debug': debug}
 
         if len(set_lst) > 3:
             args_lst = set_lst[-1].split(';')
@@ -643,7 +643,6 @@ class Ga(metric.Metric):
                 [name, value] = arg.split('=')
                 kwargs[name] = eval(value)
 
-        Ga.set_simp(*simps)
         return Ga(*args, **kwargs)
 
     def __hash__(self):
-- 
2.43.0


From c3abd731b12d22607dc3af816ea74fe8ef69cec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:10 +0000
Subject: [PATCH 53/63] fix: property C19: Cl accepted negative counts

---
 galgebra/interop/_cl.py     | 2 ++
 galgebra/interop/kingdon.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/galgebra/interop/_cl.py b/galgebra/interop/_cl.py
index 3d11e94..a69e5c6 100644
--- a/galgebra/interop/_cl.py
+++ b/galgebra/interop/_cl.py
@@ -58,6 +58,8 @@ def Cl(p: int, q: int = 0, r: int = 0, root: str = 'e', **kwargs):
         >>> ga, e1, e2, e3 = Cl(2, 0, 1)
     """
     n = p + q + r
+    if min(p, q, r) < 0:
+        raise ValueError("The counts p, q and r must not be negative.")
     if n == 0:
         raise ValueError("Total dimension p + q + r must be positive.")
 
diff --git a/galgebra/interop/kingdon.py b/galgebra/interop/kingdon.py
index bd73e47..61210dd 100644
--- a/galgebra/interop/kingdon.py
+++ b/galgebra/interop/kingdon.py
@@ -67,6 +67,8 @@ def Cl(p: int, q: int = 0, r: int = 0, root: str = 'e', **kwargs):
         >>> ga, e0, e1, e2, e3 = Cl(3, 0, 1)
     """
     n = p + q + r
+    if min(p, q, r) < 0:
+        raise ValueError("The counts p, q and r must not be negative.")
     if n == 0:
         raise ValueError("Total dimension p + q + r must be positive.")
 
-- 
2.43.0


From d7373c74eff3e25b3a134869c169c75050dfa034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:10 +0000
Subject: [PATCH 54/63] fix: property C19: Cl of one dimension failed or named
 its basis vector wrongly

---
 galgebra/interop/_cl.py     | 6 ++----
 galgebra/interop/kingdon.py | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/galgebra/interop/_cl.py b/galgebra/interop/_cl.py
index a69e5c6..09abc1b 100644
--- a/galgebra/interop/_cl.py
+++ b/galgebra/interop/_cl.py
@@ -70,9 +70,7 @@ def Cl(p: int, q: int = 0, r: int = 0, root: str = 'e', **kwargs):
     g = [1] * p + [-1] * q + [0] * r
 
     # Build basis name string (1-indexed)
-    if n <= 9:
-        basis = root + '*' + '|'.join(str(i + 1) for i in range(n))
-    else:
-        basis = ' '.join(root + '_' + str(i + 1) for i in range(n))
+    # The trailing comma makes this a list of names also when there is only one
+    basis = ','.join(root + '_' + str(i + 1) for i in range(n)) + ','
 
     return Ga.build(basis, g=g, **kwargs)
diff --git a/galgebra/interop/kingdon.py b/galgebra/interop/kingdon.py
index 61210dd..e4764a7 100644
--- a/galgebra/interop/kingdon.py
+++ b/galgebra/interop/kingdon.py
@@ -79,9 +79,7 @@ def Cl(p: int, q: int = 0, r: int = 0, root: str = 'e', **kwargs):
     g = [1] * p + [-1] * q + [0] * r
 
     # Build basis name string (0-indexed, matching kingdon)
-    if n <= 10:
-        basis = root + '*' + '|'.join(str(i) for i in range(n))
-    else:
-        basis = ' '.join(root + '_' + str(i) for i in range(n))
+    # The trailing comma makes this a list of names also when there is only one
+    basis = ','.join(root + '_' + str(i) for i in range(n)) + ','
 
     return Ga.build(basis, g=g, **kwargs)
-- 
2.43.0


From e00bcb738e82cf8a1570e61a8969ef5ab187ed1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:10 +0000
Subject: [PATCH 55/63] fix: property C20: Simp.applymv raised NameError,
 Simp.apply refused plain numbers

---
 galgebra/metric.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/galgebra/metric.py b/galgebra/metric.py
index 30f5327..679b822 100644
--- a/galgebra/metric.py
+++ b/galgebra/metric.py
@@ -309,13 +309,13 @@ class Simp:
     @staticmethod
     def apply(expr):
         obj = S.Zero
-        for coef, base in linear_expand_terms(expr):
+        for coef, base in linear_expand_terms(S(expr)):
             obj += apply_function_list(Simp.modes, coef) * base
         return obj
 
     @staticmethod
     def applymv(mv):
-        return Mv(Simp.apply(mv.obj), ga=mv.Ga)
+        return type(mv)(Simp.apply(mv.obj), ga=mv.Ga)
 
 
 class Metric(object):
-- 
2.43.0


From 54021bf0697f416f527ed0134280c849a7909578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:10 +0000
Subject: [PATCH 56/63] fix: property C19: a negative signature hint was
 accepted

---
 galgebra/metric.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/galgebra/metric.py b/galgebra/metric.py
index 679b822..71ea270 100644
--- a/galgebra/metric.py
+++ b/galgebra/metric.py
@@ -648,11 +648,11 @@ class Metric(object):
                 self.sig = (p, q)
                 return
         if isinstance(self.sig, int):  # General signature
-            if self.sig <= self.n:
+            if 0 <= self.sig <= self.n:
                 self.sig = (self.sig, self.n - self.sig)
                 return
             else:
-                raise ValueError('self.sig = ' + str(self.sig) + ' > self.n, not an allowed hint')
+                raise ValueError('self.sig = ' + str(self.sig) + ' is not between 0 and self.n, not an allowed hint')
         if isinstance(self.sig, str):
             if self.sig == 'e':  # Euclidean metric signature
                 self.sig = (self.n, 0)
-- 
2.43.0


From 65420295da4fe74276847d2f8bebff718771256e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:10 +0000
Subject: [PATCH 57/63] fix: property C19: basis vectors of the same name were
 accepted

---
 galgebra/metric.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/galgebra/metric.py b/galgebra/metric.py
index 71ea270..7a48eb6 100644
--- a/galgebra/metric.py
+++ b/galgebra/metric.py
@@ -747,6 +747,9 @@ class Metric(object):
         self.n = len(self.basis)
         self.n_range = list(range(self.n))
 
+        if len(set(self.basis)) != self.n:
+            raise ValueError('The basis vectors ' + str(self.basis) + ' must have different names')
+
         # Generate metric as list of lists of symbols, rationals, or functions of coordinates
 
         if g is None:
-- 
2.43.0


From 3e7350f43cb842d3145fd57c6de0f155f7aa1a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:10 +0000
Subject: [PATCH 58/63] fix: property C19: metrics of a wrong size or not
 symmetric were accepted

---
 galgebra/metric.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/galgebra/metric.py b/galgebra/metric.py
index 7a48eb6..2748cfe 100644
--- a/galgebra/metric.py
+++ b/galgebra/metric.py
@@ -805,7 +805,18 @@ class Metric(object):
                         m = eye(len(g))
                         for i in range(len(g)):
                             m[i, i] = g[i]
-                        self.g = m
+                        # a diagonal may be longer than the basis
+                        self.g = m[:self.n, :self.n]
+
+        if self.g.shape != (self.n, self.n):
+            raise ValueError('Input metric ' + str(self.g) + ' has different rank than bases ' + str(self.basis))
+        if any(
+            self.g[i, j] != self.g[j, i] and simplify(self.g[i, j] - self.g[j, i]) != 0
+            for i in self.n_range
+            for j in self.n_range
+            if i < j
+        ):
+            raise ValueError('Input metric ' + str(self.g) + ' is not symmetric')
 
         self.g_raw = copy.deepcopy(self.g)  # save original metric tensor for use with submanifolds
 
-- 
2.43.0


From 480596787d1eb8be6e64dff719aaaf9e84e458fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:11 +0000
Subject: [PATCH 59/63] fix: property C19: a grade outside the algebra was
 accepted

---
 galgebra/mv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 5c9dbf5..6505611 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -186,6 +186,8 @@ class Mv(printer.GaPrintable):
                 return root
             return '{}__{}'.format(root, s)
         grade = __grade
+        if not 0 <= grade <= ga.n:
+            raise ValueError('{!r} is not a grade of a {}-dimensional algebra.'.format(grade, ga.n))
         kw = _KwargParser('_make_grade', kwargs)
         if isinstance(__name_or_coeffs, str):
             name = __name_or_coeffs
-- 
2.43.0


From 5a777349936afcb10b0926c9f9ed80d809a7605e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:30 +0000
Subject: [PATCH 60/63] fix: property C17: powers of sums lost their brackets
 with fold_frac_powers

---
 galgebra/printer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/galgebra/printer.py b/galgebra/printer.py
index 67fbfad..fe81ee9 100644
--- a/galgebra/printer.py
+++ b/galgebra/printer.py
@@ -549,7 +549,9 @@ class GaLatexPrinter(LatexPrinter):
             and expr.exp.is_Rational \
                 and expr.exp.q != 1:
             base, p, q = self._print(expr.base), expr.exp.p, expr.exp.q
-            if mode:
+            if self._needs_brackets(expr.base):
+                return r"\left(%s\right)^{%s/%s}" % (base, p, q)
+            elif mode:
                 return r"{\left ( %s \right )}^{%s/%s}" % (base, p, q)
             else:
                 return r"%s^{%s/%s}" % (base, p, q)
-- 
2.43.0


From 7461347e709facd695020278c7efe8507ef7fd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:08 +0000
Subject: [PATCH 61/63] fix: property C21: Mv.Grad called a method that no
 longer exists

---
 galgebra/mv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 6505611..0a03fad 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1222,7 +1222,8 @@ class Mv(printer.GaPrintable):
         transformed does not and you wish to take the divergence of the
         linear transformation with respect to the linear argument.
         """
-        return Mv(self.Ga.Diff(self, mode, left, coords=coords), ga=self.Ga)
+        grad = self.Ga.make_grad(coords, cmpflg=not left)
+        return Dop.Mul(grad, self, mode) if left else Dop.Mul(self, grad, mode)
 
     def exp(self, hint: str = '-') -> 'Mv':  # Calculate exponential of multivector
         """
-- 
2.43.0


From 46f71d6a6b4a13ae4eff0ca8228483553751eafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:21 +0000
Subject: [PATCH 62/63] fix: a scalar given as a python number is made of a
 sympy number

ga.mv(3, 'scalar') and ga.mv(3, 0) kept the python int as the object of the
multivector, so grade, expand, hash and most other methods raised.
---
 galgebra/mv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 0a03fad..85a9e82 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -222,8 +222,8 @@ class Mv(printer.GaPrintable):
             name = __name_or_value
             return Mv._make_grade(ga, name, 0, **kwargs)
         else:
-            value = __name_or_value
-            return value
+            # `obj` must be a sympy expression, also for python numbers
+            return sympify(__name_or_value)
 
     @staticmethod
     def _make_vector(ga: 'Ga', __name_or_coeffs: Union[str, list, tuple], **kwargs) -> Expr:
-- 
2.43.0


From b2760ac26a796e523e55db9cd3425839545d78b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:14 +0000
Subject: [PATCH 63/63] fix: bracket what a derivative that is not carried out
 applies to

The text of Derivative(f + g, x) was D{x}f + g and that of Derivative(f**2, x)
was D{x}f**2, the same as for Derivative(f, x)**2.
---
 galgebra/printer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/galgebra/printer.py b/galgebra/printer.py
index fe81ee9..3a05b72 100644
--- a/galgebra/printer.py
+++ b/galgebra/printer.py
@@ -92,6 +92,7 @@ from collections import ChainMap
 from sympy import MatrixBase, Basic, S, Symbol, Function, Derivative, Pow
 from sympy.printing.str import StrPrinter
 from sympy.printing.conventions import split_super_sub
+from sympy.printing.precedence import PRECEDENCE
 from sympy.printing.latex import (
     LatexPrinter, accepted_latex_functions, other_symbols
 )
@@ -342,7 +343,8 @@ class GaPrinter(StrPrinter):
             s += '{' + str(x) + '}'
             if n > 1:
                 s += '^' + str(n)
-        s += str(self._print(function))
+        # the operand is everything up to the next operator
+        s += self.parenthesize(function, PRECEDENCE['Func'], strict=True)
         return _apply_ansi_color(self._settings["derivative_color"], s)
 
     def _print_dict(self, expr):
-- 
2.43.0

