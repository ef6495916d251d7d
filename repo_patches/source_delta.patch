From ed26d109ab345453a5c66871d69ea7b9dd56446e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 01/25] fix: Matrix.row checks the row index against the number
 of rows

---
 peyl/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/matrix.py b/peyl/matrix.py
index e799623..18910fb 100644
--- a/peyl/matrix.py
+++ b/peyl/matrix.py
@@ -117,7 +117,7 @@ class Matrix:
         """
         Return a row of the matrix as a row vector.
         """
-        if not 0 <= row < self.ncols:
+        if not 0 <= row < self.nrows:
             raise IndexError(f"Row {row} is out of bounds for a {self.nrows} x {self.ncols} matrix.")
 
         return Matrix(1, self.ncols, tuple(self[row, j] for j in range(self.ncols)))
-- 
2.43.0


From b2af2a13fced7ea49ea225d8848716f38a30b9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 02/25] fix: Matrix.is_symmetric compares all entries, not only
 the diagonal

---
 peyl/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/matrix.py b/peyl/matrix.py
index 18910fb..6e7c435 100644
--- a/peyl/matrix.py
+++ b/peyl/matrix.py
@@ -231,7 +231,7 @@ class Matrix:
         return self.nrows == self.ncols
 
     def is_symmetric(self):
-        return all(self[i, j] == self[j, i] for i, j in zip(range(self.nrows), range(self.ncols)))
+        return self.is_square() and all(self[i, j] == self[j, i] for i, j in self.indices())
 
     def __repr__(self):
         """
-- 
2.43.0


From 8e3c0531d1ee59403068ba27a9784bf6648cded5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 03/25] fix: SymmetricGroup.from_cycle closes up cycles of any
 length

---
 peyl/permutations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peyl/permutations.py b/peyl/permutations.py
index 39be001..9387e2a 100644
--- a/peyl/permutations.py
+++ b/peyl/permutations.py
@@ -365,10 +365,10 @@ class SymmetricGroup:
     def from_cycle(self, cycle: Sequence[int]):
         """Create a permutation from a cycle."""
         assert all(0 <= x < self.n for x in cycle)
-        assert max(collections.Counter(cycle).values()) <= 1
+        assert max(collections.Counter(cycle).values(), default=0) <= 1
         word = list(range(self.n))
         for i in range(len(cycle)):
-            word[cycle[i]] = cycle[(i+1)%self.n]
+            word[cycle[i]] = cycle[(i+1)%len(cycle)]
 
         return Permutation(tuple(word))
 
-- 
2.43.0


From 17459fa415c793c233168e0853f258aa37c43988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 04/25] fix: SymmetricGroup.from_cycles starts from the
 identity permutation

---
 peyl/permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/permutations.py b/peyl/permutations.py
index 9387e2a..ac06fe8 100644
--- a/peyl/permutations.py
+++ b/peyl/permutations.py
@@ -375,7 +375,7 @@ class SymmetricGroup:
 
     def from_cycles(self, cycles: Sequence[Sequence[int]]):
         """Create a permutation from a list of cycles (not necessarily disjoint)."""
-        return functools.reduce(operator.mul, map(self.from_cycle, cycles), self.id)
+        return functools.reduce(operator.mul, map(self.from_cycle, cycles), self.id())
 
 
     def elements(self) -> Iterable[Permutation]:
-- 
2.43.0


From 60571a3cba5fb8b980695cc5a6ac5f5c52623e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 05/25] fix: Poly repr shows the true constant coefficient

---
 peyl/poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/poly.py b/peyl/poly.py
index 7346681..0e39069 100644
--- a/peyl/poly.py
+++ b/peyl/poly.py
@@ -71,7 +71,7 @@ class Poly:
 
             sign = ' + ' if (c > 0 and parts) else ' - ' if (c < 0 and parts) else '' if c > 0 else '-'
             term = '' if i == 0 else 'x' if i == 1 else f'x^{i}'
-            coeff = '1' if (i == 0 and term == '') else '' if abs(c) == 1 else f'{abs(c)}'
+            coeff = f'{abs(c)}' if (i == 0 and term == '') else '' if abs(c) == 1 else f'{abs(c)}'
             parts += [sign + coeff + term]
 
         return f"Poly('{''.join(parts)}')"
-- 
2.43.0


From 5b267c3a0642798f077dd9f93d1912952438d356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 06/25] fix: polymat.projlen of a zero matrix is zero

---
 peyl/polymat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/polymat.py b/peyl/polymat.py
index 3483d90..8cf9cde 100644
--- a/peyl/polymat.py
+++ b/peyl/polymat.py
@@ -276,7 +276,7 @@ def projlen(A: npt.NDArray) -> npt.NDArray:
     nonzeros = np.any(A, axis=(-3, -2))
     starts = np.argmax(nonzeros, axis=-1)
     ends = nonzeros.shape[-1] - np.argmax(nonzeros[..., ::-1], axis=-1)
-    return ends - starts
+    return (ends - starts) * np.any(nonzeros, axis=-1)
 
 def proj_starts_ends(A: npt.NDArray) -> Tuple[npt.NDArray, npt.NDArray]:
     """
-- 
2.43.0


From 4d773418d1646a0b531b2b78b79c152065046f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:05 +0000
Subject: [PATCH 07/25] fix: polymat.mul of two trimmed zero matrices is zero

---
 peyl/polymat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/polymat.py b/peyl/polymat.py
index 8cf9cde..7240f88 100644
--- a/peyl/polymat.py
+++ b/peyl/polymat.py
@@ -65,7 +65,7 @@ def mul(A: npt.NDArray, B: npt.NDArray, quotdeg: int = None):
     assert J == J2, f"The matrix dimensions of A and B must be compatible, was given {J} and {J2}."
     assert quotdeg is None or quotdeg >= 0, f"quotdeg={quotdeg} is illegal."
 
-    P = D + E - 1 if quotdeg is None else quotdeg
+    P = max(D + E - 1, 0) if quotdeg is None else quotdeg
     prefix = np.broadcast_shapes(alpha, beta)
 
     # This approach seems to be a bit faster than making a large shape of zeros of the right size
-- 
2.43.0


From bfddc239d5a3b56702c6ddeec157d01b44b26491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:05 +0000
Subject: [PATCH 08/25] fix: polymat.from_matrix accepts mixed entries and
 honours dtype

---
 peyl/polymat.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/peyl/polymat.py b/peyl/polymat.py
index 7240f88..bc6adea 100644
--- a/peyl/polymat.py
+++ b/peyl/polymat.py
@@ -160,9 +160,10 @@ def from_matrix(mat: Matrix, proj: bool = False, dtype: npt.DTypeLike = np.int64
     If proj is true, then the matrix will be multiplied by a power of v, making it a polynomial matrix first.
     """
     if all(isinstance(x, int) for x in mat.data):
-        return np.array(mat.rows())[..., None]
+        return np.array(mat.rows(), dtype=dtype)[..., None]
 
-    if all(isinstance(x, LPoly) for x in mat.data):
+    if all(isinstance(x, (int, LPoly)) for x in mat.data):
+        mat = mat.map(LPoly.coerce)
         if all(x.is_zero() for x in mat.data):
             return np.zeros((mat.nrows, mat.ncols, 1), dtype=int)
 
-- 
2.43.0


From 393cba0b412fb612f99091515ae21de88af64cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:05 +0000
Subject: [PATCH 09/25] fix: TLExtDiag composes x * y as x on top of y

---
 peyl/tl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/tl.py b/peyl/tl.py
index 5981422..0bf0965 100644
--- a/peyl/tl.py
+++ b/peyl/tl.py
@@ -306,7 +306,7 @@ class TLExtDiag:
             if self.bot != other.top:
                 raise ValueError("Trying to compose incompatible TLDiags.")
 
-            seq, bubbles = compose(other.seq, self.seq, self.bot)
+            seq, bubbles = compose(self.seq, other.seq, self.bot)
             return TLExtDiag(self.top, other.bot, seq, self.bubbles + other.bubbles + bubbles)
 
         return NotImplemented
-- 
2.43.0


From e509fc0a101f5f4ee4352f4a2ad80a2f02bb5e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:05 +0000
Subject: [PATCH 10/25] fix: TLMor.flip honours twist_v

---
 peyl/tl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/tl.py b/peyl/tl.py
index 0bf0965..af8d216 100644
--- a/peyl/tl.py
+++ b/peyl/tl.py
@@ -450,7 +450,7 @@ class TLMor:
         """Apply the upside-down flip to the diagrams. If twist_v is True, also map v -> v^-1."""
         vinv = LPoly(-1, (1,))
         return TLMor(self.bot, self.top, {
-            diag.flip(): coeff.evaluate(vinv) for diag, coeff in self.terms.items()
+            diag.flip(): coeff.evaluate(vinv) if twist_v else coeff for diag, coeff in self.terms.items()
         })
 
     def __neg__(self):
-- 
2.43.0


From 8def27b9fd5a5a480872b701aab174b190d9a485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:05 +0000
Subject: [PATCH 11/25] fix: tl.JonesRep includes the last cell module

---
 peyl/tl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/tl.py b/peyl/tl.py
index af8d216..5d6af3f 100644
--- a/peyl/tl.py
+++ b/peyl/tl.py
@@ -550,7 +550,7 @@ class JonesRep:
         assert n >= 0
 
         self.n = n
-        self.cells = [TLCell(n, r) for r in range(n//2)]
+        self.cells = [TLCell(n, r) for r in range(n//2 + 1)]
 
 
 
-- 
2.43.0


From 9ab72a552dfb8c4d0a846ccf504ee494056b31af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:05 +0000
Subject: [PATCH 12/25] fix: polymat_artin_gens_invs converts the inverses
 projectively

---
 peyl/jonesrep.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peyl/jonesrep.py b/peyl/jonesrep.py
index 24cd2bc..d4527e5 100644
--- a/peyl/jonesrep.py
+++ b/peyl/jonesrep.py
@@ -116,8 +116,8 @@ class RepBase:
         are the images of their inverses.
         """
         gens, invs = self.artin_gens_invs()
-        matgens = polymat.pack([polymat.from_matrix(x, dtype=self.polymat_dtype()) for x in gens])
-        matinvs = polymat.pack([polymat.from_matrix(x, dtype=self.polymat_dtype()) for x in invs])
+        matgens = polymat.pack([polymat.from_matrix(x, proj=True, dtype=self.polymat_dtype()) for x in gens])
+        matinvs = polymat.pack([polymat.from_matrix(x, proj=True, dtype=self.polymat_dtype()) for x in invs])
         if self.p != 0:
             matgens %= self.p
             matinvs %= self.p
-- 
2.43.0


From 7f8ec250053f5dabd43079682c8517c709aa5289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:05 +0000
Subject: [PATCH 13/25] fix: generators of the braid group on two strands are
 in normal form

---
 peyl/braid.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/peyl/braid.py b/peyl/braid.py
index 4e5b6ba..fc7bbae 100644
--- a/peyl/braid.py
+++ b/peyl/braid.py
@@ -367,7 +367,7 @@ class NFBase(Generic[T]):
     def artin_gens(cls, n: int):
         """Return a list of the n-1 Artin generators."""
 
-        return [cls(n, 0, (f,)) for f in cls._nf_table(n).artin_gens]
+        return [cls.from_artin_word(n, [(i, 1)]) for i in range(n - 1)]
 
     def canonical_factors(self) -> tuple[T, ...]:
         """
@@ -647,7 +647,7 @@ class DGNF(NFBase[NPar]):
         id = DGNF.identity(n)
         table = DGNF._nf_table(n)
         return {
-            (i, j): id if i == j else DGNF(n, 0, (table.bkl_gens[(min(i, j), max(i, j))],))
+            (i, j): id if i == j else DGNF.from_npar(table.divs[table.bkl_gens[(min(i, j), max(i, j))]])
             for i in range(n) for j in range(n)
         }
 
@@ -726,8 +726,7 @@ class BraidGroup:
     @functools.cache
     def gens(self) -> tuple[GNF, ...]:
         """Return the Artin generators of the braid group, as GNFs."""
-        table = PermTable.create(self.n)
-        return tuple(GNF(self.n, 0, (table.artin_gens[i],)) for i in range(self.n - 1))
+        return tuple(GNF.artin_gens(self.n))
 
     @functools.cache
     def bkl_gens(self) -> dict[tuple[int, int], DGNF]:
@@ -737,8 +736,8 @@ class BraidGroup:
         """
         table = NParTable.create(self.n)
         return {
-            **{gen: DGNF(self.n, 0, (idx,)) for gen, idx in table.bkl_gens.items()},
-            **{gen[::-1]: DGNF(self.n, 0, (idx,)) for gen, idx in table.bkl_gens.items()},
+            **{gen: self.from_npar(table.divs[idx]) for gen, idx in table.bkl_gens.items()},
+            **{gen[::-1]: self.from_npar(table.divs[idx]) for gen, idx in table.bkl_gens.items()},
             **{(i, i): DGNF.identity(self.n) for i in range(self.n)},
         }
 
-- 
2.43.0


From c9a1b706ce01de16f8bf6e6d11f04f224c27dd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:05 +0000
Subject: [PATCH 14/25] fix: nf_suffixes yields braids without the power of the
 prefix

---
 peyl/braid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/braid.py b/peyl/braid.py
index fc7bbae..6d5c394 100644
--- a/peyl/braid.py
+++ b/peyl/braid.py
@@ -492,7 +492,7 @@ class NFBase(Generic[T]):
         """Return all x such that self * x has no cancellation, and x has the given length."""
         table = self._nf_table(self.n)
         return (
-            self.__class__(self.n, self.power, suffix)
+            self.__class__(self.n, 0, suffix)
             for suffix in table.normal_forms(length=length, following=self.factors[-1] if self.factors else None)
         )
 
-- 
2.43.0


From 11629175e145997237d3161773b7e049c0df9d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:05 +0000
Subject: [PATCH 15/25] fix: all_of_garside_length passes the power on

---
 peyl/braid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/braid.py b/peyl/braid.py
index 6d5c394..222bee7 100644
--- a/peyl/braid.py
+++ b/peyl/braid.py
@@ -781,7 +781,7 @@ class BraidGroup:
 
     def all_of_garside_length(self, length: int, power: int = 0) -> Iterable[GNF]:
         """Use GNF.all_of_length() or DGNF.all_of_length() instead."""
-        return GNF.all_of_length(n=self.n, length=length)
+        return GNF.all_of_length(n=self.n, length=length, power=power)
 
     def count_all_of_garside_length(self, length: int):
         """Use GNF.count_all_of_length() or DGNF.count_all_of_length() instead."""
-- 
2.43.0


From 6d507c0bdce2694993c1078f82ec969476da1aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 16/25] fix: LKBRep returns the inverses of its generators

---
 peyl/jonesrep.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/peyl/jonesrep.py b/peyl/jonesrep.py
index d4527e5..5a098ac 100644
--- a/peyl/jonesrep.py
+++ b/peyl/jonesrep.py
@@ -327,4 +327,11 @@ class LKBRep(RepBase):
             ])
             gens += [mat]
 
-        return gens, gens
+        # Each generator satisfies (x - 1)(x + q)(x - tq^2) = 0, which gives its inverse as a polynomial in x.
+        e1, e2, e3 = 1 - q + t*q**2, -q + t*q**2 - t*q**3, -t*q**3
+        invs = [
+            (gen*gen - gen.map(lambda x: e1 * x) - Matrix.scalar(self.dimension(), -e2)).map(lambda x: e3**-1 * x)
+            for gen in gens
+        ]
+
+        return gens, invs
-- 
2.43.0


From c96c6969fc1677e77b31a771a19d7874aadc8b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 17/25] fix: powers of the Garside element are reduced modulo p

---
 peyl/jonesrep.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/peyl/jonesrep.py b/peyl/jonesrep.py
index 5a098ac..c73c42d 100644
--- a/peyl/jonesrep.py
+++ b/peyl/jonesrep.py
@@ -137,7 +137,11 @@ class RepBase:
         table = cls._nf_table(self.n)
         assert 0 <= power < table.tau_order, "Only reduced powers should be passed to this function."
         mat = self.evaluate_artin_word(table.artin_word[table.D])
-        return polymat.projectivise(polymat.from_matrix(mat ** power, proj=True))
+        delta_power = polymat.from_matrix(mat ** power, proj=True)
+        if self.p != 0:
+            delta_power %= self.p
+
+        return polymat.projectivise(delta_power)
 
     def polymat_evaluate_artin_word(self, word: Sequence[tuple[int, int]]):
         """Evaluate a word in the Artin generators in this representation, as a polymat."""
-- 
2.43.0


From b64a3ff02c1053f45070fd73effac7750fcbbe5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 18/25] fix: evaluating a batch of empty factor sequences keeps
 the batch size

---
 peyl/jonesrep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/jonesrep.py b/peyl/jonesrep.py
index c73c42d..09d1145 100644
--- a/peyl/jonesrep.py
+++ b/peyl/jonesrep.py
@@ -208,7 +208,7 @@ class RepBase:
         assert all(0 <= x < order for seq in sequences for x in seq)
 
         # Evaluate the braids.
-        result = polymat.pack([self._polymat_braid_factor(cls, table.id)])
+        result = polymat.pack([self._polymat_braid_factor(cls, table.id) for _ in sequences])
         for i in range(length):
             images = polymat.pack([self._polymat_braid_factor(cls, seq[i]) for seq in sequences])
             result = self.polymat_mul(result, images)
-- 
2.43.0


From ea45d7f8eb813330d66fe4212fe077431fe97495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 19/25] fix: JonesSummand has a dimension for r = 0

---
 peyl/braidsearch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/peyl/braidsearch.py b/peyl/braidsearch.py
index 6d9df14..5a46d43 100644
--- a/peyl/braidsearch.py
+++ b/peyl/braidsearch.py
@@ -85,6 +85,9 @@ class JonesSummand:
 
     def dimension(self) -> int:
         """The dimension of this representation."""
+        if self.r == 0:
+            return 1
+
         return math.comb(self.n, self.r) - math.comb(self.n, self.r - 1)
 
     @functools.cache
-- 
2.43.0


From 0ca3943304427c5ff15e77ae9d046e702855ab24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 20/25] fix: braidsearch.Tracker.valiate_buckets evaluates in
 its representation

---
 peyl/braidsearch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/braidsearch.py b/peyl/braidsearch.py
index 5a46d43..67e6b55 100644
--- a/peyl/braidsearch.py
+++ b/peyl/braidsearch.py
@@ -411,7 +411,7 @@ class Tracker:
         """Ensure that the braids in each bucket evaluate to the matrices stored there."""
         for bucket in self.buckets:
             braids, images = self.bucket_braids_images(bucket)
-            actual = evaluate_braids_of_same_length(BraidGroup(braids[0].n), braids, p=self.p)
+            actual = evaluate_braids_of_same_length(self.rep, braids)
             if not np.all(images == actual):
                 print(f"A braid image is wrong in bucket {bucket}")
                 for i in range(len(braids)):
-- 
2.43.0


From d3c1d59b906c5a0f5d6ed862630ac86584e712f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 21/25] fix: A-Chao reservoir replaces with probability
 capacity * weight / total

---
 peyl/bucketing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/bucketing.py b/peyl/bucketing.py
index 61aeec5..43b9384 100644
--- a/peyl/bucketing.py
+++ b/peyl/bucketing.py
@@ -330,7 +330,7 @@ class Tracker:
                     if not bucket.is_full():
                         bucket.append_braid(braid, image, weight)
                     else:
-                        if self.rand.random() <= weight / bucket.reservoir_weight:
+                        if self.rand.random() * bucket.reservoir_weight <= bucket.capacity * weight:
                             replace = self.rand.randrange(0, bucket.capacity)
                             bucket.replace_braid(replace, braid, image, weight)
 
-- 
2.43.0


From 961620f8ba90bbdf0a2475618f609780f908686e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 22/25] fix: bucketing.Tracker.nf_descendants accepts braids
 without factors

---
 peyl/bucketing.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/peyl/bucketing.py b/peyl/bucketing.py
index 43b9384..a299dc0 100644
--- a/peyl/bucketing.py
+++ b/peyl/bucketing.py
@@ -360,21 +360,23 @@ class Tracker:
 
         # Let's sort this bucket first, so that elements ending in the same normal form factor appear next to each other.
         bucket_braids, bucket_images = self.buckets[tag].braids_images()
-        last_factors = np.array([braid.factors[-1] for braid in bucket_braids])
+        # A braid with no factors can be followed by anything, which is how D behaves.
+        D = bucket_braids[0]._nf_table(self.rep.n).D
+        last_factors = np.array([braid.factors[-1] if braid.factors else D for braid in bucket_braids])
         sorted_indices = np.argsort(last_factors)
 
         sorted_braids = [bucket_braids[i] for i in sorted_indices]
         sorted_images = bucket_images[sorted_indices]
 
         # Now we can iterate through each group ending in the same factor.
-        for last, indices in itertools.groupby(range(len(sorted_braids)), key=lambda i: sorted_braids[i].factors[-1]):
+        for last, indices in itertools.groupby(range(len(sorted_braids)), key=lambda i: last_factors[sorted_indices[i]]):
             index_list = list(indices)
             chunk = slice(min(index_list), max(index_list)+1)
             braids = sorted_braids[chunk]
             left = sorted_images[chunk]
 
             # Cache suffixes and their images depending on the last factor.
-            last_factor = braids[0].canonical_factor(-1)
+            last_factor = (braids[0].__class__, last)
             if (length, last_factor) not in self.suffix_cache:
                 suffixes = list(braids[0].nf_suffixes(length))
                 rights = self.rep.polymat_evaluate_braids_of_same_length(suffixes)
-- 
2.43.0


From b24999383ed185301262a04d253df2e3e9d81b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:40 +0000
Subject: [PATCH 23/25] fix: noncrossing partitions validate their matching on
 construction

---
 peyl/noncrossing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/noncrossing.py b/peyl/noncrossing.py
index 91d2e8f..18fc7f2 100644
--- a/peyl/noncrossing.py
+++ b/peyl/noncrossing.py
@@ -97,7 +97,7 @@ class NPar:
     n: int
     inv: tuple[int, ...]
 
-    def __post__init__(self):
+    def __post_init__(self):
         """Check that inv is really an involution of the right kind."""
         assert len(self.inv) == 2*self.n
         assert tl.is_crossingless_matching(self.inv)
-- 
2.43.0


From 495844186ed21eeabc93f29fc1ea29e042954690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:40 +0000
Subject: [PATCH 24/25] fix: permutations and symmetric groups validate their
 data on construction

---
 peyl/permutations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peyl/permutations.py b/peyl/permutations.py
index ac06fe8..c7d125f 100644
--- a/peyl/permutations.py
+++ b/peyl/permutations.py
@@ -339,7 +339,7 @@ def is_parallel_descending_cycles(perm: Sequence[int]) -> bool:
 class SymmetricGroup:
     n: int
 
-    def __post__init__(self):
+    def __post_init__(self):
         assert self.n >= 0
 
     @functools.cache
@@ -387,7 +387,7 @@ class SymmetricGroup:
 class Permutation:
     word: tuple[int, ...]
 
-    def __post__init__(self):
+    def __post_init__(self):
         assert is_permutation(self.word)
 
     def group(self):
-- 
2.43.0


From c4feaf6314f792517f6ade6dcba9ca486f6a44c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:45 +0000
Subject: [PATCH 25/25] fix: convert_braid refuses texts which are not stored
 braids

---
 peyl/braid.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/peyl/braid.py b/peyl/braid.py
index 222bee7..b15f631 100644
--- a/peyl/braid.py
+++ b/peyl/braid.py
@@ -804,12 +804,24 @@ def convert_braid(data: bytes) -> NFBase:
     Read a braid out of SQLite into an object.
     """
     if data.startswith(b'GNF'):
-        return GNF(*ast.literal_eval(data[3:].decode('utf-8')))
+        return GNF(*_braid_fields(GNF, ast.literal_eval(data[3:].decode('utf-8'))))
     if data.startswith(b'DGNF'):
-        return DGNF(*ast.literal_eval(data[4:].decode('utf-8')))
+        return DGNF(*_braid_fields(DGNF, ast.literal_eval(data[4:].decode('utf-8'))))
     raise ValueError(f"Could not convert {data!r} to a braid.")
 
 
+def _braid_fields(cls: type[NFBase], fields: tuple) -> tuple[int, int, tuple[int, ...]]:
+    """Check that the fields read from the database are those of a braid: n, power, and indices of divisors."""
+    if not (type(fields) is tuple and len(fields) == 3):
+        raise ValueError(f"The fields {fields!r} do not describe a braid.")
+    n, power, factors = fields
+    if not (type(n) is int and type(power) is int and type(factors) is tuple and all(type(f) is int for f in factors)):
+        raise ValueError(f"The fields {fields!r} do not describe a braid.")
+    if not all(0 <= f < cls._nf_table(n).order for f in factors):
+        raise ValueError(f"The factors {factors!r} are out of range.")
+    return n, power, factors
+
+
 def register_sqlite3_adapters():
     import sqlite3
     sqlite3.register_adapter(GNF, adapt_braid)
-- 
2.43.0

