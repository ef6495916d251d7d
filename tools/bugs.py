"""The planted bugs: property, edits (file, old, new), demonstration, what it needs, what it breaks."""
BR, NC, PE, LP, PO, MA, PM, TL, JR, BU, BS = ('peyl/' + f + '.py' for f in
    'braid noncrossing permutations lpoly poly matrix polymat tl jonesrep bucketing braidsearch'.split())
BUGS = {}

def bug(id, prop, edits, demo, needs, what):
    BUGS[id] = dict(property=prop, edits=edits, demo=demo, needs=needs, what=what)

bug('c02-tau-left', 'C02', [(BR, "table.tau_left[i] = [table.tau_left[1][table.tau_left[i-1][x]] for x in range(order)]", "table.tau_left[i] = [table.tau_right[i-1][table.tau_left[1][x]] for x in range(order)]")], '''
    from peyl.braid import NParTable
    for n in (3, 4, 5):
        t = NParTable.create(n)
        for i in range(n):
            for x in range(t.order):
                assert t.tau_left[i][t.tau_right[i][x]] == x
    ''', 'the dual table, three or more strands, conjugation by the second or a higher power on the left (which no multiplication uses)',
    'tau_left[i] is not conjugation by the i-th power of the Garside element')

bug('c02-right-comp', 'C02', [(BR, "table.right_comp[i] = index[perm.inv() * w0]", "table.right_comp[i] = index[w0 * perm.inv()]")], '''
    from peyl.braid import PermTable
    for n in (3, 4):
        t = PermTable.create(n)
        w0 = t.divs[t.D]
        for x in range(t.order):
            assert t.divs[x] * t.divs[t.right_comp[x]] == w0
    ''', 'the classical table, a divisor that does not commute with the Garside element (nothing in the library reads right_comp)',
    'the right complements of the classical table are left complements')

bug('c03-to-dgnf-order', 'C03', [(BR, """            delta_pow = dgnfs[table.D] ** self.power
            result = delta_pow * result""", """            delta_pow = dgnfs[table.D] ** self.power
            result = result * delta_pow""")], '''
    from peyl import GNF, DGNF
    b = GNF.from_artin_word(4, [(0, 1), (1, 1), (2, 1), (0, 1), (1, 1), (0, 1), (0, 1), (0, 1)])
    assert b.power == 1 and len(b.factors) == 2
    assert b.to_DGNF() == DGNF.from_artin_word(4, b.artin_word())
    assert b.to_DGNF().to_GNF() == b
    ''', 'a braid with an odd Garside power and a factor that the half twist does not commute with',
    'conversion to the dual normal form puts the Garside power on the wrong side')

bug('c03-inverse-delta-word', 'C03', [(BR, "Delta = [(s, -e) for s, e in Delta[::-1]]", "Delta = [(s, -e) for s, e in Delta]")], '''
    from peyl import DGNF
    b = DGNF(4, -1, ())
    assert DGNF.from_artin_word(4, b.artin_word()) == b
    ''', 'a dual braid with negative Garside power (the word of the half twist reads the same backwards)',
    'the Artin word of a dual braid with negative power spells a different braid')

bug('c04-count-following', 'C04', [(BR, """        if length == 0:
            return 1

        last = following""", """        if length == 0:
            return len(self.follows[following]) if following == self.id else 1

        last = following"""), (BR, """        for _ in range(length - 1):
            new_counts: defaultdict[int, int] = defaultdict(int)
            for x, count in counts.items():
                for y in self.follows[x]:
                    new_counts[y] += count
""", """        for _ in range(length - 1):
            new_counts: defaultdict[int, int] = defaultdict(int)
            for x, count in counts.items():
                for y in self.follows[x][:16]:
                    new_counts[y] += count
""")], '''
    from peyl import GNF
    assert GNF.count_all_of_length(4, 2) == sum(1 for _ in GNF.all_of_length(4, 2))
    assert GNF.count_all_of_length(5, 2) == sum(1 for _ in GNF.all_of_length(5, 2))
    ''', 'five or more strands: only there does a divisor have more than sixteen followers', 'the count of normal forms misses some')

bug('c04-descendants-last', 'C04', [(BR, """            self.__class__(self.n, self.power, (*self.factors, *suffix))
            for suffix in table.normal_forms(length=1, following=self.factors[-1] if self.factors else None)""",
"""            self.__class__(self.n, self.power, (*self.factors, *suffix))
            for suffix in table.normal_forms(length=1, following=(self.factors[-1] or None) if self.factors else None)
            if suffix[0] not in self.factors[:-2]""")], '''
    from peyl import GNF
    from peyl.braid import PermTable
    t = PermTable.create(4)
    for b in GNF.all_of_length(4, 3):
        got = {d.factors[-1] for d in b.nf_descendants()}
        assert got == set(t.follows[b.factors[-1]]), b
        if b.factors[0] in t.follows[b.factors[-1]]:
            break
    ''', 'a braid of length three or more, one of whose earlier factors may follow the last one', 'descendants that repeat an earlier factor are left out')

bug('c05-cycle-type', 'C05', [(PE, "return tuple(sorted(lengths, reverse=True))", "return tuple(lengths)")], '''
    from peyl.permutations import cycle_type
    assert cycle_type((0, 2, 1)) == (2, 1)
    ''', 'a permutation whose cycle through the least point is not a longest one', 'the cycle type is not in decreasing order')

bug('c05-shortlex-backtrack', 'C05', [(PE, "            i = max(i - 1, 0)\n", "            i = max(i - 1, 0) if i < 5 else 0\n"), (PE, "        if inv_perm[i] > inv_perm[i+1]:\n            word.append(i)", "        if inv_perm[i] > inv_perm[i+1] and (i != 6 or max(inv_perm) < 8):\n            word.append(i)")] , '''
    from peyl.permutations import shortlex, from_cox, length, longest_element
    import itertools
    for n in range(2, 10):
        p = longest_element(n)
        w = shortlex(p)
        assert len(w) == length(p) and from_cox(n, w) == p
    ''', 'permutations of nine or more points', 'no reduced word is produced for some permutations of nine points')

bug('c06-word-nested', 'C06', [(NC, "        *[(i, -1) for i in range(s+1, t)],", "        *[(i, -1) for i in (range(s+1, t) if t - s < 4 else range(t-1, s, -1))],")], '''
    from peyl import DGNF, GNF
    from peyl.noncrossing import NPar
    p = NPar.from_components(5, [[0, 4]])
    w = p.artin_word()
    x = GNF.from_artin_word(5, w)
    # a_{04} = a_{01}-conjugates: check it lifts the divisor of the long cycle
    c = GNF.from_artin_word(5, NPar.coarsest(5).artin_word())
    y = GNF.from_artin_word(5, p.left_complement().artin_word())
    assert y * x == c
    ''', 'a component with two neighbouring points at distance four or more', 'the braid word of such a noncrossing partition spells another braid with the same permutation')

bug('c07-tensor-bubbles', 'C07', [(TL, """                insert(self.seq, other.seq, self.bot),
                self.bubbles + other.bubbles,""", """                insert(self.seq, other.seq, self.bot),
                max(self.bubbles, other.bubbles),""")], '''
    from peyl.tl import TLExtDiag
    a = TLExtDiag(0, 0, (), 1)
    b = TLExtDiag(0, 0, (), 2)
    assert (a @ b).bubbles == 3
    ''', 'a tensor product of two diagrams that both carry closed loops', 'the loops of one factor are lost')

bug('c07-loop-count', 'C07', [(TL, """            v = L - lower[L - upper[v] - 1] - 1
            if visited[v]:
                break

        bubbles += 1""", """            v = L - lower[L - upper[v] - 1] - 1
            if visited[v]:
                break

        bubbles += 1
        if bubbles == mid // 2 and bubbles > 3:
            break""")], '''
    from peyl.tl import compose
    seq = (1, 0, 3, 2, 5, 4, 7, 6)
    assert compose(seq, seq, 8) == ((), 4)
    seq = (7, 6, 5, 4, 3, 2, 1, 0)
    assert compose(seq, seq, 8) == ((), 4)
    ''', '', '')
del BUGS['c07-loop-count']

bug('c08-unit-inverse', 'C08', [(LP, "return LPoly(-self.val, self.coeffs)**-n", "return LPoly(-self.val, (1,))**-n")], '''
    from peyl import LPoly
    m = LPoly(1, (-1,))
    assert m ** -1 * m == LPoly(0, (1,))
    ''', 'an odd negative power of a unit with coefficient -1', 'the inverse has the wrong sign')

bug('c09-truediv-constant', 'C09', [(PO, "        if not rem.is_zero():\n            raise ValueError", "        if rem.deg() > 0:\n            raise ValueError")], '''
    from peyl.poly import Poly
    try:
        Poly(1, 0, 1) / Poly(1, 1)
    except ValueError:
        pass
    else:
        raise SystemExit(1)
    ''', 'an inexact division that leaves a constant remainder', 'exact division returns a quotient although there is none')

bug('c09-pow-square', 'C09', [(PO, """        sqrt = self ** (n // 2)
        return sqrt * sqrt if n % 2 == 0 else sqrt * sqrt * self
""", """        sqrt = self ** (n // 2)
        return sqrt * sqrt if n % 4 != 3 or n < 11 else sqrt * sqrt * self
""")], '', '', '')
del BUGS['c09-pow-square']

bug('c10-rows-stride', 'C10', [(MA, "return [list(self.data[self.ncols * i:self.ncols * (i + 1)]) for i in range(self.nrows)]", "return [list(self.data[self.nrows * i:self.nrows * i + self.ncols]) for i in range(self.nrows)]")], '''
    from peyl.matrix import Matrix
    m = Matrix(3, 2, (1, 2, 3, 4, 5, 6))
    assert m.rows() == [[1, 2], [3, 4], [5, 6]], m.rows()
    ''', 'a matrix that is not square', 'the rows are read with the wrong stride')
BUGS['c10-rows-stride']['edits'] = [(MA, "newdata[other.ncols * i + j] += self.data[self.ncols * i + k] * other.data[other.ncols * k + j]", "newdata[other.ncols * i + j] += self.data[self.ncols * i + k] * other.data[other.nrows * k + j]")]
BUGS['c10-rows-stride']['demo'] = '''
    from peyl.matrix import Matrix
    a, b = Matrix(1, 2, (1, 2)), Matrix(2, 1, (3, 5))
    assert (a * b).data == (13,)
    c = Matrix(2, 3, (1, 2, 3, 4, 5, 6))
    assert (a * c).data == (9, 12, 15)
    assert (b * a).data == (3, 6, 5, 10)
    '''
BUGS['c10-rows-stride']['what'] = 'the product reads the right operand with the wrong stride'

bug('c11-projectivise-some', 'C11', [(PM, "    if np.all(np.any(A[..., 0], axis=(-2, -1))) and np.any(A[..., -1]):", "    if np.any(A[..., 0]) and np.any(A[..., -1]):")], '''
    import numpy as np
    from peyl import polymat
    A = np.zeros((2, 1, 1, 3), dtype=int)
    A[0, 0, 0] = [1, 0, 2]
    A[1, 0, 0] = [0, 0, 5]
    B = polymat.projectivise(A)
    assert B[1, 0, 0, 0] == 5, B
    ''', 'a batch in which one matrix has a constant term and another does not', 'matrices of the batch that are divisible by v are not normalised')

bug('c11-concat-width', 'C11', [(PM, """    As = [trim(A) for A in As]
    D = max(A.shape[-1] for A in As)

    return np.concatenate""", """    As = [trim(A) for A in As]
    D = max(A.shape[-1] for A in As if A.shape[0] > 0) if len(As) > 1 else As[0].shape[-1]
    As = [A[..., :D] for A in As]

    return np.concatenate""")], '', '', '')
del BUGS['c11-concat-width']

bug('c11-quotdeg', 'C11', [(PM, "        parts[..., d] = sum(A[..., i] @ B[..., d - i] for i in range(d + 1) if i < D and d - i < E)", "        parts[..., d] = sum(A[..., i] @ B[..., d - i] for i in range(max(0, d - E), min(d, D)) if d - i < E) + (A[..., d] @ B[..., 0] if d < D and d <= E else 0)")], '''
    import numpy as np
    from peyl import polymat
    rng = np.random.default_rng(0)
    for D in range(1, 7):
        for E in range(1, 5):
            A, B = rng.integers(1, 9, (1, 1, D)), rng.integers(1, 9, (1, 1, E))
            assert (polymat.mul(A, B)[0, 0] == np.convolve(A[0, 0], B[0, 0])).all(), (D, E)
    ''', 'a left operand longer than the right one by two or more', 'terms of the packed product are lost')

bug('c12-lkb-exponent', 'C12', [(JR, "col[s, s + 1] = t * q**(s - i) * (q - 1)**2", "col[s, s + 1] = t * q * (q - 1)**2")], '''
    from peyl import LPoly
    from peyl.jonesrep import LKBRep
    gens, invs = LKBRep(5, 0, LPoly(1, (1,)), LPoly(3, (1,))).artin_gens_invs()
    for i in range(3):
        assert gens[i]*gens[i+1]*gens[i] == gens[i+1]*gens[i]*gens[i+1]
    ''', 'five or more strands', 'the Lawrence-Krammer matrices are no representation')

bug('c12-word-power', 'C12', [(JR, "[gens[i]**e if e >= 0 else invs[i]**abs(e) for i, e in word]", "[gens[i] if e > 0 else invs[i] for i, e in word for _ in range(abs(e) % 8)]")], '''
    from peyl.jonesrep import JonesCellRep
    rep = JonesCellRep(3, 1)
    assert rep.evaluate_artin_word([(0, 9)]) == rep.evaluate_artin_word([(0, 1)] * 9)
    assert rep.evaluate_artin_word([(0, 0)]) == rep.id()
    ''', 'an exponent of absolute value eight or more in the word', 'large exponents are reduced modulo eight')

bug('c13-delta-parity', 'C13', [(JR, "self._polymat_delta_power(cls, braid.power % table.tau_order) for braid in braids", "self._polymat_delta_power(cls, braid.power % 2) for braid in braids")], '''
    import numpy as np
    from peyl import DGNF
    from peyl.jonesrep import JonesCellRep
    rep = JonesCellRep(4, 1)
    b = DGNF(4, 2, ())
    assert np.array_equal(rep.polymat_evaluate_braid(b), rep.polymat_evaluate(b))
    ''', 'a dual braid whose Garside power is at least two (or negative)', 'the Garside power is reduced with the order of the classical structure')

bug('c13-factor-mod', 'C13', [(JR, "                product = polymat.mul(product, gens[i] if e >= 0 else invs[i])\n                if self.p != 0:\n                    product %= self.p", "                product = polymat.mul(product, gens[i] if e >= 0 else invs[i])\n            if self.p != 0:\n                product %= self.p")], '''
    import numpy as np
    from peyl.jonesrep import JonesCellRep
    rep = JonesCellRep(3, 1, 5)
    a = rep.polymat_evaluate_artin_word([(0, 1), (1, -1)] * 1 + [(0, 90), (1, -90)] * 2)
    b = rep.polymat_evaluate_artin_word([(0, 1), (1, -1)] + ([(0, 1)] * 90 + [(1, -1)] * 90) * 2)
    assert np.array_equal(a, b)
    ''', 'word with a large exponent modulo a large prime: 32-bit overflow before the reduction', 'overflow')
del BUGS['c13-factor-mod']

bug('c13-late-reduction', 'C13', [(JR, "            images = polymat.pack([self._polymat_braid_factor(cls, seq[i]) for seq in sequences])\n            result = self.polymat_mul(result, images)\n\n        return result", "            images = polymat.pack([self._polymat_braid_factor(cls, seq[i]) for seq in sequences])\n            result = polymat.mul(result, images)\n            if self.p != 0 and i == length - 1:\n                result = result % self.p\n\n        return polymat.projectivise(result)")], '''
    import numpy as np
    from peyl import GNF
    from peyl.jonesrep import JonesCellRep
    rep = JonesCellRep(4, 1, 7)
    seq = [9, 16, 9, 16, 14] * 12
    got = rep.polymat_evaluate_braid_integers_of_same_length(GNF, [seq])[0]
    word = [letter for x in seq for letter in GNF._nf_table(4).artin_word[x]]
    want = rep.polymat_evaluate_artin_word(word)
    assert np.array_equal(got, want)
    ''', 'a sequence of divisors so long that the unreduced coefficients leave the 32-bit range', 'coefficients wrap around before they are reduced modulo p')

bug('c14-greedy-count', 'C14', [(BU, """            # Update reservoir stats
            bucket.show_reservoir(weight)
""", """            # Nothing can change in a full bucket under this policy.
            if self.reservoir_method == 'GreedyFirst' and bucket.is_full():
                continue

            # Update reservoir stats
            bucket.show_reservoir(weight)
""")], '', '', '')
BUGS['c14-greedy-count'].update(edits=[(BU, """            # Update reservoir stats
            bucket.show_reservoir(weight)
""", """            # Update reservoir stats
            if not (bucket.is_full() and self.reservoir_method == 'GreedyFirst'):
                bucket.show_reservoir(weight)
""")], demo='''
    from peyl import GNF, JonesCellRep
    from peyl.bucketing import Stats, Tracker
    rep = JonesCellRep(n=3, r=1, p=2)
    t = Tracker(rep, 1, [Stats.CanonicalLength, Stats.ProjectiveLength], [], reservoir_method='GreedyFirst')
    t.bootstrap_exhaustive(GNF, 2)
    assert sum(b.reservoir_count for b in t.buckets.values()) == GNF.count_all_of_length(3, 1) + GNF.count_all_of_length(3, 2)
    ''', needs='the greedy policy and a full bucket', what='braids offered to a full bucket are not counted')

bug('c15-heap-slot', 'C15', [(BU, "                            heapq.heappop(bucket.heap)\n                            heapq.heappush(bucket.heap, (weight, min_idx))", "                            bucket.heap[0] = (weight, min_idx)")], '''
    import numpy as np
    from peyl import GNF, JonesCellRep
    from peyl.bucketing import Stats, Tracker, BraidStatBase
    rep = JonesCellRep(n=3, r=1, p=2)
    ws = [1, 2, 3, 10, 9]
    it = iter(ws)
    class W(BraidStatBase):
        name = 'w'
        @staticmethod
        def calculate(rep, braids, images):
            return [next(it) for _ in braids]
    t = Tracker(rep, 3, [Stats.CanonicalLength, Stats.ProjectiveLength], [], reservoir_method='EvictMin', reservoir_weight=W)
    b = GNF(3, 0, ())
    im = rep.polymat_evaluate_braid(b)[None]
    for k in range(len(ws)):
        t.add_braids_images([GNF(3, 6 * k, ())], im)
    w = sorted(next(iter(t.buckets.values())).weights)
    assert w == [3, 9, 10], w
    ''', 'the eviction policy, a capacity of at least two, and two replacements in a row', 'the heap is no longer a heap, so an item that is not the lightest is evicted')

bug('c15-stale-weight', 'C15', [(BU, """        self.braids[index] = braid
        self.images[index] = image
        self.weights[index] = weight
""", """        self.braids[index] = braid
        self.images[index] = image
        self.weights[index] = max(weight, self.weights[index])
""")], '''
    import random
    from peyl import GNF, JonesCellRep
    from peyl.bucketing import Stats, Tracker, BraidStatBase
    rep = JonesCellRep(n=3, r=1, p=2)
    class W(BraidStatBase):
        name = 'w'
        @staticmethod
        def calculate(rep, braids, images):
            return [1.0 / (2 + b.power) for b in braids]
    t = Tracker(rep, 1, [Stats.CanonicalLength, Stats.ProjectiveLength], [], reservoir_method='Uniform', reservoir_weight=W, rand=random.Random(1))
    im = rep.polymat_evaluate_braid(GNF(3, 0, ()))[None]
    for k in range(40):
        t.add_braids_images([GNF(3, 6 * k, ())], im)
    b = next(iter(t.buckets.values()))
    assert b.weights[0] == 1.0 / (2 + b.braids[0].power), (b.weights, b.braids)
    ''', 'a replacement by an item lighter than the one it replaces', 'the weight stored beside the item is that of an earlier one')

bug('c16-single-factor', 'C16', [(BR, "return f'{braid.__class__.__name__}{dataclasses.astuple(braid)}'", """return f"{braid.__class__.__name__}({braid.n}, {braid.power}, ({', '.join(map(str, braid.factors))}))" """.rstrip())], '''
    from peyl.braid import GNF, adapt_braid, convert_braid
    for b in (GNF(4, 0, ()), GNF(4, -1, (3,)), GNF.from_artin_word(4, [(0, 5)])):
        assert convert_braid(adapt_braid(b).encode()) == b
    ''', 'a braid with exactly one factor', 'its text form holds an integer where the tuple of factors should be, and cannot be read back')

bug('c16-prefix', 'C16', [(BR, """    if data.startswith(b'GNF'):
""", """    if data.lstrip(b'D').startswith(b'GNF') and not data.startswith(b'DGNF'):
"""), (BR, "    if data.startswith(b'DGNF'):\n", "    if data.startswith(b'D'):\n")], '', '', '')
del BUGS['c16-prefix']

bug('c17-stale-image', 'C17', [(BS, """                        self.bucket_braids[bucket][j-1] = braid
                        image = polymat.projectivise(image)
                        self.bucket_images[bucket][j-1] = image""", """                        self.bucket_braids[bucket][j-1] = braid
                        image = polymat.projectivise(image)
                        self.bucket_images[bucket][j % self.bucket_size] = image""")], '''
    import random
    import numpy as np
    from peyl import braidsearch as bs
    rep = bs.JonesSummand(4, 1, 0)
    t = bs.Tracker(rep, 2, ('length', 'projlen'), lambda s: [True] * len(s), rand=random.Random(3))
    t.bootstrap_exhaustive(2)
    for b in t.buckets:
        br, im = t.bucket_braids_images(b)
        assert np.array_equal(bs.evaluate_braids_of_same_length(rep, br), im)
    ''', 'reservoir sampling in a full bucket of capacity two or more', 'the image of the new braid goes to another slot')

bug('c17-count-late', 'C17', [(BS, """            self.bucket_reservoir_counts[bucket] += 1
            if len(self.bucket_braids[bucket]) == self.bucket_size:
                if self.rand is not None:
                    j""", """            if len(self.bucket_braids[bucket]) == self.bucket_size:
                self.bucket_reservoir_counts[bucket] += 1
                if self.rand is not None:
                    j""")], '''
    import random
    from peyl import braidsearch as bs
    from peyl import BraidGroup
    rep = bs.JonesSummand(4, 1, 0)
    t = bs.Tracker(rep, 2, ('length', 'projlen'), lambda s: [True] * len(s), rand=random.Random(3))
    t.bootstrap_exhaustive(2)
    B = BraidGroup(4)
    assert sum(t.bucket_reservoir_counts.values()) == B.count_all_of_garside_length(1) + B.count_all_of_garside_length(2)
    ''', 'a bucket that is offered a second braid before it is full', 'the count kept for the bucket is less than the number offered')
bug('c01-accepts-delta', 'C01', [(BR, "return len(factors) == 0 or (factors[0] != self.D and factors[-1] != self.id)", "return len(factors) == 0 or (factors[0] != self.D or len(factors) > 1) and factors[-1] != self.id")], '''
    from peyl.braid import GNF, DGNF, PermTable
    t = PermTable.create(4)
    x = next(f for f in range(t.order) if f not in (t.id, t.D))
    try:
        b = GNF(4, 0, (t.D, x))
    except AssertionError:
        b = None
    assert b is None, 'a braid whose first factor is the Garside element was accepted'
    ''', 'two or more factors, the first of them the Garside element (which counts as normal before every divisor)',
    'a braid whose first factor is the Garside element is accepted, so one braid has two normal forms')

bug('c01-comb-window', 'C01', [(BR, "            for j in range(i-1, -1, -1):\n                x, y = self.renorm[factors[j]][factors[j+1]]\n                if x == factors[j]:", "            for j in range(i-1, max(i-49, -1), -1):\n                x, y = self.renorm[factors[j]][factors[j+1]]\n                if x == factors[j]:")], '''
    from peyl import GNF
    import random
    r = random.Random(5)
    for k in range(20):
        x = GNF.sample(4, 120, r)
        assert x * x.inv() == GNF(4, 0, ())
    ''', 'a product whose renormalisation travels more than forty-eight places to the left',
    'the backward combing of a product stops after a fixed distance, so long products are refused or not in normal form')

bug('c11-trim-cancel', 'C11', [(PM, "while last > 0 and not np.any(A[..., last - 1]):", "while last > 0 and not np.sum(A[..., last - 1]):")], '''
    import numpy as np
    from peyl import polymat
    A = np.zeros((2, 2, 3), dtype=int)
    A[0, 0, 0] = 1
    A[0, 1, 2], A[1, 0, 2] = 1, -1
    assert np.array_equal(polymat.trim(A), A), 'trim threw away a nonzero term'
    ''', 'a matrix whose top coefficient matrix is nonzero while its entries add up to zero', 'trim (and packing, which trims) throws the top term away')

bug('c17-suffix-depth', 'C17', [(BS, "for i in range(1, length+1):\n                images = self.rep.mul(left, rights[i])", "for i in range(1, min(length, 3)+1):\n                images = self.rep.mul(left, rights[i])")], '''
    from peyl import braidsearch as bs
    from peyl import GNF
    rep = bs.JonesSummand(3, 1, 2)
    t = bs.Tracker(rep, 1000, ('length', 'projlen'), lambda s: [True] * len(s))
    t.bootstrap_exhaustive(1)
    for b in list(t.buckets):
        t.nf_descendants(b, 4)
    assert {k[0] for k in t.buckets} == {1, 2, 3, 4, 5}, t.buckets
    ''', 'descendants by suffixes of four or more factors', 'only the first three prefixes of every suffix are offered to the tracker')
