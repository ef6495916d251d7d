"""C05: permutations.  Oracle: functions on [0, n), inversions counted directly."""
import itertools, random
from rt import *
from peyl import permutations as P
from peyl.permutations import Permutation, SymmetricGroup


def invs(w):
    return sum(w[i] > w[j] for i in range(len(w)) for j in range(i + 1, len(w)))


def comp(x, y):
    return tuple(x[y[i]] for i in range(len(y)))


def inv(x):
    out = [None] * len(x)
    for i, v in enumerate(x):
        out[v] = i
    return tuple(out)


def is_perm(w):
    return sorted(w) == list(range(len(w)))


def cyc(w):
    out, seen = [], set()
    for i in range(len(w)):
        if i not in seen:
            c, j = [], i
            while j not in seen:
                seen.add(j)
                c.append(j)
                j = w[j]
            out.append(tuple(c))
    return out


def swap(n, i, j):
    l = list(range(n))
    l[i], l[j] = l[j], l[i]
    return tuple(l)


@contract
def perm_recognise(w):
    """is_permutation accepts exactly the permutations of [0, n)."""
    eq(bool(P.is_permutation(tuple(w))), is_perm(w), 'is_permutation', w)
    eq(bool(P.is_permutation(list(w))), is_perm(w), 'is_permutation (list)', w)
    if is_perm(w):
        Permutation(tuple(w))
    else:
        refuses((AssertionError, ValueError), lambda: Permutation(tuple(w)), 'Permutation', w)


@contract
def perm_unary(w):
    n, p = len(w), Permutation(tuple(w))
    for form in (tuple(w), list(w)):
        eq(P.inverse(form), inv(w), 'inverse', w)
        eq(P.length(form), invs(w), 'length', w)
        eq(list(P.disjoint_cycles(form)), cyc(w), 'cycles', w)
        eq(P.cycle_type(form), tuple(sorted(map(len, cyc(w)), reverse=True)), 'cycle type', w)
        eq(P.parity(form), invs(w) % 2, 'parity', w)
        eq(bool(P.is_identity(form)), list(w) == list(range(n)), 'is_identity', w)
        eq(bool(P.is_longest_element(form)), list(w) == list(range(n))[::-1], 'is_longest', w)
        R = {s for s in range(n - 1) if invs(comp(w, swap(n, s, s + 1))) < invs(w)}
        L = {s for s in range(n - 1) if invs(comp(swap(n, s, s + 1), w)) < invs(w)}
        eq(P.right_descent_set(form), R, 'right descents', w)
        eq(P.left_descent_set(form), L, 'left descents', w)
        for s in range(n - 1):
            eq((bool(P.is_right_descent(form, s)), bool(P.is_left_descent(form, s))), (s in R, s in L), 'descents', w, s)
        for s in (-1, n - 1):
            refuses((AssertionError, IndexError, ValueError), lambda: P.is_right_descent(form, s), 'descent out of range', s)
            refuses((AssertionError, IndexError, ValueError), lambda: P.is_left_descent(form, s), 'descent out of range', s)
        word = P.shortlex(form)
        # least reduced word: at each step the smallest left descent
        want, cur = [], tuple(w)
        while invs(cur):
            s = min(i for i in range(n - 1) if invs(comp(swap(n, i, i + 1), cur)) < invs(cur))
            want.append(s)
            cur = comp(swap(n, s, s + 1), cur)
        eq(word, tuple(want), 'shortlex', w)
        eq(P.from_cox(n, word), tuple(w), 'from_cox(shortlex)', w)
        desc = all(len(c) < 3 or list(c[1:]) == sorted(c[1:], reverse=True) for c in cyc(w))
        eq(bool(P.is_descending_cycles(form)), desc, 'descending cycles', w)
        cs = [sorted(c) for c in cyc(w)]
        cross = any(a < b < c < d or b < a < d < c for x, y in itertools.permutations(cs, 2) for a, c in itertools.combinations(x, 2)
                    for b, d in itertools.combinations(y, 2))
        eq(bool(P.is_parallel_descending_cycles(form)), desc and not cross, 'parallel descending cycles', w)
    eq(p.inv().word, inv(w), 'inv')
    eq((p.length(), p.disjoint_cycles(), p.cycle_type(), p.shortlex()), (invs(w), cyc(w), P.cycle_type(w), P.shortlex(w)), 'methods')
    eq(p.artin_word(), [(s, 1) for s in P.shortlex(w)], 'artin_word')
    eq((p.right_descent_set(), p.left_descent_set()), (P.right_descent_set(w), P.left_descent_set(w)), 'descent methods')
    eq(p.group(), SymmetricGroup(n), 'group')
    eq(p * p.inv(), Permutation(tuple(range(n))), 'p p^-1', w)
    eq(p.inv() * p, Permutation(tuple(range(n))), 'p^-1 p', w)
    p._repr_latex_()


@contract
def perm_product(x, y):
    if len(x) != len(y):
        refuses((ValueError,), lambda: P.compose(x, y), 'compose', x, y)
        refuses((ValueError,), lambda: Permutation(tuple(x)) * Permutation(tuple(y)), 'product', x, y)
        return
    eq(P.compose(list(x), list(y)), comp(x, y), 'compose', x, y)
    p = Permutation(tuple(x)) * Permutation(tuple(y))
    need(isinstance(p, Permutation), 'product', p)
    eq(p.word, comp(x, y), 'product', x, y)
    eq(Permutation(tuple(x)) == Permutation(tuple(y)), tuple(x) == tuple(y), 'equality')


@contract
def perm_words(n, seq):
    """from_cox: product of the adjacent transpositions, in order."""
    want = tuple(range(n))
    if not all(0 <= s < n - 1 for s in seq):
        return refuses((AssertionError, ValueError, IndexError), lambda: P.from_cox(n, seq), 'from_cox', n, seq)
    for s in seq:
        want = comp(want, swap(n, s, s + 1))
    eq(P.from_cox(n, seq), want, 'from_cox', n, seq)
    eq(SymmetricGroup(n).from_cox(seq).word, want, 'from_cox', n, seq)


@contract
def perm_constructions(n):
    G = SymmetricGroup(n)
    eq(P.identity(n), tuple(range(n)), 'identity')
    eq(P.longest_element(n), tuple(range(n))[::-1], 'longest')
    eq((G.id().word, G.longest_element().word), (P.identity(n), P.longest_element(n)), 'group elements')
    eq([g.word for g in G.cox_gens()], [swap(n, i, i + 1) for i in range(n - 1)], 'cox_gens')
    eq(sorted(g.word for g in G.reflections()), sorted(swap(n, i, j) for i, j in itertools.combinations(range(n), 2)), 'reflections')
    for i in range(n):
        for j in range(n):
            eq(P.transposition(n, i, j), swap(n, i, j), 'transposition', i, j)
        refuses((AssertionError, ValueError, IndexError), lambda: P.transposition(n, i, n), 'transposition', i, n)
        refuses((AssertionError, ValueError, IndexError), lambda: P.transposition(n, -1, i), 'transposition', -1, i)
    if n <= 6:
        els = [g.word for g in G.elements()]
        eq(sorted(els), sorted(itertools.permutations(range(n))), 'elements')


@contract
def perm_from_cycles(n, cycles):
    G = SymmetricGroup(n)
    want = tuple(range(n))
    for c in cycles:
        if len(set(c)) < len(c) or not all(0 <= x < n for x in c):
            return refuses((AssertionError, ValueError), lambda: G.from_cycle(c), 'from_cycle', n, c)
        m = {a: b for a, b in zip(c, tuple(c[1:]) + tuple(c[:1]))}
        one = tuple(m.get(i, i) for i in range(n))
        eq(G.from_cycle(c).word, one, 'from_cycle', n, c)
        want = comp(want, one)
    eq(G.from_cycles(cycles).word, want, 'from_cycles', n, cycles)


def run(ctx):
    ints = mined_ints('peyl/permutations.py')
    for n in range(0, 9):
        ctx.do(perm_constructions, n)
    for n in range(0, 5):
        for w in itertools.product(range(-1, n + 1), repeat=n):
            ctx.do(perm_recognise, w)
    for n in range(0, 7 if ctx.thorough else 6):
        for w in itertools.permutations(range(n)):
            ctx.do(perm_unary, w)
    for n in range(0, 5):
        for x in itertools.permutations(range(n)):
            for y in itertools.permutations(range(n)):
                ctx.do(perm_product, x, y)
    for n in range(0, 5):
        for l in range(0, 4):
            for s in itertools.product(range(-1, n), repeat=l):
                ctx.do(perm_words, n, s)

    def once(r):
        n = r.choice([3, 5, 6, 7, 8, 9, 12, r.choice([i for i in ints if 0 <= i <= 70] or [4])])
        w = list(range(n))
        r.shuffle(w)
        if r.random() < .2 and n:
            a = r.randrange(n)
            w = w[a:] + w[:a]
        v = list(range(n))
        r.shuffle(v)
        if n <= 14:
            ctx.do(perm_unary, tuple(w))
        ctx.do(perm_product, tuple(w), tuple(v))
        ctx.do(perm_product, tuple(w), tuple(range(r.randint(0, 6))))
        bad = list(w)
        if bad:
            bad[r.randrange(n)] = r.choice([r.randint(-1, n + 1), 0])
        ctx.do(perm_recognise, tuple(bad))
        ctx.do(perm_recognise, tuple(w))
        ctx.do(perm_words, n, tuple(r.randint(0, max(0, n - 2)) for _ in range(r.randint(0, 15))))
        cs = tuple(tuple(r.sample(range(n), r.randint(0, n))) for _ in range(r.randint(0, 3)))
        ctx.do(perm_from_cycles, n, cs)
        if n:
            ctx.do(perm_from_cycles, n, ((0, r.randint(-1, n)),))
    ctx.loop(5, once)
