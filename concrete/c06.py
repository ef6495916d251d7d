"""C06: noncrossing partitions.  Oracle: set partitions, crossing tested pairwise; the long cycle delta = (n-1, 0, 1, ..., n-2)."""
import itertools
from math import comb
from rt import *
from peyl.noncrossing import NPar, catalan, bkl_gen_to_artin_word, npar_component_to_artin_word, are_pairwise_disjoint
from peyl.permutations import Permutation
from peyl import tl
from c05 import comp, inv, invs, cyc


def crossing(blocks):
    return any(a < b < c < d or b < a < d < c for x, y in itertools.permutations(blocks, 2)
               for a, c in itertools.combinations(sorted(x), 2) for b, d in itertools.combinations(sorted(y), 2))


def delta(n):
    return tuple((i - 1) % n for i in range(n))


def perm_of(n, blocks):
    w = list(range(n))
    for b in blocks:
        b = sorted(b)
        for i, x in enumerate(b):
            w[x] = b[i - 1]
    return tuple(w)


def rank(w):
    """Length with respect to all transpositions."""
    return len(w) - len(cyc(w))


def full(n, blocks):
    seen = {x for b in blocks for x in b}
    return sorted(sorted(b) for b in [*map(list, (b for b in blocks if b)), *([i] for i in range(n) if i not in seen)])


@contract
def np_from_components(n, blocks):
    """Accepted exactly when the blocks are disjoint, in range and noncrossing."""
    flat = [x for b in blocks for x in b]
    ok = len(set(flat)) == len(flat) and all(0 <= x < n for x in flat) and not crossing([set(b) for b in blocks])
    eq(bool(are_pairwise_disjoint(blocks)), len(set(flat)) == len(flat), 'are_pairwise_disjoint', blocks)
    if not ok:
        return refuses((ValueError, AssertionError), lambda: NPar.from_components(n, blocks), 'from_components', n, blocks)
    p = NPar.from_components(n, blocks)
    check(p, n, full(n, blocks))


def check(p, n, blocks):
    """Everything the statement says about one partition with the given blocks (sorted list of sorted lists)."""
    eq(p.n, n, 'n')
    eq(sorted(map(list, p.components())), blocks, 'components')
    for c in p.components():
        need(list(c) == sorted(c), 'component not in order', c)
    w = p.to_permutation().word
    eq(w, perm_of(n, blocks), 'to_permutation', blocks)
    eq(NPar.from_permutation(p.to_permutation()), p, 'from_permutation(to_permutation)')
    eq(sorted(p.edges()), sorted(e for b in blocks for e in itertools.combinations(b, 2)), 'edges', blocks)
    d = delta(n)
    l, r = p.left_complement(), p.right_complement()
    lw, rw = l.to_permutation().word, r.to_permutation().word
    eq(comp(lw, w), d, 'left complement times partition', blocks)
    eq(comp(w, rw), d, 'partition times right complement', blocks)
    eq(rank(w) + rank(rw), max(n - 1, 0), 'rank of complement')
    eq((l.right_complement(), r.left_complement()), (p, p), 'complements are inverse')
    eq(NPar.from_components(n, p.components()), p, 'from_components(components)')
    # the word: product of transpositions along the word gives the permutation, and the braid is a divisor word
    cur = tuple(range(n))
    for i, e in p.artin_word():
        need(0 <= i < n - 1 and e in (1, -1), 'letter', (i, e))
        s = list(range(n))
        s[i], s[i + 1] = i + 1, i
        cur = comp(cur, tuple(s))
    eq(cur, w, 'permutation of the artin word', blocks)
    eq(sum(e for _, e in p.artin_word()), rank(w), 'exponent sum')
    repr(p), p._repr_latex_()


@contract
def np_from_permutation(w):
    """Accepted exactly when the permutation divides the long cycle in the absolute order."""
    n = len(w)
    d = delta(n)
    ok = rank(w) + rank(comp(inv(w), d)) == rank(d)
    if not ok:
        return refuses((ValueError,), lambda: NPar.from_permutation(Permutation(tuple(w))), 'from_permutation', w)
    p = NPar.from_permutation(Permutation(tuple(w)))
    eq(p.to_permutation().word, tuple(w), 'to_permutation(from_permutation)', w)


@contract
def np_enumerate(n):
    ps = list(NPar.all_of_size(n))
    eq(len(ps), comb(2 * n, n) // (n + 1), 'number', n)
    eq(catalan(n), comb(2 * n, n) // (n + 1), 'catalan', n)
    eq(len(set(ps)), len(ps), 'repeated partitions', n)
    for p in ps:
        blocks = sorted(map(list, p.components()))
        need(sorted(x for b in blocks for x in b) == list(range(n)) and not crossing(blocks), 'not a noncrossing partition', p)
        if n:
            check(p, n, blocks)
    need(NPar.finest(n) in ps and NPar.coarsest(n) in ps, 'finest and coarsest')
    eq(sorted(map(list, NPar.finest(n).components())), [[i] for i in range(n)], 'finest')
    eq(sorted(map(list, NPar.coarsest(n).components())), [list(range(n))] if n else [], 'coarsest')


@contract
def np_matching(n, seq):
    """NPar and is_crossingless_matching accept exactly the noncrossing perfect matchings."""
    N = len(seq)
    ok = all(0 <= x < N for x in seq) and all(seq[seq[i]] == i != seq[i] for i in range(N))
    ok = ok and not any(i < j < seq[i] < seq[j] for i in range(N) for j in range(N))
    eq(bool(tl.is_crossingless_matching(seq)), ok, 'is_crossingless_matching', seq)
    if ok and N == 2 * n:
        NPar(n, tuple(seq))
    else:
        refuses((AssertionError, ValueError), lambda: NPar(n, tuple(seq)), 'NPar', n, seq)


@contract
def np_bkl(s, t):
    """The word of the generator a_{st}, as documented."""
    lo_, hi_ = min(s, t), max(s, t)
    want = [] if s == t else [(i, 1) for i in range(hi_ - 1, lo_ - 1, -1)] + [(i, -1) for i in range(lo_ + 1, hi_)]
    eq(list(bkl_gen_to_artin_word(s, t)), want, 'bkl word', s, t)


@contract
def np_component_word(comp_):
    c = sorted(comp_)
    want = [l for a, b in reversed(list(zip(c, c[1:]))) for l in bkl_gen_to_artin_word(a, b)]
    eq(list(npar_component_to_artin_word(comp_)), want, 'word of component', comp_)


def partitions(n):
    """All set partitions of [0, n)."""
    if n == 0:
        yield []
        return
    for p in partitions(n - 1):
        yield p + [[n - 1]]
        for i in range(len(p)):
            yield p[:i] + [p[i] + [n - 1]] + p[i + 1:]


def run(ctx):
    for n in range(0, 8 if ctx.thorough else 7):
        ctx.do(np_enumerate, n)
    for n in range(0, 7 if ctx.thorough else 6):
        for p in partitions(n):
            ctx.do(np_from_components, n, p)
    for n in range(1, 7 if ctx.thorough else 6):
        for w in itertools.permutations(range(n)):
            ctx.do(np_from_permutation, w)
    for n in range(0, 3):
        for N in range(0, 5):
            for s in itertools.product(range(-1, N + 1), repeat=N):
                ctx.do(np_matching, n, s)
    for s in itertools.permutations(range(6)):
        ctx.do(np_matching, 3, s)
    for s in range(0, 7):
        for t in range(0, 7):
            ctx.do(np_bkl, s, t)

    def once(r):
        n = r.randint(1, 11)
        k = r.randint(1, 4)
        lab = [r.randrange(k) for _ in range(n)]
        blocks = [[i for i in range(n) if lab[i] == j] for j in range(k)]
        r.shuffle(blocks)
        for b in blocks:
            r.shuffle(b)
        ctx.do(np_from_components, n, blocks)
        # a noncrossing one: from a random matching
        def nc(items):
            if not items:
                return []
            x = items[0]
            block, rest, gaps = [x], [], []
            cur = []
            for y in items[1:]:
                if r.random() < .4:
                    gaps.append(cur)
                    cur = []
                    block.append(y)
                else:
                    cur.append(y)
            gaps.append(cur)
            return [block] + [b for g in gaps for b in nc(g)]
        good = nc(list(range(n)))
        r.shuffle(good)
        for b in good:
            r.shuffle(b)
        ctx.do(np_from_components, n, [b for b in good if len(b) > 1 or r.random() < .5])
        ctx.do(np_from_permutation, perm_of(n, good))
        ctx.do(np_component_word, r.sample(range(9), r.randint(0, 5)))
        bad = [list(b) for b in good]
        bad[r.randrange(len(bad))].append(r.randint(-1, n))
        ctx.do(np_from_components, n, bad)
        w = list(perm_of(n, good))
        i, j = r.randrange(n), r.randrange(n)
        w[i], w[j] = w[j], w[i]
        ctx.do(np_from_permutation, tuple(w))
    ctx.loop(5, once)
