"""C03: conversions.  Oracle: Lawrence-Krammer images of the words and of the objects."""
import itertools
from rt import *
import braidor as O
from c01 import CLS, good, mk
from c06 import perm_of, crossing
from peyl.braid import GNF, DGNF, BraidGroup
from peyl.permutations import Permutation
from peyl.noncrossing import NPar


@contract
def cv_read(kind, n, word):
    """Reading a word gives the normal form of the braid it spells (from any iterable)."""
    S = O.struct(kind, n)
    img = O.image(n, word)
    b = S.cls.from_artin_word(n, list(word))
    good(S, b, img, 'from_artin_word', kind, n, word)
    eq(S.cls.from_artin_word(n, iter(word)), b, 'from an iterator', word)


@contract
def cv_write(kind, n, x):
    """Writing a braid as a word spells it; reading it back gives the same object."""
    S = O.struct(kind, n)
    b = mk(S, x)
    img = S.image(*x)
    w = b.artin_word()
    need(all(0 <= i < n - 1 for i, _ in w), 'letters', w)
    need(O.same(O.image(n, w), img), 'artin_word of', x, 'is', w)
    eq(S.cls.from_artin_word(n, w), b, 'from_artin_word(artin_word)')
    m = b.magma_artin_word()
    need(all(v != 0 and abs(v) <= n - 1 for v in m), 'magma letters', m)
    need(O.same(O.image(n, [(abs(v) - 1, 1 if v > 0 else -1) for v in m]), img), 'magma word of', x)
    w.clear()
    need(O.same(O.image(n, b.artin_word()), img), 'artin_word is not a fresh list')
    eq(b.canonical_factors(), tuple(S.divs[f] for f in x[1]), 'canonical_factors')
    eq(b.canonical_decomposition(), (x[0], tuple(S.divs[f] for f in x[1])), 'canonical_decomposition')
    eq((b.canonical_length(), b.inf(), b.sup()), (len(x[1]), x[0], x[0] + len(x[1])), 'length, inf, sup')
    for i in range(-len(x[1]), len(x[1])):
        eq(b.canonical_factor(i), S.divs[x[1][i]], 'canonical_factor', i)
    if kind == 'GNF':
        eq(b.garside_length(), len(x[1]), 'garside_length')


@contract
def cv_other(kind, n, x):
    """The conversion to the other normal form preserves the braid, in both directions."""
    S = O.struct(kind, n)
    T = O.struct('DGNF' if kind == 'GNF' else 'GNF', n)
    b = mk(S, x)
    c = b.to_DGNF() if kind == 'GNF' else b.to_GNF()
    good(T, c, S.image(*x), 'conversion of', kind, x)
    eq(c.to_GNF() if kind == 'GNF' else c.to_DGNF(), b, 'there and back')


@contract
def cv_perm(w):
    n = len(w)
    S = O.struct('GNF', n)
    p = Permutation(tuple(w))
    img = O.image(n, O.perm_word(w))
    good(S, GNF.from_perm(p), img, 'from_perm', w)
    good(S, BraidGroup(n).positive_lift(p), img, 'positive_lift', w)
    refuses((ValueError,), lambda: BraidGroup(n + 1).positive_lift(p), 'positive_lift into another group')
    need(O.same(O.image(n, p.artin_word()), img), 'artin_word of permutation', w)


@contract
def cv_perms(n, ws):
    S = O.struct('GNF', n)
    img = O.image(n, [l for w in ws for l in O.perm_word(w)])
    good(S, GNF.from_perm_seq(n, [Permutation(tuple(w)) for w in ws]), img, 'from_perm_seq', ws)


@contract
def cv_pair(n, d, ws):
    S = O.struct('GNF', n)
    img = O.mul(S.image(d, ()), O.image(n, [l for w in ws for l in O.perm_word(w)]))
    good(S, BraidGroup(n).from_gnf_pair((d, tuple(tuple(w) for w in ws))), img, 'from_gnf_pair', d, ws)


@contract
def cv_npars(n, bs):
    S = O.struct('DGNF', n)
    ps = [NPar.from_components(n, b) for b in bs]
    img = O.image(n, [l for p in ps for l in O.npar_word(p.inv)])
    good(S, DGNF.from_npar_seq(n, ps), img, 'from_npar_seq', bs)
    for p in ps:
        im = O.image(n, O.npar_word(p.inv))
        good(S, DGNF.from_npar(p), im, 'from_npar', p)
        good(S, BraidGroup(n).from_npar(p), im, 'BraidGroup.from_npar', p)
        need(O.same(O.image(n, p.artin_word()), im), 'artin_word', p)
        refuses((ValueError,), lambda: BraidGroup(n + 1).from_npar(p), 'from_npar into another group')


@contract
def cv_gens(n):
    B = BraidGroup(n)
    for kind in CLS:
        S = O.struct(kind, n)
        g = CLS[kind].artin_gens(n)
        eq(len(g), n - 1, 'number of generators')
        for i, x in enumerate(g):
            good(S, x, O.image(n, [(i, 1)]), kind, 'generator', i)
        need(type(CLS[kind].identity(n)) is CLS[kind] and CLS[kind].identity(n).factors == () and CLS[kind].identity(n).power == 0, 'identity')
    S = O.struct('GNF', n)
    eq(len(B.gens()), n - 1, 'number of generators')
    for i, (x, y) in enumerate(zip(B.gens(), B.invs())):
        good(S, x, O.image(n, [(i, 1)]), 'generator', i)
        good(S, y, O.image(n, [(i, -1)]), 'inverse generator', i)
    good(S, B.id(), O.one(n), 'identity')
    S = O.struct('DGNF', n)
    for gens in (B.bkl_gens(), DGNF.bkl_gens(n)):
        eq(sorted(gens), sorted(itertools.product(range(n), repeat=2)), 'keys of the bkl generators')
        for (i, j), x in gens.items():
            a, b = min(i, j), max(i, j)
            word = [] if a == b else [(k, 1) for k in range(b - 1, a - 1, -1)] + [(k, -1) for k in range(a + 1, b)]
            good(S, x, O.image(n, word), 'bkl generator', i, j)


@contract
def cv_substring(kind, n, x, i, j):
    S = O.struct(kind, n)
    b = mk(S, x)
    if 0 <= i <= j <= len(x[1]):
        s = b.substring(i, j)
        eq((type(s), s.n, s.power, s.factors), (S.cls, n, x[0], tuple(x[1][i:j])), 'substring', x, i, j)
    else:
        refuses((AssertionError, ValueError, IndexError), lambda: b.substring(i, j), 'substring', x, i, j)


def rand_blocks(r, n):
    def nc(items):
        if not items:
            return []
        x, block, gaps, cur = items[0], [items[0]], [], []
        for y in items[1:]:
            if r.random() < .4:
                gaps.append(cur)
                cur = []
                block.append(y)
            else:
                cur.append(y)
        gaps.append(cur)
        return [block] + [b for g in gaps for b in nc(g)]
    return nc(list(range(n)))


def run(ctx):
    ints = [i for i in mined_ints('peyl/braid.py', 'peyl/noncrossing.py') if abs(i) < 40]
    for n in range(2, 6):
        ctx.do(cv_gens, n)
        for w in itertools.permutations(range(n)):
            ctx.do(cv_perm, w)
    ctx.do(cv_gens, 6)
    for kind in CLS:
        for n in (2, 3, 4):
            letters = [(i, e) for i in range(n - 1) for e in (-2, -1, 0, 1, 2)]
            for l in range(0, 4 if n < 4 else 3):
                for w in itertools.product(letters, repeat=l):
                    ctx.do(cv_read, kind, n, w)
            S = O.struct(kind, n)
            for f in range(S.N):
                fs = () if f in (S.id, S.D) else (f,)
                for p in (-3, -2, -1, 0, 1, 2):
                    ctx.do(cv_write, kind, n, (p, fs))
                    ctx.do(cv_other, kind, n, (p, fs))

    def once(r):
        kind = r.choice(['GNF', 'DGNF'])
        n = r.choice([2, 3, 3, 4, 4, 5] + ([6] if kind == 'DGNF' else []))
        S = O.struct(kind, n)
        word = tuple((r.randrange(n - 1), r.choice([1, -1, 1, -1, 2, -2, 3, -3, 0, r.randint(-7, 7), r.choice(ints)])) for _ in range(r.choice([1, 2, 3, 5, 8, 12])))
        ctx.do(cv_read, kind, n, word)
        x = (r.choice([0, 1, -1, 2, -2, r.randint(-8, 8)]), S.rand_nf(r, r.choice([0, 1, 2, 3, 5, r.randint(0, 10)])))
        ctx.do(cv_write, kind, n, x)
        if n <= 5:
            ctx.do(cv_other, kind, n, x)
        m = len(x[1])
        ctx.do(cv_substring, kind, n, x, r.randint(-1, m + 1), r.randint(-1, m + 1))
        k = r.choice([3, 4, 5])
        ws = tuple(tuple(r.sample(range(k), k)) if r.random() < .8 else r.choice([tuple(range(k)), tuple(range(k))[::-1]]) for _ in range(r.randint(0, 5)))
        ctx.do(cv_perms, k, ws)
        ctx.do(cv_pair, k, r.randint(-4, 4), ws)
        k = r.choice([2, 3, 4, 5, 6])
        ctx.do(cv_npars, k, [rand_blocks(r, k) for _ in range(r.randint(0, 4))])
        k = r.choice([2, 3, 4, 5])
        ctx.do(cv_perm, tuple(r.sample(range(k), k)))
    ctx.loop(14, once)
