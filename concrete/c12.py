"""C12: every shipped representation is a representation of the braid group.  Oracle: repor (diagrams, Kronecker
products) and braidor (words)."""
import functools, itertools
import numpy as np
from rt import *
import braidor as O
import repor as R
from c01 import CLS, mk
from peyl import polymat, jonesrep
from peyl.braid import GNF, DGNF, BraidGroup
from peyl.matrix import Matrix
from peyl.permutations import Permutation, SymmetricGroup
from peyl.noncrossing import NPar

prod = lambda ms: functools.reduce(lambda a, b: a * b, ms)


def same_mod(got, want, p, *what):
    eq(R.reduce(got, p), R.reduce(want, p), *what)


@contract
def rep_relations(desc):
    """The matrices given for the generators satisfy the braid relations and the inverses are inverse."""
    rep = R.make(desc)
    n, p, d = rep.n, rep.p, rep.dimension()
    g, h = rep.artin_gens_invs()
    eq((len(g), len(h)), (n - 1, n - 1), 'number of generators', desc)
    one = {(i, i): {0: 1} for i in range(d)}
    if d:
        eq(R.entries(rep.id()), {k: one.get(k, {}) for k in itertools.product(range(d), repeat=2)}, 'identity', desc)
    for m in g + h:
        eq((m.nrows, m.ncols), (d, d), 'shape', desc)
    if desc[0] == 'jones':
        eq(d, len(R.cell_diagrams(n, rep.r)), 'dimension', desc)
        gs, hs = R.jones_gens(n, rep.r)
        for i in range(n - 1):
            same_mod(R.entries(g[i]), gs[i], p, 'generator', i, 'of', desc)
            same_mod(R.entries(h[i]), hs[i], p, 'inverse generator', i, 'of', desc)
    K = lambda m: R.KMat.of(d, R.entries(m))
    G, H = [K(m) for m in g], [K(m) for m in h]
    for i in range(n - 1):
        same_mod((G[i] * H[i]).entries(), one, p, 'generator times inverse', i, desc)
        same_mod((H[i] * G[i]).entries(), one, p, 'inverse times generator', i, desc)
        for j in range(i + 1, n - 1):
            if j == i + 1:
                same_mod((G[i] * G[j] * G[i]).entries(), (G[j] * G[i] * G[j]).entries(), p, 'braid relation', i, j, desc)
            else:
                same_mod((G[i] * G[j]).entries(), (G[j] * G[i]).entries(), p, 'commutation', i, j, desc)


@contract
def rep_packed_gens(desc):
    """The packed generators are the generators up to a power of v."""
    rep = R.make(desc)
    orc = R.oracle(desc)
    g, h = rep.polymat_artin_gens_invs() if desc[0] != 'summand' else rep.artin_gens_invs()
    eq((len(g), len(h)), (rep.n - 1, rep.n - 1), 'number of packed generators')
    for a, ms in ((g, orc.g), (h, orc.h)):
        for i, m in enumerate(ms):
            eq(R.norm(R.packed(a[i]), rep.p), R.norm(m.entries(), rep.p), 'packed generator', i, desc)


@contract
def rep_word(desc, word):
    rep, orc = R.make(desc), R.oracle(desc)
    got = rep.evaluate_artin_word(word)
    want = orc.word(word).entries()
    same_mod(R.entries(got), want, rep.p, 'evaluate_artin_word', desc, word)
    if rep.p:
        need(all(0 <= c < rep.p for q in R.entries(got).values() for c in q.values()), 'not reduced modulo p', desc, word)
    a = rep.polymat_evaluate_artin_word(word)
    eq(R.norm(R.packed(a), rep.p), R.norm(want, rep.p), 'polymat_evaluate_artin_word', desc, word)


@contract
def rep_braid(desc, kind, x):
    rep, orc, S = R.make(desc), R.oracle(desc), O.struct(kind, desc[1])
    want = orc.braid(S, x)
    b = mk(S, x)
    same_mod(R.entries(rep.evaluate(b)), want, rep.p, 'evaluate', desc, kind, x)
    eq(R.norm(R.packed(rep.polymat_evaluate(b)), rep.p), R.norm(want, rep.p), 'polymat_evaluate', desc, kind, x)
    if desc[1] <= 5:
        c = b.to_DGNF() if kind == 'GNF' else b.to_GNF()
        same_mod(R.entries(rep.evaluate(c)), want, rep.p, 'evaluate after conversion', desc, kind, x)


@contract
def rep_mult(desc, kind, x, y):
    rep, S = R.make(desc), O.struct(kind, desc[1])
    a, b = mk(S, x), mk(S, y)
    d = rep.dimension()
    K = lambda m: R.KMat.of(d, R.entries(m))
    same_mod(R.entries(rep.evaluate(a * b)), (K(rep.evaluate(a)) * K(rep.evaluate(b))).entries(), rep.p, 'multiplicativity', desc, x, y)
    same_mod((K(rep.evaluate(a)) * K(rep.evaluate(a.inv()))).entries(), {(i, i): {0: 1} for i in range(d)}, rep.p, 'inverse', desc, x)


@contract
def rep_divisor(desc, kind, f):
    """Permutations and noncrossing partitions are evaluated as their positive lifts."""
    rep, orc, S = R.make(desc), R.oracle(desc), O.struct(kind, desc[1])
    want = orc.divisor(S, f).entries()
    same_mod(R.entries(rep.evaluate(S.divs[f])), want, rep.p, 'evaluate divisor', desc, kind, f)
    eq(R.norm(R.packed(rep.polymat_evaluate(S.divs[f])), rep.p), R.norm(want, rep.p), 'polymat_evaluate divisor', desc, kind, f)


@contract
def rep_burau(n):
    """polymat.burau_generator_v2: braid relations, and sigma_i differs from 1 in row i only, with -v^2 on the diagonal."""
    d = n - 1
    G = []
    for s in range(n - 1):
        a = polymat.burau_generator_v2(n, s)
        eq(a.shape[:2], (d, d), 'shape')
        e = R.packed(a)
        for i in range(d):
            for j in range(d):
                if i != s:
                    eq(e.get((i, j), {}), {0: 1} if i == j else {}, 'entry', i, j, 'of generator', s, n)
        eq(e[s, s], {2: -1}, 'diagonal entry: the determinant is -v^2', s, n)
        G.append(R.KMat.of(d, e))
    for i, j in itertools.combinations(range(n - 1), 2):
        if j == i + 1:
            eq((G[i] * G[j] * G[i]).entries(), (G[j] * G[i] * G[j]).entries(), 'braid relation', i, n)
        else:
            eq((G[i] * G[j]).entries(), (G[j] * G[i]).entries(), 'commutation', i, j, n)
    for s in (-1, n - 1):
        refuses((AssertionError, ValueError), lambda: polymat.burau_generator_v2(n, s), 'generator index', s, n)


@contract
def rep_tl(n):
    """The images in the Temperley-Lieb algebra."""
    import c07
    from peyl import braidsearch
    for mod in (jonesrep, braidsearch):
        g, h = mod.tl_gens_invs(n)
        eq((len(g), len(h)), (n - 1, n - 1), 'number')
        one = c07.ident(n)
        gs = []
        for i in range(n - 1):
            eq(c07.UM(g[i]), (n, n, {one: {0: 1}, c07.gen(i, n): {1: -1}}), mod.__name__, 'sigma', i, n)
            eq(c07.UM(h[i]), (n, n, {one: {0: 1}, c07.gen(i, n): {-1: -1}}), mod.__name__, 'sigma^-1', i, n)
            gs.append(c07.UM(g[i])[2])
        m = c07.mmul
        for i, j in itertools.combinations(range(n - 1), 2):
            if j == i + 1:
                eq(m(m(gs[i], gs[j]), gs[i]), m(m(gs[j], gs[i]), gs[j]), 'braid relation', i, n)
            else:
                eq(m(gs[i], gs[j]), m(gs[j], gs[i]), 'commutation', i, j, n)


def reps(n, ps=(0,)):
    out = [('jones', n, r, p) for p in ps for r in range(n // 2 + 1)]
    for p in ps:
        out += [('lkb', n, p, q, t) for q, t in [((1, 1), (5, 1)), ((7, 1), (5, 1)), ((1, -1), (3, 1)), ((-1, 1), (-4, -1)), ((2, 1), (0, 1)), ((0, -1), (1, 1))]]
    return out


def run(ctx):
    r = ctx.rng
    for n in range(2, 8):
        for desc in reps(n, (0, 2, 3, 5, 7, 97)[:(6 if n <= 5 else 2)]):
            if n <= 6 or desc[0] == 'jones':
                ctx.do(rep_relations, desc)
            if n <= 5:
                ctx.do(rep_packed_gens, desc)
        for rr in range(n // 2 + 1):
            for p in (0, 2, 5):
                if n <= 6:
                    ctx.do(rep_packed_gens, ('summand', n, rr, p))
        ctx.do(rep_tl, n)
    ctx.do(rep_relations, ('jones', 8, 1, 0))
    ctx.do(rep_relations, ('jones', 9, 1, 3))
    for n in range(2, 13):
        ctx.do(rep_burau, n)
    for n in (2, 3, 4):
        for desc in reps(n, (0, 3)):
            ctx.do(rep_word, desc, ())
            for kind in CLS:
                S = O.struct(kind, n)
                for f in range(S.N):
                    if n <= 3 or desc[0] == 'jones' and desc[3] == 0:
                        ctx.do(rep_divisor, desc, kind, f)
    ALL = [d for n in (2, 3, 4, 5) for d in reps(n, (0, 2, 3, 5, 7)) if not (n == 5 and d[0] == 'lkb')] * 3 + [d for d in reps(5, (0, 3)) if d[0] == 'lkb']

    def once(r):
        desc = r.choice(ALL)
        n = desc[1]
        S = O.struct(r.choice(['GNF', 'DGNF']), n)
        w = [(r.randrange(n - 1), r.choice([1, -1, 0, 2, -2, 3, -3, r.randint(-5, 5)])) for _ in range(r.choice([0, 1, 2, 3, 6]))]
        ctx.do(rep_word, desc, tuple(w))
        i = r.randrange(n - 1)
        ctx.do(rep_word, desc, ((r.randrange(n - 1), r.choice([1, -1])), (i, r.choice([6, 7, 8, 9, -8, -9, 12, -17, 20, r.randint(-40, 40)])), (r.randrange(n - 1), -1)))
        x = (r.choice([0, 1, -1, 2, -3, r.randint(-7, 7)]), S.rand_nf(r, r.choice([0, 1, 2, 3, 5])))
        y = (r.choice([0, 1, -1, 2, -3]), S.rand_nf(r, r.choice([0, 1, 2, 3])))
        ctx.do(rep_braid, desc, S.kind, x)
        ctx.do(rep_mult, desc, S.kind, x, y)
        ctx.do(rep_divisor, desc, S.kind, r.randrange(S.N))
    ctx.loop(10, once)
