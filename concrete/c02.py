"""C02: the Garside tables.  Every entry of the real tables is compared with the definition, for each strand count in
range.  Products of divisors are decided in the (finite) monoid exactly: x y = w z with x <= w holds iff z = u^-1 y and
w = x u for a divisor u with lengths adding up."""
import itertools
from math import comb, factorial
import numpy as np
from rt import *
import braidor as O
from c05 import comp, inv, invs, cyc
from c06 import perm_of, delta, rank


def words(S):
    if S.kind == 'GNF':
        return [tuple(d.word) for d in S.divs]
    return [perm_of(S.n, O.blocks_of(d.inv)) for d in S.divs]


@contract
def table_complete(kind, n):
    S = O.struct(kind, n)
    t = S.table
    ws = words(S)
    eq(t.n, n, 'n')
    eq((t.order, len(t.divs)), (S.N, S.N), 'order')
    if kind == 'GNF':
        eq(S.N, factorial(n), 'number of divisors')
        eq(sorted(ws), sorted(itertools.permutations(range(n))), 'divisors')
    else:
        eq(S.N, comb(2 * n, n) // (n + 1), 'number of divisors')
        eq(len(set(ws)), S.N, 'divisors are distinct')
        for w in ws:
            need(rank(w) + rank(comp(inv(w), delta(n))) == n - 1, 'not a divisor of delta', w)
    for i, d in enumerate(t.divs):
        eq(t.index[d], i, 'index of', d)
    eq(len(t.index), S.N, 'size of index')
    eq(ws[t.id], tuple(range(n)), 'identity')
    eq(ws[t.D], tuple(range(n))[::-1] if kind == 'GNF' else delta(n), 'Garside element')
    eq(len(t.artin_gens), n - 1, 'number of generators')
    sw = [tuple(i + 1 if j == i else i if j == i + 1 else j for j in range(n)) for i in range(n - 1)]
    eq([ws[g] for g in t.artin_gens], sw, 'generators')
    if kind == 'DGNF':
        eq(sorted(t.bkl_gens), sorted(itertools.combinations(range(n), 2)), 'bkl generators')
        for (i, j), g in t.bkl_gens.items():
            eq(ws[g], tuple(j if k == i else i if k == j else k for k in range(n)), 'bkl generator', (i, j))


@contract
def table_complements(kind, n):
    """*x x = x x* = D, in the braid group."""
    S = O.struct(kind, n)
    t, ws = S.table, words(S)
    L = invs if kind == 'GNF' else rank
    D = ws[t.D]
    eq((len(t.left_comp), len(t.right_comp)), (S.N, S.N), 'size')
    for x in range(S.N):
        l, r = t.left_comp[x], t.right_comp[x]
        need(0 <= l < S.N and 0 <= r < S.N, 'complement out of range', x)
        eq(comp(ws[l], ws[x]), D, 'left complement of', ws[x])
        eq(comp(ws[x], ws[r]), D, 'right complement of', ws[x])
        need(L(ws[l]) + L(ws[x]) == L(D) == L(ws[x]) + L(ws[r]), 'lengths of complements', ws[x])


@contract
def table_tau(kind, n):
    """tau tables are conjugation by powers of D: by images in the braid group, and of the right order."""
    S = O.struct(kind, n)
    t = S.table
    k = t.tau_order
    need(k >= 1 and len(t.tau_left) == k and len(t.tau_right) == k, 'size of the tau tables')
    Dk = O.mpow(n, S.Dimg, k)
    for g in O.gens(n)[0]:
        need(O.same(O.mul(Dk, g), O.mul(g, Dk)), 'D to the tau order is not central', k)
    for i in range(k):
        need(len(t.tau_left[i]) == S.N and len(t.tau_right[i]) == S.N, 'size of tau', i)
        Di = O.mpow(n, S.Dimg, i)
        for x in range(S.N):
            y, z = t.tau_left[i][x], t.tau_right[i][x]
            need(0 <= y < S.N and 0 <= z < S.N, 'tau out of range', i, x)
            need(O.same(O.mul(S.dimg(y), Di), O.mul(Di, S.dimg(x))), 'tau_left', i, x)
            need(O.same(O.mul(Di, S.dimg(z)), O.mul(S.dimg(x), Di)), 'tau_right', i, x)


@contract
def table_renorm(kind, n):
    """renorm preserves the product and left-weights the pair; is_normalised and follows record left-weightedness."""
    S = O.struct(kind, n)
    t, ws = S.table, words(S)
    N = S.N
    L = invs if kind == 'GNF' else rank
    W = np.array(ws, dtype=np.int8).reshape(N, n)
    iv = np.array([inv(w) for w in ws], dtype=np.int8).reshape(N, n)
    le = np.array([L(w) for w in ws])
    code = {w: i for i, w in enumerate(ws)}
    powers = np.array([n ** i for i in range(n)], dtype=np.int64)
    keys = (W.astype(np.int64) * powers).sum(axis=1)
    order = np.argsort(keys)
    def index(P):       # array of words -> indices, -1 if not a divisor
        k = (P.astype(np.int64) * powers).sum(axis=-1)
        p = np.clip(np.searchsorted(keys[order], k), 0, N - 1)
        return np.where(keys[order][p] == k, order[p], -1)
    atoms = sorted(set().union(*[r | l for r, l in S.lw]), key=str)
    a = {x: i for i, x in enumerate(atoms)}
    free = np.array([sum(1 << a[x] for x in r) for r, _ in S.lw], dtype=np.int64)
    left = np.array([sum(1 << a[x] for x in l) for _, l in S.lw], dtype=np.int64)
    eq((len(t.renorm), len(t.is_normalised), len(t.follows)), (N, N, N), 'size')
    for x in range(N):
        need(len(t.renorm[x]) == N and len(t.is_normalised[x]) == N, 'size of row', x)
        wz = np.array(t.renorm[x])
        w, z = wz[:, 0], wz[:, 1]
        need(((0 <= wz) & (wz < N)).all(), 'renorm out of range', x)
        u = index(iv[x][W[w]])                  # u = x^-1 w
        zu = index(W[u[:, None], W[z]] if False else np.take_along_axis(W[np.maximum(u, 0)], W[z].astype(np.int64), axis=1))
        ok = (u >= 0) & (le[np.maximum(u, 0)] + le[x] == le[w]) & (zu == np.arange(N)) & (le[np.maximum(u, 0)] + le[z] == le)
        need(ok.all(), 'renorm does not preserve the product:', ws[x], [ws[y] for y in np.nonzero(~ok)[0][:1]],
             [(ws[w[y]], ws[z[y]]) for y in np.nonzero(~ok)[0][:1]])
        lw = (free[w] & left[z]) == 0
        need(lw.all(), 'renorm does not left-weight:', ws[x], [ws[y] for y in np.nonzero(~lw)[0][:1]])
        isn = (free[x] & left) == 0
        bad = np.nonzero(np.array(t.is_normalised[x], dtype=bool) != isn)[0]
        need(not len(bad), 'is_normalised wrong at', ws[x], [ws[y] for y in bad[:1]])
        want = [int(y) for y in np.nonzero(isn)[0] if y not in (S.id, S.D)]
        eq(sorted(t.follows[x]), want, 'follows', ws[x])


@contract
def table_words(kind, n):
    S = O.struct(kind, n)
    eq(len(S.table.artin_word), S.N, 'size')
    for x in range(S.N):
        w = S.table.artin_word[x]
        need(all(0 <= i < n - 1 and e in (1, -1) for i, e in w), 'letters of', x, w)
        need(O.same(O.image(n, w), S.dimg(x)), 'word of divisor', S.divs[x], w)


@contract
def table_refuses(kind, n):
    from peyl.braid import PermTable, NParTable
    refuses((ValueError,), lambda: (PermTable if kind == 'GNF' else NParTable).create(n), kind, n)


def run(ctx):
    from peyl.braid import PermTable, NParTable
    global LIMIT
    import rt
    rt.LIMIT = 800
    for n in (7, 8, 12):
        ctx.do(table_refuses, 'GNF', n)
    for n in (10, 12):
        ctx.do(table_refuses, 'DGNF', n)
    for kind, top in (('GNF', 6), ('DGNF', 8 if ctx.thorough else 6)):
        for n in range(2, top + 1):
            for f in (table_complete, table_complements, table_tau, table_renorm, table_words):
                ctx.do(f, kind, n)
            S = O.struct(kind, n)
            ctx.entries = getattr(ctx, 'entries', 0) + S.N * S.N
