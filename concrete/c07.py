"""C07: Temperley-Lieb diagrams.  Oracle: gluing as connected components of a graph; morphisms as dicts of dicts."""
import functools, itertools, math
from rt import *
from peyl import tl
from peyl.lpoly import LPoly


# ---- the mathematical side: a diagram is (top, bot, tuple of partners), a morphism a dict diagram -> {exponent: coeff}
def crossingless(seq):
    n = len(seq)
    if not all(type(s) is int and 0 <= s < n and s != i and seq[s] == i for i, s in enumerate(seq)):
        return False
    arcs = [(i, s) for i, s in enumerate(seq) if i < s]
    return not any(a < c < b < d for a, b in arcs for c, d in arcs)


def glue(x, y):
    """x on top of y."""
    (xt, xb, xs), (yt, yb, ys) = x, y
    assert xb == yt
    # nodes: ('b', i) bottom of y, ('m', i) middle from the left, ('t', i) top of x from the left
    up = lambda i: ('m', i) if i < xb else ('t', xt - 1 - (i - xb))
    lo = lambda i: ('b', i) if i < yb else ('m', yt - 1 - (i - yb))
    adj = {}
    for f, s in ((up, xs), (lo, ys)):
        for i, j in enumerate(s):
            adj.setdefault(f(i), []).append(f(j))
    res = [None] * (yb + xt)
    name = lambda v: v[1] if v[0] == 'b' else yb + xt - 1 - v[1]
    seen, loops = set(), 0
    starts = [v for v in adj if v[0] != 'm'] + [v for v in adj if v[0] == 'm']
    for v in starts:
        if v in seen:
            continue
        comp, stack = [], [v]
        seen.add(v)
        while stack:
            u = stack.pop()
            comp.append(u)
            for w in adj[u]:
                if w not in seen:
                    seen.add(w)
                    stack.append(w)
        ends = [u for u in comp if u[0] != 'm']
        if ends:
            a, b = map(name, ends)
            res[a], res[b] = b, a
        else:
            loops += 1
    return (xt, yb, tuple(res)), loops


def beside(x, y):
    """x to the left of y."""
    (xt, xb, xs), (yt, yb, ys) = x, y
    T, Bt = xt + yt, xb + yb
    pos = lambda i, t, b: ('b', i) if i < b else ('t', t - 1 - (i - b))
    name = lambda v: v[1] if v[0] == 'b' else Bt + T - 1 - v[1]
    res = [None] * (T + Bt)
    for (t, b, s, db, dt) in ((xt, xb, xs, 0, 0), (yt, yb, ys, xb, xt)):
        mv = lambda i: name((lambda v: (v[0], v[1] + (db if v[0] == 'b' else dt)))(pos(i, t, b)))
        for i, j in enumerate(s):
            res[mv(i)] = mv(j)
    return (T, Bt, tuple(res))


def upside(x):
    t, b, s = x
    N = t + b
    res = [None] * N
    for i, j in enumerate(s):
        res[N - 1 - i] = N - 1 - j
    return (b, t, tuple(res))


def through(x):
    t, b, s = x
    return sum(1 for i in range(b) if s[i] >= b)


def ident(n):
    return (n, n, tuple(2 * n - 1 - i for i in range(2 * n)))


def gen(i, n):
    s = list(ident(n)[2])
    s[i], s[i + 1] = i + 1, i
    a, b = 2 * n - 1 - i, 2 * n - 2 - i
    s[a], s[b] = b, a
    return (n, n, tuple(s))


def padd(a, b):
    r = dict(a)
    for e, c in b.items():
        r[e] = r.get(e, 0) + c
        if not r[e]:
            del r[e]
    return r


def pmul(a, b):
    r = {}
    for e, c in a.items():
        for f, d in b.items():
            r[e + f] = r.get(e + f, 0) + c * d
    return {e: c for e, c in r.items() if c}


def ppow(a, k):
    r = {0: 1}
    for _ in range(k):
        r = pmul(r, a)
    return r


TWO = {1: 1, -1: 1}


def madd(a, b):
    r = dict(a)
    for d, c in b.items():
        r[d] = padd(r.get(d, {}), c)
    return {d: c for d, c in r.items() if c}


def mmul(a, b):
    r = {}
    for x, c in a.items():
        for y, d in b.items():
            z, k = glue(x, y)
            r[z] = padd(r.get(z, {}), pmul(pmul(c, d), ppow(TWO, k)))
    return {d: c for d, c in r.items() if c}


# ---- the library side
def D(x):
    return tl.TLDiag(*x)


def U(d):
    need(type(d) is tl.TLDiag and type(d.seq) is tuple and d.top + d.bot == len(d.seq), 'diagram', d)
    need(crossingless(d.seq), 'crossing or malformed diagram', d)
    return (d.top, d.bot, d.seq)


def L(p):
    if not p:
        return LPoly(0, ())
    lo, hi = min(p), max(p)
    return LPoly(lo, tuple(p.get(e, 0) for e in range(lo, hi + 1)))


def P(x):
    if isinstance(x, int):
        return {0: x} if x else {}
    need(type(x) is LPoly, 'coefficient', x)
    need((not x.coeffs and x.val == 0) or (x.coeffs and x.coeffs[0] != 0 and x.coeffs[-1] != 0), 'coefficient not canonical', repr(x))
    return {x.val + i: c for i, c in enumerate(x.coeffs) if c}


def M(m):
    top, bot, terms = m
    return tl.TLMor(top, bot, {D(d): L(c) for d, c in terms.items()})


def UM(x):
    need(type(x) is tl.TLMor, 'not a morphism', x)
    out = {}
    for d, c in x.terms.items():
        u = U(d)
        need((u[0], u[1]) == (x.top, x.bot), 'type of term', u)
        need(u not in out, 'diagram repeated')
        p = P(c)
        need(p, 'zero coefficient stored for', u)
        out[u] = p
    return (x.top, x.bot, out)


def ms(m):       # morphism from replay data
    return (m[0], m[1], {k: dict(v) for k, v in m[2].items() if v})


# ---- contracts
@contract
def tl_matching(seq):
    want = crossingless(seq)
    eq(bool(tl.is_crossingless_matching(seq)), want, 'is_crossingless_matching', seq)
    for bot in (0, len(seq) // 2, len(seq)):
        if want:
            d = tl.TLDiag(len(seq) - bot, bot, list(seq))
            eq(U(d), (len(seq) - bot, bot, tuple(seq)), 'TLDiag')
            e = tl.TLExtDiag(len(seq) - bot, bot, list(seq))
            eq((e.top, e.bot, e.seq, e.bubbles), (len(seq) - bot, bot, tuple(seq), 0), 'TLExtDiag')
        else:
            refuses((AssertionError, ValueError), lambda: tl.TLDiag(len(seq) - bot, bot, seq), 'TLDiag', seq)
            refuses((AssertionError, ValueError), lambda: tl.TLExtDiag(len(seq) - bot, bot, seq), 'TLExtDiag', seq)


@contract
def tl_shape(top, bot, seq):
    if top >= 0 and bot >= 0 and top + bot == len(seq) and crossingless(seq):
        return 'trivial'
    refuses((AssertionError, ValueError), lambda: tl.TLDiag(top, bot, seq), 'TLDiag', top, bot, seq)


@contract
def tl_compose(x, y):
    z, k = glue(x, y)
    need(crossingless(z[2]), 'oracle')
    seq, bub = tl.compose(x[2], y[2], x[1])
    eq((tuple(seq), bub), (z[2], k), 'compose', x, y)
    seq, bub = tl.compose(list(x[2]), list(y[2]), x[1])
    eq((tuple(seq), bub), (z[2], k), 'compose of lists', x, y)
    d, bub = D(x) * D(y)
    eq((U(d), bub), (z, k), 'TLDiag product', x, y)
    a, b = tl.TLExtDiag(*x, 2), tl.TLExtDiag(*y, 3)
    e = a * b
    eq((e.top, e.bot, e.seq, e.bubbles), (*z, k + 5), 'TLExtDiag product', x, y)
    f, m = e.split_bubbles()
    eq((f.top, f.bot, f.seq, f.bubbles, m), (*z, 0, k + 5), 'split_bubbles')
    g = e.add_bubbles(4)
    eq((g.seq, g.bubbles, e.bubbles), (z[2], k + 9, k + 5), 'add_bubbles')
    w, k2 = D(y).flip() * D(x).flip()
    eq((U(w), k2), (upside(z), k), 'flip reverses composition', x, y)
    eq(UM(tl.TLMor.from_tldiag(D(x)) * D(y)), (z[0], z[1], {z: ppow(TWO, k)}), 'TLMor * TLDiag')
    i, k3 = tl.TLDiag.id(x[0]) * D(x)
    eq((U(i), k3), (x, 0), 'identity on the left')
    i, k3 = D(x) * tl.TLDiag.id(x[1])
    eq((U(i), k3), (x, 0), 'identity on the right')


@contract
def tl_assoc(x, y, z):
    a, k = D(x) * D(y)
    a, k2 = a * D(z)
    b, l = D(y) * D(z)
    b, l2 = D(x) * b
    eq((U(a), k + k2), (U(b), l + l2), 'associativity', x, y, z)


@contract
def tl_tensor(x, y):
    z = beside(x, y)
    eq(U(D(x) @ D(y)), z, 'TLDiag tensor', x, y)
    e = tl.TLExtDiag(*x, 1) @ tl.TLExtDiag(*y, 4)
    eq((e.top, e.bot, e.seq, e.bubbles), (*z, 5), 'TLExtDiag tensor', x, y)


@contract
def tl_interchange(x, y, x2, y2):
    """(x beside x2) over (y beside y2) = (x over y) beside (x2 over y2)."""
    a, k = (D(x) @ D(x2)) * (D(y) @ D(y2))
    b, l = D(x) * D(y)
    c, m = D(x2) * D(y2)
    eq((U(a), k), (U(b @ c), l + m), 'interchange', x, y, x2, y2)


@contract
def tl_unary(x):
    d = D(x)
    eq(U(d.flip()), upside(x), 'flip', x)
    eq(U(d.flip().flip()), x, 'double flip', x)
    eq(tl.through_strands(d), through(x), 'through_strands', x)
    n = len(x[2])
    cups = (n, 0, tuple(reversed(range(n))))
    eq(tl.trace_count(x[2]), glue((0, n, x[2]), (n, 0, tuple(reversed(range(n)))))[1], 'trace_count', x)
    eq(U(D(x)), x, 'kept')
    need(d == D(x) and hash(d) == hash(D(x)), 'equality')


@contract
def tl_mismatch(x, y):
    if x[1] == y[0]:
        return 'trivial'
    refuses((ValueError, AssertionError), lambda: D(x) * D(y), 'TLDiag product', x, y)
    refuses((ValueError, AssertionError), lambda: tl.TLExtDiag(*x) * tl.TLExtDiag(*y), 'TLExtDiag product', x, y)
    refuses((ValueError, AssertionError), lambda: tl.TLMor.from_tldiag(D(x)) * tl.TLMor.from_tldiag(D(y)), 'TLMor product', x, y)
    if x[:2] != y[:2]:
        refuses((ValueError, AssertionError), lambda: tl.TLMor.from_tldiag(D(x)) + tl.TLMor.from_tldiag(D(y)), 'TLMor sum', x, y)
        refuses((ValueError, AssertionError), lambda: tl.TLMor.from_tldiag(D(x)).coefficient(D(y)), 'coefficient', x, y)
        refuses((ValueError, AssertionError), lambda: tl.TLMor(x[0], x[1], {D(y): LPoly(0, (1,))}), 'TLMor', x, y)


@contract
def tl_mul(m1, m2):
    a, b = ms(m1), ms(m2)
    eq(UM(M(a) * M(b)), (a[0], b[1], mmul(a[2], b[2])), 'product', a, b)


@contract
def tl_lin(m1, m2, c, k):
    a, b, c = ms(m1), ms(m2), dict(c)
    A, Bm = M(a), M(b)
    neg = {d: pmul(p, {0: -1}) for d, p in b[2].items()}
    eq(UM(A + Bm), (a[0], a[1], madd(a[2], b[2])), 'sum', a, b)
    eq(UM(A - Bm), (a[0], a[1], madd(a[2], neg)), 'difference', a, b)
    eq(UM(-Bm), (a[0], a[1], neg), 'negative', b)
    sc = {d: q for d, q in ((d, pmul(p, c)) for d, p in a[2].items()) if q}
    eq(UM(A * L(c)), (a[0], a[1], sc), 'scalar multiple', a, c)
    eq(UM(L(c) * A), (a[0], a[1], sc), 'left scalar multiple', a, c)
    si = {d: q for d, q in ((d, pmul(p, {0: k} if k else {})) for d, p in a[2].items()) if q}
    eq(UM(A * k), (a[0], a[1], si), 'integer multiple', a, k)
    eq(UM(k * A), (a[0], a[1], si), 'left integer multiple', a, k)
    for d in set(a[2]) | set(b[2]):
        eq(P(A.coefficient(D(d))), a[2].get(d, {}), 'coefficient', d)
    eq(sorted(map(U, A.support())), sorted(a[2]), 'support')
    eq({U(d): P(p) for d, p in A.pairs()}, a[2], 'pairs')
    eq(bool(A.is_zero()), not a[2], 'is_zero')
    need((A == Bm) == (a[2] == b[2]), 'equality', a, b)
    for s in range(0, max(a[0], a[1]) + 2):
        eq(UM(A.quotient(s)), (a[0], a[1], {d: p for d, p in a[2].items() if through(d) >= s}), 'quotient', a, s)
    fl = {upside(d): p for d, p in a[2].items()}
    eq(UM(A.flip(twist_v=False)), (a[1], a[0], fl), 'flip', a)
    eq(UM(A.flip()), (a[1], a[0], {d: {-e: x for e, x in p.items()} for d, p in fl.items()}), 'flip with v -> 1/v', a)
    if a[0] == a[1]:
        i = ident(a[0])
        eq(UM(A + L(c)), (a[0], a[0], madd(a[2], {i: c} if c else {})), 'sum with scalar', a, c)
        eq(UM(A + k), (a[0], a[0], madd(a[2], {i: {0: k}} if k else {})), 'sum with integer', a, k)
        tr = {}
        for d, p in a[2].items():
            n = len(d[2])
            j = glue((0, n, d[2]), (n, 0, tuple(reversed(range(n)))))[1]
            tr = padd(tr, pmul(p, ppow(TWO, j)))
        eq(P(A.trace()), tr, 'Markov trace', a)
    elif c:
        refuses((ValueError,), lambda: A + L(c), 'scalar added to a non-endomorphism')
    eq(UM(A), (a[0], a[1], a[2]), 'operand changed')


@contract
def tl_pow(m, k):
    a = ms(m)
    want = {ident(a[0]): {0: 1}}
    for _ in range(k):
        want = mmul(want, a[2])
    eq(UM(M(a) ** k), (a[0], a[0], want), 'power', k)


@contract
def tl_badpow(m, k):
    a = ms(m)
    refuses((ValueError,), lambda: M(a) ** k, 'power')


@contract
def tl_relations(n):
    """The generators satisfy the Temperley-Lieb relations."""
    e = [tl.TLMor.e(i, n) for i in range(n - 1)]
    x = [tl.TLExtDiag.e(i, n) for i in range(n - 1)]
    for i in range(n - 1):
        eq(UM(e[i]), (n, n, {gen(i, n): {0: 1}}), 'TLMor.e', i, n)
        eq((x[i].top, x[i].bot, x[i].seq, x[i].bubbles), (*gen(i, n), 0), 'TLExtDiag.e', i, n)
        eq(UM(e[i] * e[i]), (n, n, {gen(i, n): dict(TWO)}), 'e_i e_i', i, n)
        need(x[i] * x[i] == x[i].add_bubbles(1), 'e_i e_i (diagrams)', i, n)
        for j in range(n - 1):
            if abs(i - j) == 1:
                need(e[i] * e[j] * e[i] == e[i], 'e_i e_j e_i', i, j, n)
                need(x[i] * x[j] * x[i] == x[i], 'e_i e_j e_i (diagrams)', i, j, n)
            elif i != j:
                need(e[i] * e[j] == e[j] * e[i], 'commutation', i, j, n)
                need(x[i] * x[j] == x[j] * x[i], 'commutation (diagrams)', i, j, n)
    eq(UM(tl.TLMor.id(n)), (n, n, {ident(n): {0: 1}}), 'identity', n)
    eq(U(tl.TLDiag.id(n)), ident(n), 'identity', n)
    q = tl.TLExtDiag.id(n)
    eq((q.top, q.bot, q.seq, q.bubbles), (*ident(n), 0), 'identity', n)


@functools.cache
def all_seqs(n):
    if n == 0:
        return [()]
    out = []
    for k in range(0, n - 1, 2):
        for a in all_seqs(k):
            for b in all_seqs(n - 2 - k):
                out.append((k + 1,) + tuple(x + 1 for x in a) + (0,) + tuple(x + k + 2 for x in b))
    return out


@contract
def tl_enum(n):
    if n % 2 or n < 0:
        return refuses((ValueError,), lambda: list(tl.generate_sequences(n)), 'generate_sequences', n)
    got = list(tl.generate_sequences(n))
    need(all(type(s) is tuple for s in got) and sorted(got) == sorted(all_seqs(n)), 'generate_sequences', n, short(got))


@contract
def tl_basis(top, bot):
    if (top + bot) % 2:
        return 'trivial'
    want = sorted((top, bot, s) for s in all_seqs(top + bot))
    eq(sorted(map(U, tl.tl_basis(top, bot))), want, 'tl_basis', top, bot)
    eq(sorted(d for m in tl.TLMor.basis(top, bot) for d in UM(m)[2]), want, 'TLMor.basis', top, bot)
    if bot <= top:
        w = [d for d in want if through(d) == bot]
        eq(sorted(map(U, tl.tl_tableaux_basis(top, bot))), w, 'tl_tableaux_basis', top, bot)
        r = (top - bot) // 2
        eq(sorted(map(U, tl.cell_basis(top, r))), w, 'cell_basis', top, r)
        need(len(set(map(U, tl.cell_basis(top, r)))) == len(tl.cell_basis(top, r)), 'cell_basis repeats')
        eq(tl.cell_dimension(top, r), len(w), 'cell_dimension', top, r)
        c = tl.TLCell(top, r)
        eq(c.dim(), len(w), 'TLCell.dim')
        eq(sorted(map(U, c.basis_diagrams())), w, 'TLCell.basis_diagrams')


@contract
def tl_cell(n, r, m):
    """The matrix of left multiplication on the cell module."""
    a = ms(m)
    c = tl.TLCell(n, r)
    basis = [U(d) for d in c.basis_diagrams()]
    mat = c.project_leftmult_matrix(M(a))
    for j, v in enumerate(basis):
        img = mmul(a[2], {v: {0: 1}})
        for i, u in enumerate(basis):
            eq(P(mat[i, j]), img.get(u, {}), 'entry', i, j, 'of the action on cell', n, r)
    from peyl import jonesrep
    mat2 = jonesrep.cell_matrix(M(a), r)
    need(mat2 == mat, 'cell_matrix and TLCell disagree', n, r)
    eq(P(c.trace_scalar()), {e: 1 for e in range(-(n - 2 * r), n - 2 * r + 1, 2)}, 'trace_scalar', n, r)


@contract
def tl_cell_scalar(n, r):
    """The scalar of each cell, and its dimension, also for sizes whose diagrams are not listed."""
    c = tl.TLCell(n, r)
    eq(P(c.trace_scalar()), {e: 1 for e in range(-(n - 2 * r), n - 2 * r + 1, 2)}, 'trace_scalar', n, r)
    eq(c.dim(), math.comb(n, r) - (math.comb(n, r - 1) if r else 0), 'dim', n, r)
    eq(tl.cell_dimension(n, r), c.dim(), 'cell_dimension', n, r)


@contract
def tl_trace_decomposition(n, m):
    """The Markov trace is the sum over cells of quantum integers times matrix traces."""
    a = ms(m)
    A = M(a)
    tot = LPoly(0, ())
    cells = tl.JonesRep(n).cells
    eq([(c.n, c.r) for c in cells], [(n, r) for r in range(n // 2 + 1)], 'cells of JonesRep', n)
    for c in cells:
        tot = tot + c.trace_scalar() * c.project_leftmult_matrix(A).trace()
    eq(P(tot), P(A.trace()), 'trace decomposition', n)


def rand_seq(r, n):
    """Random crossingless matching of n dots (n even)."""
    if n == 0:
        return ()
    mode = r.random()
    k = r.randrange(0, n - 1, 2) if mode < .6 else r.choice([0, n - 2])
    a, b = rand_seq(r, k), rand_seq(r, n - 2 - k)
    return (k + 1,) + tuple(x + 1 for x in a) + (0,) + tuple(x + k + 2 for x in b)


def run(ctx):
    r = ctx.rng
    MI = [m for m in mined_ints('peyl/tl.py') if 2 <= m <= 24]
    for n in range(0, 7):
        for seq in itertools.product(range(-1, n + 1), repeat=n) if n <= 3 else itertools.permutations(range(n)):
            ctx.do(tl_matching, seq)
    for n in range(-2, 13):
        ctx.do(tl_enum, n)
    for top in range(0, 6):
        for bot in range(0, 6):
            ctx.do(tl_basis, top, bot)
    for n in range(0, 10):
        ctx.do(tl_relations, n)
    for n in range(0, 41):
        for k in range(n // 2 + 1):
            ctx.do(tl_cell_scalar, n, k)
    for top, bot, seq in [(1, 1, (1, 0, 3, 2)), (-1, 3, (1, 0)), (3, -1, (1, 0)), (1, 2, (1, 0)), (0, 0, (1, 0)), (2, 2, (2, 3, 0, 1)), (1, 1, (0, 1))]:
        ctx.do(tl_shape, top, bot, seq)
    dg = lambda t, b: [(t, b, s) for s in all_seqs(t + b)] if (t + b) % 2 == 0 else []
    for t in range(0, 5):
        for b in range(0, 5):
            for x in dg(t, b):
                ctx.do(tl_unary, x)
            for m in range(0, 5):
                if t + 2 * m + b <= 10:
                    for x in dg(t, m):
                        for y in dg(m, b):
                            ctx.do(tl_compose, x, y)
    for t, b, t2, b2 in itertools.product(range(0, 4), repeat=4):
        if t + b + t2 + b2 <= 8:
            for x in dg(t, b):
                for y in dg(t2, b2):
                    ctx.do(tl_tensor, x, y)
                    if b != t2:
                        ctx.do(tl_mismatch, x, y)

    def rd(t, b):
        if r.random() < .3 and t >= 1 and b >= 1:      # biased towards products of generators: many through strands
            x, y = rd(t - 1, b - 1), (1, 1, (1, 0))
            return beside(x, y) if r.random() < .5 else beside(y, x)
        return (t, b, rand_seq(r, t + b))

    def sz(parity=None):
        while True:
            k = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, r.randint(0, 14), r.choice(MI) if MI else 9])
            if parity is None or k % 2 == parity:
                return k

    def coef():
        k = r.choice([0, 1, 1, 1, 2, 3])
        out = {}
        for _ in range(k):
            e = r.randint(-4, 4)
            c = r.choice([1, -1, 2, -2, 3, -5, r.randint(-10 ** 20, 10 ** 20)])
            if c:
                out[e] = c
        return out

    def mor(t, b, k=None):
        if (t + b) % 2:
            return (t, b, {})
        pool = [rd(t, b) for _ in range(3)]
        return (t, b, {r.choice(pool): coef() for _ in range(r.choice([0, 1, 2, 3, 4]) if k is None else k)})

    def once(r):
        p = r.randint(0, 1)
        a, b, c, d = sz(p), sz(p), sz(p), sz(p)
        x, y, z = rd(a, b), rd(b, c), rd(c, d)
        ctx.do(tl_compose, x, y)
        ctx.do(tl_assoc, x, y, z)
        ctx.do(tl_unary, x)
        q = r.randint(0, 1)
        e, f, g = sz(q), sz(q), sz(q)
        x2, y2 = rd(e, f), rd(f, g)
        ctx.do(tl_tensor, x, x2)
        ctx.do(tl_interchange, x, y, x2, y2)
        ctx.do(tl_mismatch, x, x2)
        s = list(x[2])
        if len(s) >= 2:
            i, j = r.sample(range(len(s)), 2)
            s[i] = r.choice([s[j], j, -1, len(s), i])
            ctx.do(tl_matching, tuple(s))
        if len(s) >= 4:       # swap two partners consistently: involution, maybe crossing
            s = list(x[2])
            i, j = r.sample(range(len(s)), 2)
            if s[i] != j:
                k, l = s[i], s[j]
                s[i], s[j], s[k], s[l] = l, k, j, i
                ctx.do(tl_matching, tuple(s))
    ctx.loop(5, once)

    def twice(r):
        p = r.randint(0, 1)
        small = lambda: min(sz(p), 6 + p)
        a, b, c = small(), small(), small()
        if r.random() < .6:
            b = a
        A, Bm, C = mor(a, b), mor(a, b), mor(b, c)
        if r.random() < .3:      # cancellation
            Bm = (a, b, {d: {e: -x for e, x in q.items()} for d, q in A[2].items()})
        ctx.do(tl_mul, A, C)
        ctx.do(tl_lin, A, Bm, coef(), r.choice([0, 1, -1, 2, -7, 10 ** 20]))
        n = min(a, 5)
        X = mor(n, n)
        ctx.do(tl_pow, X, r.choice([0, 1, 2, 3, 4, 5]))
        ctx.do(tl_badpow, X, -r.randint(1, 3))
        if a != b:
            ctx.do(tl_badpow, A, 2)
        ctx.do(tl_cell, n, r.randint(0, n // 2), X)
        ctx.do(tl_trace_decomposition, n, X)
    ctx.loop(5, twice)
    for n in ([12, 13, 16, 20] + [m for m in MI if m > 9]):
        ctx.do(tl_relations, n)
