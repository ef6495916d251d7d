"""C11: packed polynomial arrays.  A packed matrix is given as (I, J, D, flat coefficients); a batch as a list of them.
Oracle: dictionaries (i, j, d) -> nonzero coefficient."""
import itertools
import numpy as np
from rt import *
from peyl import polymat
from peyl.lpoly import LPoly
from peyl.matrix import Matrix


def arr(m, dtype=np.int64):
    I, J, D, data = m
    return np.array(data, dtype=dtype).reshape((I, J, D))


def batch(ms, dtype=np.int64):
    return np.array([arr(m) for m in ms], dtype=dtype)


def coef(A):
    """Dictionary of the nonzero coefficients of a 3D array."""
    return {tuple(map(int, k)): int(A[tuple(k)]) for k in np.argwhere(A)}


def cmul(x, y):
    out = {}
    by = {}
    for (j, k, e), c in y.items():
        by.setdefault(j, []).append((k, e, c))
    for (i, j, d), c in x.items():
        for k, e, f in by.get(j, ()):
            out[i, k, d + e] = out.get((i, k, d + e), 0) + c * f
    return {k: c for k, c in out.items() if c}


def shift(x, s):
    return {(i, j, d + s): c for (i, j, d), c in x.items()}


def lo(x):
    return min((d for _, _, d in x), default=0)


def hi(x):
    return max((d for _, _, d in x), default=-1)


def spread(x):
    return hi(x) - lo(x) + 1 if x else 0


def entries(mat):
    out = {}
    for i in range(mat.nrows):
        for j in range(mat.ncols):
            p = mat[i, j]
            if isinstance(p, LPoly):
                for e, c in enumerate(p.coeffs, p.val):
                    if c:
                        out[i, j, e] = int(c)
            elif p:
                out[i, j, 0] = int(p)
    return out


@contract
def pm_roundtrip(m, val):
    """array -> matrix -> array, and Laurent matrix -> array -> matrix."""
    I, J, D, data = m
    A = arr(m)
    mat = polymat.to_matrix(A)
    eq((mat.nrows, mat.ncols), (I, J), 'shape')
    eq(entries(mat), coef(A), 'to_matrix', m)
    for x in mat.data:
        need(isinstance(x, LPoly) and (not x.coeffs or (x.coeffs[0] != 0 and x.coeffs[-1] != 0)), 'entry not canonical', x)
    B = polymat.from_matrix(mat)
    need(B.ndim == 3 and B.shape[:2] == (I, J), 'shape of from_matrix', B.shape)
    eq(coef(B), coef(A), 'from_matrix(to_matrix)', m)
    shifted = Matrix(I, J, tuple(LPoly(x.val + val, x.coeffs) if x.coeffs else x for x in mat.data))
    e = entries(shifted)
    if e and lo(e) < 0:
        refuses((ValueError,), lambda: polymat.from_matrix(shifted), 'negative powers', m, val)
        P = polymat.from_matrix(shifted, proj=True)
        eq(coef(P), shift(e, -lo(e)), 'projective from_matrix', m, val)
    else:
        for proj in (False, True):
            P = polymat.from_matrix(shifted, proj=proj)
            eq(coef(P), e, 'from_matrix', m, val, proj)
    for dt in (np.int32, np.int64):
        need(polymat.from_matrix(shifted, proj=True, dtype=dt).dtype == dt or not e, 'dtype of from_matrix', dt)


@contract
def pm_from_mixed(r, c, data):
    """Matrices of ints and Laurent polynomials mixed."""
    mat = Matrix(r, c, tuple(x if isinstance(x, int) else LPoly(*x) for x in data))
    A = polymat.from_matrix(mat)
    need(isinstance(A, np.ndarray) and A.ndim == 3 and A.shape[:2] == (r, c), 'from_matrix of', data)
    eq(coef(A), entries(mat), 'from_matrix of', data)


@contract
def pm_mul(a, b, quot):
    A, B = arr(a), arr(b)
    if a[1] != b[0]:
        return refuses((AssertionError, ValueError), lambda: polymat.mul(A, B), 'mul', a[:3], b[:3])
    want = cmul(coef(A), coef(B))
    C = polymat.mul(A, B)
    need(C.shape[:2] == (a[0], b[1]), 'shape', C.shape)
    eq(coef(C), want, a, '*', b)
    C = polymat.mul(A, B, quotdeg=quot)
    eq(C.shape, (a[0], b[1], quot), 'shape with quotdeg')
    eq(coef(C), {k: c for k, c in want.items() if k[2] < quot}, 'mul quotdeg', quot)
    eq((coef(A), coef(B)), (coef(arr(a)), coef(arr(b))), 'operands changed')
    # the same product through matrices of Laurent polynomials
    if a[0] and a[1] and b[0] and b[1]:
        eq(entries(polymat.to_matrix(A) * polymat.to_matrix(B)), want, 'product of matrices')


@contract
def pm_mul_batch(xs, ys, outer):
    A, B = batch(xs), batch(ys)
    if outer:
        C = polymat.mul(A[:, None], B[None, :])
        for i, j in itertools.product(range(len(xs)), range(len(ys))):
            eq(coef(C[i, j]), cmul(coef(arr(xs[i])), coef(arr(ys[j]))), 'batch product', i, j)
    else:
        C = polymat.mul(A, B)
        for i in range(len(xs)):
            eq(coef(C[i]), cmul(coef(arr(xs[i])), coef(arr(ys[i]))), 'batch product', i)


@contract
def pm_shape(ms):
    """Trimming, padding, packing, concatenating, measuring."""
    for m in ms:
        A = arr(m)
        x = coef(A)
        t = polymat.trim(A)
        eq(coef(t), x, 'trim', m)
        eq(t.shape, (m[0], m[1], hi(x) + 1), 'shape of trim', m)
        if m[2]:
            d, l = polymat.trim_left(A)
            eq((d, coef(l)), (lo(x) if x else m[2], shift(x, -lo(x))), 'trim_left', m)
            eq(l.shape[2], m[2] - d, 'shape of trim_left')
            for extra in (0, 1, 3):
                z = polymat.zeropad(A, m[2] + extra)
                eq((z.shape, coef(z)), ((m[0], m[1], m[2] + extra), x), 'zeropad', m, extra)
            refuses((AssertionError, ValueError), lambda: polymat.zeropad(A, m[2] - 1), 'zeropad to less')
            if m[0] and m[1]:
                eq(int(polymat.projlen(A)), spread(x), 'projlen', m)
                eq(int(polymat.efflen(A)), spread(x) - 1 if x else 0, 'efflen', m)
                eq(int(polymat.nz_terms(A)), len(x), 'nz_terms', m)
                if x:
                    eq((int(polymat.degmax(A)), int(polymat.valmin(A))), (hi(x), lo(x)), 'degmax, valmin', m)
                    eq(float(polymat.rhogap(A)), (hi(x) - lo(x)) / 2, 'rhogap', m)
                    s, e = polymat.proj_starts_ends(A)
                    eq((int(s), int(e)), (lo(x), hi(x) + 1), 'proj_starts_ends', m)
                    p = polymat.projectivise(A)
                    eq(coef(p), shift(x, -lo(x)), 'projectivise', m)
                    eq(p.shape, (m[0], m[1], spread(x)), 'shape of projectivise')
                else:
                    refuses((AssertionError, ValueError), lambda: polymat.projectivise(A), 'projectivise zero')
        eq(coef(A), x, 'operand changed')
    # packing
    P = polymat.pack([arr(m) for m in ms])
    D = max(hi(coef(arr(m))) + 1 for m in ms)
    eq(P.shape, (len(ms), ms[0][0], ms[0][1], D), 'shape of pack')
    for i, m in enumerate(ms):
        eq(coef(P[i]), coef(arr(m)), 'pack', i)


@contract
def pm_batch(ms, cut):
    """The batch forms agree with the forms for one matrix."""
    A = batch(ms)
    xs = [coef(arr(m)) for m in ms]
    eq([int(v) for v in polymat.projlen(A)], [spread(x) for x in xs], 'projlen')
    eq([int(v) for v in polymat.nz_terms(A)], [len(x) for x in xs], 'nz_terms')
    t = polymat.trim(A)
    eq([coef(t[i]) for i in range(len(ms))], xs, 'trim')
    eq(t.shape[3], max(hi(x) + 1 for x in xs), 'width of trim')
    if all(xs):
        eq([int(v) for v in polymat.degmax(A)], [hi(x) for x in xs], 'degmax')
        eq([int(v) for v in polymat.valmin(A)], [lo(x) for x in xs], 'valmin')
        s, e = polymat.proj_starts_ends(A)
        eq(([int(v) for v in s], [int(v) for v in e]), ([lo(x) for x in xs], [hi(x) + 1 for x in xs]), 'starts, ends')
        p = polymat.projectivise(A)
        eq([coef(p[i]) for i in range(len(ms))], [shift(x, -lo(x)) for x in xs], 'projectivise')
        eq(p.shape[3], max(spread(x) for x in xs), 'width of projectivise')
        p2 = polymat.projectivise(A[:, None])
        eq([coef(p2[i, 0]) for i in range(len(ms))], [shift(x, -lo(x)) for x in xs], 'projectivise with two batch dimensions')
        for d in (d for d in (2, 3) if len(ms) % d == 0):
            p2 = polymat.projectivise(A.reshape(d, len(ms) // d, *A.shape[1:]))
            eq([coef(m) for row in p2 for m in row], [shift(x, -lo(x)) for x in xs], 'projectivise with', d, 'rows of a batch')
    c = polymat.concatenate([A[:cut], A[cut:, ..., : max(1, max([hi(x) + 1 for x in xs[cut:]] or [1]))]])
    eq([coef(c[i]) for i in range(len(ms))], xs, 'concatenate')
    eq(coef(polymat.concatenate([])), {}, 'concatenate nothing')


@contract
def pm_eye(n):
    A = polymat.eye(n)
    eq((A.shape, coef(A)), ((n, n, 1), {(i, i, 0): 1 for i in range(n)}), 'eye', n)


def run(ctx):
    for n in range(0, 6):
        ctx.do(pm_eye, n)
    for D in range(0, 4):
        for data in itertools.product((-1, 0, 2), repeat=D):
            ctx.do(pm_shape, [(1, 1, D, data)])
            if D:
                for val in (-2, 0, 1):
                    ctx.do(pm_roundtrip, (1, 1, D, data), val)
            for E in range(0, 3):
                for q in (0, 1, 3):
                    ctx.do(pm_mul, (1, 1, D, data), (1, 1, E, (3, -1)[:E]), q)

    def mat(r, I, J, D, zero=.5):
        s, e = sorted((r.randint(0, D), r.randint(0, D)))
        return (I, J, D, tuple(0 if r.random() < zero or not s <= k % max(D, 1) <= e else r.choice([1, -1, 2, 5, r.randint(-1000, 1000)]) for k in range(I * J * D)))

    def once(r):
        I, J, K = r.choice([1, 2, 3, 4]), r.choice([1, 2, 3, 4]), r.choice([1, 2, 3])
        D, E = r.choice([1, 1, 2, 3, 5, 8]), r.choice([1, 1, 2, 3, 5])
        a = mat(r, I, J, D)
        ctx.do(pm_roundtrip, a, r.randint(-6, 6))
        ctx.do(pm_mul, a, mat(r, J, K, E), r.randint(0, 8))
        ctx.do(pm_mul, a, mat(r, r.choice([1, 2, 3]), K, E), r.randint(0, 8))
        L = r.choice([1, 2, 3, 4])
        ms = [mat(r, I, J, D, r.choice([.3, .8, .95])) for _ in range(L)]
        ctx.do(pm_shape, [mat(r, I, J, r.randint(1, 6), r.choice([.3, .8, 1])) for _ in range(L)])
        ctx.do(pm_batch, ms, r.randint(0, L - 1) if L > 1 else 0)
        if r.random() < .5:
            ms = [(I, J, D, m[3][:-1] + (1,)) if not any(m[3]) else m for m in ms]
            ctx.do(pm_batch, ms, 0)
        ctx.do(pm_mul_batch, ms, [mat(r, J, K, E) for _ in range(L)], False)
        ctx.do(pm_mul_batch, ms, [mat(r, J, K, E) for _ in range(r.choice([1, 2, 3]))], True)
        n = r.choice([1, 2, 4])
        ctx.do(pm_from_mixed, n, 2, tuple(r.choice([0, 1, -2, (r.randint(0, 3), (r.randint(-2, 2), 1))]) for _ in range(2 * n)))
    ctx.loop(6, once)
