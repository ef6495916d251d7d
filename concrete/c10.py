"""C10: matrices.  Oracle: dictionaries (i, j) -> entry and the definitions of linear algebra."""
import itertools
from rt import *
from peyl.matrix import Matrix
from peyl.lpoly import LPoly
from peyl.poly import Poly


def ent(kind, x):
    """Entries: plain ints, Laurent polynomials or polynomials (the rings the library uses)."""
    if kind == 'int':
        return x
    if kind == 'lpoly':
        return LPoly(x % 5 - 2, (x, x % 3))
    return Poly(x, x % 3)


def M(m):
    kind, r, c, data = m
    return Matrix(r, c, tuple(ent(kind, x) for x in data))


def E(m):
    kind, r, c, data = m
    return {(i, j): ent(kind, data[i * c + j]) for i in range(r) for j in range(c)}


def same(mat, r, c, entries, *what):
    need(isinstance(mat, Matrix), *what, f': not a Matrix: {short(mat)}')
    need(isinstance(mat.data, tuple), *what, ': data is not a tuple')
    eq((mat.nrows, mat.ncols, len(mat.data)), (r, c, r * c), *what, 'shape')
    for i in range(r):
        for j in range(c):
            eq(mat[i, j], entries[i, j], *what, 'entry', (i, j))


@contract
def matrix_entries(m):
    kind, r, c, data = m
    mat, e = M(m), E(m)
    same(mat, r, c, e, m)
    same(mat.transpose(), c, r, {(j, i): x for (i, j), x in e.items()}, 'transpose', m)
    eq(mat.rows(), [[e[i, j] for j in range(c)] for i in range(r)], 'rows', m)
    for i in range(-2, r + 2):
        if 0 <= i < r:
            same(mat.row(i), 1, c, {(0, j): e[i, j] for j in range(c)}, 'row', i, m)
        else:
            refuses((IndexError,), lambda: mat.row(i), 'row', i, m)
    for j in range(-2, c + 2):
        if 0 <= j < c:
            same(mat.column(j), r, 1, {(i, 0): e[i, j] for i in range(r)}, 'column', j, m)
        else:
            refuses((IndexError,), lambda: mat.column(j), 'column', j, m)
    for i, j in [(-1, 0), (0, -1), (r, 0), (0, c), (r, c)]:
        refuses((IndexError,), lambda: mat[i, j], 'entry', (i, j), m)
    refuses((KeyError,), lambda: mat[0], 'key 0')
    eq(bool(mat.is_square()), r == c, 'is_square', m)
    eq(bool(mat.is_symmetric()), r == c and all(e[i, j] == e[j, i] for i, j in e), 'is_symmetric', m)
    eq(bool(mat.is_integral()), all(isinstance(x, int) for x in e.values()), 'is_integral', m)
    eq(sorted(map(repr, mat.entries())), sorted(map(repr, e.values())), 'entries')
    eq(list(mat.indices()), [(i, j) for i in range(r) for j in range(c)], 'indices')
    same(mat.map(lambda x: x * 2), r, c, {k: x * 2 for k, x in e.items()}, 'map', m)
    if r == c:
        tr = mat.trace()
        want = 0
        for i in range(r):
            want = e[i, i] + want
        eq(tr, want, 'trace', m)
    else:
        refuses((ValueError,), lambda: mat.trace(), 'trace', m)
    if r >= 1:
        same(Matrix.from_rows([[e[i, j] for j in range(c)] for i in range(r)]), r, c, e, 'from_rows')
    repr(mat), str(mat), mat._repr_latex_()
    need(mat == M(m) and hash(mat) == hash(M(m)) if kind != 'poly' else mat == M(m), 'equality')


@contract
def matrix_scale(m, k):
    kind, r, c, data = m
    mat, e = M(m), E(m)
    same(mat * k, r, c, {x: y * k for x, y in e.items()}, m, '*', k)
    same(k * mat, r, c, {x: y * k for x, y in e.items()}, k, '*', m)


@contract
def matrix_binary(a, b):
    (_, r, c, _), (_, s, d, _) = a, b
    A, B, x, y = M(a), M(b), E(a), E(b)
    if c == s:
        want = {}
        for i in range(r):
            for j in range(d):
                t = 0
                for k in range(c):
                    t = x[i, k] * y[k, j] + t
                want[i, j] = t
        same(A * B, r, d, want, a, '*', b)
    else:
        refuses((ValueError,), lambda: A * B, a, '*', b)
    if (r, c) == (s, d):
        same(A - B, r, c, {k: x[k] - y[k] for k in x}, a, '-', b)
    else:
        refuses((ValueError,), lambda: A - B, a, '-', b)
    eq(A == B, (r, c) == (s, d) and all(x[k] == y[k] for k in x), a, '==', b)
    same(A, r, c, x, 'operand changed')


@contract
def matrix_pow(m, n):
    kind, r, c, data = m
    mat, e = M(m), E(m)
    if r != c:
        return refuses((ValueError,), lambda: mat ** n, m, '**', n)
    if n < 0:
        return refuses((NotImplementedError, ValueError), lambda: mat ** n, m, '**', n)
    want = {(i, j): 1 if i == j else 0 for i in range(r) for j in range(r)}
    for _ in range(n):
        new = {}
        for i in range(r):
            for j in range(r):
                t = 0
                for k in range(r):
                    t = e[k, j] * want[i, k] + t
                new[i, j] = t
        want = new
    got = mat ** n
    eq((got.nrows, got.ncols), (r, r), 'shape of power')
    for k in want:
        d = got[k] - want[k] if not isinstance(got[k], int) else got[k] - want[k] if isinstance(want[k], int) else want[k] - got[k]
        need(d == 0 if isinstance(d, int) else d.is_zero(), m, '**', n, 'entry', k, short(got[k]), short(want[k]))


@contract
def matrix_mixed(rows, cols, at):
    """is_integral looks at every entry."""
    m = Matrix(rows, cols, tuple(LPoly(1, (1, 1)) if k == at else k for k in range(rows * cols)))
    eq(bool(m.is_integral()), not 0 <= at < rows * cols, 'is_integral', rows, cols, at)
    eq(bool(m.transpose().is_integral()), not 0 <= at < rows * cols, 'is_integral of the transpose', rows, cols, at)


@contract
def matrix_special(r, c, x, vec):
    same(Matrix.identity(r), r, r, {(i, j): 1 if i == j else 0 for i in range(r) for j in range(r)}, 'identity', r)
    same(Matrix.zero(r, c), r, c, {(i, j): 0 for i in range(r) for j in range(c)}, 'zero', r, c)
    same(Matrix.scalar(r, x), r, r, {(i, j): x if i == j else 0 for i in range(r) for j in range(r)}, 'scalar', r, x)
    same(Matrix.row_vector(list(vec)), 1, len(vec), {(0, j): v for j, v in enumerate(vec)}, 'row_vector')
    same(Matrix.col_vector(list(vec)), len(vec), 1, {(i, 0): v for i, v in enumerate(vec)}, 'col_vector')
    for i in range(r):
        same(Matrix.col_coord_vector(r, i), r, 1, {(k, 0): 1 if k == i else 0 for k in range(r)}, 'coordinate vector', r, i)


@contract
def matrix_refuses(r, c, n):
    """Inconsistent construction data is refused."""
    if r < 0 or c < 0 or r * c != n:
        refuses((ValueError,), lambda: Matrix(r, c, (1,) * n), 'Matrix', r, c, n)
    else:
        Matrix(r, c, (1,) * n)
    if n:
        refuses((ValueError,), lambda: Matrix(1, n, [1] * n), 'list data')


def run(ctx):
    ints = mined_ints('peyl/matrix.py')
    for r in range(-2, 4):
        for c in range(-2, 4):
            for n in range(0, 7):
                ctx.do(matrix_refuses, r, c, n)
    for r in range(0, 5):
        for c in range(0, 5):
            ctx.do(matrix_special, r, c, r + c - 2, tuple(range(r)))
            for k in range(-1, r * c):
                ctx.do(matrix_mixed, r, c, k)
    for r in range(0, 3):
        for c in range(0, 3):
            for data in itertools.product((-1, 0, 1) if r * c <= 4 else (0, 1), repeat=r * c):
                ctx.do(matrix_entries, ('int', r, c, data))
                if r * c <= 2 or ctx.thorough:
                    for n in range(-1, 8):
                        ctx.do(matrix_pow, ('int', r, c, data), n)

    def mat(r, rr=None, cc=None, kind=None):
        kind = kind or r.choice(['int', 'int', 'int', 'lpoly', 'lpoly', 'poly'])
        rows = rr if rr is not None else r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6])
        cols = cc if cc is not None else r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5])
        hi = 10 ** 12 if r.random() < .1 else 3
        return (kind, rows, cols, tuple(r.choice([0, 0, 1, -1, r.randint(-hi, hi)]) for _ in range(rows * cols)))

    def once(r):
        a = mat(r)
        ctx.do(matrix_entries, a)
        if r.random() < .6 and a[1]:                # symmetric, or almost
            n = a[1]
            d = {}
            for i in range(n):
                for j in range(i, n):
                    d[i, j] = d[j, i] = r.randint(0, 2)
            if r.random() < .6:
                d[r.randrange(n), r.randrange(n)] += 1
            ctx.do(matrix_entries, (a[0], n, n, tuple(d[i, j] for i in range(n) for j in range(n))))
        b = mat(r, a[2], None, a[0]) if r.random() < .7 else mat(r, None, None, a[0])
        ctx.do(matrix_binary, a, b)
        ctx.do(matrix_binary, a, mat(r, a[1], a[2], a[0]))
        ctx.do(matrix_binary, a, mat(r, a[2], a[1], a[0]))
        ctx.do(matrix_scale, a, r.choice([0, 1, -1, 3, r.choice(ints)]))
        k = r.choice([0, 1, 2, 2, 3])
        ctx.do(matrix_pow, mat(r, k, k, r.choice(['int', 'lpoly'])), r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, -1]))
        ctx.do(matrix_pow, mat(r), r.randint(0, 3)) if a[1] != a[2] else None
    ctx.loop(6, once)
