"""Contracts for peyl/polymat.py: packed polynomial matrices.

An array of shape (I, J, D), or (N, I, J, D), with its degrees last.  NZ, ANY, LO, HI: see pyvc/nd.py."""
from __future__ import annotations
import z3
from pyvc.values import *
from pyvc.vc import Contract, Case
from pyvc import nd
from pyvc.nd import S, EL, NZ, ANY, LO, HI, CNT, SOME, OFFS, rng, ND
from specs import search
from specs.matrix import Grid, CELL

M = 'peyl.polymat:'
IV, RV = z3.IntVal, z3.RealVal
I_ = z3.IntSort()


def arr(c, rank, name='A'):
    nd.EX[0] = c
    t = c.fresh(name, ND)
    return nd.whole(t, rank, param=True)


def once(c):
    """The axioms, once on a path."""
    if c.ghost.get('nd') == c.cnt.get('path', 0) and 'nd' in c.ghost:
        return []
    c.ghost['nd'] = c.cnt.get('path', 0)
    return nd.axioms() + nd.sizes()


def tok(v):
    return v.origin().tok


def idx(r):
    return [z3.Int(f'{x}!ix') for x in ('x', 'i', 'j', 'd')][4 - r:]


def inside(vs, dims):
    return z3.And(*[rng(v, to_int(d)) for v, d in zip(vs, dims)])


def every(vs, dims, f, *pats):
    """For all indices in the box."""
    if not vs:
        return f
    return z3.ForAll(vs, z3.Implies(inside(vs, dims), f), patterns=list(pats)) if pats else z3.ForAll(vs, z3.Implies(inside(vs, dims), f))


def entries(r, spec, what='entries'):
    vs = idx(r.rank)
    c = r.at(vs)
    c = to_real(z3.If(c, IV(1), IV(0)) if r.sort == 'bool' else c)
    p = nd.patterns(c, vs)
    return (what, every(vs, r.dims, c == spec(vs), *p))


def shape(r, dims):
    if not isinstance(r, nd.Nd) or r.rank != len(dims):
        return ('shape', z3.BoolVal(False))
    return ('lemma: shape', z3.And(*[to_int(a) == to_int(b) for a, b in zip(r.dims, dims)]) if dims else z3.BoolVal(True))


def give(c, rank, dims=None):
    t = c.fresh('result', ND)
    if dims is not None:
        nd.shape_is(c, t, dims)
    return nd.whole(t, rank, dims, param=True)


def is_arr(v, *ranks):
    return isinstance(v, nd.Nd) and v.rank in ranks


def is_arrs(c, v, rank):
    if isinstance(v, GenExp):
        return False
    try:
        s = as_sseq(c.as_seq(v))
    except Unsupported:
        return False
    return s.et is not None and s.et[0] == 'model' and isinstance(s.et[1], nd.NdT) and s.et[1].rank == rank


class PCase(Case):
    """Functions of one array."""
    def __init__(self, rank=3):
        self.rank, self.name = rank, f'rank {rank}'

    def params(self, c):
        return [arr(c, self.rank)]

    def match(self, c, args):
        return is_arr(args[0], self.rank)

    def coerce(self, c, args):
        nd.EX[0] = c
        a = args[0]
        if not (isinstance(a, nd.View) and a.whole()):
            a = nd.copy(c, a)
        return [a.freeze(), *args[1:]]

    def axioms(self, c, *args):
        return once(c)


def out(c, r):
    """A result as an array."""
    if r is None:
        raise Unsupported('no result')
    nd.EX[0] = c
    return nd.to_nd(r)


class Trim(PCase):
    def result(self, c, a):
        return give(c, self.rank)

    def post(self, c, r, a):
        r = out(c, r)
        A, D, K = tok(a), to_int(a.dims[-1]), to_int(r.dims[-1])
        vs = idx(self.rank)
        X, d = vs[:-3], vs[-1]
        some = NZ[3](A, K - 1) if self.rank == 3 else SOME(A, K - 1)
        return [shape(r, (*a.dims[:-1], K)), ('lemma: no longer', z3.And(K >= 0, K <= D)),
                entries(r, lambda v: a.at(v)),
                ('only zeros are dropped', z3.ForAll([*X, d], z3.Implies(z3.And(NZ[self.rank](A, *X, d)), d < K), patterns=[NZ[self.rank](A, *X, d)])),
                ('the last degree is there', z3.Or(K == 0, some))]


class TrimLeft(PCase):
    def result(self, c, a):
        s = c.fresh('start', I_)
        return (s, give(c, self.rank))

    def post(self, c, r, a):
        s, r = to_int(r[0]), out(c, r[1])
        A, D, K = tok(a), to_int(a.dims[-1]), to_int(r.dims[-1])
        vs = idx(self.rank)
        X, d = vs[:-3], vs[-1]
        some = NZ[3](A, s) if self.rank == 3 else SOME(A, s)
        return [('lemma: start', z3.And(s >= 0, s <= D)), shape(r, (*a.dims[:-1], D - s)),
                entries(r, lambda v: a.at(v[:-1] + [v[-1] + s])),
                ('only zeros are dropped', z3.ForAll([*X, d], z3.Implies(NZ[self.rank](A, *X, d), d >= s), patterns=[NZ[self.rank](A, *X, d)])),
                ('the first degree is there', z3.Or(s == D, some))]


class ZeroPad(PCase):
    def params(self, c):
        return [arr(c, self.rank), c.fresh('D', I_)]

    def must_raise(self, c, a, D):
        return [('AssertionError', to_int(a.dims[-1]) > to_int(D))]

    def result(self, c, a, D):
        return give(c, self.rank, (*a.dims[:-1], D))

    def post(self, c, r, a, D):
        r = out(c, r)
        return [shape(r, (*a.dims[:-1], D)), entries(r, lambda v: z3.If(v[-1] < to_int(a.dims[-1]), a.at(v), RV(0)))]


class Eye(Case):
    def params(self, c):
        nd.EX[0] = c
        n = c.fresh('n', I_)
        c.assume(n >= 0)
        return [n]

    def result(self, c, n):
        return give(c, 3, (n, n, IV(1)))

    def post(self, c, r, n):
        r = out(c, r)
        return [shape(r, (n, n, IV(1))), entries(r, lambda v: z3.If(v[0] == v[1], RV(1), RV(0)))]


class Burau(Case):
    """the identity but in row s, which is -v, -v^2, -v around the diagonal"""
    def params(self, c):
        nd.EX[0] = c
        return [c.fresh('n', I_), c.fresh('s', I_)]

    def must_raise(self, c, n, s):
        return [('AssertionError', z3.Not(z3.And(n >= 1, rng(s, n - 1))))]

    def result(self, c, n, s):
        return give(c, 3, (n - 1, n - 1, IV(3)))

    def post(self, c, r, n, s):
        def spec(v):
            i, j, d = v
            row = z3.If(j == s, z3.If(d == 2, RV(-1), RV(0)), z3.If(z3.And(z3.Or(j == s + 1, j == s - 1), d == 1), RV(-1), RV(0)))
            return z3.If(i == s, row, z3.If(z3.And(i == j, d == 0), RV(1), RV(0)))
        r = out(c, r)
        return [shape(r, (n - 1, n - 1, 3)), entries(r, spec)]


class Mul(PCase):
    """entry (i, k) of the product at degree d is the sum over a + b = d of row i of A at a times column k of B at b"""
    def __init__(self, r1, r2, quot):
        self.r1, self.r2, self.quot = r1, r2, quot
        self.rank = max(r1, r2)
        self.name = f'ranks {r1}, {r2}' + (', cut' if quot else '')

    def params(self, c):
        a, b = arr(c, self.r1, 'A'), arr(c, self.r2, 'B')
        return [a, b] + ([c.fresh('quotdeg', I_)] if self.quot else [None])

    def match(self, c, args):
        return is_arr(args[0], self.r1) and is_arr(args[1], self.r2) and (self.quot == (len(args) > 2 and args[2] is not None))

    def coerce(self, c, args):
        return PCase.coerce(self, c, args[:1]) + PCase.coerce(self, c, args[1:2]) + [args[2] if len(args) > 2 else None]

    def must_raise(self, c, a, b, q):
        out = [('AssertionError', z3.Or(to_int(a.dims[-2]) != to_int(b.dims[-3]), to_int(q) < 0 if self.quot else z3.BoolVal(False)))]
        if self.r1 == self.r2 == 4:
            x, y = to_int(a.dims[0]), to_int(b.dims[0])
            out.append(('ValueError', z3.And(x != y, x != 1, y != 1)))
        return out

    def dims(self, a, b, q):
        D, E = to_int(a.dims[-1]), to_int(b.dims[-1])
        P = to_int(q) if self.quot else z3.If(D + E - 1 >= 0, D + E - 1, IV(0))
        lead = []
        if self.rank == 4:
            x, y = [to_int(v.dims[0]) if v.rank == 4 else None for v in (a, b)]
            lead = [y if x is None else x if y is None else z3.If(x == 1, y, x)]
        return (*lead, a.dims[-3], b.dims[-2], P)

    def spec(self, a, b):
        D, E, J = to_int(a.dims[-1]), to_int(b.dims[-1]), to_int(a.dims[-2])
        t, j = z3.Int('t!conv'), z3.Int('j!conv')

        def lead(v, X):
            if v.rank == 3:
                return []
            n = to_int(v.dims[0])
            return [X if (self.r1 != self.r2) else z3.If(n == 1, IV(0), X)]

        def f(vs):
            i, k, d = vs[-3:]
            X = vs[0]
            dot = nd.lift_sum(j, a.at([*lead(a, X), i, j, t]) * b.at([*lead(b, X), j, k, d - t]), IV(0), J)
            return nd.lift_sum(t, z3.If(z3.And(t < D, d - t < E), dot, RV(0)), IV(0), d + 1)
        return f

    def result(self, c, a, b, q):
        return give(c, self.rank, self.dims(a, b, q))

    def post(self, c, r, a, b, q):
        r = out(c, r)
        return [shape(r, self.dims(a, b, q)), entries(r, self.spec(a, b))]


class Stat(PCase):
    """A number for every matrix."""
    def __init__(self, rank, spec, raises=True, empty=True):
        PCase.__init__(self, rank)
        self.spec, self.nonzero, self.empty = spec, raises, empty

    def pre(self, c, a):
        return [('there is a degree', to_int(a.dims[-1]) >= 1)] if self.empty else []

    def must_raise(self, c, a):
        return [('AssertionError', zero_matrix(a))] if self.nonzero else []

    def result(self, c, a):
        if self.rank == 3:
            return c.fresh('stat', self.sort())
        f = c.fresh('stat', z3.ArraySort(I_, self.sort()))
        return nd.Fx(a.dims[:1], lambda v: f[v[0]], 'int' if self.sort() == I_ else 'real')

    def sort(self):
        return I_

    def values(self, c, r, spec, a):
        A, vs = tok(a), idx(4)[:self.rank - 3]
        if isinstance(r, nd.Nd) and r.rank != len(vs):
            return ('another shape', z3.BoolVal(False))
        r = nd.to_nd(r)
        v = r.at(vs)
        return (spec.__doc__ or 'value', z3.And(*[to_int(p) == to_int(q) for p, q in zip(r.dims, a.dims)] or [z3.BoolVal(True)],
                every(vs, a.dims, v == spec(self.rank, A, vs, to_int(a.dims[-1])))))

    def post(self, c, r, a):
        if r is None:
            raise Unsupported('no result')
        return [self.values(c, r, self.spec, a)]


def zero_matrix(a):
    if a.rank == 3:
        return z3.Not(ANY[3](tok(a)))
    x = z3.Int('x!zm')
    return z3.Exists([x], z3.And(rng(x, to_int(a.dims[0])), z3.Not(ANY[4](tok(a), x))))


def s_projlen(r, A, X, D):
    """number of degrees from the least to the greatest, zero for a zero matrix"""
    return z3.If(ANY[r](A, *X), HI[r](A, *X) - LO[r](A, *X) + 1, IV(0))


def s_efflen(r, A, X, D):
    """greatest degree minus the least, zero for a zero matrix"""
    return z3.If(ANY[r](A, *X), HI[r](A, *X) - LO[r](A, *X), IV(0))


def s_valmin(r, A, X, D):
    """least degree"""
    return z3.If(ANY[r](A, *X), LO[r](A, *X), IV(0))


def s_degmax(r, A, X, D):
    """greatest degree"""
    return z3.If(ANY[r](A, *X), HI[r](A, *X), D - 1)


def s_terms(r, A, X, D):
    """number of nonzero entries"""
    return CNT[r](A, *X)


class Rho(Stat):
    def sort(self):
        return z3.RealSort()


def s_rhogap(r, A, X, D):
    """half of the greatest degree minus the least"""
    return z3.If(ANY[r](A, *X), z3.ToReal(HI[r](A, *X) - LO[r](A, *X)) / 2, z3.ToReal(D - 1) / 2)


class StartsEnds(Stat):
    def __init__(self, rank):
        Stat.__init__(self, rank, None)

    def result(self, c, a):
        return (Stat.result(self, c, a), Stat.result(self, c, a))

    def post(self, c, r, a):
        if not isinstance(r, tuple) or len(r) != 2:
            raise Unsupported('two results')

        def start(r, A, X, D):
            return LO[r](A, *X)

        def end(r, A, X, D):
            return HI[r](A, *X) + 1
        start.__doc__, end.__doc__ = 'start is the least degree', 'end is after the greatest degree'
        return [self.values(c, r[0], start, a), self.values(c, r[1], end, a)]


class Projectivise(PCase):
    """every matrix is shifted down by its least degree; no wider than needed"""
    def pre(self, c, a):
        return [('there is a degree', to_int(a.dims[-1]) >= 1)] + ([('there is a matrix', to_int(a.dims[0]) >= 1)] if self.rank == 4 else [])

    def must_raise(self, c, a):
        return [('AssertionError', zero_matrix(a))]

    def result(self, c, a):
        return give(c, self.rank)

    def spec(self, a):
        A, r = tok(a), a.rank

        def f(vs):
            X = vs[:r - 3]
            lo, hi = LO[r](A, *X), HI[r](A, *X)
            return z3.If(vs[-1] + lo <= hi, a.at(vs[:-1] + [vs[-1] + lo]), RV(0))
        return f

    def post(self, c, r, a):
        r = out(c, r)
        A, D, rk = tok(a), to_int(r.dims[-1]), self.rank
        X = idx(4)[:rk - 3]
        w = HI[rk](A, *X) - LO[rk](A, *X) + 1
        return [shape(r, (*a.dims[:-1], D)), entries(r, self.spec(a)),
                ('wide enough', every(X, a.dims, w <= D, *([ANY[rk](A, *X)] if X else []))),
                ('no wider than needed', z3.Exists(X, z3.And(inside(X, a.dims), w == D)) if X else w == D)]


class Pack(PCase):
    def __init__(self):
        self.name = ''
        self.rank = 4

    def params(self, c):
        nd.EX[0] = c
        n = c.fresh('L', I_)
        c.assume(n >= 0)
        A = c.fresh('As', z3.ArraySort(I_, ND))
        return [LObj(SSeq(('model', nd.NdT(3)), n, (A,), 'list'), derived=True)]

    def match(self, c, args):
        return is_arrs(c, args[0], 3)

    def coerce(self, c, args):
        nd.EX[0] = c
        return [as_sseq(c.as_seq(args[0]))] + list(args[1:])

    def seq(self, c, s):
        s = as_sseq(c.as_seq(s))
        return to_int(s.n), s.arrs[0]

    def ragged(self, n, A, *ks):
        k = z3.Int('k!pk')
        return z3.Exists([k], z3.And(rng(k, n), z3.Or(*[S[q](A[k]) != S[q](A[0]) for q in ks])))

    def must_raise(self, c, s):
        n, A = self.seq(c, s)
        return [('AssertionError', z3.Or(n < 1, self.ragged(n, A, 0, 1)))]

    def result(self, c, s):
        return give(c, 4)

    def spec(self, A):
        return lambda v: z3.If(v[3] < S[2](A[v[0]]), EL[3](A[v[0]], *v[1:]), RV(0))

    def post(self, c, r, s):
        r = out(c, r)
        n, A = self.seq(c, s)
        D = to_int(r.dims[-1])
        k, d = z3.Ints('k!pk d!pk')
        return [shape(r, (n, S[0](A[0]), S[1](A[0]), D)), entries(r, self.spec(A)),
                ('nothing is lost', z3.ForAll([k, d], z3.Implies(z3.And(rng(k, n), NZ[3](A[k], d)), d < D), patterns=[NZ[3](A[k], d)])),
                ('no wider than needed', z3.Or(D == 0, z3.Exists([k], z3.And(rng(k, n), NZ[3](A[k], D - 1)))))]


class Concat(Pack):
    def params(self, c):
        nd.EX[0] = c
        n = c.fresh('L', I_)
        c.assume(n >= 0)
        A = c.fresh('As', z3.ArraySort(I_, ND))
        return [LObj(SSeq(('model', nd.NdT(4)), n, (A,), 'list'), derived=True)]

    def match(self, c, args):
        return is_arrs(c, args[0], 4)

    def must_raise(self, c, s):
        n, A = self.seq(c, s)
        return [('AssertionError', self.ragged(n, A, 1, 2))]

    def axioms(self, c, s):
        return once(c) + nd.offsets(self.seq(c, s)[1]) + nd.same_offsets()

    def post(self, c, r, s):
        r = out(c, r)
        n, A = self.seq(c, s)
        D = to_int(r.dims[-1])
        k, d, x, i, j = z3.Ints('k!pk d!pk x!pk i!pk j!pk')
        src = EL[4](A[k], x, i, j, d)
        return [('shape', z3.If(n == 0, to_int(r.dims[0]) == 0,
                                z3.And(to_int(r.dims[0]) == OFFS(A, n), to_int(r.dims[1]) == S[1](A[0]), to_int(r.dims[2]) == S[2](A[0])))),
                ('batches follow each other', z3.ForAll([k, x, i, j, d], z3.Implies(
                    z3.And(rng(k, n), rng(x, S[0](A[k])), rng(i, S[1](A[k])), rng(j, S[2](A[k])), rng(d, D)),
                    r.at([OFFS(A, k) + x, i, j, d]) == z3.If(d < S[3](A[k]), src, RV(0))), patterns=[src])),
                ('nothing is lost', z3.ForAll([k, x, d], z3.Implies(z3.And(rng(k, n), NZ[4](A[k], x, d)), d < D), patterns=[NZ[4](A[k], x, d)]))]


# ---- matrices of Laurent polynomials and of integers
def lp_t(c):
    return ('obj', c.repo.modules['peyl.lpoly'].globals['LPoly'], (('coeffs', ('seq', REAL, 'tuple')), ('val', INT)))


def matrix(c, et, name='m'):
    """(object, rows, columns, leaves): a matrix with at least one entry"""
    m = c.fresh_val(('obj', c.repo.modules['peyl.matrix'].globals['Matrix'], (('nrows', INT), ('ncols', INT), ('data', ('seq', et, 'tuple')))), name)
    d, r, k = mparts(c, m)
    c.assume(z3.And(r >= 1, k >= 1, r * k == to_int(d.n), to_int(d.n) >= 1))
    return m


def mparts(c, m):
    return as_sseq(c.as_seq(m.fields['data'])), to_int(m.fields['nrows']), to_int(m.fields['ncols'])


def canonical(L, C, V, k):
    n = L[k]
    return z3.And(n >= 0, z3.Implies(n == 0, V[k] == 0), z3.Implies(n > 0, z3.And(C[k][0] != 0, C[k][n - 1] != 0)))


class FromInts(Case):
    name = 'integers'

    def params(self, c):
        nd.EX[0] = c
        return [matrix(c, REAL), False, nd.DTYPE]

    def match(self, c, args):
        return False

    def axioms(self, c, *a):
        return once(c)

    def post(self, c, r, m, *a):
        r = out(c, r)
        d, R, K = mparts(c, m)
        return [shape(r, (R, K, 1)), entries(r, lambda v: d.arrs[0][K * v[0] + v[1]])]


class FromLPoly(Case):
    """coefficient of v^d (shifted by the least valuation when that is negative and proj is set) of every entry"""
    def __init__(self, proj):
        self.proj, self.name = proj, 'Laurent polynomials' + (', projective' if proj else '')

    def params(self, c):
        nd.EX[0] = c
        m = matrix(c, lp_t(c))
        d, R, K = mparts(c, m)
        L, C, V = d.arrs
        k = z3.Int('k!fm')
        c.assume(z3.ForAll([k], z3.Implies(rng(k, to_int(d.n)), canonical(L, C, V, k)), patterns=[L[k]]))
        return [m, self.proj, nd.DTYPE]

    match = FromInts.match

    def axioms(self, c, m, *a):
        d, R, K = mparts(c, m)
        i, j = z3.Ints('i!fm j!fm')
        return once(c) + [z3.ForAll([i, j], z3.Implies(z3.And(rng(i, R), rng(j, K)), rng(CELL(K, i, j), to_int(d.n))), patterns=[CELL(K, i, j)])]

    zero, least, move = z3.Bool('allzero!fm'), z3.Int('least!fm'), z3.Int('shift!fm')

    def old(self, c, m, *a):
        """Definitions: no entry is nonzero; the least valuation; what is added to degrees."""
        d, R, K = mparts(c, m)
        L, C, V = d.arrs
        n, k = to_int(d.n), z3.Int('k!fm')
        c.assume(self.zero == z3.ForAll([k], z3.Implies(rng(k, n), L[k] == 0), patterns=[L[k]]))
        c.assume(z3.Implies(z3.Not(self.zero), z3.And(
            z3.Exists([k], z3.And(rng(k, n), L[k] != 0, V[k] == self.least)),
            z3.ForAll([k], z3.Implies(z3.And(rng(k, n), L[k] != 0), V[k] >= self.least), patterns=[L[k]]))))
        c.assume(self.move == (z3.If(z3.And(z3.Not(self.zero), self.least < 0), self.least, IV(0)) if self.proj else IV(0)))

    def must_raise(self, c, m, *a):
        return [] if self.proj else [('ValueError', z3.And(z3.Not(self.zero), self.least < 0))]

    def coeff(self, c, m, *a):
        d, R, K = mparts(c, m)
        L, C, V = d.arrs
        s = self.move

        def f(v):
            q = CELL(K, v[0], v[1])
            e = v[2] + s - V[q]
            return z3.If(rng(e, L[q]), C[q][e], RV(0))
        return f

    def post(self, c, r, m, *a):
        r = out(c, r)
        d, R, K = mparts(c, m)
        L, C, V = d.arrs
        s = self.move
        D, n, k = to_int(r.dims[-1]), to_int(d.n), z3.Int('k!fm')
        return [shape(r, (R, K, D)), entries(r, self.coeff(c, m)),
                ('nothing is lost', z3.ForAll([k], z3.Implies(z3.And(rng(k, n), L[k] != 0), z3.And(V[k] - s >= 0, V[k] - s + L[k] <= D)), patterns=[L[k]]))]


class ToMatrix(PCase):
    """entry (i, j) is the polynomial with the coefficients A[i, j]"""
    def pre(self, c, a):
        return [('there is a row', to_int(a.dims[0]) >= 1)]

    def match(self, c, args):
        return False

    def post(self, c, r, a):
        if not isinstance(r, Obj) or r.cls.name != 'Matrix':
            return [('a matrix', z3.BoolVal(False))]
        s, R, K = mparts(c, r)
        if s.et != lp_t(c):
            return [('Laurent polynomials', z3.BoolVal(False))]
        L, C, V = s.arrs
        I, J, D = map(to_int, a.dims)
        i, j, d = z3.Ints('i!ix j!ix d!ix')
        q = CELL(K, i, j)
        box = z3.And(rng(i, I), rng(j, J))
        el = a.at([i, j, d])
        return [('rows', R == I), ('columns', K == J),
                ('canonical', z3.ForAll([i, j], z3.Implies(box, canonical(L, C, V, q)), patterns=[q])),
                ('no other terms', z3.ForAll([i, j], z3.Implies(z3.And(box, L[q] > 0), z3.And(V[q] >= 0, V[q] + L[q] <= D)), patterns=[q])),
                ('coefficients', z3.ForAll([i, j, d], z3.Implies(z3.And(box, rng(d, D)), el == z3.If(rng(d - V[q], L[q]), C[q][d - V[q]], RV(0))), patterns=[el]))]


def fill2(ex, view):
    """Nested loops over the rows and columns of an array."""
    spec = getattr(ex.current_case, 'coeff', None)
    if view.k is None or spec is None:
        return
    f = spec(ex, *ex.entry_args)
    a = ex.entry_args[0]
    env = [(x, to_int(v)) for x, v in view.entry.vars.items() if is_int(v) and x not in view.entry.names and z3.is_const(to_int(v)) and '@L' in str(v)]
    _, R, K = mparts(ex, a)
    over = lambda n: view.n is None or ex.provable(to_int(view.n) == n) is True
    parts = []
    if not env:
        parts += [('rows < k', lambda p, q, k: p < k)] if over(R) else []
        parts += [('columns < k', lambda p, q, k: q < k)] if over(K) else []
    parts += [(f'rows < {n}, columns < k of row {n}', lambda p, q, k, x=x: z3.Or(p < x, z3.And(p == x, q < k))) for n, x in env if over(K)]
    parts += [(f'columns < {n}, rows < k of column {n}', lambda p, q, k, x=x: z3.Or(q < x, z3.And(q == x, p < k))) for n, x in env if over(R)]
    own = [nm for nm, w in sorted(view.frame.vars.items()) if isinstance(w, nd.View) and isinstance(w.base, nd.Buf) and not w.base.param and w.whole() and w.rank == 3]
    for nm in own:
        for what, done in parts:
            def yes(v, nm=nm, done=done):
                w, vs = v.frame.vars[nm].freeze(), idx(3)
                c = w.at(vs)
                return z3.ForAll(vs, z3.Implies(z3.And(inside(vs, w.dims), done(vs[0], vs[1], v.k)), c == f(vs)), patterns=[c])

            def no(v, nm=nm, done=done):
                w, vs = v.frame.vars[nm].freeze(), idx(3)
                c = w.at(vs)
                return z3.ForAll(vs, z3.Implies(z3.And(inside(vs, w.dims), z3.Not(done(vs[0], vs[1], v.k))), c == 0), patterns=[c])
            yield f'{nm} is filled in {what}', yes
            yield f'{nm} is zero but in {what}', no


def fill(axis, spec):
    """Loops that fill an array along an axis."""
    def hints(ex, view):
        if view.k is None:
            return
        f = spec(ex)
        if f is None:
            return

        def found(v):
            return [w for nm, w in sorted(v.frame.vars.items()) if isinstance(w, nd.View) and isinstance(w.base, nd.Buf) and not w.base.param and w.whole()]

        for q in range(len(found(view))):
            def done(v, q=q):
                w = found(v)[q].freeze()
                vs = idx(w.rank)
                c = w.at(vs)
                return z3.ForAll(vs, z3.Implies(z3.And(inside(vs, w.dims), vs[axis] < v.k), c == f(vs)), patterns=[c])

            def rest(v, q=q):
                w = found(v)[q].freeze()
                vs = idx(w.rank)
                c = w.at(vs)
                return z3.ForAll(vs, z3.Implies(z3.And(inside(vs, w.dims), vs[axis] >= v.k), c == 0), patterns=[c])
            yield f'array {q} is filled so far', done
            yield f'array {q} is zero from here on', rest
    return hints


def trim_hints(ex, view):
    """Counters of zero degrees."""
    a = ex.entry_args[0]
    A, r, D = tok(a), a.rank, to_int(a.dims[-1])
    X, d = idx(r)[:-3], idx(r)[-1]
    nz = NZ[r](A, *X, d)
    if view.k is not None:
        yield 'degrees are below D - k', lambda v: z3.ForAll([*X, d], z3.Implies(nz, d < D - v.k), patterns=[nz])
        yield 'degrees are from k on', lambda v: z3.ForAll([*X, d], z3.Implies(nz, d >= v.k), patterns=[nz])
    for nm in sorted(n for n, v in view.frame.vars.items() if n in view.entry.names and is_int(v)):
        yield f'{nm} bounds the degrees', lambda v, nm=nm: z3.And(to_int(v.var(nm)) >= 0, to_int(v.var(nm)) <= D)
        yield f'degrees are below {nm}', lambda v, nm=nm: z3.ForAll([*X, d], z3.Implies(nz, d < to_int(v.var(nm))), patterns=[nz])
        yield f'degrees are from {nm} on', lambda v, nm=nm: z3.ForAll([*X, d], z3.Implies(nz, d >= to_int(v.var(nm))), patterns=[nz])


MATRIX = ['peyl.matrix:Matrix.' + x for x in ('map',)] + [
    'peyl.lpoly:LPoly.' + x for x in ('coerce', 'is_zero', 'valuation', 'degree')]


def contracts(repo):
    from specs import rep
    opts = dict(floats=True, externals=nd.EXTERNALS, ring=False, nd=True, flatten=True)

    def C(q, cases, **kw):
        inline = kw.pop('inline', ())
        r = Contract(M + q, cases, prop='C11', opts={**opts, **kw.pop('opts', {})}, **{'theories': [], **kw})
        r.inline = inline
        return r

    def trusted(case):
        case.trusted = True
        return case
    mulspec = lambda ex: ex.current_case.spec(*ex.entry_args[:2])
    return [
        C('eye', [Eye()], body_only=True),
        C('trim', [Trim(3), Trim(4)], hints=trim_hints),
        C('trim_left', [TrimLeft(3), TrimLeft(4)], hints=trim_hints),
        C('zeropad', [ZeroPad(3), ZeroPad(4)]),
        C('mul', [Mul(a, b, q) for q in (False, True) for a in (3, 4) for b in (3, 4)] + [rep.MulImages()], hints=fill(-1, mulspec)),
        C('pack', [Pack(), rep.PackImages()], hints=fill(0, lambda ex: ex.current_case.spec(ex.entry_args[0].val.arrs[0]))),
        C('concatenate', [Concat()]),
        C('burau_generator_v2', [Burau()]),
        C('to_matrix', [ToMatrix()], opts=dict(linear=True)),
        C('from_matrix', [FromInts(), FromLPoly(False), FromLPoly(True), rep.FromXMat()], hints=fill2, inline=MATRIX, opts=dict(patience=6, linear=True)),
        C('projectivise', [Projectivise(3), Projectivise(4), rep.ProjImages(), trusted(search.Proj())], hints=fill(0, lambda ex: ex.current_case.spec(ex.entry_args[0]))),
        C('proj_starts_ends', [StartsEnds(3), StartsEnds(4), trusted(search.StartsEnds())]),
        C('projlen', [Stat(3, s_projlen, False), Stat(4, s_projlen, False), trusted(search.PerImage(search.PLEN))]),
        C('efflen', [Stat(3, s_efflen, False), Stat(4, s_efflen, False)]),
        C('valmin', [Stat(3, s_valmin, False), Stat(4, s_valmin, False)]),
        C('degmax', [Stat(3, s_degmax, False), Stat(4, s_degmax, False)]),
        C('nz_terms', [Stat(3, s_terms, False, False), Stat(4, s_terms, False, False), trusted(search.PerImage(search.NZT))]),
        C('rhogap', [Rho(3, s_rhogap, False), Rho(4, s_rhogap, False)]),
    ]
