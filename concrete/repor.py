"""Independent oracle for evaluation in representations.

Matrices of Laurent polynomials are multiplied by Kronecker substitution (v = 2^K on Python integers), starting from the
generator matrices of the representation; braids are read as words by braidor (never by the library's own conversions)."""
import functools
import numpy as np
import braidor as O
from rt import *
from peyl import tl
from peyl.jonesrep import JonesCellRep, LKBRep
from peyl.braidsearch import JonesSummand
from peyl.lpoly import LPoly

K = 256          # bits per coefficient


def poly(x):
    if isinstance(x, (int, np.integer)):
        return {0: int(x)} if x else {}
    need(isinstance(x, LPoly), 'entry', x)
    return {x.val + i: int(c) for i, c in enumerate(x.coeffs) if c}


def entries(m):
    """{(i, j): {e: c}} of a Matrix."""
    return {(i, j): poly(m[i, j]) for i in range(m.nrows) for j in range(m.ncols)}


def norm(e, p=0):
    """Drop zeros (after reduction modulo p) and shift by a power of v so that the least exponent is zero."""
    out = {}
    for k, q in e.items():
        q = {x: (c % p if p else c) for x, c in q.items()}
        q = {x: c for x, c in q.items() if c}
        if q:
            out[k] = q
    lo = min((min(q) for q in out.values()), default=0)
    return {k: {x - lo: c for x, c in q.items()} for k, q in out.items()}


def reduce(e, p):
    out = {k: {x: (c % p if p else c) for x, c in q.items()} for k, q in e.items()}
    return {k: {x: c for x, c in q.items() if c} for k, q in out.items() if any(q.values())}


def packed(a):
    """{(i, j): {e: c}} of one packed matrix."""
    need(a.ndim == 3, 'packed matrix of shape', a.shape)
    out = {}
    for i, j, d in zip(*np.nonzero(a)):
        out.setdefault((int(i), int(j)), {})[int(d)] = int(a[i, j, d])
    return out


def spread(e):
    xs = [x for q in e.values() for x in q]
    return max(xs) - min(xs) + 1 if xs else 0


class KMat:
    """A d x d matrix v^-s * M(v), M a polynomial matrix given at v = 2^K."""
    def __init__(self, s, m):
        self.s, self.m = s, m

    @staticmethod
    def of(d, e):
        s = max([0] + [-x for q in e.values() for x in q])
        m = np.zeros((d, d), dtype=object)
        for (i, j), q in e.items():
            m[i, j] = sum(c << (K * (x + s)) for x, c in q.items())
        return KMat(s, m)

    def __mul__(self, o):
        return KMat(self.s + o.s, self.m.dot(o.m))

    def entries(self):
        out = {}
        for (i, j), x in np.ndenumerate(self.m):
            q, e = {}, -self.s
            x = int(x)
            while x:
                c = x & ((1 << K) - 1)
                if c >> (K - 1):
                    c -= 1 << K
                if c:
                    q[e] = c
                x = (x - c) >> K
                e += 1
            if q:
                out[i, j] = q
        return out


@functools.cache
def make(desc):
    """The library's representation of a description."""
    if desc[0] == 'jones':
        return JonesCellRep(n=desc[1], r=desc[2], p=desc[3])
    if desc[0] == 'summand':
        return JonesSummand(n=desc[1], r=desc[2], p=desc[3])
    _, n, p, q, t = desc
    return LKBRep(n, p, LPoly(q[0], (q[1],)), LPoly(t[0], (t[1],)))


@functools.cache
def oracle(desc):
    return RepOracle(desc)


class RepOracle:
    def __init__(self, desc):
        self.desc, self.n = desc, desc[1]
        if desc[0] == 'lkb':
            self.p = desc[2]
            rep = LKBRep(desc[1], 0, LPoly(desc[3][0], (desc[3][1],)), LPoly(desc[4][0], (desc[4][1],)))
            g, h = rep.artin_gens_invs()
            self.d = self.n * (self.n - 1) // 2
            g, h = [entries(x) for x in g], [entries(x) for x in h]
        else:
            n, r, self.p = desc[1:]
            g, h = jones_gens(n, r)
            self.d = len(cell_diagrams(n, r))
        self.g, self.h = [KMat.of(self.d, e) for e in g], [KMat.of(self.d, e) for e in h]
        one = self.one().entries()
        for a, b in zip(self.g, self.h):
            need((a * b).entries() == one and (b * a).entries() == one, 'generators and inverses', desc)
        self.cache = {}

    def one(self):
        return KMat.of(self.d, {(i, i): {0: 1} for i in range(self.d)})

    def word(self, w):
        r = self.one()
        for i, e in w:
            for _ in range(abs(e)):
                r = r * (self.g[i] if e >= 0 else self.h[i])
        return r

    def divisor(self, S, f):
        k = (S.kind, f)
        if k not in self.cache:
            self.cache[k] = self.word(S.words[f])
        return self.cache[k]

    def braid(self, S, x):
        """The exact image of the braid (power, factors)."""
        D = O.Dword(S.kind, self.n)
        w = D if x[0] >= 0 else [(i, -e) for i, e in reversed(D)]
        r = self.one()
        for _ in range(abs(x[0])):
            r = r * self.word(w)
        for f in x[1]:
            r = r * self.divisor(S, f)
        return r.entries()


# ---- the cell modules, built from diagrams here: sigma_i = 1 - v e_i
def cell_diagrams(n, r):
    """All (n, n-2r) diagrams with n-2r through strands, in the library's order."""
    return [(d.top, d.bot, tuple(d.seq)) for d in tl.cell_basis(n, r)]


@functools.cache
def jones_gens(n, r):
    import c07
    B = cell_diagrams(n, r)
    ix = {b: i for i, b in enumerate(B)}
    gs, hs = [], []
    for i in range(n - 1):
        for s, out in ((1, gs), (-1, hs)):
            e = {(a, a): {0: 1} for a in range(len(B))}
            for b, a in ix.items():
                z, loops = c07.glue(c07.gen(i, n), b)
                if z in ix:       # enough through strands
                    k = (ix[z], a)
                    q = {s: -1} if not loops else {s + 1: -1, s - 1: -1}
                    e[k] = c07.padd(e.get(k, {}), q)
            out.append(e)
    return gs, hs
