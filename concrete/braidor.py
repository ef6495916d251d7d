"""Independent oracle for braid groups.

Equality in the braid group is decided by the Lawrence-Krammer representation (faithful, by Bigelow and Krammer) at a
random point of a large prime field: equal braids always have equal images, so no false alarm is possible.  Divisors of
the Garside elements are read from their combinatorial data (a permutation word, a noncrossing matching), and turned
into braid words here, without calling the library's conversions."""
import functools, itertools, random
import numpy as np

PRIME = 536870909
Q, T = 123456791, 398765437
assert all(PRIME % d for d in range(2, 24000))


def _mul(a, b):
    """Exact product modulo PRIME (split to avoid overflow)."""
    hi, lo = a >> 15, a & 32767
    return (((hi @ b) % PRIME) * 32768 + (lo @ b)) % PRIME


def _inv(m):
    n = len(m)
    a = [[int(x) for x in r] + [int(i == j) for j in range(n)] for i, r in enumerate(m)]
    for c in range(n):
        p = next(r for r in range(c, n) if a[r][c] % PRIME)
        a[c], a[p] = a[p], a[c]
        k = pow(a[c][c], -1, PRIME)
        a[c] = [x * k % PRIME for x in a[c]]
        for r in range(n):
            if r != c and a[r][c]:
                f = a[r][c]
                a[r] = [(x - f * y) % PRIME for x, y in zip(a[r], a[c])]
    return np.array([r[n:] for r in a], dtype=np.int64)


@functools.cache
def gens(n):
    """LKB images of sigma_0..sigma_{n-2} and of their inverses."""
    pairs = list(itertools.combinations(range(n), 2))
    idx = {p: i for i, p in enumerate(pairs)}
    out = []
    for k in range(n - 1):
        m = [[0] * len(pairs) for _ in pairs]
        for (i, j), c in idx.items():
            def put(p, x):
                m[idx[p]][c] = (m[idx[p]][c] + x) % PRIME
            if (i, j) == (k, k + 1):
                put((i, j), T * Q * Q)
            elif j == k:
                put((i, k), 1 - Q); put((i, k + 1), Q)
            elif i < k and j == k + 1:
                put((i, k), 1); put((k, k + 1), T * pow(Q, k - i + 1, PRIME) * (Q - 1))
            elif i == k:
                put((k, k + 1), T * Q * (Q - 1)); put((k + 1, j), Q)
            elif i == k + 1:
                put((k, j), 1); put((k + 1, j), 1 - Q)
            elif i < k and j > k + 1:
                put((i, j), 1); put((k, k + 1), T * pow(Q, k - i, PRIME) * (Q - 1) ** 2)
            else:
                put((i, j), 1)
        out.append(np.array(m, dtype=np.int64))
    inv = [_inv(m) for m in out]
    for a, b in zip(out, inv):
        assert (_mul(a, b) == np.eye(len(pairs), dtype=np.int64)).all()
    for i, j in itertools.combinations(range(n - 1), 2):
        a, b = out[i], out[j]
        if j == i + 1:
            assert (_mul(_mul(a, b), a) == _mul(_mul(b, a), b)).all()
        else:
            assert (_mul(a, b) == _mul(b, a)).all()
    return out, inv


def one(n):
    return np.eye(n * (n - 1) // 2, dtype=np.int64)


def mpow(n, m, k):
    r = one(n)
    while k:
        if k & 1:
            r = _mul(r, m)
        m = _mul(m, m)
        k >>= 1
    return r


def image(n, word):
    """Image of a word [(i, exponent), ...]."""
    g, h = gens(n)
    r = one(n)
    for i, e in word:
        assert 0 <= i < n - 1
        m = g[i] if e >= 0 else h[i]
        r = _mul(r, mpow(n, m, abs(e)) if abs(e) > 3 else functools.reduce(_mul, [m] * abs(e), one(n)))
    return r


def same(a, b):
    return a.shape == b.shape and bool((a == b).all())


def perm_word(w):
    """A reduced word of the permutation w: w = s_{i1} ... s_{ik}, products acting right to left."""
    w, out = list(w), []
    again = True
    while again:
        again = False
        for i in range(len(w) - 1):
            if w[i] > w[i + 1]:
                w[i], w[i + 1] = w[i + 1], w[i]
                out.append(i)
                again = True
    return [(i, 1) for i in reversed(out)]


def blocks_of(inv):
    n = len(inv) // 2
    seen, out = set(), []
    for i in range(n):
        if i not in seen:
            b, j = [], i
            while j not in seen:
                seen.add(j)
                b.append(j)
                j = inv[2 * j + 1] // 2
            out.append(sorted(b))
    return out


def npar_word(inv):
    """Word of the divisor of delta: for a block c0 < ... < ck the product a_{k,k-1} ... a_{1,0}."""
    w = []
    for b in blocks_of(inv):
        for s, t in reversed(list(zip(b, b[1:]))):
            w += [(i, 1) for i in range(t - 1, s - 1, -1)] + [(i, -1) for i in range(s + 1, t)]
    return w


def div_word(d):
    return perm_word(d.word) if hasattr(d, 'word') else npar_word(d.inv)


def Dword(kind, n):
    return perm_word(range(n - 1, -1, -1)) if kind == 'GNF' else [(i, 1) for i in range(n - 2, -1, -1)]


def lw_data(d):
    """(data for the right side of the left factor, data for the left side of the right factor) as sets of atoms."""
    if hasattr(d, 'word'):
        w = list(d.word)
        v = [0] * len(w)
        for i, x in enumerate(w):
            v[x] = i
        n = len(w)
        return frozenset(i for i in range(n - 1) if w[i] < w[i + 1]), frozenset(i for i in range(n - 1) if v[i] > v[i + 1])
    bl = blocks_of(d.inv)
    n = len(d.inv) // 2
    w = list(range(n))
    for b in bl:
        for i, x in enumerate(b):
            w[x] = b[i - 1]
    v = [0] * n
    for i, x in enumerate(w):
        v[x] = i
    c = [v[(i - 1) % n] for i in range(n)]       # right complement: w^-1 delta
    comp, seen = set(), set()
    for i in range(n):
        if i not in seen:
            b, j = [], i
            while j not in seen:
                seen.add(j)
                b.append(j)
                j = c[j]
            comp |= set(itertools.combinations(sorted(b), 2))
    return frozenset(comp), frozenset(e for b in bl for e in itertools.combinations(b, 2))


class Struct:
    """The Garside structure of kind GNF or DGNF on n strands, over the table's numbering of divisors."""
    def __init__(self, cls, n):
        self.kind, self.n, self.cls = cls.__name__, n, cls
        self.table = cls._nf_table(n)
        self.divs = list(self.table.divs)
        self.lw = [lw_data(d) for d in self.divs]
        self.N = len(self.divs)
        self.words = [div_word(d) for d in self.divs]
        self.Dimg = image(n, Dword(self.kind, n))
        self.Dinv = image(n, [(i, -e) for i, e in reversed(Dword(self.kind, n))])
        self.id = next(i for i, w in enumerate(self.words) if not w)
        # D: no atom can be added on the right
        self.D = next(i for i, (r, l) in enumerate(self.lw) if not r)
        self.follow = {}
        self.img = {}

    def dimg(self, f):
        if f not in self.img:
            self.img[f] = image(self.n, self.words[f])
        return self.img[f]

    def weighted(self, x, y):
        """(x, y) is left-weighted: no atom dividing y can be moved to x."""
        return not (self.lw[x][0] & self.lw[y][1])

    def follows(self, x):
        if x not in self.follow:
            self.follow[x] = [y for y in range(self.N) if y not in (self.id, self.D) and self.weighted(x, y)]
        return self.follow[x]

    def normal(self, factors):
        return all(0 <= f < self.N and f != self.id and f != self.D for f in factors) and all(self.weighted(x, y) for x, y in zip(factors, factors[1:]))

    def image(self, power, factors):
        r = mpow(self.n, self.Dimg if power >= 0 else self.Dinv, abs(power))
        for f in factors:
            r = _mul(r, self.dimg(f))
        return r

    def rand_nf(self, r, length):
        out, last = [], self.D
        for _ in range(length):
            fs = self.follows(last)
            if not fs:
                break
            last = r.choice(fs)
            out.append(last)
        return tuple(out)


@functools.cache
def struct(kind, n):
    from peyl import braid
    return Struct(getattr(braid, kind), n)


def mul(a, b):
    return _mul(a, b)
