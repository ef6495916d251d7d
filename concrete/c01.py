"""C01: braid arithmetic in both normal forms.  Braids are given as (power, factors) over the table's numbering, where
the factors were chosen left-weighted by the oracle; results are compared by their Lawrence-Krammer images and tested
for normality by the oracle."""
import itertools
from rt import *
import braidor as O
from peyl import braid as B
from peyl.braid import GNF, DGNF

CLS = {'GNF': GNF, 'DGNF': DGNF}


def good(S, b, img, *what):
    """b is the normal form of the braid with the given image."""
    need(type(b) is S.cls and b.n == S.n and isinstance(b.power, int) and isinstance(b.factors, tuple), *what, f': not a braid: {short(b)}')
    need(S.normal(b.factors), *what, f': factors {b.factors} are not in normal form')
    need(O.same(S.image(b.power, b.factors), img), *what, f': not the group result: power {b.power}, factors {short(b.factors)}')


def mk(S, x):
    b = S.cls(S.n, x[0], tuple(x[1]))
    return b


@contract
def br_construct(kind, n, x):
    """Only normal factor sequences are accepted."""
    S = O.struct(kind, n)
    if S.normal(x[1]):
        b = mk(S, x)
        eq((b.n, b.power, b.factors), (n, x[0], tuple(x[1])), 'fields')
    elif all(0 <= f < S.N for f in x[1]):
        refuses((AssertionError, ValueError), lambda: mk(S, x), 'non-normal factors', x)
    else:
        return 'trivial'


@contract
def br_mul(kind, n, x, y):
    S = O.struct(kind, n)
    a, b = mk(S, x), mk(S, y)
    ia, ib = S.image(*x), S.image(*y)
    ab = a * b
    good(S, ab, O.mul(ia, ib), 'product of', x, 'and', y)
    eq(a == b, O.same(ia, ib), x, '==', y)
    if (x[0], tuple(x[1])) == (y[0], tuple(y[1])):
        eq(hash(a), hash(b), 'hash')
    eq((a, b), (mk(S, x), mk(S, y)), 'operands changed')
    # cancellation gives back the same object: equality is structural
    need(ab * b.inv() == a and a.inv() * ab == b, 'cancellation', x, y)


@contract
def br_inv(kind, n, x):
    S = O.struct(kind, n)
    a = mk(S, x)
    i = a.inv()
    e = S.cls.identity(n)
    eq((e.power, e.factors), (0, ()), 'identity')
    need(S.normal(i.factors) and O.same(O.mul(S.image(i.power, i.factors), S.image(*x)), O.one(n)), 'inverse of', x, 'is', i.power, i.factors)
    need(a * i == e and i * a == e and i.inv() == a, 'inverse laws', x)
    need(a * e == a and e * a == a, 'identity laws', x)


@contract
def br_pow(kind, n, x, k):
    S = O.struct(kind, n)
    a = mk(S, x)
    r = a ** k
    if k >= 0:
        good(S, r, O.mpow(n, S.image(*x), k), x, '**', k)
    else:
        need(S.normal(r.factors), 'not normal', r)
        need(O.same(O.mul(S.image(r.power, r.factors), O.mpow(n, S.image(*x), -k)), O.one(n)), x, '**', k)


@contract
def br_assoc(kind, n, x, y, z):
    S = O.struct(kind, n)
    a, b, c = mk(S, x), mk(S, y), mk(S, z)
    eq((a * b) * c, a * (b * c), 'associativity', x, y, z)


@contract
def br_long(kind, n, x, y, k):
    """Long braids: group laws, judged by equality of objects (a product which travels all the way along the factors)."""
    S = O.struct(kind, n)
    a, b = mk(S, x), mk(S, y)
    e = S.cls.identity(n)
    i = a.inv()
    need(a * i == e and i * a == e, 'long inverse', x)
    ab = a * b
    need(S.normal(ab.factors), 'long product', x, y)
    need(ab * b.inv() == a and i * ab == b, 'long cancellation', x, y)
    k %= len(x[1]) + 1
    need(mk(S, (x[0], x[1][:k])) * mk(S, (0, x[1][k:])) == a, 'long split', x, k)


@contract
def br_normalise(kind, n, seq):
    """The normal form of any sequence of divisors."""
    S = O.struct(kind, n)
    power, factors = S.table.normalise_factors(list(seq))
    need(S.normal(factors), 'normalise_factors', seq, 'gives', factors)
    need(O.same(S.image(power, factors), S.image(0, seq)), 'normalise_factors', seq, 'gives', power, factors)
    k = max(0, len(seq) // 2)
    # the product routine on two normal sequences
    p1, f1 = S.table.normalise_factors(seq[:k])
    p2, f2 = S.table.normalise_factors(seq[k:])
    d, f = S.table.product_normalised_factors(f1, f2)
    need(S.normal(f), 'product_normalised_factors', f1, f2, 'gives', f)
    need(O.same(S.image(d, f), S.image(0, tuple(f1) + tuple(f2))), 'product_normalised_factors', f1, f2, 'gives', d, f)
    eq(bool(S.table.is_factors_normalised(tuple(seq))), S.normal(seq), 'is_factors_normalised', seq)


@contract
def br_mixed(n, m):
    """Braids from different groups or of different kinds do not multiply."""
    if n != m:
        refuses((ValueError,), lambda: GNF(n, 1, ()) * GNF(m, 1, ()), 'different groups')
        refuses((ValueError,), lambda: DGNF(n, 1, ()) * DGNF(m, 1, ()), 'different groups')
    refuses((TypeError,), lambda: GNF(n, 1, ()) * DGNF(n, 1, ()), 'different kinds')
    refuses((TypeError,), lambda: DGNF(n, 1, ()) * 3, 'braid times int')


def structs(ctx):
    ks = [('GNF', 2), ('GNF', 3), ('GNF', 4), ('GNF', 5), ('DGNF', 2), ('DGNF', 3), ('DGNF', 4), ('DGNF', 5), ('DGNF', 6)]
    if ctx.thorough:
        ks += [('GNF', 6)]
    return ks


def run(ctx):
    ints = [i for i in mined_ints('peyl/braid.py') if abs(i) < 100]
    for n in range(2, 5):
        for m in range(2, 5):
            ctx.do(br_mixed, n, m)
    for kind, n, top in [('GNF', 2, 4), ('GNF', 3, 4), ('DGNF', 2, 4), ('DGNF', 3, 4), ('DGNF', 4, 2), ('GNF', 4, 1)]:
        S = O.struct(kind, n)
        nfs = [()]
        allnf = []
        for l in range(top + 1):
            allnf += nfs
            nfs = [f + (y,) for f in nfs for y in S.follows(f[-1] if f else S.D)]
        for f in allnf:
            for p in (-3, -2, -1, 0, 1, 2):
                ctx.do(br_inv, kind, n, (p, f))
        short_nf = [f for f in allnf if len(f) <= 2]
        for f in short_nf[:40]:
            for g in short_nf[:40]:
                for p in (-1, 0, 1):
                    ctx.do(br_mul, kind, n, (1, f), (p, g))
            for k in range(-4, 6):
                ctx.do(br_pow, kind, n, (1, f), k)
        for l in range(0, 4 if S.N > 6 else 5):
            for i, seq in enumerate(itertools.product(range(S.N), repeat=l)):
                if i % (1 if S.N ** l < 1500 else 7) == 0 and i < 4000:
                    ctx.do(br_normalise, kind, n, seq)
                    if l <= 2:
                        ctx.do(br_construct, kind, n, (0, seq))

    def once(r):
        kind, n = r.choice(structs(ctx))
        S = O.struct(kind, n)

        def nf(maxlen=8):
            L = r.choice([0, 1, 1, 2, 3, 4, r.randint(0, maxlen)])
            if r.random() < .04:
                L = r.choice([i for i in ints if 0 < i <= 40] or [2])
            return (r.choice([0, 0, 1, -1, 2, -2, 3, r.randint(-9, 9), r.choice(ints or [0])]), S.rand_nf(r, L))
        x, y, z = nf(), nf(), nf()
        ctx.do(br_mul, kind, n, x, y)
        ctx.do(br_inv, kind, n, x)
        ctx.do(br_pow, kind, n, nf(3), r.choice([-6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 9]))
        ctx.do(br_assoc, kind, n, x, y, z)
        ctx.do(br_normalise, kind, n, tuple(r.choice([S.id, S.D, r.randrange(S.N), r.randrange(S.N), r.randrange(S.N)]) for _ in range(r.randint(0, 9))))
        # products with large cancellation: y starts with the inverse of the end of x
        b = mk(S, x).inv()
        c = S.cls(n, 0, S.rand_nf(r, 2)) * b
        ctx.do(br_mul, kind, n, (c.power, c.factors), x)
        if r.random() < .1:
            L = r.choice([i for i in ints if 10 < i] + [20, 60, 120])
            ctx.do(br_long, kind, n, (r.randint(-3, 3), S.rand_nf(r, r.randint(L, L + 9))), (r.randint(-3, 3), S.rand_nf(r, r.choice([1, 3, L // 2]))), r.randint(0, L))
        w = list(S.rand_nf(r, r.randint(1, 4)))
        w[r.randrange(len(w)) if w else 0:] = [r.randrange(S.N)] if w else []
        ctx.do(br_construct, kind, n, (r.randint(-3, 3), tuple(w)))
    ctx.loop(14, once)
