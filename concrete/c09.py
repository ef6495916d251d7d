"""C09: polynomials and division with remainder.  Oracle: coefficient lists, schoolbook arithmetic."""
import itertools
from fractions import Fraction
from math import gcd
from rt import *
from peyl.poly import Poly
from c08 import parse


def T(a):
    a = list(a)
    while a and a[-1] == 0:
        a.pop()
    return a


def add(a, b, s=1):
    return T([x + s * y for x, y in itertools.zip_longest(a, b, fillvalue=0)])


def mul(a, b):
    out = [0] * (len(a) + len(b))
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            out[i + j] += x * y
    return T(out)


def power(a, n):
    out = [1]
    for _ in range(n):
        out = mul(out, a)
    return out


def is_poly(p, want, *what):
    need(isinstance(p, Poly), *what, f': not a Poly: {short(p)}')
    need(isinstance(p.coeffs, tuple), *what, ': coefficients not a tuple')
    eq(list(p.coeffs), list(want), *what)


@contract
def poly_init(a):
    p = Poly(*a)
    is_poly(p, T(a), 'Poly', a)
    eq(p.deg(), len(T(a)) - 1, 'deg', a)
    eq(p.is_zero(), not T(a), 'is_zero', a)
    is_poly(-p, [-c for c in T(a)], '-', a)


@contract
def poly_binary(a, b):
    p, q, x, y = Poly(*a), Poly(*b), T(a), T(b)
    is_poly(p + q, add(x, y), a, '+', b)
    is_poly(p - q, add(x, y, -1), a, '-', b)
    is_poly(p * q, mul(x, y), a, '*', b)
    eq(p == q, x == y, a, '==', b)
    is_poly(p, x, 'operand changed')
    is_poly(q, y, 'operand changed')


@contract
def poly_int(a, k):
    p, x = Poly(*a), T(a)
    is_poly(p + k, add(x, [k]), a, '+', k)
    is_poly(k + p, add(x, [k]), k, '+', a)
    is_poly(p - k, add(x, [k], -1), a, '-', k)
    is_poly(p * k, mul(x, [k]), a, '*', k)
    is_poly(k * p, mul(x, [k]), k, '*', a)


@contract
def poly_pow(a, n):
    if n < 0:
        refuses((ValueError,), lambda: Poly(*a) ** n, a, '**', n)
    else:
        is_poly(Poly(*a) ** n, power(T(a), n), a, '**', n)


@contract
def poly_evaluate(a, num, den):
    at = Fraction(num, den)
    eq(Fraction(Poly(*a).evaluate(at)), sum((c * at ** i for i, c in enumerate(a)), Fraction(0)), a, 'at', at)
    want = []
    for c in reversed(T(a)):
        want = add(mul(want, [1, num]), [c])
    got = Poly(*a).evaluate(Poly(1, num))
    got = got if isinstance(got, Poly) else Poly(got)
    is_poly(got, want, a, 'at 1 +', num, 'x')


@contract
def poly_divide(a, b):
    x, y = T(a), T(b)
    p, q = Poly(*a), Poly(*b)
    if not y:
        refuses(Exception, lambda: divmod(p, q), a, 'divmod', b)
        refuses(Exception, lambda: p / q, a, '/', b)
        return
    # division over Q
    rem, quo = [Fraction(c) for c in x], [Fraction(0)] * max(0, len(x) - len(y) + 1)
    while len(rem) >= len(y):
        c, k = rem[-1] / y[-1], len(rem) - len(y)
        quo[k] = c
        rem = add(rem, mul([Fraction(0)] * k + [c], y), -1)
    integral = all(c.denominator == 1 for c in quo)
    if integral:
        d, r = divmod(p, q)
        is_poly(d, T([int(c) for c in quo]), a, 'divmod', b, 'quotient')
        is_poly(r, T([int(c) for c in rem]), a, 'divmod', b, 'remainder')
    else:
        refuses((ValueError,), lambda: divmod(p, q), a, 'divmod', b)
    if integral and not T(rem):
        is_poly(p / q, T([int(c) for c in quo]), a, '/', b)
    else:
        refuses((ValueError,), lambda: p / q, a, '/', b)


@contract
def poly_print(a):
    s = repr(Poly(*a))
    need(s.startswith("Poly('") and s.endswith("')"), 'repr', s)
    eq(parse(s[6:-2], 'x'), {i: c for i, c in enumerate(a) if c}, 'repr of', a)


@contract
def poly_cyclotomic(n):
    """The product of the cyclotomic polynomials of the divisors of n is x^n - 1, and phi(n) is the degree."""
    if n <= 0:
        return refuses((ValueError,), lambda: Poly.cyclotomic(n), n)
    prod = [1]
    for d in range(1, n + 1):
        if n % d == 0:
            prod = mul(prod, list(Poly.cyclotomic(d).coeffs))
    eq(prod, [-1] + [0] * (n - 1) + [1], 'product of cyclotomics for', n)
    is_poly(Poly.cyclotomic(n), T(Poly.cyclotomic(n).coeffs))
    eq(Poly.cyclotomic(n).deg(), sum(gcd(i, n) == 1 for i in range(1, n + 1)), 'degree')


@contract
def poly_chebyshev(n):
    if n < 0:
        return refuses((ValueError,), lambda: Poly.chebyshevT(n), n)
    t = [[1], [0, 1]]
    while len(t) <= n:
        t.append(add(mul([0, 2], t[-1]), t[-2], -1))
    is_poly(Poly.chebyshevT(n), t[n], 'T', n)


@contract
def poly_minpolycos(n):
    """Monic, of degree phi(n)/2 (1 for n <= 2), and vanishing at 2 cos(2 pi/n): p(z + 1/z) z^deg is a multiple of Phi_n."""
    p = Poly.minpolycos(n)
    c = list(p.coeffs)
    need(c and c[-1] == 1 and all(isinstance(x, int) for x in c), 'not monic integral', n, c)
    phi = sum(gcd(i, n) == 1 for i in range(1, n + 1))
    eq(len(c) - 1, max(1, phi // 2) if n > 2 else 1, 'degree of minpolycos', n)
    total, d = [], len(c) - 1
    for i, x in enumerate(c):     # z^d (z + 1/z)^i = z^(d-i) (z^2 + 1)^i
        total = add(total, [x * y for y in [0] * (d - i) + power([1, 0, 1], i)])
    want = list(Poly.cyclotomic(n).coeffs)
    want = mul(want, want) if n <= 2 else want
    eq(total, want, 'minpolycos', n)


def gen(r, ints):
    n = r.choice([0, 1, 1, 2, 2, 3, 4, 5, 8])
    if r.random() < .05:
        n = r.choice([i for i in ints if 0 <= i <= 40] or [3])
    big = r.random() < .1
    return tuple([0 if r.random() < .3 else (r.randint(-10 ** 15, 10 ** 15) if big else r.choice([1, -1, 2, -2, 3, r.randint(-9, 9)])) for _ in range(n)]
                 + [0] * r.choice([0, 0, 1, 2]))


def run(ctx):
    ints = mined_ints('peyl/poly.py')
    small = [c for n in range(4) for c in itertools.product((-2, -1, 0, 1, 2), repeat=n)]
    for a in small:
        ctx.do(poly_init, a)
        ctx.do(poly_print, a)
        ctx.do(poly_evaluate, a, 3, 2)
        for n in (-1, 0, 1, 2, 3, 4, 6):
            ctx.do(poly_pow, a, n)
        for k in (-2, -1, 0, 1, 5):
            ctx.do(poly_int, a, k)
    tiny = [c for c in small if len(c) <= 2]
    for a in small[::1 if ctx.thorough else 2]:
        for b in tiny:
            ctx.do(poly_divide, a, b)
            ctx.do(poly_binary, a, b)
    for n in range(-1, 60 if ctx.thorough else 30):
        ctx.do(poly_cyclotomic, n)
        ctx.do(poly_chebyshev, n)
    for n in range(1, 40 if ctx.thorough else 26):
        ctx.do(poly_minpolycos, n)

    def once(r):
        a, b, q = gen(r, ints), gen(r, ints), gen(r, ints)
        ctx.do(poly_init, a)
        ctx.do(poly_binary, a, b)
        ctx.do(poly_int, a, r.choice([0, 1, -1, 7, r.choice(ints or [2])]))
        ctx.do(poly_print, a)
        ctx.do(poly_pow, a, r.randint(0, 6))
        ctx.do(poly_evaluate, a, r.randint(-3, 3), r.choice([1, 2, 5]))
        x = mul(T(q), T(b))
        if r.random() < .5:
            x = add(x, gen(r, ints)[:max(0, len(T(b)) - 1)])
        ctx.do(poly_divide, tuple(x), b)
        ctx.do(poly_divide, a, b)
        # cancellation
        ctx.do(poly_binary, a, tuple(-c if r.random() < .8 else c for c in a))
    ctx.loop(5, once)
