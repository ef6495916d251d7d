"""C08: Laurent polynomials.  Oracle: dictionaries exponent -> nonzero coefficient, schoolbook ring operations."""
import re
from fractions import Fraction
from rt import *
from peyl.lpoly import LPoly


def D(a):
    val, co = a
    out = {}
    for i, c in enumerate(co):
        if c:
            out[val + i] = out.get(val + i, 0) + c
    return out


def dadd(x, y, s=1):
    out = dict(x)
    for k, c in y.items():
        out[k] = out.get(k, 0) + s * c
    return {k: c for k, c in out.items() if c}


def dmul(x, y):
    out = {}
    for i, c in x.items():
        for j, d in y.items():
            out[i + j] = out.get(i + j, 0) + c * d
    return {k: c for k, c in out.items() if c}


def dpow(x, n):
    out = {0: 1}
    for _ in range(n):
        out = dmul(out, x)
    return out


def is_canonical(p, want, *what):
    """p is the canonical LPoly of the dictionary want."""
    need(isinstance(p, LPoly), *what, f': not an LPoly but {short(p)}')
    need(isinstance(p.coeffs, tuple), *what, ': coefficients are not a tuple')
    if p.coeffs:
        need(p.coeffs[0] != 0 and p.coeffs[-1] != 0, *what, f': not canonical: {p.val}, {short(p.coeffs)}')
    else:
        need(p.val == 0, *what, f': zero stored with valuation {p.val}')
    eq({p.val + i: c for i, c in enumerate(p.coeffs) if c}, want, *what)
    if want:
        eq((p.val, p.val + len(p.coeffs) - 1), (min(want), max(want)), *what, '(range of exponents)')


def mk(a):
    return LPoly(a[0], a[1])


@contract
def lpoly_init(a):
    is_canonical(LPoly(a[0], tuple(a[1])), D(a), f'LPoly{a}')
    p, q = LPoly(a[0], list(a[1])), LPoly(a[0], tuple(a[1]))
    is_canonical(p, D(a), f'LPoly{a}')
    need(p == q and hash(p) == hash(q), 'list and tuple give different polynomials', a)


@contract
def lpoly_binary(a, b):
    x, y = D(a), D(b)
    p, q = mk(a), mk(b)
    is_canonical(p + q, dadd(x, y), a, '+', b)
    is_canonical(p - q, dadd(x, y, -1), a, '-', b)
    is_canonical(p * q, dmul(x, y), a, '*', b)
    eq(p == q, x == y, a, '==', b)
    if x == y:
        eq(hash(p), hash(q), 'hash of equal polynomials', a, b)
    is_canonical(p, x, 'operand changed', a)
    is_canonical(q, y, 'operand changed', b)


@contract
def lpoly_int(a, k):
    x, z, p = D(a), ({0: k} if k else {}), mk(a)
    is_canonical(p + k, dadd(x, z), a, '+', k)
    is_canonical(k + p, dadd(x, z), k, '+', a)
    is_canonical(p - k, dadd(x, z, -1), a, '-', k)
    is_canonical(k - p, dadd(z, x, -1), k, '-', a)
    is_canonical(p * k, dmul(x, z), a, '*', k)
    is_canonical(k * p, dmul(x, z), k, '*', a)
    is_canonical(LPoly.coerce(k), z, 'coerce', k)
    need(LPoly.coerce(p) == p, 'coerce of a polynomial')


@contract
def lpoly_unary(a):
    x, p = D(a), mk(a)
    is_canonical(-p, {k: -c for k, c in x.items()}, '-', a)
    eq(bool(p.is_zero()), not x, 'is_zero', a)
    eq(bool(p.is_unit()), len(x) == 1 and list(x.values())[0] in (1, -1), 'is_unit', a)
    if x:
        eq(p.degree(), max(x), 'degree', a)
        eq(p.valuation(), min(x), 'valuation', a)
    is_canonical(p.map(lambda c: c % 3), {k: c % 3 for k, c in x.items() if c % 3}, 'map mod 3', a)
    is_canonical(p.map(lambda c: -c), {k: -c for k, c in x.items()}, 'map neg', a)


@contract
def lpoly_pow(a, n):
    x, p = D(a), mk(a)
    if n >= 0:
        is_canonical(p ** n, dpow(x, n), a, '**', n)
    elif len(x) == 1 and list(x.values())[0] in (1, -1):
        (e, c), = x.items()
        is_canonical(p ** n, {e * n: c ** -n}, a, '**', n)
        is_canonical(p ** n * p ** -n, {0: 1}, a, 'times its inverse')
    else:
        refuses((ValueError, ZeroDivisionError), lambda: p ** n, a, '**', n)


@contract
def lpoly_evaluate(a, num, den):
    x, p = D(a), mk(a)
    at = Fraction(num, den)
    eq(Fraction(p.evaluate(at)), sum((c * at ** e for e, c in x.items()), Fraction(0)), a, 'at', at)
    r = p.evaluate(LPoly(num % 5 - 2, (-1,)))
    e0 = num % 5 - 2
    want = {}
    for e, c in x.items():
        want = dadd(want, {e0 * e: c * (-1) ** (e % 2)})
    is_canonical(LPoly.coerce(r), want, a, 'at -v^', e0)


@contract
def lpoly_divide(a, b):
    """Exact quotient, or refusal; decided by division over the rationals."""
    x, y = D(a), D(b)
    p, q = mk(a), mk(b)
    if not y:
        refuses(Exception, lambda: p / q, a, '/', b)
        return
    rem, quo, ey, ly = {k: Fraction(c) for k, c in x.items()}, {}, max(y), y[max(y)]
    low = min(x) - min(y) if x else 0
    while rem and max(rem) - ey >= low:
        e, c = max(rem) - ey, rem[max(rem)] / ly
        quo[e] = c
        rem = dadd(rem, dmul({e: c}, y), -1)
    if not rem and all(c.denominator == 1 for c in quo.values()):
        is_canonical(p / q, {k: int(c) for k, c in quo.items()}, a, '/', b)
    else:
        refuses((ValueError,), lambda: p / q, a, '/', b)


def parse(s, var='v', latex=False):
    if s == '0':
        return {}
    out, last = {}, None
    pat = re.compile(r'( \+ | - |^-|^)(\d*)(?:(%s)(?:\^(\{-?\d+\}|-?\d+))?)?' % var)
    i = 0
    while i < len(s):
        m = pat.match(s, i)
        need(m and m.end() > i, 'cannot read printed polynomial', repr(s), 'at', i)
        sign = -1 if '-' in m.group(1) else 1
        need((i == 0) == (m.group(1) in ('', '-')), 'bad sign in', repr(s))
        need(m.group(2) or m.group(3), 'empty term in', repr(s))
        coef = int(m.group(2)) if m.group(2) else 1
        need(not (m.group(3) and m.group(2) == '1'), 'superfluous 1 in', repr(s))
        e = 0
        if m.group(3):
            g = m.group(4)
            if g and latex:
                need(g.startswith('{'), 'latex exponent without braces', repr(s))
            if g and not latex:
                need(not g.startswith('{'), 'braces in plain text', repr(s))
            e = int(g.strip('{}')) if g else 1
        need(e not in out and coef, 'repeated or zero term in', repr(s))
        need(last is None or e < last, 'terms not in decreasing order in', repr(s))
        last = e
        out[e] = sign * coef
        i = m.end()
    return out


@contract
def lpoly_print(a):
    x, p = D(a), mk(a)
    eq(parse(p.fmt()), x, 'fmt of', a)
    eq(repr(p), f"LPoly('{p.fmt()}')", 'repr')
    eq(parse(p.fmt('latex'), latex=True), x, 'latex of', a)
    eq(p._repr_latex_(), p.fmt('latex'), 'latex repr')


@contract
def lpoly_quantum_integer(n):
    p = LPoly.quantum_integer(n)
    m, s = abs(n), (1 if n >= 0 else -1)
    is_canonical(p, {e: s for e in range(-m + 1, m, 2)}, 'quantum integer', n)


@contract
def lpoly_coerce_refuses():
    refuses((ValueError,), lambda: LPoly.coerce('v'), 'coerce of a string')


def gen(r, ints=()):
    kind = r.random()
    n = r.choice([0, 0, 1, 1, 1, 2, 2, 3, 4, 5, 7, 12])
    if kind < .08:
        n = r.choice([i for i in ints if 0 <= i <= 64] or [3])
    big = r.random() < .1
    co = [0 if r.random() < .3 else (r.randint(-10 ** 20, 10 ** 20) if big else r.choice([1, -1, 2, -3, r.randint(-9, 9)])) for _ in range(n)]
    if ints and co and r.random() < .1:
        co[r.randrange(n)] = r.choice(ints)
    z = [0] * r.choice([0, 0, 1, 2, 3])
    z2 = [0] * r.choice([0, 0, 1, 2, 3])
    val = r.choice([0, 0, 1, -1, 2, -2, r.randint(-8, 8), r.choice(list(ints) or [0])])
    return (val, tuple(z + co + z2))


def run(ctx):
    ints = [i for i in mined_ints('peyl/lpoly.py', 'peyl/poly.py')]
    import itertools
    small = [(v, c) for v in (-2, -1, 0, 1) for n in range(4) for c in itertools.product((-1, 0, 1, 2), repeat=n) if n < 3 or v == 0]
    ctx.do(lpoly_coerce_refuses)
    for a in small:
        for f in (lpoly_init, lpoly_unary, lpoly_print):
            ctx.do(f, a)
        for n in (-2, -1, 0, 1, 2, 3, 5):
            ctx.do(lpoly_pow, a, n)
        ctx.do(lpoly_evaluate, a, 2, 3)
        for k in (-2, -1, 0, 1, 3):
            ctx.do(lpoly_int, a, k)
    tiny = [a for a in small if len(a[1]) <= 2]
    for a in tiny:
        for b in tiny[::3 if not ctx.thorough else 1]:
            ctx.do(lpoly_binary, a, b)
            ctx.do(lpoly_divide, a, b)
    for n in sorted(set(list(range(-12, 13)) + [i for i in ints if abs(i) < 200])):
        ctx.do(lpoly_quantum_integer, n)

    def once(r):
        a, b = gen(r, ints), gen(r, ints)
        if r.random() < .3:        # cancellation
            b = (a[0], tuple(-c if r.random() < .7 else r.randint(-2, 2) for c in a[1]))
        ctx.do(lpoly_init, a)
        ctx.do(lpoly_unary, a)
        ctx.do(lpoly_binary, a, b)
        ctx.do(lpoly_int, a, r.choice(ints + [0, 1, -1, 5, 10 ** 12]))
        ctx.do(lpoly_print, a)
        ctx.do(lpoly_pow, a, r.choice([0, 1, 2, 3, 4, 5, 6, 7, -1, -2, -3]) if len(a[1]) < 10 else r.choice([0, 1, 2, 3, -1]))
        u = (r.randint(-5, 5), (r.choice([1, -1]),))
        ctx.do(lpoly_pow, u, r.choice([r.randint(-40, 40), r.choice(ints)]))
        ctx.do(lpoly_evaluate, a, r.choice([1, -1, 2, 3, -2]), r.choice([1, 2, 3]))
        q = gen(r, ints)
        x = dmul(D(q), D(b))
        if x:
            lo = min(x)
            prod = (lo, tuple(x.get(lo + i, 0) for i in range(max(x) - lo + 1)))
            if r.random() < .3:
                prod = (prod[0], prod[1][:-1] + (prod[1][-1] + 1,))
            ctx.do(lpoly_divide, prod, b)
        ctx.do(lpoly_divide, a, b)
    ctx.loop(6, once)
