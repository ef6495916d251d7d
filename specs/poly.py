"""Contracts for peyl/poly.py (coefficients in an abstract commutative ring; EV is the value at an arbitrary nonzero point)."""
from __future__ import annotations
import z3
from pyvc.values import *
from pyvc.vc import Contract, Case
from pyvc.theory import EV, PW, Sums, X
from pyvc import interp as I
from pyvc.interp import Star
from . import lpoly as L
from .lpoly import ring, conc, RPOW, Powers, accumulate_hints

M = 'peyl.poly:'


def cls(c):
    return L.cls(c, 'Poly', 'peyl.poly')


def poly(c, name='p'):
    return c.fresh_val(('obj', cls(c), (('coeffs', ('seq', REAL, 'tuple')),)), name)


def arr(c, p):
    s = c.coerce_seq(as_sseq(c.as_seq(p.fields['coeffs'])), REAL)
    return s.arrs[0], to_int(s.n)


def canon(c, p):
    a, n = arr(c, p)
    return z3.Or(n == 0, z3.And(n > 0, a[n - 1] != 0))


def value(c, p):
    a, n = arr(c, p)
    return EV(a, z3.IntVal(0), n)


def is_poly(v):
    return isinstance(v, (Obj, I.ObjSnap)) and v.cls.name == 'Poly'


class PCase(Case):
    def result(self, c, *args):
        return poly(c, 'r')

    def concretise(self, model, args):
        out = []
        for a in args:
            if isinstance(a, Obj) and 'coeffs' in a.fields:
                b = conc(model, a.fields['coeffs'])
                out.append(b)
            elif isinstance(a, Obj):
                continue
            else:
                out.append(conc(model, a))
        return out


class Init(PCase):
    name = 'coefficients'
    terminates = True

    def params(self, c):
        return [Obj(cls(c), {}), c.fresh_val(('seq', REAL, 'tuple'), 'args')]

    def call_args(self, c, args):
        return [args[0], Star(args[1])], {}

    def result(self, c, self_, args):
        o = poly(c, 'p')
        self_.fields.update(o.fields)
        return self_

    def post(self, c, res, self_, args):
        s = c.coerce_seq(as_sseq(c.as_seq(args)), REAL)
        return [('the object is canonical', canon(c, res)),
                ('the object is the polynomial given', value(c, res) == EV(s.arrs[0], z3.IntVal(0), to_int(s.n)))]


class Unary(PCase):
    name = 'polynomial'

    def params(self, c):
        return [poly(c)]

    def match(self, c, args):
        return is_poly(args[0])

    def pre(self, c, p, *r):
        return [('argument canonical', canon(c, p))]


class Deg(Unary):
    def result(self, c, p):
        return c.fresh('deg', z3.IntSort())

    def post(self, c, r, p):
        a, n = arr(c, p)
        return [('exponent of the last nonzero coefficient, -1 for zero', to_int(r) == n - 1)]


class IsZero(Unary):
    def result(self, c, p):
        return c.fresh('z', z3.BoolSort())

    def post(self, c, r, p):
        return [('true exactly for zero', c.truth(r) == (arr(c, p)[1] == 0))]


class Neg(Unary):
    def post(self, c, r, p):
        return [('canonical', canon(c, r)), ('is minus the argument', value(c, r) == -value(c, p))]


class Evaluate(Unary):
    name = 'polynomial, any nonzero point'

    def params(self, c):
        return [poly(c), X]

    def match(self, c, args):
        return False

    def post(self, c, r, p, x):
        return [('value at the point', to_real(r) == value(c, p))]


class Bin(PCase):
    name = 'polynomial, polynomial'
    f = None

    def params(self, c):
        return [poly(c, 'p'), poly(c, 'q')]

    def match(self, c, args):
        return is_poly(args[0]) and is_poly(args[1])

    def pre(self, c, p, q):
        return [('left argument canonical', canon(c, p)), ('right argument canonical', canon(c, q))]

    def post(self, c, r, p, q):
        if not isinstance(r, Obj):
            return [('returns a polynomial', False)]
        return [('canonical', canon(c, r)), ('value', value(c, r) == type(self).f(value(c, p), value(c, q)))]


class BinInt(PCase):
    name = 'polynomial, integer'
    f = None

    def params(self, c):
        return [poly(c, 'p'), c.fresh('n', z3.RealSort())]

    def match(self, c, args):
        return is_poly(args[0]) and ring(args[1])

    def pre(self, c, p, q):
        return [('argument canonical', canon(c, p))]

    def post(self, c, r, p, q):
        if not isinstance(r, Obj):
            return [('returns a polynomial', False)]
        return [('canonical', canon(c, r)), ('value', value(c, r) == type(self).f(value(c, p), to_real(q)))]


def bins(f):
    return [type('B', (Bin,), dict(f=staticmethod(f)))(), type('BI', (BinInt,), dict(f=staticmethod(f)))()]


class Pow(PCase):
    name = 'polynomial, exponent'
    terminates = True

    def params(self, c):
        return [poly(c, 'p'), c.fresh('n', z3.IntSort())]

    def match(self, c, args):
        return is_poly(args[0]) and is_int(args[1])

    def pre(self, c, p, n):
        return [('argument canonical', canon(c, p))]

    def must_raise(self, c, p, n):
        return [('ValueError', to_int(n) < 0)]

    def measure(self, c, p, n):
        return to_int(n)

    def post(self, c, r, p, n):
        return [('canonical', canon(c, r)), ('value is the n-th power', value(c, r) == RPOW(value(c, p), to_int(n)))]


class Divmod(PCase):
    name = 'polynomial, nonzero polynomial'
    terminates = True
    raises = {'ValueError': lambda c, n, d: divisor_not_unit(c, d)}

    def params(self, c):
        return [poly(c, 'n'), poly(c, 'd')]

    def match(self, c, args):
        return is_poly(args[0]) and is_poly(args[1])

    def pre(self, c, n, d):
        return [('dividend canonical', canon(c, n)), ('divisor canonical', canon(c, d)), ('divisor nonzero', arr(c, d)[1] > 0)]

    def result(self, c, n, d):
        return (poly(c, 'q'), poly(c, 'r'))

    def post(self, c, res, n, d):
        q, r = res
        return [('quotient canonical', canon(c, q)), ('remainder canonical', canon(c, r)),
                ('dividend = quotient * divisor + remainder', value(c, n) == value(c, q) * value(c, d) + value(c, r)),
                ('remainder shorter than the divisor', arr(c, r)[1] < arr(c, d)[1])]


def divisor_not_unit(c, d):
    a, n = arr(c, d)
    return z3.And(a[n - 1] != 1, a[n - 1] != -1)


class TrueDiv(PCase):
    name = 'polynomial, nonzero polynomial'
    raises = {'ValueError': True}

    def params(self, c):
        return [poly(c, 'n'), poly(c, 'd')]

    def match(self, c, args):
        return is_poly(args[0]) and is_poly(args[1])

    pre = Divmod.pre

    def post(self, c, q, n, d):
        return [('canonical', canon(c, q)), ('quotient times divisor is the dividend', value(c, n) == value(c, q) * value(c, d))]


CHEB = z3.Function('chebyshev', z3.IntSort(), z3.RealSort())


class Chebyshev(PCase):
    name = 'index'
    terminates = True

    def params(self, c):
        return [c.fresh('n', z3.IntSort())]

    def match(self, c, args):
        return is_int(args[0])

    def must_raise(self, c, n):
        return [('ValueError', to_int(n) < 0)]

    def measure(self, c, n):
        return to_int(n)

    def axioms(self, c, n):
        n = to_int(n)
        return [z3.Implies(n == 0, CHEB(n) == 1), z3.Implies(n == 1, CHEB(n) == X),
                z3.Implies(n >= 2, CHEB(n) == 2 * X * CHEB(n - 1) - CHEB(n - 2))]

    def post(self, c, r, n):
        return [('canonical', canon(c, r)),
                ('the polynomial of the recurrence T(0)=1, T(1)=x, T(n)=2xT(n-1)-T(n-2)',
                 value(c, r) == CHEB(to_int(n)))]


def divmod_hints(ex, view):
    """For any loop over polynomials: each polynomial variable stays canonical, and value(n) = value(x)*value(d) + value(y)."""
    ps = [n for n in view.live if is_poly(view.entry.vars.get(n))]
    fixed = [(n, v) for n, v in view.entry.vars.items() if is_poly(v) and n not in view.entry.names]
    for x in ps:
        yield (f'{x} canonical', lambda v, x=x: canon(ex, v.var(x)))
    for x in ps:
        for y in ps:
            if x == y:
                continue
            for n, a in fixed:
                for d, b in fixed:
                    if n != d:
                        yield (f'{n} = {x}*{d} + {y}', lambda v, x=x, y=y, a=a, b=b: value(ex, a) == value(ex, v.var(x)) * value(ex, b) + value(ex, v.var(y)))


def contracts(repo):
    H = dict(hints=accumulate_hints)
    out = [
        Contract(M + 'Poly.__init__', Init(), terminates=True),
        Contract(M + 'Poly.deg', Deg()),
        Contract(M + 'Poly.is_zero', IsZero()),
        Contract(M + 'Poly.evaluate', Evaluate()),
        Contract(M + 'Poly.__neg__', Neg()),
        Contract(M + 'Poly.__add__', bins(lambda x, y: x + y)),
        Contract(M + 'Poly.__radd__', bins(lambda x, y: y + x)),
        Contract(M + 'Poly.__sub__', bins(lambda x, y: x - y)),
        Contract(M + 'Poly.__mul__', bins(lambda x, y: x * y), **H),
        Contract(M + 'Poly.__rmul__', bins(lambda x, y: y * x), **H),
        Contract(M + 'Poly.__pow__', Pow(), theories=[Powers(), Sums()]),
        Contract(M + 'Poly.__divmod__', Divmod(), hints=divmod_hints),
        Contract(M + 'Poly.__truediv__', TrueDiv()),
        Contract(M + 'Poly.chebyshevT', Chebyshev()),
    ]
    for c in out:
        c.prop = 'C09'
    return out


def probes(f, inp):
    from . import integral
    if not integral(inp):
        return
    ps = [tuple(d) for d in inp if isinstance(d, (list, tuple))]
    ks = [d for d in inp if isinstance(d, int)]
    if f == 'chebyshevT':
        yield 'poly_chebyshev', (ks[0],)
    elif f == '__pow__':
        yield 'poly_pow', (ps[0], ks[0])
    elif len(ps) == 2:
        yield 'poly_binary', (ps[0], ps[1])
        yield 'poly_divide', (ps[0], ps[1])
    elif ps:
        yield 'poly_init', (ps[0],)
        for k in ks:
            yield 'poly_int', (ps[0], k)
        yield 'poly_evaluate', (ps[0], 2, 1)
        yield 'poly_evaluate', (ps[0], -3, 2)
