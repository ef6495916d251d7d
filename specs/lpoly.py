"""Contracts for peyl/lpoly.py.  A coefficient is an element of an abstract commutative ring (a z3 Real term used only
through + - * and tests against constants); EVAL is the value of the polynomial at an arbitrary nonzero point, so an
identity between EVALs is an identity of Laurent polynomials."""
from __future__ import annotations
import z3
from pyvc.values import *
from pyvc.vc import Contract, Case
from pyvc.theory import EV, PW, Sums
from pyvc import interp as I
from pyvc import invs

M = 'peyl.lpoly:'


def cls(c, name='LPoly', mod='peyl.lpoly'):
    return c.repo.modules[mod].globals[name]


def lp_t(c):
    return ('obj', cls(c), (('coeffs', ('seq', REAL, 'tuple')), ('val', INT)))


def lpoly(c, name='p'):
    o = c.fresh_val(lp_t(c), name)
    return o


def norm(c, p):
    """(array, length, val) of a Laurent polynomial value"""
    s = c.as_seq(p.fields['coeffs'])
    s = c.coerce_seq(as_sseq(s), REAL)
    return s.arrs[0], to_int(s.n), to_int(p.fields['val'])


def canon(c, p):
    a, n, v = norm(c, p)
    return z3.Or(z3.And(n == 0, v == 0), z3.And(n > 0, a[0] != 0, a[n - 1] != 0))


def value(c, p):
    a, n, v = norm(c, p)
    return PW(v) * EV(a, z3.IntVal(0), n)


def is_lp(c, v):
    return isinstance(v, Obj) and v.cls.name == 'LPoly'


def ring(v):
    return is_int(v) or is_real(v)


class LPCase(Case):
    def result(self, c, *args):
        return lpoly(c, 'r')

    def concretise(self, model, args):
        return [conc(model, a) for a in args]


def conc(model, a):
    ev = lambda t: model.eval(t, model_completion=True)
    if isinstance(a, Obj):
        s = as_sseq(a.fields['coeffs'])
        n = ev(to_int(s.n)).as_long()
        if n > 30:
            return None
        co = [frac(ev(z3.Select(s.arrs[0], i))) for i in range(n)]
        return {'val': ev(to_int(a.fields['val'])).as_long(), 'coeffs': co}
    if isinstance(a, (SSeq, LObj)):
        s = as_sseq(a)
        n = ev(to_int(s.n)).as_long()
        if n > 30:
            return None
        return [frac(ev(z3.Select(s.arrs[0], i))) for i in range(n)]
    if is_z3(a):
        v = ev(a)
        return frac(v)
    return a


def frac(v):
    if z3.is_int_value(v):
        return v.as_long()
    f = v.as_fraction()
    if f.denominator != 1:
        return float(f)
    return f.numerator


class Init(LPCase):
    name = 'coefficients'

    def params(self, c):
        return [Obj(cls(c), {}), c.fresh('val', z3.IntSort()), c.fresh_val(('seq', REAL, 'list'), 'coeffs')]

    def match(self, c, args):
        return is_int(args[1])

    def coerce(self, c, args):
        return [args[0], args[1], c.coerce_seq(as_sseq(c.as_seq(args[2])), REAL)]

    def result(self, c, self_, val, coeffs):
        o = lpoly(c, 'lp')
        self_.fields.update(o.fields)
        return self_

    def post(self, c, res, self_, val, coeffs):
        s = c.coerce_seq(as_sseq(c.as_seq(coeffs)), REAL)
        return [('the object is canonical', canon(c, res)),
                ('the object is the polynomial given', value(c, res) == PW(to_int(val)) * EV(s.arrs[0], z3.IntVal(0), to_int(s.n)))]


class InitCoeffs(Init):
    """The same, coefficient by coefficient (for callers that deal with arrays)."""
    name = 'coefficients, one by one'

    def match(self, c, args):
        return bool(c.opts.get('nd') or isinstance(c.current_case, Monomial)) and is_int(args[1])

    def post(self, c, res, self_, val, coeffs):
        s = c.coerce_seq(as_sseq(c.as_seq(coeffs)), REAL)
        a, n, v = norm(c, res)
        b, m, w = s.arrs[0], to_int(s.n), to_int(val)
        t, l = z3.Int('t!co'), v - w
        zero = lambda c: z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < m, c), b[t] == 0), patterns=[b[t]])
        return [('the object is canonical', canon(c, res)),
                ('coefficients', z3.And(z3.Implies(n == 0, zero(z3.BoolVal(True))), z3.Implies(n > 0, z3.And(
                    l >= 0, l + n <= m, z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < n), a[t] == b[t + l]), patterns=[a[t]]),
                    zero(z3.Or(t < l, t >= l + n))))))]


class InitOne(Init):
    """A power of the variable."""
    name = 'power of the variable'

    def params(self, c):
        return [Obj(cls(c), {}), c.fresh('val', z3.IntSort()), (1,)]

    def match(self, c, args):
        return bool(c.opts.get('nd')) and is_int(args[1]) and args[2] == (1,)

    def coerce(self, c, args):
        return args

    def result(self, c, self_, val, coeffs):
        self_.fields.update(val=val, coeffs=(1,))
        return self_

    def post(self, c, res, self_, val, coeffs):
        a, n, v = norm(c, res)
        return [('the power', z3.And(v == to_int(val), n == 1, a[0] == 1))]


class Unary(LPCase):
    name = 'polynomial'

    def params(self, c):
        return [lpoly(c, 'p')]

    def match(self, c, args):
        return is_lp(c, args[0])

    def pre(self, c, p, *rest):
        return [('argument canonical', canon(c, p))]


class IsZero(Unary):
    def result(self, c, p):
        return c.fresh('z', z3.BoolSort())

    def post(self, c, r, p):
        a, n, v = norm(c, p)
        return [('true exactly for the zero polynomial', c.truth(r) == (n == 0))]


class IsUnit(Unary):
    def result(self, c, p):
        return c.fresh('u', z3.BoolSort())

    def post(self, c, r, p):
        a, n, v = norm(c, p)
        return [('true exactly for plus or minus a power of v', I.to_z3(c.truth(r)) == z3.And(n == 1, z3.Or(a[0] == 1, a[0] == -1)))]


class Valuation(Unary):
    def result(self, c, p):
        return c.fresh('n', z3.IntSort())

    def post(self, c, r, p):
        a, n, v = norm(c, p)
        return [('exponent of the lowest nonzero term', z3.Implies(n > 0, to_int(r) == v))]


class Degree(Valuation):
    def post(self, c, r, p):
        a, n, v = norm(c, p)
        return [('exponent of the highest nonzero term', z3.Implies(n > 0, to_int(r) == v + n - 1))]


class Neg(Unary):
    def post(self, c, r, p):
        return [('canonical', canon(c, r)), ('is minus the argument', value(c, r) == -value(c, p))]


class Bin(LPCase):
    """op(self, other) for two Laurent polynomials."""
    name = 'polynomial, polynomial'
    f = None

    def params(self, c):
        return [lpoly(c, 'p'), lpoly(c, 'q')]

    def match(self, c, args):
        return is_lp(c, args[0]) and is_lp(c, args[1])

    def pre(self, c, p, q):
        return [('left argument canonical', canon(c, p)), ('right argument canonical', canon(c, q))]

    def post(self, c, r, p, q):
        if not isinstance(r, Obj):
            return [('returns a Laurent polynomial', False)]
        return [('canonical', canon(c, r)), ('value', value(c, r) == type(self).f(value(c, p), value(c, q)))]


class BinInt(LPCase):
    name = 'polynomial, integer'
    f = None

    def params(self, c):
        return [lpoly(c, 'p'), c.fresh('n', z3.RealSort())]

    def match(self, c, args):
        return is_lp(c, args[0]) and ring(args[1])

    def pre(self, c, p, q):
        return [('left argument canonical', canon(c, p))]

    def post(self, c, r, p, q):
        if not isinstance(r, Obj):
            return [('returns a Laurent polynomial', False)]
        return [('canonical', canon(c, r)), ('value', value(c, r) == type(self).f(value(c, p), to_real(q)))]


def bin_cases(f):
    return [type('B', (Bin,), dict(f=staticmethod(f)))(), type('BI', (BinInt,), dict(f=staticmethod(f)))()]


class Pow(LPCase):
    name = 'polynomial, exponent >= 0'
    terminates = True

    def params(self, c):
        return [lpoly(c, 'p'), c.fresh('n', z3.IntSort())]

    def match(self, c, args):
        return is_lp(c, args[0]) and is_int(args[1])

    def pre(self, c, p, n):
        return [('argument canonical', canon(c, p))]

    def must_raise(self, c, p, n):
        a, ln, v = norm(c, p)
        return [('ValueError', z3.And(to_int(n) < 0, z3.Not(z3.And(ln == 1, z3.Or(a[0] == 1, a[0] == -1)))))]

    def measure(self, c, p, n):
        n = to_int(n)
        return z3.If(n < 0, -n + 1, n)

    def post(self, c, r, p, n):
        return [('canonical', canon(c, r)), ('value is the n-th power', value(c, r) == RPOW(value(c, p), to_int(n)))]


RPOW = z3.Function('rpow', z3.RealSort(), z3.IntSort(), z3.RealSort())


class Powers:
    """Ground facts about rpow: x^0=1, x^1=x, x^(a+b)=x^a x^b for exponents in the query."""
    name = 'powers'

    def instances(self, facts, goal, rels):
        terms = {}
        for f in list(facts) + [goal]:
            for s in I.subterms(f):
                if z3.is_app(s) and s.decl().name() == 'rpow':
                    terms[s.get_id()] = s
        out = []
        ts = list(terms.values())
        for s in ts:
            b, e = s.arg(0), s.arg(1)
            out.append(z3.Implies(e == 0, s == 1))
            out.append(z3.Implies(e == 1, s == b))
            h = e / 2
            hh = RPOW(b, h)
            out.append(z3.Implies(e >= 0, s == z3.If(e % 2 == 0, hh * hh, hh * hh * b)))
            for q in ts:
                if q is not s:
                    # (x^-1)^(-n) = x^n  for x*y = 1
                    out.append(z3.Implies(z3.And(q.arg(1) == -e, q.arg(0) * b == 1), q == s))
                    out.append(z3.Implies(z3.And(q.arg(0) == b, q.arg(1) == e), q == s))
        return out


class Monomial(Unary):
    """The product by a power of the variable (for callers that deal with arrays)."""
    name = 'polynomial, power of the variable'

    def params(self, c):
        return [lpoly(c, 'p'), Obj(cls(c), {'val': c.fresh('s', z3.IntSort()), 'coeffs': (1,)})]

    def match(self, c, args):
        return bool(c.opts.get('nd')) and is_lp(c, args[0]) and is_lp(c, args[1]) and args[1].fields['coeffs'] == (1,)

    def post(self, c, r, p, q):
        a, n, v = norm(c, p)
        b, m, w = norm(c, r)
        t, s = z3.Int('t!mo'), to_int(q.fields['val'])
        return [('canonical', canon(c, r)), ('as many coefficients', m == n), ('moved', z3.Implies(n > 0, w == v + s)),
                ('the same coefficients', z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < n), b[t] == a[t]), patterns=[b[t]]))]


def monomial_hints(ex, view):
    """The list so far: the coefficients, then zeros."""
    yield from accumulate_hints(ex, view)
    if view.k is None or not isinstance(ex.current_case, Monomial):
        return
    p = ex.entry_args[0]
    a, n, v = norm(ex, p)
    t = z3.Int('t!mh')
    for b in invs.lists(view):
        def inv(w, b=b):
            s = ex.coerce_seq(invs.seq_of(w.objs[b]), REAL)
            return z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < to_int(s.n)), s.arrs[0][t] == z3.If(t < w.k, a[t], z3.RealVal(0))), patterns=[s.arrs[0][t], a[t]])
        yield f'list{b} holds the coefficients so far', inv


class Coerce(LPCase):
    name = 'integer or polynomial'

    def params(self, c):
        return [c.fresh('n', z3.RealSort())]

    def match(self, c, args):
        return ring(args[0])

    def post(self, c, r, n):
        return [('canonical', canon(c, r)), ('the constant polynomial', value(c, r) == to_real(n))]


class CoerceP(Unary):
    def post(self, c, r, p):
        return [('canonical', canon(c, r)), ('unchanged', value(c, r) == value(c, p))]


class Map(LPCase):
    name = 'polynomial, function'
    F = z3.Function('mapped', z3.RealSort(), z3.RealSort())

    def params(self, c):
        return [lpoly(c, 'p'), Fn(lambda ex, x: Map.F(to_real(x)), 'f')]

    def match(self, c, args):
        return False

    def pre(self, c, p, f):
        return [('argument canonical', canon(c, p))]

    def post(self, c, r, p, f):
        a, n, v = norm(c, p)
        t = z3.Int('t!map')
        b = z3.Const('mapped_coeffs', z3.ArraySort(z3.IntSort(), z3.RealSort()))
        return [('canonical', canon(c, r)),
                ('coefficients mapped', (z3.ForAll([t], b[t] == Map.F(a[t]), patterns=[b[t], a[t]]),
                                         value(c, r) == PW(v) * EV(b, z3.IntVal(0), n)))]


class Eq(LPCase):
    pass


def accumulate_hints(ex, view):
    """Invariants for loops that accumulate products into a list: sum of the list = what has been added so far."""
    if view.k is None:
        return
    for b in invs.lists(view):
        s0 = view.entry.objs[b]
        s0 = invs.seq_of(s0)
        # operand coefficient sequences in scope
        ops = []
        for n, v in view.entry.vars.items():
            if isinstance(v, (Obj, I.ObjSnap)) and 'coeffs' in v.fields:
                s = ex.coerce_seq(as_sseq(ex.as_seq(v.fields['coeffs'])), REAL)
                ops.append((n, EV(s.arrs[0], z3.IntVal(0), to_int(s.n)), s))
        reals = [(n, v) for n, v in view.entry.vars.items() if is_real(v) and z3.is_app(v)]
        sums = [('1', z3.RealVal(1))] + [(f'EV({n})', e) for n, e, _ in ops] + reals
        shs = [z3.IntVal(0)] + invs.shifts(view, b)

        def total(v, b=b):
            s = ex.coerce_seq(invs.seq_of(v.objs[b]), REAL)
            return EV(s.arrs[0], z3.IntVal(0), to_int(s.n))
        e0 = ex.coerce_seq(s0, REAL)
        t0 = EV(e0.arrs[0], z3.IntVal(0), to_int(e0.n))
        for n, e, s in ops:
            for sh in shs:
                for mn, m in sums:
                    yield (f'sum(list{b}) = entry + v^{str(sh)[:40]} * {mn} * sum({n}[:k])',
                           lambda v, s=s, sh=sh, m=m, total=total, t0=t0:
                           total(v) == t0 + PW(sh) * m * EV(s.arrs[0], z3.IntVal(0), v.k))


def contracts(repo):
    H = dict(hints=accumulate_hints)
    out = [
        Contract(M + 'LPoly.__init__', [InitOne(), InitCoeffs(), Init()], terminates=True),
        Contract(M + 'LPoly.is_zero', IsZero()),
        Contract(M + 'LPoly.is_unit', IsUnit()),
        Contract(M + 'LPoly.valuation', Valuation()),
        Contract(M + 'LPoly.degree', Degree()),
        Contract(M + 'LPoly.__neg__', Neg()),
        Contract(M + 'LPoly.__add__', bin_cases(lambda x, y: x + y), **H),
        Contract(M + 'LPoly.__radd__', bin_cases(lambda x, y: y + x), **H),
        Contract(M + 'LPoly.__sub__', bin_cases(lambda x, y: x - y), **H),
        Contract(M + 'LPoly.__rsub__', bin_cases(lambda x, y: y - x), **H),
        Contract(M + 'LPoly.__mul__', [Monomial()] + bin_cases(lambda x, y: x * y), hints=monomial_hints),
        Contract(M + 'LPoly.__rmul__', bin_cases(lambda x, y: y * x), **H),
        Contract(M + 'LPoly.__pow__', Pow(), theories=[Powers(), Sums()]),
        Contract(M + 'LPoly.coerce', [Coerce(), CoerceP()]),
        Contract(M + 'LPoly.map', Map()),
    ]
    for c in out:
        c.prop = 'C08'
    return out


def probes(f, inp):
    from . import integral
    if not integral(inp):
        return
    ps = [(d['val'], tuple(d['coeffs'])) for d in inp if isinstance(d, dict) and d]
    ks = [d for d in inp if isinstance(d, int)]
    if f == '__init__':
        yield 'lpoly_init', ((inp[1], tuple(inp[2])),)
    elif f == '__pow__':
        yield 'lpoly_pow', (ps[0], ks[0])
    elif len(ps) == 2:
        yield 'lpoly_binary', (ps[0], ps[1])
        yield 'lpoly_divide', (ps[0], ps[1])
    elif ps:
        for k in ks:
            yield 'lpoly_int', (ps[0], k)
        yield 'lpoly_unary', (ps[0],)
        yield 'lpoly_evaluate', (ps[0], 2, 1)
        yield 'lpoly_evaluate', (ps[0], -3, 2)
    for k in ks:
        yield 'lpoly_int', ((0, (1, 2)), k)
