"""Contracts for peyl/braid.py, over the vocabulary of specs/garside.py.

A braid object (GNF: kind P, DGNF: kind N) stands for VAL = DEL(n, power) PR(n, factors): every operation is specified by
an equation between VALs, and by the result being a normal form.  Two braids with equal VAL in normal form are equal
(uniqueness of normal forms, Garside theory)."""
from __future__ import annotations
import z3
from pyvc.values import *
from pyvc.vc import Contract, Case
from pyvc.theory import Sums
from pyvc import interp as I
from pyvc import invs
from pyvc.words import B, MUL, ONE, INV, POW, mul
from .garside import KINDS, Garside, Table, SIG, WORD, Div, DivT, Arr

M = 'peyl.braid:'
IV = z3.IntVal
CLS = {'P': 'GNF', 'N': 'DGNF'}
I_ = z3.IntSort()
TH = [Sums(), Garside()]
MAXN = {'P': 6, 'N': 9}


def domain(kind, n):
    return z3.And(n >= 2, n <= MAXN[kind])


def cls(c, name):
    return c.repo.modules['peyl.braid'].globals[name]


def bt(c, kind):
    return ('obj', cls(c, CLS[kind]), (('factors', ('seq', INT, 'tuple')), ('n', INT), ('power', INT)))


def is_braid(v, kind=None):
    return isinstance(v, Obj) and v.cls.name in ((CLS[kind],) if kind else ('GNF', 'DGNF'))


def kind_of(v):
    if isinstance(v, Table):
        return v.kind
    return {'GNF': 'P', 'DGNF': 'N'}[v.cls.name]


def iseq(c, v):
    s = as_sseq(c.as_seq(v))
    if s.et is None:
        s = as_sseq(s, INT)
    if s.et != INT:
        raise Unsupported('not a sequence of integers')
    return s


def in_range(K, n, a, ln):
    t = z3.Int('t!rg')
    return z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < ln), z3.And(a[t] >= 0, a[t] < K.ORD(n))), patterns=[a[t]])


def pairs(K, n, a, ln, *but):
    """Adjacent pairs are left-weighted, except possibly at the positions given."""
    t, u = z3.Ints('t!nm u!nm')
    return z3.ForAll([t, u], z3.Implies(z3.And(t >= 0, t < ln - 1, u == t + 1, *[t != b for b in but]), K.NRM(n, a[t], a[u])),
                     patterns=[z3.MultiPattern(a[t], a[u])])


def ends(K, n, a, ln):
    return z3.Or(ln == 0, z3.And(a[IV(0)] != K.DD(n), a[ln - 1] != K.ID(n)))


def normal(K, n, a, ln):
    return z3.And(pairs(K, n, a, ln), ends(K, n, a, ln))


def interior(K, n, a, ln):
    """No factor of a normal form is the Garside element or the identity (lemma 'normal forms')."""
    t = z3.Int('t!in')
    return z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < ln), z3.And(a[t] != K.DD(n), a[t] != K.ID(n))), patterns=[a[t]])


def parts(c, b):
    s = iseq(c, b.fields['factors'])
    return KINDS[kind_of(b)], to_int(b.fields['n']), to_int(b.fields['power']), s.arrs[0], to_int(s.n)


def canon(c, b):
    K, n, p, a, ln = parts(c, b)
    return z3.And(domain(K.k, n), in_range(K, n, a, ln), normal(K, n, a, ln))


def val(c, b):
    K, n, p, a, ln = parts(c, b)
    return mul(K.DEL(n, p), K.PR(n, a, IV(0), ln))


class KCase(Case):
    kind = None

    @property
    def K(self):
        return KINDS[self.kind]

    def braid(self, c, name):
        return c.fresh_val(bt(c, self.kind), name)

    def match(self, c, args):
        a = args[0]
        return (isinstance(a, Table) and a.kind == self.kind) or (is_braid(a) and kind_of(a) == self.kind)

    def note(self, c, n, *keep):
        c.ghost['n'], c.ghost['K'] = n, self.K


def kinds(case, which='PN'):
    return [type(case.__name__ + k, (case,), dict(kind=k, name=f'{CLS[k]}' + (', ' + case.name if case.name else '')))() for k in which]


# ---- tables
class Create(Case):
    """The table contract: discharged by check C02 on the real tables, entry by entry."""
    def __init__(self, kind):
        self.kind = kind

    def pre(self, c, n):
        return [('strand count in the domain', domain(self.kind, to_int(n)))]

    def result(self, c, n):
        return Table(self.kind, to_int(n))

    def post(self, c, r, n):
        return []


class SeqCase(KCase):
    """method(self, seq) of a table"""
    def params(self, c):
        n = c.fresh('n', I_)
        self.note(c, n)
        c.assume(domain(self.kind, n))
        return [Table(self.kind, n), c.fresh_val(('seq', INT, 'tuple'), 'seq')]

    def coerce(self, c, args):
        return [args[0], iseq(c, args[1])]

    def pre(self, c, t, s):
        s = iseq(c, s)
        return [('factors in range', in_range(self.K, t.n, s.arrs[0], to_int(s.n)))]


class IsNormalised(SeqCase):
    def result(self, c, t, s):
        return c.fresh('isnf', z3.BoolSort())

    def post(self, c, r, t, s):
        s = iseq(c, s)
        return [('true exactly for normal forms', I.to_z3(c.truth(r)) == normal(self.K, t.n, s.arrs[0], to_int(s.n)))]


def pair_result(c):
    return (c.fresh('l', I_), c.fresh_val(('seq', INT, 'tuple'), 'nf'))


def nf_post(c, K, n, r, total):
    if not (isinstance(r, tuple) and len(r) == 2):
        return [('a power and factors', False)]
    l, f = to_int(r[0]), iseq(c, r[1])
    a, ln = f.arrs[0], to_int(f.n)
    return [('factors in range', in_range(K, n, a, ln)),
            ('adjacent factors are left-weighted', pairs(K, n, a, ln)),
            ('no Garside element in front, no identity at the back', ends(K, n, a, ln)),
            ('the product is preserved', mul(K.DEL(n, l), K.PR(n, a, IV(0), ln)) == total)]


class Normalise(SeqCase):
    def params(self, c):
        r = super().params(c)
        c.ghost['total'] = self.K.PR(c.ghost['n'], r[1].arrs[0], IV(0), to_int(r[1].n))
        return r

    def result(self, c, t, s):
        return pair_result(c)

    def post(self, c, r, t, s):
        s = iseq(c, s)
        return nf_post(c, self.K, t.n, r, self.K.PR(t.n, s.arrs[0], IV(0), to_int(s.n)))


class Product(KCase):
    def params(self, c):
        n = c.fresh('n', I_)
        self.note(c, n)
        c.assume(domain(self.kind, n))
        return [Table(self.kind, n), c.fresh_val(('seq', INT, 'tuple'), 'left'), c.fresh_val(('seq', INT, 'tuple'), 'right')]

    def coerce(self, c, args):
        return [args[0], iseq(c, args[1]), iseq(c, args[2])]

    def pre(self, c, t, *ss):
        out = []
        for w, s in zip(('left', 'right'), ss):
            s = iseq(c, s)
            out += [(f'{w} factors in range', in_range(self.K, t.n, s.arrs[0], to_int(s.n))),
                    (f'{w} factors in normal form', normal(self.K, t.n, s.arrs[0], to_int(s.n)))]
        return out

    def result(self, c, t, l, r):
        return pair_result(c)

    def post(self, c, res, t, l, r):
        l, r = iseq(c, l), iseq(c, r)
        return nf_post(c, self.K, t.n, res, mul(self.K.PR(t.n, l.arrs[0], IV(0), to_int(l.n)), self.K.PR(t.n, r.arrs[0], IV(0), to_int(r.n))))


# ---- methods of braids
def braid_post(c, r, kind, n, total):
    if not is_braid(r, kind):
        return [('a braid of the same kind', False)]
    return [('a normal form', canon(c, r)), ('on the same strands', to_int(r.fields['n']) == n), ('the value', val(c, r) == total)]


class Method(KCase):
    def operand(self, c, name):
        b = self.braid(c, name)
        c.assume(canon(c, b))
        return b

    def start(self, c):
        b = self.operand(c, 'self')
        self.note(c, to_int(b.fields['n']))
        return b

    def result(self, c, *a):
        return self.braid(c, 'res')

    def strands(self, c, a):
        return to_int(a.fields['n'])


class ClassMethod(KCase):
    """method(cls, n, ...) or, for static methods, function(n, ...)"""
    static = False

    def match(self, c, args):
        return self.static or getattr(args[0], 'name', '') == CLS[self.kind]

    def start(self, c):
        n = c.fresh('n', I_)
        self.note(c, n)
        c.assume(domain(self.kind, n))
        return [n] if self.static else [cls(c, CLS[self.kind]), n]

    def pre(self, c, *a):
        return [('strand count in the domain', domain(self.kind, to_int(a[0 if self.static else 1])))]

    def result(self, c, *a):
        return self.braid(c, 'res')


class Identity(ClassMethod):
    def params(self, c):
        return self.start(c)

    def post(self, c, r, k, n):
        return braid_post(c, r, self.kind, to_int(n), ONE)


class Mul(Method):
    def params(self, c):
        a = self.start(c)
        b = self.operand(c, 'other')
        c.assume(to_int(b.fields['n']) == c.ghost['n'])
        return [a, b]

    def match(self, c, args):
        return len(args) == 2 and all(is_braid(a, self.kind) for a in args)

    def pre(self, c, a, b):
        return [('operands are normal forms', z3.And(canon(c, a), canon(c, b))), ('same group', self.strands(c, a) == self.strands(c, b))]

    def post(self, c, r, a, b):
        return braid_post(c, r, self.kind, self.strands(c, a), mul(val(c, a), val(c, b)))


class MulOther(Method):
    name = 'different groups'
    raises = {'ValueError': True}

    def params(self, c):
        a = self.start(c)
        b = self.operand(c, 'other')
        c.assume(to_int(b.fields['n']) != c.ghost['n'])
        return [a, b]

    def match(self, c, args):
        return False

    def post(self, c, r, *a):
        return [('refused', False)]


class Inv(Method):
    def params(self, c):
        return [self.start(c)]

    def pre(self, c, a):
        return [('operand is a normal form', canon(c, a))]

    def post(self, c, r, a):
        return braid_post(c, r, self.kind, self.strands(c, a), INV(val(c, a)))


class Pow(Method):
    def params(self, c):
        return [self.start(c), c.fresh('exp', I_)]

    def pre(self, c, a, e):
        return [('operand is a normal form', canon(c, a))]

    def match(self, c, args):
        return is_braid(args[0], self.kind) and is_int(args[1])

    def post(self, c, r, a, e):
        return braid_post(c, r, self.kind, self.strands(c, a), POW(val(c, a), to_int(e)))


def pair_seq(c, v):
    s = as_sseq(c.as_seq(v))
    if s.et is None:
        s = as_sseq(s, ('tup', (INT, INT)))
    if s.et != ('tup', (INT, INT)):
        raise Unsupported('not a word')
    return s


def word_val(n, s):
    return WORD(n, s.arrs[0], s.arrs[1], IV(0), to_int(s.n))


def letters_ok(n, s):
    t = z3.Int('t!wd')
    a = s.arrs[0]
    return z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < to_int(s.n)), z3.And(a[t] >= 0, a[t] < n - 1)), patterns=[a[t]])


class FromArtin(ClassMethod):
    static = True

    def params(self, c):
        n, = self.start(c)
        w = c.fresh_val(('seq', ('tup', (INT, INT)), 'list'), 'word')
        w = as_sseq(c.as_seq(w))
        c.ghost['word'] = w
        c.assume(letters_ok(n, w))
        return [n, w]

    def coerce(self, c, args):
        return [args[0], pair_seq(c, args[1])]

    def pre(self, c, n, w):
        return super().pre(c, n) + [('letters are generators', letters_ok(to_int(n), pair_seq(c, w)))]

    def post(self, c, r, n, w):
        return braid_post(c, r, self.kind, to_int(n), word_val(to_int(n), pair_seq(c, w)))


class ArtinWord(Method):
    def params(self, c):
        return [self.start(c)]

    def pre(self, c, a):
        return [('operand is a normal form', canon(c, a))]

    def result(self, c, a):
        return c.fresh_val(('seq', ('tup', (INT, INT)), 'list'), 'word')

    def post(self, c, r, a):
        w, n = pair_seq(c, r), self.strands(c, a)
        t = z3.Int('t!ex')
        e = w.arrs[1]
        return [('letters are generators', letters_ok(n, w)),
                ('exponents are 1 and -1', z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < to_int(w.n)), z3.Or(e[t] == 1, e[t] == -1)), patterns=[e[t]])),
                ('the word is the braid', word_val(n, w) == val(c, a))]


def div_seq(c, v):
    s = as_sseq(c.as_seq(v))
    if s.et is None or s.et[0] != 'model' or not isinstance(s.et[1], DivT):
        raise Unsupported('not a sequence of divisors')
    return s


class FromSeq(ClassMethod):
    """A braid from divisors: from_perm_seq(n, perms), from_npar_seq(n, npars)"""
    static = True

    def params(self, c):
        n, = self.start(c)
        s = as_sseq(c.as_seq(c.fresh_val(('seq', ('model', DivT(self.kind, n)), 'tuple'), 'divs')))
        c.assume(in_range(self.K, n, s.arrs[0], to_int(s.n)))
        return [n, s]

    def match(self, c, args):
        try:
            s = as_sseq(c.as_seq(args[1]))
        except Unsupported:
            return False
        return s.et is not None and s.et[0] == 'model' and s.et[1].kind == self.kind

    def coerce(self, c, args):
        return [args[0], div_seq(c, args[1])]

    def pre(self, c, n, s):
        s = div_seq(c, s)
        return super().pre(c, n) + [('divisors of this group', z3.And(to_int(s.et[1].n) == to_int(n), in_range(self.K, to_int(n), s.arrs[0], to_int(s.n))))]

    def post(self, c, r, n, s):
        s = div_seq(c, s)
        return braid_post(c, r, self.kind, to_int(n), self.K.PR(to_int(n), s.arrs[0], IV(0), to_int(s.n)))


class FromDiv(KCase):
    """from_perm(perm), from_npar(npar), and the methods of BraidGroup with the same purpose"""
    group = False

    def match(self, c, args):
        d = args[-1]
        return isinstance(d, Div) and d.kind == self.kind

    def params(self, c):
        n = c.fresh('n', I_)
        self.note(c, n)
        c.assume(domain(self.kind, n))
        d = Div(self.kind, n, c.fresh('x', I_))
        c.assume(z3.And(d.x >= 0, d.x < self.K.ORD(n)))
        return [Obj(cls(c, 'BraidGroup'), dict(n=n)), d] if self.group else [d]

    def pre(self, c, *a):
        d = a[-1]
        n = to_int(d.n)
        out = [('strand count in the domain', domain(self.kind, n)), ('a divisor', z3.And(d.x >= 0, d.x < self.K.ORD(n)))]
        return out + ([('same strand count', to_int(a[0].fields['n']) == n)] if self.group else [])

    def result(self, c, *a):
        return self.braid(c, 'res')

    def post(self, c, r, *a):
        d = a[-1]
        n = to_int(d.n)
        out = []
        if self.group and is_braid(r, self.kind):       # first which divisor it is, then its value
            _, _, p, f, ln = parts(c, r)
            out = [('lemma: the identity has no factor', z3.Implies(z3.And(ln == 0, p == 0), d.x == self.K.ID(n))),
                   ('lemma: the Garside element is a power', z3.Implies(z3.And(ln == 0, p == 1), d.x == self.K.DD(n)))]
        return out + braid_post(c, r, self.kind, n, self.K.LET(n, d.x))


class GroupFromDiv(FromDiv):
    group = True


class GroupMethod(KCase):
    """method(self) of BraidGroup"""
    kind = 'P'

    def match(self, c, args):
        return getattr(getattr(args[0], 'cls', None), 'name', '') == 'BraidGroup'

    def params(self, c):
        n = c.fresh('n', I_)
        self.note(c, n)
        c.assume(domain(self.kind, n))
        return [Obj(cls(c, 'BraidGroup'), dict(n=n))]

    def pre(self, c, g):
        return [('strand count in the domain', domain(self.kind, to_int(g.fields['n'])))]


class GroupId(GroupMethod):
    def result(self, c, g):
        return self.braid(c, 'res')

    def post(self, c, r, g):
        return braid_post(c, r, 'P', to_int(g.fields['n']), ONE)


class GroupGens(GroupMethod):
    value = staticmethod(lambda n, t: SIG(n, t))

    def result(self, c, g):
        return c.fresh_val(('seq', bt(c, 'P'), 'tuple'), 'gens')

    def post(self, c, r, g):
        n = to_int(g.fields['n'])
        return braids_post(c, r, 'P', n, n - 1, lambda t: self.value(n, t))


class GroupInvs(GroupGens):
    value = staticmethod(lambda n, t: INV(SIG(n, t)))


class GroupLiftOther(GroupFromDiv):
    """A divisor of another size is refused."""
    name = 'other size'
    raises = {'ValueError': True}

    def params(self, c):
        g, d = super().params(c)
        m = c.fresh('m', I_)
        c.assume(m != to_int(d.n))
        g.fields['n'] = m
        return [g, d]

    def match(self, c, args):
        return False

    def pre(self, c, *a):
        return []

    def post(self, c, r, *a):
        return [('refused', False)]


class Substring(Method):
    def params(self, c):
        a = self.start(c)
        i, j = c.fresh('i', I_), c.fresh('j', I_)
        K, n, p, f, ln = parts(c, a)
        c.assume(interior(K, n, f, ln))
        c.assume(z3.And(0 <= i, i <= j, j <= to_int(iseq(c, a.fields['factors']).n)))
        return [a, i, j]

    def pre(self, c, a, i, j):
        return [('operand is a normal form', canon(c, a)), ('bounds', z3.And(0 <= to_int(i), to_int(i) <= to_int(j), to_int(j) <= to_int(iseq(c, a.fields['factors']).n)))]

    def post(self, c, r, a, i, j):
        K, n, p, f, ln = parts(c, a)
        return braid_post(c, r, self.kind, n, mul(K.DEL(n, p), K.PR(n, f, to_int(i), to_int(j))))


class Observe(Method):
    def params(self, c):
        return [self.start(c)]

    def pre(self, c, a):
        return [('operand is a normal form', canon(c, a))]


class Number(Observe):
    def result(self, c, a):
        return c.fresh('res', I_)

    def post(self, c, r, a):
        K, n, p, f, ln = parts(c, a)
        return [('the value', to_int(r) == self.value(p, ln))]


class Inf(Number):
    value = staticmethod(lambda p, ln: p)


class Sup(Number):
    value = staticmethod(lambda p, ln: p + ln)


class Length(Number):
    value = staticmethod(lambda p, ln: ln)


class Factors(Observe):
    def result(self, c, a):
        return c.fresh_val(('seq', ('model', DivT(self.kind, self.strands(c, a))), 'tuple'), 'divs')

    def post(self, c, r, a):
        return [(w, g) for w, g in same_factors(c, self.K, r, a)]


def same_factors(c, K, r, a):
    s = div_seq(c, r)
    _, n, p, f, ln = parts(c, a)
    t = z3.Int('t!sf')
    return [('as many', to_int(s.n) == ln), ('of this group', to_int(s.et[1].n) == n),
            ('the factors', z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < ln), s.arrs[0][t] == f[t]), patterns=[s.arrs[0][t]]))]


class Decomposition(Observe):
    def result(self, c, a):
        return (c.fresh('inf', I_), c.fresh_val(('seq', ('model', DivT(self.kind, self.strands(c, a))), 'tuple'), 'divs'))

    def post(self, c, r, a):
        K, n, p, f, ln = parts(c, a)
        return [('the power', to_int(r[0]) == p)] + same_factors(c, K, r[1], a)


class Factor(Observe):
    def params(self, c):
        a = self.start(c)
        i = c.fresh('i', I_)
        ln = to_int(iseq(c, a.fields['factors']).n)
        c.assume(z3.And(-ln <= i, i < ln))
        return [a, i]

    def pre(self, c, a, i):
        ln = to_int(iseq(c, a.fields['factors']).n)
        return super().pre(c, a) + [('index in range', z3.And(-ln <= to_int(i), to_int(i) < ln))]

    def result(self, c, a, i):
        return Div(self.kind, self.strands(c, a), c.fresh('x', I_))

    def post(self, c, r, a, i):
        K, n, p, f, ln = parts(c, a)
        i = to_int(i)
        if not isinstance(r, Div):
            return [('a divisor', False)]
        return [('the factor', z3.And(to_int(r.n) == n, r.x == f[z3.If(i < 0, i + ln, i)]))]


class Gens(ClassMethod):
    """artin_gens(cls, n)"""
    def params(self, c):
        return self.start(c)

    def result(self, c, k, n):
        return c.fresh_val(('seq', bt(c, self.kind), 'list'), 'gens')

    def post(self, c, r, k, n):
        n = to_int(n)
        return braids_post(c, r, self.kind, n, n - 1, lambda t: SIG(n, t))


def braids_post(c, r, kind, n, count, value):
    """A sequence of braids in normal form, given by their values."""
    s = as_sseq(c.as_seq(r))
    if s.et is None or s.et[0] != 'obj' or s.et[1].name != CLS[kind]:
        return [('a list of braids', False)]
    t = z3.Int('t!bs')
    el = s.get(t)
    pats = [z3.Select(a, t) for a in s.arrs]
    every = lambda g: z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < to_int(s.n)), g), patterns=pats[:1])
    return [('as many', to_int(s.n) == count), ('normal forms', every(canon(c, el))), ('on the same strands', every(to_int(el.fields['n']) == n)),
            ('the values', every(val(c, el) == value(t)))]


OTHER = {'P': 'N', 'N': 'P'}


def both(n):
    return z3.And(domain('P', n), domain('N', n))


class Lifts(ClassMethod):
    """_factors_to_DGNF(n), _factors_to_GNF(n): the divisors of one kind as braids of the other"""
    static = True

    def params(self, c):
        r = self.start(c)
        c.assume(both(c.ghost['n']))
        return r

    def pre(self, c, n):
        return [('strand count in the domain', both(to_int(n)))]

    def result(self, c, n):
        return c.fresh_val(('seq', bt(c, OTHER[self.kind]), 'list'), 'lifts')

    def post(self, c, r, n):
        n = to_int(n)
        return braids_post(c, r, OTHER[self.kind], n, self.K.ORD(n), lambda t: self.K.LET(n, t))


class Convert(Method):
    """to_DGNF(), to_GNF()"""
    def params(self, c):
        r = self.start(c)
        c.ghost['src'] = r
        c.assume(both(c.ghost['n']))
        return [r]

    def pre(self, c, a):
        return [('operand is a normal form', canon(c, a)), ('strand count in the domain', both(self.strands(c, a)))]

    def result(self, c, a):
        return c.fresh_val(bt(c, OTHER[self.kind]), 'res')

    def post(self, c, r, a):
        return braid_post(c, r, OTHER[self.kind], self.strands(c, a), val(c, a))


# ---- loop invariants
def h_fold(ex, view):
    """A product of braids so far."""
    src = ex.ghost.get('src')
    if src is None or view.k is None:
        return
    K, n, p, a, ln = parts(ex, src)
    for x in view.live:
        if getattr(getattr(view.entry.vars.get(x), 'cls', None), 'name', '') in ('GNF', 'DGNF'):
            yield f'{x} is a normal form', lambda v, x=x: canon(ex, v.frame.vars[x])
            yield f'{x} has n strands', lambda v, x=x: to_int(v.frame.vars[x].fields['n']) == n
            yield f'{x} is the product so far', lambda v, x=x: val(ex, v.frame.vars[x]) == K.PR(n, a, IV(0), v.k)


def snaps(ex, view, mutated=False):
    """Sequences of integers the loop does not assign."""
    seen = set()
    for x, w in view.entry.vars.items():
        if x in view.entry.names or not isinstance(w, (SSeq, tuple, I.LObjSnap, LObj)):
            continue
        try:
            s = iseq(ex, w)
        except (Unsupported, TypeError):
            continue
        key = (s.arrs[0].get_id(), str(s.n))
        if key not in seen:
            seen.add(key)
            yield x, s


def hints(*groups):
    def gen(ex, view):
        if 'K' not in ex.ghost:
            return
        for g in groups:
            yield from g(ex, view)
    return gen


class V:
    """What the hint groups share."""
    def __init__(self, ex, view):
        self.ex, self.view, self.K, self.n = ex, view, ex.ghost['K'], ex.ghost['n']
        self.ints = [x for x in view.live if is_int(view.entry.vars.get(x))]
        self.outer = [(x, to_int(e)) for x, e in view.entry.vars.items() if is_int(e) and x not in view.entry.names]
        self.pos = None
        if view.k is not None and view.iters and hasattr(view.iters[0], 'item'):
            try:
                if is_int(view.iters[0].item(view.k)):
                    self.pos = lambda v: view.iters[0].item(v.k)
            except Exception:
                pass
        self.lists = []
        for b in invs.lists(view):
            try:
                s0 = iseq(ex, invs.seq_of(view.entry.objs[b]))
            except Unsupported:
                continue
            self.lists.append((b, s0.arrs[0], to_int(s0.n)))

    def A(self, v, b):
        return iseq(self.ex, invs.seq_of(v.objs[b])).arrs[0]

    def N(self, v, b):
        return to_int(invs.seq_of(v.objs[b]).n)

    def PR(self, a, lo, hi):
        return self.K.PR(self.n, a, lo, hi)


Z = IV(0)


def h_range(ex, view):
    h = V(ex, view)
    for b, a0, n0 in h.lists:
        yield f'list{b} in range', lambda v, b=b: in_range(h.K, h.n, h.A(v, b), h.N(v, b))


def h_product(ex, view):
    h = V(ex, view)
    for b, a0, n0 in h.lists:
        yield f'product of list{b} unchanged', lambda v, b=b, a0=a0, n0=n0: h.PR(h.A(v, b), Z, h.N(v, b)) == h.PR(a0, Z, n0)


def h_pairs(ex, view):
    h = V(ex, view)
    p = h.pos
    if p is None:
        return
    for b, a0, n0 in h.lists:
        yield (f'divided by a left-weighted pair at list{b}', lambda v, b=b: z3.Implies(z3.And(p(v) >= 0, p(v) < h.N(v, b) - 2),
               h.K.CMB(h.n, h.A(v, b)[p(v)], h.A(v, b)[p(v) + 1], h.A(v, b)[p(v) + 2])))
        if not h.outer:
            yield f'pairs of list{b} but here', lambda v, b=b: pairs(h.K, h.n, h.A(v, b), h.N(v, b), p(v))
        for x, e in h.outer:
            yield f'pairs of list{b} but here and at {x}+1', lambda v, b=b, e=e: pairs(h.K, h.n, h.A(v, b), h.N(v, b), p(v), e + 1)


def h_low(ex, view):
    """Prefixes are as large as they can be."""
    h = V(ex, view)
    p = h.pos
    if p is None:
        return
    for b, a0, n0 in h.lists:
        T = ex.ghost.get('total')
        if T is None:
            T = h.PR(a0, Z, n0)
        m = z3.Int('m!low')

        def low(v, b, cond, c, T=T):
            g = h.PR(h.A(v, b), Z, m)
            return z3.ForAll([m], z3.Implies(z3.And(m >= 0, m <= h.N(v, b), cond), h.K.LOW(h.n, m, c, T, g)), patterns=[g])
        if not h.outer:
            yield f'prefixes of list{b}', lambda v, b=b, low=low, n0=n0: low(v, b, m <= v.k + 1, n0 - 1 - v.k)
        for x, e in h.outer:
            c = n0 - 1 - e
            yield f'prefixes of list{b} up to here, with {x}', lambda v, b=b, low=low, c=c: low(v, b, m <= p(v) + 1, c)
            yield (f'prefixes of list{b} from here to {x}+2', lambda v, b=b, low=low, e=e, c=c:
                   low(v, b, z3.And(p(v) + 1 < m, m <= e + 2), c - 1))
            yield f'prefixes of list{b} up to {x}+2', lambda v, b=b, low=low, e=e, c=c: low(v, b, m <= e + 2, c - 1)


def h_mix(ex, view):
    """Conjugation by an accumulated power."""
    h = V(ex, view)
    if view.k is None or view.n is None:
        return
    ds = [('-1', z3.K(I_, IV(-1)))] + [(x, s.arrs[0]) for x, s in snaps(ex, view)]
    for b, a0, n0 in h.lists:
        for x in h.ints:
            x0 = to_int(view.entry.vars[x])
            for dn, d in ds:
                yield (f'list{b} conjugated by {x} over {dn}', lambda v, b=b, x=x, x0=x0, d=d, a0=a0, n0=n0:
                       mul(h.K.MIX(h.n, d, h.A(v, b), Z, n0 - v.k), h.K.DEL(h.n, to_int(v.frame.vars[x])), h.PR(h.A(v, b), n0 - v.k, n0))
                       == mul(h.K.MIX(h.n, d, a0, Z, n0), h.K.DEL(h.n, x0)))


def h_word(ex, view):
    """Two parallel lists, of powers and of factors, make the word so far."""
    h = V(ex, view)
    w = ex.ghost.get('word')
    if w is None or view.k is None:
        return
    for b, _, _ in h.lists:
        for d, _, _ in h.lists:
            if b != d:
                yield f'list{b} and list{d} as long', lambda v, b=b, d=d: h.N(v, b) == h.N(v, d)
                yield (f'list{b} over list{d} is the word so far', lambda v, b=b, d=d:
                       h.K.MIX(h.n, h.A(v, d), h.A(v, b), Z, h.N(v, b)) == WORD(h.n, w.arrs[0], w.arrs[1], Z, v.k))


def h_scan(ex, view):
    h = V(ex, view)
    if view.k is None:
        return
    for x, s in snaps(ex, view):
        yield f'pairs of {x} before k', lambda v, s=s: pairs(h.K, h.n, s.arrs[0], v.k + 1)


def h_trim(ex, view):
    h = V(ex, view)
    ss = [(x, s, getattr(view.entry.vars[x], 'kind', '') == 'list' or isinstance(view.entry.vars[x], (LObj, I.LObjSnap))) for x, s in snaps(ex, view)]
    for x, s, l in ss:
        if not l and any(m for _, _, m in ss):
            continue
        for y in h.ints:
            y0 = z3.simplify(to_int(view.entry.vars[y]))
            if not (z3.is_int_value(y0) or z3.eq(y0, z3.simplify(to_int(s.n)))):
                continue
            yield f'{x} from entry {y} to {y}: Garside elements', lambda v, s=s, y=y, y0=y0: h.PR(s.arrs[0], y0, to_int(v.frame.vars[y])) == h.K.DEL(h.n, to_int(v.frame.vars[y]) - y0)
            yield f'{x} from {y} to entry {y}: identities', lambda v, s=s, y=y, y0=y0: h.PR(s.arrs[0], to_int(v.frame.vars[y]), y0) == ONE


def h_pow(ex, view):
    h = V(ex, view)
    objs = [x for x in view.live if getattr(getattr(view.entry.vars.get(x), 'cls', None), 'name', '') in ('GNF', 'DGNF')]
    for x in objs:
        yield f'{x} is a normal form', lambda v, x=x: canon(ex, v.frame.vars[x])
        yield f'{x} has n strands', lambda v, x=x: to_int(v.frame.vars[x].fields['n']) == h.n
        for y in objs:
            for e in h.ints:
                if x != y:
                    e0 = to_int(view.entry.vars[e])
                    x0, y0 = val_snap(ex, view.entry.vars[x]), val_snap(ex, view.entry.vars[y])
                    yield (f'{x} * {y} ** {e} constant', lambda v, x=x, y=y, e=e, e0=e0, x0=x0, y0=y0:
                           mul(val(ex, v.frame.vars[x]), POW(val(ex, v.frame.vars[y]), to_int(v.frame.vars[e]))) == mul(x0, POW(y0, e0)))


def val_snap(c, o):
    s = iseq(c, o.fields['factors'])
    K = {'GNF': KINDS['P'], 'DGNF': KINDS['N']}[o.cls.name]
    n = to_int(o.fields['n'])
    return mul(K.DEL(n, to_int(o.fields['power'])), K.PR(n, s.arrs[0], IV(0), to_int(s.n)))


def contracts(repo):
    def C(q, cases, prop, *groups, **kw):
        opts = dict(index_quant=True, frames=False, mutual=True, simple_qf=True, numeric=True)
        opts.update(kw.pop('opts', {}))
        return Contract(M + q, cases, prop=prop, hints=hints(*groups) if groups else None, theories=TH, opts=opts, **kw)
    out = [
        Contract(M + 'PermTable.create', Create('P')),
        Contract(M + 'NParTable.create', Create('N')),
        C('NFTable.is_factors_normalised', kinds(IsNormalised), 'C03', h_scan),
        C('NFTable.normalise_factors', kinds(Normalise), 'C03', h_range, h_product, h_low, h_trim),
        C('NFTable.product_normalised_factors', kinds(Product), 'C01', h_range, h_product, h_pairs, h_trim),
        C('NFBase.identity', kinds(Identity), 'C01'),
        C('NFBase.__mul__', kinds(Mul) + kinds(MulOther), 'C01'),
        C('NFBase.inv', kinds(Inv), 'C01', h_range, h_mix),
        C('NFBase.__pow__', kinds(Pow), 'C01', h_pow),
        *[C(f'{CLS[k]}.from_artin_word', kinds(FromArtin, k), 'C03', h_range, h_mix, h_word) for k in 'PN'],
        C('NFBase.artin_word', kinds(ArtinWord), 'C03'),
        C('GNF.from_perm_seq', kinds(FromSeq, 'P'), 'C03'),
        C('GNF.from_perm', kinds(FromDiv, 'P'), 'C03'),
        C('DGNF.from_npar_seq', kinds(FromSeq, 'N'), 'C03'),
        C('DGNF.from_npar', kinds(FromDiv, 'N'), 'C03'),
        C('NFBase.substring', kinds(Substring), 'C01'),
        C('NFBase.artin_gens', kinds(Gens), 'C03'),
        C('BraidGroup.id', kinds(GroupId, 'P'), 'C03'),
        C('BraidGroup.gens', kinds(GroupGens, 'P'), 'C03'),
        C('BraidGroup.invs', kinds(GroupInvs, 'P'), 'C03'),
        C('BraidGroup.positive_lift', kinds(GroupFromDiv, 'P') + kinds(GroupLiftOther, 'P'), 'C03'),
        C('BraidGroup.from_npar', kinds(GroupFromDiv, 'N') + kinds(GroupLiftOther, 'N'), 'C03'),
        C('GNF._factors_to_DGNF', kinds(Lifts, 'P'), 'C03'),
        C('DGNF._factors_to_GNF', kinds(Lifts, 'N'), 'C03'),
        C('GNF.to_DGNF', kinds(Convert, 'P'), 'C03', h_fold),
        C('DGNF.to_GNF', kinds(Convert, 'N'), 'C03', h_fold),
        C('NFBase.inf', kinds(Inf), 'C01'),
        C('NFBase.sup', kinds(Sup), 'C01'),
        C('NFBase.canonical_length', kinds(Length), 'C01'),
        C('NFBase.canonical_factors', kinds(Factors), 'C01'),
        C('NFBase.canonical_factor', kinds(Factor), 'C01'),
        C('NFBase.canonical_decomposition', kinds(Decomposition), 'C01'),
    ]
    return out
