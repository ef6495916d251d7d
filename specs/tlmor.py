"""Contracts for linear combinations of Temperley-Lieb diagrams (peyl/tl.py: TLMor).

A diagram is a token of sort DG (TOP, BOT, SEQ; what the verified functions on matchings do to it: MUL, BUBBLES, FLIPD, TRC,
THRU), a coefficient is an element of a commutative ring (a real number to the solver).  A map from diagrams to coefficients
is given by HAS and CO; it is listed in some order, KEY(has, 0), ..., KEY(has, NK(has) - 1).

  coef(m, d)      the coefficient of the diagram d, zero when the map does not have it
  ACC(..., i, j)  the sum of q^bubbles * coefficient * coefficient over the pairs before (i, j), diagram by diagram
  TRA(..., i)     the sum of coefficient * q^loops over the first i diagrams"""
from __future__ import annotations
import z3
from pyvc.values import *
from pyvc.vc import Contract, Case, tobool
from pyvc import interp as I
from pyvc import invs
from specs.search import Token, TokenT
from specs import tl

M = 'peyl.tl:'
F = z3.Function
I_, B_, R_ = z3.IntSort(), z3.BoolSort(), z3.RealSort()
AI = z3.ArraySort(I_, I_)
DG = z3.DeclareSort('Diagram')
HA, CA = z3.ArraySort(DG, B_), z3.ArraySort(DG, R_)
TOP, BOT, TRC, THRU = (F(x, DG, I_) for x in ('TOP', 'BOT', 'TRACELOOPS', 'THRU'))
SEQ = F('SEQ', DG, AI)
MUL, BUB, FLIPD, IDD = F('MULDIAG', DG, DG, DG), F('BUBBLES', DG, DG, I_), F('FLIPDIAG', DG, DG), F('IDDIAG', I_, DG)
ED = F('EDIAG', I_, I_, DG)
WID, WED = F('notid', DG, I_), F('note', DG, I_, I_, I_)
NK, KEY, POS = F('NK', HA, I_), F('KEY', HA, I_, DG), F('POS', HA, DG, I_)
VP, VI = z3.Real('v!ring'), z3.Real('vinv!ring')
Q = VI + VP
POWR = F('POWR', R_, I_, R_)
BAR = F('BAR', R_, R_)
ACC = F('ACC', HA, CA, HA, CA, I_, I_, CA)
TRA = F('TRA', HA, CA, I_, R_)
MOR = z3.DeclareSort('Morphism')
MMUL, MPOW, MID = F('MMUL', MOR, MOR, MOR), F('MPOW', MOR, I_, MOR), F('MID', I_, MOR)
MTOP, MBOT = F('MTOP', MOR, I_), F('MBOT', MOR, I_)
d_, e_ = z3.Const('d!dg', DG), z3.Const('e!dg', DG)


def A(vs, f, *p):
    return z3.ForAll(vs, f, patterns=list(p))


def theory():
    h, c, g, b = z3.Const('h!', HA), z3.Const('c!', CA), z3.Const('g!', HA), z3.Const('b!', CA)
    i, j, n = z3.Int('i!'), z3.Int('j!'), z3.Int('n!')
    x = z3.Real('x!')
    k, l = KEY(h, i), KEY(g, j)
    acc = lambda i, j: ACC(h, c, g, b, i, j)
    return [
        A([h], NK(h) >= 0, NK(h)),
        A([h, i], z3.Implies(z3.And(i >= 0, i < NK(h)), z3.And(h[k], POS(h, k) == i)), k),
        A([h, d_], z3.Implies(h[d_], z3.And(POS(h, d_) >= 0, POS(h, d_) < NK(h), KEY(h, POS(h, d_)) == d_)), POS(h, d_)),
        A([h, d_], z3.Implies(h[d_], z3.And(POS(h, d_) >= 0, POS(h, d_) < NK(h), KEY(h, POS(h, d_)) == d_)), z3.MultiPattern(h[d_], NK(h))),
        A([d_, e_], z3.Implies(BOT(d_) == TOP(e_), z3.And(TOP(MUL(d_, e_)) == TOP(d_), BOT(MUL(d_, e_)) == BOT(e_))), MUL(d_, e_)),
        A([d_, e_], BUB(d_, e_) >= 0, BUB(d_, e_)),
        A([d_], z3.And(TOP(FLIPD(d_)) == BOT(d_), BOT(FLIPD(d_)) == TOP(d_), FLIPD(FLIPD(d_)) == d_), FLIPD(d_)),
        A([d_], z3.And(TOP(d_) >= 0, BOT(d_) >= 0), TOP(d_)), A([d_], z3.And(TOP(d_) >= 0, BOT(d_) >= 0), BOT(d_)), A([d_], TRC(d_) >= 0, TRC(d_)),
        A([n], z3.Implies(n >= 0, z3.And(TOP(IDD(n)) == n, BOT(IDD(n)) == n)), IDD(n)), A([n, i], z3.Implies(n >= 0, z3.And(TOP(ED(i, n)) == n, BOT(ED(i, n)) == n)), ED(i, n)),
        A([x], POWR(x, 0) == 1, POWR(x, 0)),
        A([x], z3.And((BAR(x) == 0) == (x == 0), BAR(BAR(x)) == x), BAR(x)),
        A([h, c, g, b, d_], acc(0, 0)[d_] == 0, acc(0, 0)[d_]),
        A([h, c, g, b, i, j, d_], z3.Implies(z3.And(i >= 0, j >= 0, j < NK(g)), acc(i, j + 1)[d_] == acc(i, j)[d_] + z3.If(
            MUL(k, l) == d_, POWR(Q, BUB(k, l)) * c[k] * b[l], 0)), acc(i, j + 1)[d_]),
        A([h, c, g, b, i, d_], z3.Implies(i >= 0, acc(i + 1, 0)[d_] == acc(i, NK(g))[d_]), acc(i + 1, 0)[d_]),
        A([h, c], TRA(h, c, 0) == 0, TRA(h, c, 0)),
        A([h, c, i], z3.Implies(i >= 0, TRA(h, c, i + 1) == TRA(h, c, i) + c[k] * POWR(Q, TRC(k))), TRA(h, c, i + 1)),
    ]


# ---- values
class LP(Token):
    """A coefficient."""
    tname, sort = 'coefficient', R_

    def binop(self, ex, op, other, swapped):
        if op == 'USub':
            return LP(-self.t)
        if isinstance(other, Obj):
            if swapped:
                raise Unsupported('operator on a coefficient')
            m = {'Add': '__radd__', 'Sub': '__rsub__', 'Mult': '__rmul__'}.get(op)
            if m is None or other.cls.find(ex.repo, m) is None:
                raise PyRaise('TypeError', line=ex.line)
            return ex.call(ex.class_attr(other.cls, m, other), [self], {})
        if op == 'Pow' and not swapped and is_int(other):
            ex.check(to_int(other) >= 0, f'the power is not negative (line {ex.line})', 'safe')
            return LP(POWR(self.t, to_int(other)))
        o = other.t if isinstance(other, LP) else z3.ToReal(to_int(other)) if is_int(other) and not isinstance(other, int) else z3.RealVal(other) if is_int(other) else None
        if o is None:
            raise Unsupported('operator on a coefficient')
        x, y = (o, self.t) if swapped else (self.t, o)
        if op in ('Add', 'Sub', 'Mult'):
            return LP(x + y if op == 'Add' else x - y if op == 'Sub' else x * y)
        raise Unsupported(f'operator {op} on a coefficient')

    def getattr(self, ex, name):
        if name == 'is_zero':
            return Fn(lambda ex: self.t == 0, name)
        if name == 'evaluate':
            def evaluate(ex, x):
                if isinstance(x, LP) and z3.eq(z3.simplify(x.t), VI):
                    return LP(BAR(self.t))
                raise Unsupported('evaluation at another place')
            return Fn(evaluate, name)
        raise Unsupported(f'{name} of a coefficient')

    def compare(self, ex, op, other, swapped):
        o = other.t if isinstance(other, LP) else z3.RealVal(other) if isinstance(other, int) else None
        if o is not None and op in ('Eq', 'NotEq'):
            return self.t == o if op == 'Eq' else self.t != o
        raise Unsupported('comparison of coefficients')

    def isinstance(self, ex, what):
        return getattr(what, 'name', None) == 'LPoly'


def number(x):
    return z3.ToReal(x) if is_z3(x) and x.sort() == I_ else x if is_z3(x) else z3.RealVal(x)


def make_lpoly(ex, cls, args, kw):
    if kw or len(args) != 2 or not isinstance(args[0], int):
        raise Unsupported('another polynomial')
    cs = args[1]
    if not isinstance(cs, tuple):
        raise Unsupported('another polynomial')
    r = z3.RealVal(0)
    for j, x in enumerate(cs):
        m = {-1: VI, 0: z3.RealVal(1), 1: VP}.get(args[0] + j)
        if m is None or not is_int(x):
            raise Unsupported('another polynomial')
        r = r + number(x) * m
    return LP(z3.simplify(r))


class SeqTok(Token):
    """The matching of a diagram."""
    tname, sort = 'matching', DG


class Diag(Token):
    tname, sort = 'diagram', DG

    def getattr(self, ex, name):
        if name in ('top', 'bot'):
            return (TOP if name == 'top' else BOT)(self.t)
        if name == 'seq':
            return SeqTok(self.t)
        if name == 'flip':
            return Fn(lambda ex: Diag(FLIPD(self.t)), name)
        raise Unsupported(f'{name} of a diagram')

    def compare(self, ex, op, other, swapped):
        if isinstance(other, Diag) and op in ('Eq', 'NotEq'):
            return self.t == other.t if op == 'Eq' else self.t != other.t
        raise Unsupported('comparison of diagrams')

    def isinstance(self, ex, what):
        return getattr(what, 'name', None) == 'TLDiag'

    def binop(self, ex, op, other, swapped):
        if op == 'Mult' and isinstance(other, Diag):
            a, b = (other, self) if swapped else (self, other)
            if ex.branch(BOT(a.t) != TOP(b.t)):
                raise PyRaise('ValueError', line=ex.line)
            return (Diag(MUL(a.t, b.t)), BUB(a.t, b.t))
        raise Unsupported('operator on diagrams')


def make_diag(ex, cls, args, kw):
    """TLDiag(top, bot, matching)"""
    if kw or len(args) not in (3, 4):
        raise Unsupported('another construction')
    top, bot, s = to_int(args[0]), to_int(args[1]), args[2]
    if isinstance(s, SeqTok):
        ex.check(z3.And(top == TOP(s.t), bot == BOT(s.t)), f'the diagram has the shape of its matching (line {ex.line})', 'safe')
        return Diag(s.t)
    from specs.tl import CM
    q = as_sseq(ex.as_seq(s))
    if q.et != INT:
        raise Unsupported('not a matching')
    a, n = q.arrs[0], to_int(q.n)
    bad = z3.Or(top < 0, bot < 0, top + bot != n, z3.Not(CM(a, n)))
    if ex.branch(bad):
        raise PyRaise('AssertionError', line=ex.line)
    return as_token(ex, top, bot, a)


def as_token(ex, top, bot, a):
    d = ex.fresh('diag', DG)
    n = top + bot
    t = z3.Int('t!dg')
    ex.assume(z3.And(TOP(d) == top, BOT(d) == bot))
    ex.assume(A([t], z3.Implies(z3.And(t >= 0, t < n), SEQ(d)[t] == a[t]), a[t]))
    w = WID(d)
    ex.assume(z3.Or(d == IDD(bot), top != bot, z3.And(w >= 0, w < n, a[w] != n - 1 - w)))         # diagrams are equal when their dots are
    if 'e' in ex.ghost:
        i, m = ex.ghost['e']
        w = WED(d, i, m)
        ex.assume(z3.Or(d == ED(i, m), top != m, bot != m, z3.And(w >= 0, w < n, a[w] != edot(i, m, w))))
    return Diag(d)


def edot(i, n, t):
    return z3.If(t == i, i + 1, z3.If(t == i + 1, i, z3.If(t == 2 * n - 1 - i, 2 * n - 2 - i, z3.If(t == 2 * n - 2 - i, 2 * n - 1 - i, 2 * n - 1 - t))))


def key(ex, k):
    if isinstance(k, Diag):
        return k.t
    if isinstance(k, Obj) and k.cls.name == 'TLDiag':
        q = as_sseq(ex.as_seq(k.fields['seq']))
        return as_token(ex, to_int(k.fields['top']), to_int(k.fields['bot']), q.arrs[0]).t
    raise Unsupported('not a diagram')


def coef_of(ex, v):
    if isinstance(v, LP):
        return v.t
    if is_int(v):
        raise Unsupported('a number as coefficient')
    raise Unsupported('not a coefficient')


class St:
    def __init__(self, has, co):
        self.has, self.co = has, co

    def coef(self, d):
        return z3.If(self.has[d], self.co[d], 0)


class Terms(Model):
    """A map from diagrams to coefficients."""
    tname = 'map of diagrams'

    def __init__(self, ex, has=None, co=None):
        self.has = ex.fresh('has', HA) if has is None else has
        self.co = ex.fresh('co', CA) if co is None else co
        self.birth = next(I.V._birth)

    def havoc(self, ex, tag, fields):
        self.has, self.co = ex.fresh('has' + tag, HA), ex.fresh('co' + tag, CA)

    def snapshot(self):
        return St(self.has, self.co)

    def coef(self, d):
        return z3.If(self.has[d], self.co[d], 0)

    def named(self, ex):
        for f in ('has', 'co'):
            v = getattr(self, f)
            if not z3.is_const(v):
                c = ex.fresh('N' + f, v.sort())
                ex.assume(c == v)
                setattr(self, f, c)

    def isinstance(self, ex, what):
        return isinstance(what, Fn) and what.name == 'dict'

    def contains(self, ex, k):
        return self.has[key(ex, k)]

    def truth(self, ex):
        return NK(self.has) > 0

    def length(self, ex):
        return NK(self.has)

    def item(self, ex, what):
        h, c = self.has, self.co

        def at(t):
            k = KEY(h, t)
            return {'keys': Diag(k), 'values': LP(c[k]), 'items': (Diag(k), LP(c[k]))}[what]
        return at

    def iter(self, ex):
        return self.listing(ex, 'keys').iter(ex)

    def listing(self, ex, what):
        self.named(ex)
        return Listing(self, what)

    def copied(self, ex):
        return Terms(ex, self.has, self.co)

    def getitem(self, ex, k):
        d = key(ex, k)
        if not ex.branch(self.has[d]):
            raise PyRaise('KeyError', line=ex.line)
        return LP(self.co[d])

    def setitem(self, ex, k, v):
        d, x = key(ex, k), coef_of(ex, v)
        ex.mutate(self, 'map')
        self.has, self.co = z3.Store(self.has, d, True), z3.Store(self.co, d, x)

    def getattr(self, ex, name):
        if name in ('items', 'keys', 'values'):
            return Fn(lambda ex: self.listing(ex, name), name)
        if name == 'get':
            def get(ex, k, default=None):
                d = key(ex, k)
                if default is None:
                    return LP(self.co[d]) if ex.branch(self.has[d]) else None
                return LP(z3.If(self.has[d], self.co[d], coef_of(ex, default)))
            return Fn(get, name)
        if name == 'setdefault':
            def setdefault(ex, k, v):
                d, x = key(ex, k), coef_of(ex, v)
                if not ex.branch(self.has[d]):
                    self.setitem(ex, Diag(d), v)
                return LP(self.co[d])
            return Fn(setdefault, name)
        if name == 'copy':
            return Fn(self.copied, name)
        raise Unsupported(f'{name} of a map')


class Listing(Model):
    tname = 'view of a map'

    def __init__(self, terms, what):
        self.terms, self.what, self.at = terms, what, None
        self.has, self.co = terms.has, terms.co

    def iter(self, ex):
        return Iter(NK(self.has), self.terms.item(ex, self.what))

    def length(self, ex):
        return NK(self.has)


def sorted_hook(ex, v, key, reverse):
    if isinstance(v, (Listing, Terms)):         # the order of a map is not observed
        return v
    raise Unsupported('sorted')


def display(ex, pairs):
    t = None
    for k, v in pairs:
        if k is None:
            if t is not None or not isinstance(v, Terms):
                raise Unsupported('several maps')
            t = Terms(ex, v.has, v.co)
            continue
        if t is None:
            t = empty(ex)
        d, x = key(ex, k), coef_of(ex, v)
        t.has, t.co = z3.Store(t.has, d, True), z3.Store(t.co, d, x)
    return empty(ex) if t is None else t


def empty(ex):
    return Terms(ex, z3.K(DG, z3.BoolVal(False)), z3.K(DG, z3.RealVal(0)))


def of_pairs(ex, v):
    if isinstance(v, (tuple, list)):
        return display(ex, v)
    if v.et != ('tup', (('model', TokenT(Diag)), ('model', TokenT(LP)))):
        raise Unsupported('a map of something else')
    ks, cs = v.arrs
    n = to_int(v.n)
    t = Terms(ex)
    u = z3.Int('u!mp')
    w = z3.Function(f'place!{ex.fcount()}', DG, I_)
    ex.assume(A([u], z3.Implies(z3.And(u >= 0, u < n), t.has[ks[u]]), ks[u]))
    ex.assume(A([d_], z3.Implies(t.has[d_], z3.And(w(d_) >= 0, w(d_) < n, ks[w(d_)] == d_, t.co[d_] == cs[w(d_)])), t.has[d_]))
    ex.assume(A([d_, u], z3.Implies(z3.And(t.has[d_], u > w(d_), u < n), ks[u] != d_), z3.MultiPattern(t.has[d_], ks[u])))
    return t


# ---- cases
def tm(c):
    return c.repo.modules['peyl.tl'].globals['TLMor']


def is_mor(v):
    return isinstance(v, (Obj, I.ObjSnap)) and v.cls.name == 'TLMor' and isinstance(v.fields.get('terms'), (Terms, St))


def mor(x):
    t, top, bot = x.fields['terms'], to_int(x.fields['top']), to_int(x.fields['bot'])
    return A([d_], z3.Implies(t.has[d_], z3.And(t.co[d_] != 0, TOP(d_) == top, BOT(d_) == bot)), t.has[d_])


def pointwise(r, f):
    t = r.fields['terms'] if not isinstance(r, Terms) else r
    return z3.ForAll([d_], t.coef(d_) == f(d_))


class MCase(Case):
    name = 'combinations'
    nargs = 1
    needs = True          # the combinations are well formed

    def axioms(self, c, *a):
        return theory()

    def obj(self, c):
        return Obj(tm(c), dict(top=c.fresh('top', I_), bot=c.fresh('bot', I_), terms=Terms(c)))

    def params(self, c):
        ps = [self.obj(c) for _ in range(self.nargs)]
        for p in ps:
            c.assume(mor(p))
        return ps

    def match(self, c, args):
        return len(args) == self.nargs and all(map(is_mor, args))

    def coerce(self, c, args):
        return args

    def pre(self, c, *a):
        return [('well formed', z3.And(*[mor(x) for x in a if is_mor(x)]))]

    def result(self, c, *a):
        return self.obj(c)

    def shaped(self, r, top, bot):
        return [('shape', z3.And(to_int(r.fields['top']) == top, to_int(r.fields['bot']) == bot)), ('its diagrams have the shape, its coefficients are not zero', mor(r))]

    def post(self, c, r, *a):
        if not is_mor(r):
            return [('a combination', False)]
        top, bot = self.shape(*a)
        return self.shaped(r, top, bot) + [('coefficients', pointwise(r, lambda d: self.coef(c, d, *a)))]

    def shape(self, x, *a):
        return to_int(x.fields['top']), to_int(x.fields['bot'])


def co(x, d):
    return x.fields['terms'].coef(d)


class MInit(MCase):
    name = 'shape, coefficients'

    def params(self, c):
        t = Terms(c)
        c.ghost['init'] = True
        return [Obj(tm(c), {}), c.fresh('top', I_), c.fresh('bot', I_), t]

    def match(self, c, args):
        return len(args) == 4 and isinstance(args[3], Terms)

    def pre(self, c, *a):
        return []

    def must_raise(self, c, s, top, bot, t):
        return [('ValueError', z3.Exists([d_], z3.And(t.has[d_], z3.Or(TOP(d_) != to_int(top), BOT(d_) != to_int(bot)))))]

    def result(self, c, s, top, bot, t):
        s.fields.update(top=top, bot=bot, terms=Terms(c))
        return s

    def shape(self, s, top, bot, t):
        return to_int(top), to_int(bot)

    def coef(self, c, d, s, top, bot, t):
        return t.coef(d)


class MId(MCase):
    name = 'size'

    def params(self, c):
        n = c.fresh('n', I_)
        return [tm(c), n]

    def match(self, c, args):
        return is_int(args[-1])

    def pre(self, c, *a):
        return []

    def must_raise(self, c, *a):
        return [('AssertionError', to_int(a[-1]) < 0)]

    def shape(self, *a):
        return (to_int(a[-1]),) * 2

    def coef(self, c, d, *a):
        return z3.If(d == IDD(to_int(a[-1])), z3.RealVal(1), z3.RealVal(0))


class MTokId(MCase):
    """TLMor.id where powers are taken"""
    trusted = True
    name = 'size, tokens'

    def match(self, c, args):
        return isinstance(c.current_case, MPower) and is_int(args[-1])

    def pre(self, c, *a):
        return [('size', to_int(a[-1]) >= 0)]

    def result(self, c, *a):
        return Mor(MID(to_int(a[-1])))

    def post(self, c, r, *a):
        return []


class ME(MCase):
    name = 'place, size'

    def params(self, c):
        i, n = c.fresh('i', I_), c.fresh('n', I_)
        c.ghost['e'] = (i, n)
        return [tm(c), i, n]

    def match(self, c, args):
        return False

    def pre(self, c, *a):
        return []

    def must_raise(self, c, k, i, n):
        i, n = to_int(i), to_int(n)
        return [('AssertionError', z3.Not(z3.And(n >= 0, i >= 0, i < n - 1)))]

    def shape(self, k, i, n):
        return (to_int(n),) * 2

    def coef(self, c, d, k, i, n):
        return z3.If(d == ED(to_int(i), to_int(n)), z3.RealVal(1), z3.RealVal(0))


class MFrom(MCase):
    name = 'diagram'

    def params(self, c):
        return [tm(c), Diag(c.fresh('d', DG))]

    def match(self, c, args):
        return isinstance(args[-1], Diag)

    def pre(self, c, *a):
        return []

    def shape(self, *a):
        return TOP(a[-1].t), BOT(a[-1].t)

    def coef(self, c, d, *a):
        return z3.If(d == a[-1].t, z3.RealVal(1), z3.RealVal(0))


class MNeg(MCase):
    def coef(self, c, d, x):
        return -co(x, d)


class MAdd(MCase):
    nargs = 2
    sign = 1

    def params(self, c):
        x, y = super().params(c)
        c.ghost['add'] = (x.fields['terms'].snapshot(), y.fields['terms'].snapshot())
        return [x, y]

    def must_raise(self, c, x, y):
        return [('ValueError', z3.Or(to_int(x.fields['top']) != to_int(y.fields['top']), to_int(x.fields['bot']) != to_int(y.fields['bot'])))]

    def coef(self, c, d, x, y):
        return co(x, d) + self.sign * co(y, d)


class MSub(MAdd):
    sign = -1


class Scalar:
    """The other argument is a scalar: an integer (what = 'int') or a polynomial."""
    nargs = 1

    def __init__(self, what):
        self.what, self.name = what, f'combination, {what}'

    def other(self, c):
        return c.fresh('k', I_) if self.what == 'int' else LP(c.fresh('k', R_))

    def params(self, c):
        return super().params(c) + [self.other(c)]

    def match(self, c, args):
        return len(args) == 2 and is_mor(args[0]) and (is_int(args[1]) if self.what == 'int' else isinstance(args[1], LP))

    def scalar(self, k):
        return k.t if isinstance(k, LP) else number(to_int(k))


class MAddScalar(Scalar, MCase):
    sign = 1

    def must_raise(self, c, x, k):
        return [('ValueError', to_int(x.fields['top']) != to_int(x.fields['bot']))]

    def pre(self, c, x, k):
        return [('well formed', mor(x)), ('size', to_int(x.fields['bot']) >= 0)]

    def coef(self, c, d, x, k):
        return co(x, d) + self.sign * z3.If(d == IDD(to_int(x.fields['bot'])), self.scalar(k), z3.RealVal(0))


class MSubScalar(MAddScalar):
    sign = -1


class MScale(Scalar, MCase):
    def coef(self, c, d, x, k):
        return co(x, d) * self.scalar(k)


def product(a, b, d):
    return ACC(a.has, a.co, b.has, b.co, NK(a.has), 0)[d]


class MMul(MCase):
    nargs = 2

    def params(self, c):
        x, y = super().params(c)
        c.ghost['mul'] = (x.fields['terms'].snapshot(), y.fields['terms'].snapshot(), to_int(x.fields['top']), to_int(y.fields['bot']))
        return [x, y]

    def must_raise(self, c, x, y):
        return [('ValueError', to_int(x.fields['bot']) != to_int(y.fields['top']))]

    def shape(self, x, y):
        return to_int(x.fields['top']), to_int(y.fields['bot'])

    def coef(self, c, d, x, y):
        return product(x.fields['terms'], y.fields['terms'], d)


class MMulDiag(MCase):
    name = 'combination, diagram'

    def params(self, c):
        x, = super().params(c)
        y = Diag(c.fresh('d', DG))
        t = empty(c)
        t.has, t.co = z3.Store(t.has, y.t, True), z3.Store(t.co, y.t, z3.RealVal(1))
        c.ghost['mul'] = (x.fields['terms'].snapshot(), t, to_int(x.fields['top']), BOT(y.t))
        return [x, y]

    def match(self, c, args):
        return len(args) == 2 and is_mor(args[0]) and isinstance(args[1], Diag)

    def must_raise(self, c, x, y):
        return [('ValueError', to_int(x.fields['bot']) != TOP(y.t))]

    def shape(self, x, y):
        return to_int(x.fields['top']), BOT(y.t)

    def coef(self, c, d, x, y):
        h, k = z3.Store(z3.K(DG, z3.BoolVal(False)), y.t, True), z3.Store(z3.K(DG, z3.RealVal(0)), y.t, z3.RealVal(1))
        return product(x.fields['terms'], St(h, k), d)


class MFlip(MCase):
    def __init__(self, twist):
        self.twist, self.name = twist, 'combination' + (', v to 1/v' if twist else '')

    def params(self, c):
        return super().params(c) + [self.twist]

    def match(self, c, args):
        return len(args) == 2 and is_mor(args[0]) and args[1] is self.twist

    def shape(self, x, w):
        return to_int(x.fields['bot']), to_int(x.fields['top'])

    def coef(self, c, d, x, w):
        v = co(x, FLIPD(d))
        return z3.If(v == 0, z3.RealVal(0), BAR(v)) if self.twist else v


class MQuotient(MCase):
    name = 'combination, strands'

    def params(self, c):
        return super().params(c) + [c.fresh('strands', I_)]

    def match(self, c, args):
        return len(args) == 2 and is_mor(args[0]) and is_int(args[1])

    def coef(self, c, d, x, k):
        return z3.If(THRU(d) >= to_int(k), co(x, d), z3.RealVal(0))


class MZero(MCase):
    def result(self, c, *a):
        return c.fresh('zero', B_)

    def post(self, c, r, x):
        return [('zero exactly when every coefficient is', tobool(I.to_z3(c.truth(r))) == z3.ForAll([d_], co(x, d_) == 0))]


class MCoef(MCase):
    name = 'combination, diagram'

    def params(self, c):
        return super().params(c) + [Diag(c.fresh('d', DG))]

    def match(self, c, args):
        return len(args) == 2 and is_mor(args[0]) and isinstance(args[1], Diag)

    def must_raise(self, c, x, d):
        return [('ValueError', z3.Or(to_int(x.fields['top']) != TOP(d.t), to_int(x.fields['bot']) != BOT(d.t)))]

    def result(self, c, *a):
        return LP(c.fresh('c', R_))

    def post(self, c, r, x, d):
        return [('the coefficient', r.t == co(x, d.t))] if isinstance(r, LP) else [('a coefficient', False)]


class MTrace(MCase):
    def params(self, c):
        x, = super().params(c)
        c.ghost['trace'] = x.fields['terms'].snapshot()
        return [x]

    def result(self, c, *a):
        return LP(c.fresh('c', R_))

    def post(self, c, r, x):
        t = x.fields['terms']
        return [('the sum of the coefficients times the loops of the closures', r.t == TRA(t.has, t.co, NK(t.has)))] if isinstance(r, LP) else [('a coefficient', False)]


class Mor(Token):
    """A linear combination."""
    tname, sort = 'combination', MOR

    def binop(self, ex, op, other, swapped):
        if op == 'Mult' and isinstance(other, Mor):
            a, b = (other, self) if swapped else (self, other)
            if ex.branch(MBOT(a.t) != MTOP(b.t)):
                raise PyRaise('ValueError', line=ex.line)
            return Mor(MMUL(a.t, b.t))
        raise Unsupported('operator on combinations')

    def getattr(self, ex, name):
        if name in ('top', 'bot'):
            return (MTOP if name == 'top' else MBOT)(self.t)
        raise Unsupported(f'{name} of a combination')

    def isinstance(self, ex, what):
        return getattr(what, 'name', None) == 'TLMor'


class MPower(MCase):
    """Powers, in the monoid of square combinations."""
    name = 'combination, exponent'

    def axioms(self, c, *a):
        x, y = z3.Const('x!m', MOR), z3.Const('y!m', MOR)
        n, e = z3.Int('n!m'), z3.Int('e!m')
        return [
            A([x, y], z3.Implies(MBOT(x) == MTOP(y), z3.And(MTOP(MMUL(x, y)) == MTOP(x), MBOT(MMUL(x, y)) == MBOT(y))), MMUL(x, y)),
            A([n], z3.Implies(n >= 0, z3.And(MTOP(MID(n)) == n, MBOT(MID(n)) == n)), MID(n)), A([x], z3.Implies(MTOP(x) == MBOT(x), MPOW(x, 0) == MID(MTOP(x))), MPOW(x, 0)),
            A([x, e], z3.Implies(z3.And(MTOP(x) == MBOT(x), e >= 0), z3.And(MTOP(MPOW(x, e)) == MTOP(x), MBOT(MPOW(x, e)) == MTOP(x))), MPOW(x, e))]

    def params(self, c):
        x, e = Mor(c.fresh('x', MOR)), c.fresh('e', I_)
        c.assume(z3.And(MTOP(x.t) >= 0, MBOT(x.t) >= 0))
        c.ghost['pow'] = (x.t, e)
        return [x, e]

    def match(self, c, args):
        return False

    def pre(self, c, *a):
        return []

    def must_raise(self, c, x, e):
        return [('ValueError', z3.Or(MTOP(x.t) != MBOT(x.t), to_int(e) < 0))]

    def post(self, c, r, x, e):
        return [('the power', r.t == MPOW(x.t, to_int(e)))] if isinstance(r, Mor) else [('a combination', False)]


class Squares:
    """Instances of associativity, units and the definition of powers, for square combinations of one size."""
    name = 'powers of a combination'

    def instances(self, facts, goal, rels):
        from pyvc.ring import all_subterms
        pows, muls = {}, {}
        for f in list(facts) + [goal]:
            for s in all_subterms(f):
                if z3.is_app(s) and s.decl().name() in ('MPOW', 'MMUL') and not any(z3.is_var(x) for x in all_subterms(s)):
                    (pows if s.decl().name() == 'MPOW' else muls)[s.get_id()] = s
        out, ts = [], dict(pows)
        sq = lambda x: MTOP(x) == MBOT(x)
        like = lambda x, *ys: z3.And(sq(x), *[z3.And(MTOP(y) == MTOP(x), MBOT(y) == MTOP(x)) for y in ys])

        def pow_(x, e):
            t = MPOW(x, e)
            ts[t.get_id()] = t
            return t
        pairs = [(m, *m.children()) for m in muls.values()]
        for _, a, b in pairs:
            for y in (a, b):
                out.append(z3.Implies(sq(y), z3.And(MMUL(MID(MTOP(y)), y) == y, MMUL(y, MID(MTOP(y))) == y)))
        for s in list(pows.values()):
            x, e = s.children()
            out.append(z3.Implies(z3.And(sq(x), e >= 1), z3.And(s == MMUL(x, pow_(x, e - 1)), s == MMUL(pow_(x, e - 1), x))))
            for y, a, b in pairs:
                out.append(z3.Implies(z3.And(e >= 0, x == y, a == b, sq(a)), z3.And(
                    s == pow_(a, 2 * e), pow_(a, 2 * e + 1) == MMUL(a, pow_(a, 2 * e)), pow_(a, 2 * e + 1) == MMUL(pow_(a, 2 * e), a))))
        for s in list(ts.values()):
            x, e = s.children()
            one = MID(MTOP(x))
            out.append(z3.Implies(sq(x), z3.And(z3.Implies(e == 0, s == one), z3.Implies(e >= 0, z3.And(like(s, x), MMUL(one, s) == s, MMUL(s, one) == s)))))
            for y, a, b in pairs:
                out.append(z3.Implies(z3.And(e >= 0, like(x, a, b)), z3.And(MMUL(y, s) == MMUL(a, MMUL(b, s)), MMUL(s, y) == MMUL(MMUL(s, a), b))))
        return out


def h_mor(ex, view):
    g = ex.ghost
    maps = [x for x, v in view.frame.vars.items() if isinstance(v, Terms) and v.birth in view.info.objs]
    V = lambda v, x: v.frame.vars[x]
    if view.k is not None and 'init' in g:
        for x, T in view.entry.vars.items():
            if isinstance(view.frame.vars.get(x), Terms) and view.frame.vars[x].birth not in view.info.objs:
                top, bot = (to_int(view.entry.vars[y]) for y in ('top', 'bot')) if 'top' in view.entry.vars and 'bot' in view.entry.vars else (None, None)
                if top is None:
                    continue
                yield f'{x} has the shape up to k', lambda v, T=T, top=top, bot=bot: A([d_], z3.Implies(z3.And(T.has[d_], POS(T.has, d_) < v.k), z3.And(TOP(d_) == top, BOT(d_) == bot)), T.has[d_])
    for x in maps:
        if view.k is not None and 'add' in g:
            a, b = g['add']
            yield f'{x} is the sum up to k', lambda v, x=x: z3.ForAll([d_], V(v, x).coef(d_) == a.coef(d_) + z3.If(z3.And(b.has[d_], POS(b.has, d_) < v.k), b.co[d_], 0), patterns=[V(v, x).has[d_], V(v, x).co[d_]])
            yield f'{x} has diagrams of the two', lambda v, x=x: A([d_], z3.Implies(V(v, x).has[d_], z3.Or(a.has[d_], b.has[d_])), V(v, x).has[d_])
        if view.k is not None and 'mul' in g:
            a, b, top, bot = g['mul']
            acc = lambda i, j: ACC(a.has, a.co, b.has, b.co, i, j)
            yield f'{x} has the shape', lambda v, x=x: A([d_], z3.Implies(V(v, x).has[d_], z3.And(TOP(d_) == top, BOT(d_) == bot)), V(v, x).has[d_])
            same = lambda v, x, e: z3.ForAll([d_], V(v, x).coef(d_) == e[d_], patterns=[e[d_], V(v, x).has[d_], V(v, x).co[d_]])
            yield f'{x} is the product up to k', lambda v, x=x: same(v, x, acc(v.k, 0))
            for y, u in view.entry.vars.items():
                if isinstance(u, Diag):
                    yield f'{x} is the product up to {y} and k', lambda v, x=x, u=u: same(v, x, acc(POS(a.has, u.t), v.k))
    if view.k is not None and 'trace' in g:
        t = g['trace']
        for x in view.live:
            if isinstance(view.entry.vars.get(x), LP):
                yield f'{x} is the sum up to k', lambda v, x=x: V(v, x).t == TRA(t.has, t.co, v.k)
    if 'pow' in g and view.k is None:
        b, e = g['pow']
        ints = [x for x in view.live if is_int(view.entry.vars.get(x))]
        ms = [x for x in view.live if isinstance(view.entry.vars.get(x), Mor)]
        for q in ms:
            yield f'{q} is square', lambda v, q=q: z3.And(MTOP(V(v, q).t) == MTOP(b), MBOT(V(v, q).t) == MTOP(b))
        for p in ms:
            for q in ms:
                for x in ints if p != q else ():
                    for side in 'lr':
                        def value(vp, vq, i, side=side):
                            w = MPOW(vq.t, to_int(i))
                            return MMUL(vp.t, w) if side == 'l' else MMUL(w, vp.t)
                        v0 = value(*(view.entry.vars[y] for y in (p, q, x)))
                        yield f'{p} times {q} to the {x} ({side}) stays', lambda v, p=p, q=q, x=x, value=value, v0=v0: value(V(v, p), V(v, q), V(v, x)) == v0


class TokCompose(Case):
    """compose on the matchings of diagrams: verified on sequences (specs/tl.py)"""
    trusted = True
    name = 'matchings of diagrams'

    def match(self, c, args):
        return len(args) == 3 and isinstance(args[0], SeqTok) and isinstance(args[1], SeqTok)

    def pre(self, c, u, l, m):
        return [('the middle', z3.And(to_int(m) == BOT(u.t), to_int(m) == TOP(l.t)))]

    def result(self, c, u, l, m):
        return (SeqTok(MUL(u.t, l.t)), BUB(u.t, l.t))

    def post(self, c, r, *a):
        return []


class TokTrace(Case):
    trusted = True
    name = 'matching of a diagram'

    def match(self, c, args):
        return isinstance(args[0], SeqTok)

    def result(self, c, s):
        return TRC(s.t)

    def post(self, c, r, *a):
        return []


class TokThrough(Case):
    trusted = True
    name = 'diagram'

    def match(self, c, args):
        return isinstance(args[0], Diag)

    def result(self, c, d):
        return THRU(d.t)

    def post(self, c, r, *a):
        return []


OPTS = dict(index_quant=True, ring=False, templates=False, frames=False, instantiate={'LPoly': make_lpoly, 'TLDiag': make_diag}, dict_display=display,
            dict_of_pairs=of_pairs, sorted_hook=sorted_hook, real_is_int=False)


def contracts(repo):
    def C(q, cases, **kw):
        return Contract(M + q, cases, prop='C07', hints=h_mor, theories=kw.pop('theories', []), opts=dict(OPTS, **kw.pop('opts', {})), **kw)
    return [
        C('TLMor.__init__', MInit()),
        C('TLMor.id', [MTokId(), MId()], inline=('peyl.tl:TLDiag.id',), theories=tl.TH),
        C('TLMor.e', ME(), theories=tl.TH),
        C('TLMor.from_tldiag', MFrom()),
        C('TLMor.coefficient', MCoef()),
        C('TLMor.is_zero', MZero()),
        C('TLMor.quotient', MQuotient()),
        C('TLMor.trace', MTrace()),
        C('TLMor.__mul__', [MMul(), MMulDiag(), MScale('int'), MScale('polynomial')]),
        C('TLMor.__rmul__', [MScale('int'), MScale('polynomial')]),
        C('TLMor.__add__', [MAdd(), MAddScalar('int'), MAddScalar('polynomial')]),
        C('TLMor.__sub__', [MSub(), MSubScalar('int'), MSubScalar('polynomial')]),
        C('TLMor.__neg__', MNeg()),
        C('TLMor.flip', [MFlip(True), MFlip(False)]),
        C('TLMor.__pow__', MPower(), theories=[Squares()]),
        Contract(M + 'through_strands', TokThrough()),
    ]
