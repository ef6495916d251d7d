"""Contracts for the enumeration of normal forms in peyl/braid.py (C04), over the vocabulary of specs/garside.py.

FL(n, x) lists the divisors that may follow x, without repetition (table contract, discharged by check C02).  The normal
forms of length l after x are NFA(n, l, x)[t] for t < CN(n, l, x): that NFTable.normal_forms yields each of them once, and
nothing else, is a trusted contract (its body is a recursive generator that shares a list), evaluated on the real code;
everything else is verified against it."""
from __future__ import annotations
import z3
from pyvc.values import *
from pyvc.vc import Contract
from pyvc import interp as I
from . import braid as BR
from .braid import (M, IV, I_, TH, KCase, Method, ClassMethod, GroupMethod, domain, cls, bt, kinds, iseq, in_range, pairs, interior, normal, canon, parts, is_braid, hints, V)
from .garside import KINDS, Table
from .search import Rand

FS = ('seq', INT, 'tuple')


def after(K, n, following):
    return K.DD(n) if following is None else to_int(following)


def listing(K, n, l, x):
    """The normal forms of length l after x."""
    return SSeq(FS, K.CN(n, l, x), (z3.K(I_, l), K.NFA(n, l, x)), 'list')


class Forms(KCase):
    """NFTable.normal_forms(length, following)"""
    def pre(self, c, t, l, following=None):
        x = after(self.K, t.n, following)
        return [('a length', to_int(l) >= 0), ('a divisor', z3.And(x >= 0, x < self.K.ORD(t.n)))]

    def result(self, c, t, l, following=None):
        return listing(self.K, t.n, to_int(l), after(self.K, t.n, following))

    def post(self, c, r, t, l, following=None):
        K, n, l, x = self.K, t.n, to_int(l), after(self.K, t.n, following)
        i, u = z3.Ints('i!nf u!nf')
        a = K.NFA(n, l, x)[i]
        here = z3.And(i >= 0, i < K.CN(n, l, x))
        return [('a number', K.CN(n, l, x) >= 0),
                ('divisors', z3.ForAll([i, u], z3.Implies(z3.And(here, u >= 0, u < l), z3.And(a[u] >= 0, a[u] < K.ORD(n), a[u] != K.ID(n), a[u] != K.DD(n))), patterns=[a[u]])),
                ('left-weighted', z3.ForAll([i, u], z3.Implies(z3.And(here, u >= 0, u < l - 1), K.NRM(n, a[u], a[u + 1])), patterns=[a[u]])),
                ('after the divisor', z3.ForAll([i], z3.Implies(z3.And(here, l > 0), K.NRM(n, x, a[IV(0)])), patterns=[a]))]


HI = z3.ArraySort(I_, z3.BoolSort())
NKI, KEYI, POSI = z3.Function('NKI', HI, I_), z3.Function('KEYI', HI, I_, I_), z3.Function('POSI', HI, I_, I_)


def counting(K):
    """CN(n, l, x), the number of chains of length l after x, is the sum of CN(n, l - 1, y) over the divisors y that follow
    x; CNP is the sum over the first few of them.  A map from divisors to numbers is given by HAS and CO, and listed in some
    order, KEYI(has, 0), ..., KEYI(has, NKI(has) - 1); DS is the sum of number * CN(n, l, divisor) over the map, PS over
    the first few entries."""
    n, x, i, j, l, d = z3.Ints('n!c x!c i!c j!c l!c d!c')
    h, c = z3.Const('h!c', HI), z3.Const('c!c', K.DS.domain(1))
    A = lambda vs, f, p: z3.ForAll(vs, f, patterns=[p])
    FC, FL, FJ, CN, CNP, PS, key = K.FC(n, x), K.FL(n, x)[i], K.FL(n, x)[j], K.CN(n, l, x), K.CNP, K.PS, KEYI(h, i)
    return [
        A([n, x, i, j], z3.Implies(z3.And(x >= 0, x < K.ORD(n), i >= 0, i < FC, j >= 0, j < FC, i != j), FL != FJ), z3.MultiPattern(FL, FJ)),
        A([n, x], z3.Implies(z3.And(x >= 0, x < K.ORD(n)), FC >= 0), FC),
        A([n, x, i], z3.Implies(z3.And(x >= 0, x < K.ORD(n), i >= 0, i < FC), z3.And(FL >= 0, FL < K.ORD(n))), FL),
        A([n], z3.And(K.DD(n) >= 0, K.DD(n) < K.ORD(n)), K.DD(n)),
        A([n, l, x], z3.If(l == 0, CN == 1, z3.Implies(l > 0, CN == CNP(n, l - 1, x, FC))), CN),
        A([n, l, x], CNP(n, l, x, 0) == 0, CNP(n, l, x, 0)),
        A([n, l, x, i], z3.Implies(z3.And(l >= 0, i >= 0, i < FC), CNP(n, l, x, i + 1) == CNP(n, l, x, i) + K.CN(n, l, FL)), CNP(n, l, x, i + 1)),
        A([h, c, n, l], PS(h, c, n, l, 0) == 0, PS(h, c, n, l, 0)),
        A([h, c, n, l, i], z3.Implies(z3.And(i >= 0, i < NKI(h)), PS(h, c, n, l, i + 1) == PS(h, c, n, l, i) + c[key] * K.CN(n, l, key)), PS(h, c, n, l, i + 1)),
        A([h, c, n, l], K.DS(h, c, n, l) == PS(h, c, n, l, NKI(h)), K.DS(h, c, n, l)),
        A([h], NKI(h) >= 0, NKI(h)),
        A([h, i], z3.Implies(z3.And(i >= 0, i < NKI(h)), z3.And(h[key], POSI(h, key) == i)), key),
        A([h, d], z3.Implies(h[d], z3.And(POSI(h, d) >= 0, POSI(h, d) < NKI(h), KEYI(h, POSI(h, d)) == d)), POSI(h, d)),
    ]


class Numbers(Model):
    """A map from divisors to numbers."""
    tname = 'map of numbers'

    def __init__(self, K, n, has, co, default=None):
        self.K, self.n, self.has, self.co, self.default = K, n, has, co, default
        self.birth = next(I.V._birth)

    def type(self):
        return ('model', NumbersT(self.K, self.n, self.default))

    def havoc(self, ex, tag, fields):
        self.has, self.co = ex.fresh('has' + tag, HI), ex.fresh('co' + tag, self.co.sort())

    def snapshot(self):
        return Numbers(self.K, self.n, self.has, self.co, self.default)

    def sum(self, l):
        return self.K.DS(self.has, self.co, self.n, l)

    def length(self, ex):
        return NKI(self.has)

    def truth(self, ex):
        return NKI(self.has) > 0

    def contains(self, ex, k):
        return self.has[to_int(k)]

    def getitem(self, ex, k):
        k = to_int(k)
        if self.default is None:
            if not ex.branch(self.has[k]):
                raise PyRaise('KeyError', line=ex.line)
            return self.co[k]
        v = z3.If(self.has[k], self.co[k], self.default)
        self.setitem(ex, k, v)
        return v

    def setitem(self, ex, k, v):
        k, v = to_int(k), to_int(v)
        ex.mutate(self, 'map')
        h0, c0 = self.has, self.co
        self.has, self.co = ex.fresh('has', HI), ex.fresh('co', c0.sort())
        l = z3.Int('l!st')
        step = z3.simplify(v - z3.If(h0[k], c0[k], 0))
        ex.assume(z3.And(self.has == z3.Store(h0, k, True), self.co == z3.Store(c0, k, v)))
        ex.assume(z3.ForAll([l], self.sum(l) == self.K.DS(h0, c0, self.n, l) + step * self.K.CN(self.n, l, k), patterns=[self.sum(l)]))

    def getattr(self, ex, name):
        if name in ('items', 'keys', 'values'):
            return Fn(lambda ex: Entries(self, name), name)
        if name == 'get':
            def get(ex, k, default=None):
                k = to_int(k)
                if default is None:
                    return self.co[k] if ex.branch(self.has[k]) else None
                return z3.If(self.has[k], self.co[k], to_int(default))
            return Fn(get, name)
        raise Unsupported(f'{name} of a map')

    def iter(self, ex):
        return Entries(self, 'keys').iter(ex)


class NumbersT:
    def __init__(self, K, n, default):
        self.K, self.n = K, n
        self.default = default

    def __eq__(self, o):
        return isinstance(o, NumbersT) and o.K is self.K

    def __hash__(self):
        return hash(self.K.k)

    def leaf_sorts(self):
        return [HI, self.K.DS.domain(1)]

    def pack(self, v):
        if not isinstance(v, Numbers) or v.K is not self.K:
            raise Unsupported('another kind of map')
        return [v.has, v.co]

    def unpack(self, it):
        return Numbers(self.K, self.n, next(it), next(it))


class Entries(Model):
    tname = 'view of a map'

    def __init__(self, m, what):
        self.m, self.what, self.has, self.co = m, what, m.has, m.co

    def iter(self, ex):
        h, c = self.has, self.co
        return Iter(NKI(h), lambda t: {'keys': KEYI(h, t), 'values': c[KEYI(h, t)], 'items': (KEYI(h, t), c[KEYI(h, t)])}[self.what])

    def length(self, ex):
        return NKI(self.has)

    def sum_(self, ex):
        if self.what != 'values':
            raise Unsupported('sum of keys')
        return self.m.K.DS(self.has, self.co, self.m.n, IV(0))      # CN(n, 0, x) = 1


def no_numbers(ex, default=None):
    K, n = ex.ghost['K'], ex.ghost['n']
    r = Numbers(K, n, z3.K(I_, z3.BoolVal(False)), z3.K(I_, IV(0)), default)
    h, c = ex.fresh('has', HI), ex.fresh('co', r.co.sort())
    l = z3.Int('l!em')
    ex.assume(z3.And(h == r.has, c == r.co))
    ex.assume(z3.ForAll([l], K.DS(h, c, n, l) == 0, patterns=[K.DS(h, c, n, l)]))
    r.has, r.co = h, c
    return r


def make_defaultdict(ex, f=None):
    if not (isinstance(f, Fn) and f.name == 'int'):
        raise Unsupported('another default')
    return no_numbers(ex, 0)


def numbers_of_pairs(ex, v):
    """A map from pairs with distinct keys: the sum over the map is the sum over the list."""
    if isinstance(v, (tuple, list)):
        raise Unsupported('a map given by its items')
    if v.et != ('tup', (INT, INT)):
        raise Unsupported('a map of something else')
    (ks, cs), m = v.arrs, to_int(v.n)
    i, j, l, x = z3.Ints('i!np j!np l!np x!np')
    if not ex.provable_q(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < m, j >= 0, j < m, i != j), ks[i] != ks[j]), patterns=[z3.MultiPattern(ks[i], ks[j])])):
        raise Unsupported('a map from pairs whose keys may coincide')
    r = no_numbers(ex)
    K, n = r.K, r.n
    r.has, r.co = ex.fresh('has', HI), ex.fresh('co', r.co.sort())
    w = z3.Function(f'place!{ex.fcount()}', I_, I_)
    ex.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < m), z3.And(r.has[ks[i]], r.co[ks[i]] == cs[i])), patterns=[ks[i]]))
    ex.assume(z3.ForAll([x], z3.Implies(r.has[x], z3.And(w(x) >= 0, w(x) < m, ks[w(x)] == x)), patterns=[r.has[x]]))
    ex.assume(z3.ForAll([l, x], z3.Implies(z3.And(l >= 0, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < m), z3.And(ks[i] == K.FL(n, x)[i], cs[i] == 1)))),
                                           r.sum(l) == K.CNP(n, l, x, m)), patterns=[z3.MultiPattern(r.sum(l), K.CNP(n, l, x, m))]))
    return r


class Count(KCase):
    """NFTable.count_normal_forms(length, following)"""
    pre = Forms.pre

    def axioms(self, c, *a):
        return counting(self.K)

    def params(self, c):
        n = c.fresh('n', I_)
        self.note(c, n)
        c.assume(domain(self.kind, n))
        l, x = c.fresh('length', I_), self.start(c)
        c.ghost['count'] = (l, after(self.K, n, x))
        return [Table(self.kind, n), l] + ([] if x is None else [x])

    def start(self, c):
        return None

    def result(self, c, t, l, following=None):
        return c.fresh('count', I_)

    def post(self, c, r, t, l, following=None):
        return [('the number of normal forms', to_int(r) == self.K.CN(t.n, to_int(l), after(self.K, t.n, following)))]


class CountAfter(Count):
    name = 'after a divisor'

    def start(self, c):
        return c.fresh('following', I_)

    def match(self, c, args):
        return super().match(c, args) and len(args) == 3 and is_int(args[2])


def h_count(ex, view):
    g = ex.ghost
    if view.k is None or 'count' not in g:
        return
    K, n, (length, last) = g['K'], g['n'], g['count']
    d, l = z3.Ints('d!hc l!hc')
    keys = lambda m: z3.ForAll([d], z3.Implies(m.has[d], z3.And(d >= 0, d < K.ORD(n))), patterns=[m.has[d]])
    every = lambda m, f: z3.ForAll([l], z3.Implies(l >= 0, m.sum(l) == f(l)), patterns=[m.sum(l)])
    var = lambda v, x: v.frame.vars[x]
    maps = [x for x, m in view.frame.vars.items() if isinstance(m, Numbers)]
    for x in maps:
        m0 = view.frame.vars[x]
        if x in view.live:
            yield f'{x} lists divisors', lambda v, x=x: keys(var(v, x))
            yield f'{x} counts chains of length k', lambda v, x=x: var(v, x).sum(length - 1 - v.k) == K.CN(n, length, last)
        if m0.birth in view.info.objs:
            yield f'{x} lists divisors', lambda v, x=x: keys(var(v, x))
            for y in maps:
                m = view.frame.vars[y]
                if y == x or m.birth in view.info.objs:
                    continue
                at = {u.get_id(): u for u in view.entry.vars.values() if is_z3(u) and z3.is_app(u) and u.decl().name() == 'KEYI' and z3.eq(u.arg(0), m.has)}
                if not at:
                    yield f'{x} extends {y} up to k', lambda v, x=x, m=m: every(var(v, x), lambda l: K.PS(m.has, m.co, n, l + 1, v.k))
                for u in at.values():
                    yield f'{x} extends {y} up to an entry and k', lambda v, x=x, m=m, u=u: every(var(v, x), lambda l: K.PS(m.has, m.co, n, l + 1, u.arg(1)) + m.co[u] * K.CNP(n, l, u, v.k))


class Sample(KCase):
    """NFTable.sample(length, rand)"""
    def params(self, c):
        n = c.fresh('n', I_)
        self.note(c, n)
        c.assume(domain(self.kind, n))
        l = c.fresh('length', I_)
        c.assume(z3.And(l >= 0, n >= 3))
        return [Table(self.kind, n), l, Rand(c.fresh('draws', I_))]

    def pre(self, c, t, l, rand):
        return [('a length', to_int(l) >= 0), ('three strands', to_int(t.n) >= 3)]

    def result(self, c, t, l, rand):
        return c.fresh_val(FS, 'nf')

    def post(self, c, r, t, l, rand):
        s = iseq(c, r)
        K, n, a, ln = self.K, t.n, s.arrs[0], to_int(s.n)
        return [('the length', ln == to_int(l)), ('divisors', in_range(K, n, a, ln)), ('no identity and no Garside element', interior(K, n, a, ln)),
                ('left-weighted', pairs(K, n, a, ln)), ('a normal form', normal(K, n, a, ln))]


def extension(c, K, b, n, power, prefix, pl, suffix, sl):
    """b has the power, and the factors of the prefix followed by those of the suffix."""
    _, m, p, f, ln = parts(c, b)
    u = z3.Int('u!ex')
    return z3.And(m == n, p == power, ln == pl + sl, z3.ForAll([u], z3.Implies(z3.And(u >= 0, u < ln), f[u] == z3.If(u < pl, prefix[u], suffix[u - pl])), patterns=[f[u]]))


def forms_post(c, r, kind, n, l, x, power, prefix=None, pl=0):
    """r lists the braids with the power, the prefix, and the normal forms of length l after x, in that order."""
    K = KINDS[kind]
    prefix, pl = (z3.K(I_, IV(0)), IV(0)) if prefix is None else (prefix, pl)
    s = as_sseq(c.as_seq(r))
    if s.et is None or s.et[0] != 'obj' or s.et[1].name != BR.CLS[kind]:
        return [('a list of braids', False)]
    t = z3.Int('t!fp')
    el = s.get(t)
    pats = [z3.Select(a, t) for a in s.arrs if not z3.is_quantifier(a)][:1]
    every = lambda g: z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < K.CN(n, l, x)), g), patterns=pats)
    return [('as many as there are', to_int(s.n) == K.CN(n, l, x)), ('normal forms', every(canon(c, el))),
            ('each extension, in turn', every(extension(c, K, el, n, power, prefix, pl, K.NFA(n, l, x)[t], l)))]


class Suffixes(Method):
    """nf_suffixes(length): what may follow, with power zero"""
    def params(self, c):
        a = self.start(c)
        K, n, p, f, ln = parts(c, a)
        c.assume(interior(K, n, f, ln))
        l = c.fresh('length', I_)
        c.assume(l >= 0)
        return [a, l]

    def pre(self, c, a, l):
        return [('operand is a normal form', canon(c, a)), ('a length', to_int(l) >= 0)]

    def last(self, c, a):
        K, n, p, f, ln = parts(c, a)
        return z3.If(ln == 0, K.DD(n), f[ln - 1])

    def result(self, c, *a):
        return c.fresh_val(('seq', bt(c, self.kind), 'list'), 'forms')

    def post(self, c, r, a, l):
        K, n, p, f, ln = parts(c, a)
        return forms_post(c, r, self.kind, n, to_int(l), self.last(c, a), IV(0))


class Descendants(Suffixes):
    """nf_descendants(): the braid, followed by one more factor"""
    def params(self, c):
        return super().params(c)[:1]

    def pre(self, c, a):
        return [('operand is a normal form', canon(c, a))]

    def post(self, c, r, a):
        K, n, p, f, ln = parts(c, a)
        return forms_post(c, r, self.kind, n, IV(1), self.last(c, a), p, f, ln)


class AllOfLength(ClassMethod):
    """all_of_length(n, length, power)"""
    def params(self, c):
        l = c.fresh('length', I_)
        r = self.start(c) + [l, c.fresh('power', I_)]
        c.assume(l >= 0)
        return r

    def pre(self, c, k, n, l, power=0):
        return super().pre(c, k, n) + [('a length', to_int(l) >= 0)]

    def result(self, c, *a):
        return c.fresh_val(('seq', bt(c, self.kind), 'list'), 'forms')

    def post(self, c, r, k, n, l, power=0):
        n = to_int(n)
        return forms_post(c, r, self.kind, n, to_int(l), self.K.DD(n), to_int(power))


class CountAll(ClassMethod):
    """count_all_of_length(n, length)"""
    def params(self, c):
        l = c.fresh('length', I_)
        r = self.start(c) + [l]
        c.assume(l >= 0)
        return r

    def pre(self, c, k, n, l):
        return super().pre(c, k, n) + [('a length', to_int(l) >= 0)]

    def result(self, c, *a):
        return c.fresh('count', I_)

    def post(self, c, r, k, n, l):
        n = to_int(n)
        return [('the number of normal forms', to_int(r) == self.K.CN(n, to_int(l), self.K.DD(n)))]


class SampleBraid(ClassMethod):
    """sample(n, length, rand)"""
    def params(self, c):
        l = c.fresh('length', I_)
        r = self.start(c) + [l, Rand(c.fresh('draws', I_))]
        c.assume(z3.And(l >= 0, c.ghost['n'] >= 3))
        return r

    def pre(self, c, k, n, l, rand):
        return super().pre(c, k, n) + [('a length', to_int(l) >= 0), ('three strands', to_int(n) >= 3)]

    def match(self, c, args):
        return super().match(c, args) and len(args) == 4 and isinstance(args[3], Rand)

    def post(self, c, r, k, n, l, rand):
        if not is_braid(r, self.kind):
            return [('a braid of the same kind', False)]
        K, m, p, f, ln = parts(c, r)
        return [('a normal form', canon(c, r)), ('of this group', m == to_int(n)), ('of the length', ln == to_int(l)), ('without power', p == 0)]


class GroupAll(GroupMethod):
    """BraidGroup.all_of_garside_length(length, power)"""
    def params(self, c):
        g, = super().params(c)
        l = c.fresh('length', I_)
        c.assume(l >= 0)
        return [g, l, c.fresh('power', I_)]

    def pre(self, c, g, l, power=0):
        return super().pre(c, g) + [('a length', to_int(l) >= 0)]

    def result(self, c, *a):
        return c.fresh_val(('seq', bt(c, 'P'), 'list'), 'forms')

    def post(self, c, r, g, l, power=0):
        n = to_int(g.fields['n'])
        return forms_post(c, r, 'P', n, to_int(l), self.K.DD(n), to_int(power))


class GroupCount(GroupAll):
    def params(self, c):
        return super().params(c)[:2]

    def pre(self, c, g, l):
        return GroupMethod.pre(self, c, g) + [('a length', to_int(l) >= 0)]

    def result(self, c, *a):
        return c.fresh('count', I_)

    def post(self, c, r, g, l):
        n = to_int(g.fields['n'])
        return [('the number of normal forms', to_int(r) == self.K.CN(n, to_int(l), self.K.DD(n)))]


class GroupSample(GroupMethod):
    def params(self, c):
        g, = super().params(c)
        l = c.fresh('length', I_)
        c.assume(z3.And(l >= 0, c.ghost['n'] >= 3))
        return [g, l, Rand(c.fresh('draws', I_))]

    def pre(self, c, g, l, rand):
        return super().pre(c, g) + [('a length', to_int(l) >= 0), ('three strands', to_int(g.fields['n']) >= 3)]

    def result(self, c, *a):
        return self.braid(c, 'res')

    def post(self, c, r, g, l, rand):
        return SampleBraid.post(self, c, r, None, g.fields['n'], l, rand)


def h_chain(ex, view):
    """A list filled from the front with a chain of left-weighted factors."""
    h = V(ex, view)
    if view.k is None:
        return
    K, n = h.K, h.n
    for b, a0, n0 in h.lists:
        yield f'list{b} in range before k', lambda v, b=b: in_range(K, n, h.A(v, b), v.k)
        yield f'list{b} interior before k', lambda v, b=b: interior(K, n, h.A(v, b), v.k)
        yield f'list{b} left-weighted before k', lambda v, b=b: pairs(K, n, h.A(v, b), v.k)
        yield f'list{b} as long as it was', lambda v, b=b, n0=n0: h.N(v, b) == n0
        yield f'list{b} as long as the loop', lambda v, b=b: h.N(v, b) == v.k
        for x in h.ints:
            yield f'{x} is the last of list{b}', lambda v, b=b, x=x: to_int(v.frame.vars[x]) == z3.If(v.k == 0, K.DD(n), h.A(v, b)[v.k - 1])


def contracts(repo):
    def C(q, cases, *groups, **kw):
        opts = dict(index_quant=True, frames=False, mutual=True, simple_qf=True, numeric=True)
        opts.update(kw.pop('opts', {}))
        return Contract(M + q, cases, prop=kw.pop('prop', 'C04'), hints=hints(*groups) if groups else None, theories=kw.pop('theories', TH), opts=opts, **kw)
    return [
        C('NFTable.normal_forms', kinds(Forms), prop=''),
        C('NFTable.count_normal_forms', kinds(CountAfter) + kinds(Count), h_count, theories=[], opts=dict(simple_qf=False, mbqi=False, mutual=False, ring=False, dict_of_pairs=numbers_of_pairs, externals={'collections.defaultdict': Fn(make_defaultdict, 'defaultdict')})),
        C('NFTable.sample', kinds(Sample), h_chain),
        C('NFBase.nf_suffixes', kinds(Suffixes)),
        C('NFBase.nf_descendants', kinds(Descendants)),
        C('NFBase.all_of_length', kinds(AllOfLength)),
        C('NFBase.count_all_of_length', kinds(CountAll)),
        C('NFBase.sample', kinds(SampleBraid)),
        C('BraidGroup.all_of_garside_length', kinds(GroupAll, 'P')),
        C('BraidGroup.count_all_of_garside_length', kinds(GroupCount, 'P')),
        C('BraidGroup.sample_braid_perm', kinds(GroupSample, 'P')),
    ]
