"""Contracts for peyl/permutations.py.

A sequence of integers a[0..n) is a permutation when it takes values in [0, n) (RNG) and is injective (INJ).  The only
mathematical fact used beyond the definitions is the pigeonhole principle: for RNG sequences, injective = surjective."""
from __future__ import annotations
import z3
from pyvc.values import *
from pyvc.vc import Contract, Case
from pyvc.theory import Sums
from pyvc import interp as I
from pyvc import invs
from pyvc.ring import all_subterms

M = 'peyl.permutations:'
I_, BB = z3.IntSort(), z3.BoolSort()
AI = z3.ArraySort(I_, I_)
RNG, INJ, SUR = (z3.Function(x, AI, I_, BB) for x in ('RNG', 'INJ', 'SUR'))
BAD, LO, HI, GAP, DESC = (z3.Function(x, AI, I_, I_) for x in ('RNGbad', 'INJlo', 'INJhi', 'SURgap', 'DESC'))
COX = z3.Function('COX', AI, I_, AI)      # COX(s, k): the product of the adjacent transpositions s[0], ..., s[k-1]
AT = z3.Function('SURat', AI, I_, I_, I_)
IV = z3.IntVal


class Permutations:
    """RNG, INJ and SUR, by definition, and the pigeonhole principle."""
    name = 'permutations'

    def instances(self, facts, goal, rels):
        seen, out, sur = {}, [], set()
        todo = list(facts) + [goal]
        for f in todo:
            for s in all_subterms(f):
                if z3.is_app(s) and s.num_args() == 2 and s.decl().name() in ('RNG', 'INJ', 'SUR') and not I.has_quant(s) and z3.is_app(s.arg(0)):
                    if not any(z3.is_var(x) for x in all_subterms(s)):
                        seen[s.arg(0).get_id(), s.arg(1).get_id()] = (s.arg(0), s.arg(1))
                        if s.decl().name() == 'SUR':
                            sur.add((s.arg(0).get_id(), s.arg(1).get_id()))
        # where surjectivity is used: skolem constants, entries sought in the goal, witnesses of the failure of another property
        points = {}

        def add(x):
            if z3.is_int(x) and not any(z3.is_var(y) for y in all_subterms(x)):
                points[x.get_id()] = x
        for s in all_subterms(goal):
            if z3.is_app(s) and s.num_args() == 0 and s.decl().name().startswith('sk!'):
                add(s)
            if z3.is_eq(s) and any(z3.is_select(x) for x in s.children()):
                for x in s.children():
                    add(x)
        if z3.is_app(goal) and goal.decl().name() == 'INJ' and goal.num_args() == 2:
            sur.add((goal.arg(0).get_id(), goal.arg(1).get_id()))
        ing = {(s.arg(0).get_id(), s.arg(1).get_id()) for s in all_subterms(goal) if z3.is_app(s) and s.decl().name() in ('RNG', 'INJ', 'SUR')}
        for f in (seen[k] for k in seen if k in ing):
            for w in (LO, HI, BAD, GAP):
                if w is not GAP or (f[0].get_id(), f[1].get_id()) in sur:
                    add(w(*f))
        for f in todo:
            if z3.is_quantifier(f) and f.is_forall() and f.num_vars() == 1 and f.var_sort(0) == I_ and any(
                    z3.is_select(s) and z3.is_bool(s) for s in all_subterms(f)):
                out += [z3.substitute_vars(f.body(), GAP(*p)) for p in seen.values()]
        cox = {}
        for f in todo:
            for s in all_subterms(f):
                if z3.is_app(s) and s.decl().name() == 'COX' and not any(z3.is_var(y) for y in all_subterms(s)):
                    cox[s.get_id()] = s
        t = z3.Int('t!cx')
        for c in cox.values():
            a, k = c.children()
            out.append(z3.Implies(k == 0, z3.ForAll([t], c[t] == t, patterns=[c[t]])))
            if z3.is_store(a):            # COX(a, k) depends on a[0..k) only
                out.append(z3.Implies(a.arg(1) >= k, c == COX(a.arg(0), k)))
            for d in cox.values():        # the definition, at neighbours
                b, m = d.children()
                frame = []
                if z3.is_store(b) and z3.eq(b.arg(0), a):
                    frame = [z3.Implies(b.arg(1) >= k, COX(b, k) == c)]
                for r in rels:
                    if r[0] == 'cat' and z3.eq(r[1], b) and z3.eq(r[2], a):      # b agrees with a below r[4]
                        frame = [z3.Implies(k <= r[4], COX(b, k) == c)]
                        kk = z3.Int('k!cx')
                        out.append(z3.ForAll([kk], z3.Implies(kk <= r[4], COX(b, kk) == COX(a, kk)), patterns=[COX(b, kk)]))
                if not z3.eq(c, d) and (z3.eq(a, b) or frame):
                    i = b[k]
                    base = COX(b, k)
                    out += frame
                    pts = [t] + list(points.values())
                    for x in pts:
                        f = d[x] == z3.If(x == i, base[i + 1], z3.If(x == i + 1, base[i], base[x]))
                        out.append(z3.Implies(z3.And(m == k + 1, k >= 0), z3.ForAll([t], f, patterns=[d[t]]) if x is t else f))
        for k, (a, n) in seen.items():
            for x in points.values() if k in sur else ():
                out.append(z3.Implies(z3.And(SUR(a, n), x >= 0, x < n), z3.And(AT(a, n, x) >= 0, AT(a, n, x) < n, a[AT(a, n, x)] == x)))
            t, u, v = z3.Ints('t!pm u!pm v!pm')
            ok = lambda x: z3.And(x >= 0, x < n)
            p, q = a[t], a[u]
            out += [
                z3.Implies(RNG(a, n), z3.ForAll([t], z3.Implies(ok(t), ok(p)), patterns=[p])),
                z3.Or(RNG(a, n), z3.And(ok(BAD(a, n)), z3.Not(ok(a[BAD(a, n)])))),
                z3.Implies(INJ(a, n), z3.ForAll([t, u], z3.Implies(z3.And(ok(t), ok(u), t != u), p != q), patterns=[z3.MultiPattern(p, q)])),
                z3.Or(INJ(a, n), z3.And(ok(LO(a, n)), ok(HI(a, n)), LO(a, n) < HI(a, n), a[LO(a, n)] == a[HI(a, n)])),
                # an increasing permutation is the identity (lemma)
                z3.Implies(z3.And(RNG(a, n), INJ(a, n)), z3.Or(z3.And(DESC(a, n) >= 0, DESC(a, n) < n - 1, a[DESC(a, n)] > a[DESC(a, n) + 1]),
                                                               z3.ForAll([t], z3.Implies(ok(t), p == t), patterns=[p]))),
            ] + ([] if k not in sur else [
                z3.Implies(SUR(a, n), z3.ForAll([v], z3.Implies(ok(v), z3.And(ok(AT(a, n, v)), a[AT(a, n, v)] == v)), patterns=[AT(a, n, v)])),
                z3.Or(SUR(a, n), z3.And(ok(GAP(a, n)), z3.ForAll([t], z3.Implies(ok(t), p != GAP(a, n)), patterns=[p]))),
                z3.Implies(RNG(a, n), INJ(a, n) == SUR(a, n)),
            ])
        return out


TH = [Sums(), Permutations()]


def iseq(c, v):
    s = as_sseq(c.as_seq(v))
    if s.et is None:
        s = as_sseq(s, INT)
    if s.et != INT:
        raise Unsupported('not a sequence of integers')
    return s


def an(c, v):
    s = iseq(c, v)
    return s.arrs[0], to_int(s.n)


def perm(c, v):
    a, n = an(c, v)
    return z3.And(RNG(a, n), INJ(a, n), SUR(a, n))


def every(n, g, *pats, lo=0):
    t = z3.Int('t!ev')
    b = z3.Implies(z3.And(t >= lo, t < n), g(t))
    ps = [p(t) for p in pats]
    return z3.ForAll([t], b, patterns=ps) if ps else z3.ForAll([t], b)


class PCase(Case):
    terminates = False

    def seq(self, c, name='perm', kind='tuple'):
        return c.fresh_val(('seq', INT, kind), name)

    def perm(self, c, name='perm'):
        p = self.seq(c, name)
        c.assume(perm(c, p))
        return p

    def match(self, c, args):
        try:
            for a, k in zip(args, self.kinds):
                if k == 's':
                    iseq(c, a)
                elif not is_int(a):
                    return False
        except Unsupported:
            return False
        return True

    kinds = 's'

    def coerce(self, c, args):
        return [iseq(c, a) if k == 's' else a for a, k in zip(args, self.kinds)]

    def result(self, c, *a):
        return self.seq(c, 'r')


class BoolCase(PCase):
    def result(self, c, *a):
        return c.fresh('r', BB)


class IsPermutation(BoolCase):
    name = 'any integers'

    def params(self, c):
        return [self.seq(c, 'word')]

    def post(self, c, r, w):
        a, n = an(c, w)
        return [('true exactly for permutations', I.to_z3(c.truth(r)) == perm(c, w))]


class IsIdentity(BoolCase):
    name = 'any integers'
    entry = staticmethod(lambda n, t: t)

    def params(self, c):
        return [self.seq(c)]

    def post(self, c, r, p):
        a, n = an(c, p)
        return [('true exactly for this one', I.to_z3(c.truth(r)) == every(n, lambda t: a[t] == self.entry(n, t), lambda t: a[t]))]


class IsLongest(IsIdentity):
    entry = staticmethod(lambda n, t: n - 1 - t)


class Identity(PCase):
    name = 'size'
    kinds = 'i'
    entry = staticmethod(lambda n, t: t)

    def params(self, c):
        n = c.fresh('n', I_)
        c.assume(n >= 0)
        return [n]

    def pre(self, c, n):
        return [('size', to_int(n) >= 0)]

    def post(self, c, r, n):
        a, m = an(c, r)
        n = to_int(n)
        return [('size', m == n), ('entries', every(n, lambda t: a[t] == self.entry(n, t), lambda t: a[t]))]


class Longest(Identity):
    entry = staticmethod(lambda n, t: n - 1 - t)


class Transposition(PCase):
    name = 'size, points'
    kinds = 'iii'

    def params(self, c):
        return [c.fresh(x, I_) for x in 'nij']

    def must_raise(self, c, n, i, j):
        return [('AssertionError', z3.Not(self.when(c, *map(to_int, (n, i, j)))))]

    def when(self, c, n, i, j):
        return z3.And(n >= 0, i >= 0, i < n, j >= 0, j < n)

    def post(self, c, r, n, i, j):
        a, m = an(c, r)
        n, i, j = map(to_int, (n, i, j))
        return [('size', m == n), ('entries', every(n, lambda t: a[t] == z3.If(t == i, j, z3.If(t == j, i, t)), lambda t: a[t])),
                ('a permutation', perm(c, r))]


class Inverse(PCase):
    name = 'permutation'

    def params(self, c):
        return [self.perm(c)]

    def pre(self, c, p):
        return [('a permutation', perm(c, p))]

    def post(self, c, r, p):
        a, n = an(c, p)
        b, m = an(c, r)
        return [('size', m == n), ('left inverse', every(n, lambda t: b[a[t]] == t, lambda t: a[t])),
                ('right inverse', every(n, lambda t: z3.And(b[t] >= 0, b[t] < n, a[b[t]] == t), lambda t: b[t])),
                ('a permutation', perm(c, r))]


class Compose(PCase):
    name = 'permutations'
    kinds = 'ss'

    def params(self, c):
        x, y = self.perm(c, 'x'), self.perm(c, 'y')
        c.assume(to_int(iseq(c, x).n) == to_int(iseq(c, y).n))
        return [x, y]

    def pre(self, c, x, y):
        return [('permutations', z3.And(perm(c, x), perm(c, y))), ('the same size', to_int(iseq(c, x).n) == to_int(iseq(c, y).n))]

    def post(self, c, r, x, y):
        (a, n), (b, _), (d, m) = an(c, x), an(c, y), an(c, r)
        return [('size', m == n), ('entries', every(n, lambda t: d[t] == a[b[t]], lambda t: d[t])), ('a permutation', perm(c, r))]


class ComposeOther(PCase):
    name = 'different sizes'
    raises = {'ValueError': True}

    def params(self, c):
        x, y = self.perm(c, 'x'), self.perm(c, 'y')
        c.assume(to_int(iseq(c, x).n) != to_int(iseq(c, y).n))
        return [x, y]

    def match(self, c, args):
        return False

    def post(self, c, r, *a):
        return [('refused', False)]


class IsRightDescent(BoolCase):
    name = 'permutation, position'
    kinds = 'si'

    def params(self, c):
        p, i = self.perm(c), c.fresh('i', I_)
        a, n = an(c, p)
        c.assume(z3.And(i >= 0, i < n - 1))
        return [p, i]

    def pre(self, c, p, i):
        return [('a permutation', perm(c, p)), ('position', z3.And(to_int(i) >= 0, to_int(i) < an(c, p)[1] - 1))]

    def post(self, c, r, p, i):
        a, n = an(c, p)
        i = to_int(i)
        return [('true exactly when the entries are out of order', I.to_z3(c.truth(r)) == (a[i] > a[i + 1]))]


class IsLeftDescent(IsRightDescent):
    def post(self, c, r, p, i):
        a, n = an(c, p)
        i = to_int(i)
        inv = lambda v: AT(a, n, v)
        return [('true exactly when the positions are out of order', I.to_z3(c.truth(r)) == (inv(i) > inv(i + 1)))]


class RightDescents(PCase):
    name = 'permutation'

    def params(self, c):
        return [self.perm(c)]

    def pre(self, c, p):
        return [('a permutation', perm(c, p))]

    def result(self, c, p):
        return SetObj(member=c.fresh('ds', z3.ArraySort(I_, BB)))

    def post(self, c, r, p):
        if not isinstance(r, SetObj):
            return [('a set', False)]
        if r.member is None:
            c.set_symbolic(r)
        x = z3.Int('x!ds')
        return [('exactly the descents', z3.ForAll([x], r.member[x] == self.descent(c, p, x), patterns=[r.member[x]]))]

    def descent(self, c, p, x):
        a, n = an(c, p)
        return z3.And(x >= 0, x < n - 1, a[x] > a[x + 1])


class LeftDescents(RightDescents):
    def descent(self, c, p, x):
        a, n = an(c, p)
        return z3.And(x >= 0, x < n - 1, AT(a, n, x) > AT(a, n, x + 1))


def letters(c, v, n):
    a, k = an(c, v)
    return every(k, lambda t: z3.And(a[t] >= 0, a[t] < n - 1), lambda t: a[t])


class FromCox(PCase):
    name = 'size, word'
    kinds = 'is'

    def params(self, c):
        n, w = c.fresh('n', I_), self.seq(c, 'seq')
        c.ghost['cox'] = (an(c, w), n)
        c.assume(n >= 0)
        c.assume(letters(c, w, n))
        return [n, w]

    def pre(self, c, n, w):
        return [('size', to_int(n) >= 0), ('letters are adjacent transpositions', letters(c, w, to_int(n)))]

    def post(self, c, r, n, w):
        (a, m), (s, k), n = an(c, r), an(c, w), to_int(n)
        return [('size', m == n), ('the product of the letters', every(n, lambda t: a[t] == COX(s, k)[t], lambda t: a[t])), ('a permutation', perm(c, r))]


class FromCoxBad(FromCox):
    name = 'size, not a word'
    raises = {'AssertionError': True}

    def params(self, c):
        n, w = c.fresh('n', I_), self.seq(c, 'seq')
        c.assume(n >= 0)
        c.assume(z3.Not(letters(c, w, n)))
        return [n, w]

    def pre(self, c, n, w):
        return [('size', to_int(n) >= 0)]

    def match(self, c, args):
        return False

    def post(self, c, r, *a):
        return [('refused', False)]


class ShortLex(PCase):
    name = 'permutation'

    def params(self, c):
        p = self.perm(c)
        c.ghost['shortlex'] = an(c, p)
        return [p]

    def pre(self, c, p):
        return [('a permutation', perm(c, p))]

    def post(self, c, r, p):
        a, n = an(c, p)
        w, k = an(c, r)
        return [('letters are adjacent transpositions', letters(c, r, n)),
                ('their product is the permutation', every(n, lambda t: COX(w, k)[t] == a[t], lambda t: COX(w, k)[t])),
                ('every letter shortens what is left', shortens(a, n, w, k)), ('every letter is the least that does', least(a, n, w, k))]


def left(a, n, w, k, i):
    """Entry i of the inverse of the permutation a times the first k letters of w."""
    return AT(a, n, COX(w, k)[i])


def shortens(a, n, w, k):
    return every(k, lambda t: left(a, n, w, t, w[t]) > left(a, n, w, t, w[t] + 1), lambda t: w[t])


def least(a, n, w, k):
    t, j = z3.Ints('t!ll j!ll')
    return z3.ForAll([t, j], z3.Implies(z3.And(t >= 0, t < k, j >= 0, j < w[t]), left(a, n, w, t, j) < left(a, n, w, t, j + 1)),
                     patterns=[z3.MultiPattern(w[t], COX(w, t)[j])])


# --- the classes -------------------------------------------------------------------------------------------------------
def cls(c, name):
    return c.repo.modules['peyl.permutations'].globals[name]


def is_perm_obj(v):
    return isinstance(v, (Obj, I.ObjSnap)) and v.cls.name == 'Permutation'


def word(p):
    return p.fields['word']


class PObj(PCase):
    """Methods of Permutation: the data of the object is a permutation."""
    name = 'permutation'
    extra = 0
    nargs = 1

    def obj(self, c, name='p'):
        o = c.fresh_val(('obj', cls(c, 'Permutation'), (('word', ('seq', INT, 'tuple')),)), name)
        return o

    def result(self, c, *a):
        return self.obj(c, 'r')

    def params(self, c):
        ps = [self.obj(c, 'x'), self.obj(c, 'y')][:self.nargs]
        for p in ps:
            c.assume(perm(c, word(p)))
        return ps

    def match(self, c, args):
        return len(args) == self.nargs and all(is_perm_obj(a) for a in args)

    def coerce(self, c, args):
        return args

    def pre(self, c, *ps):
        return [('permutations', z3.And(*[perm(c, word(p)) for p in ps]))]


class Valid(PObj):
    """__post_init__ lets exactly the permutations through."""
    name = 'data'

    def must_raise(self, c, p):
        return [('AssertionError', z3.Not(perm(c, word(p))))]

    def params(self, c):
        return [self.obj(c)]

    def pre(self, c, p):
        return []

    def result(self, c, p):
        return None

    def post(self, c, r, p):
        return [('a permutation', perm(c, word(p)))]


class PInv(PObj):
    def post(self, c, r, p):
        (a, n), (b, m) = an(c, word(p)), an(c, word(r))
        return [('size', m == n), ('left inverse', every(n, lambda t: b[a[t]] == t, lambda t: a[t])),
                ('right inverse', every(n, lambda t: z3.And(b[t] >= 0, b[t] < n, a[b[t]] == t), lambda t: b[t])),
                ('a permutation', perm(c, word(r)))]


class PMul(PObj):
    name = 'permutations'
    nargs = 2

    def sized(self, c, x, y):
        return an(c, word(x))[1] == an(c, word(y))[1]

    def params(self, c):
        x, y = super().params(c)
        c.assume(self.sized(c, x, y))
        return [x, y]

    def pre(self, c, x, y):
        return super().pre(c, x, y) + [('the same size', self.sized(c, x, y))]

    def post(self, c, r, x, y):
        (a, n), (b, _), (d, m) = an(c, word(x)), an(c, word(y)), an(c, word(r))
        return [('size', m == n), ('entries', every(n, lambda t: d[t] == a[b[t]], lambda t: d[t])), ('a permutation', perm(c, word(r)))]


class PMulOther(PMul):
    name = 'different sizes'
    raises = {'ValueError': True}

    def sized(self, c, x, y):
        return z3.Not(super().sized(c, x, y))

    def match(self, c, args):
        return False

    def post(self, c, r, *a):
        return [('refused', False)]


class PRightDescents(PObj):
    def result(self, c, p):
        return SetObj(member=c.fresh('ds', z3.ArraySort(I_, BB)))

    def post(self, c, r, p):
        return RightDescents.post(self, c, r, word(p))

    descent = RightDescents.descent


class PLeftDescents(PRightDescents):
    descent = LeftDescents.descent


class PShortLex(PObj):
    def result(self, c, p):
        return self.seq(c, 'r')

    def post(self, c, r, p):
        return ShortLex.post(self, c, r, word(p))


class PIsRight(PObj):
    name = 'permutation, position'
    base = IsRightDescent

    def params(self, c):
        p, = super().params(c)
        i = c.fresh('i', I_)
        c.assume(z3.And(i >= 0, i < an(c, word(p))[1] - 1))
        return [p, i]

    def match(self, c, args):
        return len(args) == 2 and is_perm_obj(args[0]) and is_int(args[1])

    def result(self, c, *a):
        return c.fresh('r', BB)

    def pre(self, c, p, i):
        return self.base.pre(self, c, word(p), i)

    def post(self, c, r, p, i):
        return self.base.post(self, c, r, word(p), i)


class PIsLeft(PIsRight):
    base = IsLeftDescent


class Group(PObj):
    """Methods of SymmetricGroup."""
    name = 'group'

    def params(self, c):
        g = c.fresh_val(('obj', cls(c, 'SymmetricGroup'), (('n', INT),)), 'g')
        c.assume(to_int(g.fields['n']) >= 0)
        return [g]

    def match(self, c, args):
        return isinstance(args[0], (Obj, I.ObjSnap)) and args[0].cls.name == 'SymmetricGroup'

    def pre(self, c, g, *r):
        return [('size', to_int(g.fields['n']) >= 0)]

    entry = staticmethod(lambda n, t: t)

    def post(self, c, r, g):
        n = to_int(g.fields['n'])
        a, m = an(c, word(r))
        return [('size', m == n), ('entries', every(n, lambda t: a[t] == self.entry(n, t), lambda t: a[t])), ('a permutation', perm(c, word(r)))]


class GroupLongest(Group):
    entry = staticmethod(lambda n, t: n - 1 - t)


class GroupValid(Group):
    name = 'size'

    def must_raise(self, c, g):
        return [('AssertionError', to_int(g.fields['n']) < 0)]

    def params(self, c):
        return [c.fresh_val(('obj', cls(c, 'SymmetricGroup'), (('n', INT),)), 'g')]

    def pre(self, c, g):
        return []

    def result(self, c, g):
        return None

    def post(self, c, r, g):
        return [('size', to_int(g.fields['n']) >= 0)]


class GroupFromCox(Group):
    name = 'group, word'

    def params(self, c):
        g, = super().params(c)
        w = self.seq(c, 'seq')
        c.assume(letters(c, w, to_int(g.fields['n'])))
        return [g, w]

    def pre(self, c, g, w):
        return [('size', to_int(g.fields['n']) >= 0), ('letters are adjacent transpositions', letters(c, w, to_int(g.fields['n'])))]

    def post(self, c, r, g, w):
        return FromCox.post(self, c, word(r), g.fields['n'], w)


class OfPerm(PObj):
    """Permutation.group()."""
    def result(self, c, p):
        return c.fresh_val(('obj', cls(c, 'SymmetricGroup'), (('n', INT),)), 'g')

    def post(self, c, r, p):
        return [('of the right size', to_int(r.fields['n']) == an(c, word(p))[1])]



def int_lists(ex, view):
    for b in invs.lists(view):
        try:
            iseq(ex, invs.seq_of(view.entry.objs[b]))
        except Unsupported:
            continue
        yield b


def h_cox(ex, view):
    if 'cox' not in ex.ghost or view.k is None:
        return
    (s, k), n = ex.ghost['cox']
    for b in int_lists(ex, view):
        at = lambda v, b=b: an(ex, invs.seq_of(v.objs[b]))
        yield f'list{b} is a permutation', lambda v, at=at: z3.And(RNG(*at(v)), INJ(*at(v)))
        yield f'list{b} is the product so far', lambda v, at=at: every(n, lambda t: at(v)[0][t] == COX(s, v.k)[t], lambda t: at(v)[0][t])


def h_shortlex(ex, view):
    if 'shortlex' not in ex.ghost:
        return
    p, n = ex.ghost['shortlex']
    ls = list(int_lists(ex, view))
    for b in ls:
        at = lambda v, b=b: an(ex, invs.seq_of(v.objs[b]))
        yield f'list{b} is a permutation', lambda v, at=at: z3.And(RNG(*at(v)), INJ(*at(v)))
        yield f'list{b} has letters', lambda v, at=at: every(at(v)[1], lambda t: z3.And(at(v)[0][t] >= 0, at(v)[0][t] < n - 1), lambda t: at(v)[0][t])
        for x in view.live:
            if is_int(view.entry.vars.get(x)):
                yield (f'list{b} increases up to {x}', lambda v, at=at, x=x:
                       every(to_int(v.frame.vars[x]), lambda t: at(v)[0][t] <= at(v)[0][t + 1], lambda t: at(v)[0][t]))
        for d in ls:
            if d != b:
                w = lambda v, d=d: an(ex, invs.seq_of(v.objs[d]))
                yield (f'list{b} is the inverse times list{d}', lambda v, at=at, w=w:
                       every(n, lambda t: p[at(v)[0][t]] == COX(*w(v))[t], lambda t: at(v)[0][t], lambda t: COX(*w(v))[t]))
                yield f'letters of list{d} shorten', lambda v, w=w: shortens(p, n, *w(v))
                yield f'letters of list{d} are least', lambda v, w=w: least(p, n, *w(v))


def h_inverse(ex, view):
    if view.k is None or not view.iters:
        return
    for b in invs.lists(view):
        for x, w in view.entry.vars.items():
            if x not in view.entry.names and isinstance(w, (SSeq, tuple)):
                try:
                    a, n = an(ex, w)
                except (Unsupported, TypeError):
                    continue
                yield (f'list{b} inverts {x} so far', lambda v, b=b, a=a: every(v.k, lambda t: iseq(ex, invs.seq_of(v.objs[b])).arrs[0][a[t]] == t, lambda t: a[t]))


def contracts(repo):
    def C(q, cases, *hints, **kw):
        gen = None
        if hints:
            def gen(ex, view):
                for h in hints:
                    yield from h(ex, view)
        return Contract(M + q, cases, prop='C05', hints=gen, theories=TH, opts=dict(index_quant=True), **kw)
    return [
        C('is_permutation', IsPermutation()),
        C('identity', Identity()),
        C('is_identity', IsIdentity()),
        C('transposition', Transposition()),
        C('longest_element', Longest()),
        C('is_longest_element', IsLongest()),
        C('inverse', Inverse(), h_inverse),
        C('compose', [Compose(), ComposeOther()]),
        C('from_cox', [FromCox(), FromCoxBad()], h_cox),
        C('shortlex', ShortLex(), h_shortlex),
        C('right_descent_set', RightDescents()),
        C('is_right_descent', IsRightDescent()),
        C('left_descent_set', LeftDescents()),
        C('is_left_descent', IsLeftDescent()),
        C('Permutation.__post_init__', Valid()),
        C('Permutation.group', OfPerm()),
        C('Permutation.inv', PInv()),
        C('Permutation.__mul__', [PMul(), PMulOther()]),
        C('Permutation.right_descent_set', PRightDescents()),
        C('Permutation.left_descent_set', PLeftDescents()),
        C('Permutation.is_right_descent', PIsRight()),
        C('Permutation.is_left_descent', PIsLeft()),
        C('Permutation.shortlex', PShortLex()),
        C('SymmetricGroup.__post_init__', GroupValid()),
        C('SymmetricGroup.id', Group()),
        C('SymmetricGroup.longest_element', GroupLongest()),
        C('SymmetricGroup.from_cox', GroupFromCox()),
    ]
