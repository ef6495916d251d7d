"""Contracts for peyl/tl.py and peyl/noncrossing.py: crossingless matchings, diagrams, noncrossing partitions.

  CM(a, n)      a[0..n) is an involution of [0, n) without fixed points and without crossings: t < u < a[t] implies
                t < a[u] < a[t]
  W0, W1        gluing an upper and a lower matching: where the path from dot v of the lower (W0) or upper (W1) diagram ends,
                by following the matchings alternately (defining equations: PATH)
  GLUED         the glued matching.  Trusted: gluing planar diagrams gives a planar diagram.

The parity of a[t] - t is odd in a crossingless matching (proved by induction in lemmas.py)."""
from __future__ import annotations
import z3
from pyvc.values import *
from pyvc.vc import Contract, Case, tobool
from pyvc import interp as I
from pyvc import invs
from pyvc.ring import all_subterms
from pyvc.theory import Sums
from specs.perm import PCase, BoolCase, an, iseq, every, RNG, INJ, SUR, perm, Permutations, cls as perm_cls, is_perm_obj

M = 'peyl.tl:'
N = 'peyl.noncrossing:'
I_, BB = z3.IntSort(), z3.BoolSort()
AI = z3.ArraySort(I_, I_)
CM = z3.Function('CM', AI, I_, BB)
W1_, W2_ = (z3.Function(x, AI, I_, I_) for x in ('CMat', 'CMin'))
MODF = z3.Function('open!mod', I_, I_, I_)
PARITY = False


class Matchings:
    """CM by definition."""
    name = 'matchings'

    def instances(self, facts, goal, rels):
        seen = {}
        for f in list(facts) + [goal]:
            for s in all_subterms(f):
                if z3.is_app(s) and s.decl().name() == 'CM' and not any(z3.is_var(x) for x in all_subterms(s)):
                    seen[s.get_id()] = s
        out = []
        t, u = z3.Ints('t!cm u!cm')
        for s in seen.values():
            a, n = s.children()
            p, q = W1_(a, n), W2_(a, n)
            ok = lambda x: z3.And(x >= 0, x < n)
            inv = lambda x: z3.And(ok(a[x]), a[x] != x, a[a[x]] == x)
            out += [
                z3.Implies(s, z3.ForAll([t], z3.Implies(ok(t), inv(t)), patterns=[a[t]])),
                z3.Implies(s, z3.ForAll([t, u], z3.Implies(z3.And(ok(t), t < u, u < a[t]), z3.And(t < a[u], a[u] < a[t])), patterns=[z3.MultiPattern(a[t], a[u])])),
                z3.Implies(s, z3.ForAll([t], z3.Implies(ok(t), (a[t] - t) % 2 == 1), patterns=[a[t]])),      # lemma
                z3.Implies(s, z3.Implies(n >= 0, n % 2 == 0)),                                                                  # lemma
                z3.Or(s, z3.And(ok(p), z3.Not(inv(p))), z3.And(ok(p), p < q, q < a[p], ok(a[p]), z3.Not(z3.And(p < a[q], a[q] < a[p])))),
            ]
        return out


TH = [Sums(), Permutations(), Matchings()]


def cm(c, v):
    return CM(*an(c, v))


class IsCM(BoolCase):
    name = 'any integers'

    def params(self, c):
        s = self.seq(c, 'seq')
        c.ghost['cm'] = an(c, s)
        return [s]

    def post(self, c, r, s):
        return [('true exactly for crossingless matchings', I.to_z3(c.truth(r)) == cm(c, s))]


def h_cm(ex, view):
    """The stack holds the closers of the arcs that are open at k, nested; between their openers everything is closed."""
    if 'cm' not in ex.ghost or view.k is None:
        return
    a, n = ex.ghost['cm']
    t, j = z3.Ints('t!h j!h')
    for b in invs.lists(view):
        try:
            an(ex, invs.seq_of(view.entry.objs[b]))
        except Unsupported:
            continue
        at = lambda v, b=b: an(ex, invs.seq_of(v.objs[b]))

        def openers(v, at=at):
            s, m = at(v)
            return every(m, lambda t: z3.And(s[t] >= v.k, s[t] < n, a[s[t]] >= 0, a[s[t]] < v.k), lambda t: s[t])

        def nested(v, at=at):
            s, m = at(v)
            u = z3.Int('u!h')
            return z3.ForAll([t, u], z3.Implies(z3.And(t >= 0, t < u, u < m), a[s[t]] < a[s[u]]), patterns=[z3.MultiPattern(s[t], s[u])])

        def closed(v, at=at):
            s, m = at(v)
            return z3.And(
                z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < v.k, z3.Or(m == 0, j < a[s[0]])), a[j] < v.k), patterns=[a[j]]),
                z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < v.k, z3.Or(m == 0, j > a[s[m - 1]])), a[j] < v.k), patterns=[a[j]]),
                z3.ForAll([t, j], z3.Implies(z3.And(t >= 0, t < m - 1, a[s[t]] < j, j < a[s[t + 1]]), a[j] < v.k), patterns=[z3.MultiPattern(s[t], a[j])]))

        def nocross(v, at=at):
            u = z3.Int('u!h')
            return z3.ForAll([t, u], z3.Implies(z3.And(t >= 0, t < u, u < a[t], a[t] < v.k), z3.And(t < a[u], a[u] < a[t])), patterns=[z3.MultiPattern(a[t], a[u])])
        yield f'list{b} has the ends of open arcs', openers
        yield f'list{b} is nested', nested
        yield f'everything else is closed or in list{b}', closed
        yield f'closed arcs do not cross', nocross


W0, W1 = (z3.Function(x, AI, AI, I_, I_, I_, I_, I_) for x in ('W0', 'W1'))           # upper, lower, len(upper), len(lower), mid, dot
GLUE = z3.Function('GLUE', AI, AI, I_, I_, I_, AI)
DIFF = z3.Function('DIFF', AI, AI, I_)
NEST = z3.Function('NESTED', I_, AI)


class Gluing:
    """The defining equations of W0, W1 and GLUE, at the terms at hand; the trusted fact that gluing keeps CM."""
    name = 'gluing'

    def instances(self, facts, goal, rels):
        ws, gs, ns = {}, {}, {}
        for f in list(facts) + [goal]:
            for s in all_subterms(f):
                if z3.is_app(s) and s.decl().name() in ('W0', 'W1', 'GLUE') and not any(z3.is_var(x) for x in all_subterms(s)):
                    (gs if s.decl().name() == 'GLUE' else ws)[s.get_id()] = s
                if z3.is_app(s) and s.decl().name() == 'NLOOPS' and not any(z3.is_var(x) for x in all_subterms(s)):
                    ns[s.get_id()] = s
        out = []
        for s in ns.values():                 # the dots of the matchings are all that counts
            for r in ns.values():
                (a, b, U, L, m, k), (a2, b2, U2, L2, m2, k2) = s.children(), r.children()
                if z3.eq(a, a2) and not z3.eq(b, b2) and s.get_id() < r.get_id():
                    w = DIFF(b, b2)
                    out.append(z3.Implies(z3.And(U == U2, L == L2, m == m2, k == k2), z3.Or(s == r, z3.And(w >= 0, w < L, b[w] != b2[w]))))
        for s in ws.values():
            u, l, U, L, mid, v = s.children()
            if s.decl().name() == 'W0':
                w = l[v]
                out.append(s == z3.If(w < L - mid, w, W1(u, l, U, L, mid, L - w - 1)))
            else:
                w = u[v]
                out.append(s == z3.If(w >= mid, w - mid + (L - mid), W0(u, l, U, L, mid, L - w - 1)))
        t = z3.Int('t!gl')
        for s in gs.values():
            u, l, U, L, mid = s.children()
            bot = L - mid
            out.append(z3.ForAll([t], s[t] == z3.If(t < bot, W0(u, l, U, L, mid, t), W1(u, l, U, L, mid, t - bot + mid)), patterns=[s[t]]))
            p = CM(s, U + L - 2 * mid)
            out.append(z3.Implies(z3.And(CM(u, U), CM(l, L), mid >= 0, mid <= U, mid <= L), p))
            out += Matchings().instances([p], z3.BoolVal(True), [])
        return out


SIG = (AI, AI, I_, I_, I_, I_, I_)
UPN, DNN, COMP, NLOOPS = (z3.Function(x, *SIG) for x in ('UPN', 'DNN', 'COMP', 'NLOOPS'))
AB = z3.ArraySort(I_, BB)
WITC, WITO = (z3.Function(x, AI, AI, I_, I_, I_, AB, I_) for x in ('WITC', 'WITO'))


class Loops:
    """The dots in the middle, numbered as in the upper diagram: UPN(v), DNN(v) the dot that the upper (lower) diagram joins
    v to, or -1; COMP(v) the least dot of the loop through v, -1 when v is on a path that leaves the middle; NLOOPS(k) the
    number of loops with least dot below k."""
    name = 'loops'

    def instances(self, facts, goal, rels):
        ctx, sets, ks, sel, dots = {}, {}, {}, {}, {}
        for f in list(facts) + [goal]:
            for s in all_subterms(f):
                if not z3.is_app(s):
                    continue
                d = s.decl().name()
                if z3.is_store(s) and s.sort() == AB and not any(z3.is_var(x) for x in all_subterms(s.arg(1))):
                    dots[s.arg(1).get_id()] = s.arg(1)
                if d in ('UPN', 'DNN', 'COMP', 'NLOOPS'):
                    c = s.children()[:5]
                    if not any(z3.is_var(x) for y in c for x in all_subterms(y)):
                        if d != 'NLOOPS' and not any(z3.is_var(x) for x in all_subterms(s)):
                            dots[s.arg(5).get_id()] = s.arg(5)
                        ctx[tuple(x.get_id() for x in c)] = c
                        if d == 'NLOOPS' and not any(z3.is_var(x) for x in all_subterms(s)):
                            ks[s.get_id()] = s
                elif s.sort() == AB and not any(z3.is_var(x) for x in all_subterms(s)) and not I.has_quant(s):
                    sets[s.get_id()] = s
                elif z3.is_select(s) and s.sort() == BB and not any(z3.is_var(x) for x in all_subterms(s)):
                    dots[s.arg(1).get_id()] = s.arg(1)
                elif z3.is_select(s) and s.sort() == I_ and not any(z3.is_var(x) for x in all_subterms(s)):
                    sel[s.get_id()] = s
        out = []
        v, w = z3.Ints('v!lp w!lp')
        for c in ctx.values():
            a, b, U, L, m = c
            up, dn, co, nl = (lambda x, g=g: g(a, b, U, L, m, x) for g in (UPN, DNN, COMP, NLOOPS))
            ok = lambda x: z3.And(x >= 0, x < m)
            updef = lambda x: up(x) == z3.If(a[x] < m, a[x], -1)
            dndef = lambda x: dn(x) == z3.If(b[L - 1 - x] >= L - m, L - 1 - b[L - 1 - x], -1)
            valid = z3.And(CM(a, U), CM(b, L), m >= 0, m <= U, m <= L)
            A = lambda vs, f, *p: out.append(z3.Implies(valid, z3.ForAll(vs, f, patterns=list(p))))
            A([v], z3.Implies(ok(v), updef(v)), up(v))
            A([v], z3.Implies(ok(v), dndef(v)), dn(v))
            for s in sel.values():
                x, e = s.children()
                if z3.eq(x, a):
                    out.append(z3.Implies(z3.And(valid, ok(e)), updef(e)))
                if z3.eq(x, b):
                    e = z3.simplify(L - 1 - e)
                    out.append(z3.Implies(z3.And(valid, ok(e)), dndef(e)))
            for g in (up, dn):
                A([v], z3.Implies(z3.And(ok(v), g(v) >= 0), z3.And(g(v) < m, g(v) != v, g(g(v)) == v)), g(v))
                A([v], z3.Implies(ok(v), z3.If(g(v) >= 0, co(g(v)) == co(v), co(v) == -1)), z3.MultiPattern(co(v), g(v)))
            A([v], z3.Implies(ok(v), z3.Or(co(v) == -1, z3.And(co(v) >= 0, co(v) <= v, co(co(v)) == co(v)))), co(v))
            for e in dots.values():
                f = [updef(e), dndef(e)] + [z3.If(g(e) >= 0, z3.And(g(e) < m, g(e) != e, g(g(e)) == e, co(g(e)) == co(e)), co(e) == -1) for g in (up, dn)]
                out.append(z3.Implies(z3.And(valid, ok(e)), z3.And(*f, z3.Or(co(e) == -1, z3.And(co(e) >= 0, co(e) <= e, co(co(e)) == co(e))))))
            for s in ks.values():
                k = s.arg(5)
                out.append(z3.If(k <= 0, s == 0, s == nl(k - 1) + z3.If(co(k - 1) == k - 1, 1, 0)))
            for V in sets.values():
                closed = lambda x: z3.And(ok(x), V[x], z3.Or(z3.And(up(x) >= 0, z3.Not(V[up(x)])), z3.And(dn(x) >= 0, z3.Not(V[dn(x)]))))
                x, y = WITC(a, b, U, L, m, V), WITO(a, b, U, L, m, V)
                out.append(z3.Implies(valid, z3.Or(closed(x), z3.ForAll([v, w], z3.Implies(z3.And(ok(v), ok(w), V[v], co(v) >= 0, co(w) == co(v)), V[w]),
                                                                       patterns=[z3.MultiPattern(co(v), co(w))]))))
                out.append(z3.Implies(valid, z3.Or(closed(y), z3.And(ok(y), z3.Or(up(y) < 0, dn(y) < 0), z3.Not(V[y])),
                                                   z3.ForAll([v], z3.Implies(z3.And(ok(v), co(v) == -1), V[v]), patterns=[co(v)]))))
        return out


TH_GLUE = TH + [Gluing(), Loops()]
TH = TH + [Gluing()]


def loops(c, u, l, mid):
    (a, U), (b, L) = an(c, u), an(c, l)
    return NLOOPS(a, b, U, L, to_int(mid), to_int(mid))


def glued(c, u, l, mid):
    (a, U), (b, L) = an(c, u), an(c, l)
    return GLUE(a, b, U, L, to_int(mid)), U + L - 2 * to_int(mid)


class Compose(PCase):
    name = 'matchings, number of dots'
    kinds = 'ssi'

    def params(self, c):
        u, l, m = self.seq(c, 'upper'), self.seq(c, 'lower'), c.fresh('mid', I_)
        c.ghost['glue'] = an(c, u) + an(c, l) + (m,)
        for _, f in self.pre(c, u, l, m):
            c.assume(f)
        return [u, l, m]

    def must_raise(self, c, u, l, m):
        m = to_int(m)
        return [('AssertionError', z3.Or(m < 0, m > an(c, u)[1], m > an(c, l)[1]))]

    def pre(self, c, u, l, m):
        return [('crossingless matchings', z3.And(cm(c, u), cm(c, l)))]

    def result(self, c, u, l, m):
        return (self.seq(c, 'r'), c.fresh('bubbles', I_))

    def post(self, c, r, u, l, m):
        if not (isinstance(r, tuple) and len(r) == 2):
            return [('a matching and a number', False)]
        a, n = an(c, r[0])
        g, k = glued(c, u, l, m)
        return [('size', n == k), ('every dot is joined to the end of its path', every(n, lambda t: a[t] == g[t], lambda t: a[t])), ('a crossingless matching', CM(a, n)),
                ('bubbles are the loops in the middle', to_int(r[1]) == loops(c, u, l, m))]


def h_glue(ex, view):
    if 'glue' not in ex.ghost:
        return
    a, U, b, L, m = ex.ghost['glue']
    g = GLUE(a, b, U, L, m)
    ints = [x for x in view.live if is_int(view.entry.vars.get(x))]
    pure = z3.Solver()
    pure.set('timeout', 1000)

    def side(x):
        x = to_int(view.entry.vars[x])
        return pure.check(z3.Not(z3.Or(x == 0, x == 1))) == z3.unsat
    pairs = [(x, s) for x in ints for s in ints if x != s and side(s) and not (side(x) and x < s)]
    filling = any(invs.seq_of(view.entry.objs[x]).et == INT for x in invs.lists(view) if isinstance(invs.seq_of(view.entry.objs[x]), SSeq))
    W = lambda s, x: z3.If(s == 0, W0(a, b, U, L, m, x), W1(a, b, U, L, m, x))
    for x, s in pairs:
            if True:
                yield f'{s} is a side', lambda v, s=s: z3.Or(to_int(v.frame.vars[s]) == 0, to_int(v.frame.vars[s]) == 1)
                e = W(to_int(view.entry.vars[s]), to_int(view.entry.vars[x]))
                yield (f'{x} is a dot of the diagram on side {s}', lambda v, s=s, x=x:
                       z3.And(to_int(v.frame.vars[x]) >= 0, to_int(v.frame.vars[x]) < z3.If(to_int(v.frame.vars[s]) == 0, L, U)))
                yield (f'the path goes on from {x} on side {s}', lambda v, s=s, x=x, e=e: W(to_int(v.frame.vars[s]), to_int(v.frame.vars[x])) == e)
    ctx = (a, b, U, L, m)
    up, dn, co, nl = (lambda x, f=f: f(*ctx, x) for f in (UPN, DNN, COMP, NLOOPS))
    bot = L - m
    t = z3.Int('t!gl')
    mids = lambda f, *p: z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < m), f(t)), patterns=[q(t) for q in p])
    for bb in invs.lists(view):
        q = invs.seq_of(view.entry.objs[bb])
        if not (isinstance(q, SSeq) and q.et == BOOL):
            continue
        at = lambda v, bb=bb: invs.seq_of(v.objs[bb]).arrs[0]
        nm = f'list{bb}'
        yield f'{nm} is as long as the middle', lambda v, bb=bb: to_int(invs.seq_of(v.objs[bb]).n) == m
        if view.k is not None and not filling:
            yield f'{nm} is what belongs to loops before k', lambda v, at=at: mids(lambda x: at(v)[x] == (co(x) < v.k), lambda x: at(v)[x], co)
            yield f'{nm} is closed upwards', lambda v, at=at: mids(lambda x: z3.Implies(z3.And(at(v)[x], up(x) >= 0), at(v)[up(x)]), up)
            yield f'{nm} is closed downwards', lambda v, at=at: mids(lambda x: z3.Implies(z3.And(at(v)[x], dn(x) >= 0), at(v)[dn(x)]), dn)
            continue
        if view.k is not None:
            yield f'{nm} is on open paths', lambda v, at=at: mids(lambda x: z3.Implies(at(v)[x], co(x) == -1), lambda x: at(v)[x], co)
            yield f'{nm} is closed upwards', lambda v, at=at: mids(lambda x: z3.Implies(z3.And(at(v)[x], up(x) >= 0), at(v)[up(x)]), up)
            yield f'{nm} is closed downwards', lambda v, at=at: mids(lambda x: z3.Implies(z3.And(at(v)[x], dn(x) >= 0), at(v)[dn(x)]), dn)
            yield f'{nm} has the first dots of paths from below', lambda v, at=at: every(
                z3.If(v.k < bot, v.k, bot), lambda x: z3.Implies(b[x] >= bot, at(v)[L - 1 - b[x]]), lambda x: b[x])
            yield f'{nm} has the first dots of paths from above', lambda v, at=at: every(
                v.k - bot + m, lambda x: z3.Implies(a[x] < m, at(v)[a[x]]), lambda x: a[x], lo=m)
            continue
        for x in ints:
            X = lambda v, x=x: to_int(v.frame.vars[x])
            for s in ints:
                if (x, s) not in pairs:
                    continue
                S = lambda v, s=s: to_int(v.frame.vars[s])
                x0, s0 = to_int(view.entry.vars[x]), to_int(view.entry.vars[s])
                one = lambda v, S=S, X=X: z3.And(S(v) == 1, X(v) < m)
                two = lambda v, S=S, X=X: z3.And(S(v) == 0, X(v) >= bot)
                yield f'{nm} is on open paths', lambda v, at=at: mids(lambda x: z3.Implies(at(v)[x], co(x) == -1), lambda x: at(v)[x], co)
                yield f'{nm} is closed upwards but for {x} on side {s}', lambda v, at=at, X=X, S=S: mids(
                    lambda x: z3.Implies(z3.And(at(v)[x], up(x) >= 0, z3.Not(z3.And(S(v) == 1, x == X(v)))), at(v)[up(x)]), up)
                yield f'{nm} is closed downwards but for {x} on side {s}', lambda v, at=at, X=X, S=S: mids(
                    lambda x: z3.Implies(z3.And(at(v)[x], dn(x) >= 0, z3.Not(z3.And(S(v) == 0, x == L - 1 - X(v)))), at(v)[dn(x)]), dn)
                yield f'{nm} has {x}', lambda v, at=at, one=one, two=two, X=X: z3.And(
                    z3.Implies(one(v), z3.And(at(v)[X(v)], co(X(v)) == -1)), z3.Implies(two(v), z3.And(at(v)[L - 1 - X(v)], co(L - 1 - X(v)) == -1)))
                yield f'{nm} has the first dot of the path', lambda v, at=at, X=X, S=S, x0=x0, s0=s0: z3.Or(
                    z3.And(X(v) == x0, S(v) == s0), z3.If(s0 == 0, z3.Implies(b[x0] >= bot, at(v)[L - 1 - b[x0]]), z3.Implies(a[x0] < m, at(v)[a[x0]])))
                yield f'{nm} has the first dots of paths from below', lambda v, at=at, x0=x0, s0=s0: every(
                    z3.If(s0 == 0, x0, bot), lambda x: z3.Implies(b[x] >= bot, at(v)[L - 1 - b[x]]), lambda x: b[x])
                yield f'{nm} has the first dots of paths from above', lambda v, at=at, x0=x0, s0=s0: every(
                    z3.If(s0 == 0, m, x0), lambda x: z3.Implies(a[x] < m, at(v)[a[x]]), lambda x: a[x], lo=m)
            if pairs:
                continue
            # round a loop from the entry value of x
            i = to_int(view.entry.vars[x])
            yield f'{x} is a dot of the loop', lambda v, X=X, at=at, i=i: z3.And(X(v) >= 0, X(v) < m, z3.Not(at(v)[X(v)]), co(X(v)) == i, co(i) == i, i >= 0, i < m)
            yield f'{nm} is between what belongs to earlier loops and this one', lambda v, at=at, i=i: mids(
                lambda x: z3.And(z3.Implies(at(v)[x], co(x) <= i), z3.Implies(co(x) < i, at(v)[x])), lambda x: at(v)[x], co)
            yield f'{nm} is closed upwards', lambda v, at=at: mids(lambda x: z3.Implies(z3.And(at(v)[x], up(x) >= 0), at(v)[up(x)]), up)
            yield f'{nm} is closed downwards but for the ends of the walk', lambda v, at=at, X=X, i=i: mids(
                lambda x: z3.Implies(z3.And(at(v)[x], dn(x) >= 0, x != i, dn(x) != X(v)), at(v)[dn(x)]), dn)
            yield f'{nm} has the dot before {x}', lambda v, at=at, X=X, i=i: z3.Or(X(v) == i, z3.And(at(v)[i], at(v)[dn(X(v))]))
    if view.k is None:
        for bb in invs.lists(view):
            q = invs.seq_of(view.entry.objs[bb])
            if isinstance(q, SSeq) and q.et == INT:
                yield f'list{bb} waits', lambda v, bb=bb, q=q: invs.seq_of(v.objs[bb]).arrs[0] == q.arrs[0]
    if view.k is not None:
        for x in ints:
            yield f'{x} is the number of loops before k', lambda v, x=x: to_int(v.frame.vars[x]) == nl(v.k)
        for bb in invs.lists(view):
            try:
                an(ex, invs.seq_of(view.entry.objs[bb]))
            except Unsupported:
                continue
            at = lambda v, bb=bb: an(ex, invs.seq_of(v.objs[bb]))
            yield f'list{bb} is glued up to k', lambda v, at=at: every(v.k, lambda t: at(v)[0][t] == g[t], lambda t: at(v)[0][t])


class TraceCount(PCase):
    name = 'matching'

    def params(self, c):
        s = self.seq(c, 'seq')
        c.assume(cm(c, s))
        return [s]

    def pre(self, c, s):
        return [('a crossingless matching', cm(c, s))]

    def result(self, c, s):
        return c.fresh('bubbles', I_)

    def axioms(self, c, s):
        n = an(c, s)[1]
        t = z3.Int('t!ns')
        return [z3.ForAll([t], NEST(n)[t] == n - 1 - t, patterns=[NEST(n)[t]])]

    def post(self, c, r, s):
        a, n = an(c, s)
        return [('the loops with the nested cups', to_int(r) == NLOOPS(a, NEST(n), n, n, n, n))]


class Insert(PCase):
    name = 'sequences, place'
    kinds = 'ssi'

    def params(self, c):
        return [self.seq(c, 'outer'), self.seq(c, 'inner'), c.fresh('i', I_)]

    def must_raise(self, c, o, s, i):
        return [('AssertionError', z3.Or(to_int(i) < 0, to_int(i) > an(c, o)[1]))]

    def post(self, c, r, o, s, i):
        (a, n), (b, m), (d, k), i = an(c, o), an(c, s), an(c, r), to_int(i)
        sh = lambda x: z3.If(x < i, x, x + m)
        return [('size', k == n + m),
                ('lemma: entries', every(k, lambda t: d[t] == z3.If(t < i, sh(a[t]), z3.If(t < i + m, b[t - i] + i, sh(a[t - m]))), lambda t: d[t])),
                ('crossingless when both are', z3.Implies(z3.And(CM(a, n), CM(b, m)), CM(d, k)))]


# --- diagrams ----------------------------------------------------------------------------------------------------------
DIAG = ('top', 'bot', 'seq', 'bubbles')


def tcls(c, name):
    return c.repo.modules['peyl.tl'].globals[name]


def is_diag(v, name):
    return isinstance(v, (Obj, I.ObjSnap)) and v.cls.name == name


def diagram(c, d):
    """The diagram is well formed."""
    top, bot = to_int(d.fields['top']), to_int(d.fields['bot'])
    a, n = an(c, d.fields['seq'])
    return z3.And(top >= 0, bot >= 0, n == top + bot, CM(a, n))


class DCase(PCase):
    """Methods of TLDiag and TLExtDiag (ext)."""
    name = 'diagram'
    nargs = 1

    def __init__(self, ext):
        self.ext = ext
        self.cname = 'TLExtDiag' if ext else 'TLDiag'

    def obj(self, c, name):
        fs = (('top', INT), ('bot', INT), ('seq', ('seq', INT, 'tuple'))) + ((('bubbles', INT),) if self.ext else ())
        return c.fresh_val(('obj', tcls(c, self.cname), fs), name)

    def result(self, c, *a):
        return self.obj(c, 'r')

    def params(self, c):
        ps = [self.obj(c, x) for x in ('x', 'y')[:self.nargs]]
        for p in ps:
            c.assume(diagram(c, p))
        return ps

    def match(self, c, args):
        return len(args) == self.nargs and all(is_diag(a, self.cname) for a in args)

    def coerce(self, c, args):
        return args

    def pre(self, c, *ps):
        return [('well formed', z3.And(*[diagram(c, p) for p in ps]))]

    def shape(self, c, r, top, bot, what='shape'):
        return [(what, z3.And(to_int(r.fields['top']) == top, to_int(r.fields['bot']) == bot)), ('well formed', diagram(c, r))]

    def bubbles(self, r, k):
        return [('bubbles', to_int(r.fields['bubbles']) == k)] if self.ext else []


class DInit(DCase):
    """The constructor lets exactly the well formed data through."""
    name = 'data'

    def params(self, c):
        return [self.blank(c), c.fresh('top', I_), c.fresh('bot', I_), self.seq(c, 'seq'), c.fresh('bubbles', I_)]

    def blank(self, c):
        return Obj(tcls(c, self.cname), {})


class DId(DCase):
    name = 'size'

    def params(self, c):
        n = c.fresh('n', I_)
        c.assume(n >= 0)
        return ([] if self.ext else [tcls(c, self.cname)]) + [n]

    def match(self, c, args):
        return is_int(args[-1])

    def pre(self, c, *a):
        return [('size', to_int(a[-1]) >= 0)]

    def post(self, c, r, *a):
        n = to_int(a[-1])
        d, k = an(c, r.fields['seq'])
        return self.shape(c, r, n, n) + [('dots are joined straight down', every(k, lambda t: d[t] == 2 * n - 1 - t, lambda t: d[t]))] + self.bubbles(r, 0)


class DE(DCase):
    name = 'place, size'

    def params(self, c):
        return [c.fresh('i', I_), c.fresh('n', I_)]

    def match(self, c, args):
        return len(args) == 2 and all(map(is_int, args))

    def pre(self, c, i, n):
        return []

    def must_raise(self, c, i, n):
        i, n = to_int(i), to_int(n)
        return [('AssertionError', z3.Not(z3.And(n >= 0, i >= 0, i < n - 1)))]

    def post(self, c, r, i, n):
        i, n = to_int(i), to_int(n)
        d, k = an(c, r.fields['seq'])
        e = lambda t: z3.If(t == i, i + 1, z3.If(t == i + 1, i, z3.If(t == 2 * n - 1 - i, 2 * n - 2 - i, z3.If(t == 2 * n - 2 - i, 2 * n - 1 - i, 2 * n - 1 - t))))
        return self.shape(c, r, n, n) + [('cup and cap at i, the rest straight', every(k, lambda t: d[t] == e(t), lambda t: d[t]))] + self.bubbles(r, 0)


class DMul(DCase):
    name = 'diagrams'
    nargs = 2

    def must_raise(self, c, x, y):
        return [('ValueError', to_int(x.fields['bot']) != to_int(y.fields['top']))]

    def result(self, c, *a):
        return self.obj(c, 'r') if self.ext else (self.obj(c, 'r'), c.fresh('bubbles', I_))

    def post(self, c, r, x, y):
        if not self.ext:
            if not (isinstance(r, tuple) and len(r) == 2):
                return [('a diagram and a number', False)]
            r, k = r
        if not is_diag(r, self.cname):
            return [('a diagram', False)]
        g, n = glued(c, x.fields['seq'], y.fields['seq'], x.fields['bot'])
        d, m = an(c, r.fields['seq'])
        return self.shape(c, r, to_int(x.fields['top']), to_int(y.fields['bot'])) + [
            ('every dot is joined to the end of its path', every(m, lambda t: d[t] == g[t], lambda t: d[t]))] + (
            [('bubbles', to_int(r.fields['bubbles']) == to_int(x.fields['bubbles']) + to_int(y.fields['bubbles']) + loops(c, x.fields['seq'], y.fields['seq'], x.fields['bot']))] if self.ext else [('bubbles', to_int(k) == loops(c, x.fields['seq'], y.fields['seq'], x.fields['bot']))])


class DTensor(DCase):
    name = 'diagrams'
    nargs = 2

    def post(self, c, r, x, y):
        if not is_diag(r, self.cname):
            return [('a diagram', False)]
        xt, xb, yt, yb = (to_int(o.fields[f]) for o in (x, y) for f in ('top', 'bot'))
        (a, n), (b, m), (d, k) = (an(c, o.fields['seq']) for o in (x, y, r))
        place = lambda v: z3.If(v < xb, v, v + m)          # where a dot of x goes; dot v of y goes to v + xb
        return self.shape(c, r, xt + yt, xb + yb) + [
            ('dots of the left diagram', every(n, lambda t: d[place(t)] == place(a[t]), lambda t: a[t])),
            ('dots of the right diagram', every(m, lambda t: d[t + xb] == b[t] + xb, lambda t: b[t]))] + (
            self.bubbles(r, to_int(x.fields['bubbles']) + to_int(y.fields['bubbles'])) if self.ext else [])


class DFlip(DCase):
    def post(self, c, r, x):
        if not is_diag(r, self.cname):
            return [('a diagram', False)]
        (a, n), (d, k) = an(c, x.fields['seq']), an(c, r.fields['seq'])
        return self.shape(c, r, to_int(x.fields['bot']), to_int(x.fields['top'])) + [
            ('mirrored', every(n, lambda t: d[t] == n - 1 - a[n - 1 - t], lambda t: d[t]))]


class DAddBubbles(DCase):
    name = 'diagram, number'

    def params(self, c):
        return super().params(c) + [c.fresh('bubbles', I_)]

    def match(self, c, args):
        return len(args) == 2 and is_diag(args[0], self.cname) and is_int(args[1])

    def pre(self, c, x, k):
        return super().pre(c, x)

    def post(self, c, r, x, k):
        return self.shape(c, r, to_int(x.fields['top']), to_int(x.fields['bot'])) + [('same matching', same(c, r, x))] + self.bubbles(r, to_int(x.fields['bubbles']) + to_int(k))


def same(c, r, x):
    (a, n), (d, k) = an(c, x.fields['seq']), an(c, r.fields['seq'])
    return z3.And(n == k, every(n, lambda t: a[t] == d[t], lambda t: d[t]))


class DSplit(DCase):
    def result(self, c, *a):
        return (self.obj(c, 'r'), c.fresh('bubbles', I_))

    def post(self, c, r, x):
        if not (isinstance(r, tuple) and len(r) == 2):
            return [('a diagram and a number', False)]
        r, k = r
        return self.shape(c, r, to_int(x.fields['top']), to_int(x.fields['bot'])) + [('same matching', same(c, r, x)), ('number', to_int(k) == to_int(x.fields['bubbles']))] + self.bubbles(r, 0)


# --- noncrossing partitions --------------------------------------------------------------------------------------------
def is_npar(v):
    return isinstance(v, (Obj, I.ObjSnap)) and v.cls.name == 'NPar'


def npar(c, p):
    n = to_int(p.fields['n'])
    a, k = an(c, p.fields['inv'])
    return z3.And(n >= 0, k == 2 * n, CM(a, k))


class NCase(PCase):
    name = 'partition'

    def obj(self, c, name='p'):
        return c.fresh_val(('obj', c.repo.modules['peyl.noncrossing'].globals['NPar'], (('n', INT), ('inv', ('seq', INT, 'tuple')))), name)

    def result(self, c, *a):
        return self.obj(c, 'r')

    def params(self, c):
        p = self.obj(c)
        c.assume(npar(c, p))
        return [p]

    def match(self, c, args):
        return len(args) == 1 and is_npar(args[0])

    def coerce(self, c, args):
        return args

    def pre(self, c, p):
        return [('a noncrossing partition', npar(c, p))]


class NValid(NCase):
    name = 'data'

    def params(self, c):
        return [self.obj(c)]

    def pre(self, c, p):
        return []

    def must_raise(self, c, p):
        n = to_int(p.fields['n'])
        a, k = an(c, p.fields['inv'])
        return [('AssertionError', z3.Not(z3.And(k == 2 * n, CM(a, k))))]

    def result(self, c, p):
        return None

    def post(self, c, r, p):
        return [('a noncrossing partition', npar(c, p))]


class NSize(NCase):
    name = 'size'

    def __init__(self, entry):
        self.entry = entry

    def params(self, c):
        n = c.fresh('n', I_)
        c.assume(n >= 0)
        return [n]

    def match(self, c, args):
        return len(args) == 1 and is_int(args[0])

    def pre(self, c, n):
        return [('size', to_int(n) >= 0)]

    def post(self, c, r, n):
        n = to_int(n)
        d, k = an(c, r.fields['inv'])
        return [('size', to_int(r.fields['n']) == n), ('the partition', every(n, lambda t: z3.And(*[d[x] == y for x, y in self.entry(n, t)]), lambda t: d[2 * t])), ('noncrossing', npar(c, r))]


def image(a, t):
    """Where the permutation of a partition takes t: the dot 2t is joined to the dot 2 image + 1."""
    return (a[2 * t] - 1) / 2


class NPerm(NCase):
    def params(self, c):
        p, = super().params(c)
        c.ghost['npar'] = an(c, p.fields['inv'])[0]
        return [p]

    def result(self, c, p):
        return c.fresh_val(('obj', perm_cls(c, 'Permutation'), (('word', ('seq', INT, 'tuple')),)), 'r')

    def post(self, c, r, p):
        if not is_perm_obj(r):
            return [('a permutation', False)]
        n = to_int(p.fields['n'])
        a, _ = an(c, p.fields['inv'])
        d, m = an(c, r.fields['word'])
        return [('size', m == n), ('dot 2t is joined to the odd dot of the image', every(n, lambda t: a[2 * t] == 2 * d[t] + 1, lambda t: d[t])),
                ('a permutation', perm(c, r.fields['word']))]


def h_npar(ex, view):
    a = ex.ghost.get('npar')
    if a is None or view.k is None:
        return
    for b in invs.lists(view):
        try:
            an(ex, invs.seq_of(view.entry.objs[b]))
        except Unsupported:
            continue
        at = lambda v, b=b: an(ex, invs.seq_of(v.objs[b]))[0]
        yield f'list{b} has the images up to k', lambda v, at=at: every(v.k, lambda t: a[2 * t] == 2 * at(v)[t] + 1, lambda t: at(v)[t])
        L = lambda v, b=b: an(ex, invs.seq_of(v.objs[b]))[1]
        yield f'list{b} has its images', lambda v, at=at, L=L: every(L(v), lambda t: a[2 * t] == 2 * at(v)[t] + 1, lambda t: at(v)[t])


class NComplement(NCase):
    """The permutation of the complement times that of the partition (left; right: the other way round) is t -> t - 1."""
    def __init__(self, left):
        self.left = left

    def post(self, c, r, p):
        if not is_npar(r):
            return [('a partition', False)]
        n = to_int(p.fields['n'])
        a, _ = an(c, p.fields['inv'])
        d, k = an(c, r.fields['inv'])
        up = lambda t: z3.If(t + 1 == 2 * n, 0, t + 1)
        dn = lambda t: z3.If(t == 0, 2 * n - 1, t - 1)
        f, g = (up, dn) if self.left else (dn, up)
        x, y = (d, a) if self.left else (a, d)
        return [('size', z3.And(to_int(r.fields['n']) == n, k == 2 * n)), ('lemma: rotated by a dot', every(2 * n, lambda t: d[t] == g(a[f(t)]), lambda t: d[t])),
                ('lemma: noncrossing', npar(c, r)),
                ('the product with the partition is the long cycle', every(n, lambda t: image(x, image(y, t)) == z3.If(t == 0, n - 1, t - 1), lambda t: y[2 * t]))]


BLK, NBLK = (z3.Function(x, AI, I_, I_, I_) for x in ('BLK', 'NBLK'))
WITB = z3.Function('WITB', AI, I_, AB, I_)


def nxt(a, j):
    return a[2 * j + 1] / 2


class Blocks:
    """The blocks of a noncrossing partition, the cycles of NXT: t -> half of the dot joined to 2t + 1.  BLK(a, n, t) is the
    least element of the block of t, NBLK(a, n, k) the number of blocks with least element below k."""
    name = 'blocks'

    def instances(self, facts, goal, rels):
        ctx, sets, ks, dots = {}, {}, {}, {}
        ground = lambda *ts: not any(z3.is_var(x) for y in ts for x in all_subterms(y))
        for f in list(facts) + [goal]:
            for s in all_subterms(f):
                if not z3.is_app(s):
                    continue
                d = s.decl().name()
                if d in ('BLK', 'NBLK') and ground(*s.children()[:2]):
                    ctx[tuple(x.get_id() for x in s.children()[:2])] = s.children()[:2]
                    if ground(s):
                        if d == 'NBLK':
                            ks[s.get_id()] = s
                        else:
                            dots[s.arg(2).get_id()] = s.arg(2)
                if s.sort() == AB and ground(s) and not I.has_quant(s):
                    sets[s.get_id()] = s
                    if z3.is_store(s):
                        dots[s.arg(1).get_id()] = s.arg(1)
                if z3.is_select(s) and s.sort() == BB and ground(s):
                    dots[s.arg(1).get_id()] = s.arg(1)
        out = []
        t, u = z3.Ints('t!bl u!bl')
        for a, n in ctx.values():
            ok = lambda x: z3.And(x >= 0, x < n)
            bl, valid = lambda x: BLK(a, n, x), z3.And(CM(a, 2 * n), n >= 0)
            for s in ks.values():
                k = s.arg(2)
                if z3.eq(s.arg(0), a):
                    out.append(z3.If(k <= 0, s == 0, s == NBLK(a, n, k - 1) + z3.If(bl(k - 1) == k - 1, 1, 0)))
            for j in ks.values():
                for k in ks.values():
                    out.append(z3.Implies(j.arg(2) <= k.arg(2), j <= k))            # the count does not decrease
            out.append(z3.Implies(valid, z3.ForAll([t], z3.Implies(ok(t), z3.And(bl(t) >= 0, bl(t) <= t, bl(bl(t)) == bl(t))), patterns=[bl(t)])))
            for e in dots.values():
                out.append(z3.Implies(z3.And(valid, ok(e)), z3.And(bl(e) >= 0, bl(e) <= e, bl(bl(e)) == bl(e), a[2 * e + 1] % 2 == 0, ok(nxt(a, e)), a[2 * nxt(a, e)] == 2 * e + 1,
                                                                   bl(nxt(a, e)) == bl(e))))
            for V in sets.values():
                w = WITB(a, n, V)
                out.append(z3.Implies(valid, z3.Or(z3.And(ok(w), V[w], z3.Not(V[nxt(a, w)])),
                                                   z3.ForAll([t, u], z3.Implies(z3.And(ok(t), ok(u), V[t], bl(u) == bl(t)), V[u]), patterns=[z3.MultiPattern(bl(t), bl(u))]))))
        return out


TH_BLK = TH + [Blocks()]


class NComponents(NCase):
    def params(self, c):
        p, = super().params(c)
        c.ghost['blocks'] = (an(c, p.fields['inv'])[0], to_int(p.fields['n']))
        return [p]

    def result(self, c, p):
        return c.fresh_val(('seq', ('seq', INT, 'tuple'), 'list'), 'r')

    def post(self, c, r, p):
        a, n = an(c, p.fields['inv'])[0], to_int(p.fields['n'])
        s = as_sseq(c.as_seq(r))
        if not (isinstance(s.et, tuple) and s.et[0] == 'seq' and s.et[1] == INT):
            return [('tuples of integers', False)]
        return [('as many as blocks', to_int(s.n) == NBLK(a, n, n))] + blocks(a, n, s.arrs[0], s.arrs[1], to_int(s.n)) + [
            ('every block has its place', every(n, lambda t: z3.Implies(BLK(a, n, t) == t, s.arrs[1][NBLK(a, n, t)][0] == t), lambda t: BLK(a, n, t)))]


def blocks(a, n, L, E, m):
    """The first m tuples are blocks, in increasing order from their least element."""
    x, t = z3.Ints('x!bk t!bk')
    e = lambda i: E[x][i]
    rng = z3.And(x >= 0, x < m)
    return [('not empty', z3.ForAll([x], z3.Implies(rng, z3.And(L[x] >= 1, BLK(a, n, E[x][0]) == E[x][0])), patterns=[L[x]])),
            ('elements', z3.ForAll([x, t], z3.Implies(z3.And(rng, t >= 0, t < L[x]), z3.And(e(t) >= 0, e(t) < n)), patterns=[e(t)])),
            ('each followed by the next of its block', z3.ForAll([x, t], z3.Implies(z3.And(rng, t >= 0, t < L[x] - 1), z3.And(a[2 * e(t) + 1] == 2 * e(t + 1), e(t) < e(t + 1))), patterns=[e(t)])),
            ('and the last by the first', z3.ForAll([x], z3.Implies(rng, a[2 * e(L[x] - 1) + 1] == 2 * e(0)), patterns=[L[x]]))]


def h_blocks(ex, view):
    if 'blocks' not in ex.ghost:
        return
    a, n = ex.ghost['blocks']
    t = z3.Int('t!hb')
    bl = lambda x: BLK(a, n, x)
    ls = [(b, invs.seq_of(view.entry.objs[b])) for b in invs.lists(view)]
    ints = [x for x in view.live if is_int(view.entry.vars.get(x))]
    pts = lambda f, *p: z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < n), f(t)), patterns=[q(t) for q in p])
    for b, q in ls:
        at = lambda v, b=b: invs.seq_of(v.objs[b])
        nm = f'list{b}'
        if q.et == BOOL:
            A = lambda v, at=at: at(v).arrs[0]
            yield f'{nm} has the size', lambda v, at=at: to_int(at(v).n) == n
            if view.k is not None:
                yield f'{nm} is what belongs to blocks before k', lambda v, A=A: pts(lambda x: A(v)[x] == (bl(x) < v.k), lambda x: A(v)[x], bl)
                continue
            for x in ints:
                X = lambda v, x=x: to_int(v.frame.vars[x])
                i = to_int(view.entry.vars[x])
                yield f'{x} is in the block', lambda v, X=X, i=i: z3.And(X(v) >= i, X(v) < n, bl(X(v)) == i, bl(i) == i, i >= 0)
                yield f'{nm} is between the earlier blocks and this one', lambda v, A=A, i=i: pts(
                    lambda x: z3.And(z3.Implies(A(v)[x], bl(x) <= i), z3.Implies(bl(x) < i, A(v)[x])), lambda x: A(v)[x], bl)
                yield f'{nm} is closed but for what goes to {x}', lambda v, A=A, X=X: pts(
                    lambda y: z3.Implies(z3.And(A(v)[y], a[2 * y + 1] != 2 * X(v)), A(v)[nxt(a, y)]), bl, lambda y: A(v)[y])
                yield f'nothing from before {x} goes beyond', lambda v, X=X, i=i: z3.ForAll(
                    [t], z3.Implies(z3.And(t > i, t <= X(v)), a[2 * t] < 2 * X(v) + 1), patterns=[a[2 * t]])
                for g, r in ls:
                    if r.et == INT or r.et is None:
                        G = lambda v, g=g: as_sseq(invs.seq_of(v.objs[g]), INT)
                        gl = lambda v, G=G: to_int(G(v).n)
                        ga = lambda v, G=G: G(v).arrs[0]
                        yield f'list{g} leads to {x}', lambda v, gl=gl, ga=ga, X=X, i=i: z3.If(
                            gl(v) == 0, X(v) == i, z3.And(ga(v)[0] == i, a[2 * ga(v)[gl(v) - 1] + 1] == 2 * X(v), ga(v)[gl(v) - 1] < X(v)))
                        yield f'list{g} is a chain', lambda v, gl=gl, ga=ga: z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < gl(v)), z3.And(
                            ga(v)[t] >= 0, ga(v)[t] < n, z3.Implies(t < gl(v) - 1, z3.And(a[2 * ga(v)[t] + 1] == 2 * ga(v)[t + 1], ga(v)[t] < ga(v)[t + 1])))), patterns=[ga(v)[t]])
        elif view.k is not None:
            def Q(v, at=at):
                s = at(v)
                if s.et is None:
                    s = ex.coerce_seq(s, ('seq', INT, 'tuple'))
                return s
            yield f'{nm} is as long as there were blocks', lambda v, Q=Q: to_int(Q(v).n) == NBLK(a, n, v.k)
            for j in range(4):
                yield f'{nm}: blocks {j}', lambda v, Q=Q, j=j: blocks(a, n, Q(v).arrs[0], Q(v).arrs[1], to_int(Q(v).n))[j][1]
            yield f'{nm}: every block has its place', lambda v, Q=Q: every(v.k, lambda t: z3.Implies(bl(t) == t, Q(v).arrs[1][NBLK(a, n, t)][0] == t), bl)


def mod(ex, a, b):
    r = MODF(a, b)
    return r


def mod_axioms():
    a, b = z3.Ints('a!md b!md')
    m = MODF(a, b)
    return [z3.ForAll([a, b], z3.Implies(b > 0, z3.And(m >= 0, m < b, z3.Implies(z3.And(a >= 0, a < b), m == a), z3.Implies(z3.And(a < 0, a >= -b), m == a + b),
                                                     z3.Implies(z3.And(a >= b, a < 2 * b), m == a - b))), patterns=[m])]


def contracts(repo):
    from specs.tlmor import TokCompose, TokTrace
    def C(mod, q, cases, prop, *hints, **kw):
        gen = None
        if hints:
            def gen(ex, view):
                for h in hints:
                    yield from h(ex, view)
        kw.setdefault('theories', TH)
        return Contract(mod + q, cases, prop=prop, hints=gen, opts=dict(index_quant=True, **kw.pop('opts', {})), **kw)
    ax = dict(opts=dict(mod=mod))
    for k in (NSize, NComplement):
        k.axioms = lambda self, c, *a: mod_axioms()
    return [
        C(M, 'is_crossingless_matching', IsCM(), 'C07 C06', h_cm),
        C(M, 'compose', [TokCompose(), Compose()], 'C07', h_glue, theories=TH_GLUE, weight=5, opts=dict(templates=False, frames=False)),
        C(M, 'trace_count', [TokTrace(), TraceCount()], 'C07'),
        C(M, 'insert', Insert(), 'C07'),
        C(M, 'TLDiag.id', DId(False), 'C07'),
        C(M, 'TLDiag.__mul__', DMul(False), 'C07'),
        C(M, 'TLDiag.__matmul__', DTensor(False), 'C07'),
        C(M, 'TLDiag.flip', DFlip(False), 'C07'),
        C(M, 'TLExtDiag.id', DId(True), 'C07'),
        C(M, 'TLExtDiag.e', DE(True), 'C07'),
        C(M, 'TLExtDiag.add_bubbles', DAddBubbles(True), 'C07'),
        C(M, 'TLExtDiag.split_bubbles', DSplit(True), 'C07'),
        C(M, 'TLExtDiag.__mul__', DMul(True), 'C07'),
        C(M, 'TLExtDiag.__matmul__', DTensor(True), 'C07'),
        C(N, 'NPar.__post_init__', NValid(), 'C06'),
        C(N, 'NPar.finest', NSize(lambda n, t: [(2 * t, 2 * t + 1), (2 * t + 1, 2 * t)]), 'C06'),
        C(N, 'NPar.coarsest', NSize(lambda n, t: [(2 * t, z3.If(t == 0, 2 * n - 1, 2 * t - 1)), (2 * t + 1, z3.If(t == n - 1, 0, 2 * t + 2))]), 'C06', **ax),
        C(N, 'NPar.to_permutation', NPerm(), 'C06', h_npar),
        # C(N, 'NPar.components', NComponents(), 'C06', h_blocks, theories=TH_BLK, opts=dict(templates=False, frames=False), weight=3),
        C(N, 'NPar.left_complement', NComplement(True), 'C06', **ax),
        C(N, 'NPar.right_complement', NComplement(False), 'C06', **ax),
    ]
