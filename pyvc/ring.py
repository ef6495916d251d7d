"""Ring back end: decides equations between sums over symbolic sequences by rewriting to a normal form.

An equation is proved when both sides rewrite to the same polynomial.  Every rewrite step is an instance of a lemma about
finite sums (proved by induction in lemmas.py) whose side conditions (order of bounds, equality of indices, pointwise
equality of two sequences on a range) are discharged by z3 from the facts of the obligation:

  S(a,lo,hi)=0 for lo>=hi;  S(a,lo,hi)=S(a,lo,m)+S(a,m,hi) for lo<=m<=hi;  S(a,lo,lo+1)=a[lo]*w(lo);
  S(store(a,i,v),lo,hi)=S(a,lo,hi)+(v-a[i])*w(i) if lo<=i<hi, else S(a,lo,hi);  S of a shifted, concatenated, mapped
  sequence;  S(a,lo,hi)=S(b,lo,hi) for sequences equal on [lo,hi);  w(i+j)=w(i)*w(j).

Equations among the facts are normalised too and used to eliminate one term each (Gaussian elimination).
Nothing here can refute: an equation that does not come out is left to the SMT solver.
"""
from __future__ import annotations
import time
from fractions import Fraction
import z3
from .interp import subterms, has_var, has_quant
from .theory import EV, SUM, SUMI, PW, PWI, X, XI, linear, lin_diff

SUMS = ('EV', 'SUM', 'SUMI')


class Split(Exception):
    def __init__(self, cond):
        self.cond = cond


class GiveUp(Exception):
    pass


def padd(p, q, m=1):
    r = dict(p)
    for k, c in q.items():
        c = r.get(k, 0) + m * c
        if c:
            r[k] = c
        else:
            r.pop(k, None)
    return r


def pmul(p, q):
    r = {}
    for k, c in p.items():
        for l, d in q.items():
            m = dict(k)
            for a, e in l:
                m[a] = m.get(a, 0) + e
            key = tuple(sorted((a, e) for a, e in m.items() if e))
            v = r.get(key, 0) + c * d
            if v:
                r[key] = v
            else:
                r.pop(key, None)
    if len(r) > 4000:
        raise GiveUp()
    return r


def const(c):
    return {(): Fraction(c)} if c else {}


class Fuel:
    """A deterministic budget (steps, not seconds; the wall clock is only a safety net)."""
    def __init__(self, ms):
        self.left = 100 * ms
        self.deadline = time.time() + 20 * ms / 1000.

    def spend(self, k):
        self.left -= k
        if self.left < 0:
            raise GiveUp()
        if time.time() > self.deadline:
            raise GiveUp()

    def empty(self):
        return self.left < 0 or time.time() > self.deadline


def limit(s, ms):
    """Deterministic resource limit of a z3 solver (about ms milliseconds)."""
    s.set('rlimit', 2000 * ms)
    s.set('timeout', 15 * ms)


class Ctx:
    """Decides side conditions from the facts."""
    def __init__(self, facts, fuel):
        self.fuel = fuel
        self.qf, self.full = z3.Solver(), z3.Solver()
        self.memo = {}
        self.keep = []
        self.quant = False
        self.lin = z3.Solver()
        for f in facts:
            if nonlinear(f):
                continue
            if has_quant(f):
                self.quant = True
            else:
                self.qf.add(f)
            self.full.add(f)
        limit(self.qf, 300)
        limit(self.full, 500)
        self.n = 0

    def holds(self, c, full=False):
        if c is True or c is False:
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        key = (c.get_id(), full)
        if key in self.memo:
            return self.memo[key]
        s = self.full if full and self.quant else self.qf
        self.fuel.spend(1000 if s is self.full else 200)
        self.n += 1
        s.push()
        s.add(z3.Not(c))
        r = s.check() == z3.unsat
        s.pop()
        self.keep.append(c)
        self.memo[key] = r
        return r

    def decide(self, c):
        if self.holds(c):
            return True
        if self.holds(z3.Not(c)):
            return False
        return None


def nonlinear(f):
    for s in subterms(f):
        if z3.is_app(s):
            if s.decl().name() in ('EV', 'SUM', 'SUMI', 'pw', 'pwi', 'rpow'):
                return True
            if z3.is_mul(s) and sum(1 for c in s.children() if not (z3.is_int_value(c) or z3.is_rational_value(c))) > 1:
                return True
    return False


class Ring:
    opaque = False      # first attempt: every sum is an atom

    def __init__(self, facts, rels, fuel):
        self.facts, self.rels = facts, rels
        self.fuel = fuel
        self.ctx = Ctx(facts, fuel)
        self.relmap = {}
        for r in rels:
            if r[0] in ('map', 'shift', 'cat', 'rev', 'rep', 'sorted'):
                self.relmap.setdefault(r[1].get_id(), r)
            elif r[0] == 'filter' and len(r[1]) == 1:
                self.relmap.setdefault(r[1][0].get_id(), r)
        self.points = {}       # array id -> sorted list of boundary terms
        self.arrays = {}
        self.atoms = {}
        self.idx = {}          # array id -> list of index terms (representatives)
        self.segs = []         # elementary segments (fn, array, lo, hi, atom)
        self.rules = []        # (atom, poly)
        self.depth = 0
        self.nf_memo = {}
        self.powers = {}       # normal form of the base -> [(exponent, atom)]
        self.base_rules = []   # equations of the facts, applied to bases of powers
        self.exponents = []    # exponents of the powers in the facts

    # ---- atoms
    def atom(self, key, term=None):
        self.atoms.setdefault(key, term)
        return {((key, 1),): Fraction(1)}

    def index(self, a, i):
        """Representative of index i among the indices used with array a."""
        lst = self.idx.setdefault(a.get_id(), [])
        i = z3.simplify(i)
        for j in lst:
            d = lin_diff(i, j)
            if d is not None:
                if d == 0:
                    return j
                continue
            if self.ctx.holds(i == j):
                return j
        lst.append(i)
        return i

    def weight(self, i):
        """pw(i) as a Laurent monomial."""
        i = z3.simplify(i)
        if z3.is_app(i) and i.decl().kind() == z3.Z3_OP_ITE:
            d = self.ctx.decide(i.arg(0))
            if d is None:
                raise Split(i.arg(0))
            return self.weight(i.arg(1) if d else i.arg(2))
        c, at = linear(i)
        m = {}
        for x, k in at:
            if x.decl().kind() == z3.Z3_OP_ITE:
                d = self.ctx.decide(x.arg(0))
                if d is None:
                    raise Split(x.arg(0))
                return self.weight(z3.substitute(i, (x, x.arg(1) if d else x.arg(2))))
            r = self.weight_atom(x)
            m[r] = m.get(r, 0) + k
        if c:
            m[('X',)] = c
        return {tuple(sorted((a, e) for a, e in m.items() if e)): Fraction(1)}

    def weight_atom(self, x):
        return ('pw', x.get_id(), self.hold(x))

    def hold(self, x):
        self.ctx.keep.append(x)
        return str(x)[:40]

    # ---- terms
    def nf(self, t):
        k = t.get_id()
        if k in self.nf_memo:
            return self.nf_memo[k]
        r = self._nf(t)
        self.ctx.keep.append(t)
        self.nf_memo[k] = r
        return r

    def _nf(self, t):
        self.fuel.spend(10)
        if z3.is_rational_value(t):
            return const(t.as_fraction())
        if z3.is_int_value(t):
            return const(t.as_long())
        k = t.decl().kind()
        if z3.is_add(t):
            r = {}
            for c in t.children():
                r = padd(r, self.nf(c))
            return r
        if z3.is_sub(t):
            cs = t.children()
            r = self.nf(cs[0])
            for c in cs[1:]:
                r = padd(r, self.nf(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return padd({}, self.nf(t.arg(0)), -1)
        if z3.is_mul(t):
            r = const(1)
            for c in t.children():
                r = pmul(r, self.nf(c))
            return r
        if k == z3.Z3_OP_POWER and (z3.is_int_value(t.arg(1)) or z3.is_rational_value(t.arg(1))):
            e = t.arg(1).as_long()
            if 0 <= e <= 6:
                r = const(1)
                for _ in range(e):
                    r = pmul(r, self.nf(t.arg(0)))
                return r
        if k == z3.Z3_OP_TO_REAL:
            x = z3.simplify(t.arg(0))
            if z3.is_add(x) or z3.is_mul(x) or z3.is_sub(x) or z3.is_int_value(x) or x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_UMINUS):
                return self.int_nf(x)
            return self.atom(('int', x.get_id()), x)
        if k == z3.Z3_OP_ITE:
            d = self.ctx.decide(t.arg(0))
            if d is None:
                raise Split(t.arg(0))
            return self.nf(t.arg(1) if d else t.arg(2))
        if z3.is_select(t):
            return self.select(t.arg(0), t.arg(1))
        n = t.decl().name()
        if n == 'pw' and t.num_args() == 1:
            return self.weight(t.arg(0))
        if n == 'pwi' and t.num_args() == 1:
            return {tuple((a, -e) for a, e in m): c for m, c in self.weight(t.arg(0)).items()}
        if n in SUMS and t.num_args() == 3:
            return self.summ(n, t.arg(0), t.arg(1), t.arg(2))
        if n == 'rpow' and t.num_args() == 2:
            return self.power(t.arg(0), t.arg(1))
        if z3.eq(t, X):
            return {((('X',), 1),): Fraction(1)}
        if z3.eq(t, XI):
            return {((('X',), -1),): Fraction(1)}
        if z3.is_int(t):
            return self.atom(('int', t.get_id()), t)
        return self.atom(('t', t.get_id()), t)

    def power(self, b, e):
        e = z3.simplify(e)
        if self.ctx.holds(e == 0):
            return const(1)
        if self.ctx.holds(e == 1):
            return self.nf(b)
        p = self.nf(b)
        for atom, q in self.base_rules:
            if any(a == atom for m in p for a, _ in m):
                p = self.subst(p, atom, q)
        if len(p) == 1:
            (m, c), = p.items()
            if c in (1, -1) and all(a[0] in ('X', 'pw') for a, _ in m):      # a unit: x^e = (x^-1)^-e
                inv = tuple((a, -k) for a, k in m)
                if inv < m:
                    p, e = {inv: c}, z3.simplify(-e)
        key = tuple(sorted(p.items()))
        known = self.powers.setdefault(key, [])
        for f, at in known:
            if self.ctx.holds(f == e):
                return self.atom(at)
        for f in self.exponents:
            if self.ctx.holds(z3.And(e >= 2, f == e / 2)):
                c = e % 2 == 0
                d = self.ctx.decide(c)
                if d is None:
                    raise Split(c)
                h = self.power(b, f)
                r = pmul(h, h)
                return r if d else pmul(r, p)
        at = ('rpow', len(self.powers), len(known), f'rpow({str(b)[:20]},{e})')
        known.append((e, at))
        return self.atom(at)

    def int_nf(self, x):
        if z3.is_int_value(x):
            return const(x.as_long())
        if z3.is_add(x):
            r = {}
            for c in x.children():
                r = padd(r, self.int_nf(c))
            return r
        if z3.is_mul(x):
            r = const(1)
            for c in x.children():
                r = pmul(r, self.int_nf(c))
            return r
        return self.nf(x)

    def select(self, a, i):
        if z3.is_store(a):
            b, j, v = a.children()
            d = self.ctx.decide(i == j)
            if d is None:
                raise Split(i == j)
            return self.nf(v) if d else self.select(b, i)
        if z3.is_K(a):
            return self.nf(a.arg(0))
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
            d = self.ctx.decide(a.arg(0))
            if d is None:
                raise Split(a.arg(0))
            return self.select(a.arg(1) if d else a.arg(2), i)
        r = self.relmap.get(a.get_id())
        if r is not None:
            if r[0] == 'shift':
                return self.select(r[2], z3.simplify(i + r[3]))
            if r[0] == 'rev':
                return self.select(r[2], z3.simplify(r[3] - 1 - i))
            if r[0] == 'cat':
                d = self.ctx.decide(i < r[4])
                if d is None:
                    raise Split(i < r[4])
                return self.select(r[2], i) if d else self.select(r[3], z3.simplify(i - r[4]))
            if r[0] == 'map':
                if self.ctx.holds(z3.And(i >= 0, i < r[4])):
                    return self.nf(z3.substitute(r[3], (r[2], i)))
        j = self.index(a, i)
        self.ctx.keep.append(a)
        return self.atom(('sel', a.get_id(), j.get_id(), str(a)[:20] + '[' + str(j)[:20] + ']'), z3.Select(a, j))

    # ---- sums
    def lt(self, a, b):
        return self.ctx.holds(a <= b)

    def summ(self, F, a, lo, hi):
        lo, hi = z3.simplify(lo), z3.simplify(hi)
        if self.opaque:
            d = lin_diff(hi, lo)
            if d is not None and d <= 0:
                return {}
            for (G, b, l, h, atom) in self.segs:
                if G == F and z3.eq(a, b) and z3.eq(l, lo) and z3.eq(h, hi):
                    return self.atom(atom)
            atom = ('seg', F, len(self.segs), f'{F}({str(a)[:20]},{lo},{hi})')
            self.segs.append((F, a, lo, hi, atom))
            self.ctx.keep.append(a)
            return self.atom(atom)
        if self.ctx.holds(lo >= hi):
            return {}
        if not self.ctx.holds(lo <= hi):
            raise Split(lo <= hi)
        self.depth += 1
        if self.depth > 60:
            raise GiveUp()
        try:
            return self._summ(F, a, lo, hi)
        finally:
            self.depth -= 1

    def _summ(self, F, a, lo, hi):
        if z3.is_store(a):
            b, i, v = a.children()
            c = z3.And(lo <= i, i < hi)
            d = self.ctx.decide(c)
            if d is None:
                raise Split(c)
            r = self.summ(F, b, lo, hi)
            if d:
                e = padd(self.nf(v), self.select(b, i), -1)
                r = padd(r, pmul(e, self.weight(i)) if F == 'EV' else e)
            return r
        if z3.is_K(a):
            c = a.arg(0)
            v = self.nf(c)
            if not v:
                return {}
            if F != 'EV':
                return pmul(v, self.int_nf(z3.simplify(hi - lo)))
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
            d = self.ctx.decide(a.arg(0))
            if d is None:
                raise Split(a.arg(0))
            return self.summ(F, a.arg(1) if d else a.arg(2), lo, hi)
        r = self.relmap.get(a.get_id())
        if r is not None:
            if r[0] == 'shift':
                _, N, x, off = r
                p = self.summ(F, x, z3.simplify(lo + off), z3.simplify(hi + off))
                if F == 'EV':
                    p = pmul(p, self.weight(z3.simplify(-off)))
                return p
            if r[0] == 'cat':
                _, N, x, y, na = r
                if self.lt(hi, na):
                    return self.summ(F, x, lo, hi)
                if self.lt(na, lo):
                    p = self.summ(F, y, z3.simplify(lo - na), z3.simplify(hi - na))
                    return pmul(p, self.weight(na)) if F == 'EV' else p
                if self.lt(lo, na) and self.lt(na, hi):
                    p = self.summ(F, y, z3.IntVal(0), z3.simplify(hi - na))
                    p = pmul(p, self.weight(na)) if F == 'EV' else p
                    return padd(self.summ(F, x, lo, na), p)
                raise Split(hi <= na if not self.ctx.holds(hi > na) else na <= lo)
            if r[0] == 'rev' and F != 'EV':
                _, N, x, n = r
                return self.summ(F, x, z3.simplify(n - hi), z3.simplify(n - lo))
            if r[0] == 'sorted' and F != 'EV':
                _, N, x, n = r
                if self.ctx.holds(z3.And(lo == 0, hi == n)):
                    return self.summ(F, x, lo, hi)
            if r[0] == 'map':
                _, N, tv, body, n = r
                if self.ctx.holds(z3.And(lo >= 0, hi <= n)):
                    p = self.sum_body(F, body, tv, lo, hi)
                    if p is not None:
                        return p
            if r[0] == 'filter' and F != 'EV':
                _, res, m, ix, rank, tv, n, keep, el = r
                if self.ctx.holds(z3.And(lo == 0, hi == m)):
                    v = el[0] if isinstance(el, (list, tuple)) else el
                    zero = z3.RealVal(0) if v.sort() == z3.RealSort() else z3.IntVal(0)
                    p = self.sum_body(F, z3.If(keep, v, zero), tv, z3.IntVal(0), n)
                    if p is not None:
                        return p
            if r[0] == 'rep' and F != 'EV':
                _, N, x, nl, m, L = r
                if self.ctx.holds(z3.And(lo == 0, hi == L)):
                    return pmul(self.int_nf(m), self.summ(F, x, z3.IntVal(0), nl))
        d = lin_diff(hi, lo)
        if d is not None and 0 < d <= 6:
            return self.elements(F, a, lo, d)
        # zero on the whole range?
        if self.zero_on(a, lo, hi):
            return {}
        return self.segments(F, a, lo, hi)

    def elements(self, F, a, lo, d):
        p = {}
        for j in range(d):
            i = z3.simplify(lo + j)
            e = self.select(a, i)
            p = padd(p, pmul(e, self.weight(i)) if F == 'EV' else e)
        return p

    def zero_on(self, a, lo, hi):
        if not self.ctx.quant:
            return False
        w = z3.FreshConst(z3.IntSort(), 'w')
        return self.ctx.holds(z3.Implies(z3.And(lo <= w, w < hi), z3.Select(a, w) == 0), full=True)

    def segments(self, F, a, lo, hi):
        pts = self.points.setdefault(a.get_id(), [])
        self.ctx.keep.append(a)
        lo = self.point(a, pts, lo)
        hi = self.point(a, pts, hi)
        p = {}
        i, j = pts.index(lo), pts.index(hi)
        if i > j:
            raise GiveUp()
        for k in range(i, j):
            p = padd(p, self.segment(F, a, pts[k], pts[k + 1]))
        return p

    def point(self, a, pts, x):
        for i, q in enumerate(pts):
            d = lin_diff(x, q)
            if d == 0 or (d is None and self.ctx.holds(x == q)):
                return q
        for i, q in enumerate(pts):
            if self.ctx.holds(x <= q):
                pts.insert(i, x)
                if i > 0 and not self.ctx.holds(pts[i - 1] <= x):
                    raise GiveUp()
                raise Again() if len(pts) > 2 else Again()
            if not self.ctx.holds(q <= x):
                raise Split(q <= x)
        pts.append(x)
        raise Again()

    def segment(self, F, a, lo, hi):
        d = lin_diff(hi, lo)
        if d is not None and 0 < d <= 6:
            return self.elements(F, a, lo, d)
        if self.zero_on(a, lo, hi):
            return {}
        for (G, b, l, h, atom) in self.segs:
            if G == F and z3.eq(a, b) and z3.eq(l, lo) and z3.eq(h, hi):
                return self.atom(atom)
        # an equal sequence seen before
        if self.ctx.quant:
            for (G, b, l, h, atom) in self.segs:
                if G == F and not z3.eq(a, b) and b.sort() == a.sort() and self.ctx.holds(z3.And(l == lo, h == hi)):
                    w = z3.FreshConst(z3.IntSort(), 'w')
                    if self.ctx.holds(z3.Implies(z3.And(lo <= w, w < hi), z3.Select(a, w) == z3.Select(b, w)), full=True):
                        self.segs.append((F, a, lo, hi, atom))
                        return self.atom(atom)
        atom = ('seg', F, len(self.segs), f'{F}({str(a)[:20]},{lo},{hi})')
        self.segs.append((F, a, lo, hi, atom))
        return self.atom(atom)

    def sum_body(self, F, b, t, lo, hi):
        """Sum of the body b over t in [lo,hi)."""
        free = lambda x: not has_var(x, t)
        b = z3.simplify(b)
        if free(b):
            v = self.nf(b)
            if not v:
                return {}
            if F == 'EV':
                return None
            return pmul(v, self.int_nf(z3.simplify(hi - lo)))
        k = b.decl().kind()
        if z3.is_select(b):
            a, i = b.arg(0), b.arg(1)
            if not free(a):
                return None
            d = z3.simplify(i - t)
            if has_var(d, t):
                return None
            Fn = F
            if a.sort().range() == z3.IntSort() and F == 'SUM':
                Fn = 'SUMI'
            p = self.summ(Fn, a, z3.simplify(lo + d), z3.simplify(hi + d))
            return pmul(p, self.weight(z3.simplify(-d))) if F == 'EV' else p
        if k == z3.Z3_OP_TO_REAL:
            return self.sum_body(F, b.arg(0), t, lo, hi) if F != 'EV' else None
        if z3.is_add(b) or z3.is_sub(b):
            r = {}
            for n, c in enumerate(b.children()):
                u = self.sum_body(F, c, t, lo, hi)
                if u is None:
                    return None
                r = padd(r, u, -1 if n and z3.is_sub(b) else 1)
            return r
        if k == z3.Z3_OP_UMINUS:
            u = self.sum_body(F, b.arg(0), t, lo, hi)
            return None if u is None else padd({}, u, -1)
        if z3.is_mul(b):
            cs = b.children()
            dep = [c for c in cs if not free(c)]
            if len(dep) == 2 and F == 'SUM':
                pw = [c for c in dep if z3.is_app(c) and c.decl().name() == 'pw']
                se = [c for c in dep if z3.is_select(c)]
                if len(pw) == 1 and len(se) == 1 and free(se[0].arg(0)):
                    d = z3.simplify(se[0].arg(1) - t)
                    e = z3.simplify(pw[0].arg(0) - se[0].arg(1))
                    if not has_var(d, t) and not has_var(e, t):
                        u = pmul(self.weight(e), self.summ('EV', se[0].arg(0), z3.simplify(lo + d), z3.simplify(hi + d)))
                        for c in cs:
                            if free(c):
                                u = pmul(u, self.nf(c))
                        return u
            if len(dep) != 1:
                return None
            u = self.sum_body(F, dep[0], t, lo, hi)
            if u is None:
                return None
            for c in cs:
                if free(c):
                    u = pmul(u, self.nf(c))
            return u
        if k == z3.Z3_OP_ITE:
            from .theory import Sums
            w = z3.FreshConst(z3.IntSort(), 'w')
            at = lambda x: z3.substitute(x, (t, w))
            c1, th1, el1 = at(b.arg(0)), at(b.arg(1)), at(b.arg(2))
            rng = z3.And(lo <= w, w < hi)
            for keep, cond in ((b.arg(1), z3.Not(c1)), (b.arg(2), c1)):
                if self.ctx.holds(z3.Implies(z3.And(rng, cond), th1 == el1)):
                    return self.sum_body(F, keep, t, lo, hi)
            m = Sums().threshold(b.arg(0), t)
            if m is None:
                return None
            th, below = m
            first, second = (b.arg(1), b.arg(2)) if below else (b.arg(2), b.arg(1))
            if self.lt(th, lo):
                return self.sum_body(F, second, t, lo, hi)
            if self.lt(hi, th):
                return self.sum_body(F, first, t, lo, hi)
            if not (self.lt(lo, th) and self.lt(th, hi)):
                raise Split(th <= lo if not self.ctx.holds(th > lo) else th <= hi)
            u, v = self.sum_body(F, first, t, lo, th), self.sum_body(F, second, t, th, hi)
            if u is None or v is None:
                return None
            return padd(u, v)
        return None

    # ---- equations
    def reduce(self, p):
        for _ in range(200):
            for atom, q in self.rules:
                if any(a == atom for m in p for a, e in m):
                    p = self.subst(p, atom, q)
                    break
            else:
                return p
        raise GiveUp()

    def subst(self, p, atom, q):
        r = {}
        for m, c in p.items():
            e = dict(m).get(atom, 0)
            if e < 0:
                raise GiveUp()
            rest = {tuple((a, k) for a, k in m if a != atom): c}
            for _ in range(e):
                rest = pmul(rest, q)
            r = padd(r, rest)
        return r

    def add_equation(self, p):
        p = self.reduce(p)
        if not p:
            return
        cands = {}
        for m, c in p.items():
            live = [(a, e) for a, e in m if a[0] not in ('X', 'pw')]
            if len(live) == 1 and live[0][1] == 1:
                a = live[0][0]
                if all(a not in dict(m2) for m2 in p if m2 != m):
                    cands[a] = (m, c)
        if not cands:
            return
        rank = lambda a: (0 if a[0] == 'seg' else 1 if a[0] == 'sel' else 2, -(a[2] if a[0] == 'seg' else 0))
        a = min(cands, key=rank)
        m, c = cands[a]
        inv = {tuple((b, -e) for b, e in m if b != a): Fraction(-1) / c}
        rest = {k: v for k, v in p.items() if k != m}
        self.rules.append((a, pmul(rest, inv)))
        self.rules = [(b, self.subst(q, a, self.rules[-1][1]) if b != a else q) for b, q in self.rules]


class Again(Exception):
    pass


def solve_ints(facts, goal, rels, protect=()):
    """Eliminate integer (and array) constants determined by an equation among the facts."""
    facts = list(facts)
    for _ in range(60):
        sub = None
        for f in facts:
            sub = int_equation(f)
            if sub is not None:
                break
        if sub is None:
            sub = tight(facts)
            if sub is None:
                return facts, goal, rels
        x, e = sub
        S = lambda t: z3.substitute(t, (x, e))
        nf = []
        for f in facts:
            g = S(f) if has_var_fast(f, x) else f
            if g is not f and not has_quant(g):
                g = z3.simplify(g) if not nonlinear(g) else g
                if z3.is_true(g):
                    continue
            nf.append(g)
        facts = nf
        goal = S(goal)
        rels = [tuple(S(y) if isinstance(y, z3.ExprRef) else [S(z) if isinstance(z, z3.ExprRef) else z for z in y] if isinstance(y, (list, tuple)) else y
                      for y in r) for r in rels]
    return facts, goal, rels


def has_var_fast(f, x):
    i = x.get_id()
    return any(s.get_id() == i for s in all_subterms(f))


def all_subterms(f):
    stack, seen = [f], set()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        yield x
        if z3.is_quantifier(x):
            stack.append(x.body())
        else:
            stack.extend(x.children())


def int_equation(f):
    if not z3.is_eq(f):
        return None
    l, r = f.arg(0), f.arg(1)
    if l.sort().kind() == z3.Z3_ARRAY_SORT:
        for x, e in ((l, r), (r, l)):
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not has_var_fast(e, x):
                return x, e
        return None
    if not z3.is_int(l):
        return None
    return orient(l - r)


def orient(diff):
    diff = z3.simplify(diff)
    c, at = linear(diff)
    for x, m in at:
        if abs(m) == 1 and z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            rest = z3.simplify((diff - m * x) * (-m))
            if not has_var_fast(rest, x):
                return x, rest
    return None


def tight(facts):
    """e <= 0 and -e <= 0 both among the facts."""
    seen = {}
    for f in facts:
        g, negd = (f.arg(0), True) if z3.is_not(f) else (f, False)
        if not z3.is_app(g) or g.num_args() != 2 or not z3.is_int(g.arg(0)):
            continue
        k = g.decl().kind()
        l, r = g.arg(0), g.arg(1)
        if k == z3.Z3_OP_LE:
            d = (l - r) if not negd else (r - l + 1)
        elif k == z3.Z3_OP_GE:
            d = (r - l) if not negd else (l - r + 1)
        elif k == z3.Z3_OP_LT:
            d = (l - r + 1) if not negd else (r - l)
        elif k == z3.Z3_OP_GT:
            d = (r - l + 1) if not negd else (l - r)
        else:
            continue
        d = z3.simplify(d)
        c, at = linear(d)
        key = (c, tuple(sorted((x.get_id(), m) for x, m in at)))
        seen[key] = d
        opp = (-c, tuple(sorted((x.get_id(), -m) for x, m in at)))
        if opp in seen and at:
            r = orient(d)
            if r is not None:
                return r
    return None


def prove_opaque(facts, goal, fuel):
    """The equation follows from the equations among the facts with every sum taken as an atom."""
    R = Ring(facts, [], fuel)
    R.opaque = True
    try:
        polys = [padd(R.nf(e.arg(0)), R.nf(e.arg(1)), -1)
                 for e in facts if z3.is_eq(e) and not has_quant(e) and z3.is_real(e.arg(0))]
        gp = padd(R.nf(goal.arg(0)), R.nf(goal.arg(1)), -1)
        for p in polys:
            R.add_equation(p)
        return not R.reduce(gp)
    except (Again, GiveUp, Split):
        return False


def prove_ring(facts, goal, rels, fuel, depth=0):
    """True if the equation goal follows."""
    if not z3.is_eq(goal) or not (z3.is_real(goal.arg(0)) or z3.is_int(goal.arg(0))):
        return False
    facts, goal, rels = solve_ints(facts, goal, rels)
    g = goal
    if not z3.is_eq(g):
        return z3.is_true(z3.simplify(g))
    if depth == 0 and prove_opaque(facts, g, Fuel(300)):
        return True
    R = Ring(facts, rels, fuel)
    if R.ctx.qf.check() == z3.unsat:
        return True
    for f in facts + [g]:
        for s in subterms(f):
            if z3.is_app(s) and s.decl().name() == 'rpow' and all(not z3.eq(s.arg(1), e) for e in R.exponents):
                R.exponents.append(s.arg(1))
    eqs = [f for f in facts if z3.is_eq(f) and not has_quant(f) and z3.is_real(f.arg(0))]
    for _ in range(40):
        try:
            R.rules, R.nf_memo, R.powers = [], {}, {}
            if not R.base_rules:
                R.segs, R.idx = [], {}
            polys = []
            gp = padd(R.nf(g.arg(0)), R.nf(g.arg(1)), -1)
            for e in eqs:
                polys.append(padd(R.nf(e.arg(0)), R.nf(e.arg(1)), -1))
            for p in polys:
                R.add_equation(p)
            gp = R.reduce(gp)
            if gp and R.exponents and not R.base_rules and R.rules:
                R.base_rules = [(a, q) for a, q in R.rules if a[0] != 'rpow' and not any(b[0] == 'rpow' for m in q for b, _ in m)]
                R.nf_memo, R.powers = {}, {}
                if R.base_rules:
                    raise Again()
            if DEBUG and gp:
                print('   ring residue:', {tuple((a[-1], e) for a, e in m): str(c) for m, c in list(gp.items())[:8]})
                for a, q in R.rules:
                    print('      rule', a[-1], '->', {tuple((b[-1], e) for b, e in m): str(c) for m, c in list(q.items())[:8]})
            return not gp
        except Again:
            continue
        except GiveUp:
            if DEBUG:
                print('   ring gives up', R.ctx.n)
            return False
        except Split as s:
            if depth >= 7 or fuel.empty():
                if DEBUG:
                    print('   ring split too deep', s.cond)
                return False
            c = s.cond
            for f in (c, z3.Not(c)):
                fs = facts + ([x for x in f.children()] if z3.is_and(f) else [f])
                if not prove_ring(fs, g, rels, fuel, depth + 1):
                    return False
            return True
    return False


DEBUG = False
