"""Recursive functions (sums, products) and the ground instances of their lemmas.

z3 gets no quantified axiom about a recursive function: before each query the relevant instances of the lemma schemas
below are added as ground facts.  Every schema is itself proved by induction on every run (lemmas.py).

  EV(a,lo,hi)  = sum of a[i]*pw(i) for lo <= i < hi     (pw(i): i-th power of an arbitrary nonzero real)
  SUM(a,lo,hi) = sum of a[i]                            (reals),    SUMI likewise over the integers
"""
from __future__ import annotations
import z3
from .interp import subterms, has_var

I_, R_ = z3.IntSort(), z3.RealSort()
AI, AR = z3.ArraySort(I_, I_), z3.ArraySort(I_, R_)
EV = z3.Function('EV', AR, I_, I_, R_)
SUM = z3.Function('SUM', AR, I_, I_, R_)
SUMI = z3.Function('SUMI', AI, I_, I_, I_)
PW = z3.Function('pw', I_, R_)
PWI = z3.Function('pwi', I_, R_)     # inverse of pw
X, XI = z3.Real('X'), z3.Real('XI')


def linear(e):
    """Integer term -> (const, [(atom, coeff)])."""
    const, atoms = 0, {}

    def go(x, m):
        nonlocal const
        if z3.is_int_value(x):
            const += m * x.as_long()
        elif z3.is_add(x):
            for c in x.children():
                go(c, m)
        elif z3.is_sub(x):
            cs = x.children()
            go(cs[0], m)
            for c in cs[1:]:
                go(c, -m)
        elif x.decl().kind() == z3.Z3_OP_UMINUS:
            go(x.arg(0), -m)
        elif z3.is_mul(x) and x.num_args() == 2 and z3.is_int_value(x.arg(0)):
            go(x.arg(1), m * x.arg(0).as_long())
        elif z3.is_mul(x) and x.num_args() == 2 and z3.is_int_value(x.arg(1)):
            go(x.arg(0), m * x.arg(1).as_long())
        else:
            k = x.get_id()
            if k in atoms:
                atoms[k] = (x, atoms[k][1] + m)
            else:
                atoms[k] = (x, m)
    go(e, 1)
    return const, [(x, m) for x, m in atoms.values() if m]


def lin_key(e):
    c, at = linear(z3.simplify(e))
    return (c, tuple(sorted((a.get_id(), m) for a, m in at)))


def lin_diff(a, b):
    """The constant a-b if it is one, else None."""
    c, at = linear(z3.simplify(a - b))
    return c if not at else None


def powint(base, n):
    r = z3.RealVal(1)
    for _ in range(n):
        r = r * base
    return r


class Sums:
    """Lemma instances for EV / SUM / SUMI and pw."""
    name = 'sums'

    def __init__(self, rounds=3, cap=60, zero=True, congr=True):
        self.rounds, self.cap, self.zero, self.congr = rounds, cap, zero, congr

    def instances(self, facts, goal, rels):
        out = []
        done = set()
        base = [f for f in facts] + [goal]
        self.sk = 0
        self.weights = {}
        relmap = {}
        for r in rels:
            if r[0] in ('map', 'shift', 'cat', 'rev', 'rep', 'filter', 'sorted'):
                if r[0] == 'filter':
                    for a in r[1]:
                        relmap.setdefault(a.get_id(), []).append(r)
                else:
                    relmap.setdefault(r[1].get_id(), []).append(r)
        consts = set()
        for rnd in range(self.rounds):
            terms = {}
            for f in base + out:
                for s in subterms(f):
                    if z3.is_app(s):
                        n = s.decl().name()
                        if n in ('EV', 'SUM', 'SUMI') and s.num_args() == 3:
                            terms[s.get_id()] = s
            tl = [t for t in terms.values() if not self.open(t)]
            new = []

            def add(key, f):
                if key in done:
                    return
                done.add(key)
                if f is not None:
                    new.append(f)
            tl = tl[:self.cap]
            for t in tl:
                self.one(t, relmap, add)
            # pairs on the same array
            groups = {}
            for t in tl:
                groups.setdefault((t.decl().name(), t.arg(0).get_id()), []).append(t)
            for g in groups.values():
                for a in g:
                    for b in g:
                        if a is not b:
                            self.pair(a, b, add)
            if self.congr:
                for i, a in enumerate(tl):
                    for b in tl[i + 1:]:
                        self.congruence(a, b, add)
            if not new:
                break
            out += new
        # powers
        pws = {}
        for f in base + out:
            for s in subterms(f):
                if z3.is_app(s) and s.decl().name() in ('pw', 'pwi') and s.num_args() == 1:
                    pws[s.get_id()] = s
        if pws:
            out.append(X != 0)
            out.append(X * XI == 1)
        atoms = {}
        for s in pws.values():
            if self.open(s):
                continue
            sign = 1 if s.decl().name() == 'pw' else -1
            e = s.arg(0)
            c, at = linear(z3.simplify(e))
            c *= sign
            r = None

            def mulr(y):
                nonlocal r
                r = y if r is None else r * y
            for x, m in at:
                m *= sign
                atoms[x.get_id()] = x
                for _ in range(abs(m)):
                    mulr(PW(x) if m > 0 else PWI(x))
            for _ in range(abs(c)):
                mulr(X if c > 0 else XI)
            if r is None:
                r = z3.RealVal(1)
            if abs(c) <= 8 and not z3.eq(r, s):
                out.append(s == r)
        for x in atoms.values():
            out.append(PW(x) * PWI(x) == 1)
            out.append(PW(x) != 0)
            out.append(PWI(x) != 0)
        return out

    def open(self, t):
        return any(z3.is_var(s) for s in subterms(t))

    def w(self, t, i):
        return PW(i) if t.decl().name() == 'EV' else None

    def el(self, t, a, i):
        v = z3.Select(a, i)
        return v * PW(i) if t.decl().name() == 'EV' else v

    def wit(self):
        self.sk += 1
        return z3.Int(f'w!sum{self.sk}')

    def one(self, t, relmap, add):
        F = t.decl()
        a, lo, hi = t.arg(0), t.arg(1), t.arg(2)
        zero = z3.RealVal(0) if F.range() == R_ else z3.IntVal(0)
        tid = t.get_id()
        add(('empty', tid), z3.Implies(lo >= hi, t == zero))
        if z3.is_store(a):
            b, i, v = a.children()
            d = (v - z3.Select(b, i))
            d = d * PW(i) if F.name() == 'EV' else d
            add(('store', tid), t == F(b, lo, hi) + z3.If(z3.And(lo <= i, i < hi), d, zero))
        elif z3.is_K(a):
            c = a.arg(0)
            if z3.is_rational_value(c) and c.as_fraction() == 0 or z3.is_int_value(c) and c.as_long() == 0:
                add(('k', tid), t == zero)
            elif F.name() != 'EV':
                n = z3.If(hi >= lo, hi - lo, z3.IntVal(0))
                add(('k', tid), t == c * (z3.ToReal(n) if F.range() == R_ else n))
        elif z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
            add(('ite', tid), t == z3.If(a.arg(0), F(a.arg(1), lo, hi), F(a.arg(2), lo, hi)))
        # one-element and unfolding at concrete distance
        d = lin_diff(hi, lo)
        if d is not None and 0 < d <= 4:
            s = None
            for j in range(d):
                e = self.el(t, a, z3.simplify(lo + j))
                s = e if s is None else s + e
            add(('conc', tid), t == s)
        for r in relmap.get(a.get_id(), []):
            if r[0] == 'shift':
                _, N, x, off = r
                u = F(x, z3.simplify(lo + off), z3.simplify(hi + off))
                add(('shift', tid, r[2].get_id()), t == (PWI(off) * u if F.name() == 'EV' else u))
            elif r[0] == 'cat':
                _, N, x, y, na = r
                left = F(x, lo, na)
                right = F(y, z3.IntVal(0), z3.simplify(hi - na))
                right = PW(na) * right if F.name() == 'EV' else right
                add(('cat', tid), z3.Implies(z3.And(lo >= 0, lo <= na, na <= hi), t == left + right))
                add(('catl', tid), z3.Implies(hi <= na, t == F(x, lo, hi)))
            elif r[0] == 'rev' and F.name() != 'EV':
                _, N, x, n = r
                add(('rev', tid), t == F(x, z3.simplify(n - hi), z3.simplify(n - lo)))
            elif r[0] == 'sorted' and F.name() != 'EV':
                _, N, x, n = r
                add(('sorted', tid), z3.Implies(z3.And(lo == 0, hi == n), t == F(x, lo, hi)))
            elif r[0] == 'map':
                _, N, tv, body, n = r
                e = self.evof(F, body, tv, lo, hi)
                if e is not None:
                    add(('map', tid), z3.Implies(z3.And(lo >= 0, hi <= n, lo <= hi), t == e))
            elif r[0] == 'rep' and F.name() != 'EV':
                _, N, x, nl, m, L = r
                mm = z3.ToReal(m) if F.range() == R_ else m
                add(('rep', tid), z3.Implies(z3.And(lo == 0, hi == L), t == mm * F(x, z3.IntVal(0), nl)))
        if self.zero:
            wn = z3.Int(f'w!z{tid}')
            add(('zero', tid), z3.Or(t == zero, z3.And(lo <= wn, wn < hi, z3.Select(a, wn) != zero)))

    def evof(self, F, b, t, lo, hi):
        """Sum of the body b over t in [lo,hi) as a combination of sums over arrays, or None."""
        isR = F.range() == R_
        weighted = F.name() == 'EV'
        zero = z3.RealVal(0) if isR else z3.IntVal(0)

        def free(x):
            return not has_var(x, t)

        def go(b, lo, hi):
            if free(b):
                if (z3.is_rational_value(b) and b.as_fraction() == 0) or (z3.is_int_value(b) and b.as_long() == 0):
                    return zero
                if weighted:
                    return None
                n = z3.If(hi >= lo, hi - lo, z3.IntVal(0))
                return b * (z3.ToReal(n) if isR else n)
            k = b.decl().kind()
            if z3.is_select(b):
                a, i = b.arg(0), b.arg(1)
                if not free(a):
                    return None
                d = z3.simplify(i - t)
                if has_var(d, t):
                    return None
                if not (a.sort() == F.domain(0)):
                    return None
                u = F(a, z3.simplify(lo + d), z3.simplify(hi + d))
                return PWI(d) * u if weighted and not (z3.is_int_value(d) and d.as_long() == 0) else u
            if k == z3.Z3_OP_TO_REAL:
                x = b.arg(0)
                if x.decl().kind() == z3.Z3_OP_ITE:
                    return go(z3.If(x.arg(0), z3.ToReal(x.arg(1)), z3.ToReal(x.arg(2))), lo, hi)
                if z3.is_add(x):
                    return go(z3.Sum([z3.ToReal(c) for c in x.children()]), lo, hi)
                return None
            if z3.is_add(b):
                r = None
                for c in b.children():
                    u = go(c, lo, hi)
                    if u is None:
                        return None
                    r = u if r is None else r + u
                return r
            if z3.is_sub(b):
                cs = [go(c, lo, hi) for c in b.children()]
                if any(c is None for c in cs):
                    return None
                r = cs[0]
                for c in cs[1:]:
                    r = r - c
                return r
            if k == z3.Z3_OP_UMINUS:
                u = go(b.arg(0), lo, hi)
                return None if u is None else -u
            if z3.is_mul(b):
                cs = b.children()
                dep = [c for c in cs if not free(c)]
                if weighted and len(dep) == 2:
                    # a[t]*pw(t) style bodies are not sums of this form
                    return None
                if len(dep) != 1:
                    return None
                u = go(dep[0], lo, hi)
                if u is None:
                    return None
                for c in cs:
                    if free(c):
                        u = c * u
                return u
            if k == z3.Z3_OP_ITE:
                m = self.threshold(b.arg(0), t)
                if m is None:
                    return None
                th, below = m
                mid = z3.If(th < lo, lo, z3.If(th > hi, hi, th))
                first, second = (b.arg(1), b.arg(2)) if below else (b.arg(2), b.arg(1))
                u, v = go(first, lo, mid), go(second, mid, hi)
                if u is None or v is None:
                    return None
                return u + v
            return None
        if F.name() == 'SUM' and z3.is_mul(b):
            # sum of a[t]*pw(t+e): an EV term
            cs = b.children()
            flat = []
            for c in cs:
                flat += c.children() if z3.is_mul(c) else [c]
            pw = [c for c in flat if z3.is_app(c) and c.decl().name() == 'pw']
            se = [c for c in flat if z3.is_select(c) and not free(c)]
            rest = [c for c in flat if c not in pw and c not in se]
            if len(pw) == 1 and len(se) == 1 and all(free(c) for c in rest):
                d = z3.simplify(se[0].arg(1) - t)
                e = z3.simplify(pw[0].arg(0) - se[0].arg(1))
                if not has_var(d, t) and not has_var(e, t) and free(se[0].arg(0)):
                    u = PW(e) * EV(se[0].arg(0), z3.simplify(lo + d), z3.simplify(hi + d))
                    for c in rest:
                        u = c * u
                    return u
        return go(b, lo, hi)

    def threshold(self, c, t):
        """condition on t -> (threshold, True if it holds below it)"""
        if z3.is_not(c):
            r = self.threshold(c.arg(0), t)
            return None if r is None else (r[0], not r[1])
        if c.num_args() == 1 and z3.is_and(c):
            return self.threshold(c.arg(0), t)
        if z3.is_and(c):
            cs = [x for x in c.children() if has_var(x, t)]
            if len(cs) == 1 and False:
                return self.threshold(cs[0], t)
            return None
        k = c.decl().kind()
        if k in (z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_GE):
            l, r = c.arg(0), c.arg(1)
            d = z3.simplify(l - r)
            const, at = linear(d)
            ct = [m for x, m in at if z3.eq(x, t)]
            if not ct or abs(ct[0]) != 1 or any(has_var(x, t) for x, m in at if not z3.eq(x, t)):
                return None
            rest = d - ct[0] * t
            # l - r = s*t + rest
            s = ct[0]
            rest = z3.simplify(rest)
            if k == z3.Z3_OP_LT:      # s t + rest < 0
                return (z3.simplify(-rest), True) if s == 1 else (z3.simplify(rest + 1), False)
            if k == z3.Z3_OP_LE:
                return (z3.simplify(-rest + 1), True) if s == 1 else (z3.simplify(rest), False)
            if k == z3.Z3_OP_GT:
                return (z3.simplify(-rest + 1), False) if s == 1 else (z3.simplify(rest), True)
            if k == z3.Z3_OP_GE:
                return (z3.simplify(-rest), False) if s == 1 else (z3.simplify(rest + 1), True)
        return None

    def pair(self, a, b, add):
        """Two sums over the same array."""
        F = a.decl()
        A = a.arg(0)
        if z3.is_store(A) or z3.is_K(A):
            return
        lo1, hi1, lo2, hi2 = a.arg(1), a.arg(2), b.arg(1), b.arg(2)
        samelo = lin_key(lo1) == lin_key(lo2)
        samehi = lin_key(hi1) == lin_key(hi2)
        if samelo and samehi:
            return
        if samelo:
            d = lin_diff(hi1, hi2)
            if d is not None:
                if 0 < d <= 3:
                    s = b
                    for j in range(d):
                        s = s + self.el(a, A, z3.simplify(hi2 + j))
                    add(('unf', a.get_id(), b.get_id()), z3.Implies(lo2 <= hi2, a == s))
                return
            add(('split', a.get_id(), b.get_id()),
                z3.Implies(z3.And(lo1 <= hi2, hi2 <= hi1), a == b + F(A, hi2, hi1)))
            return
        if samehi:
            d = lin_diff(lo1, lo2)
            if d is not None:
                if -3 <= d < 0:
                    s = b
                    for j in range(-d):
                        s = s + self.el(a, A, z3.simplify(lo1 + j))
                    add(('unfl', a.get_id(), b.get_id()), z3.Implies(lo2 <= hi2, a == s))
                return
            add(('splitl', a.get_id(), b.get_id()),
                z3.Implies(z3.And(lo1 <= lo2, lo2 <= hi1), a == F(A, lo1, lo2) + b))
            return
        # general containment: a covers b
        k = ('splitg', a.get_id(), b.get_id())
        add(k, z3.Implies(z3.And(lo1 <= lo2, lo2 <= hi2, hi2 <= hi1),
                          a == F(A, lo1, lo2) + b + F(A, hi2, hi1)))

    def congruence(self, a, b, add):
        if a.decl().name() != b.decl().name() or z3.eq(a.arg(0), b.arg(0)):
            return
        A, B = a.arg(0), b.arg(0)
        if z3.is_store(A) or z3.is_store(B) or z3.is_K(A) or z3.is_K(B):
            return
        if lin_key(a.arg(1)) != lin_key(b.arg(1)) or lin_key(a.arg(2)) != lin_key(b.arg(2)):
            return
        w = z3.Int(f'w!c{a.get_id()}_{b.get_id()}')
        add(('congr', a.get_id(), b.get_id()),
            z3.Or(a == b, z3.And(a.arg(1) <= w, w < a.arg(2), z3.Select(A, w) != z3.Select(B, w))))
