"""Word back end: decides equations between products in the braid group (and in monoids of the same shape).

The terms are over an uninterpreted sort Braid.  Both sides of an equation are rewritten to a reduced word of a free
group over letters, powers of the Garside element, products over segments of sequences, powers and opaque elements; they
are equal when the words are.  The rewrite steps are instances of
  - the group axioms, D^0 = 1, D^a D^b = D^(a+b),
  - product over [lo,hi) of a sequence: empty, one element, split, stored element, shifted / concatenated / mapped /
    reversed / repeated sequence, sequences equal on the range (all proved by induction in lemmas.py),
  - the defining properties of a Garside table (specs/garside.py), all as expansions:
        L(id) = 1, L(D) = D, L(renorm2(x,y)) = L(renorm1(x,y))^-1 L(x) L(y), L(tau_k(x)) = D^-k L(x) D^k,
        L(left_comp x) = D L(x)^-1, L(right_comp x) = L(x)^-1 D.
Equations among the facts eliminate one atom each.  Side conditions go to z3.  Nothing here refutes.

Predicates about the left divisibility order (LOW, see specs/garside.py) are handled by prove_low.
"""
from __future__ import annotations
import z3
from .interp import subterms, has_var, has_quant
from .theory import linear, lin_diff
from .ring import all_subterms, Ctx, Fuel, Split, GiveUp, Again, solve_ints, limit

I_ = z3.IntSort()
AI = z3.ArraySort(I_, I_)
B = z3.DeclareSort('Braid')
MUL = z3.Function('bmul', B, B, B)
ONE = z3.Const('bone', B)
INV = z3.Function('binv', B, B)
POW = z3.Function('bpow', B, I_, B)

FUNCS = {}           # the functions by name
PRODUCTS = {}        # function name -> (number of arrays, element(n, values) -> Braid term)
LETTERS = {}         # function name -> rewrite(R, n, x) -> Braid term or None (expansion of a letter)
DELTAS = set()       # names of functions (n, k): k-th power of the Garside element
POSITIVE = set()     # product functions whose elements are divisors of the Garside element
LOWS = {}            # LOW predicate name -> dict(r1=name of renorm1, let=letter function, pr=product function)
EXPAND = {}          # other function names -> rewrite(R, *args) -> Braid term
WORDS = {}           # array function name -> (letters, exponents, length, letter): words for the divisors


def mul(*gs):
    r = None
    for g in gs:
        r = g if r is None else MUL(r, g)
    return ONE if r is None else r


def inverse(w):
    return tuple(inv_item(x) for x in reversed(w))


def inv_item(x):
    k = x[0]
    if k == 'D':
        return ('D', x[1], z3.simplify(-x[2]))
    if k == 'P':
        return ('P', x[1], z3.simplify(-x[2]))
    return (k, x[1], -x[2])


class Words:
    def __init__(self, facts, rels, fuel, cutshort=False):
        self.facts, self.rels, self.fuel = facts, rels, fuel
        self.plain = [f for f in facts if not braidy(f)] + [g for f in facts if braidy(f) for g in plain_parts(f)]
        self.ctx = Ctx(self.plain, fuel)
        self.relmap = {}
        for r in rels:
            if r[0] in ('map', 'shift', 'cat', 'rev', 'rep', 'flat'):
                self.relmap.setdefault(r[1].get_id(), r)
        self.points = {}
        self.keep = []
        self.ns = []        # strand counts, up to equality
        self.cutshort = cutshort
        self.start()

    def start(self):
        self.lets = []      # known letter terms: (fname, term)
        self.segs = []      # (key, refs, lo, hi)
        self.opq = []
        self.memo = {}
        self.rules = []     # (atom, word)
        self.depth = 0

    def strands(self, n):
        for i, m in enumerate(self.ns):
            if z3.eq(m, n) or self.same(m, n) or self.ctx.holds(m == n, full=True):
                return i
        self.ns.append(n)
        return len(self.ns) - 1

    # ---- integer terms
    def it(self, x):
        x = z3.simplify(x)
        return self.resolve(x)

    def resolve(self, x):
        """Resolve reads through stores and derived sequences; split on if-then-else."""
        if z3.is_int_value(x) or z3.is_const(x):
            return x
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            d = self.ctx.decide(x.arg(0))
            if d is None:
                raise Split(x.arg(0))
            return self.resolve(x.arg(1) if d else x.arg(2))
        if z3.is_select(x):
            return self.select(x.arg(0), self.resolve(x.arg(1)))
        if z3.is_app(x) and x.num_args():
            ch = [self.resolve(c) if z3.is_int(c) else c for c in x.children()]
            y = x.decl()(*ch) if not (z3.is_add(x) or z3.is_mul(x)) else (sum(ch[1:], ch[0]) if z3.is_add(x) else prod(ch))
            return z3.simplify(y)
        return x

    def select(self, a, i):
        self.fuel.spend(5)
        if z3.is_store(a):
            b, j, v = a.children()
            d = self.ctx.decide(i == j)
            if d is None:
                raise Split(i == j)
            return self.resolve(z3.simplify(v)) if d else self.select(b, i)
        if z3.is_K(a):
            return self.resolve(a.arg(0))
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
            d = self.ctx.decide(a.arg(0))
            if d is None:
                raise Split(a.arg(0))
            return self.select(a.arg(1) if d else a.arg(2), i)
        r = self.relmap.get(a.get_id())
        if r is not None:
            if r[0] == 'shift':
                return self.select(r[2], z3.simplify(i + r[3]))
            if r[0] == 'rev':
                return self.select(r[2], z3.simplify(r[3] - 1 - i))
            if r[0] == 'cat':
                d = self.ctx.decide(i < r[4])
                if d is None:
                    raise Split(i < r[4])
                return self.select(r[2], i) if d else self.select(r[3], z3.simplify(i - r[4]))
            if r[0] == 'map' and self.ctx.holds(z3.And(i >= 0, i < r[4])):
                return self.resolve(z3.simplify(z3.substitute(r[3], (r[2], i))))
        self.keep.append(a)
        return z3.Select(a, i)

    def same(self, x, y):
        d = lin_diff(x, y)
        if d is not None:
            return d == 0
        return self.ctx.holds(x == y)

    # ---- words
    def nf(self, t):
        k = t.get_id()
        if k not in self.memo:
            self.keep.append(t)
            self.memo[k] = self.reduce(self._nf(t))
        return self.memo[k]

    def _nf(self, t):
        self.fuel.spend(10)
        n = t.decl().name()
        if z3.eq(t, ONE):
            return ()
        if n == 'bmul':
            return self.nf(t.arg(0)) + self.nf(t.arg(1))
        if n == 'binv':
            return inverse(self.nf(t.arg(0)))
        if n == 'bpow':
            return self.power(self.nf(t.arg(0)), self.it(t.arg(1)))
        if t.decl().kind() == z3.Z3_OP_ITE:
            d = self.ctx.decide(t.arg(0))
            if d is None:
                raise Split(t.arg(0))
            return self.nf(t.arg(1) if d else t.arg(2))
        if n in DELTAS:
            e = self.it(t.arg(1))
            return (('D', (n, self.strands(self.it(t.arg(0)))), e),)
        if n in LETTERS:
            x = self.it(t.arg(1))
            s = self.it(t.arg(0))
            r = LETTERS[n](self, s, x)
            if r is not None:
                return self.nf(r)
            nm = (n, self.strands(s))
            for i, (m, y) in enumerate(self.lets):
                if m == nm and (z3.eq(x, y) or self.same(x, y)):
                    return (('L', i, 1),)
            self.lets.append((nm, x))
            return (('L', len(self.lets) - 1, 1),)
        if n in PRODUCTS:
            na = PRODUCTS[n][0]
            ch = t.children()
            refs = tuple((a, 1, z3.IntVal(0)) for a in ch[1:1 + na])
            return self.segment(n, self.it(ch[0]), refs, self.it(ch[1 + na]), self.it(ch[2 + na]))
        if n in EXPAND:
            r = EXPAND[n](self, *t.children())
            if r is not None:
                return self.nf(r)
        for i, q in enumerate(self.opq):
            if z3.eq(q, t) or (q.decl().eq(t.decl()) and t.num_args() and all(
                    z3.eq(a, b) or (z3.is_int(a) and self.same(self.it(a), self.it(b))) for a, b in zip(t.children(), q.children()))):
                return (('A', i, 1),)
        self.opq.append(t)
        return (('A', len(self.opq) - 1, 1),)

    def power(self, w, e):
        if self.same(e, z3.IntVal(0)) or not w:
            return ()
        c = None
        if z3.is_int_value(e):
            c = e.as_long()
            if 0 < c <= 6:
                return w * c
            if -6 <= c < 0:
                return inverse(w) * -c
        if len(w) == 1 and w[0][0] == 'D':
            return (('D', w[0][1], z3.simplify(w[0][2] * e)),) if z3.is_int_value(w[0][2]) or c is not None else (('P', w, e),)
        if len(w) == 1 and w[0][0] == 'P':
            return (('P', w[0][1], z3.simplify(w[0][2] * e)),)
        # a repeated word
        for p in range(1, len(w) // 2 + 1):
            if len(w) % p == 0 and all(self.item_eq(w[i], w[i % p]) for i in range(len(w))):
                return self.power(w[:p], z3.simplify(e * (len(w) // p)))
        if len(w) == 1 and w[0][2] == -1:
            return (('P', inverse(w), z3.simplify(-e)),)
        return (('P', w, e),)

    def item_eq(self, x, y):
        if x[0] != y[0]:
            return False
        if x[0] == 'D':
            return x[1] == y[1] and self.same(x[2], y[2])
        if x[0] == 'P':
            return self.word_eq(x[1], y[1]) and self.same(x[2], y[2])
        return x[1] == y[1] and x[2] == y[2]

    def word_eq(self, u, v):
        return len(u) == len(v) and all(self.item_eq(a, b) for a, b in zip(u, v))

    def reduce(self, w):
        """Free reduction, merging of powers."""
        out = []
        stack = list(reversed(w))
        while stack:
            x = stack.pop()
            self.fuel.spend(3)
            if x[0] in ('D', 'P') and z3.is_int_value(x[2]) and x[2].as_long() == 0:
                continue
            if x[0] == 'D' and not z3.is_int_value(x[2]) and self.ctx.holds(x[2] == 0):
                continue
            if out:
                y = out[-1]
                if x[0] == y[0] == 'D' and x[1] == y[1]:
                    out.pop()
                    stack.append(('D', x[1], z3.simplify(x[2] + y[2])))
                    continue
                if x[0] == y[0] == 'P' and self.word_eq(x[1], y[1]):
                    out.pop()
                    e = z3.simplify(x[2] + y[2])
                    stack.extend(reversed(self.power(x[1], e)))
                    continue
                if x[0] == y[0] == 'P' and self.word_eq(inverse(x[1]), y[1]):
                    out.pop()
                    stack.extend(reversed(self.power(y[1], z3.simplify(y[2] - x[2]))))
                    continue
                if x[0] == y[0] and x[0] not in ('D', 'P') and x[1] == y[1] and x[2] == -y[2]:
                    out.pop()
                    continue
                if y[0] == 'P':
                    # w^e followed by the beginning of w: taken in when all of w follows
                    b = y[1]
                    nxt = [x] + list(reversed(stack))[:len(b) - 1]
                    for s, bb in ((1, b), (-1, inverse(b))):
                        if len(nxt) == len(b) and self.word_eq(tuple(nxt), bb):
                            for _ in range(len(b) - 1):
                                stack.pop()
                            out.pop()
                            stack.extend(reversed(self.power(b, z3.simplify(y[2] + s))))
                            break
                    else:
                        out.append(x)
                    continue
            if x[0] == 'P':
                b = x[1]
                hit = False
                for s, bb in ((1, b), (-1, inverse(b))):
                    if len(out) >= len(b) and self.word_eq(tuple(out[-len(b):]), bb):
                        del out[-len(b):]
                        stack.extend(reversed(self.power(b, z3.simplify(x[2] + s))))
                        hit = True
                        break
                if hit:
                    continue
            out.append(x)
        return tuple(out)

    # ---- products over segments
    def at(self, ref, t):
        a, s, o = ref
        return self.select(a, self.resolve(z3.simplify(s * t + o)))

    def element(self, f, n, refs, t):
        return self.nf(PRODUCTS[f][1](n, [self.at(r, t) for r in refs]))

    def segment(self, f, n, refs, lo, hi):
        w = self.whole(f, n, refs, lo, hi)
        if w is not None:
            return w
        if self.ctx.holds(lo >= hi):
            return ()
        if not (self.ctx.holds(lo <= hi) or self.ctx.holds(lo <= hi, full=True)):
            raise Split(lo <= hi)
        self.depth += 1
        if self.depth > 80:
            raise GiveUp()
        try:
            return self._segment(f, n, refs, lo, hi)
        finally:
            self.depth -= 1

    def cut(self, f, n, refs, lo, m, hi):
        return self.segment(f, n, refs, lo, z3.simplify(m)) + self.segment(f, n, refs, z3.simplify(m), hi)

    def _segment(self, f, n, refs, lo, hi):
        d = None if self.cutshort else lin_diff(hi, lo)
        if d is not None and 0 < d <= 4:
            r = ()
            for j in range(d):
                r += self.element(f, n, refs, z3.simplify(lo + j))
            return r
        for q, (a, s, o) in enumerate(refs):
            new = lambda *r: refs[:q] + (r,) + refs[q + 1:]
            if z3.is_select(a):
                b = self.select(a.arg(0), self.resolve(a.arg(1)))
                if not z3.eq(a, b):
                    return self.segment(f, n, new(b, s, o), lo, hi)
            if z3.is_store(a):
                b, j, v = a.children()
                t = z3.simplify((j - o) * s)
                c = z3.And(lo <= t, t < hi)
                dec = self.ctx.decide(c)
                if dec is None:
                    raise Split(c)
                if not dec:
                    return self.segment(f, n, new(b, s, o), lo, hi)
                return (self.segment(f, n, refs, lo, t) + self.element(f, n, refs, t)
                        + self.segment(f, n, refs, z3.simplify(t + 1), hi))
            if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
                dec = self.ctx.decide(a.arg(0))
                if dec is None:
                    raise Split(a.arg(0))
                return self.segment(f, n, new(a.arg(1) if dec else a.arg(2), s, o), lo, hi)
            r = self.relmap.get(a.get_id())
            if r is None:
                continue
            if r[0] == 'shift':
                return self.segment(f, n, new(r[2], s, z3.simplify(o + r[3])), lo, hi)
            if r[0] == 'rev':
                return self.segment(f, n, new(r[2], -s, z3.simplify(r[3] - 1 - o)), lo, hi)
            if r[0] == 'cat':
                na = r[4]
                if s == 1:
                    m = z3.simplify(na - o)          # t < m: first part
                    if self.ctx.holds(hi <= m):
                        return self.segment(f, n, new(r[2], s, o), lo, hi)
                    if self.ctx.holds(m <= lo):
                        return self.segment(f, n, new(r[3], s, z3.simplify(o - na)), lo, hi)
                    if self.ctx.holds(lo <= m) and self.ctx.holds(m <= hi):
                        return self.cut(f, n, refs, lo, m, hi)
                    raise Split(hi <= m if not self.ctx.holds(hi > m) else m <= lo)
                m = z3.simplify(o - na + 1)          # t < m: second part
                if self.ctx.holds(hi <= m):
                    return self.segment(f, n, new(r[3], s, z3.simplify(o - na)), lo, hi)
                if self.ctx.holds(m <= lo):
                    return self.segment(f, n, new(r[2], s, o), lo, hi)
                if self.ctx.holds(lo <= m) and self.ctx.holds(m <= hi):
                    return self.cut(f, n, refs, lo, m, hi)
                raise Split(hi <= m if not self.ctx.holds(hi > m) else m <= lo)
            if r[0] == 'rep' and s == 1:
                # `L` copies: handled when the copied part has constant elements (a K array)
                x = r[2]
                if z3.is_K(x):
                    return self.segment(f, n, new(x, s, o), lo, hi)
                if z3.is_store(x) and self.ctx.holds(r[3] == 1):
                    v = self.select(x, z3.IntVal(0))
                    return self.segment(f, n, new(z3.K(I_, v), s, o), lo, hi)
        if all(z3.is_K(a) for a, s, o in refs):
            return self.power(self.element(f, n, refs, z3.IntVal(0)), z3.simplify(hi - lo))
        m = self.mapped(f, n, refs, lo, hi)
        if m is not None:
            return m
        return self.cells(f, n, refs, lo, hi)

    def arr(self, a):
        while z3.is_select(a):
            b = self.select(a.arg(0), self.resolve(a.arg(1)))
            if z3.eq(a, b):
                break
            a = b
        return a

    def whole(self, f, n, refs, lo, hi):
        """Products over a whole sequence: the word of a divisor, repeated and flattened sequences."""
        o = refs[0][2]
        if not all(r == 1 and (z3.eq(p, o) or self.same(p, o)) for a, r, p in refs):
            return None
        lo, hi = z3.simplify(lo + o), z3.simplify(hi + o)
        if not self.same(lo, z3.IntVal(0)):
            return None
        refs = tuple((self.arr(a), 1, o) for a, _, o in refs)
        a = refs[0][0]
        nm = a.decl().name() if z3.is_app(a) else ''
        if nm in WORDS and len(refs) == 2:
            AI_, AE, AN, LET = WORDS[nm]
            b = refs[1][0]
            if b.decl().eq(AE) and self.same(a.arg(0), b.arg(0)) and self.same(a.arg(1), b.arg(1)) and self.same(n, a.arg(0)) \
                    and self.same(hi, AN(*a.children())):
                return self.nf(LET(n, a.arg(1)))
        rs = [self.relmap.get(x.get_id()) for x, _, _ in refs]
        if all(r is not None and r[0] == 'rep' for r in rs) and self.same(hi, rs[0][5]) and all(
                z3.eq(r[4], rs[0][4]) and z3.eq(r[3], rs[0][3]) for r in rs):
            return self.power(self.segment(f, n, tuple((r[2], 1, z3.IntVal(0)) for r in rs), z3.IntVal(0), rs[0][3]), self.it(rs[0][4]))
        if all(r is not None and r[0] == 'flat' for r in rs) and all(z3.eq(r[3][0], rs[0][3][0]) for r in rs) and self.same(hi, rs[0][6]):
            t = z3.FreshConst(I_, 'fl')
            inner = rs[0][4]
            g = Term(f, n, [z3.Select(inner[1 + r[2]], t) for r in rs], z3.IntVal(0), z3.Select(inner[0], t))
            return self.body(f, n, g, t, lo, rs[0][5])
        return None

    def mapped(self, f, n, refs, lo, hi):
        """Elements given by a mapped sequence: recognise conjugation by a power of D."""
        rs = [self.relmap.get(a.get_id()) for a, s, o in refs]
        if not any(r is not None and r[0] == 'map' for r in rs):
            return None
        for (a, s, o), r in zip(refs, rs):
            if r is not None and r[0] == 'map':
                a0, a1 = z3.simplify(s * lo + o), z3.simplify(s * (hi - 1) + o)
                if not self.ctx.holds(z3.Implies(lo < hi, z3.And(a0 >= 0, a0 < r[4], a1 >= 0, a1 < r[4]))):
                    return None
        t = z3.FreshConst(I_, 'el')
        vals = []
        for (a, s, o), r in zip(refs, rs):
            i = z3.simplify(s * t + o)
            vals.append(z3.simplify(z3.substitute(r[3], (r[2], i))) if r is not None and r[0] == 'map' else z3.Select(a, i))
        if any(has_ite(v) for v in vals):
            return None
        r = self.inverted(f, n, vals, t, lo, hi)
        return r if r is not None else self.body(f, n, PRODUCTS[f][1](n, vals), t, lo, hi)

    def inverted(self, f, n, vals, t, lo, hi):
        """Generators to the opposite powers."""
        if f != 'WORD':
            return None
        v, e = vals[0], z3.simplify(-vals[1])
        if not (z3.is_select(v) and z3.is_select(e)) or any(has_var(x.arg(0), t) for x in (v, e)):
            return None
        refs = []
        for x in (v, e):
            s, o = affine(x.arg(1), t)
            if s not in (1, -1):
                return None
            refs.append((x.arg(0), -s, z3.simplify(o + s * (lo + hi - 1))))
        return inverse(self.segment(f, n, tuple(refs), lo, hi))

    def body(self, f, n, g, t, lo, hi):
        """Product of the term g over t in [lo, hi)."""
        saved = (self.ctx, self.lets, self.segs, self.opq, self.memo)
        nl, no = len(self.lets), len(self.opq)
        sub = Ctx(self.plain + [lo <= t, t < hi], self.fuel)
        self.ctx = sub
        self.memo = {}
        try:
            w = self.nf(g)
        finally:
            self.ctx, self.memo = saved[0], saved[4]
        dep = [x for x in w if self.depends(x, t)]
        if not dep:
            return self.power(w, z3.simplify(hi - lo))
        if len(dep) == 1 and dep[0][0] == 'L':
            i = [k for k, x in enumerate(w) if x is dep[0]][0]
            u, v = w[:i], w[i + 1:]
            if self.word_eq(self.reduce(inverse(u)), v):      # u x_t u^-1
                (name, _), x = self.lets[dep[0][1]]
                if z3.is_select(x) and not has_var(x.arg(0), t):
                    s, o = affine(x.arg(1), t)
                    pf = next((k for k, (na, el) in PRODUCTS.items() if na == 1 and is_letter_product(k, name)), None)
                    if s in (1, -1) and pf is not None:
                        if dep[0][2] == 1:
                            mid = self.segment(pf, n, ((x.arg(0), s, o),), lo, hi)
                        else:   # product of inverses = inverse of the product taken backwards: t -> lo+hi-1-t
                            mid = inverse(self.segment(pf, n, ((x.arg(0), -s, z3.simplify(o + s * (lo + hi - 1))),), lo, hi))
                        return u + mid + v
        return None

    def depends(self, x, t):
        if x[0] == 'L':
            return has_var(self.lets[x[1]][1], t)
        if x[0] == 'D':
            return has_var(x[2], t)
        if x[0] == 'P':
            return has_var(x[2], t) or any(self.depends(y, t) for y in x[1])
        if x[0] == 'A':
            return has_var(self.opq[x[1]], t)
        key, refs, lo, hi = self.segs[x[1]]
        return has_var(lo, t) or has_var(hi, t) or any(has_var(o, t) for _, _, o in refs)

    def cells(self, f, n, refs, lo, hi):
        # the first reference carries no offset
        a, s, o = refs[0]
        if not (z3.is_int_value(o) and o.as_long() == 0):
            if s == 1:
                refs = tuple((b, r, z3.simplify(p - r * o)) for b, r, p in refs)
                lo, hi = z3.simplify(lo + o), z3.simplify(hi + o)
        key = self.canon_key((f, self.strands(n)), refs)
        pts = self.points.setdefault(key, [])
        lo, hi = self.point(pts, lo), self.point(pts, hi)
        i, j = pts.index(lo), pts.index(hi)
        if i > j:
            raise GiveUp()
        out = ()
        for k in range(i, j):
            out += self.cell(key, f, n, refs, pts[k], pts[k + 1])
        return out

    def canon_key(self, f, refs):
        lst = self.points.setdefault('keys', [])
        for k, (g, rs) in enumerate(lst):
            if g == f and len(rs) == len(refs) and all(z3.eq(a, b) and s == r and self.same(o, p) for (a, s, o), (b, r, p) in zip(refs, rs)):
                return k
        lst.append((f, refs))
        return len(lst) - 1

    def point(self, pts, x):
        for q in pts:
            d = lin_diff(x, q)
            if d == 0 or (d is None and self.ctx.holds(x == q)):
                return q
        for i, q in enumerate(pts):
            if self.ctx.holds(x <= q):
                pts.insert(i, x)
                if i > 0 and not self.ctx.holds(pts[i - 1] <= x):
                    raise GiveUp()
                raise Again()
            if not self.ctx.holds(q <= x) and not self.ctx.holds(q <= x, full=True):
                raise Split(q <= x)
        pts.append(x)
        raise Again()

    def cell(self, key, f, n, refs, lo, hi):
        d = lin_diff(hi, lo)
        if d is None and self.ctx.holds(hi == lo + 1):
            d = 1
        if d is not None and 0 < d <= 4:
            r = ()
            for j in range(d):
                r += self.element(f, n, refs, z3.simplify(lo + j))
            return r
        for i, (k, rs, l, h) in enumerate(self.segs):
            if k == key and z3.eq(l, lo) and z3.eq(h, hi):
                return (('S', i, 1),)
        if self.ctx.quant:
            lst = self.points['keys']
            for i, (k, rs, l, h) in enumerate(self.segs):
                if k != key and lst[k][0] == lst[key][0]:
                    off = z3.simplify(l - lo)
                    if not self.ctx.holds(h - l == hi - lo):
                        continue
                    w = z3.FreshConst(I_, 'w')
                    eqs = [z3.Select(a, z3.simplify(s * w + o)) == z3.Select(b, z3.simplify(r * (w + off) + p))
                           for (a, s, o), (b, r, p) in zip(refs, rs)]
                    if self.ctx.holds(z3.Implies(z3.And(lo <= w, w < hi), z3.And(*eqs)), full=True):
                        self.segs.append((key, refs, lo, hi))
                        self.segs[-1] = (key, refs, lo, hi)
                        self.alias = getattr(self, 'alias', {})
                        return (('S', self.root(i), 1),)
        self.segs.append((key, refs, lo, hi))
        return (('S', len(self.segs) - 1, 1),)

    def root(self, i):
        return i

    # ---- equations among the facts
    def apply(self, w):
        for _ in range(60):
            hit = False
            for (k, i), r in self.rules:
                out = []
                for x in w:
                    if x[0] == k and x[1] == i and k in ('S', 'A', 'L'):
                        out.extend(r if x[2] == 1 else inverse(r))
                        hit = True
                    elif x[0] == 'P' and any(y[0] == k and y[1] == i for y in x[1]):
                        b = self.reduce(self.sub1(x[1], k, i, r))
                        out.extend(self.power(b, x[2]))
                        hit = True
                    else:
                        out.append(x)
                w = tuple(out)
                if hit:
                    w = self.reduce(w)
                    break
            if not hit:
                return w
        raise GiveUp()

    def sub1(self, w, k, i, r):
        out = []
        for y in w:
            if y[0] == k and y[1] == i:
                out.extend(r if y[2] == 1 else inverse(r))
            else:
                out.append(y)
        return tuple(out)

    def add_equation(self, u, v, prefer=()):
        w = self.apply(self.reduce(u + inverse(v)))
        if not w:
            return
        count = {}
        for x in w:
            for k in atoms(x):
                count[k] = count.get(k, 0) + 1
        cands = [j for j, x in enumerate(w) if x[0] in ('S', 'A') and count[x[0], x[1]] == 1]
        if not cands:
            return
        j = max(cands, key=lambda j: ((w[j][0], w[j][1]) in prefer, w[j][0] == 'S', w[j][1]))
        x = w[j]
        r = self.reduce(inverse(w[:j]) + inverse(w[j + 1:]))     # u x v = 1  =>  x = u^-1 v^-1
        if x[2] == -1:
            r = inverse(r)
        key = (x[0], x[1])
        self.rules = [(k, self.reduce(self.apply1(q, key, r))) for k, q in self.rules]
        self.rules.append((key, r))

    def apply1(self, w, key, r):
        out = []
        for x in w:
            if (x[0], x[1]) == key and x[0] in ('S', 'A'):
                out.extend(r if x[2] == 1 else inverse(r))
            else:
                out.append(x)
        return tuple(out)

    def show(self, w):
        out = []
        for x in w:
            if x[0] == 'L':
                s = str(self.lets[x[1]][1])[:60]
            elif x[0] == 'S':
                k, refs, lo, hi = self.segs[x[1]]
                s = f"{self.points['keys'][k][0][0]}({','.join(str(a)[:14] + ('' if s == 1 else '~') + str(o) for a, s, o in refs)};{lo},{hi})"
            elif x[0] == 'A':
                s = str(self.opq[x[1]])[:40]
            elif x[0] == 'D':
                s = f'D^({x[2]})'
            else:
                s = f'[{self.show(x[1])}]^({x[2]})'
            out.append(s + ('' if x[0] in 'DP' or x[2] == 1 else "'"))
        return ' '.join(out)


def atoms(x):
    if x[0] == 'P':
        for y in x[1]:
            yield from atoms(y)
    elif x[0] != 'D':
        yield (x[0], x[1])


def Term(f, n, arrs, lo, hi):
    return FUNCS[f](n, *arrs, lo, hi)


def is_letter_product(pf, letter):
    el = PRODUCTS[pf][1]
    a = z3.Int('!probe')
    g = el(z3.Int('!n'), [a])
    return g.decl().name() == letter and z3.eq(g.arg(1), a)


def affine(i, t):
    d = z3.simplify(i - t)
    if not has_var(d, t):
        return 1, d
    d = z3.simplify(i + t)
    if not has_var(d, t):
        return -1, d
    return 0, None


def prod(ch):
    r = ch[0]
    for c in ch[1:]:
        r = r * c
    return r


def has_ite(x):
    return any(z3.is_app(s) and s.decl().kind() == z3.Z3_OP_ITE for s in subterms(x))


def braidy(f):
    for s in all_subterms(f):
        if z3.is_app(s) and (s.sort() == B or s.decl().name() in LOWS):
            return True
    return False


def plain_parts(f):
    """What a quantified fact says besides its group equations."""
    if not (z3.is_quantifier(f) and f.is_forall()):
        return []
    vs = [z3.FreshConst(f.var_sort(i), 'q') for i in range(f.num_vars())]
    b = z3.substitute_vars(f.body(), *reversed(vs))
    guard = []
    while z3.is_implies(b):
        guard.append(b.arg(0)); b = b.arg(1)
    if not z3.is_and(b) or any(braidy(g) for g in guard):
        return []
    out = []
    for c in b.children():
        if not braidy(c):
            out.append(z3.ForAll(vs, z3.Implies(z3.And(*guard), c)) if guard else z3.ForAll(vs, c))
    return out


def instances(W, facts, goal):
    """Instances of the universally quantified equations at the indices where the goal and the ground facts read the
    same sequences."""
    out, seen = [], set()
    ground = [goal] + [f for f in facts if not has_quant(f)]
    maps = {}
    for r in W.rels:
        if r[0] == 'map':
            maps.setdefault(r[1].get_id(), r)
    done, todo = set(), list(ground)
    while todo and len(ground) < 4000:          # what the elements of mapped sequences read
        for s in all_subterms(todo.pop()):
            if z3.is_select(s) and s.arg(0).get_id() in maps and s.get_id() not in done and s.arg(1).sort() == I_:
                done.add(s.get_id())
                W.keep.append(s)
                r = maps[s.arg(0).get_id()]
                ground.append(z3.substitute(r[3], (r[2], s.arg(1))))
                todo.append(ground[-1])
    for _ in range(2):                          # what an instance reads may give another
        n0 = len(out)
        for f in facts:
            if not (z3.is_quantifier(f) and f.is_forall() and f.num_vars() == 1 and f.var_sort(0) == I_ and any(s.sort() == B for s in all_subterms(f))):
                continue
            t = z3.FreshConst(I_, 't')
            b = z3.substitute_vars(f.body(), t)
            arrs = {s.arg(0).get_id(): s.arg(0) for s in all_subterms(b) if z3.is_select(s) and z3.eq(s.arg(1), t)}
            idx = {}
            for g in ground:
                for s in all_subterms(g):
                    if z3.is_select(s) and s.arg(0).get_id() in arrs and s.arg(1).sort() == I_:
                        i = z3.simplify(s.arg(1))
                        idx[i.get_id()] = i
            for i in idx.values():
                c = z3.substitute(b, (t, i))
                guard = []
                while z3.is_implies(c):
                    guard.append(c.arg(0)); c = c.arg(1)
                found = [e for e in (c.children() if z3.is_and(c) else [c]) if z3.is_eq(e) and e.arg(0).sort() == B]
                if found and (W.ctx.holds(z3.And(*guard)) or W.ctx.holds(z3.And(*guard), full=True)):
                    for e in found:
                        if e.get_id() not in seen:
                            seen.add(e.get_id())
                            out.append(e)
                            ground.append(e)
        if len(out) == n0:
            break
    return out


def attempt(facts, goal, rels, fuel, depth, go):
    """Run go(Words) with restarts on new cut points and case splits."""
    W = Words(facts, rels, fuel, z3.is_app(goal) and goal.decl().name() in LOWS)
    if W.ctx.qf.check() == z3.unsat:
        return True
    eqs = [f for f in facts if z3.is_eq(f) and not has_quant(f) and f.arg(0).sort() == B]
    eqs += instances(W, facts, goal)
    for _ in range(60):
        try:
            W.start()
            return go(W, eqs)
        except Again:
            continue
        except GiveUp:
            if DEBUG:
                print('   words give up')
            return False
        except Split as s:
            if depth >= 8 or fuel.empty():
                if DEBUG:
                    print('   words: split too deep', s.cond)
                return False
            if DEBUG > 1:
                print('   ' * depth, 'split', str(s.cond)[:100])
            for f in (s.cond, z3.simplify(z3.Not(s.cond))):
                fs = facts + (list(f.children()) if z3.is_and(f) else [f])
                if not prove(fs, goal, rels, fuel, depth + 1):
                    return False
            return True
    return False


def decides(goal):
    """Goals for which no other back end has anything to add."""
    return (z3.is_eq(goal) and goal.arg(0).sort() == B) or (z3.is_app(goal) and goal.decl().name() in LOWS)


def relevant(goal, facts):
    if not z3.is_app(goal):
        return False
    if decides(goal):
        return True
    nm = goal.decl().name()
    for k, d in LOWS.items():
        if d['nrm'] == nm:
            return any(z3.is_quantifier(f) and any(z3.is_app(s) and s.decl().name() == k for s in all_subterms(f)) for f in facts)
    return False


def prove(facts, goal, rels, fuel, depth=0):
    facts, goal, rels = solve_ints(facts, goal, rels)
    if z3.is_eq(goal) and goal.arg(0).sort() == B:
        def go(W, eqs):
            ws = [(W.nf(e.arg(0)), W.nf(e.arg(1))) for e in eqs]
            g = W.reduce(W.nf(goal.arg(0)) + inverse(W.nf(goal.arg(1))))
            if not g:
                return True
            for u, v in ws:
                W.add_equation(u, v)
            g = W.apply(g)
            if g and conj_trivial(W, g):
                return True
            if DEBUG and g:
                print('   word residue:', W.show(g))
                for (k, i), r in W.rules:
                    print('      rule', W.show(((k, i, 1),)), '->', W.show(r))
            return not g
        return attempt(facts, goal, rels, fuel, depth, go)
    if z3.is_app(goal) and goal.decl().name() in LOWS:
        return attempt(facts, goal, rels, fuel, depth, lambda W, eqs: prove_low(W, eqs, facts, goal))
    if z3.is_app(goal) and any(goal.decl().name() == d.get('nrm') for d in LOWS.values()):
        return attempt(facts, goal, rels, fuel, depth, lambda W, eqs: prove_nrm(W, eqs, facts, goal))
    return False


def conj_trivial(W, g):
    """A conjugate of the empty word."""
    while len(g) >= 2 and W.item_eq(inv_item(g[-1]), g[0]):
        g = g[1:-1]
    return not g


# ---- the left divisibility order: LOW(n, m, c, P, g) says  D^m /\ P D^-c  divides g
def low_hyps(W, facts, name, m):
    """Instances at m of the LOW facts: (guard holds) -> (c, P, g)."""
    out = []
    for f in facts:
        if z3.is_quantifier(f) and f.is_forall() and f.num_vars() == 1:
            b = z3.substitute_vars(f.body(), m)
            guard = []
            while z3.is_implies(b):
                guard.append(b.arg(0)); b = b.arg(1)
            for c in (b.children() if z3.is_and(b) else [b]):
                if z3.is_app(c) and c.decl().name() == name:
                    out.append((guard, c))
        elif z3.is_app(f) and f.decl().name() == name:
            out.append(([], f))
    return out


def prove_low(W, eqs, facts, goal):
    name = goal.decl().name()
    n, m, c, P, g = goal.children()
    ws = [(W.nf(e.arg(0)), W.nf(e.arg(1))) for e in eqs]
    W.nf(P)
    pref = away(W, g)
    for u, v in ws:
        W.add_equation(u, v, pref)
    Pw = W.apply(W.nf(P))
    r = low(W, facts, name, W.it(m), W.it(c), Pw, W.nf(g), 4)
    if DEBUG and not r:
        print('   LOW not shown:', m, c, W.show(W.nf(g)), ' of ', W.show(Pw), W.points)
    return r


def away(W, g):
    """Products over sequences that do not occur in g: eliminated first."""
    arrs = {s.get_id() for s in all_subterms(g) if z3.is_array(s)}
    return {('S', i) for i, (key, refs, lo, hi) in enumerate(W.segs) if not any(a.get_id() in arrs for a, _, _ in refs)}


def low(W, facts, name, m, c, Pw, g, fuel):
    W.fuel.spend(50)
    info = LOWS[name]
    d = W.ctx.decide(m <= 0)
    if d is None:
        raise Split(m <= 0)
    if d and positive(W, g):
        return True
    # hypotheses at m and, the meet being monotone, at m + 1
    for guard, h in low_hyps(W, facts, name, m) + low_hyps(W, facts, name, z3.simplify(m + 1)):
        _, m2, c2, P2, g2 = h.children()
        if not W.ctx.holds(z3.And(*guard, m2 >= m, c2 <= c)):
            continue
        if W.word_eq(W.apply(W.nf(g2)), W.apply(g)) and W.word_eq(W.apply(W.nf(P2)), Pw):
            return True
    # P = g * (at most c divisors)
    rest = W.reduce(inverse(g) + Pw)
    for rest in (rest, W.apply(rest)):
        ln = letters_length(W, rest)
        if ln is not None and W.ctx.holds(ln <= c):
            return True
        unfold(W, rest)
    if fuel and g and g[-1][0] == 'L' and g[-1][2] == 1:
        f, x = W.lets[g[-1][1]]
        if z3.is_app(x) and x.decl().name() == info['r1']:
            a, b = x.arg(1), x.arg(2)
            L = lambda y: W.nf(info['let'](x.arg(0), y))
            if low(W, facts, name, m, c, Pw, W.reduce(g[:-1] + L(a)), fuel - 1):
                return True
            return (low(W, facts, name, z3.simplify(m - 1), z3.simplify(c + 1), Pw, g[:-1], fuel - 1)
                    and low(W, facts, name, m, c, Pw, W.reduce(g[:-1] + L(a) + L(b)), fuel - 1))
    return False


def unfold(W, w):
    """L(a[t])^-1 next to a product that starts with a[t]: take the first element out."""
    for x, y in zip(w, w[1:]):
        if x[0] == 'L' and x[2] == -1 and y[0] == 'S' and y[2] == 1:
            t = W.lets[x[1]][1]
            key, refs, lo, hi = W.segs[y[1]]
            a, s, o = refs[0]
            if len(refs) == 1 and z3.is_select(t) and z3.eq(t.arg(0), a) and s == 1 and W.same(t.arg(1), z3.simplify(lo + o)):
                W.point(W.points[key], z3.simplify(lo + 1))


def positive(W, w):
    return letters_length(W, w) is not None


def letters_length(W, w):
    """An upper bound of the number of divisors in a positive word, or None."""
    n = z3.IntVal(0)
    for x in w:
        if x[0] == 'L' and x[2] == 1:
            n = n + 1
        elif x[0] == 'S' and x[2] == 1 and W.points['keys'][W.segs[x[1]][0]][0][0] in POSITIVE:
            n = n + (W.segs[x[1]][3] - W.segs[x[1]][2])
        elif x[0] == 'D' and W.ctx.holds(x[2] >= 0):
            n = n + x[2]
        else:
            return None
    return z3.simplify(n)


def prove_nrm(W, eqs, facts, goal):
    """(x, y) adjacent in a sequence whose prefixes are as large as they can be:
    D^(m) /\\ P divides h L(x), h a product of m-1 divisors, P = h L(x) L(y) (positive)  =>  (x, y) is left-weighted."""
    nm = goal.decl().name()
    name, info = next((k, d) for k, d in LOWS.items() if d.get('nrm') == nm)
    n, x, y = goal.children()
    x, y = W.it(x), W.it(y)
    if not (z3.is_select(x) and z3.is_select(y) and z3.eq(x.arg(0), y.arg(0)) and W.same(y.arg(1), x.arg(1) + 1)):
        return False
    a, t = x.arg(0), x.arg(1)
    m = z3.simplify(t + 1)
    L = lambda z: W.nf(info['let'](n, z))
    PRf = lambda lo, hi: W.nf(info['pr'](n, a, lo, hi))
    hyps = [h for h in low_hyps(W, facts, name, m) if W.ctx.holds(z3.And(*h[0], h[1].arg(1) == m, h[1].arg(2) <= 0))]
    if not hyps:
        return False
    ws = [(W.nf(e.arg(0)), W.nf(e.arg(1))) for e in eqs]
    pre = PRf(z3.IntVal(0), t)
    two = W.reduce(pre + L(x) + L(y))
    gs = [(W.nf(h.arg(3)), W.nf(h.arg(4))) for _, h in hyps]
    pref = away(W, a)
    for u, v in ws:
        W.add_equation(u, v, pref)
    for P, g in gs:
        if not W.word_eq(W.apply(g), W.apply(W.reduce(pre + L(x)))):
            if DEBUG:
                print('   NRM: prefix', W.show(W.apply(g)), 'is not', W.show(pre), W.show(L(x)))
            continue
        ln = letters_length(W, pre)
        rest = W.apply(W.reduce(inverse(two) + W.apply(P)))
        if ln is not None and W.ctx.holds(ln <= t) and positive(W, rest):
            return True
        unfold(W, rest)
        if DEBUG:
            print('   NRM: rest', W.show(rest))
    return False


DEBUG = 0
