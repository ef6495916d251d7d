"""Contracts for peyl/matrix.py: matrices over an abstract commutative ring, entry (i, j) of an r x c matrix being data[c*i + j].

Products of a dimension and an index are nonlinear, so the facts about them are supplied as ground instances (Grid)."""
from __future__ import annotations
import z3
from pyvc.values import *
from pyvc.interp import Fn
from pyvc.vc import Contract, Case
from pyvc.theory import SUM, Sums
from pyvc import interp as I
from pyvc import invs
from pyvc.ring import all_subterms

M = 'peyl.matrix:'
I_, R_, BB = z3.IntSort(), z3.RealSort(), z3.BoolSort()
AR = z3.ArraySort(I_, R_)
DOT = z3.Function('DOT', AR, I_, I_, AR, I_, I_, AR)      # DOT(a, ca, i, b, cb, j)[t] = a[ca*i + t] * b[cb*t + j]


# --- polynomials over integer atoms ---------------------------------------------------------------------------------
def poly(e, rep):
    k = 'poly', e.get_id()
    if k not in rep.memo:
        rep.memo[k] = (poly1(e, rep), e)
    p, atoms = rep.memo[k][0]
    return p, dict(atoms)


def poly1(e, rep):
    """Integer term -> {sorted tuple of atom ids: coefficient}; atoms are replaced by their class representative."""
    out = {}

    def go(x):
        if z3.is_int_value(x):
            return {(): x.as_long()}
        if z3.is_add(x) or z3.is_sub(x) or (z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UMINUS):
            cs = [go(c) for c in x.children()]
            r = {}
            for k, p in enumerate(cs):
                s = -1 if (z3.is_sub(x) and k) or x.decl().kind() == z3.Z3_OP_UMINUS else 1
                for m, v in p.items():
                    r[m] = r.get(m, 0) + s * v
            return r
        if z3.is_mul(x):
            r = {(): 1}
            for c in x.children():
                p = go(c)
                r2 = {}
                for m, v in r.items():
                    for m2, v2 in p.items():
                        k = tuple(sorted(m + m2))
                        r2[k] = r2.get(k, 0) + v * v2
                r = r2
            return r
        x = rep(x)
        if z3.is_int_value(x):
            return {(): x.as_long()}
        atoms[x.get_id()] = x
        return {(x.get_id(),): 1}
    atoms = {}
    r = go(e)
    return {m: v for m, v in r.items() if v}, atoms


def term(p, atoms):
    ts = []
    for m, v in sorted(p.items()):
        t = z3.IntVal(v)
        for i in m:
            t = atoms[i] if z3.is_int_value(t) and t.as_long() == 1 else t * atoms[i]
        ts.append(t)
    return z3.Sum(ts) if len(ts) > 1 else ts[0] if ts else z3.IntVal(0)


def divide(e, c, rep):
    memo = rep.memo
    k = e.get_id(), c.get_id()
    if k not in memo:
        memo[k] = (divide1(e, c, rep), e, c)
    return memo[k][0]


def divide1(e, c, rep):
    """e = c*i + j with j free of c: the terms (i, j)."""
    p, atoms = poly(e, rep)
    c = rep(c)
    if z3.is_int_value(c):
        return None
    q, r = {}, {}
    for m, v in p.items():
        if c.get_id() in m:
            m = list(m)
            m.remove(c.get_id())
            q[tuple(m)] = v
        else:
            r[m] = v
    atoms[c.get_id()] = c
    return term(q, atoms), term(r, atoms)


_ground, _scan = {}, {}


def ground(e):
    k = e.get_id()
    if k not in _ground:
        _ground[k] = (not any(z3.is_var(x) for x in all_subterms(e)), e)
    return _ground[k][0]


def scan(f):
    """The ground reads, integer products, dot products and comparisons of products in a formula."""
    k = f.get_id()
    if k not in _scan:
        sel, mul, dot, cmp_ = [], [], [], []
        for s in all_subterms(f):
            if not z3.is_app(s) or not s.num_args():
                continue
            d = s.decl().kind()
            if d == z3.Z3_OP_SELECT:
                if s.arg(1).sort() == I_ and ground(s):
                    sel.append(s)
            elif d == z3.Z3_OP_MUL:
                if s.sort() == I_ and ground(s):
                    mul.append(s)
            elif d in (z3.Z3_OP_GE, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GT):
                if z3.is_int(s.arg(0)) and ground(s):
                    cmp_ += [x for x in s.children() if any(z3.is_mul(y) for y in all_subterms(x))]
            elif s.decl().name() == 'DOT' and ground(s):
                dot.append(s)
        _scan[k] = (f, sel, mul, dot, cmp_)
    return _scan[k][1:]


class Grid:
    name = 'grid'

    def __init__(self, rounds=3, rows=14):
        self.rounds, self.rows = rounds, rows

    def instances(self, facts, goal, rels):
        rep = classes(facts)
        out, done, have = [], set(), set()
        asked = {s.get_id() for s in scan(goal)[0]}
        quants = [f for f in facts if z3.is_quantifier(f) and f.is_forall() and f.num_vars() == 2 and f.var_sort(0) == I_ == f.var_sort(1)]
        for rnd in range(self.rounds):
            reads, dims = {}, {}
            for f in list(facts) + [goal] + out:
                sel, mul, dot, _ = scan(f)
                reads.update((s.get_id(), s) for s in sel)
                dims.update((s.get_id(), s) for s in mul)
                for s in dot:
                    if s.get_id() not in done:
                        done.add(s.get_id())
                        a, ca, i, b, cb, j = s.children()
                        t = z3.Int('t!dot')
                        out.append(z3.ForAll([t], s[t] == a[ca * i + t] * b[cb * t + j], patterns=[s[t]]))
            for s in list(reads.values()):
                a = s.arg(0)
                if z3.is_app(a) and a.decl().name() == 'DOT' and s.get_id() not in done:
                    done.add(s.get_id())
                    x, ca, i, y, cb, j = a.children()
                    out.append(s == x[ca * i + s.arg(1)] * y[cb * s.arg(1) + j])
            for s in list(reads.values()):
                a = s.arg(0)
                if z3.is_app(a) and a.decl().name() == 'DOT':
                    x, ca, i, y, cb, j = a.children()
                    t = s.arg(1)
                    for r in (x[ca * i + t], y[cb * t + j]):
                        reads[r.get_id()] = r
                while z3.is_store(a):
                    a = a.arg(0)
                    r = a[s.arg(1)]
                    reads[r.get_id()] = r
            n0 = len(out)
            for q in quants:
                for c, k, arr in heads(q.body()):
                    for s in reads.values():
                        if not z3.eq(s.arg(0), arr) and s.get_id() not in asked:
                            continue
                        d = divide(s.arg(1), c, rep)
                        if d is None:
                            continue
                        key = (q.get_id(), rid(d[0]), rid(d[1]), k)
                        if key in have:
                            continue
                        have.add(key)
                        i, j = d
                        # de Bruijn: variable 0 is the last bound one
                        out.append(z3.substitute_vars(q.body(), *((j, i) if k == 1 else (i, j))))
            if len(out) == n0 and rnd:
                break
        # products
        cs = {}
        for s in dims.values():
            p, atoms = poly(s, rep)
            for m in p:
                for i in m:
                    cs[i] = atoms[i]
        reads = {}
        prods = {}
        for f in list(facts) + [goal] + out:
            sel, mul, dot, cmps = scan(f)
            reads.update((s.get_id(), s.arg(1)) for s in sel)
            prods.update((s.get_id(), s) for s in mul)
            reads.update((x.get_id(), x) for x in cmps)
        for s in prods.values():               # equal factors
            p, atoms = poly(s, rep)
            t = term(p, atoms)
            if not z3.eq(s, t):
                out.append(s == t)
        # c*i + j inside c*r
        for c in cs.values():
            pts = {}
            for e in reads.values():
                i, j = divide(e, c, rep)
                pts[rid(i), rid(j)] = (i, j)
            rows = {rid(i): i for i, _ in pts.values()}
            for s in prods.values():
                d = divide(s, c, rep)
                rows[rid(d[0])] = d[0]
            rows = [r for r in rows.values()][:self.rows]
            for x in range(len(rows)):
                out.append(z3.Implies(z3.And(c >= 0, rows[x] >= 0), c * rows[x] >= 0))
                for y in range(len(rows)):
                    if x != y:
                        out.append(z3.Implies(z3.And(c >= 0, rows[x] < rows[y]), c * rows[x] + c <= c * rows[y]))
        return out


_rid = {}


def rid(e):
    if e.get_id() not in _rid:
        _rid[e.get_id()] = (z3.simplify(e).sexpr(), e)
    return _rid[e.get_id()][0]


_heads = {}


def heads(body):
    k = body.get_id()
    if k not in _heads:
        _heads[k] = (heads1(body), body)
    return _heads[k][0]


def heads1(body):
    """Reads a[c*i + j] in a doubly quantified body, i and j the bound variables: (c, which variable is i, a)."""
    out = []
    for s in all_subterms(body):
        if z3.is_select(s) and z3.is_add(s.arg(1)) and s.arg(1).num_args() == 2 and ground(s.arg(0)):
            for m, v in (s.arg(1).children(), reversed(s.arg(1).children())):
                if z3.is_var(v) and z3.is_mul(m) and m.num_args() == 2:
                    for c, w in (m.children(), reversed(m.children())):
                        if z3.is_var(w) and ground(c) and z3.get_var_index(w) != z3.get_var_index(v):
                            out.append((c, z3.get_var_index(w), s.arg(0)))
    return out


def classes(facts):
    """Representatives of integer terms under the equations among the facts."""
    parent, terms = {}, {}

    def find(k):
        while parent.get(k, k) != k:
            k = parent[k]
        return k

    def atom(x):
        return z3.is_int(x) and not z3.is_add(x) and not z3.is_mul(x) and not z3.is_sub(x)
    stack = list(facts)
    while stack:
        f = stack.pop()
        if z3.is_and(f):
            stack.extend(f.children())
        elif z3.is_eq(f) and atom(f.arg(0)) and atom(f.arg(1)):
            for x in f.children():
                terms[x.get_id()] = x
            a, b = (find(x.get_id()) for x in f.children())
            if a != b:
                if z3.is_int_value(terms[a]):
                    a, b = b, a
                parent[a] = b

    def rep(x):
        k = x.get_id()
        return terms[find(k)] if k in terms else x
    rep.memo = {}
    return rep


MULI, MULR = z3.Function('MULI', I_, I_, I_), z3.Function('MULR', R_, R_, R_)


def linearise(fs, rep):
    """Ground formulas with products of two unknowns replaced by an uninterpreted function of the factors (in a fixed order, integer
    products expanded first): what follows from the result follows from the formulas."""
    memo, comm = {}, {}

    def times(f, x, y):
        t = f(x, y)
        comm[t.get_id()] = (t, f(y, x))
        return t

    def go(e):
        k = e.get_id()
        if k not in memo:
            memo[k] = (go1(e), e)
        return memo[k][0]

    def go1(e):
        if z3.is_quantifier(e) or not z3.is_app(e) or not e.num_args():
            return e
        if z3.is_mul(e):
            if z3.is_int(e):
                p, atoms = poly(e, rep)
                ts = []
                for m, v in sorted(p.items()):
                    t = None
                    for x in sorted((go(atoms[i]) for i in m), key=lambda x: x.sexpr()):
                        t = x if t is None else times(MULI, t, x)
                    ts.append(z3.IntVal(v) if t is None else t if v == 1 else v * t)
                return z3.Sum(ts) if ts else z3.IntVal(0)
            num, rest = [], []
            for c in e.children():
                (num if z3.is_rational_value(c) else rest).append(go(c))
            t = None
            for x in sorted(rest, key=lambda x: x.sexpr()):
                t = x if t is None else times(MULR, t, x)
            for x in num:
                t = x if t is None else x * t
            return t
        return e.decl()(*map(go, e.children()))
    return [go(f) for f in fs] + [t == u for t, u in comm.values()]


_kind = {}


def ground_query(facts, goal):
    """The linear part of the query, or None if the goal is quantified."""
    if I.has_quant(goal):
        return None
    rep = classes(facts)
    for f in facts:
        if f.get_id() not in _kind:
            q = I.has_quant(f)
            _kind[f.get_id()] = ('ground' if not q else 'linear' if z3.is_quantifier(f) and f.num_vars() == 1 and not any(
                z3.is_mul(s) and sum(not (z3.is_int_value(c) or z3.is_rational_value(c)) for c in s.children()) > 1
                for s in all_subterms(f)) else 'other', f)
    kind = [(_kind[f.get_id()][0], f) for f in facts]
    return linearise([f for k, f in kind if k == 'ground'] + [z3.Not(goal)], rep) + [f for k, f in kind if k == 'linear']


# --- the value of a matrix, for statements about products of many ------------------------------------------------------
MAT = z3.DeclareSort('Mat')
MV = z3.Function('MV', AR, I_, I_, MAT)                  # the matrix with these entries
MMUL = z3.Function('MMUL', MAT, MAT, MAT)
MONE = z3.Function('MONE', I_, MAT)
MPOW = z3.Function('MPOW', MAT, I_, I_, MAT)             # MPOW(x, n, e) = x ** e for an n x n matrix x
MAT_TRUST = ['linear algebra: the product of matrices over a commutative ring is associative and the identity matrix is its unit']


class MatPow:
    """Instances of associativity, units and the definition of powers."""
    name = 'matrix powers'

    def instances(self, facts, goal, rels):
        pows, prods, mats = {}, {}, {}
        for f in list(facts) + [goal]:
            for s in all_subterms(f):
                if z3.is_app(s) and s.sort() == MAT and ground(s):
                    if s.decl().name() == 'MPOW':
                        pows[s.get_id()] = s
                    elif s.decl().name() == 'MV':
                        mats[s.get_id()] = s
        eqs = []
        stack = list(facts)
        while stack:
            f = stack.pop()
            if z3.is_and(f):
                stack.extend(f.children())
            elif z3.is_eq(f) and f.arg(0).sort() == MAT:
                for x, y in (f.children(), reversed(f.children())):
                    if z3.is_app(y) and y.decl().name() == 'MMUL' and z3.is_app(x) and x.decl().name() == 'MV':
                        eqs.append((x, y.arg(0), y.arg(1)))
        out = []
        ts = dict(pows)

        def pow_(x, n, e):
            t = MPOW(x, n, e)
            ts[t.get_id()] = t
            return t
        for s in list(pows.values()):
            x, n, e = s.children()
            out.append(z3.Implies(e >= 1, z3.And(s == MMUL(x, pow_(x, n, e - 1)), s == MMUL(pow_(x, n, e - 1), x))))
            for y, a, b in eqs:
                out.append(z3.Implies(z3.And(e >= 0, x == y, a == b), z3.And(
                    s == pow_(a, n, 2 * e), pow_(a, n, 2 * e + 1) == MMUL(a, pow_(a, n, 2 * e)),
                    pow_(a, n, 2 * e + 1) == MMUL(pow_(a, n, 2 * e), a))))
        for s in ts.values():
            x, n, e = s.children()
            out.append(z3.Implies(e == 0, s == MONE(n)))
            out += [MMUL(MONE(n), s) == s, MMUL(s, MONE(n)) == s]
            for y, a, b in eqs:
                out.append(MMUL(y, s) == MMUL(a, MMUL(b, s)))
                out.append(MMUL(s, y) == MMUL(MMUL(s, a), b))
        for m in mats.values():
            out += [MMUL(MONE(m.arg(1)), m) == m, MMUL(m, MONE(m.arg(2))) == m]
        return out


def mv(c, m):
    a, r, k, n = parts(c, m)
    return MV(a, r, k)


TH = [Sums(), Grid()]


def cls(c):
    return c.repo.modules['peyl.matrix'].globals['Matrix']


def parts(c, m):
    s = c.coerce_seq(as_sseq(c.as_seq(m.fields['data'])), REAL)
    return s.arrs[0], to_int(m.fields['nrows']), to_int(m.fields['ncols']), to_int(s.n)


def valid(c, m):
    r, k, n = to_int(m.fields['nrows']), to_int(m.fields['ncols']), to_int(as_sseq(c.as_seq(m.fields['data'])).n)
    return z3.And(r >= 0, k >= 0, r * k == n)


def grid(r, k, g):
    i, j = z3.Ints('i!m j!m')
    return z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < r, j >= 0, j < k), g(i, j)))


def is_mat(v):
    return isinstance(v, (Obj, I.ObjSnap)) and v.cls.name == 'Matrix'


class MCase(Case):
    """A method of a matrix that returns a matrix."""
    name = 'matrix'
    kinds = 'm'
    shape = staticmethod(lambda r, c, *a: (r, c))

    def mat(self, c, name='m'):
        return c.fresh_val(('obj', cls(c), (('nrows', INT), ('ncols', INT), ('data', ('seq', REAL, 'tuple')))), name)

    def params(self, c):
        out = []
        for k in self.kinds:
            if k == 'm':
                m = self.mat(c)
                c.assume(valid(c, m))
                out.append(m)
            elif k == 'i':
                out.append(c.fresh('i', I_))
            elif k == 'r':
                out.append(c.fresh('x', R_))
            elif k == 's':
                out.append(c.fresh_val(('seq', REAL, 'tuple'), 's'))
            elif k == 'c':
                out.append(cls(c))
        return out

    def match(self, c, args):
        if len(args) != len(self.kinds):
            return False
        for a, k in zip(args, self.kinds):
            if not {'m': is_mat, 'i': is_int, 'r': lambda v: is_int(v) or is_real(v), 's': lambda v: isinstance(v, (SSeq, LObj, tuple)),
                    'c': lambda v: True}[k](a):
                return False
        return True

    def dims(self, c, *args):
        """(rows, columns) of the result"""
        a, r, k, n = parts(c, args[0])
        return r, k

    def entry(self, c, i, j, *args):
        raise NotImplementedError

    def pre(self, c, *args):
        return [('well formed', z3.And(*[valid(c, a) for a, k in zip(args, self.kinds) if k == 'm'] or [z3.BoolVal(True)]))]

    def result(self, c, *args):
        return self.mat(c, 'r')

    def post(self, c, res, *args):
        if not is_mat(res):
            return [('a matrix', False)]
        b, r, k, n = parts(c, res)
        R, K = self.dims(c, *args)
        return [('rows', r == R), ('columns', k == K), ('well formed', valid(c, res)),
                ('entries', grid(r, k, lambda i, j: b[k * i + j] == self.entry(c, i, j, *args)))]


def conc(v):
    return to_int(v)


class Identity(MCase):
    name = 'size'
    kinds = 'ci'

    def dims(self, c, k, n):
        return to_int(n), to_int(n)

    def defines(self, c, res, k, n):
        return [mv(c, res) == MONE(to_int(n))]

    def entry(self, c, i, j, k, n):
        return z3.If(i == j, z3.RealVal(1), z3.RealVal(0))

    def must_raise(self, c, k, n, *r):
        return [('ValueError', to_int(n) < 0)]


class Scalar(Identity):
    name = 'size, scalar'
    kinds = 'cir'

    def defines(self, c, *a):
        return []

    def dims(self, c, k, n, s):
        return to_int(n), to_int(n)

    def entry(self, c, i, j, k, n, s):
        return z3.If(i == j, to_real(s), z3.RealVal(0))


class Zero(MCase):
    name = 'rows, columns'
    kinds = 'cii'

    def dims(self, c, k, n, m):
        return to_int(n), to_int(m)

    def entry(self, c, i, j, *a):
        return z3.RealVal(0)

    def must_raise(self, c, k, n, m):
        return [('ValueError', z3.Or(to_int(n) < 0, to_int(m) < 0))]


def seqr(c, s):
    s = c.coerce_seq(as_sseq(c.as_seq(s)), REAL)
    return s.arrs[0], to_int(s.n)


class RowVector(MCase):
    name = 'entries'
    kinds = 'cs'

    def dims(self, c, k, s):
        return z3.IntVal(1), seqr(c, s)[1]

    def entry(self, c, i, j, k, s):
        return seqr(c, s)[0][j]


class ColVector(RowVector):
    def dims(self, c, k, s):
        return seqr(c, s)[1], z3.IntVal(1)

    def entry(self, c, i, j, k, s):
        return seqr(c, s)[0][i]


class CoordVector(MCase):
    name = 'size, position'
    kinds = 'cii'

    def dims(self, c, k, n, p):
        return to_int(n), z3.IntVal(1)

    def entry(self, c, i, j, k, n, p):
        return z3.If(i == to_int(p), z3.RealVal(1), z3.RealVal(0))

    def must_raise(self, c, k, n, p):
        return [('ValueError', to_int(n) < 0)]


class Transpose(MCase):
    def dims(self, c, m):
        a, r, k, n = parts(c, m)
        return k, r

    def entry(self, c, i, j, m):
        a, r, k, n = parts(c, m)
        return a[k * j + i]


class Row(MCase):
    name = 'matrix, index'
    kinds = 'mi'

    def dims(self, c, m, x):
        return z3.IntVal(1), parts(c, m)[2]

    def entry(self, c, i, j, m, x):
        a, r, k, n = parts(c, m)
        return a[k * to_int(x) + j]

    def must_raise(self, c, m, x):
        return [('IndexError', z3.Not(z3.And(to_int(x) >= 0, to_int(x) < parts(c, m)[1])))]


class Column(Row):
    def dims(self, c, m, x):
        return parts(c, m)[1], z3.IntVal(1)

    def entry(self, c, i, j, m, x):
        a, r, k, n = parts(c, m)
        return a[k * i + to_int(x)]

    def must_raise(self, c, m, x):
        return [('IndexError', z3.Not(z3.And(to_int(x) >= 0, to_int(x) < parts(c, m)[2])))]


class Sub(MCase):
    name = 'matrices'
    kinds = 'mm'

    def entry(self, c, i, j, m, o):
        a, r, k, n = parts(c, m)
        b = parts(c, o)[0]
        return a[k * i + j] - b[k * i + j]

    def fits(self, c, m, o):
        return z3.And(*[x == y for x, y in zip(parts(c, m)[1:3], parts(c, o)[1:3])])

    def must_raise(self, c, m, o):
        return [('ValueError', z3.Not(self.fits(c, m, o)))]


class Times(MCase):
    name = 'matrix, scalar'
    kinds = 'mi'

    def entry(self, c, i, j, m, s):
        a, r, k, n = parts(c, m)
        return a[k * i + j] * z3.ToReal(to_int(s))


class Mul(Sub):
    def dims(self, c, m, o):
        return parts(c, m)[1], parts(c, o)[2]

    def fits(self, c, m, o):
        return parts(c, m)[2] == parts(c, o)[1]

    def entry(self, c, i, j, m, o):
        (a, r, k, _), (b, _, l, _) = parts(c, m), parts(c, o)
        return SUM(DOT(a, k, i, b, l, j), z3.IntVal(0), k)

    def defines(self, c, res, m, o):
        return [mv(c, res) == MMUL(mv(c, m), mv(c, o))]


class Pow(MCase):
    name = 'square matrix, exponent'
    kinds = 'mi'

    def must_raise(self, c, m, e):
        a, r, k, n = parts(c, m)
        return [('ValueError', r != k), ('NotImplementedError', z3.And(r == k, to_int(e) < 0))]

    def post(self, c, res, m, e):
        if not is_mat(res):
            return [('a matrix', False)]
        b, r, k, _ = parts(c, res)
        n = parts(c, m)[1]
        return [('rows', r == n), ('columns', k == n), ('well formed', valid(c, res)),
                ('the power', MV(b, n, n) == MPOW(mv(c, m), n, to_int(e)))]


def power_hints(ex, view):
    """A product of two matrices, one of them to a power, stays the same."""
    mats = [x for x in view.live if is_mat(view.entry.vars.get(x))]
    ints = [x for x in view.live if is_int(view.entry.vars.get(x))]
    for x in mats:
        n = parts(ex, view.entry.vars[x])[1]

        def ok(v, x=x, n=n):
            a, r, k, l = parts(ex, v.frame.vars[x])
            return z3.And(r == n, k == n, n * n == l)
        yield f'{x} stays square', ok
        if view.k is not None:
            for y, w in view.entry.vars.items():
                if is_mat(w) and y not in view.entry.names:
                    x0 = MV(parts(ex, view.entry.vars[x])[0], n, n)
                    w0 = MV(parts(ex, w)[0], n, n)
                    yield (f'{x} = entry * {y} ** k', lambda v, x=x, n=n, x0=x0, w0=w0:
                           MV(parts(ex, v.frame.vars[x])[0], n, n) == MMUL(x0, MPOW(w0, n, v.k)))
    for x in mats:
        for y in mats:
            if x == y:
                continue
            n = parts(ex, view.entry.vars[x])[1]
            for e in ints:
                for side in 'lr':
                    def value(vx, vy, e, n=n, side=side):
                        vx, vy = MV(parts(ex, vx)[0], n, n), MV(parts(ex, vy)[0], n, n)
                        p = MPOW(vy, n, to_int(e))
                        return MMUL(vx, p) if side == 'l' else MMUL(p, vx)
                    v0 = value(view.entry.vars[x], view.entry.vars[y], view.entry.vars[e])
                    yield (f'{x} times {y} to the {e} ({side}) constant', lambda v, x=x, y=y, e=e, v0=v0, value=value:
                           value(v.frame.vars[x], v.frame.vars[y], v.frame.vars[e]) == v0)


class MapF(MCase):
    name = 'matrix, function'
    F = z3.Function('mapped', R_, R_)

    def params(self, c):
        return super().params(c) + [Fn(lambda ex, x: MapF.F(to_real(x)), 'f')]

    def match(self, c, args):
        return False

    def entry(self, c, i, j, m, f):
        a, r, k, n = parts(c, m)
        return MapF.F(a[k * i + j])


class Rows(MCase):
    def result(self, c, m):
        return c.fresh_val(('seq', ('seq', REAL, 'list'), 'list'), 'rows')

    def post(self, c, res, m):
        a, r, k, n = parts(c, m)
        s = as_sseq(c.as_seq(res))
        L, B = s.arrs
        i = z3.Int('i!m')
        return [('as many rows', to_int(s.n) == r), ('of as many entries as columns', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < r), L[i] == k), patterns=[L[i]])),
                ('entries', grid(r, k, lambda i, j: B[i][j] == a[k * i + j]))]


class FromRows(MCase):
    name = 'rows'
    kinds = 'cx'

    def params(self, c):
        return [cls(c), c.fresh_val(('seq', ('seq', REAL, 'list'), 'list'), 'rows')]

    def match(self, c, args):
        return False

    def uniform(self, s):
        i = z3.Int('i!u')
        return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < to_int(s.n)), s.arrs[0][i] == s.arrs[0][0]))

    def must_raise(self, c, k, rows):
        return [('AssertionError', z3.Not(self.uniform(as_sseq(c.as_seq(rows)))))]

    def pre(self, c, k, rows):
        return [('at least one row', to_int(as_sseq(c.as_seq(rows)).n) > 0)]

    def dims(self, c, k, rows):
        s = as_sseq(c.as_seq(rows))
        return to_int(s.n), s.arrs[0][0]

    def entry(self, c, i, j, k, rows):
        return as_sseq(c.as_seq(rows)).arrs[1][i][j]


class GetItem(MCase):
    name = 'matrix, (row, column)'

    def params(self, c):
        return super().params(c) + [(c.fresh('i', I_), c.fresh('j', I_))]

    def match(self, c, args):
        return len(args) == 2 and is_mat(args[0]) and isinstance(args[1], tuple) and len(args[1]) == 2 and all(map(is_int, args[1]))

    def result(self, c, *a):
        return c.fresh('x', R_)

    def inside(self, c, m, ij):
        a, r, k, n = parts(c, m)
        i, j = map(to_int, ij)
        return z3.And(i >= 0, i < r, j >= 0, j < k)

    def must_raise(self, c, m, ij):
        return [('IndexError', z3.Not(self.inside(c, m, ij)))]

    def post(self, c, res, m, ij):
        a, r, k, n = parts(c, m)
        i, j = map(to_int, ij)
        return [('the entry', to_real(res) == a[k * i + j])]


CELL = z3.Function('CELL', I_, I_, I_, I_)               # CELL(c, i, j) = c*i + j, the place of entry (i, j) among c columns


class GetEntry(Case):
    """Entries that are Laurent polynomials."""
    name = 'matrix of Laurent polynomials, (row, column)'

    def et(self, c):
        return ('obj', c.repo.modules['peyl.lpoly'].globals['LPoly'], (('coeffs', ('seq', REAL, 'tuple')), ('val', INT)))

    def params(self, c):
        m = c.fresh_val(('obj', cls(c), (('nrows', INT), ('ncols', INT), ('data', ('seq', self.et(c), 'tuple')))), 'm')
        d, r, k = self.parts(c, m)
        c.assume(z3.And(r >= 0, k >= 0, r * k == to_int(d.n)))
        return [m, (c.fresh('i', I_), c.fresh('j', I_))]

    def parts(self, c, m):
        return as_sseq(c.as_seq(m.fields['data'])), to_int(m.fields['nrows']), to_int(m.fields['ncols'])

    def match(self, c, args):
        return len(args) == 2 and is_mat(args[0]) and isinstance(args[1], tuple) and len(args[1]) == 2 and all(map(is_int, args[1])) \
            and as_sseq(c.as_seq(args[0].fields['data'])).et == self.et(c)

    def axioms(self, c, m, ij):
        i, j = map(to_int, ij)
        d, r, k = self.parts(c, m)
        return [CELL(k, i, j) == k * i + j, z3.Implies(z3.And(i >= 0, i < r, j >= 0, j < k), z3.And(CELL(k, i, j) >= 0, CELL(k, i, j) < to_int(d.n)))]

    def result(self, c, *a):
        return c.fresh_val(self.et(c), 'x')

    def must_raise(self, c, m, ij):
        d, r, k = self.parts(c, m)
        i, j = map(to_int, ij)
        return [('IndexError', z3.Not(z3.And(i >= 0, i < r, j >= 0, j < k)))]

    def post(self, c, res, m, ij):
        d, r, k = self.parts(c, m)
        q = CELL(k, *map(to_int, ij))
        return [('the entry', z3.And(*[x == a[q] for x, a in zip(pack(self.et(c), res), d.arrs)]))]


class FromEntries(FromRows):
    """Rows of Laurent polynomials."""
    name = 'rows of Laurent polynomials'
    et = GetEntry.et

    def params(self, c):
        return [cls(c), c.fresh_val(('seq', ('seq', self.et(c), 'list'), 'list'), 'rows')]

    def match(self, c, args):
        s = args[1]
        if isinstance(s, GenExp):
            return False
        s = as_sseq(c.as_seq(s))
        return s.et is not None and s.et[0] == 'seq' and s.et[1] == self.et(c)

    def result(self, c, k, rows):
        return c.fresh_val(('obj', cls(c), (('nrows', INT), ('ncols', INT), ('data', ('seq', self.et(c), 'tuple')))), 'm')

    def pre(self, c, k, rows):
        return [('at least one row', to_int(as_sseq(c.as_seq(rows)).n) > 0)]

    def axioms(self, c, k, rows):
        i, j = z3.Ints('i!m j!m')
        R, K = self.dims(c, k, rows)
        return [z3.ForAll([i, j], CELL(K, i, j) == K * i + j, patterns=[CELL(K, i, j)])] if c.current_case is self else []

    def post(self, c, res, k, rows):
        if not is_mat(res):
            return [('a matrix', False)]
        s = as_sseq(c.as_seq(rows))
        d = as_sseq(c.as_seq(res.fields['data']))
        if d.et != self.et(c):
            return [('entries', False)]
        r, w = to_int(res.fields['nrows']), to_int(res.fields['ncols'])
        R, K = self.dims(c, k, rows)
        i, j = z3.Ints('i!m j!m')
        q = CELL(K, i, j)
        fits = [a[q] == b[i][j] for a, b in zip(d.arrs, s.arrs[1:])]
        return [('rows', r == R), ('columns', w == K), ('well formed', z3.And(r >= 0, w >= 0, to_int(d.n) == r * w)),
                ('entries', z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < R, j >= 0, j < K), z3.And(*fits)), patterns=[q]))]


class Trace(MCase):
    def result(self, c, *a):
        return c.fresh('x', R_)

    def must_raise(self, c, m):
        a, r, k, n = parts(c, m)
        return [('ValueError', r != k)]

    def post(self, c, res, m):
        a, r, k, n = parts(c, m)
        d = c.fresh('diag', AR)
        t = z3.Int('t!tr')
        c.assume(z3.ForAll([t], d[t] == a[k * t + t], patterns=[d[t]]))
        return [('sum of the diagonal', to_real(res) == SUM(d, z3.IntVal(0), r))]


class IsSquare(MCase):
    def result(self, c, *a):
        return c.fresh('b', BB)

    def post(self, c, res, m):
        a, r, k, n = parts(c, m)
        return [('equal dimensions', I.to_z3(c.truth(res)) == (r == k))]


class IsSymmetric(IsSquare):
    def post(self, c, res, m):
        a, r, k, n = parts(c, m)
        return [('square and equal to its transpose', I.to_z3(c.truth(res)) == z3.And(r == k, grid(r, k, lambda i, j: a[k * i + j] == a[k * j + i])))]


class Valid(MCase):
    name = 'data'

    def params(self, c):
        return [self.mat(c)]

    def pre(self, c, m):
        return []

    def result(self, c, m):
        return None

    def must_raise(self, c, m):
        return [('ValueError', z3.Not(valid(c, m)))]

    def post(self, c, r, m):
        return [('well formed', valid(c, m))]


def product_hints(ex, view):
    """Loops that accumulate a product: the list is what it was, plus, for some rows and columns, part of the dot product."""
    if view.k is None:
        return
    mats = [(x, v) for x, v in view.entry.vars.items() if is_mat(v) and x not in view.entry.names]
    env = {}                                # the indices of the loops around this one
    for x, v in view.entry.vars.items():
        if is_int(v) and x not in view.entry.names and z3.is_const(to_int(v)) and '@L' in str(v):
            env[str(v)] = (x, v)
    env = list(env.values())
    zero = z3.IntVal(0)
    pairs = [(m, o) for x, m in enumerate(mats) for o in (mats[x + 1:] if len(mats) > 1 else mats)]
    for x in view.live:                     # a number that accumulates one entry
        x0 = view.entry.vars.get(x)
        if not (is_int(x0) or is_real(x0)):
            continue
        for (mn, m), (on, o) in pairs:
            (a, r, n, _), (d, _, l, _) = parts(ex, m), parts(ex, o)
            for pn, p in env:
                for qn, q in env:
                    if pn != qn:
                        yield (f'{x} += {mn}*{on} row {pn} column {qn} terms < k', lambda v, x=x, x0=x0, t=DOT(a, n, to_int(p), d, l, to_int(q)):
                               to_real(v.frame.vars[x]) == to_real(x0) + SUM(t, zero, v.k))
    for b in invs.lists(view):              # a list that is filled with entries
        n0 = to_int(invs.seq_of(view.entry.objs[b]).n)
        for (mn, m), (on, o) in pairs:
            (a, r, n, _), (d, _, l, _) = parts(ex, m), parts(ex, o)
            yield f'len(list{b}) = entry + {on}.ncols * k', lambda v, b=b, n0=n0, l=l: to_int(invs.seq_of(v.objs[b]).n) == n0 + l * v.k
            for pn, done in [('rows < k', lambda p, q, k: p < k)] + [
                    (f'rows < {x} and row {x} up to k', lambda p, q, k, x=x: z3.Or(p < x, z3.And(p == x, q < k))) for x in (to_int(x) for _, x in env)]:
                def inv(v, b=b, done=done, a=a, d=d, n=n, l=l, r=r):
                    s = ex.coerce_seq(invs.seq_of(v.objs[b]), REAL).arrs[0]
                    return grid(r, l, lambda p, q: z3.Implies(done(p, q, v.k), s[l * p + q] == SUM(DOT(a, n, p, d, l, q), zero, n)))
                yield f'list{b} is {mn}*{on} in {pn}', inv
    for b in invs.lists(view):
        e0 = ex.coerce_seq(invs.seq_of(view.entry.objs[b]), REAL)
        for x, (mn, m) in enumerate(mats):
            for on, o in mats[x + 1:] if len(mats) > 1 else mats:
                (a, r, n, _), (d, _, l, _) = parts(ex, m), parts(ex, o)
                picks = [('all', lambda p, K: z3.BoolVal(True), 0), ('< k', lambda p, K: p < K, 1)] + [
                    (f'= {x}', lambda p, K, x=v: p == x, 0) for x, v in env]
                spans = [('all', lambda K, n=n: (zero, n), 0), ('< k', lambda K: (zero, K), 1)] + [
                    (f'= {x}', lambda K, x=v: (x, x + 1), 0) for x, v in env]
                for pn, P, pk in picks:
                    for qn, Q, qk in picks:
                        for tn, T, tk in spans:
                            used = [x for x in (pn, qn, tn) if x[0] == '=']
                            if pk + qk + tk != 1 or len(set(used)) < len(used) or len(used) < min(2, len(env)):
                                continue

                            def inv(v, b=b, e0=e0, P=P, Q=Q, T=T, a=a, d=d, n=n, l=l, r=r):
                                s = ex.coerce_seq(invs.seq_of(v.objs[b]), REAL).arrs[0]
                                return grid(r, l, lambda p, q: s[l * p + q] == e0.arrs[0][l * p + q] + z3.If(
                                    z3.And(P(p, v.k), Q(q, v.k)), SUM(DOT(a, n, p, d, l, q), *T(v.k)), z3.RealVal(0)))
                            yield f'list{b} += {mn}*{on} rows {pn} columns {qn} terms {tn}', inv


def contracts(repo):
    from specs import rep
    def C(q, cases, **kw):
        return Contract(M + 'Matrix.' + q, cases, prop='C10', **{'theories': TH, **kw})
    return [
        C('__post_init__', Valid()),
        C('identity', [rep.MatrixIdentity(), Identity()]),
        C('scalar', Scalar()),
        C('zero', Zero()),
        C('row_vector', RowVector()),
        C('col_vector', ColVector()),
        C('col_coord_vector', CoordVector()),
        C('__getitem__', [GetEntry(), GetItem()]),
        C('transpose', Transpose()),
        C('row', Row()),
        C('column', Column()),
        C('__sub__', Sub()),
        C('__mul__', [Mul(), Times()], hints=product_hints, theories=[Grid(), Sums(), Grid()], opts=dict(ring=False, ground=ground_query, frames=False)),
        C('__rmul__', [Times()]),
        C('__pow__', Pow(), hints=power_hints, theories=[MatPow()], opts=dict(ring=False)),
        C('map', MapF()),
        C('rows', Rows()),
        C('from_rows', [FromRows(), FromEntries()]),
        C('trace', Trace()),
        C('is_square', IsSquare()),
        C('is_symmetric', IsSymmetric(), theories=[Grid(2)], opts=dict(ring=False)),
    ]
