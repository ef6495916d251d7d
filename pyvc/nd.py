"""numpy arrays of rank 0..4 with entries in an ordered commutative ring (dense, row-major indices, machine width ignored).

An array value is a token A with extents s0(A), s1(A)... and entries el_r(A, i0, ..., i_{r-1}).  A variable in the program
is a view of a buffer (basic indexing: integers, slices of step 1 or -1, ..., None), or an elementwise expression.
Buffers are mutable; a store replaces the token by one that agrees with it outside the cells stored to.

The tail of the shape of a polynomial matrix is (rows, columns, degrees).  For an array of rank 3 (one matrix) or 4 (a row of
matrices, index x) the truth functions of numpy are stated with

  NZ(A[, x], d)   some entry of the matrix at degree d is nonzero          (any over rows and columns)
  ANY(A[, x])     some entry is nonzero                                    (any over rows, columns and degrees)
  SOME(A, d)      some matrix has a nonzero entry at degree d              (any over everything but degrees)
  LO, HI(A[, x])  the least and greatest degree with NZ, when ANY          (argmax of booleans: the first True)

whose definitions are axioms()."""
from __future__ import annotations
import z3
from .values import *
from . import values as V

I_, R_, B_ = z3.IntSort(), z3.RealSort(), z3.BoolSort()
IV = z3.IntVal
ND = z3.DeclareSort('Array')
F = z3.Function
S = [F(f's{k}', ND, I_) for k in range(5)]
EL = {r: F(f'el{r}', ND, *[I_] * r, R_) for r in range(6)}
NZ = {3: F('NZ3', ND, I_, B_), 4: F('NZ4', ND, I_, I_, B_)}
ANY = {3: F('ANY3', ND, B_), 4: F('ANY4', ND, I_, B_)}
LO = {3: F('LO3', ND, I_), 4: F('LO4', ND, I_, I_)}
HI = {3: F('HI3', ND, I_), 4: F('HI4', ND, I_, I_)}
CNT = {3: F('CNT3', ND, I_), 4: F('CNT4', ND, I_, I_)}
SOME = F('SOME4', ND, I_, B_)
W1 = {3: F('W1_3', ND, I_, I_), 4: F('W1_4', ND, I_, I_, I_)}
W2 = {3: F('W2_3', ND, I_, I_), 4: F('W2_4', ND, I_, I_, I_)}
XW = F('XW', ND, I_, I_)
DISTINCT = {r: F(f'DIST{r}', ND, ND, B_) for r in range(6)}


def rng(i, n):
    return z3.And(i >= 0, i < n)


def axioms(ranks=(3, 4)):
    A = z3.Const('A!nd', ND)
    x, i, j, d = z3.Ints('x!nd i!nd j!nd d!nd')
    out = []
    for r in ranks:
        X = [x] if r == 4 else []
        k = r - 3
        el, nz, any_ = EL[r](A, *X, i, j, d), NZ[r](A, *X, d), ANY[r](A, *X)
        inx = [rng(x, S[0](A))] if X else []
        inr = z3.And(*inx, rng(i, S[k](A)), rng(j, S[k + 1](A)), rng(d, S[k + 2](A)))
        out.append(z3.ForAll([A, *X, i, j, d], z3.Implies(z3.And(inr, el != 0), nz), patterns=[el]))
        w1, w2 = W1[r](A, *X, d), W2[r](A, *X, d)
        out.append(z3.ForAll([A, *X, d], z3.Implies(nz, z3.And(*inx, rng(d, S[k + 2](A)), rng(w1, S[k](A)), rng(w2, S[k + 1](A)), EL[r](A, *X, w1, w2, d) != 0)),
                             patterns=[nz]))
        lo, hi = LO[r](A, *X), HI[r](A, *X)
        out.append(z3.ForAll([A, *X, d], z3.Implies(nz, z3.And(any_, lo <= d, d <= hi)), patterns=[nz]))
        out.append(z3.ForAll([A, *X] if X else [A], z3.Implies(any_, z3.And(NZ[r](A, *X, lo), NZ[r](A, *X, hi))), patterns=[any_]))
    if 4 in ranks:
        out.append(z3.ForAll([A, x, d], z3.Implies(NZ[4](A, x, d), SOME(A, d)), patterns=[z3.MultiPattern(NZ[4](A, x, d), SOME(A, d))]))
        out.append(z3.ForAll([A, d], z3.Implies(SOME(A, d), NZ[4](A, XW(A, d), d)), patterns=[SOME(A, d)]))
    return out


def sizes():
    A = z3.Const('A!nd', ND)
    return [z3.ForAll([A], s(A) >= 0, patterns=[s(A)]) for s in S]


# ---- sums, lifted to functions of what they mention
_sums = {}


def lift_sum(t, body, lo, hi):
    """The sum of body over lo <= t < hi (zero when empty), as a function symbol that depends on the shape of body only."""
    body = z3.simplify(body)
    conds = []

    def strip(b):
        if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_ITE:
            z = lambda e: z3.is_rational_value(e) and e.as_fraction() == 0
            if z(b.arg(2)):
                return strip(b.arg(1)), conds.append(b.arg(0))
            if z(b.arg(1)):
                return strip(b.arg(2)), conds.append(z3.Not(b.arg(0)))
        return b
    while True:
        b = strip(body)
        if not isinstance(b, tuple):
            break
        body = b[0]
    from .theory import linear
    rest = []

    def split(c):
        if z3.is_and(c):
            for y in c.children():
                split(y)
        elif z3.is_not(c) and z3.is_or(c.arg(0)):
            for y in c.arg(0).children():
                split(z3.Not(y))
        elif z3.is_not(c) and z3.is_not(c.arg(0)):
            split(c.arg(0).arg(0))
        else:
            rest.append(c)
    for c in conds:
        split(c)
    left = []
    for c in rest:
        pos, k = c, None
        if z3.is_not(c):
            pos, k = c.arg(0), {z3.Z3_OP_LT: z3.Z3_OP_GE, z3.Z3_OP_LE: z3.Z3_OP_GT, z3.Z3_OP_GT: z3.Z3_OP_LE, z3.Z3_OP_GE: z3.Z3_OP_LT}.get(c.arg(0).decl().kind())
        else:
            k = c.decl().kind()
        if k not in (z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_GE) or pos.arg(0).sort() != I_:
            left.append(c)
            continue
        e = z3.simplify(pos.arg(0) - pos.arg(1))        # e k 0
        _, at = linear(e)
        m = [q for y, q in at if z3.eq(y, t)]
        if not m or abs(m[0]) != 1 or any(z3.eq(s, t) for y, q in at if not z3.eq(y, t) for s in _subs(y)):
            left.append(c)
            continue
        r = z3.simplify(e - m[0] * t)                   # m t + r k 0
        if k in (z3.Z3_OP_LT, z3.Z3_OP_LE):
            one = 0 if k == z3.Z3_OP_LT else 1
            if m[0] == 1:
                hi = _min(hi, z3.simplify(-r + one))        # t < -r (+1)
            else:
                lo = _max(lo, z3.simplify(r + 1 - one))     # t > r
        else:
            one = 0 if k == z3.Z3_OP_GE else 1
            if m[0] == 1:
                lo = _max(lo, z3.simplify(-r + one))
            else:
                hi = _min(hi, z3.simplify(r + 1 - one))
    if left:
        body = z3.If(z3.And(*left), body, z3.RealVal(0))
    params, key, tsub = [], {}, z3.Int('t!lift')

    def go(e):
        if z3.eq(e, t):
            return tsub
        if z3.is_var(e):
            raise Unsupported('sum over a bound variable')
        if z3.is_int_value(e) or z3.is_rational_value(e):
            return e
        if z3.is_app(e) and e.num_args() == 0 or not any(z3.eq(s, t) for s in _subs(e)):
            if e.sort() in (B_,) or z3.is_true(e) or z3.is_false(e):
                return e if e.num_args() == 0 else e.decl()(*[go(c) for c in e.children()])
            k = e.get_id()
            if k not in key:
                key[k] = len(params)
                params.append(e)
            return z3.Const(f'p{key[k]}!lift', e.sort())
        return e.decl()(*[go(c) for c in e.children()])
    shape = go(body)
    skey = shape.sexpr()
    f = _sums.get(skey)
    if f is None:
        f = _sums[skey] = (z3.Function(f'sum!{len(_sums)}', *[p.sort() for p in params], I_, I_, R_), shape)
    lo, hi = z3.simplify(to_int(lo)), z3.simplify(to_int(hi))
    return f[0](*params, lo, hi)


def _subs(e):
    from .interp import subterms
    return subterms(e)


def _min(a, b):
    a, b = to_int(a), to_int(b)
    return a if z3.eq(z3.simplify(a), z3.simplify(b)) else z3.If(a <= b, a, b)


def _max(a, b):
    a, b = to_int(a), to_int(b)
    return a if z3.eq(z3.simplify(a), z3.simplify(b)) else z3.If(a >= b, a, b)


# ---- roots: what a view looks at
class Root:
    neg = False


class TokRoot(Root):
    sort = 'real'

    def __init__(self, tok, dims):
        self.tok, self.dims, self.rank = tok, dims, len(dims)

    def at(self, idx):
        return EL[self.rank](self.tok, *idx)


class Buf(Model):
    """Storage of an array."""
    tname = 'array storage'
    sort = 'real'

    def __init__(self, tok, dims, param=False):
        self.tok, self.dims, self.param = tok, tuple(dims), param
        self.rank = len(self.dims)
        self.birth = next(V._birth)

    def root(self):
        return TokRoot(self.tok, self.dims)

    def at(self, idx):
        return EL[self.rank](self.tok, *idx)

    def havoc(self, ex, tag, fields):
        self.tok = ex.fresh('array' + tag, ND)
        shape_is(ex, self.tok, self.dims)

    def snapshot(self):
        return TokRoot(self.tok, self.dims)


def shape_is(ex, tok, dims):
    for k, d in enumerate(dims):
        ex.assume(S[k](tok) == to_int(d))
        ex.assume(S[k](tok) >= 0)


class NzRoot(Root):
    """NZ of a rank 3 or 4 array: indexed [x,] d."""
    sort = 'bool'

    def __init__(self, tok, dims):
        self.tok, self.full = tok, dims
        self.dims = tuple(dims[:-3]) + (dims[-1],)
        self.rank = len(self.dims)

    def at(self, idx):
        return NZ[len(self.full)](self.tok, *idx)


class AnyRoot(Root):
    sort = 'bool'

    def __init__(self, tok, dims):
        self.tok, self.full = tok, dims
        self.dims = tuple(dims[:-3])
        self.rank = len(self.dims)

    def at(self, idx):
        return ANY[len(self.full)](self.tok, *idx)


class SomeRoot(Root):
    sort = 'bool'
    rank = 1

    def __init__(self, tok, dims):
        self.tok, self.full, self.dims = tok, dims, (dims[-1],)

    def at(self, idx):
        return SOME(self.tok, *idx)


def is_full(ax, n):
    return ax[0] == 'ax' and z3.is_int_value(to_int(ax[2])) and to_int(ax[2]).as_long() == 0 and ax[3] == 1


def same(ex, a, b):
    a, b = to_int(a), to_int(b)
    return z3.eq(z3.simplify(a), z3.simplify(b)) or ex.provable(a == b) is True


# ---- array values
class Nd(Model):
    tname = 'array'
    dims = ()
    sort = 'real'

    def at(self, idx):
        raise NotImplementedError

    @property
    def rank(self):
        return len(self.dims)

    def freeze(self):
        return self

    def type(self):
        return ('model', NdT(self.rank))

    def settle(self, ex):
        """The array with its entries named, to be kept in a sequence."""
        if isinstance(self, View) and isinstance(self.base, (Buf, TokRoot)) and self.whole():
            return self
        return copy(ex, self) if self.rank and self.sort == 'real' else self

    def length(self, ex):
        if not self.dims:
            raise PyRaise('TypeError', line=ex.line)
        return self.dims[0]

    def getattr(self, ex, name):
        if name == 'shape':
            return tuple(self.dims)
        if name == 'ndim':
            return self.rank
        if name == 'dtype':
            return DTYPE
        if name in ('any', 'all'):
            return Fn(lambda ex, axis=None: (any_ if name == 'any' else all_)(ex, self, axis), name)
        if name in ('max', 'argmax'):
            return Fn(lambda ex, **k: (amax if name == 'max' else argmax)(ex, self, **k), name)
        if name in ('copy',):
            return Fn(lambda ex: copy(ex, self), name)
        if name == 'size':
            r = IV(1)
            for d in self.dims:
                r = r * d
            return r
        raise Unsupported(f'attribute {name} of an array')

    def iter(self, ex):
        if not self.dims:
            raise PyRaise('TypeError', line=ex.line)
        return Iter(self.dims[0], lambda k: self.getitem(ex, k))

    def truth(self, ex):
        if not self.dims:
            return ex.truth(self.at([]))
        raise Unsupported('truth of an array')

    def getitem(self, ex, k):
        raise Unsupported('subscript of this array')

    def binop(self, ex, op, other, swapped):
        if op == 'MatMult':
            return matmul(ex, other, self) if swapped else matmul(ex, self, other)
        if op == 'USub':
            v = self.freeze()
            return Fx(v.dims, lambda idx: -num(v, idx), numsort(v))
        if op == 'Invert' and self.sort == 'bool':
            v = self.freeze()
            return Fx(v.dims, lambda idx: z3.Not(v.at(idx)), 'bool')
        return elementwise(ex, op, *((other, self) if swapped else (self, other)))

    def compare(self, ex, op, other, swapped):
        op = {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE'}.get(op, op) if swapped else op
        return compare(ex, op, self, other)


def num(v, idx):
    t = v.at(idx)
    return z3.If(t, IV(1), IV(0)) if v.sort == 'bool' else t


def numsort(*vs):
    return 'real' if any(v.sort == 'real' for v in vs) else 'int'


class Scalar(Nd):
    def __init__(self, t):
        self.t = t
        self.sort = 'bool' if is_boolv(t) else 'int' if is_int(t) else 'real'

    def at(self, idx):
        return to_z3(self.t)


def to_nd(v):
    if isinstance(v, Nd):
        return v.freeze()
    if is_int(v) or is_real(v) or is_boolv(v):
        return Scalar(v)
    if isinstance(v, (tuple, SSeq, LObj)):
        return from_seq(v)
    raise Unsupported(f'{type(v).__name__} where an array is expected')


def from_seq(v):
    """A list of numbers, or of lists of numbers of the same length."""
    s = as_sseq(EX[0].as_seq(v))
    if s.et in (INT, REAL):
        a = s.arrs[0]
        return Fx((to_int(s.n),), lambda idx: to_real(a[idx[0]]), 'real')
    lens, et, arrs = [], s.et, list(s.arrs)
    while et is not None and et[0] == 'seq':
        lens.append(arrs.pop(0))
        et = et[1]
    if et in (INT, REAL):
        dims, ks, conds, a = [to_int(s.n)], [], [], arrs[0]
        for L in lens:          # every list of this depth has the same length
            if EX[0].provable_q(dims[-1] >= 1) is not True:
                raise Unsupported('array of a list that may be empty')
            k = EX[0].fresh('row', I_)
            conds.append(rng(k, dims[-1]))
            ks.append(k)
            here, first = L, L
            for k in ks:
                here, first = here[k], first[0]
            m = to_int(first)
            if EX[0].provable_q(z3.Implies(z3.And(*conds), here == m)) is not True:
                raise Unsupported('array of lists of several lengths')
            dims.append(m)

        def at(idx):
            t = a
            for i in idx:
                t = t[i]
            return to_real(t)
        return Fx(dims, at, 'real')
    raise Unsupported('array of something else')


def broadcast(ex, *vs):
    """[(dims)] of values of known rank -> common dims and index maps."""
    r = max(v.rank for v in vs)
    dims = []
    for k in range(r):
        ds = [to_int(v.dims[k - (r - v.rank)]) for v in vs if k - (r - v.rank) >= 0]
        d = ds[0]
        for e in ds[1:]:
            if same(ex, d, e):
                continue
            if ex.branch(z3.Or(d == e, d == 1, e == 1)):
                d = e if z3.is_int_value(d) and d.as_long() == 1 else d if z3.is_int_value(e) and e.as_long() == 1 else z3.If(d == 1, e, d)
            else:
                raise PyRaise('ValueError', line=ex.line)
        dims.append(d)

    def index(v):
        off = r - v.rank

        def m(idx):
            out = []
            for k in range(v.rank):
                n, big = to_int(v.dims[k]), dims[k + off]
                out.append(idx[k + off] if same(ex, n, big) else z3.If(n == 1, IV(0), idx[k + off]))
            return out
        for k in range(v.rank):
            same(ex, v.dims[k], dims[k + off])
        return m
    return dims, [index(v) for v in vs]


def elementwise(ex, op, a, b):
    a, b = to_nd(a), to_nd(b)
    dims, (ia, ib) = broadcast(ex, a, b)
    ia, ib = eager(ia, len(dims)), eager(ib, len(dims))
    ops = {'Add': lambda x, y: x + y, 'Sub': lambda x, y: x - y, 'Mult': lambda x, y: x * y}
    s = numsort(a, b)
    if op == 'Div':
        return Fx(dims, lambda idx: to_real(num(a, ia(idx))) / to_real(num(b, ib(idx))), 'real')
    if op in ('BitAnd', 'BitOr') and a.sort == b.sort == 'bool':
        f = z3.And if op == 'BitAnd' else z3.Or
        return Fx(dims, lambda idx: f(a.at(ia(idx)), b.at(ib(idx))), 'bool')
    if op not in ops:
        raise Unsupported(f'array operator {op}')

    def at(idx):
        x, y = num(a, ia(idx)), num(b, ib(idx))
        if s == 'real':
            x, y = to_real(x), to_real(y)
        return ops[op](x, y)
    return Fx(dims, at, s)


def eager(m, r):
    """An index map computed once (it asks the solver about extents, which must happen on the current path)."""
    vs = [z3.Int(f'b!{k}') for k in range(r)]
    out = m(vs)
    return lambda idx: [z3.substitute(o, *[(v, to_int(i)) for v, i in zip(vs, idx)]) for o in out]


def compare(ex, op, a, b):
    if b is None or isinstance(b, str):
        raise Unsupported('array compared with a non-number')
    if op in ('Eq', 'NotEq') and isinstance(a, View) and isinstance(b, (int, float)) and b == 0 and a.sort == 'real' and a.origin().rank in (3, 4):
        v = a.freeze()
        return Truth(v, op == 'Eq')
    a, b = to_nd(a), to_nd(b)
    dims, (ia, ib) = broadcast(ex, a, b)
    ia, ib = eager(ia, len(dims)), eager(ib, len(dims))
    f = {'Eq': lambda x, y: x == y, 'NotEq': lambda x, y: x != y, 'Lt': lambda x, y: x < y, 'LtE': lambda x, y: x <= y, 'Gt': lambda x, y: x > y,
         'GtE': lambda x, y: x >= y}[op]
    r = Fx(dims, lambda idx: f(num(a, ia(idx)), num(b, ib(idx))), 'bool')
    return r if dims else r.at([])


class Fx(Nd):
    """An elementwise expression."""
    def __init__(self, dims, fn, sort):
        self.dims, self.fn, self.sort = tuple(dims), fn, sort

    def at(self, idx):
        return self.fn(list(idx))

    def getitem(self, ex, k):
        axes, dims = index(ex, [('ax', n, IV(0), 1) for n in range(self.rank)], self.dims, k)
        if not dims:
            return self.fn(locate(axes, []))
        return Fx(dims, lambda idx: self.fn(locate(axes, idx)), self.sort)


def locate(axes, idx):
    return [a[1] if a[0] == 'fix' else z3.simplify(to_int(a[2]) + (to_int(idx[a[1]]) if a[3] == 1 else -to_int(idx[a[1]]))) for a in axes]


class Truth(Nd):
    """A != 0 (or A == 0)."""
    sort = 'bool'

    def __init__(self, v, neg=False):
        self.v, self.neg, self.dims = v, neg, v.dims

    def at(self, idx):
        t = self.v.at(idx)
        t = t if self.v.sort == 'bool' else t != 0
        return z3.Not(t) if self.neg else t

    def negation(self):
        return Truth(self.v, not self.neg)

    def getitem(self, ex, k):
        return Truth(self.v.getitem(ex, k), self.neg)


class View(Nd):
    """Basic indexing of a buffer or of a root."""
    def __init__(self, base, axes, dims):
        self.base, self.axes, self.dims = base, list(axes), tuple(dims)
        self.sort = base.sort

    def children(self):
        return [self.base] if isinstance(self.base, Buf) else []

    def origin(self):
        return self.base.root() if isinstance(self.base, Buf) else self.base

    def freeze(self):
        return View(self.origin(), self.axes, self.dims)

    def snapshot(self):
        return self.freeze()

    def at(self, idx):
        return self.base.at(locate(self.axes, idx))

    def whole(self):
        return len(self.dims) == self.base.rank and all(is_full(a, None) and a[1] == k for k, a in enumerate(self.axes)) \
            and all(z3.eq(z3.simplify(to_int(x)), z3.simplify(to_int(y))) for x, y in zip(self.dims, self.base.dims))

    def getitem(self, ex, k):
        axes, dims = index(ex, self.axes, self.dims, k)
        v = View(self.base, axes, dims)
        return v if dims else v.at([])

    def setitem(self, ex, k, val):
        axes, dims = index(ex, self.axes, self.dims, k)
        store(ex, self.base, axes, dims, val)

    def inplace(self, ex, op, other):
        r = self.binop(ex, op, other, False)
        if not isinstance(self.base, Buf):
            raise Unsupported('in-place change of an expression')
        store(ex, self.base, self.axes, self.dims, r)
        return self


def index(ex, axes, dims, k):
    """Compose a basic index with a view: new axes and dims."""
    ks = list(k) if isinstance(k, tuple) else [k]
    ks = [x for y in ks for x in (list(y) if isinstance(y, tuple) else [y])] if any(isinstance(y, tuple) for y in ks) and len(ks) == 1 else ks
    n = sum(1 for x in ks if x is not None and x is not Ellipsis)
    if sum(1 for x in ks if x is Ellipsis) > 1 or n > len(dims):
        raise PyRaise('IndexError', line=ex.line)
    full = SliceV(None, None, None)
    if Ellipsis in [x if x is Ellipsis else 0 for x in ks]:
        p = [x is Ellipsis for x in ks].index(True)
        ks = ks[:p] + [full] * (len(dims) - n) + ks[p + 1:]
    else:
        ks = ks + [full] * (len(dims) - n)
    how, out, q = {}, [], 0         # old view axis -> ('fix', t) | ('ax', new, lo, step)
    for x in ks:
        if x is None:
            out.append(IV(1))
            continue
        m = to_int(dims[q])
        if isinstance(x, SliceV):
            lo, size, step = slice_of(ex, x, m)
            how[q] = ('ax', len(out), lo, step)
            out.append(size)
        elif is_int(x) and not is_boolv(x):
            how[q] = ('fix', norm(ex, x, m))
        else:
            raise Unsupported('advanced indexing')
        q += 1
    new = []
    for a in axes:
        if a[0] == 'fix':
            new.append(a)
            continue
        h = how[a[1]]
        off = to_int(a[2])
        if h[0] == 'fix':
            new.append(('fix', z3.simplify(off + (h[1] if a[3] == 1 else -h[1]))))
        else:
            new.append(('ax', h[1], z3.simplify(off + (h[2] if a[3] == 1 else -h[2])), a[3] * h[3]))
    return new, out


def norm(ex, i, n):
    i = to_int(i)
    if z3.is_int_value(z3.simplify(i)):
        j = z3.simplify(n + i) if z3.simplify(i).as_long() < 0 else z3.simplify(i)
    elif ex.provable(i >= 0):
        j = i
    elif ex.provable(i < 0):
        j = n + i
    else:
        j = z3.If(i < 0, i + n, i)
    if not ex.branch(rng(j, n)):
        raise PyRaise('IndexError', line=ex.line)
    return j


def slice_of(ex, sl, n):
    if sl.step not in (None, 1, -1):
        raise Unsupported('array slice with a step')

    def clamp(x, dflt):
        if x is None:
            return dflt
        x = z3.simplify(to_int(x))
        if z3.is_int_value(x) and x.as_long() == 0:
            return x
        if ex.provable(rng(x, n + 1)):
            return x
        if ex.provable(z3.And(x < 0, x >= -n)):
            return z3.simplify(n + x)
        return z3.simplify(z3.If(x < 0, z3.If(x + n < 0, IV(0), x + n), z3.If(x > n, n, x)))
    if sl.step == -1:
        if sl.lo is not None or sl.hi is not None:
            raise Unsupported('reversed slice with bounds')
        return z3.simplify(n - 1), n, -1
    lo, hi = clamp(sl.lo, IV(0)), clamp(sl.hi, n)
    if sl.hi is None and ex.provable(lo <= n) or sl.lo is None or ex.provable(lo <= hi):
        return lo, z3.simplify(hi - lo), 1
    return lo, z3.simplify(z3.If(hi > lo, hi - lo, IV(0))), 1


def store(ex, buf, axes, dims, val):
    if not isinstance(buf, Buf):
        raise Unsupported('store into an expression')
    if buf.param:
        raise Unsupported('store into an argument')
    val = to_nd(val)
    if val.rank > len(dims):
        raise Unsupported('store of a value of higher rank')
    target = Fx(dims, lambda idx: z3.RealVal(0), 'real')
    off = len(dims) - val.rank
    maps = []
    for k in range(val.rank):
        n, m = to_int(val.dims[k]), to_int(dims[k + off])
        if same(ex, n, m):
            maps.append(lambda i: i)
        elif ex.branch(n == m):
            maps.append(lambda i: i)
        elif ex.branch(n == 1):
            maps.append(lambda i: IV(0))
        else:
            raise PyRaise('ValueError', line=ex.line)
    ex.mutate(buf, 'cells')
    vs = [z3.Int(f'c!{k}') for k in range(buf.rank)]
    inside, view = [], [None] * len(dims)
    for k, a in enumerate(axes):
        if a[0] == 'fix':
            inside.append(vs[k] == a[1])
        else:
            p = vs[k] - to_int(a[2]) if a[3] == 1 else to_int(a[2]) - vs[k]
            p = z3.simplify(p)
            view[a[1]] = p
            if not (is_full(a, None) and z3.eq(z3.simplify(to_int(dims[a[1]])), z3.simplify(to_int(buf.dims[k])))):
                inside.append(rng(p, to_int(dims[a[1]])))
    view = [IV(0) if p is None else p for p in view]
    old = buf.tok
    new = ex.fresh('array', ND)
    v = to_real(num(val, [f(view[k + off]) for k, f in enumerate(maps)]))
    cell = EL[buf.rank](new, *vs)
    inr = z3.And(*[rng(x, to_int(d)) for x, d in zip(vs, buf.dims)]) if vs else z3.BoolVal(True)
    body = z3.If(z3.And(*inside), v, EL[buf.rank](old, *vs)) if inside else v
    ex.assume(z3.ForAll(vs, z3.Implies(inr, cell == body), patterns=[cell]) if vs else cell == body)
    shape_is(ex, new, buf.dims)
    buf.tok = new


def materialise(ex, v, name='array'):
    """A new token with the entries of v."""
    v = to_nd(v)
    if isinstance(v, View) and isinstance(v.base, (Buf, TokRoot)) and v.whole():
        return v.base.tok
    t = ex.fresh(name, ND)
    vs = [z3.Int(f'c!{k}') for k in range(v.rank)]
    cell = EL[v.rank](t, *vs)
    body = to_real(num(v, vs))
    if vs:
        inr = z3.And(*[rng(x, to_int(d)) for x, d in zip(vs, v.dims)])
        ex.assume(z3.ForAll(vs, z3.Implies(inr, cell == body), patterns=[cell]))
    else:
        ex.assume(cell == body)
    shape_is(ex, t, v.dims)
    return t


def whole(tok, rank, dims=None, param=False):
    dims = tuple(S[k](tok) for k in range(rank)) if dims is None else tuple(dims)
    return View(Buf(tok, dims, param), [('ax', k, IV(0), 1) for k in range(rank)], dims)


def copy(ex, v):
    return whole(materialise(ex, v), v.rank, v.dims)


class NdT:
    """The type of arrays of one rank."""
    def __init__(self, rank):
        self.rank = rank

    def __eq__(self, o):
        return isinstance(o, NdT) and o.rank == self.rank

    def __hash__(self):
        return hash(('nd', self.rank))

    def leaf_sorts(self):
        return [ND]

    def pack(self, v):
        if not isinstance(v, Nd) or v.rank != self.rank:
            raise Unsupported('an array of another rank')
        if not (isinstance(v, View) and isinstance(v.base, (Buf, TokRoot)) and v.whole()):
            raise Unsupported('an array expression kept in a sequence')
        if isinstance(v.base, Buf):
            v.base.param = True         # from here on there is a copy of it
        return [v.base.tok]

    def unpack(self, it):
        return whole(next(it), self.rank, param=True)


EX = [None]         # the run in progress


# ---- truth functions
def positions(axis, rank):
    if axis is None:
        return set(range(rank))
    ks = axis if isinstance(axis, tuple) else (axis,)
    out = set()
    for k in ks:
        if not isinstance(k, int) or not -rank <= k < rank:
            raise Unsupported('axis')
        out.add(k % rank)
    return out


def any_(ex, v, axis=None, **kw):
    if kw:
        raise Unsupported('option of any')
    if is_boolv(v) or is_int(v) or is_real(v):
        return ex.truth(v)
    if isinstance(v, Truth):
        if v.neg:
            return invert(all_root(ex, v.v, axis))
        return any_(ex, v.v, axis)
    if isinstance(v, View) and isinstance(v.origin(), (TokRoot, NzRoot, AnyRoot)):
        return any_root(ex, v.freeze(), axis)
    raise Unsupported('any of this array')


def all_(ex, v, axis=None, **kw):
    if kw:
        raise Unsupported('option of all')
    if is_boolv(v) or is_int(v) or is_real(v):
        return ex.truth(v)
    if isinstance(v, Truth) and v.neg:
        return invert(any_(ex, v.v, axis))
    v = to_nd(v)
    if positions(axis, v.rank) == set(range(v.rank)):
        vs = [z3.Int(f'q!{k}') for k in range(v.rank)]
        b = v.at(vs)
        b = b if v.sort == 'bool' else b != 0
        if not vs:
            return b
        pats = patterns(b, vs)
        inr = z3.And(*[rng(x, to_int(d)) for x, d in zip(vs, v.dims)])
        return z3.ForAll(vs, z3.Implies(inr, b), patterns=pats) if pats else z3.ForAll(vs, z3.Implies(inr, b))
    raise Unsupported('all of this array')


def all_root(ex, v, axis):
    raise Unsupported('all of nonzero tests')


def patterns(b, vs):
    out = []
    for s in _subs(b):
        if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_UNINTERPRETED and s.num_args() and all(any(z3.eq(u, x) for u in _subs(s)) for x in vs) \
                and all(any(z3.eq(c, x) for x in vs) or not any(z3.eq(u, x) for u in _subs(c) for x in vs) for c in s.children()):
            out.append(s)
    return out[:3]


def invert(v):
    if isinstance(v, Nd):
        return Fx(v.dims, lambda idx: z3.Not(v.at(idx)), 'bool') if v.dims else z3.Not(v.at([]))
    return (not v) if isinstance(v, bool) else z3.Not(v)


def any_root(ex, v, axis):
    root, red = v.base, positions(axis, v.rank)
    R = set()
    for k, a in enumerate(v.axes):
        if a[0] == 'ax' and a[1] in red:
            R.add(k)
            n = v.dims[a[1]]
            if not ((is_full(a, None) or a[3] == -1 and same(ex, a[2], to_int(root.dims[k]) - 1)) and same(ex, n, root.dims[k])):
                raise Unsupported('any over part of an axis')
    left = [k for k in range(v.rank) if k not in red]
    new = {k: p for p, k in enumerate(left)}

    def view(base, keep):
        axes = []
        for k in keep:
            a = v.axes[k]
            axes.append(a if a[0] == 'fix' else ('ax', new[a[1]], a[2], a[3]))
        r = View(base, axes, [v.dims[k] for k in left])
        return r if left else r.at([])
    r = root.rank
    if any(k not in {a[1] for a in v.axes if a[0] == 'ax'} for k in red):
        # an axis of extent one that was added
        if any(not same(ex, v.dims[k], 1) for k in red if k not in {a[1] for a in v.axes if a[0] == 'ax'}):
            raise Unsupported('any')
    if isinstance(root, TokRoot):
        if r not in (3, 4) or not {r - 3, r - 2} <= R:
            raise Unsupported('any over these axes')
        lead = list(range(r - 3))
        if r - 1 in R:
            if lead and 0 in R:
                x = z3.Int('q!any')
                return z3.Exists([x], z3.And(rng(x, to_int(root.dims[0])), ANY[r](root.tok, x)))
            return view(AnyRoot(root.tok, root.dims), lead)
        if lead and 0 in R:
            return view(SomeRoot(root.tok, root.dims), [r - 1])
        return view(NzRoot(root.tok, root.dims), lead + [r - 1])
    if isinstance(root, NzRoot):
        last = r - 1
        if R == {last}:
            return view(AnyRoot(root.tok, root.full), list(range(last)))
        if r == 2 and R == {0}:
            return view(SomeRoot(root.tok, root.full), [1])
    if isinstance(root, AnyRoot) and not R and not root.rank:
        return v.at([])
    raise Unsupported('any over these axes')


def argmax(ex, v, axis=None, **kw):
    if kw:
        raise Unsupported('option of argmax')
    if isinstance(v, View) and isinstance(v.origin(), NzRoot):
        root = v.base
        red = positions(axis, v.rank)
        k = root.rank - 1
        a = v.axes[k]
        if len(red) == 1 and a[0] == 'ax' and red == {a[1]} and (axis is not None or v.rank == 1):
            D = to_int(root.dims[k])
            if not same(ex, v.dims[a[1]], D):
                raise Unsupported('argmax over part of an axis')
            if not ex.branch(D >= 1):
                raise PyRaise('ValueError', line=ex.line)
            left = [q for q in range(v.rank) if q not in red]
            new = {q: p for p, q in enumerate(left)}
            rest = [x if x[0] == 'fix' else ('ax', new[x[1]], x[2], x[3]) for x in v.axes[:k]]
            r = len(root.full)
            if a[3] == 1:
                f = lambda X: z3.If(ANY[r](root.tok, *X), LO[r](root.tok, *X), IV(0))
            else:
                f = lambda X: z3.If(ANY[r](root.tok, *X), D - 1 - HI[r](root.tok, *X), IV(0))
            if not left:
                return f(locate(rest, []))
            return Fx([v.dims[q] for q in left], lambda idx: f(locate(rest, idx)), 'int')
    raise Unsupported('argmax of this array')


def count_nonzero(ex, v, axis=None, **kw):
    if kw:
        raise Unsupported('option of count_nonzero')
    if isinstance(v, Truth) and not v.neg:
        v = v.v
    if isinstance(v, View) and isinstance(v.origin(), TokRoot):
        v = v.freeze()
        root, red, r = v.base, positions(axis, v.rank), v.base.rank
        if r in (3, 4) and v.whole() and red == {r - 3, r - 2, r - 1}:
            w = View(NzRoot(root.tok, root.dims), [], [])
            f = lambda X: CNT[r](root.tok, *X)
            return f([]) if r == 3 else Fx(v.dims[:1], f, 'int')
    raise Unsupported('count of this array')


def amax(ex, v, axis=None, **kw):
    if kw or axis is not None:
        raise Unsupported('option of max')
    if is_int(v) or is_real(v):
        return v
    v = to_nd(v)
    if v.rank == 0:
        return v.at([])
    if v.rank != 1 or v.sort != 'int':
        raise Unsupported('max of this array')
    n = to_int(v.dims[0])
    if not ex.branch(n >= 1):
        raise PyRaise('ValueError', line=ex.line)
    m, w, x = ex.fresh('max', I_), ex.fresh('argmax', I_), z3.Int('x!max')
    ex.assume(z3.And(rng(w, n), v.at([w]) == m))
    b = v.at([x])
    pats = patterns(b, [x])
    q = z3.Implies(rng(x, n), b <= m)
    ex.assume(z3.ForAll([x], q, patterns=pats) if pats else z3.ForAll([x], q))
    return m


def where(ex, c, a, b):
    c, a, b = to_nd(c), to_nd(a), to_nd(b)
    dims, (ic, ia, ib) = broadcast(ex, c, a, b)
    ic, ia, ib = (eager(m, len(dims)) for m in (ic, ia, ib))
    s = numsort(a, b)
    r = Fx(dims, lambda idx: z3.If(c.at(ic(idx)), num(a, ia(idx)), num(b, ib(idx))), s)
    return r if dims else r.at([])


def matmul(ex, a, b):
    a, b = to_nd(a), to_nd(b)
    if a.rank < 2 or b.rank < 2 or a.rank > 3 or b.rank > 3:
        raise Unsupported('matrix product of these ranks')
    J = to_int(a.dims[-1])
    if not ex.branch(J == to_int(b.dims[-2])):
        raise PyRaise('ValueError', line=ex.line)
    ba, bb = Fx(a.dims[:-2], None, 'real'), Fx(b.dims[:-2], None, 'real')
    dims, (ia, ib) = broadcast(ex, ba, bb)
    ia, ib = eager(ia, len(dims)), eager(ib, len(dims))
    n = len(dims)
    j = z3.Int('j!mm')

    def at(idx):
        X = idx[:n]
        return lift_sum(j, to_real(a.at([*ia(X), idx[n], j])) * to_real(b.at([*ib(X), j, idx[n + 1]])), IV(0), J)
    return Fx([*dims, a.dims[-2], b.dims[-1]], at, 'real')


def sum_arrays(ex, g):
    """sum(array for ... in ... if ...): entry by entry; None when the items are not arrays."""
    from .interp import Frame, _FILTERED
    gens = g.node.generators
    if len(gens) != 1:
        return None
    gen = gens[0]
    fr = Frame(None, g.frame.module, g.frame, g.frame.site)
    it = ex.to_iter(getattr(g, 'first', None) if getattr(g, 'first', None) is not None else ex.eval(gen.iter, fr))
    if isinstance(it, list):
        return None
    n = to_int(it.n)
    t = z3.Int(f't!{len(ex.bound)}!{ex.cnt.setdefault("tvar", 0)}')
    ex.cnt['tvar'] += 1

    def one():
        ex.assume(z3.And(t >= 0, t < n))
        ex.assign(gen.target, it.item(t), fr)
        for c in gen.ifs:
            if not ex.branch(ex.truth(ex.eval(c, fr))):
                return _FILTERED
        return ex.eval(g.node.elt, fr)
    ex.bound.append((t, n))
    try:
        cases = ex.sub_explore(one)
    finally:
        ex.bound.pop()
    vals = [([f for f in facts if not z3.eq(f, t >= 0) and not z3.eq(f, t < n)], v) for facts, v in cases if v is not _FILTERED]
    if not vals or not all(isinstance(v, Nd) for _, v in vals):
        raise Unsupported('sum')
    known = lambda f: not any(z3.eq(u, t) for u in _subs(f)) and ex.provable(f) is True
    vals = [([f for f in pf if not known(f)], v.freeze()) for pf, v in vals]
    first = vals[0][1]
    for _, v in vals[1:]:
        if v.rank != first.rank or not all(same(ex, x, y) for x, y in zip(v.dims, first.dims)):
            raise Unsupported('sum of arrays of several shapes')

    def at(idx):
        body = z3.RealVal(0)
        for pf, v in reversed(vals):
            x = to_real(num(v, idx))
            body = z3.If(z3.And(*pf), x, body) if pf else x
        return lift_sum(t, body, IV(0), n)
    return Fx(first.dims, at, 'real')


# ---- constructors
class DType(Model):
    tname = 'dtype'


DTYPE = DType()


def dims_of(ex, shape):
    if is_int(shape):
        return (to_int(shape),)
    l = ex.concrete_list(shape)
    if l is None:
        raise Unsupported('shape of unknown length')
    return tuple(to_int(x) for x in l)


def new(ex, dims, fn):
    for d in dims:
        if not ex.branch(to_int(d) >= 0):
            raise PyRaise('ValueError', line=ex.line)
    return whole(materialise(ex, Fx(dims, fn, 'real')), len(dims), dims)


def zeros(ex, shape, dtype=None):
    return new(ex, dims_of(ex, shape), lambda idx: z3.RealVal(0))


def identity(ex, n, dtype=None):
    n = to_int(n)
    return new(ex, (n, n), lambda idx: z3.If(idx[0] == idx[1], z3.RealVal(1), z3.RealVal(0)))


def array(ex, v, dtype=None):
    """numpy.array of a list of numbers, or of lists of numbers."""
    v = v if isinstance(v, Nd) else from_seq(v)
    return copy(ex, v)


def broadcast_shapes(ex, *shapes):
    vs = [Fx(dims_of(ex, s), None, 'real') for s in shapes]
    return tuple(broadcast(ex, *vs)[0])


def ndindex(ex, *shape):
    if len(shape) == 1 and not is_int(shape[0]):
        shape = dims_of(ex, shape[0])
    if len(shape) == 0:
        return ((),)
    if len(shape) == 1:
        return Iter(to_int(shape[0]), lambda k: (k,))
    raise Unsupported('ndindex of several axes')


OFFS = F('OFFS', z3.ArraySort(I_, ND), I_, I_)      # OFFS(As, k): number of rows in As[0], ..., As[k-1]


def offsets(arr):
    k = z3.Int('k!off')
    return [OFFS(arr, 0) == 0, z3.ForAll([k], z3.Implies(k >= 0, OFFS(arr, k + 1) == OFFS(arr, k) + S[0](arr[k])), patterns=[OFFS(arr, k + 1)])]


def same_offsets():
    """Offsets depend on the extents only (by induction on k)."""
    P, Q, k, q = z3.Const('P!off', z3.ArraySort(I_, ND)), z3.Const('Q!off', z3.ArraySort(I_, ND)), z3.Int('k!off'), z3.Int('q!off')
    return [z3.ForAll([P, Q, k], z3.Implies(z3.ForAll([q], z3.Implies(rng(q, k), S[0](P[q]) == S[0](Q[q]))), OFFS(P, k) == OFFS(Q, k)),
                      patterns=[z3.MultiPattern(OFFS(P, k), OFFS(Q, k))])]


def concatenate(ex, vs, axis=0, **kw):
    if axis != 0 or kw:
        raise Unsupported('concatenate')
    s = as_sseq(ex.as_seq(vs))
    if s.et is None:
        raise PyRaise('ValueError', line=ex.line)
    if s.et[0] != 'model' or not isinstance(s.et[1], NdT):
        raise Unsupported('concatenate')
    r, A, n = s.et[1].rank, s.arrs[0], to_int(s.n)
    if not ex.branch(n >= 1):
        raise PyRaise('ValueError', line=ex.line)
    k = z3.Int('k!cc')
    if not ex.branch(z3.And(*[z3.ForAll([k], z3.Implies(rng(k, n), S[q](A[k]) == S[q](A[0])), patterns=[A[k]]) for q in range(1, r)])):
        raise PyRaise('ValueError', line=ex.line)
    for f in offsets(A):
        ex.assume(f)
    t = ex.fresh('array', ND)
    dims = (OFFS(A, n),) + tuple(S[q](A[0]) for q in range(1, r))
    vs = [z3.Int(f'c!{q}') for q in range(r)]
    X = [OFFS(A, k) + vs[0]] + vs[1:]
    src = EL[r](A[k], *vs)
    inr = z3.And(rng(k, n), *[rng(v, S[q](A[k])) for q, v in enumerate(vs)])
    P = z3.Const('P!cc', z3.ArraySort(I_, ND))
    y = vs[0] - OFFS(A, k)
    ex.assume(z3.ForAll([k, *vs], z3.Implies(inr, EL[r](t, *X) == src), patterns=[src]))
    ex.assume(z3.ForAll([P, k, *vs], z3.Implies(z3.And(rng(k, n), rng(y, S[0](A[k])), *[rng(v, S[q](A[k])) for q, v in enumerate(vs) if q]),
                                                EL[r](t, *vs) == EL[r](A[k], y, *vs[1:])), patterns=[z3.MultiPattern(EL[r](t, *vs), OFFS(P, k))]))
    shape_is(ex, t, dims)
    return whole(t, r, dims)


EXTERNALS = {
    'numpy.zeros': Fn(zeros, 'zeros'),
    'numpy.identity': Fn(identity, 'identity'),
    'numpy.eye': Fn(identity, 'eye'),
    'numpy.any': Fn(any_, 'any'),
    'numpy.all': Fn(all_, 'all'),
    'numpy.argmax': Fn(argmax, 'argmax'),
    'numpy.max': Fn(amax, 'max'),
    'numpy.amax': Fn(amax, 'max'),
    'numpy.count_nonzero': Fn(count_nonzero, 'count_nonzero'),
    'numpy.where': Fn(where, 'where'),
    'numpy.matmul': Fn(matmul, 'matmul'),
    'numpy.broadcast_shapes': Fn(broadcast_shapes, 'broadcast_shapes'),
    'numpy.ndindex': Fn(ndindex, 'ndindex'),
    'numpy.concatenate': Fn(concatenate, 'concatenate'),
    'numpy.array': Fn(array, 'array'),
    'numpy.shape': Fn(lambda ex, v: v.getattr(ex, 'shape'), 'shape'),
    'numpy.ndim': Fn(lambda ex, v: v.rank, 'ndim'),
    'numpy.logical_not': Fn(lambda ex, v: invert(to_nd(v)), 'logical_not'),
    'numpy.int64': DTYPE, 'numpy.int32': DTYPE,
}
