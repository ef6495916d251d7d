"""Symbolic values used by the verification-condition generator.

Python scalars stay Python scalars while they are concrete.  Symbolic integers are z3 Int terms, symbolic
elements of an abstract commutative ring are z3 Real terms, everything opaque is a term of an uninterpreted sort.
Sequences of symbolic length are structures of arrays (SSeq); mutable lists are identity objects (LObj) around
either a Python list of values or an SSeq.
"""
from __future__ import annotations
import itertools
import z3


class Unsupported(Exception):
    """The construct is outside the verifier's subset: nothing is claimed about the function."""


class PathEnd(Exception):
    """This path has been cut (loop iteration finished, infeasible...)."""


class Restart(Exception):
    """The loop frame information was incomplete; run the exploration again."""


class PyRaise(Exception):
    def __init__(self, name, msg='', line=None, obj=None):
        super().__init__(name)
        self.name, self.msg, self.line, self.obj = name, msg, line, obj


_birth = itertools.count()

INT, REAL, BOOL = ('int',), ('real',), ('bool',)


def is_z3(v):
    return isinstance(v, z3.ExprRef)


def is_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (isinstance(v, z3.ArithRef) and v.is_int())


def is_real(v):
    return isinstance(v, z3.ArithRef) and v.is_real()


def is_boolv(v):
    return isinstance(v, bool) or isinstance(v, z3.BoolRef)


def to_z3(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if is_z3(v):
        return v
    raise Unsupported(f'not a scalar term: {v!r}')


def to_int(v):
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, z3.ArithRef) and v.is_int():
        return v
    raise Unsupported(f'not an integer: {v!r}')


def to_real(v):
    if isinstance(v, bool):
        return z3.RealVal(int(v))
    if isinstance(v, int):
        return z3.RealVal(v)
    if isinstance(v, z3.ArithRef):
        if v.is_int():
            return z3.simplify(z3.ToReal(v)) if z3.is_int_value(v) else z3.ToReal(v)
        return v
    raise Unsupported(f'not a ring element: {v!r}')


class SSeq:
    """Immutable symbolic sequence: element type, length (z3 Int or python int), one z3 array per leaf."""
    __slots__ = ('et', 'n', 'arrs', 'kind', 'prov')

    def __init__(self, et, n, arrs, kind='tuple', prov=None):
        self.et, self.n, self.arrs, self.kind, self.prov = et, n, tuple(arrs), kind, prov

    def get(self, i):
        i = to_int(i)
        return unpack(self.et, [z3.Select(a, i) for a in self.arrs])

    def set(self, i, v):
        i = to_int(i)
        leaves = pack(self.et, v)
        return SSeq(self.et, self.n, [z3.Store(a, i, l) for a, l in zip(self.arrs, leaves)], self.kind)

    def with_kind(self, kind):
        return SSeq(self.et, self.n, self.arrs, kind, self.prov)

    def __repr__(self):
        return f'SSeq<{self.et},{self.n},{self.kind}>'


class LObj:
    """A list object (mutable, compared by identity inside the verifier)."""
    def __init__(self, val, derived=False):
        self.val = val
        self.derived = derived
        self.birth = next(_birth)

    def __repr__(self):
        return f'LObj({self.val!r})'


class Obj:
    """Instance of a repository class."""
    alias = None            # what it has become part of

    def __init__(self, cls, fields):
        self.cls = cls
        self.fields = dict(fields)
        self.birth = next(_birth)

    def __repr__(self):
        return f'Obj<{self.cls.name}>({self.fields})'


class SetObj:
    """Set of integers given by a membership array, or a concrete list of values."""
    def __init__(self, member=None, items=None):
        self.member, self.items = member, items
        self.birth = next(_birth)


class SMap:
    """A mutable map with symbolic keys, described by a plug-in model object."""
    def __init__(self, model):
        self.model = model
        self.birth = next(_birth)


class DictObj:
    """Dict with concrete (hashable) keys."""
    def __init__(self, d=None):
        self.d = dict(d or {})
        self.birth = next(_birth)


class Iter:
    """A symbolic iterable: n items, item(k) gives the k-th one (pure)."""
    def __init__(self, n, item, prov=None):
        self.n, self.item, self.prov = n, item, prov


class ProdIter:
    """itertools.product of several iterables."""
    def __init__(self, parts):
        self.parts = parts


class GenExp:
    """An unevaluated generator expression (node, frame)."""
    def __init__(self, node, frame):
        self.node, self.frame = node, frame


class SliceV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class StrV:
    """An opaque string built by formatting."""
    def __init__(self, parts):
        self.parts = parts

    def __repr__(self):
        return f'StrV({self.parts!r})'


class Model:
    """Base class of plug-in values (numpy arrays, random sources...): override what is supported."""
    tname = 'model'

    def getattr(self, ex, name):
        raise Unsupported(f'attribute {name} of {self.tname}')

    def call(self, ex, args, kw):
        raise Unsupported(f'call of {self.tname}')

    def getitem(self, ex, key):
        raise Unsupported(f'subscript of {self.tname}')

    def setitem(self, ex, key, val):
        raise Unsupported(f'subscript store on {self.tname}')

    def binop(self, ex, op, other, swapped):
        raise Unsupported(f'operator {op} on {self.tname}')

    def inplace(self, ex, op, other):
        return self.binop(ex, op, other, False)

    def compare(self, ex, op, other, swapped):
        raise Unsupported(f'comparison {op} on {self.tname}')

    def truth(self, ex):
        raise Unsupported(f'truth of {self.tname}')

    def iter(self, ex):
        raise Unsupported(f'iteration over {self.tname}')

    def length(self, ex):
        raise Unsupported(f'len of {self.tname}')

    def type(self):
        raise Unsupported(f'type of {self.tname}')

    def isinstance(self, ex, what):
        return False


class Bits(Model):
    """A nonnegative integer as the set of its binary digits: 1 << x, 2 ** x, |, 2 ** x - 1, equality."""
    tname = 'bit mask'

    def __init__(self, member, single=None):
        self.member, self.single = member, single

    @staticmethod
    def power(x):
        return Bits(z3.Store(z3.K(z3.IntSort(), False), x, True), x)

    @staticmethod
    def empty():
        return Bits(z3.K(z3.IntSort(), False))

    def has(self, x):
        return z3.simplify(z3.Select(self.member, x))

    def type(self):
        return ('model', BitsT())

    def binop(self, ex, op, other, swapped):
        if op == 'Sub' and not swapped and self.single is not None and isinstance(other, int) and other == 1:
            x = z3.Int('x!bits')
            return Bits(z3.Lambda([x], z3.And(x >= 0, x < self.single)))
        if op == 'BitOr':
            o = Bits.empty() if isinstance(other, int) and other == 0 else other
            if isinstance(o, Bits):
                x = z3.Int('x!bits')
                return Bits(z3.Lambda([x], z3.Or(self.has(x), o.has(x))))
        raise Unsupported(f'operator {op} on a bit mask')

    def compare(self, ex, op, other, swapped):
        o = Bits.empty() if isinstance(other, int) and other == 0 else other
        if op in ('Eq', 'NotEq') and isinstance(o, Bits):
            x = z3.FreshInt('x!bits')
            l, r = self.has(x), o.has(x)
            trig = [s for s in (l, r) if z3.is_select(s)]
            e = z3.ForAll([x], l == r, patterns=trig) if trig else z3.ForAll([x], l == r)
            return e if op == 'Eq' else z3.Not(e)
        raise Unsupported(f'comparison {op} of a bit mask')


class BitsT:
    def __eq__(self, o):
        return isinstance(o, BitsT)

    def __hash__(self):
        return 17

    def leaf_sorts(self):
        return [z3.ArraySort(z3.IntSort(), z3.BoolSort())]

    def pack(self, v):
        return [v.member]

    def unpack(self, it):
        return Bits(next(it))


class Fn(Model):
    """A python-implemented function value."""
    tname = 'function'

    def __init__(self, f, name='fn'):
        self.f, self.name = f, name

    def call(self, ex, args, kw):
        return self.f(ex, *args, **kw)


# ---------------------------------------------------------------- types and packing

def typeof(v):
    if isinstance(v, bool) or isinstance(v, z3.BoolRef):
        return BOOL
    if isinstance(v, int):
        return INT
    if v is None or isinstance(v, (str, float, bytes)):
        return ('const', v)
    if isinstance(v, z3.ArithRef):
        return INT if v.is_int() else REAL
    if isinstance(v, z3.ExprRef):
        return ('sort', v.sort())
    if isinstance(v, tuple):
        return ('tup', tuple(typeof(x) for x in v))
    if isinstance(v, SSeq):
        return ('seq', v.et, v.kind)
    if isinstance(v, LObj):
        if isinstance(v.val, SSeq):
            return ('seq', v.val.et, 'list')
        if not v.val:
            return ('seq', None, 'list')
        t = None
        for x in v.val:
            t = join(t, typeof(x))
        return ('seq', t, 'list')
    if isinstance(v, Obj):
        return ('obj', v.cls, tuple((k, typeof(x)) for k, x in sorted(v.fields.items())))
    if isinstance(v, Model):
        return v.type()
    raise Unsupported(f'no symbolic type for {type(v).__name__}')


def join(a, b):
    if a is None:
        return b
    if b is None or a == b:
        return a
    if {a[0], b[0]} == {'int', 'real'}:
        return REAL
    if {a[0], b[0]} <= {'int', 'bool'}:
        return INT
    if a[0] == b[0] == 'seq':
        return ('seq', join(a[1], b[1]), a[2] if a[2] == b[2] else 'tuple')
    if a[0] == b[0] == 'tup' and len(a[1]) == len(b[1]):
        return ('tup', tuple(join(x, y) for x, y in zip(a[1], b[1])))
    if {a[0], b[0]} == {'tup', 'seq'}:
        t, s = (a, b) if a[0] == 'tup' else (b, a)
        et = s[1]
        for x in t[1]:
            et = join(et, x)
        return ('seq', et, s[2])
    if a[0] == b[0] == 'obj' and a[1] is b[1] and [k for k, _ in a[2]] == [k for k, _ in b[2]]:
        return ('obj', a[1], tuple((k, join(x, y)) for (k, x), (_, y) in zip(a[2], b[2])))
    raise Unsupported(f'values of different kinds meet: {a} / {b}')


def leaf_sorts(t):
    k = t[0]
    if k == 'int':
        return [z3.IntSort()]
    if k == 'real':
        return [z3.RealSort()]
    if k == 'bool':
        return [z3.BoolSort()]
    if k == 'sort':
        return [t[1]]
    if k == 'const':
        return []
    if k == 'tup':
        return [s for x in t[1] for s in leaf_sorts(x)]
    if k == 'seq':
        if t[1] is None:
            return [z3.IntSort()]
        return [z3.IntSort()] + [z3.ArraySort(z3.IntSort(), s) for s in leaf_sorts(t[1])]
    if k == 'obj':
        return [s for _, x in t[2] for s in leaf_sorts(x)]
    if k == 'model':
        return t[1].leaf_sorts()
    raise Unsupported(f'leaf sorts of {t}')


def length_leaves(t):
    """The positions, among the leaves of an element type, of the lengths of sequences."""
    if t[0] == 'seq':
        return [0]
    if t[0] in ('tup', 'obj'):
        out, k = [], 0
        for x in (t[1] if t[0] == 'tup' else [y for _, y in t[2]]):
            out += [k + i for i in length_leaves(x)]
            k += len(leaf_sorts(x))
        return out
    return []


def pack(t, v):
    """Value -> list of z3 leaf terms according to type t."""
    k = t[0]
    if k == 'int':
        return [to_int(v)]
    if k == 'real':
        return [to_real(v)]
    if k == 'bool':
        if isinstance(v, bool):
            return [z3.BoolVal(v)]
        if isinstance(v, z3.BoolRef):
            return [v]
        raise Unsupported(f'not a bool: {v!r}')
    if k == 'sort':
        if is_z3(v) and v.sort() == t[1]:
            return [v]
        raise Unsupported(f'sort mismatch storing {v!r} as {t}')
    if k == 'const':
        if v is t[1] or (type(v) is type(t[1]) and v == t[1]):
            return []
        raise Unsupported(f'constant mismatch {v!r} / {t[1]!r}')
    if k == 'tup':
        if not isinstance(v, tuple) or len(v) != len(t[1]):
            raise Unsupported('tuple shape mismatch')
        return [l for x, y in zip(t[1], v) for l in pack(x, y)]
    if k == 'seq':
        s = as_sseq(v, t[1])
        if isinstance(v, LObj):
            v.derived = True        # from here on there is a copy of it
        return [to_int(s.n)] + list(s.arrs)
    if k == 'obj':
        if not isinstance(v, Obj) or v.cls is not t[1]:
            raise Unsupported('object class mismatch')
        return [l for f, x in t[2] for l in pack(x, v.fields[f])]
    if k == 'model':
        return t[1].pack(v)
    raise Unsupported(f'pack {t}')


def unpack(t, leaves):
    it = iter(leaves)
    return _unpack(t, it)


def _unpack(t, it):
    k = t[0]
    if k in ('int', 'real', 'bool', 'sort'):
        return next(it)
    if k == 'const':
        return t[1]
    if k == 'tup':
        return tuple(_unpack(x, it) for x in t[1])
    if k == 'seq':
        n = next(it)
        if t[1] is None:
            if t[2] == 'list':
                return LObj(SSeq(None, n, (), 'list'), derived=True)
            return SSeq(None, n, (), t[2])
        arrs = [next(it) for _ in leaf_sorts(t[1])]
        s = SSeq(t[1], n, arrs, t[2])
        return LObj(s, derived=True) if t[2] == 'list' else s
    if k == 'obj':
        return Obj(t[1], {f: _unpack(x, it) for f, x in t[2]})
    if k == 'model':
        return t[1].unpack(it)
    raise Unsupported(f'unpack {t}')


def default_term(sort):
    if sort == z3.IntSort():
        return z3.IntVal(0)
    if sort == z3.RealSort():
        return z3.RealVal(0)
    if sort == z3.BoolSort():
        return z3.BoolVal(False)
    if sort.kind() == z3.Z3_ARRAY_SORT:
        return z3.K(sort.domain(), default_term(sort.range()))
    return z3.Const(f'default!{sort}', sort)


def as_sseq(v, et=None):
    """View a list/tuple/sequence value as an SSeq (of element type et if given)."""
    if isinstance(v, LObj):
        v = v.val if isinstance(v.val, SSeq) else tuple(v.val)
    if isinstance(v, SSeq):
        if et is None or v.et == et:
            return v
        if v.et is None:
            return SSeq(et, v.n, [default_term(z3.ArraySort(z3.IntSort(), s)) for s in leaf_sorts(et)], v.kind)
        return coerce_sseq(v, et)
    if isinstance(v, tuple):
        t = et
        if t is None:
            for x in v:
                t = join(t, typeof(x))
        if t is None:
            return SSeq(None, z3.IntVal(0), (), 'tuple')
        arrs = [z3.K(z3.IntSort(), default_term(s)) for s in leaf_sorts(t)]
        for i, x in enumerate(v):
            arrs = [z3.Store(a, z3.IntVal(i), l) for a, l in zip(arrs, pack(t, x))]
        return SSeq(t, z3.IntVal(len(v)), arrs, 'tuple')
    raise Unsupported(f'not a sequence: {v!r}')


def coerce_arr(a, frm, to):
    """Coerce an element array between element types (int -> real)."""
    if z3.is_K(a):
        return z3.K(z3.IntSort(), to_real(z3.simplify(a.arg(0))))
    if z3.is_store(a):
        return z3.Store(coerce_arr(a.arg(0), frm, to), a.arg(1), to_real(a.arg(2)))
    i = z3.Int('i!co')
    return z3.Lambda([i], z3.ToReal(z3.Select(a, i)))


def coerce_sseq(v, et):
    if v.et == INT and et == REAL:
        return SSeq(REAL, v.n, [coerce_arr(v.arrs[0], INT, REAL)], v.kind)
    if v.et[0] == 'seq' and et[0] == 'seq' and v.et[1] == et[1]:
        return SSeq(et, v.n, v.arrs, v.kind)
    raise Unsupported(f'cannot coerce a sequence of {v.et} to {et}')
