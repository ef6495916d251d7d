"""Models of the Python builtins and library functions the repository uses.

Each entry is part of the trusted base: it states what CPython's function does on the verifier's values.
"""
from __future__ import annotations
import math
import z3
from .values import *
from . import interp as I


def _range(ex, *a):
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if all(isinstance(x, int) for x in (lo, hi, st)):
        r = range(lo, hi, st)
        if len(r) <= ex.opts['unroll']:
            it = Iter(len(r), lambda k: z3.simplify(to_int(lo) + to_int(st) * to_int(k)), prov=('range', lo, hi, st))
            it.conc = list(r)
            return it
    if is_z3(st):
        st = z3.simplify(st)
        if not z3.is_int_value(st):
            raise Unsupported('range with a symbolic step')
        st = st.as_long()
    L, H = to_int(lo), to_int(hi)
    if st == 1:
        n = H - L
    elif st == -1:
        n = L - H
    elif st > 0:
        n = (H - L + (st - 1)) / st
    elif st < 0:
        n = (L - H + (-st - 1)) / (-st)
    else:
        raise PyRaise('ValueError', line=ex.line)
    n = z3.simplify(n)
    if not ex.provable(n >= 0):
        n = z3.If(n > 0, n, z3.IntVal(0))
    return Iter(n, lambda k: z3.simplify(L + st * to_int(k)) if st != 1 or not (isinstance(lo, int) and lo == 0)
                else to_int(k), prov=('range', lo, hi, st))


def _itl(ex, v):
    """iterable -> python list or Iter"""
    if isinstance(v, Iter) and hasattr(v, 'conc'):
        return v.conc
    return ex.to_iter(v)


def _enumerate(ex, v, start=0):
    it = _itl(ex, v)
    if isinstance(it, list):
        return tuple((ex.arith('Add', start, i), x) for i, x in enumerate(it))
    r = Iter(it.n, lambda k: (z3.simplify(to_int(start) + to_int(k)), it.item(k)))
    r.base = it
    return r


def _zip(ex, *vs, strict=False):
    its = [_itl(ex, v) for v in vs]
    if all(isinstance(i, list) for i in its):
        return tuple(zip(*its))
    its = [to_it(i) for i in its]
    n = to_int(its[0].n)
    for i in its[1:]:
        m = to_int(i.n)
        if ex.provable(n <= m):
            continue
        n = m if ex.provable(m <= n) else z3.If(n <= m, n, m)
    return Iter(n, lambda k: tuple(i.item(k) for i in its))


def to_it(i):
    if isinstance(i, list):
        s = as_sseq(tuple(i))
        return Iter(len(i), lambda k: s.get(k))
    return i


def _zip_longest(ex, *vs, fillvalue=None):
    its = [_itl(ex, v) for v in vs]
    if all(isinstance(i, list) for i in its):
        import itertools
        return tuple(itertools.zip_longest(*its, fillvalue=fillvalue))
    its = [to_it(i) for i in its]
    n = to_int(its[0].n)
    for i in its[1:]:
        m = to_int(i.n)
        n = n if ex.provable(n >= m) else (m if ex.provable(m >= n) else z3.If(n >= m, n, m))

    def item(k):
        out = []
        for i in its:
            v = i.item(k)
            c = to_int(k) < to_int(i.n)
            out.append(v if ex.provable(c) else I.ite(c, v, fillvalue))
        return tuple(out)
    return Iter(n, item)


def _reversed(ex, v):
    if isinstance(v, Iter) and getattr(v, 'prov', None) and v.prov[0] == 'range' and not hasattr(v, 'conc'):
        pass
    it = _itl(ex, v)
    if isinstance(it, list):
        return tuple(it[::-1])
    n = to_int(it.n)
    return Iter(it.n, lambda k: it.item(z3.simplify(n - 1 - to_int(k))))


def _len(ex, v):
    return ex.length(v)


def _abs(ex, v):
    if isinstance(v, (int, float)):
        return abs(v)
    if isinstance(v, z3.ArithRef):
        if ex.provable(v >= 0):
            return v
        if ex.provable(v <= 0):
            return -v
        return z3.If(v >= 0, v, -v)
    if isinstance(v, Model):
        return v.call_builtin(ex, 'abs')
    raise Unsupported('abs')


def _minmax(which):
    def f(ex, *a, key=None, default=I._FILTERED):
        if key is not None:
            raise Unsupported('min/max with key')
        if len(a) == 1:
            l = ex.concrete_list(a[0])
            if l is None:
                return _minmax_seq(ex, which, a[0], default)
            a = l
            if not a:
                if default is not I._FILTERED:
                    return default
                raise PyRaise('ValueError', line=ex.line)
        r = a[0]
        for x in a[1:]:
            if isinstance(r, (int, float)) and isinstance(x, (int, float)):
                r = max(r, x) if which == 'max' else min(r, x)
                continue
            if isinstance(r, tuple) or isinstance(x, tuple):
                raise Unsupported('min/max of tuples')
            p, q = (to_int(r), to_int(x)) if is_int(r) and is_int(x) else (to_real(r), to_real(x))
            c = (p >= q) if which == 'max' else (p <= q)
            pr = ex.provable(c)
            r = p if pr is True else z3.If(c, p, q)
        return r
    return f


def _minmax_seq(ex, which, v, default):
    s = ex.as_seq(v)
    s = as_sseq(s)
    if s.et not in (INT, REAL):
        raise Unsupported('min/max of this sequence')
    n = to_int(s.n)
    if default is not I._FILTERED:
        if not ex.branch(n > 0):
            return default
    else:
        ex.check(n > 0, f'min/max of a nonempty sequence (line {ex.line})', 'safe')
    m = ex.fresh(which, z3.IntSort() if s.et == INT else z3.RealSort())
    w = ex.fresh('arg' + which, z3.IntSort())
    t = z3.Int('t!mm')
    a = s.arrs[0]
    ex.assume(z3.And(w >= 0, w < n))
    ex.assume(a[w] == m)
    cmp = (a[t] <= m) if which == 'max' else (a[t] >= m)
    ex.assume(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < n), cmp), patterns=[a[t]]))
    return m


def _sum(ex, v, start=0):
    if isinstance(v, GenExp) and ex.opts.get('nd') and isinstance(start, int) and start == 0:
        from .nd import sum_arrays
        r = sum_arrays(ex, v)
        if r is not None:
            return r
    if isinstance(v, GenExp):
        v = ex.gen_items(v)
    if isinstance(v, I.NestedSeq):
        return _sum_nested(ex, v, start)
    if isinstance(v, Model):
        r = getattr(v, 'sum_', None)
        if r is not None:
            return ex.binop('Add', start, r(ex))
    l = ex.concrete_list(v)
    if l is not None:
        r = start
        for x in l:
            r = ex.binop('Add', r, x)
        return r
    s = as_sseq(ex.as_seq(v))
    if s.et in (INT, BOOL):
        s = to_int_seq(ex, s)
        from .theory import SUMI
        r = SUMI(s.arrs[0], z3.IntVal(0), to_int(s.n))
        return r if isinstance(start, int) and start == 0 else ex.binop('Add', start, r)
    if s.et == REAL:
        from .theory import SUM
        r = SUM(s.arrs[0], z3.IntVal(0), to_int(s.n))
        return r if isinstance(start, int) and start == 0 else ex.binop('Add', start, r)
    h = ex.opts.get('sum_hook')
    if h:
        return h(ex, s, start)
    raise Unsupported(f'sum of {s.et}')


def to_int_seq(ex, s):
    if s.et == INT:
        return s
    N = ex.fresh('b2i', z3.ArraySort(z3.IntSort(), z3.IntSort()))
    t = z3.Int('t!b2i')
    b = s.arrs[0]
    ex.assume(z3.ForAll([t], z3.Select(N, t) == z3.If(z3.Select(b, t), z3.IntVal(1), z3.IntVal(0)),
                        patterns=[z3.Select(N, t), z3.Select(b, t)]))
    ex.rels.append(('map', N, t, z3.If(z3.Select(b, t), z3.IntVal(1), z3.IntVal(0)), to_int(s.n)))
    return SSeq(INT, s.n, [N], s.kind)


def _sum_nested(ex, v, start):
    inner = ex._map(v.it, v.target, [], v.fr, lambda: _sum(ex, v.inner() if not isinstance(v.inner(), list) else tuple(v.inner())))
    return _sum(ex, inner, start)


def _any_all(which):
    def f(ex, v):
        if isinstance(v, GenExp):
            v = ex.gen_items(v)
        if isinstance(v, I.NestedSeq):
            inner = ex._map(v.it, v.target, [], v.fr, lambda: f(ex, _tt(v.inner())))
            return f(ex, inner)
        l = ex.concrete_list(v)
        if l is not None:
            r = which == 'all'
            for x in l:
                t = ex.truth(x)
                r = I.conj(r, t) if which == 'all' else I.disj(r, t)
            return r
        s = as_sseq(ex.as_seq(v))
        t = z3.Int('t!aa')
        rng = z3.And(t >= 0, t < to_int(s.n))
        c = ex.truth(s.get(t))
        # unfold the definition of the element when it is a comprehension
        for r in reversed(ex.rels):
            if r[0] == 'map' and s.et == BOOL and z3.eq(r[1], s.arrs[0]):
                c = z3.substitute(r[3], (r[2], t))
                break
        c = z3.simplify(c) if is_z3(c) and not I.has_quant(c) and (z3.is_true(z3.simplify(c)) or z3.is_false(z3.simplify(c))) else c
        if isinstance(c, bool) or z3.is_true(c) or z3.is_false(c):      # the same for every item
            if (z3.is_true(c) if is_z3(c) else c) == (which == 'all'):
                return which == 'all'
            return to_int(s.n) <= 0 if which == 'all' else to_int(s.n) > 0
        trig = [x for x in I.subterms(c) if z3.is_select(x) and z3.eq(x.arg(1), t)]
        trig = [x for x in trig if not I.has_var(x.arg(0), t)][:3]
        b = z3.Implies(rng, c) if which == 'all' else z3.Implies(rng, I.neg(c))
        q = z3.ForAll([t], b, patterns=trig) if trig else z3.ForAll([t], b)
        return q if which == 'all' else I.neg(q)
    return f


def _tt(v):
    return tuple(v) if isinstance(v, list) else v


def _tuple(ex, v=()):
    r = ex.as_seq(v)
    return r if isinstance(r, tuple) else r.with_kind('tuple')


def _list(ex, v=()):
    r = ex.as_seq(v)
    return LObj(list(r)) if isinstance(r, tuple) else LObj(r.with_kind('list'))


def _set(ex, v=()):
    if isinstance(v, GenExp):
        v = ex.gen_items(v)
    return ex.make_set(v)


def _dict(ex, *a, **kw):
    d = DictObj()
    if a:
        if isinstance(a[0], DictObj):
            d.d.update(a[0].d)
        elif isinstance(a[0], Model) and hasattr(a[0], 'copied') and len(a) == 1 and not kw:
            return a[0].copied(ex)
        else:
            l = ex.concrete_list(a[0])
            if l is None:
                raise Unsupported('dict of a symbolic sequence')
            for k, v in l:
                d.d[ex.key(k)] = v
    d.d.update(kw)
    return d


def _isinstance(ex, v, c):
    if isinstance(c, tuple):
        r = [_isinstance(ex, v, x) for x in c]
        return any(r)
    if isinstance(v, Model) and not isinstance(v, Fn):
        return v.isinstance(ex, c)
    if isinstance(c, I.ClassInfo):
        return isinstance(v, Obj) and c in v.cls.mro(ex.repo)
    if isinstance(c, Fn):
        n = c.name
        if n == 'int':
            return is_int(v) or is_boolv(v) or (is_real(v) and ex.opts.get('real_is_int', True))
        if n == 'bool':
            return is_boolv(v)
        if n == 'tuple':
            return isinstance(v, tuple) or (isinstance(v, SSeq) and v.kind == 'tuple')
        if n == 'list':
            return isinstance(v, LObj)
        if n == 'str':
            return isinstance(v, (str, StrV))
        if n == 'float':
            return isinstance(v, float)
        if n == 'dict':
            return isinstance(v, (DictObj, SMap))
        if n == 'set':
            return isinstance(v, SetObj)
        if n == 'Sequence':
            return isinstance(v, (tuple, SSeq, LObj, str))
    raise Unsupported(f'isinstance against {c!r}')


def _int(ex, v=0, *a):
    if is_int(v) or is_boolv(v):
        return v if isinstance(v, int) and not isinstance(v, bool) else to_int(v) if not isinstance(v, bool) else int(v)
    if isinstance(v, str):
        return int(v, *a)
    if is_real(v) and ex.opts.get('real_is_int', True):
        return v
    if isinstance(v, Model):
        return v.call_builtin(ex, 'int')
    raise Unsupported('int()')


def _float(ex, v=0):
    if not ex.opts.get('floats'):
        raise Unsupported('float()')
    return to_real(v)


def _bool(ex, v=False):
    return ex.truth(v)


def _divmod(ex, a, b):
    if isinstance(a, Obj):
        return ex.call_method(a, '__divmod__', [b])
    return (ex.binop('FloorDiv', a, b), ex.binop('Mod', a, b))


def _map(ex, f, *vs):
    its = [_itl(ex, v) for v in vs]
    if all(isinstance(i, list) for i in its):
        return tuple(ex.call(f, list(x), {}) for x in zip(*its))
    if len(its) != 1:
        z = _zip(ex, *vs)
        fr = I.Frame(None, None)
        return ex._map(z, I.ast.Name(id='x!m', ctx=I.ast.Store()), [], fr, lambda: ex.call(f, list(fr.vars['x!m']), {}))
    fr = I.Frame(None, None)
    return ex._map(to_it(its[0]), I.ast.Name(id='x!m', ctx=I.ast.Store()), [], fr,
                   lambda: ex.call(f, [fr.vars['x!m']], {}))


def _sorted(ex, v, key=None, reverse=False):
    l = ex.concrete_list(v)
    if l is not None and all(isinstance(x, int) for x in l) and key is None:
        return LObj(sorted(l, reverse=bool(reverse)))
    h = ex.opts.get('sorted_hook')
    if h:
        return h(ex, v, key, reverse)
    if key is None and reverse is False:
        s = as_sseq(ex.as_seq(v))
        if s.et == INT:
            return sort_model(ex, s)
    raise Unsupported('sorted')


def sort_model(ex, s):
    """sorted(s): nondecreasing rearrangement, witnessed by a permutation of positions."""
    n = to_int(s.n)
    B = ex.fresh('sorted', z3.ArraySort(z3.IntSort(), z3.IntSort()))
    if ex.bound:
        raise Unsupported('sorted inside a comprehension')
    c = ex.fcount()
    p = z3.Function(f'sortp!{c}', z3.IntSort(), z3.IntSort())
    q = z3.Function(f'sortq!{c}', z3.IntSort(), z3.IntSort())
    t, u = z3.Ints('t!so u!so')
    A = s.arrs[0]
    ex.assume(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < n),
              z3.And(p(t) >= 0, p(t) < n, q(p(t)) == t, B[t] == A[p(t)])), patterns=[B[t], p(t)]))
    ex.assume(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < n),
              z3.And(q(t) >= 0, q(t) < n, p(q(t)) == t, A[t] == B[q(t)])), patterns=[A[t], q(t)]))
    ex.assume(z3.ForAll([t, u], z3.Implies(z3.And(0 <= t, t <= u, u < n), B[t] <= B[u]),
                        patterns=[z3.MultiPattern(B[t], B[u])]))
    ex.rels.append(('sorted', B, A, n))
    return LObj(SSeq(INT, s.n, [B], 'list'))


def _print(ex, *a, **k):
    return None


def _type(ex, v):
    if isinstance(v, Obj):
        return v.cls
    raise Unsupported('type()')


def _str(ex, v=''):
    if isinstance(v, (str, StrV)):
        return v
    if isinstance(v, int):
        return str(v)
    return StrV([('val', v)])


def _iter(ex, v):
    return v


def _next(ex, v, *d):
    if isinstance(v, GenExp):
        s = ex.gen_items(v)
        n = ex.length(s if not isinstance(s, list) else tuple(s))
        if ex.branch(ex.truth(ex.compare('Gt', n, 0))):
            return ex.getitem(s if not isinstance(s, list) else tuple(s), 0)
        if d:
            return d[0]
        raise PyRaise('StopIteration', line=ex.line)
    raise Unsupported('next()')


def _getattr(ex, o, name, *d):
    return ex.getattr(o, name)


def _hasattr(ex, o, name):
    if isinstance(o, Obj):
        return name in o.fields or o.cls.find(ex.repo, name) is not None
    raise Unsupported('hasattr')


def _slice(ex, *a):
    if len(a) == 1:
        return SliceV(None, a[0], None)
    return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)


BUILTINS = {}
for _n, _f in dict(range=_range, enumerate=_enumerate, zip=_zip, reversed=_reversed, len=_len, abs=_abs,
                   min=_minmax('min'), max=_minmax('max'), sum=_sum, any=_any_all('any'), all=_any_all('all'),
                   tuple=_tuple, list=_list, set=_set, frozenset=_set, dict=_dict, isinstance=_isinstance, int=_int, bool=_bool,
                   divmod=_divmod, map=_map, sorted=_sorted, print=_print, type=_type, str=_str, repr=_str,
                   iter=_iter, next=_next, getattr=_getattr, hasattr=_hasattr, slice=_slice).items():
    BUILTINS[_n] = Fn(_f, _n)
BUILTINS['NotImplemented'] = I.NOTIMPL
BUILTINS['Ellipsis'] = Ellipsis
BUILTINS['float'] = Fn(lambda ex, v=0.0: v if isinstance(v, float) else _float(ex, v), 'float')
for _n in ('ValueError', 'TypeError', 'KeyError', 'IndexError', 'AssertionError', 'Exception', 'StopIteration',
           'NotImplementedError', 'ZeroDivisionError'):
    BUILTINS[_n] = Fn(lambda ex, *a: None, _n)


# ---------------------------------------------------------------- library modules

class ModV(Model):
    tname = 'module'

    def __init__(self, name):
        self.name = name

    def getattr(self, ex, name):
        return ex.external(f'{self.name}.{name}')


def _product(ex, *vs, repeat=1):
    if isinstance(repeat, int) and repeat != 1:
        vs = vs * repeat
    vs = [v.conc if isinstance(v, Iter) and hasattr(v, 'conc') else v for v in vs]
    vs = [ex.gen_items(v) if isinstance(v, GenExp) else v for v in vs]
    return ProdIter([tuple(v) if isinstance(v, list) else v for v in vs])


def union_bits(ex, s):
    """The union of the sets of binary digits."""
    m = ex.fresh('bits', z3.ArraySort(z3.IntSort(), z3.BoolSort()))
    w = z3.Function(f'bitw!{m}', z3.IntSort(), z3.IntSort())
    x, t = z3.Int('x!bits'), z3.Int('t!bits')
    n = to_int(s.n)

    def elem(i):
        for r in reversed(ex.rels):
            if r[0] == 'map' and z3.eq(r[1], s.arrs[0]):
                return z3.substitute(r[3], (r[2], i))
        return z3.Select(s.arrs[0], i)
    has = lambda i, y: z3.simplify(z3.Select(elem(i), y))
    ex.assume(z3.ForAll([x], z3.Implies(m[x], z3.And(w(x) >= 0, w(x) < n, has(w(x), x))), patterns=[m[x]]))
    e = elem(t)
    if z3.is_store(e) and z3.is_K(e.arg(0)):
        j = z3.simplify(e.arg(1))
        ex.assume(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < n), m[j]), patterns=[j] if z3.is_select(j) else []))
    else:
        ex.assume(z3.ForAll([t, x], z3.Implies(z3.And(t >= 0, t < n, has(t, x)), m[x])))
    return Bits(m)


def _reduce(ex, f, v, *init):
    if isinstance(v, GenExp):
        v = ex.gen_items(v)
    l = ex.concrete_list(v)
    if l is not None:
        if init:
            acc = init[0]
        else:
            if not l:
                raise PyRaise('TypeError', line=ex.line)
            acc, l = l[0], l[1:]
        for x in l:
            acc = ex.call(f, [acc, x], {})
        return acc
    h = ex.opts.get('reduce_hook')
    if h:
        r = h(ex, f, v, *init)
        if r is not None:
            return r[0]
    if getattr(f, 'name', '') == 'operator.BitOr' and not ex.bound and init and isinstance(init[0], int) and init[0] == 0:
        s = as_sseq(ex.as_seq(v))
        if s.et is not None and s.et[0] == 'model' and isinstance(s.et[1], BitsT):
            return union_bits(ex, s)
    if not init:
        raise Unsupported('reduce without initial value over a symbolic sequence')
    # executed as the loop  acc = init; for x in v: acc = f(acc, x)
    node = I.ast.parse('for x_r in v_r:\n    acc_r = f_r(acc_r, x_r)\n').body[0]

    class FI:
        pass
    fi = FI()
    fi.qual, fi.loops, fi.cls = 'functools:reduce', {id(node): 0}, None
    fr = I.Frame(fi, ex.frames[-1].module if ex.frames else None, None, site=(ex.frames[-1].site if ex.frames else '') + f'>reduce')
    fr.vars.update(acc_r=init[0], f_r=f, v_r=v)
    ex.frames.append(fr)
    try:
        ex.st_For(node, fr)
        return fr.vars['acc_r']
    finally:
        ex.frames.pop()


def _accumulate(ex, v, func=None, **k):
    raise Unsupported('accumulate')


def _combinations(ex, v, r):
    import itertools
    l = ex.concrete_list(v)
    if l is None:
        raise Unsupported('combinations of a symbolic sequence')
    return tuple(itertools.combinations(l, r))


def _chain(ex, *vs):
    acc = ()
    for v in vs:
        acc = ex.concat(acc, ex.as_seq(v))
    return acc


def _opfn(op):
    return Fn(lambda ex, a, b: ex.binop(op, a, b), f'operator.{op}')


EXT = {
    'itertools.product': Fn(_product, 'product'), 'itertools.zip_longest': Fn(_zip_longest, 'zip_longest'),
    'itertools.combinations': Fn(_combinations, 'combinations'), 'itertools.chain': Fn(_chain, 'chain'),
    'functools.reduce': Fn(_reduce, 'reduce'),
    'operator.or_': _opfn('BitOr'), 'operator.mul': _opfn('Mult'), 'operator.add': _opfn('Add'), 'operator.matmul': _opfn('MatMult'),
    'operator.sub': _opfn('Sub'), 'operator.eq': Fn(lambda ex, a, b: ex.compare('Eq', a, b), 'eq'),
    'functools.cache': Fn(lambda ex, f: f, 'cache'),
    'typing.cast': Fn(lambda ex, t, v: v, 'cast'),
    'math.factorial': Fn(lambda ex, n: math.factorial(n) if isinstance(n, int) else _unsup('factorial'), 'factorial'),
    'dataclasses.astuple': Fn(lambda ex, o: tuple(o.fields[f] for f, _ in o.cls.all_fields(ex.repo)), 'astuple'),
    'typing.Sequence': Fn(lambda ex, *a: None, 'Sequence'), 'collections.abc.Sequence': Fn(lambda ex, *a: None, 'Sequence'),
}


def _unsup(m):
    raise Unsupported(m)


def external(dotted):
    if dotted in EXT:
        return EXT[dotted]
    if dotted in ('itertools', 'functools', 'operator', 'math', 'typing', 'dataclasses', 'collections', 'collections.abc',
                  'random', 'numpy', 'heapq', 'ast', 'abc', 'numpy.typing', 'pandas', 'sqlite3', 'bisect'):
        return ModV(dotted)
    if dotted.startswith('typing.') or dotted.startswith('numpy.typing'):
        return Fn(lambda ex, *a, **k: None, dotted)
    return Opaque(dotted)


class Opaque(Model):
    """A library object nothing is known about: any use of it is outside the subset."""
    tname = 'library object'

    def __init__(self, name):
        self.name = name

    def getattr(self, ex, name):
        return Opaque(f'{self.name}.{name}')

    def call(self, ex, args, kw):
        raise Unsupported(f'call of {self.name}')


def attr(ex, o, name):
    """Methods of builtin values."""
    if isinstance(o, LObj):
        if name == 'append':
            return Fn(lambda ex, x: ex.extend(o, (x,)), 'append')
        if name == 'extend':
            return Fn(lambda ex, x: ex.extend(o, x), 'extend')
        if name == 'copy':
            return Fn(lambda ex: LObj(o.val if isinstance(o.val, SSeq) else list(o.val)), 'copy')
        if name == 'index':
            return Fn(lambda ex, x: seq_index(ex, o, x), 'index')
        if name == 'pop':
            return Fn(lambda ex, *a: list_pop(ex, o, *a), 'pop')
        if name == 'sort':
            def srt(ex, **kw):
                r = _sorted(ex, o, **kw)
                ex.mutate(o)
                o.val = r.val
            return Fn(srt, 'sort')
        if name == 'reverse':
            def rv(ex):
                ex.mutate(o)
                r = ex.slice(o.val if isinstance(o.val, SSeq) else tuple(o.val), SliceV(None, None, -1))
                o.val = list(r) if isinstance(r, tuple) else r.with_kind('list')
            return Fn(rv, 'reverse')
        if name == 'count':
            return Fn(lambda ex, x: _sum(ex, tuple(ex.truth(ex.equal(y, x)) for y in ex.concrete_list(o))), 'count')
    if isinstance(o, (tuple, SSeq)):
        if name == 'index':
            return Fn(lambda ex, x: seq_index(ex, o, x), 'index')
    if isinstance(o, DictObj):
        if name == 'items':
            return Fn(lambda ex: tuple(o.d.items()), 'items')
        if name == 'values':
            return Fn(lambda ex: tuple(o.d.values()), 'values')
        if name == 'keys':
            return Fn(lambda ex: tuple(o.d.keys()), 'keys')
        if name == 'get':
            return Fn(lambda ex, k, d=None: o.d.get(ex.key(k), d), 'get')
    if isinstance(o, SetObj):
        if name == 'add':
            def add(ex, x):
                ex.mutate(o)
                if o.member is None and all(isinstance(y, int) for y in o.items) and isinstance(x, int):
                    if x not in o.items:
                        o.items = o.items + [x]
                    return
                if o.member is None:
                    ex.set_symbolic(o)
                o.member = z3.Store(o.member, to_int(x), z3.BoolVal(True))
            return Fn(add, 'add')
        if name == 'pop':
            def pop(ex):
                ex.mutate(o)
                if o.member is None:
                    ex.set_symbolic(o)
                w = ex.fresh('pop', z3.IntSort())
                x = z3.Int('x!pop')
                ex.check(z3.Exists([x], o.member[x]), f'pop from a nonempty set (line {ex.line})', 'safe')
                ex.assume(o.member[w])
                o.member = z3.Store(o.member, w, z3.BoolVal(False))
                return w
            return Fn(pop, 'pop')
    if isinstance(o, (str, StrV)):
        return str_attr(ex, o, name)
    raise Unsupported(f'attribute {name} of {type(o).__name__}')


def list_pop(ex, o, *a):
    if a and not (isinstance(a[0], int) and a[0] == -1):
        raise Unsupported('pop(i)')
    ex.mutate(o)
    if not isinstance(o.val, SSeq):
        if not o.val:
            raise PyRaise('IndexError', line=ex.line)
        v, o.val = o.val[-1], list(o.val[:-1])
        return v
    s = o.val
    n = to_int(s.n)
    ex.check(n > 0, f'pop from a nonempty list (line {ex.line})', 'safe')
    o.val = SSeq(s.et, z3.simplify(n - 1), s.arrs, s.kind)
    return s.get(n - 1)


def seq_index(ex, o, x):
    """s.index(x): least position, ValueError if absent."""
    s = as_sseq(ex.as_seq(o))
    t = z3.Int('t!ix')
    n = to_int(s.n)
    e = lambda i: to_z3(ex.truth(ex.equal(s.get(i), x)))
    i = ex.fresh('index', z3.IntSort())
    trig = [z3.Select(a, t) for a in s.arrs[:1]]
    ex.check(z3.Exists([t], z3.And(t >= 0, t < n, e(t))), f'index() finds the value (line {ex.line})', 'safe')
    ex.assume(z3.And(i >= 0, i < n, e(i)))
    ex.assume(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < i), z3.Not(e(t))), patterns=trig))
    return i


# ---------------------------------------------------------------- strings (opaque unless a contract models them)

def str_binop(ex, op, a, b):
    if isinstance(a, str) and isinstance(b, str) and op == 'Add':
        return a + b
    if op == 'Add':
        pa = [a] if isinstance(a, str) else a.parts
        pb = [b] if isinstance(b, str) else b.parts
        return StrV(list(pa) + list(pb))
    if op == 'Mod':
        return StrV([a, ('val', b)])
    if op == 'Mult' and isinstance(a, str) and isinstance(b, int):
        return a * b
    raise Unsupported(f'string operator {op}')


def str_equal(ex, a, b):
    raise Unsupported('comparison of symbolic strings')


def str_attr(ex, o, name):
    if isinstance(o, str):
        if name == 'format':
            return Fn(lambda ex, *a, **k: StrV([('format', o, a)]), 'format')
        if name == 'join':
            return Fn(lambda ex, v: StrV([('join', o, v)]), 'join')
    raise Unsupported(f'string method {name}')
