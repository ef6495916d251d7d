"""Loop invariant candidates.

Candidates are generated from templates over whatever variables and lists the loop has (by type, never by name), from
terms mined while executing the body, and from the contract's own hints.  The Houdini loop in vc.py keeps the largest
inductive subset; nothing is assumed that has not been proved on entry and preserved.
"""
from __future__ import annotations
import ast
import z3
from .values import *
from . import interp as I
from .interp import subterms, has_var


def int_vars(v, names):
    return [n for n in names if isinstance(v.frame.vars.get(n), int) and not isinstance(v.frame.vars.get(n), bool)
            or isinstance(v.frame.vars.get(n), z3.ArithRef) and v.frame.vars.get(n).is_int()]


def is_seq(x):
    return isinstance(x, (LObj, SSeq, tuple))


def seq_of(x):
    if isinstance(x, LObj):
        return x.val if isinstance(x.val, SSeq) else as_sseq(tuple(x.val))
    if isinstance(x, SSeq):
        return x
    return as_sseq(tuple(x))


def lists(view):
    """births of list objects that this loop mutates"""
    return [b for b in sorted(view.info.objs) if isinstance(view.objs.get(b), LObj)]


_numeric = {}


def numeric(fr):
    """Names the function computes or compares with, as opposed to opaque values it only moves around."""
    while fr is not None and fr.func is None:
        fr = fr.parent
    node = getattr(getattr(fr, 'func', None), 'node', None)
    if node is None:
        return None
    if id(node) not in _numeric:
        names = set()

        def take(e):
            names.update(x.id for x in ast.walk(e) if isinstance(x, ast.Name))
        for e in ast.walk(node):
            if isinstance(e, (ast.BinOp, ast.AugAssign)):
                take(e)
            elif isinstance(e, ast.Compare) and any(isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) for o in e.ops):
                take(e)
            elif isinstance(e, ast.Slice):
                take(e)
            elif isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Name):
                take(e.slice)
            elif isinstance(e, ast.Call) and getattr(e.func, 'id', '') in ('range', 'min', 'max', 'abs', 'divmod', 'pow'):
                take(e)
            elif isinstance(e, (ast.While, ast.If)):
                if isinstance(e.test, ast.Name):
                    take(e.test)
            elif isinstance(e, (ast.For, ast.comprehension)) and isinstance(e.iter, ast.Call) and getattr(e.iter.func, 'id', '') == 'range':
                take(e.target)
        _numeric[id(node)] = (names, node)
    return _numeric[id(node)][0]


def candidates(ex, view, con, site):
    out = []
    fr, entry = view.frame, view.entry
    live = view.live
    num = numeric(fr) if con is not None and (con.opts or {}).get('numeric') else None

    def E(n):
        return entry.vars[n]

    def cur(v, n):
        return v.frame.vars[n]

    ints = [n for n in live if is_int(E(n)) and (num is None or n in num)]
    # environment integers that the loop does not assign, and lengths of sequences
    env = []
    seen = set()
    for n, v in entry.vars.items():
        if n in entry.names:
            continue
        if is_int(v):
            key = str(v)
            if key not in seen and (num is None or n in num):
                seen.add(key)
                env.append((n, v))
        elif isinstance(v, (SSeq,)):
            key = str(v.n)
            if key not in seen:
                seen.add(key)
                env.append((f'len({n})', v.n))
        elif isinstance(v, I.ObjSnap) or isinstance(v, Obj):
            for f, w in v.fields.items():
                if isinstance(w, SSeq):
                    key = str(w.n)
                    if key not in seen:
                        seen.add(key)
                        env.append((f'len({n}.{f})', w.n))
                elif is_int(w):
                    key = str(w)
                    if key not in seen:
                        seen.add(key)
                        env.append((f'{n}.{f}', w))
    if view.n is not None:
        env.append(('#iterations', view.n))
    env = env[:14]
    for x in ints:
        x0 = to_int(E(x))
        out.append((f'{x} unchanged', lambda v, x=x, x0=x0: to_int(cur(v, x)) == x0))
        out.append((f'{x} >= entry', lambda v, x=x, x0=x0: to_int(cur(v, x)) >= x0))
        out.append((f'{x} <= entry', lambda v, x=x, x0=x0: to_int(cur(v, x)) <= x0))
        out.append((f'{x} >= 0', lambda v, x=x: to_int(cur(v, x)) >= 0))
        if view.k is not None:
            out.append((f'{x} = entry + k', lambda v, x=x, x0=x0: to_int(cur(v, x)) == x0 + v.k))
            out.append((f'{x} = entry - k', lambda v, x=x, x0=x0: to_int(cur(v, x)) == x0 - v.k))
        for en, ev in env:
            ev = to_int(ev)
            if z3.eq(ev, x0):
                continue
            out.append((f'{x} <= {en}', lambda v, x=x, ev=ev: to_int(cur(v, x)) <= ev))
            out.append((f'{x} >= {en}', lambda v, x=x, ev=ev: to_int(cur(v, x)) >= ev))
    if con is not None and not (con.opts or {}).get('templates', True):
        out = [(nm, f) for nm, f in out if nm.endswith('>= 0')]
        ints = []
    for i, x in enumerate(ints):
        for y in ints[i + 1:]:
            x0, y0 = to_int(E(x)), to_int(E(y))
            out.append((f'{x} - {y} constant', lambda v, x=x, y=y, d=x0 - y0: to_int(cur(v, x)) - to_int(cur(v, y)) == d))
            out.append((f'{x} + {y} constant', lambda v, x=x, y=y, d=x0 + y0: to_int(cur(v, x)) + to_int(cur(v, y)) == d))
        for y in ints:
            if x != y:
                out.append((f'{x} <= {y}', lambda v, x=x, y=y: to_int(cur(v, x)) <= to_int(cur(v, y))))
    # lists mutated by the loop, and list variables reassigned by it
    for b in lists(view):
        s0 = entry.objs.get(b)
        if s0 is None:
            continue
        try:
            s0 = seq_of(s0)
        except Unsupported:
            continue
        n0 = to_int(s0.n)
        out.append((f'len(list{b}) unchanged', lambda v, b=b, n0=n0: to_int(seq_of(v.objs[b]).n) == n0))
        if view.k is not None and (con is None or (con.opts or {}).get('templates', True)):
            out.append((f'len(list{b}) = entry + k', lambda v, b=b, n0=n0: to_int(seq_of(v.objs[b]).n) == n0 + v.k))
        if con is not None and not (con.opts or {}).get('frames', True):
            continue
        if view.k is not None:
            out.append((f'list{b} unchanged from k on', lambda v, b=b, s0=s0: frame_range(v, b, s0, v.k, None)))
            out.append((f'list{b} unchanged before n-k', lambda v, b=b, s0=s0: frame_range(v, b, s0, None, v.n - v.k)))
        out.append((f'list{b} unchanged in entry range', lambda v, b=b, s0=s0: frame_range(v, b, s0, None, to_int(s0.n))))
    for x in live:
        v0 = E(x)
        if isinstance(v0, SSeq):
            out.append((f'len({x}) unchanged', lambda v, x=x, v0=v0: to_int(seq_of(cur(v, x)).n) == to_int(v0.n)))
    # mined facts
    for key, items in view.mined.items():
        for nm, fn in items:
            out.append((nm, fn))
    if con is not None and con.hints is not None:
        h = con.hints
        try:
            for nm, fn in h(ex, view):
                out.append((nm, fn))
        except (Unsupported, KeyError, AttributeError, z3.Z3Exception):
            if DEBUG:
                import traceback
                traceback.print_exc()
    return out


def frame_range(v, b, s0, lo, hi):
    s = seq_of(v.objs[b])
    if s.et != s0.et:
        et = join(s.et, s0.et)
        s0 = v.ex.coerce_seq(s0, et)
        s = v.ex.coerce_seq(s, et)
    t = z3.Int('t!fr')
    rng = []
    if lo is not None:
        rng.append(t >= lo)
    if hi is not None:
        rng.append(t < hi)
        rng.append(t >= 0)
    body = z3.And(*[z3.Select(a, t) == z3.Select(c, t) for a, c in zip(s.arrs, s0.arrs)])
    pats = [z3.Select(a, t) for a in s.arrs]
    for c in s0.arrs:
        if not z3.is_K(c):
            pats.append(z3.Select(c, t))
    return z3.ForAll([t], z3.Implies(z3.And(*rng), body), patterns=pats[:4])


def mine_guard(ex, vh, facts, info, restart, pos0):
    """A guard atom g(x) about the only havocked integer x becomes: g(t) for every t already passed."""
    heads = {}
    for n in vh.live:
        v = vh.frame.vars.get(n)
        if isinstance(v, z3.ArithRef) and v.is_int() and z3.is_const(v):
            heads[n] = v
    changed = False
    atoms = []
    stack = list(facts)
    while stack:
        f = stack.pop()
        if z3.is_and(f):
            stack.extend(f.children())
        else:
            atoms.append(f)
    lst = info.mined.setdefault('guard', [])
    have = {n for n, _ in lst}
    for f in atoms:
        sel = [s for s in subterms(f) if z3.is_select(s)]
        if not sel:
            continue
        used = [(n, v) for n, v in heads.items() if has_var(f, v)]
        if len(used) != 1:
            continue
        n, v = used[0]
        if any('@L' in str(s) and not z3.eq(s, v) for s in subterms(f) if z3.is_const(s) and not z3.is_int_value(s)
               and s.decl().kind() == z3.Z3_OP_UNINTERPRETED and not any(z3.eq(s, w) for w in ())
               and is_head(s, vh)):
            continue
        nm = f'guard[{n}] {f.sexpr()[:60]}'.replace('\n', ' ')
        key = nm
        if key in have:
            continue
        x0 = to_int(vh.entry.vars[n])
        # offset of the array index relative to the variable
        off = 0
        for s in sel:
            d = z3.simplify(s.arg(1) - v)
            if z3.is_int_value(d):
                off = d.as_long()
        t = z3.Int('t!g')

        def mk(f, v, n, x0, off, up):
            body = z3.substitute(f, (v, t - off))

            def fn(w):
                cur = to_int(w.frame.vars[n])
                rng = z3.And(t >= x0 + off, t < cur + off) if up else z3.And(t > cur + off, t <= x0 + off)
                pats = [s for s in subterms(z3.simplify(body)) if z3.is_select(s) and z3.eq(s.arg(1), t)]
                b = z3.simplify(body)
                return z3.ForAll([t], z3.Implies(rng, b), patterns=pats[:2]) if pats else z3.ForAll([t], z3.Implies(rng, b))
            return fn
        lst.append((key + ' (up)', mk(f, v, n, x0, off, True)))
        lst.append((key + ' (down)', mk(f, v, n, x0, off, False)))
        lst.append((key, lambda w: z3.BoolVal(True)))
        changed = True
    if changed:
        restart(pos0)


def is_head(s, vh):
    for n in vh.live:
        v = vh.frame.vars.get(n)
        if is_z3(v) and z3.eq(v, s):
            return True
    return False


def mine_end(ex, vh, ve, lp, info, restart, pos0):
    """Where a list is stored into at (iteration number + shift): remember the shift and the amount added."""
    if lp['k'] is None:
        return
    lst = info.mined.setdefault('stores', [])
    have = {n for n, _ in lst}
    changed = False
    k = lp['k']
    shifts = info.mined.setdefault('shifts', [])
    for b, j, v in lp.get('stores', []):
        sh = z3.simplify(j - k)
        if has_var(sh, k):
            continue
        nm = f'shift{b}:{sh.sexpr()[:80]}'
        if all(nm != x for x, _ in shifts):
            shifts.append((nm, lambda w: z3.BoolVal(True)))
            info.mined.setdefault('shiftterms', []).append((f'#{nm}', _Const(b, sh)))
            changed = True
    if changed:
        restart(pos0)


class _Const:
    """A mined term (callable as the trivial invariant)."""
    def __init__(self, b, sh):
        self.b, self.sh = b, sh

    def __call__(self, w):
        return z3.BoolVal(True)


def shifts(view, b):
    return [c.sh for _, c in view.mined.get('shiftterms', []) if c.b == b]


def variant(ex, vh, ve, lp, site, key):
    """Termination: some integer expression decreases and is bounded below (emitted as one disjunctive obligation)."""
    goals = []
    head = lp['head']
    ints = [n for n in vh.live if is_int(head.get(n))]
    for x in ints:
        h, e = to_int(head[x]), to_int(ve.frame.vars[x])
        goals.append(z3.And(h >= 0, e < h))
        x0 = to_int(vh.entry.vars[x])
        for y in ints:
            if y != x:
                hy, ey = to_int(head[y]), to_int(ve.frame.vars[y])
                goals.append(z3.And(hy - h >= 0, ey - e < hy - h))
        for nm, v in vh.entry.vars.items():
            if nm in head and head.get(nm) is not None and nm in vh.entry.names:
                continue
            b = None
            if is_int(v):
                b = to_int(v)
            elif isinstance(v, SSeq):
                b = to_int(v.n)
            if b is not None:
                goals.append(z3.And(b - h >= 0, e > h))
    for x in vh.live:
        v = head.get(x)
        if is_seq(v) and not isinstance(v, tuple):
            h, e = to_int(seq_of(v).n), to_int(seq_of(ve.frame.vars[x]).n)
            goals.append(z3.And(h >= 0, e < h))
        if isinstance(v, Obj):
            for f, w in v.fields.items():
                if is_seq(w) and not isinstance(w, tuple):
                    h = to_int(seq_of(w).n)
                    e = to_int(seq_of(ve.frame.vars[x].fields[f]).n)
                    goals.append(e < h)
    if goals:
        ex.emit(z3.Or(*goals), f'loop {site[1]}#{site[2]} terminates', 'variant')


DEBUG = False
