"""Symbolic execution of the repository's Python functions, producing verification conditions.

One call of Ex.explore runs a function along every path; loops are cut by invariants; calls to functions with a
contract use the contract, calls to functions without one are executed in place.
"""
from __future__ import annotations
import ast
import fractions
import itertools
import z3
from . import values as V
from .values import *
from .pysrc import FuncInfo, ClassInfo, Module


class NotImpl:
    def __repr__(self):
        return 'NotImplemented'


NOTIMPL = NotImpl()


class Frame:
    __slots__ = ('func', 'module', 'vars', 'parent', 'globals_', 'site')

    def __init__(self, func, module, parent=None, site=''):
        self.func, self.module, self.vars, self.parent, self.site = func, module, {}, parent, site

    def lookup(self, name):
        f = self
        while f is not None:
            if name in f.vars:
                return f.vars[name]
            f = f.parent
        raise KeyError(name)


class FuncVal:
    """A function value: repository function + closure frame + bound first argument."""
    def __init__(self, info, closure=None, bound=None, defaults=None, site=''):
        self.info, self.closure, self.bound, self.defaults, self.site = info, closure, bound, defaults, site

    def __repr__(self):
        return f'<FuncVal {self.info.qual}>'


class SuperV:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class Star:
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class Obligation:
    __slots__ = ('name', 'facts', 'goal', 'kind', 'line', 'rels', 'extra')

    def __init__(self, name, facts, goal, kind, line, rels, extra=None):
        self.name, self.facts, self.goal, self.kind, self.line, self.rels, self.extra = \
            name, facts, goal, kind, line, rels, extra


class LoopInfo:
    def __init__(self):
        self.objs = {}       # birth -> set of fields (or None for a whole list)
        self.types = {}      # variable / ('obj',birth) -> widened type
        self.mined = {}      # key -> mined terms
        self.later = set()   # candidates about sums, tried once the others are settled
        self.dropped = set() # candidate names found not to be invariant
        self.names, self.shared = set(), set()
        self.depth, self.insub = 0, False


class View:
    """A program state as seen by an invariant candidate."""
    def __init__(self, ex, frame, entry, k, n, iters, head=None):
        self.ex, self.frame, self.entry, self.k, self.n, self.iters = ex, frame, entry, k, n, iters

    def var(self, name):
        return self.frame.vars.get(name)


class Entry:
    """Values at loop entry (lists by value)."""
    def __init__(self, vars, objs, names, frame):
        self.vars, self.objs, self.names, self.frame = vars, objs, names, frame


class Ex:
    def __init__(self, repo, registry, theories=(), opts=None):
        self.repo, self.registry, self.theories = repo, registry, list(theories)
        self.opts = dict(max_paths=400, unroll=40, depth=12)
        self.opts.update(opts or {})
        self.loops = {}
        self.cand = {}       # assumed invariant candidate (formula id) -> (loop key, name)
        self.stage = 2
        self.globals_cache = {}
        self.current = None          # contract being verified
        self.inlined = set()
        self.unsup_lines = []
        self.reset()

    # ------------------------------------------------------------ path state
    def reset(self):
        self.pc, self.rels, self.obls = [], [], []
        self.cnt = {}
        self.bound = []
        self.loopstack = []
        self.sub_marks, self.sub_saved, self.frames = [], [], []
        self.used_contracts = set()
        self.depth = 0
        self.line = None
        self.ghost = {}
        self.solver = z3.Solver()
        self.solver.set('timeout', 150)
        self.dec, self.pos = [], 0
        self.in_sub = 0
        V._birth = itertools.count()
        self.memo_coerce = {}
        self.noise = 0

    def fresh(self, name, sort):
        c = self.cnt.get((name, str(sort)), 0)
        self.cnt[(name, str(sort))] = c + 1
        nm = f'{name}!{c}'
        if not self.bound:
            return z3.Const(nm, sort)
        return z3.Function(nm + "'" + str(sort), *([z3.IntSort()] * len(self.bound)), sort)(*[b for b, _ in self.bound])

    def fresh_val(self, t, name='v'):
        ls = [self.fresh(name, s) for s in leaf_sorts(t)]
        v = unpack(t, ls)
        for f in self.wf(v):
            self.assume(f)
        return v

    def wf(self, v):
        """Well-formedness: lengths are nonnegative."""
        out = []
        if isinstance(v, LObj):
            v = v.val
        if isinstance(v, SSeq):
            if not isinstance(v.n, int):
                out.append(v.n >= 0)
            if v.et is not None:
                t = z3.Int('t!wf')
                for i in length_leaves(v.et):
                    out.append(z3.ForAll([t], z3.Select(v.arrs[i], t) >= 0, patterns=[z3.Select(v.arrs[i], t)]))
        elif isinstance(v, tuple):
            for x in v:
                out += self.wf(x)
        elif isinstance(v, Obj):
            for x in v.fields.values():
                out += self.wf(x)
        return out

    def assume(self, f, label=None):
        if f is True:
            return
        if f is False:
            f = z3.BoolVal(False)
        if z3.is_and(f):
            for x in f.children():
                self.assume(x)
            return
        self.pc.append(f)
        if not has_quant(f):
            self.solver.add(f)

    def check(self, goal, name, kind='safe', extra=None):
        """Emit an obligation, then rely on it."""
        if goal is True:
            return
        if goal is False:
            goal = z3.BoolVal(False)
        g = z3.simplify(goal) if not has_quant(goal) else goal
        if z3.is_true(g):
            return
        self.emit(goal, name, kind, extra)
        self.assume(goal)

    def emit(self, goal, name, kind, extra=None):
        if goal is True:
            goal = z3.BoolVal(True)
        elif goal is False:
            goal = z3.BoolVal(False)
        self.obls.append(Obligation(name, tuple(self.pc), goal, kind, self.line, tuple(self.rels), extra))

    def sat(self, cond):
        self.solver.push()
        self.solver.add(cond)
        r = self.solver.check()
        self.solver.pop()
        return r

    def provable(self, cond):
        if cond is True or cond is False:
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.sat(z3.Not(cond)) == z3.unsat

    def provable_q(self, cond):
        """provable() with the quantified facts and the theories."""
        inst = []
        for th in (self.current.theories or ()) if self.current is not None else ():
            inst += th.instances(self.pc, cond, self.rels)
        s = z3.Solver()
        s.set('rlimit', 600000)
        s.set('timeout', 4000)
        s.add(*self.pc)
        s.add(*inst)
        s.add(z3.Not(cond))
        return s.check() == z3.unsat

    def choose(self, n, feasible=None):
        """A decision with n alternatives (explored depth first)."""
        if self.pos < len(self.dec):
            c = self.dec[self.pos][0]
            self.pos += 1
            return c
        alts = list(range(n)) if feasible is None else feasible()
        if not alts:
            raise PathEnd()
        self.dec.append([alts[0], alts[1:]])
        self.pos += 1
        return alts[0]

    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(cond) if not has_quant(cond) else cond
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False

        def feas():
            out = []
            if has_quant(cond):
                return [1, 0]
            if self.sat(cond) != z3.unsat:
                out.append(1)
            if not out:
                return [0]
            if self.sat(z3.Not(cond)) != z3.unsat:
                out.append(0)
            return out
        k = self.choose(2, feas)
        if k:
            self.assume(cond)
            return True
        self.assume(neg(cond))
        return False

    def explore(self, run, on_path):
        """Depth-first exploration of run(self) by re-execution."""
        dec = []
        paths = 0
        restarts = 0
        while True:
            self.reset()
            self.dec = dec
            try:
                res = run(self)
                on_path(self, res)
            except PathEnd:
                on_path(self, None)
            except Restart:
                dec = self.dec[:]
                # decisions taken after the loop whose frame changed stay valid: same prefix is replayed
                restarts += 1
                if restarts > 400:
                    raise Unsupported('loop frames do not stabilise')
                dec = self.restart_dec
                continue
            dec = self.dec[:self.pos]
            paths += 1
            if paths > self.opts['max_paths']:
                raise Unsupported(f'more than {self.opts["max_paths"]} paths')
            while dec and not dec[-1][1]:
                dec.pop()
            if not dec:
                return paths
            c, rest = dec[-1]
            dec[-1] = [rest[0], rest[1:]]

    def restart(self, keep):
        if self.sub_saved:
            dec, keep = self.sub_saved[0]
        else:
            dec = self.dec
        self.restart_dec = [[c, list(r)] for c, r in dec[:keep]]
        for info in self.loops.values():
            if info.depth > keep or info.insub:
                # object numbering inside the restarted region may change
                info.objs, info.types = {}, {}
        raise Restart()

    def sub_explore(self, fn):
        """Run fn along every path with a private decision stack; returns [(path facts, value)]."""
        saved = (self.dec, self.pos, self.pc, self.solver, dict(self.cnt))
        outer_rels = len(self.rels)
        out, dec, maxcnt, obl0 = [], [], {}, len(self.obls)
        base_cnt = dict(self.cnt)
        base_prefix = ('sub', tuple(d[0] for d in self.dec[:self.pos]))
        npaths = 0
        self.in_sub += 1
        mark = next(V._birth)
        self.sub_marks.append(mark)
        self.sub_saved.append((saved[0], saved[1]))
        try:
            while True:
                self.dec, self.pos = dec, 0
                self.pc = list(saved[2])
                self.cnt = dict(base_cnt)
                self.solver = saved[3]
                self.solver.push()
                n0 = len(self.pc)
                try:
                    v = fn()
                    out.append((self.pc[n0:], v))
                except PathEnd:
                    pass
                except PyRaise as e:
                    # an element of a comprehension raises: must not happen
                    self.line = e.line or self.line
                    self.emit(z3.BoolVal(False), f'no {e.name} is raised at line {e.line} (inside a comprehension)', 'no-raise')
                finally:
                    self.solver.pop()
                for k, c in self.cnt.items():
                    maxcnt[k] = max(maxcnt.get(k, 0), c)
                dec = self.dec[:self.pos]
                npaths += 1
                if npaths > 60:
                    raise Unsupported('too many paths inside an expression')
                while dec and not dec[-1][1]:
                    dec.pop()
                if not dec:
                    break
                c, rest = dec[-1]
                dec[-1] = [rest[0], rest[1:]]
        finally:
            self.sub_marks.pop()
            self.sub_saved.pop()
            self.in_sub -= 1
            self.dec, self.pos, self.pc, self.solver = saved[0], saved[1], saved[2], saved[3]
            self.cnt = saved[4]
        for k, c in maxcnt.items():
            self.cnt[k] = max(self.cnt.get(k, 0), c)
        return out

    def merge(self, cases):
        """Merge [(facts, value)] of mutually exclusive paths into one value by if-then-else."""
        if not cases:
            raise PathEnd()
        v = cases[-1][1]
        for facts, w in reversed(cases[:-1]):
            c = z3.And(*facts) if facts else z3.BoolVal(True)
            v = ite(c, w, v)
        return v

    def mutate(self, obj, field=None, keep=None):
        for m in self.sub_marks:
            if obj.birth < m:
                raise Unsupported('expression with a side effect on outer state')
        for lp in self.loopstack:
            if obj.birth < lp['mark'] and obj.birth not in lp['own']:
                info = lp['info']
                s = info.objs.setdefault(obj.birth, set())
                if field not in s:
                    s.add(field)
                    self.restart(lp['pos'])

    # ------------------------------------------------------------ names
    def global_value(self, module, name):
        key = (module.name, name)
        g = module.lookup(name)
        if g is None:
            raise KeyError(name)
        return self.resolve(g, module)

    def resolve(self, g, module):
        if isinstance(g, FuncInfo):
            return FuncVal(g)
        if isinstance(g, (ClassInfo, Module)):
            return g
        if isinstance(g, tuple) and g[0] == 'import':
            r = self.repo.resolve_import(g)
            if isinstance(r, tuple) and r[0] == 'ext':
                return self.external(r[1])
            if isinstance(r, tuple) and r[0] == 'modexpr':
                return self.eval(r[2], Frame(None, r[1]))
            if isinstance(r, FuncInfo):
                return FuncVal(r)
            return r
        if isinstance(g, tuple) and g[0] == 'expr':
            return self.eval(g[1], Frame(None, module))
        raise Unsupported(f'global {g}')

    def external(self, dotted):
        from . import models
        m = self.opts.get('externals', {}).get(dotted)
        if m is not None:
            return m
        return models.external(dotted)

    def name(self, name, frame):
        try:
            return frame.lookup(name)
        except KeyError:
            pass
        f = frame
        try:
            return self.global_value(frame.module, name)
        except KeyError:
            pass
        from . import models
        if name in models.BUILTINS:
            return models.BUILTINS[name]
        raise Unsupported(f'name {name} is not defined here (used before assignment, or an unknown builtin)')

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, frame):
        for s in stmts:
            self.exec(s, frame)

    def exec(self, s, frame):
        self.line = getattr(s, 'lineno', self.line)
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(s).__name__} at line {self.line}')
        return m(s, frame)

    def st_Expr(self, s, frame):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            f = frame
            while f is not None and OUT not in f.vars:
                f = f.parent
            if f is None:
                raise Unsupported('generator')
            v = self.eval(s.value.value, frame) if s.value.value is not None else None
            self.extend(f.vars[OUT], (v,) if isinstance(s.value, ast.Yield) else v)
            if isinstance(v, LObj):
                v.derived = True        # not changed once it is given away
            return
        self.eval(s.value, frame)

    def st_Pass(self, s, frame):
        pass

    def st_Import(self, s, frame):
        for a in s.names:
            nm = a.asname or a.name.split('.')[0]
            frame.vars[nm] = self.external(a.name)

    def st_ImportFrom(self, s, frame):
        for a in s.names:
            frame.vars[a.asname or a.name] = self.resolve(('import', s.module or '', a.name, s.level), frame.module)

    def st_Return(self, s, frame):
        raise ReturnEx(None if s.value is None else self.eval(s.value, frame))

    def st_Break(self, s, frame):
        raise BreakEx()

    def st_Continue(self, s, frame):
        raise ContinueEx()

    def st_If(self, s, frame):
        if self.branch(self.truth(self.eval(s.test, frame))):
            self.exec_block(s.body, frame)
        else:
            self.exec_block(s.orelse, frame)

    def st_Match(self, s, frame):
        v = self.eval(s.subject, frame)
        for case in s.cases:
            c = self.match_pattern(case.pattern, v, frame)
            if c is not False and (c is True or self.branch(c)):
                if case.guard is not None and not self.branch(self.truth(self.eval(case.guard, frame))):
                    continue
                self.exec_block(case.body, frame)
                return

    def match_pattern(self, p, v, frame):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.equal(v, self.eval(p.value, frame)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.identical(v, p.value))
        if isinstance(p, ast.MatchOr):
            r = False
            for q in p.patterns:
                r = disj(r, self.match_pattern(q, v, frame))
            return r
        if isinstance(p, ast.MatchAs) and p.pattern is None:
            if p.name is not None:
                frame.vars[p.name] = v
            return True
        raise Unsupported('match pattern')

    def st_Assert(self, s, frame):
        if not self.branch(self.truth(self.eval(s.test, frame))):
            raise PyRaise('AssertionError', line=s.lineno)

    def st_Raise(self, s, frame):
        nm, e = 'Exception', s.exc
        if e is None:
            raise Unsupported('re-raise')
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Name):
            nm = e.id
        elif isinstance(e, ast.Attribute):
            nm = e.attr
        raise PyRaise(nm, line=s.lineno)

    def st_Try(self, s, frame):
        if s.finalbody:
            raise Unsupported('finally')
        try:
            self.exec_block(s.body, frame)
        except PyRaise as e:
            for h in s.handlers:
                names = []
                if h.type is None:
                    names = [e.name]
                elif isinstance(h.type, ast.Name):
                    names = [h.type.id]
                elif isinstance(h.type, ast.Tuple):
                    names = [x.id for x in h.type.elts if isinstance(x, ast.Name)]
                if e.name in names or 'Exception' in names or 'BaseException' in names:
                    if h.name:
                        frame.vars[h.name] = StrV([('exc', e.name)])
                    self.exec_block(h.body, frame)
                    return
            raise
        self.exec_block(s.orelse, frame)

    def st_FunctionDef(self, s, frame):
        info = FuncInfo(s, frame.module)
        frame.vars[s.name] = FuncVal(info, closure=frame, site=frame.site)

    def st_Assign(self, s, frame):
        v = self.eval(s.value, frame)
        for t in s.targets:
            self.assign(t, v, frame)

    def st_AnnAssign(self, s, frame):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, frame), frame)

    def st_Delete(self, s, frame):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.eval(t.value, frame)
                k = self.eval(t.slice, frame)
                if isinstance(o, Model):
                    o.delitem(self, k)
                    continue
                if isinstance(o, DictObj):
                    self.mutate(o)
                    del o.d[self.key(k)]
                    continue
            raise Unsupported('del')

    def st_AugAssign(self, s, frame):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, frame)
            v = self.eval(s.value, frame)
            if isinstance(cur, LObj) and op == 'Add':
                self.extend(cur, v)
                return
            r = self.inplace(op, cur, v)
            self.assign(t, r, frame)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, frame)
            k = self.eval_index(t.slice, frame)
            cur = self.getitem(o, k)
            v = self.eval(s.value, frame)
            if isinstance(cur, LObj) and op == 'Add' and not cur.derived:
                self.extend(cur, v)
                return
            r = self.inplace(op, cur, v)
            if r is not cur or not isinstance(r, Model):
                self.setitem(o, k, r)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, frame)
            cur = self.getattr(o, t.attr)
            v = self.eval(s.value, frame)
            if isinstance(cur, LObj) and op == 'Add':
                self.extend(cur, v)
                return
            r = self.inplace(op, cur, v)
            if r is not cur or not isinstance(r, Model):
                self.setattr(o, t.attr, r)
        else:
            raise Unsupported('augmented assignment target')

    def inplace(self, op, a, b):
        if isinstance(a, Obj):
            m = a.cls.find(self.repo, INPLACE.get(op, ''))
            if m is not None:
                raise Unsupported('in-place operator method')
        if isinstance(a, Model) and not isinstance(a, Fn):
            return a.inplace(self, op, b)
        return self.binop(op, a, b)

    def assign(self, t, v, frame):
        if isinstance(t, ast.Name):
            frame.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack_n(v, t.elts)
            for x, y in zip(t.elts, vs):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, frame)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, frame)
            self.setitem(o, self.eval_index(t.slice, frame), v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, frame), t.attr, v)
        else:
            raise Unsupported(f'assignment target {type(t).__name__}')

    def unpack_n(self, v, elts):
        n = len(elts)
        if any(isinstance(e, ast.Starred) for e in elts):
            vs = self.concrete_list(v)
            if vs is None:
                raise Unsupported('starred unpacking of a symbolic sequence')
            i = [isinstance(e, ast.Starred) for e in elts].index(True)
            after = n - i - 1
            if len(vs) < n - 1:
                raise PyRaise('ValueError')
            return vs[:i] + [LObj(vs[i:len(vs) - after])] + vs[len(vs) - after:]
        if isinstance(v, tuple):
            if len(v) != n:
                raise PyRaise('ValueError', line=self.line)
            return list(v)
        if isinstance(v, Model) and hasattr(v, 'unpack_n'):
            return v.unpack_n(self, n)
        vs = self.concrete_list(v)
        if vs is not None:
            if len(vs) != n:
                raise PyRaise('ValueError', line=self.line)
            return vs
        s = as_sseq(v)
        self.check(to_int(s.n) == n, f'unpacking needs exactly {n} values', 'safe')
        return [s.get(i) for i in range(n)]

    # ------------------------------------------------------------ loops
    def st_While(self, s, frame):
        def cond():
            return self.truth(self.eval(s.test, frame))
        self.loop(s, frame, None, cond, None, s.body, s.orelse, 0, [])

    def st_For(self, s, frame):
        it = self.eval(s.iter, frame)
        if isinstance(it, ProdIter):
            if any(isinstance(n, (ast.Break,)) for b in s.body for n in ast.walk(b)):
                raise Unsupported('break out of a product loop')
            if not isinstance(s.target, (ast.Tuple, ast.List)) or len(s.target.elts) != len(it.parts):
                raise Unsupported('product loop target')
            parts = [self.to_iter(p) for p in it.parts]

            def nest(level):
                if level == len(parts):
                    self.exec_block(s.body, frame)
                    return
                self.for_loop(s, frame, parts[level], s.target.elts[level], lambda: nest(level + 1), (), level)
            nest(0)
            return
        self.for_loop(s, frame, self.to_iter(it), s.target, lambda: self.exec_block(s.body, frame), s.orelse, 0)

    def for_loop(self, s, frame, it, target, body, orelse, level):
        if isinstance(it, list):
            broke = False
            for x in it:
                self.assign(target, x, frame)
                try:
                    body()
                except BreakEx:
                    broke = True
                    break
                except ContinueEx:
                    continue
            if not broke:
                self.exec_block(orelse, frame)
            return
        n = to_int(it.n)

        def bind(k):
            self.assign(target, it.item(k), frame)
        self.loop(s, frame, n, None, bind, body, orelse, level, [it])

    def loop(self, node, frame, n, cond, bind, body, orelse, level, iters):
        if self.bound:
            pass
        fid = frame.func.loops.get(id(node)) if frame.func else None
        site = (frame.site, frame.func.qual if frame.func else '?', fid, level)
        pos0 = self.pos
        pre = tuple(tuple(d[0] for d in dd[:pp]) for dd, pp in self.sub_saved)
        key = (site, pre, tuple(d[0] for d in self.dec[:self.pos]), self.cnt.get('tvar', 0))
        info = self.loops.setdefault(key, LoopInfo())
        info.key, info.depth, info.insub, info.nest = key, pos0, bool(self.in_sub), len(self.loopstack)
        if not self.in_sub:
            self.looppos = pos0
        mark = next(V._birth)
        names = sorted(assigned_names(node, level))
        rebound = assigned_names(node, level, aug=False)        # list += ... changes the list in place
        names = [nm for nm in names if nm in rebound or not isinstance(frame.vars.get(nm), LObj)]
        ftop = frame
        # ---- entry snapshot
        entry_vars = {}
        f = frame
        chain = []
        while f is not None:
            chain.append(f)
            f = f.parent
        for f in reversed(chain):
            for nm, v in f.vars.items():
                entry_vars[nm] = snapshot(v)
        objs = self.reachable(frame, info)
        entry = Entry(entry_vars, {b: snapshot(o) for b, o in objs.items()}, names, frame)
        entry.pc_len = len(self.pc)
        live = [nm for nm in names if nm in frame.vars]
        # ---- candidates need the head state for their types: build after havoc, check on entry state first
        saved_vars = dict(frame.vars)
        saved_objs = {b: snap_deep(o) for b, o in objs.items()}

        def owned(nm):
            """The list in a variable is nowhere else."""
            v = frame.vars.pop(nm)
            try:
                return not v.derived and v.birth not in self.reachable(frame, info)
            finally:
                frame.vars[nm] = v

        def check_owned():
            for nm in names:
                if nm in saved_vars and isinstance(frame.vars.get(nm), LObj) and nm not in info.shared and not owned(nm):
                    info.shared.add(nm)
                    self.restart(pos0)
        check_owned()

        def head_havoc(tag):
            for nm in names:
                if nm not in saved_vars:
                    frame.vars.pop(nm, None)
                    continue
                try:
                    t = typeof(saved_vars[nm])
                    t = join(t, info.types[nm]) if nm in info.types else t
                except Unsupported:
                    frame.vars.pop(nm, None)
                    continue
                frame.vars[nm] = v = self.fresh_val(t, f'{nm}{tag}')
                if isinstance(v, LObj) and nm not in info.shared:
                    v.derived = False
            for b, fields in sorted(info.objs.items()):
                o = objs.get(b)
                if o is None:
                    raise Unsupported('mutated object is not reachable from the loop frame')
                self.havoc_obj(o, fields, info, b, tag)

        def check_types():
            """After one iteration: the state must fit the havocked shapes."""
            check_owned()
            for nm in names:
                if nm in saved_vars and nm in frame.vars:
                    try:
                        t0 = typeof(saved_vars[nm])
                    except Unsupported:
                        continue
                    t0 = join(t0, info.types[nm]) if nm in info.types else t0
                    t1 = join(t0, typeof(frame.vars[nm]))
                    if t1 != t0:
                        info.types[nm] = t1
                        self.restart(pos0)
            for b, fields in info.objs.items():
                o = objs[b]
                if isinstance(o, LObj):
                    t0 = join(typeof(saved_objs[b]), info.types.get(('obj', b)))
                    t1 = join(t0, typeof(o))
                    if t1 != t0:
                        info.types[('obj', b)] = t1
                        self.restart(pos0)
                elif isinstance(o, Obj):
                    for fld in fields:
                        t0 = join(typeof(saved_objs[b].fields[fld]), info.types.get(('obj', b, fld)))
                        t1 = join(t0, typeof(o.fields[fld]))
                        if t1 != t0:
                            info.types[('obj', b, fld)] = t1
                            self.restart(pos0)

        def view(k):
            v = View(self, frame, entry, k, n, iters)
            v.objs = objs
            v.info = info
            v.live = live
            v.site = site
            v.mined = info.mined
            return v

        # types of havocked state must be known before generating candidates
        from . import invs
        v0 = view(z3.IntVal(0) if n is not None else None)
        pre_cands = invs.candidates(self, v0, self.current, site)
        if not self.in_sub:
            pass
        for nm, fn in pre_cands:
            if nm in info.dropped:
                continue
            g = self.safe_inv(fn, v0)
            if g is None:
                info.dropped.add(nm)
                continue
            if self.stage == 1 and deferred(g):
                info.later.add(nm)
                continue
            self.emit(g, f'loop {site[1]}#{site[2]}.{level} invariant on entry: {nm}', 'inv-init', (key, nm))
        # ---- cut
        tag = f"@L{fid}{'.' + str(level) if level else ''}"
        head_havoc(tag)
        k = None
        if n is not None:
            k = self.fresh('k' + tag, z3.IntSort())
            self.assume(k >= 0)
            self.assume(z3.Or(k <= n, z3.And(n < 0, k == 0)))
        vh = view(k)
        for nm, fn in pre_cands:
            if nm in info.dropped or (self.stage == 1 and nm in info.later):
                continue
            g = self.safe_inv(fn, vh)
            if g is None:
                info.dropped.add(nm)
                self.restart(pos0)
            self.assume(g)
            if is_z3(g):
                self.cand[g.get_id()] = (key, nm)
        step = getattr(self.current, 'step', None)
        if step is not None:
            step.head(self, vh)
        lp = dict(mark=mark, info=info, pos=pos0, head={nm: frame.vars.get(nm) for nm in names}, k=k, view=vh,
                  objs=objs, entry=entry)
        mark2 = next(V._birth)
        lp['mark'] = mark2
        lp['own'] = {frame.vars[nm].birth for nm in names if isinstance(frame.vars.get(nm), LObj)}     # new in every iteration
        # ---- body or exit
        self.loopstack.append(lp)
        pushed = True
        try:
            if cond is not None:
                npc = len(self.pc)
                c = self.branch(cond())
                if c:
                    invs.mine_guard(self, vh, self.pc[npc:], info, self.restart, pos0)
            else:
                c = self.choose(2, lambda: [0, 1]) == 0
                self.assume(k < n if c else k >= n)
            if not c:
                self.loopstack.pop()
                pushed = False
                if n is not None:
                    # the iteration count is then n (or 0 when n is negative)
                    self.assume(z3.Or(k == n, z3.And(n < 0, k == 0)))
                if step is not None:
                    step.exit(self, vh)
                self.exec_block(orelse, frame) if orelse else None
                return
            variant0 = None
            if bind is not None:
                bind(k)
            try:
                body() if callable(body) else self.exec_block(body, frame)
            except ContinueEx:
                pass
            except BreakEx:
                self.loopstack.pop()
                pushed = False
                return
            except ReturnEx:
                self.loopstack.pop()
                pushed = False
                raise
        finally:
            if pushed and self.loopstack and self.loopstack[-1] is lp:
                self.loopstack.pop()
        check_types()
        ve = view(k + 1 if k is not None else None)
        invs.mine_end(self, vh, ve, lp, info, self.restart, pos0)
        if step is not None:
            for nm, g in step.end(self, vh, ve):
                self.emit(g, f'loop {site[1]}#{site[2]}.{level}: {nm}', 'post')
        for nm, fn in pre_cands:
            if nm in info.dropped or (self.stage == 1 and nm in info.later):
                continue
            g = self.safe_inv(fn, ve)
            if g is None:
                info.dropped.add(nm)
                self.restart(pos0)
            self.emit(g, f'loop {site[1]}#{site[2]}.{level} invariant preserved: {nm}', 'inv-pres', (key, nm))
        if cond is not None and self.current is not None and getattr(self.current, 'terminates', False):
            invs.variant(self, vh, ve, lp, site, key)
        raise PathEnd()

    def safe_inv(self, fn, view):
        try:
            g = fn(view)
        except (Unsupported, KeyError, AttributeError, z3.Z3Exception, TypeError, IndexError):
            return None
        return g

    def reachable(self, frame, info):
        """Objects that a loop may mutate, by birth."""
        out = {}
        seen = set()

        def go(v):
            if id(v) in seen:
                return
            seen.add(id(v))
            if isinstance(v, (LObj, Obj, DictObj, SetObj, SMap)) or isinstance(v, Model):
                b = getattr(v, 'birth', None)
                if b is not None:
                    out[b] = v
            if isinstance(v, LObj) and not isinstance(v.val, SSeq):
                for x in v.val:
                    go(x)
            elif isinstance(v, tuple):
                for x in v:
                    go(x)
            elif isinstance(v, Obj):
                for x in v.fields.values():
                    go(x)
            elif isinstance(v, DictObj):
                for x in v.d.values():
                    go(x)
            elif isinstance(v, FuncVal):
                if v.bound is not None:
                    go(v.bound)
                fr = v.closure
                while fr is not None:
                    for x in fr.vars.values():
                        go(x)
                    fr = fr.parent
            elif isinstance(v, Model):
                for x in getattr(v, 'children', lambda: ())():
                    go(x)
        f = frame
        while f is not None:
            for v in f.vars.values():
                go(v)
            f = f.parent
        for fr in getattr(self, 'frames', ()):
            for v in fr.vars.values():
                go(v)
        for v in self.ghost.values():
            go(v)
        return out

    def havoc_obj(self, o, fields, info, b, tag):
        if isinstance(o, LObj):
            t = join(typeof(o), info.types.get(('obj', b)))
            nv = self.fresh_val(t, f'list{b}{tag}')
            o.val = nv.val if isinstance(nv, LObj) else nv
        elif isinstance(o, Obj):
            for fld in sorted(fields):
                t = join(typeof(o.fields[fld]), info.types.get(('obj', b, fld)))
                o.fields[fld] = self.fresh_val(t, f'{fld}{tag}')
        elif isinstance(o, Model):
            o.havoc(self, tag, fields)
        elif isinstance(o, SetObj):
            if o.member is None:
                self.set_symbolic(o)
            o.member = self.fresh(f'set{b}{tag}', z3.ArraySort(z3.IntSort(), z3.BoolSort()))
        else:
            raise Unsupported('mutation of a dict inside a loop')

    def set_symbolic(self, o):
        a = z3.K(z3.IntSort(), z3.BoolVal(False))
        for x in o.items:
            a = z3.Store(a, to_int(x), z3.BoolVal(True))
        o.member, o.items = a, None

    # ------------------------------------------------------------ expressions
    def eval(self, e, frame):
        m = getattr(self, 'ex_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(e).__name__} at line {getattr(e, "lineno", self.line)}')
        return m(e, frame)

    def ex_Constant(self, e, frame):
        if isinstance(e.value, float) and self.opts.get('floats'):      # floating-point numbers as real numbers
            return z3.RealVal(str(fractions.Fraction(repr(e.value))) if e.value == e.value and abs(e.value) < 1e300 else _unreal())
        return e.value

    def ex_Name(self, e, frame):
        return self.name(e.id, frame)

    def ex_NamedExpr(self, e, frame):
        v = self.eval(e.value, frame)
        f = frame
        while f.parent is not None and f.func is None:
            f = f.parent
        f.vars[e.target.id] = v
        return v

    def ex_JoinedStr(self, e, frame):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                parts.append(('fmt', p, frame) if self.opts.get('lazy_str', True) and not self.opts.get('strings')
                             else self.fmt_value(self.eval(p.value, frame), p))
        return StrV(parts)

    def fmt_value(self, v, p):
        return ('val', v)

    def ex_Tuple(self, e, frame):
        return self.seq_display(e.elts, frame, 'tuple')

    def ex_List(self, e, frame):
        v = self.seq_display(e.elts, frame, 'list')
        return v

    def seq_display(self, elts, frame, kind):
        if not any(isinstance(x, ast.Starred) for x in elts):
            vs = [self.eval(x, frame) for x in elts]
            return tuple(vs) if kind == 'tuple' else LObj(vs)
        acc = ()
        for x in elts:
            if isinstance(x, ast.Starred):
                w = self.eval(x.value, frame)
                w = self.as_seq(w)
            else:
                w = (self.eval(x, frame),)
            acc = self.concat(acc, w)
        if kind == 'tuple':
            return acc if isinstance(acc, tuple) else acc.with_kind('tuple')
        return LObj(list(acc)) if isinstance(acc, tuple) else LObj(acc.with_kind('list'))

    def ex_Set(self, e, frame):
        return SetObj(items=[self.eval(x, frame) for x in e.elts])

    def ex_Dict(self, e, frame):
        d = DictObj()
        h = self.opts.get('dict_display')       # maps with symbolic keys
        if h is not None:
            r = h(self, [(None if k is None else self.eval(k, frame), self.eval(v, frame)) for k, v in zip(e.keys, e.values)])
            if r is not None:
                return r
            raise Unsupported('another kind of map')
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v, frame)
                if not isinstance(o, DictObj):
                    raise Unsupported('dict unpacking of a symbolic map')
                d.d.update(o.d)
            else:
                d.d[self.key(self.eval(k, frame))] = self.eval(v, frame)
        return d

    def key(self, k):
        if isinstance(k, (int, str)) or k is None:
            return k
        if isinstance(k, tuple):
            return tuple(self.key(x) for x in k)
        if z3.is_int_value(k) if is_z3(k) else False:
            return k.as_long()
        raise Unsupported('symbolic dictionary key')

    def ex_IfExp(self, e, frame):
        c = self.truth(self.eval(e.test, frame))
        if isinstance(c, bool):
            return self.eval(e.body if c else e.orelse, frame)
        return self.eval(e.body if self.branch(c) else e.orelse, frame)

    def ex_BoolOp(self, e, frame):
        is_and = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, frame)
            if i == len(e.values) - 1:
                return v
            t = self.branch(self.truth(v))
            if is_and and not t:
                return False if is_boolv(v) else v
            if not is_and and t:
                return True if is_boolv(v) else v
        return v

    def ex_UnaryOp(self, e, frame):
        v = self.eval(e.operand, frame)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else neg(t)
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                return -v
            if isinstance(v, z3.ArithRef):
                return -v
            if isinstance(v, Obj):
                return self.call_method(v, '__neg__', [])
            if isinstance(v, Model):
                return v.binop(self, 'USub', None, False)
            if is_boolv(v):
                return -to_int(v)
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported('unary operator')

    def ex_BinOp(self, e, frame):
        a = self.eval(e.left, frame)
        b = self.eval(e.right, frame)
        self.line = getattr(e, 'lineno', self.line)
        return self.binop(type(e.op).__name__, a, b)

    def ex_Compare(self, e, frame):
        left = self.eval(e.left, frame)
        res = None
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, frame)
            c = self.compare(type(op).__name__, left, right)
            if i == len(e.ops) - 1:
                if res is None:
                    return c
                return conj(res, self.truth(c))
            c = self.truth(c)
            if isinstance(c, bool):
                if not c:
                    return False
            else:
                # evaluating the rest may need this (bounds), but comparisons of plain scalars are total
                res = c if res is None else conj(res, c)
            left = right
        return res

    def ex_Attribute(self, e, frame):
        return self.getattr(self.eval(e.value, frame), e.attr)

    def ex_Subscript(self, e, frame):
        o = self.eval(e.value, frame)
        if isinstance(o, ClassInfo) or (isinstance(o, Fn) and o.name in ('tuple', 'list', 'dict', 'type', 'set')):
            return o          # a type expression such as defaultdict[int, int]
        return self.getitem(o, self.eval_index(e.slice, frame))

    def eval_index(self, s, frame):
        if isinstance(s, ast.Slice):
            return SliceV(*(None if x is None else self.eval(x, frame) for x in (s.lower, s.upper, s.step)))
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, frame) for x in s.elts)
        return self.eval(s, frame)

    def ex_Lambda(self, e, frame):
        return FuncVal(FuncInfo(e, frame.module), closure=frame, site=frame.site)

    def ex_Starred(self, e, frame):
        return Star(self.eval(e.value, frame))

    def ex_GeneratorExp(self, e, frame):
        # Evaluated where it is consumed; the first iterable is evaluated now, as in Python.
        first = self.eval(e.generators[0].iter, frame)
        g = GenExp(e, frame)
        g.first = first
        return g

    def ex_ListComp(self, e, frame):
        v = self.comp(e, frame)
        if isinstance(v, NestedSeq):
            v = self.flatten(v)
        return LObj(list(v)) if isinstance(v, (tuple, list)) else LObj(v.with_kind('list'))

    def ex_SetComp(self, e, frame):
        v = self.comp(e, frame)
        if isinstance(v, (tuple, list)):
            return SetObj(items=list(v))
        return self.make_set(v)

    def make_set(self, v):
        """The set of the values of an integer sequence."""
        if isinstance(v, SetObj):
            return SetObj(v.member, None if v.items is None else list(v.items))
        v = self.as_seq(v)
        if isinstance(v, tuple):
            return SetObj(items=list(v))
        if v.et != INT:
            raise Unsupported('set of non-integers')
        m = self.fresh('set', z3.ArraySort(z3.IntSort(), z3.BoolSort()))
        x, t = z3.Int('x!set'), z3.Int('t!set')
        wit = z3.Function(f'setw!{m}', z3.IntSort(), z3.IntSort()) if not self.bound else None
        if wit is None:
            raise Unsupported('set built inside a comprehension')
        n = to_int(v.n)
        A = v.arrs[0]
        self.assume(z3.ForAll([x], z3.Implies(m[x], z3.And(wit(x) >= 0, wit(x) < n, A[wit(x)] == x)), patterns=[m[x]]))
        self.assume(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < n), m[A[t]]), patterns=[A[t]]))
        return SetObj(member=m)

    def ex_DictComp(self, e, frame):
        e2 = ast.ListComp(elt=ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()), generators=e.generators)
        ast.copy_location(e2, e)
        ast.fix_missing_locations(e2)
        v = self.comp(e2, frame)
        if isinstance(v, (tuple, list)):
            d = DictObj()
            for k, w in v:
                d.d[self.key(k)] = w
            return d
        mk = self.opts.get('dict_of_pairs')
        if mk:
            return mk(self, v)
        raise Unsupported('dict comprehension of symbolic length')

    # ---- comprehensions
    def gen_items(self, g):
        """Consume a generator expression as a sequence value."""
        return self.comp(g.node, g.frame, first=getattr(g, 'first', None))

    def comp(self, e, frame, first=None):
        """Value of a comprehension: python list of values, or SSeq."""
        fr = Frame(None, frame.module, frame, frame.site)
        return self._comp(e, e.generators, 0, fr, first)

    def _comp(self, e, gens, i, fr, first=None):
        g = gens[i]
        itv = first if (i == 0 and first is not None) else self.eval(g.iter, fr)
        if isinstance(itv, ProdIter):
            # desugar to several generators
            if not isinstance(g.target, (ast.Tuple, ast.List)) or len(g.target.elts) != len(itv.parts):
                raise Unsupported('product comprehension target')
            its = [self.to_iter(p) for p in itv.parts]
            return self._comp_prod(e, g, gens, i, its, 0, fr)
        if i == len(gens) - 1 and i and not g.ifs and isinstance(e.elt, ast.Name) and isinstance(g.target, ast.Name) and e.elt.id == g.target.id \
                and isinstance(itv, (LObj, SSeq)):
            return self.as_seq(itv)
        it = self.to_iter(itv)
        return self._comp_one(e, g, gens, i, it, g.target, g.ifs, fr)

    def _comp_prod(self, e, g, gens, i, its, lvl, fr):
        if lvl == len(its) - 1:
            return self._comp_one(e, g, gens, i, its[lvl], g.target.elts[lvl], g.ifs, fr)
        return self._flat(its[lvl], g.target.elts[lvl], [], fr,
                          lambda: self._comp_prod(e, g, gens, i, its, lvl + 1, fr))

    def _comp_one(self, e, g, gens, i, it, target, ifs, fr):
        if i == len(gens) - 1:
            return self._map(it, target, ifs, fr, lambda: self.eval(e.elt, fr))
        return self._flat(it, target, ifs, fr, lambda: self._comp(e, gens, i + 1, fr))

    def flatten(self, ns):
        """The sequence of a nested comprehension: the concatenation of n sequences, as a relation."""
        lens = []

        def one():
            v = ns.inner()
            v = as_sseq(self.as_seq(tuple(v) if isinstance(v, list) else v))
            lens.append(z3.simplify(to_int(v.n)))
            return v
        m = self._map(ns.it, ns.target, [], ns.fr, one)
        m = as_sseq(m)
        et = m.et[1]
        if m.et[0] != 'seq' or et is None:
            raise Unsupported('nested comprehension')
        N = self.fresh('flatlen', z3.IntSort())
        self.assume(N >= 0)
        F = [self.fresh('flat', a.sort().range()) for a in m.arrs[1:]]
        bs = [b for b, _ in self.bound]
        c = self.fcount()
        who, pos = (z3.Function(f'{x}!{c}', *([z3.IntSort()] * (len(bs) + 1)), z3.IntSort()) for x in ('who', 'pos'))
        t = z3.Int('t!fl')
        w, p = who(*bs, t), pos(*bs, t)
        self.assume(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < N), z3.And(
            w >= 0, w < to_int(m.n), p >= 0, p < z3.Select(m.arrs[0], w),
            *[z3.Select(f, t) == z3.Select(z3.Select(a, w), p) for f, a in zip(F, m.arrs[1:])])), patterns=[z3.Select(f, t) for f in F]))
        for j, f in enumerate(F):
            self.rels.append(('flat', f, j, tuple(F), m.arrs, to_int(m.n), N))
        self.grid(m, F, N, lens, lambda t: (who(*bs, t), pos(*bs, t)))
        return SSeq(et, N, F, 'tuple')

    def grid(self, m, F, N, lens, at):
        """A nested comprehension whose parts all have the same length L: entry L*i + j is entry j of part i."""
        outer = {}
        for r in self.rels:
            if r[0] == 'map' and any(z3.eq(r[1], a) for a in m.arrs):
                outer[r[1].get_id()] = r
        if not lens or len(outer) != len(m.arrs) or not all(z3.eq(x, lens[0]) for x in lens):
            return
        t = outer[m.arrs[0].get_id()][2]
        L, n = lens[0], to_int(m.n)
        if has_var(L, t):
            from .ring import limit
            L0, c = z3.substitute(L, (t, z3.IntVal(0))), self.fresh('i', z3.IntSort())
            s = z3.SimpleSolver()
            limit(s, 1000)
            s.add(*self.pc, c >= 0, c < n, z3.substitute(L, (t, c)) != L0)
            if s.check() != z3.unsat:
                return
            L = L0
        i, j, x = z3.Ints('i!grid j!grid x!grid')
        self.assume(N == z3.If(n > 0, L * n, 0))
        w, p = at(x)
        self.assume(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < N), x == L * w + p), patterns=[w, p]))
        for a, f in zip(m.arrs[1:], F):
            r = outer[a.get_id()]
            body = z3.Select(r[3], j)
            for q in self.rels:
                if q[0] == 'map' and z3.eq(q[1], r[3]):
                    body = z3.substitute(q[3], (q[2], j))
            body = z3.substitute(body, (r[2], i))
            self.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < n, j >= 0, j < L), f[L * i + j] == body), patterns=[f[L * i + j]]))

    def _flat(self, it, target, ifs, fr, inner):
        if isinstance(it, list):
            acc = []
            for x in it:
                self.assign(target, x, fr)
                if all(self.branch(self.truth(self.eval(c, fr))) for c in ifs):
                    v = inner()
                    if not isinstance(v, (list, tuple)) :
                        if acc == [] and x is it[-1]:
                            return v
                        a = self.concat(tuple(acc) if isinstance(acc, list) else acc, v)
                        acc = list(a) if isinstance(a, tuple) else a
                        continue
                    if isinstance(acc, list):
                        acc = acc + list(v)
                    else:
                        acc = self.concat(acc, tuple(v))
            return acc
        # symbolic outer length: a nested sum is all that can be done with it; represent as nested
        if ifs:
            raise Unsupported('filtered outer generator of symbolic length')
        return NestedSeq(self, it, target, fr, inner)

    def _map(self, it, target, ifs, fr, elem):
        if isinstance(it, list):
            out = []
            for x in it:
                self.assign(target, x, fr)
                if all(self.branch(self.truth(self.eval(c, fr))) for c in ifs):
                    out.append(elem())
            return out
        n = to_int(it.n)
        t = z3.Int(f't!{len(self.bound)}!{self.cnt.setdefault("tvar", 0)}')
        self.cnt['tvar'] += 1

        def one():
            self.assume(z3.And(t >= 0, t < n))
            self.assign(target, it.item(t), fr)
            for j, c in enumerate(ifs):
                if not self.branch(self.truth(self.eval(c, fr))):
                    return _FILTERED
            v = elem()
            return v.settle(self) if isinstance(v, Model) and hasattr(v, 'settle') else v
        nobl = len(self.obls)
        self.bound.append((t, n))
        try:
            cases = self.sub_explore(one)
        finally:
            self.bound.pop()
        rng = z3.And(t >= 0, t < n)
        kept, filt = [], []
        lift = []
        cond_of = []
        for facts, v in cases:
            # facts[0..1] are the range
            pure = [f for f in facts if not z3.eq(f, t >= 0) and not z3.eq(f, t < n)]
            cond_of.append(pure)
        vals = [(pf, v) for pf, (_, v) in zip(cond_of, cases) if v is not _FILTERED]
        if not vals:
            return []
        # facts that mention only fresh skolem terms are consequences, not conditions: separate them
        elems, defs = [], []
        for pf, v in vals:
            conds = [f for f in pf]
            elems.append((conds, v))
        ty = None
        for _, v in elems:
            ty = join(ty, typeof(v))
        ls = leaf_sorts(ty)
        res = [self.fresh('comp', z3.ArraySort(z3.IntSort(), s)) for s in ls]
        if not ifs:
            disj = []
            for pf, v in elems:
                leaves = pack(ty, v)
                eqs = [z3.Select(a, t) == l for a, l in zip(res, leaves)]
                disj.append((pf, eqs))
            if len(disj) == 1:
                pf, eqs = disj[0]
                body = z3.And(*pf, *eqs) if (pf or eqs) else None
                if body is not None:
                    self.assume_q(t, n, body, [z3.Select(a, t) for a in res], extra_from=pf + eqs)
            else:
                body = z3.Or(*[z3.And(*pf, *eqs) for pf, eqs in disj])
                self.assume_q(t, n, body, [z3.Select(a, t) for a in res], extra_from=[])
            out = SSeq(ty, n, res, 'tuple')
            if len(elems) == 1:
                leaves = pack(ty, elems[0][1])
                for a, l in zip(res, leaves):
                    self.rels.append(('map', a, t, l, n))
            else:
                for idx, a in enumerate(res):
                    l = None
                    for pf, v in elems:
                        lv = pack(ty, v)[idx]
                        l = lv if l is None else z3.If(z3.And(*pf), lv, l)
                    self.rels.append(('map', a, t, l, n))
            return out
        # filtered: result is a subsequence
        m = self.fresh('len', z3.IntSort())
        idx = z3.Function(f'idx!{self.fcount()}', *([z3.IntSort()] * (len(self.bound) + 1)), z3.IntSort())
        rank = z3.Function(f'rank!{self.fcount()}', *([z3.IntSort()] * (len(self.bound) + 1)), z3.IntSort())
        bs = [b for b, _ in self.bound]
        j, j2 = z3.Int('j!f'), z3.Int('j2!f')
        self.assume(z3.And(m >= 0, m <= n))
        subs = lambda f: z3.substitute(f, (t, idx(*bs, j)))
        alts = []
        for pf, v in elems:
            leaves = pack(ty, v)
            alts.append(z3.And(*[subs(f) for f in pf], *[z3.Select(a, j) == subs(l) for a, l in zip(res, leaves)]))
        body = z3.Implies(z3.And(j >= 0, j < m),
                          z3.And(idx(*bs, j) >= 0, idx(*bs, j) < n, rank(*bs, idx(*bs, j)) == j, z3.Or(*alts)))
        self.assume(z3.ForAll([j], body, patterns=[idx(*bs, j)] + [z3.Select(a, j) for a in res]))
        self.assume(z3.ForAll([j, j2], z3.Implies(z3.And(0 <= j, j < j2, j2 < m), idx(*bs, j) < idx(*bs, j2)),
                              patterns=[z3.MultiPattern(idx(*bs, j), idx(*bs, j2))]))
        keepc = z3.Or(*[z3.And(*pf) if pf else z3.BoolVal(True) for pf, _ in elems])
        self.assume(z3.ForAll([t], z3.Implies(z3.And(rng, keepc),
                              z3.And(rank(*bs, t) >= 0, rank(*bs, t) < m, idx(*bs, rank(*bs, t)) == t)),
                              patterns=[rank(*bs, t)] + self.trigger_terms(keepc, t)))
        out = SSeq(ty, m, res, 'tuple', prov=('filter', idx, rank, n, keepc, t))
        if len(elems) == 1:
            self.rels.append(('filter', res, m, idx, rank, t, n, keepc, pack(ty, elems[0][1])))
        return out

    def fcount(self):
        c = self.cnt.get('fcount', 0)
        self.cnt['fcount'] = c + 1
        return c

    def trigger_terms(self, body, t):
        out = []
        for s in subterms(body):
            if z3.is_select(s) and z3.eq(s.arg(1), t):
                out.append(s)
        if not out:
            out = [s for s in subterms(body) if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(z3.eq(x, t) for x in s.children())]
        return out[:3]

    def assume_q(self, t, n, body, pats, extra_from=()):
        """assume forall t in [0,n): body, with triggers."""
        pats = list(pats)
        for f in extra_from:
            for s in subterms(f):
                if z3.is_select(s) and z3.eq(s.arg(1), t) and not any(z3.eq(s, p) for p in pats) and \
                        not has_var(s.arg(0), t):
                    pats.append(s)
        q = z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < n), body), patterns=pats[:4]) if pats else \
            z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < n), body))
        self.assume(q)

    # ------------------------------------------------------------ sequences
    def as_seq(self, v):
        """list/tuple/iterable -> python tuple or SSeq."""
        if isinstance(v, tuple) or isinstance(v, SSeq):
            return v
        if isinstance(v, LObj):
            return v.val if isinstance(v.val, SSeq) else tuple(v.val)
        if isinstance(v, GenExp):
            r = self.gen_items(v)
            return tuple(r) if isinstance(r, list) else self.flatten(r) if isinstance(r, NestedSeq) else r
        if isinstance(v, (Iter,)):
            return self.iter_to_seq(v)
        if isinstance(v, list):
            return tuple(v)
        if isinstance(v, DictObj):
            return tuple(v.d.keys())
        if isinstance(v, Model):
            it = v.iter(self)
            return tuple(it) if isinstance(it, list) else (it if isinstance(it, SSeq) else self.iter_to_seq(it))
        if isinstance(v, SetObj) and v.items is not None:
            return tuple(dedup(v.items))
        if isinstance(v, NestedSeq):
            return self.flatten(v)
        if isinstance(v, str):
            return tuple(v)
        raise Unsupported(f'not a sequence: {type(v).__name__}')

    def iter_to_seq(self, it):
        if isinstance(it, list):
            return tuple(it)
        if getattr(it, 'prov', None) is not None and isinstance(it.prov, SSeq):
            return it.prov
        fr = Frame(None, None)
        e = ast.Name(id='x')
        return self._map(it, ast.Name(id='x!it', ctx=ast.Store()), [], fr, lambda: fr.vars['x!it'])

    def concrete_list(self, v):
        """A python list of the items if the length is concrete, else None."""
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, LObj):
            if not isinstance(v.val, SSeq):
                return list(v.val)
            return self.concrete_list(v.val)
        if isinstance(v, SSeq):
            n = v.n
            if z3.is_expr(n):
                n = z3.simplify(n)
                if not z3.is_int_value(n):
                    return None
                n = n.as_long()
            if n > self.opts['unroll']:
                return None
            return [v.get(i) for i in range(n)]
        if isinstance(v, GenExp):
            return self.concrete_list(self.gen_items(v))
        if isinstance(v, Iter):
            n = v.n if isinstance(v.n, int) else z3.simplify(v.n)
            if isinstance(n, int) or z3.is_int_value(n):
                n = n if isinstance(n, int) else n.as_long()
                if 0 <= n <= self.opts['unroll']:
                    return [v.item(z3.IntVal(i)) for i in range(n)]
                if n < 0:
                    return []
            return None
        if isinstance(v, DictObj):
            return list(v.d.keys())
        if isinstance(v, SetObj):
            return None if v.items is None else dedup(v.items)
        if isinstance(v, Model):
            return self.concrete_list(v.iter(self)) if hasattr(v, 'iter') else None
        return None

    def to_iter(self, v):
        """Normalise an iterable: python list (concrete) or Iter."""
        if isinstance(v, Model):
            v = v.iter(self)
        if isinstance(v, ProdIter):
            ls = [self.concrete_list(p) for p in v.parts]
            if all(l is not None for l in ls):
                return [tuple(x) for x in itertools.product(*ls)]
            raise Unsupported('product iterator here')
        if isinstance(v, NestedSeq):
            v = self.flatten(v)
        l = self.concrete_list(v)
        if l is not None:
            return l
        if isinstance(v, Iter):
            return v
        if isinstance(v, GenExp):
            v = self.gen_items(v)
        if isinstance(v, NestedSeq):
            v = self.flatten(v)
        if isinstance(v, (LObj, SSeq)):
            live = v
            s = as_sseq(v)
            if isinstance(v, LObj):
                # iterating a list that the loop may mutate: read through the object
                def item(k, v=v):
                    return as_sseq(v).get(k)
                return Iter(to_int(s.n), item, prov=s)
            return Iter(to_int(s.n), lambda k: s.get(k), prov=s)
        raise Unsupported(f'cannot iterate over {type(v).__name__}')

    def length(self, v):
        if isinstance(v, (tuple, list, str)):
            return len(v)
        if isinstance(v, LObj):
            return self.length(v.val)
        if isinstance(v, SSeq):
            return v.n if isinstance(v.n, int) else (v.n.as_long() if z3.is_int_value(v.n) else v.n)
        if isinstance(v, DictObj):
            return len(v.d)
        if isinstance(v, Iter):
            return v.n
        if isinstance(v, SetObj) and v.items is not None and all(isinstance(x, int) for x in v.items):
            return len(set(v.items))
        if isinstance(v, Obj):
            return self.call_method(v, '__len__', [])
        if isinstance(v, Model):
            return v.length(self)
        raise Unsupported(f'len of {type(v).__name__}')

    def concat(self, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, tuple) and not a:
            return b
        if isinstance(b, tuple) and not b:
            return a
        et = None
        sa, sb = as_sseq(a), as_sseq(b)
        et = join(sa.et, sb.et)
        if et is None:
            return SSeq(None, to_int(sa.n) + to_int(sb.n), (), 'tuple')
        sa, sb = self.coerce_seq(sa, et), self.coerce_seq(sb, et)
        na, nb = to_int(sa.n), to_int(sb.n)
        t = z3.Int('t!cat')
        arrs = []
        for x, y in zip(sa.arrs, sb.arrs):
            N = self.fresh('cat', x.sort())
            self.assume(z3.ForAll([t], z3.Select(N, t) == z3.If(t < na, z3.Select(x, t), z3.Select(y, t - na)),
                                  patterns=[z3.Select(N, t)]))
            # triggers from the parts
            self.assume(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < na), z3.Select(N, t) == z3.Select(x, t)),
                                  patterns=[z3.Select(x, t)]) if not z3.is_K(x) and not z3.is_store(x) else z3.BoolVal(True))
            self.rels.append(('cat', N, x, y, na))
            arrs.append(N)
        return SSeq(et, z3.simplify(na + nb), arrs, 'tuple')

    def coerce_seq(self, s, et):
        if s.et == et:
            return s
        if s.et is None:
            return as_sseq(s, et)
        if s.et == INT and et == REAL:
            a = s.arrs[0]
            if z3.is_K(a) or z3.is_store(a):
                return as_sseq(s, et)
            key = a.get_id()
            if key not in self.memo_coerce:
                N = self.fresh('toreal', z3.ArraySort(z3.IntSort(), z3.RealSort()))
                t = z3.Int('t!tr')
                self.assume(z3.ForAll([t], z3.Select(N, t) == z3.ToReal(z3.Select(a, t)),
                                      patterns=[z3.Select(N, t)]))
                self.memo_coerce[key] = (a, N)
            return SSeq(REAL, s.n, [self.memo_coerce[key][1]], s.kind)
        return as_sseq(s, et)

    def norm_index(self, i, n, what='index'):
        """Python index -> nonnegative index, with the bounds obligation."""
        i, n = to_int(i), to_int(n)
        if z3.is_int_value(i):
            if i.as_long() < 0:
                j = z3.simplify(n + i)
            else:
                j = i
        elif self.provable(i >= 0):
            j = i
        elif self.provable(i < 0):
            j = n + i
        elif self.opts.get('index_quant') and self.provable_q(i >= 0):
            j = i
        else:
            j = z3.If(i < 0, i + n, i)
        self.check(z3.And(j >= 0, j < n), f'{what} within bounds (line {self.line})', 'safe')
        return j

    def getitem(self, o, k):
        if isinstance(o, Model):
            return o.getitem(self, k)
        if isinstance(o, LObj):
            if isinstance(k, SliceV):
                r = self.slice(o.val if isinstance(o.val, SSeq) else tuple(o.val), k)
                return LObj(list(r)) if isinstance(r, tuple) else LObj(r.with_kind('list'))
            return self.getitem(o.val if isinstance(o.val, SSeq) else tuple(o.val), k)
        if isinstance(o, tuple):
            if isinstance(k, SliceV):
                return self.slice(o, k)
            if isinstance(k, bool):
                k = int(k)
            if is_z3(k) and z3.is_int_value(z3.simplify(k)):
                k = z3.simplify(k).as_long()
            if isinstance(k, int):
                if not -len(o) <= k < len(o):
                    raise PyRaise('IndexError', line=self.line)
                return o[k]
            if not o:
                raise PyRaise('IndexError', line=self.line)
            try:
                o2 = as_sseq(o)
                return o2.get(self.norm_index(k, len(o)))
            except Unsupported:
                kk = to_int(k)
                for i in range(len(o)):
                    if self.branch(z3.Or(kk == i, kk == i - len(o))):
                        return o[i]
                raise PyRaise('IndexError', line=self.line)
        if isinstance(o, SSeq):
            if isinstance(k, SliceV):
                return self.slice(o, k)
            return o.get(self.norm_index(k, o.n))
        if isinstance(o, DictObj):
            kk = self.key(k)
            if kk not in o.d:
                raise PyRaise('KeyError', line=self.line)
            return o.d[kk]
        if isinstance(o, Obj):
            return self.call_method(o, '__getitem__', [k])
        if isinstance(o, str) and isinstance(k, int):
            return o[k]
        if isinstance(o, Iter):
            return o.item(self.norm_index(k, o.n))
        raise Unsupported(f'subscript of {type(o).__name__}')

    def setitem(self, o, k, v):
        if isinstance(o, Model):
            return o.setitem(self, k, v)
        if isinstance(o, LObj):
            if o.derived:
                raise Unsupported('store into a list read out of another sequence')
            if isinstance(k, SliceV):
                raise Unsupported('slice store')
            self.mutate(o)
            if not isinstance(o.val, SSeq):
                if is_z3(k) and z3.is_int_value(z3.simplify(k)):
                    k = z3.simplify(k).as_long()
                if isinstance(k, int):
                    if not -len(o.val) <= k < len(o.val):
                        raise PyRaise('IndexError', line=self.line)
                    o.val = list(o.val)
                    o.val[k] = v
                    return
                t = None
                for x in o.val:
                    t = join(t, typeof(x))
                o.val = as_sseq(tuple(o.val), join(t, typeof(v)))
            s = o.val
            j = self.norm_index(k, s.n)
            et = join(s.et, typeof(v))
            s = self.coerce_seq(s, et)
            for lp in self.loopstack:
                lp.setdefault('stores', []).append((o.birth, j, v))
            o.val = s.set(j, v)
            return
        if isinstance(o, DictObj):
            self.mutate(o)
            o.d = dict(o.d)
            o.d[self.key(k)] = v
            return
        if isinstance(o, (tuple, SSeq)):
            raise PyRaise('TypeError', line=self.line)
        if isinstance(o, Obj):
            return self.call_method(o, '__setitem__', [k, v])
        raise Unsupported(f'subscript store on {type(o).__name__}')

    def extend(self, o, v):
        self.mutate(o)
        if o.derived:
            raise Unsupported('extending a list read out of another sequence')
        w = self.as_seq(v)
        r = self.concat(o.val if isinstance(o.val, SSeq) else tuple(o.val), w)
        o.val = list(r) if isinstance(r, tuple) else r.with_kind('list')

    def slice(self, s, sl):
        step = sl.step
        if step is not None and not (isinstance(step, int)):
            raise Unsupported('symbolic slice step')
        if isinstance(s, tuple):
            ok = lambda x: x is None or isinstance(x, int)
            if ok(sl.lo) and ok(sl.hi):
                return s[sl.lo:sl.hi:step]
            s = as_sseq(s)
        n = to_int(s.n)

        def clamp(x, dflt):
            if x is None:
                return dflt
            x = to_int(x)
            if z3.is_int_value(x) and x.as_long() == 0:
                return x
            if self.provable(z3.And(x >= 0, x <= n)):
                return x
            if self.provable(z3.And(x < 0, x >= -n)):
                return z3.simplify(n + x)
            y = z3.If(x < 0, z3.If(x + n < 0, z3.IntVal(0), x + n), z3.If(x > n, n, x))
            return z3.simplify(y)
        if step in (None, 1):
            lo, hi = clamp(sl.lo, z3.IntVal(0)), clamp(sl.hi, n)
            m = hi - lo
            if not self.provable(lo <= hi):
                m = z3.If(hi > lo, hi - lo, z3.IntVal(0))
            m = z3.simplify(m)
            if z3.is_int_value(lo) and lo.as_long() == 0:
                return SSeq(s.et, m, s.arrs, s.kind)
            return self.shifted(s, lo, m)
        if step == -1 and sl.lo is None and sl.hi is None:
            t = z3.Int('t!rev')
            arrs = []
            for x in s.arrs:
                N = self.fresh('rev', x.sort())
                self.assume(z3.ForAll([t], z3.Select(N, t) == z3.Select(x, n - 1 - t), patterns=[z3.Select(N, t)]))
                self.assume(z3.ForAll([t], z3.Select(N, n - 1 - t) == z3.Select(x, t), patterns=[z3.Select(x, t)])
                            if not z3.is_K(x) and not z3.is_store(x) else z3.BoolVal(True))
                self.rels.append(('rev', N, x, n))
                arrs.append(N)
            return SSeq(s.et, n, arrs, s.kind)
        raise Unsupported(f'slice step {step}')

    def shifted(self, s, lo, m):
        t = z3.Int('t!sh')
        arrs = []
        for x in s.arrs:
            N = self.fresh('slice', x.sort())
            self.assume(z3.ForAll([t], z3.Select(N, t) == z3.Select(x, t + lo), patterns=[z3.Select(N, t)]))
            self.assume(z3.ForAll([t], z3.Select(N, t - lo) == z3.Select(x, t), patterns=[z3.Select(x, t)])
                        if not z3.is_K(x) and not z3.is_store(x) else z3.BoolVal(True))
            self.rels.append(('shift', N, x, lo))
            arrs.append(N)
        return SSeq(s.et, m, arrs, s.kind)

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name):
        if isinstance(o, Obj) and o.alias is not None:
            o = o.alias
        if isinstance(o, Obj):
            if name in o.fields:
                return o.fields[name]
            if name == '__class__':
                return o.cls
            return self.class_attr(o.cls, name, o)
        if isinstance(o, ClassInfo):
            if name == '__name__':
                return o.name
            return self.class_attr(o, name, None)
        if isinstance(o, Model):
            return o.getattr(self, name)
        if isinstance(o, Module):
            return self.global_value(o, name)
        if isinstance(o, SuperV):
            for c in o.cls.mro(self.repo)[1:]:
                r = c.find(self.repo, name)
                if r is not None:
                    return FuncVal(r, bound=o.self_)
            if name == '__init__':
                return Fn(lambda ex, *a, **k: None, 'object.__init__')
            raise Unsupported(f'super().{name}')
        from . import models
        return models.attr(self, o, name)

    def class_attr(self, cls, name, self_):
        r = cls.find(self.repo, name)
        if r is None:
            if self_ is not None and name in ('__str__',):
                return self.class_attr(cls, '__repr__', self_)
            raise PyRaise('AttributeError', line=self.line) if self_ is not None and not self.opts.get('soft_attr') \
                else Unsupported(f'attribute {name} of class {cls.name}')
        if isinstance(r, FuncInfo):
            return self.bind(r, cls, self_)
        _, c, expr = r
        if isinstance(expr, ClassInfo):
            return expr
        if isinstance(expr, ast.Name) and c.find(self.repo, expr.id) is not None:
            return self.class_attr(cls, expr.id, self_)
        v = self.eval(expr, Frame(None, c.module))
        if isinstance(v, FuncVal) and self_ is not None:
            return FuncVal(v.info, bound=self_)
        return v

    def bind(self, info, cls, self_):
        if info.kind == 'static':
            return FuncVal(info)
        if info.kind == 'class':
            return FuncVal(info, bound=cls)
        if info.kind == 'property':
            if self_ is None:
                raise Unsupported('property on class')
            return self.call_func(FuncVal(info, bound=self_), [], {})
        if self_ is None:
            return FuncVal(info)
        return FuncVal(info, bound=self_)

    def setattr(self, o, name, v):
        if isinstance(o, Obj) and o.alias is not None:
            o = o.alias
        if isinstance(o, Obj):
            self.mutate(o, name)
            o.fields[name] = v
            return
        if isinstance(o, Model):
            return o.setattr(self, name, v)
        raise Unsupported('attribute store')

    def call_method(self, o, name, args):
        if isinstance(o, Obj):
            return self.call(self.getattr(o, name), args, {})
        raise Unsupported(f'method {name}')

    # ------------------------------------------------------------ operators
    def truth(self, v):
        if isinstance(v, bool) or isinstance(v, z3.BoolRef):
            return v
        if v is None or v is NOTIMPL:
            return False if v is None else True
        if isinstance(v, (int, float, str)):
            return bool(v)
        if isinstance(v, z3.ArithRef):
            return v != 0
        if isinstance(v, (tuple, SSeq, LObj, DictObj)):
            n = self.length(v)
            return n > 0
        if isinstance(v, SetObj):
            if v.items is not None:
                return len(v.items) > 0
            x = z3.Int('x!ne')
            return z3.Exists([x], v.member[x])
        if isinstance(v, Obj):
            r = v.cls.find(self.repo, '__bool__')
            if r is not None:
                return self.truth(self.call_method(v, '__bool__', []))
            r = v.cls.find(self.repo, '__len__')
            if r is not None:
                return self.truth(self.call_method(v, '__len__', []))
            return True
        if isinstance(v, Model):
            return v.truth(self)
        if isinstance(v, (FuncVal, ClassInfo, GenExp, StrV)):
            return True
        raise Unsupported(f'truth value of {type(v).__name__}')

    def binop(self, op, a, b):
        if isinstance(a, Obj) or isinstance(b, Obj):
            return self.obj_binop(op, a, b)
        if isinstance(a, Model) and not isinstance(a, Fn):
            return a.binop(self, op, b, False)
        if isinstance(b, Model) and not isinstance(b, Fn):
            return b.binop(self, op, a, True)
        num = lambda v: is_int(v) or is_real(v) or is_boolv(v)
        if num(a) and num(b):
            return self.arith(op, a, b)
        seq = lambda v: isinstance(v, (tuple, SSeq, LObj))
        if op == 'Add' and seq(a) and seq(b):
            la, lb = isinstance(a, LObj), isinstance(b, LObj)
            kind = 'list' if la or (isinstance(a, SSeq) and a.kind == 'list') else 'tuple'
            r = self.concat(self.as_seq(a), self.as_seq(b))
            if kind == 'list':
                return LObj(list(r)) if isinstance(r, tuple) else LObj(r.with_kind('list'))
            return r if isinstance(r, tuple) else r.with_kind('tuple')
        if op == 'Mult' and (seq(a) and is_int(b) or seq(b) and is_int(a)):
            s, n = (a, b) if seq(a) else (b, a)
            return self.repeat(s, n)
        if op in ('BitAnd', 'BitOr', 'Sub') and isinstance(a, SetObj) and isinstance(b, SetObj):
            return self.set_op(op, a, b)
        if isinstance(a, (str, StrV)) or isinstance(b, (str, StrV)):
            from . import models
            return models.str_binop(self, op, a, b)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return PYOPS[op](a, b)
        raise Unsupported(f'operator {op} on {type(a).__name__}, {type(b).__name__}')

    def set_op(self, op, a, b):
        if a.items is not None and b.items is not None and all(isinstance(x, int) for x in a.items + b.items):
            f = {'BitAnd': set.__and__, 'BitOr': set.__or__, 'Sub': set.__sub__}[op]
            return SetObj(items=sorted(f(set(a.items), set(b.items))))
        for s in (a, b):
            if s.member is None:
                self.set_symbolic(s)
        m = self.fresh('set', z3.ArraySort(z3.IntSort(), z3.BoolSort()))
        x = z3.Int('x!so')
        f = {'BitAnd': z3.And(a.member[x], b.member[x]), 'BitOr': z3.Or(a.member[x], b.member[x]),
             'Sub': z3.And(a.member[x], z3.Not(b.member[x]))}[op]
        self.assume(z3.ForAll([x], m[x] == f, patterns=[m[x], a.member[x], b.member[x]]))
        return SetObj(member=m)

    def repeat(self, s, n):
        kind = 'list' if isinstance(s, LObj) or (isinstance(s, SSeq) and s.kind == 'list') else 'tuple'
        v = self.as_seq(s)
        if is_z3(n) and z3.is_int_value(z3.simplify(n)):
            n = z3.simplify(n).as_long()
        if isinstance(n, int) and isinstance(v, tuple) and n * len(v) <= 200:
            r = v * n
            return LObj(list(r)) if kind == 'list' else r
        n = to_int(n)
        m = n if self.provable(n >= 0) else z3.If(n > 0, n, z3.IntVal(0))
        if isinstance(v, tuple) and len(v) == 1:
            t = typeof(v[0])
            arrs = [z3.K(z3.IntSort(), l) for l in pack(t, v[0])]
            r = SSeq(t, m, arrs, kind)
            return LObj(r) if kind == 'list' else r
        if isinstance(v, tuple) and len(v) == 0:
            return LObj([]) if kind == 'list' else ()
        # general: repetition of a sequence, described by a relation
        sv = as_sseq(v)
        nl = to_int(sv.n)
        t = z3.Int('t!rp')
        L = self.fresh('replen', z3.IntSort())
        self.assume(L == nl * m)
        arrs = []
        for x in sv.arrs:
            N = self.fresh('rep', x.sort())
            self.assume(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < L), z3.Select(N, t) == z3.Select(x, t % nl)),
                                  patterns=[z3.Select(N, t)]))
            self.rels.append(('rep', N, x, nl, m, L))
            arrs.append(N)
        r = SSeq(sv.et, L, arrs, kind)
        return LObj(r) if kind == 'list' else r

    def arith(self, op, a, b):
        conc = lambda v: isinstance(v, int)
        if op == 'Div' and self.opts.get('floats'):
            a, b = to_real(a), to_real(b)
            if self.branch(b == 0):
                raise PyRaise('ZeroDivisionError', line=self.line)
            return a / b
        if conc(a) and conc(b):
            if op in ('FloorDiv', 'Mod', 'Div') and b == 0:
                raise PyRaise('ZeroDivisionError', line=self.line)
            if op == 'Pow' and b < 0:
                raise Unsupported('negative power of an integer')
            return PYOPS[op](a, b)
        if is_boolv(a):
            a = to_int(a)
        if is_boolv(b):
            b = to_int(b)
        if is_real(a) != is_real(b) and op not in ('Pow',):
            a, b = to_real(a), to_real(b)
        if op == 'Add':
            return a + b
        if op == 'Sub':
            return a - b
        if op == 'Mult':
            return a * b
        if op in ('FloorDiv', 'Mod'):
            if is_real(a):
                h = self.opts.get('real_divmod')
                if h:
                    return h(self, op, a, b)
                # divmod of ring elements: a = b*q + r with r = 0 for b = 1, -1; nothing else is known about q
                if self.branch(b == 0):
                    raise PyRaise('ZeroDivisionError', line=self.line)
                q = RING_QUO(a, b)
                self.assume(z3.Implies(z3.Or(b == 1, b == -1), a == b * q))
                return q if op == 'FloorDiv' else a - b * q
            a, b = to_int(a), to_int(b)
            if z3.is_int_value(b):
                bv = b.as_long()
                if bv == 0:
                    raise PyRaise('ZeroDivisionError', line=self.line)
                if bv > 0:
                    return a / b if op == 'FloorDiv' else a % b
            else:
                self.check(b != 0, f'division by nonzero (line {self.line})', 'safe')
                if self.provable(b > 0):
                    if op == 'Mod' and self.opts.get('mod'):
                        return self.opts['mod'](self, a, b)
                    return a / b if op == 'FloorDiv' else a % b
            q = z3.If(b > 0, a / b, (-a) / (-b))
            return q if op == 'FloorDiv' else a - b * q
        if op == 'Pow':
            h = self.opts.get('pow')
            if is_z3(a) and z3.eq(a, theory_X()):
                from .theory import PW
                return PW(to_int(b))
            if conc(b) and 0 <= b <= 6:
                if conc(a):
                    return a ** b
                r = a if b else 1
                for _ in range(b - 1):
                    r = r * a
                return r
            if conc(a) and a == 1:
                return 1
            if h:
                return h(self, a, b)
        if conc(a) and (op, a) in (('LShift', 1), ('Pow', 2)):
            self.check(to_int(b) >= 0, f'nonnegative shift (line {self.line})', 'safe')
            return Bits.power(to_int(b))
        if op in ('BitXor', 'BitAnd', 'BitOr', 'LShift', 'RShift', 'Div', 'Pow'):
            raise Unsupported(f'operator {op} on symbolic numbers')
        raise Unsupported(f'operator {op}')

    def obj_binop(self, op, a, b):
        name = DUNDER[op]
        if isinstance(a, Obj):
            m = a.cls.find(self.repo, name)
            if m is not None:
                r = self.call_method(a, name, [b])
                if r is not NOTIMPL:
                    return r
            elif isinstance(b, Obj) is False and not isinstance(b, Model):
                pass
        if isinstance(b, Obj):
            rn = '__r' + name[2:]
            m = b.cls.find(self.repo, rn)
            if m is not None:
                r = self.call_method(b, rn, [a])
                if r is not NOTIMPL:
                    return r
        raise PyRaise('TypeError', line=self.line)

    def compare(self, op, a, b):
        if op in ('Is', 'IsNot'):
            r = self.identical(a, b)
            return r if op == 'Is' else (not r)
        if op in ('In', 'NotIn'):
            r = self.contains(b, a)
            return r if op == 'In' else ((not r) if isinstance(r, bool) else neg(r))
        if op in ('Eq', 'NotEq'):
            r = self.equal(a, b)
            return r if op == 'Eq' else (not r) if isinstance(r, bool) else r.negation() if hasattr(r, 'negation') else neg(r)
        if isinstance(a, Model):
            return a.compare(self, op, b, False)
        if isinstance(b, Model):
            return b.compare(self, op, a, True)
        num = lambda v: is_int(v) or is_real(v) or is_boolv(v)
        if num(a) and num(b):
            if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
                return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
            if is_boolv(a):
                a = to_int(a)
            if is_boolv(b):
                b = to_int(b)
            if is_real(a) or is_real(b):
                if not self.opts.get('ordered_reals', True):
                    raise Unsupported('order on abstract ring elements')
                a, b = to_real(a), to_real(b)
            return {'Lt': lambda: a < b, 'LtE': lambda: a <= b, 'Gt': lambda: a > b, 'GtE': lambda: a >= b}[op]()
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
        if isinstance(a, SetObj) and isinstance(b, SetObj) and op in ('LtE', 'GtE'):
            if op == 'GtE':
                a, b = b, a
            for s in (a, b):
                if s.member is None:
                    self.set_symbolic(s)
            x = z3.Int('x!sub')
            return z3.ForAll([x], z3.Implies(a.member[x], b.member[x]), patterns=[a.member[x], b.member[x]])
        raise Unsupported(f'comparison {op} of {type(a).__name__} and {type(b).__name__}')

    def identical(self, a, b):
        if a is None or b is None or isinstance(a, (bool, NotImpl)) or isinstance(b, (bool, NotImpl)):
            if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
                raise Unsupported('identity of symbolic booleans')
            return a is b
        if isinstance(a, ClassInfo) or isinstance(b, ClassInfo):
            return a is b
        if isinstance(a, (LObj, Obj)) and isinstance(b, (LObj, Obj)):
            if a is b:
                return True
        raise Unsupported('identity comparison')

    def equal(self, a, b):
        if isinstance(a, Model) and not isinstance(a, Fn):
            return a.compare(self, 'Eq', b, False)
        if isinstance(b, Model) and not isinstance(b, Fn):
            return b.compare(self, 'Eq', a, True)
        num = lambda v: is_int(v) or is_real(v) or is_boolv(v)
        if num(a) and num(b):
            if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
                return a == b
            if is_boolv(a) and is_boolv(b):
                return to_z3(a) == to_z3(b)
            if is_boolv(a):
                a = to_int(a)
            if is_boolv(b):
                b = to_int(b)
            if is_real(a) or is_real(b):
                return to_real(a) == to_real(b)
            return to_int(a) == to_int(b)
        if is_z3(a) and is_z3(b) and a.sort() == b.sort():
            return a == b
        if a is None or b is None:
            return a is b
        if isinstance(a, (str, StrV)) or isinstance(b, (str, StrV)):
            if isinstance(a, str) and isinstance(b, str):
                return a == b
            from . import models
            return models.str_equal(self, a, b)
        sq = lambda v: isinstance(v, (tuple, SSeq, LObj))
        if sq(a) and sq(b):
            ka = 'list' if isinstance(a, LObj) or (isinstance(a, SSeq) and a.kind == 'list') else 'tuple'
            kb = 'list' if isinstance(b, LObj) or (isinstance(b, SSeq) and b.kind == 'list') else 'tuple'
            if ka != kb:
                return False
            return self.seq_equal(self.as_seq(a), self.as_seq(b))
        if isinstance(a, Obj) and isinstance(b, Obj):
            m = a.cls.find(self.repo, '__eq__')
            if m is not None:
                r = self.call_method(a, '__eq__', [b])
                if r is not NOTIMPL:
                    return r
            if a.cls is not b.cls:
                return False
            if a.cls.dataclass and a.cls.dataclass['eq']:
                r = True
                for f, _ in a.cls.all_fields(self.repo):
                    r = conj(r, self.truth(self.equal(a.fields[f], b.fields[f])))
                return r
            return a is b
        if isinstance(a, Obj) or isinstance(b, Obj):
            o, x = (a, b) if isinstance(a, Obj) else (b, a)
            m = o.cls.find(self.repo, '__eq__')
            if m is not None:
                r = self.call_method(o, '__eq__', [x])
                return False if r is NOTIMPL else r
            return False
        if isinstance(a, ClassInfo) or isinstance(b, ClassInfo):
            return a is b
        if (sq(a) and num(b)) or (sq(b) and num(a)):
            return False
        if isinstance(a, SetObj) and isinstance(b, SetObj):
            for s in (a, b):
                if s.member is None:
                    self.set_symbolic(s)
            x = z3.Int('x!eq')
            return z3.ForAll([x], a.member[x] == b.member[x], patterns=[a.member[x], b.member[x]])
        raise Unsupported(f'equality of {type(a).__name__} and {type(b).__name__}')

    def seq_equal(self, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            r = True
            for x, y in zip(a, b):
                r = conj(r, self.truth(self.equal(x, y)))
            return r
        if isinstance(a, tuple):
            a, b = b, a
        if isinstance(b, tuple):
            r = to_int(a.n) == len(b)
            for i, y in enumerate(b):
                r = conj(r, self.truth(self.equal(a.get(i), y)))
            return r
        if a.et is None or b.et is None:
            return conj(to_int(a.n) == to_int(b.n), to_int(a.n) == 0)
        et = join(a.et, b.et)
        a, b = self.coerce_seq(a, et), self.coerce_seq(b, et)
        t = z3.Int('t!eq')
        if et[0] in ('int', 'real', 'bool', 'sort', 'tup', 'obj'):
            if et[0] == 'obj':
                pass
            body = z3.And(*[z3.Select(x, t) == z3.Select(y, t) for x, y in zip(a.arrs, b.arrs)])
            return z3.And(to_int(a.n) == to_int(b.n),
                          z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < to_int(a.n)), body),
                                    patterns=[z3.Select(a.arrs[0], t), z3.Select(b.arrs[0], t)]))
        if et[0] == 'seq' and et[1] is not None and et[1][0] in ('int', 'real'):
            u = z3.Int('u!eq')
            A, B = a, b
            body = z3.And(z3.Select(a.arrs[0], t) == z3.Select(b.arrs[0], t),
                          z3.ForAll([u], z3.Implies(z3.And(u >= 0, u < z3.Select(a.arrs[0], t)),
                                                    z3.Select(z3.Select(a.arrs[1], t), u) ==
                                                    z3.Select(z3.Select(b.arrs[1], t), u))))
            return z3.And(to_int(a.n) == to_int(b.n),
                          z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < to_int(a.n)), body)))
        raise Unsupported('equality of nested sequences')

    def contains(self, c, x):
        if isinstance(c, Model):
            return c.contains(self, x)
        if isinstance(c, DictObj):
            return self.key(x) in c.d
        if isinstance(c, SetObj):
            if c.member is not None:
                return c.member[to_int(x)]
            c = tuple(c.items)
        if isinstance(c, LObj):
            c = self.as_seq(c)
        if isinstance(c, tuple):
            r = False
            for y in c:
                e = self.truth(self.equal(x, y))
                r = disj(r, e)
                if r is True:
                    return True
            return r
        if isinstance(c, SSeq):
            t = z3.Int('t!in')
            w = self.fresh('w!in', z3.IntSort())
            e = self.equal(c.get(t), x)
            return z3.Exists([t], z3.And(t >= 0, t < to_int(c.n), e))
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, Iter):
            if c.prov is not None and isinstance(c.prov, tuple) and c.prov[0] == 'range':
                lo, hi, st = c.prov[1:]
                if st == 1:
                    return z3.And(to_int(x) >= to_int(lo), to_int(x) < to_int(hi))
        raise Unsupported(f'membership in {type(c).__name__}')

    # ------------------------------------------------------------ calls
    def ex_Call(self, e, frame):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            f = frame
            while f.func is None or f.func.cls is None:
                f = f.parent
            first = f.func.node.args.args[0].arg
            return SuperV(f.func.cls, f.vars[first])
        fv = self.eval(e.func, frame)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, frame)
                l = self.concrete_list(v)
                if l is not None:
                    args.extend(l)
                else:
                    args.append(Star(self.as_seq(v)))
            else:
                args.append(self.eval(a, frame))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, frame)
                if not isinstance(d, DictObj):
                    raise Unsupported('** of a symbolic map')
                kw.update(d.d)
            else:
                kw[k.arg] = self.eval(k.value, frame)
        self.line = e.lineno
        return self.call(fv, args, kw, site=f'{frame.site}/{e.lineno}' if False else frame.site)

    def call(self, fv, args, kw, site=''):
        if isinstance(fv, FuncVal):
            return self.call_func(fv, args, kw, site)
        if isinstance(fv, ClassInfo):
            return self.instantiate(fv, args, kw, site)
        if isinstance(fv, Model):
            return fv.call(self, args, kw)
        if isinstance(fv, Obj):
            return self.call(self.class_attr(fv.cls, '__call__', fv), args, kw, site)
        raise Unsupported(f'call of {type(fv).__name__}')

    def instantiate(self, cls, args, kw, site=''):
        h = self.opts.get('instantiate', {}).get(cls.name)
        if h is not None:
            return h(self, cls, args, kw)
        init = cls.find(self.repo, '__init__')
        # __init__ written by the dataclass decorator takes precedence over an inherited one
        if isinstance(init, FuncInfo) and cls.dataclass and cls.dataclass['init'] and init.cls is not cls:
            init = None
        if isinstance(init, FuncInfo) and is_abstract(init):
            init = None
        o = Obj(cls, {})
        if isinstance(init, FuncInfo):
            con = self.contract_for(init)
            if con is not None:
                return self.apply_contract(con, FuncVal(init, bound=o), [o] + args, kw)
            self.call_func(FuncVal(init, bound=o), args, kw, site)
            return o
        fields = cls.all_fields(self.repo)
        if not fields and not args and not kw:
            return o
        if not cls.dataclass:
            raise Unsupported(f'construction of {cls.name}')
        names = [f for f, _ in fields]
        if any(isinstance(a, Star) for a in args):
            raise Unsupported('starred construction')
        if len(args) > len(names):
            raise PyRaise('TypeError', line=self.line)
        for f, v in zip(names, args):
            o.fields[f] = v
        for k, v in kw.items():
            if k not in names or k in o.fields:
                raise PyRaise('TypeError', line=self.line)
            o.fields[k] = v
        for f, d in fields:
            if f not in o.fields:
                if d is None:
                    raise PyRaise('TypeError', line=self.line)
                if isinstance(d, ast.Call):
                    fac = [k.value for k in d.keywords if k.arg == 'default_factory']
                    if not fac:
                        raise Unsupported('field default')
                    o.fields[f] = self.call(self.eval(fac[0], Frame(None, cls.module)), [], {})
                else:
                    o.fields[f] = self.eval(d, Frame(None, cls.module))
        post = cls.find(self.repo, '__post_init__')
        if isinstance(post, FuncInfo):
            self.call_func(FuncVal(post, bound=o), [], {}, site)
        return o

    def contract_for(self, info):
        if self.current is not None and info.qual in getattr(self.current, 'inline', ()):
            return None
        c = self.registry.get(info.qual)
        return c

    def call_func(self, fv, args, kw, site=''):
        info = fv.info
        con = self.contract_for(info) if fv.closure is None else None
        full = ([fv.bound] if fv.bound is not None else []) + list(args)
        if con is not None and not con.body_only:
            return self.apply_contract(con, fv, full, kw)
        h = self.opts.get('call_hook')
        if h is not None:
            r = h(self, fv, full, kw)
            if r is not None:
                return r[0]
        return self.exec_func(fv, full, kw, site)

    def exec_func(self, fv, full, kw, site=''):
        info = fv.info
        if info.is_gen and (self.depth or self.current is None or self.current.qual != info.qual):
            raise Unsupported(f'generator function {info.qual}')
        if self.depth > self.opts['depth']:
            raise Unsupported('call depth')
        self.inlined.add(info.qual)
        fr = Frame(info, info.module, fv.closure, site=f'{site}>{info.name}')
        self.bind_args(info, fr, full, kw)
        if isinstance(info.node, ast.Lambda):
            return self.eval(info.node.body, fr)
        if info.is_gen:             # the function under verification: what it yields, in order
            fr.vars[OUT] = LObj([])
        self.depth += 1
        self.frames.append(fr)
        line = self.line
        nl = len(self.loopstack)
        try:
            self.exec_block(info.node.body, fr)
            return fr.vars.get(OUT)
        except ReturnEx as r:
            return fr.vars[OUT] if info.is_gen else r.v
        finally:
            self.depth -= 1
            self.frames.pop()
            self.line = line

    def bind_args(self, info, fr, full, kw):
        a = info.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        rest = []
        i = 0
        full = list(full)
        for p in pos:
            if i < len(full) and not isinstance(full[i], Star):
                if p in kw:
                    raise PyRaise('TypeError', line=self.line)
                fr.vars[p] = full[i]
                i += 1
            else:
                break
        rest = full[i:]
        nbound = i
        if rest:
            if a.vararg is None:
                if any(isinstance(x, Star) for x in rest):
                    raise Unsupported('starred call of unknown length')
                raise PyRaise('TypeError', line=self.line)
            acc = ()
            for x in rest:
                acc = self.concat(acc, x.v if isinstance(x, Star) else (x,))
            fr.vars[a.vararg.arg] = acc if isinstance(acc, tuple) else acc.with_kind('tuple')
        elif a.vararg is not None:
            fr.vars[a.vararg.arg] = ()
        defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults)) if a.defaults else {}
        for p in pos[nbound:]:
            if p in fr.vars:
                continue
            if p in kw:
                fr.vars[p] = kw.pop(p)
            elif p in defaults:
                fr.vars[p] = self.eval(defaults[p], Frame(None, info.module, fr.parent))
            else:
                raise PyRaise('TypeError', line=self.line)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kw:
                fr.vars[x.arg] = kw.pop(x.arg)
            elif d is not None:
                fr.vars[x.arg] = self.eval(d, Frame(None, info.module, fr.parent))
            else:
                raise PyRaise('TypeError', line=self.line)
        if kw:
            if a.kwarg is None:
                raise PyRaise('TypeError', line=self.line)
            fr.vars[a.kwarg.arg] = DictObj(kw)

    def bound_values(self, info, full, kw):
        fr = Frame(info, info.module)
        self.bind_args(info, fr, full, kw)
        a = info.node.args
        names = [x.arg for x in a.posonlyargs + a.args] + ([a.vararg.arg] if a.vararg else []) + \
                [x.arg for x in a.kwonlyargs]
        return [fr.vars[n] for n in names]

    def apply_contract(self, con, fv, full, kw):
        vals = self.bound_values(fv.info, full, kw)
        self.used_contracts.add(con.qual)
        return con.apply(self, vals)


class NestedSeq:
    """A comprehension over a product of symbolic ranges; only reductions understand it."""
    def __init__(self, ex, it, target, fr, inner):
        self.ex, self.it, self.target, self.fr, self.inner = ex, it, target, fr, inner


_FILTERED = object()

INPLACE = {'Add': '__iadd__', 'Sub': '__isub__', 'Mult': '__imul__', 'Div': '__itruediv__', 'FloorDiv': '__ifloordiv__'}
DUNDER = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Div': '__truediv__', 'FloorDiv': '__floordiv__',
          'Mod': '__mod__', 'Pow': '__pow__', 'MatMult': '__matmul__', 'BitAnd': '__and__', 'BitOr': '__or__',
          'BitXor': '__xor__', 'LShift': '__lshift__', 'RShift': '__rshift__'}
import operator as _op
PYOPS = {'Add': _op.add, 'Sub': _op.sub, 'Mult': _op.mul, 'Div': _op.truediv, 'FloorDiv': _op.floordiv, 'Mod': _op.mod,
         'Pow': _op.pow, 'BitAnd': _op.and_, 'BitOr': _op.or_, 'BitXor': _op.xor, 'LShift': _op.lshift,
         'RShift': _op.rshift}


def is_abstract(info):
    for d in info.node.decorator_list:
        if (isinstance(d, ast.Attribute) and d.attr == 'abstractmethod') or \
                (isinstance(d, ast.Name) and d.id == 'abstractmethod'):
            return True
    return False


def _unreal():
    raise Unsupported('a floating-point number that is not a real number')


def dedup(items):
    out = []
    for x in items:
        if isinstance(x, int) and x in out:
            continue
        out.append(x)
    return out


_qcache = {}


def has_quant(f):
    if isinstance(f, bool):
        return False
    k = f.get_id()
    r = _qcache.get(k)
    if r is not None and r[0] is f:
        return r[1]
    res = False
    stack, seen = [f], set()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            res = True
            break
        stack.extend(x.children())
    _qcache[k] = (f, res)
    return res


def subterms(f):
    stack, seen, out = [f], set(), []
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        out.append(x)
        if z3.is_quantifier(x):
            continue
        stack.extend(x.children())
    return out


def has_var(f, v):
    return any(z3.eq(x, v) for x in subterms(f))


def neg(f):
    if isinstance(f, bool):
        return not f
    if z3.is_not(f):
        return f.arg(0)
    if z3.is_quantifier(f) and not f.is_lambda():
        vs = [z3.Const(f.var_name(i) + '!n', f.var_sort(i)) for i in range(f.num_vars())]
        body = z3.substitute_vars(f.body(), *reversed(vs))
        pats = [f.pattern(i) for i in range(f.num_patterns())]
        if f.is_forall():
            return z3.Exists(vs, neg(body))
        # negated exists: keep triggers findable
        trig = []
        for s in subterms(body):
            if z3.is_select(s) and len(vs) == 1 and z3.eq(s.arg(1), vs[0]):
                trig.append(s)
        return z3.ForAll(vs, neg(body), patterns=trig[:3]) if trig else z3.ForAll(vs, neg(body))
    return z3.Not(f)


def conj(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False or b is False:
        return False
    return z3.And(a, b)


def disj(a, b):
    if a is False:
        return b
    if b is False:
        return a
    if a is True or b is True:
        return True
    return z3.Or(a, b)


def ite(c, a, b):
    t = join(typeof(a), typeof(b))
    la, lb = pack(t, a), pack(t, b)
    return unpack(t, [z3.If(c, x, y) for x, y in zip(la, lb)])


def snapshot(v):
    """Value of a variable frozen at this moment (lists by value)."""
    if isinstance(v, LObj):
        s = v.val
        return SSeq(s.et, s.n, s.arrs, 'list', s.prov) if isinstance(s, SSeq) else LObjSnap(list(s))
    if isinstance(v, Obj):
        s = ObjSnap()
        s.cls, s.fields = v.cls, {k: snapshot(x) if isinstance(x, LObj) else x for k, x in v.fields.items()}
        return s
    if isinstance(v, Model) and hasattr(v, 'snapshot'):
        return v.snapshot()
    if isinstance(v, SetObj):
        return SetObj(v.member, None if v.items is None else list(v.items))
    return v


def snap_deep(o):
    if isinstance(o, LObj):
        n = LObj.__new__(LObj)
        n.val = o.val if isinstance(o.val, SSeq) else list(o.val)
        n.derived, n.birth = o.derived, o.birth
        return n
    if isinstance(o, Obj):
        n = Obj.__new__(Obj)
        n.cls, n.fields, n.birth = o.cls, dict(o.fields), o.birth
        return n
    return o


class LObjSnap(tuple):
    pass


class ObjSnap:
    pass


def assigned_names(node, level=0, aug=True):
    """Names the loop assigns in its own frame (targets of the loop and of its body)."""
    out = set()

    def tgt(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                tgt(x)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            if isinstance(n, ast.FunctionDef):
                out.add(n.name)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    out.add(m.target.id)
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.AnnAssign, ast.For)) or isinstance(n, ast.AugAssign) and aug:
            tgt(n.target)
        elif isinstance(n, ast.NamedExpr):
            out.add(n.target.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        for c in ast.iter_child_nodes(n):
            walk(c)
    if isinstance(node, ast.While):
        walk(node.test)
    else:
        if level and isinstance(node.target, (ast.Tuple, ast.List)):
            for x in node.target.elts[level:]:       # inner loop of a product: the outer targets are fixed
                tgt(x)
        else:
            tgt(node.target)
    for b in node.body:
        walk(b)
    return out


RING_QUO = z3.Function('ring_quotient', z3.RealSort(), z3.RealSort(), z3.RealSort())


def theory_X():
    from .theory import X
    return X


OUT = 'what is yielded'
DEFERRED = {'EV', 'SUM', 'SUMI', 'rpow', 'PRP', 'PRN', 'MIXP', 'MIXN', 'WORD', 'bpow', 'bmul', 'LOWP', 'LOWN'}


def deferred(f):
    """A formula about sums: settled after the candidates that only need linear arithmetic and arrays."""
    return is_z3(f) and any((z3.is_app(s) and s.decl().name() in DEFERRED) or (z3.is_quantifier(s) and low_inside(s)) for s in subterms(f))


def low_inside(q):
    return any(z3.is_app(s) and s.decl().name() in ('LOWP', 'LOWN', 'DOT') for s in subterms(q.body()))
