"""Discharging verification conditions, inferring loop invariants (Houdini), verifying functions."""
from __future__ import annotations
import os, time, subprocess, tempfile, itertools, sys, traceback
import z3
from .values import *
from . import interp as I
from . import words
from .interp import Ex, Obligation, has_quant, subterms, neg
from .ring import prove_ring, nonlinear, limit, Fuel
from .pysrc import Repo, FuncInfo, ClassInfo


def open_sums(goal, facts):
    todo, seen = [goal, *facts], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x) and x.num_args():
            if x.decl().name().startswith(('sum!', 'open!')):
                return True
            todo.extend(x.children())
    return False


class Prover:
    def __init__(self, theories, timeout=8000):
        self.theories = list(theories)
        self.timeout = timeout
        self.cache = {}
        self.keep = []
        self.time = 0.0
        self.n = 0
        self.sk = itertools.count()
        self.by = {}
        self.quick = False      # invariant candidates: equations are left to the ring back end
        self.simple_qf = self.qf_only = False
        self.ring = True        # try the ring normaliser on equations
        self.halves = False     # prove an equivalence as two implications at once
        self.linear = False     # leave out facts with products unless the goal has some
        self.flatten = False    # pull nested universal quantifiers to the top
        self.mbqi = True        # look for models of quantified facts when checking that they are consistent
        self.ground = None      # a weaker, easier form of the query

    def prep(self, facts, goal):
        """Skolemise the goal and top-level existential facts."""
        facts = list(facts)
        while True:
            if z3.is_quantifier(goal) and goal.is_forall():
                vs = [z3.Const(f'sk!{next(self.sk)}', goal.var_sort(i)) for i in range(goal.num_vars())]
                goal = z3.substitute_vars(goal.body(), *reversed(vs))
            elif z3.is_implies(goal):
                facts.append(goal.arg(0))
                goal = goal.arg(1)
            else:
                break
        out = []
        stack = facts[::-1]
        while stack:
            f = stack.pop()
            if z3.is_and(f):
                stack.extend(f.children()[::-1])
            elif z3.is_quantifier(f) and f.is_exists():
                vs = [z3.Const(f'sk!{next(self.sk)}', f.var_sort(i)) for i in range(f.num_vars())]
                stack.append(z3.substitute_vars(f.body(), *reversed(vs)))
            elif z3.is_not(f) and z3.is_quantifier(f.arg(0)) and f.arg(0).is_forall():
                stack.append(neg(f.arg(0)))
            elif self.flatten and z3.is_quantifier(f) and f.is_forall() and nested(f):
                out += flat(f)
            else:
                out.append(f)
        return out, goal

    def prove(self, ob, timeout=None, keep_model=False):
        key = (tuple(f.get_id() for f in ob.facts), ob.goal.get_id(), timeout or self.timeout)
        if key in self.cache:
            return self.cache[key]
        t0 = time.time()
        self.qf_only = self.quick and self.simple_qf and simple(ob.goal)
        r = self._prove_split(ob.facts, ob.goal, ob.rels, timeout or self.timeout)
        self.time += time.time() - t0
        self.cache[key] = r
        self.keep.append((ob.facts, ob.goal))
        return r

    def _prove_split(self, facts, goal, rels, timeout):
        facts, goal = self.prep(facts, goal)
        if z3.is_eq(goal) and z3.is_bool(goal.arg(0)) and has_quant(goal):
            r = self._prove1(facts, goal, rels, timeout) if not self.halves else ('unknown', None)
            if r[0] in ('unsat', 'sat'):
                return r
            a, b = goal.children()
            goal = z3.And(z3.Implies(a, b), z3.Implies(b, a))
        if z3.is_and(goal):
            for g in goal.children():
                r = self._prove_split(facts, g, rels, timeout)
                if r[0] != 'unsat':
                    return r
                if self.halves:
                    facts = facts + [g]
            return ('unsat', None)
        if z3.is_true(z3.simplify(goal)) if not has_quant(goal) else False:
            return ('unsat', None)
        return self._prove1(facts, goal, rels, timeout)

    def _prove1(self, facts, goal, rels, timeout):
        self.n += 1
        if self.ring and z3.is_eq(goal) and z3.is_arith(goal.arg(0)) and (z3.is_real(goal.arg(0)) or nonlinear(goal)):
            if prove_ring(facts, goal, list(rels), Fuel(timeout)):
                self.by['ring'] = self.by.get('ring', 0) + 1
                return ('unsat', None)
            if self.quick and I.deferred(goal):
                return ('unknown (ring)', None)
        if words.relevant(goal, facts):
            if words.prove(list(facts), goal, list(rels), Fuel(timeout)):
                self.by['words'] = self.by.get('words', 0) + 1
                return ('unsat', None)
            if words.decides(goal):
                return ('unknown (words)', None)
        if self.qf_only:
            facts = [f for f in facts if not has_quant(f)]
        if self.linear and not nonlinear(goal):
            facts = [f for f in facts if has_quant(f) or not nonlinear(f)]
        inst = []
        for th in self.theories if not (self.qf_only) else ():
            inst += th.instances(facts + inst, goal, rels)
        res, model = 'unknown', None
        g = self.ground(facts + inst, goal) if self.ground is not None else None
        if g is not None:
            s = z3.SimpleSolver()
            limit(s, timeout)
            s.add(*g)
            if s.check() == z3.unsat:
                self.by['z3'] = self.by.get('z3', 0) + 1
                return ('unsat', None)
            if self.quick:
                return ('unknown (ground)', None)
        for cfg in ((0.15, None), (0.5, 'smt'), (1.0, None)):
            s = z3.Solver() if cfg[1] is None else z3.SimpleSolver()
            limit(s, max(200, int(timeout * cfg[0])))
            if cfg[0] == 1.0:
                s.set('random_seed', 7)
            for f in facts:
                s.add(f)
            for f in inst:
                s.add(f)
            s.add(z3.Not(goal))
            r = s.check()
            if r == z3.unsat:
                self.by['z3'] = self.by.get('z3', 0) + 1
                return ('unsat', None)
            if r == z3.sat:
                if open_sums(goal, facts):
                    return ('unknown (sums)', None)     # sums are function symbols here: a model need not be one
                return ('sat', s.model())
            res = f'unknown ({s.reason_unknown()})'
            try:
                model = s.model()
            except z3.Z3Exception:
                model = None
            if not ('timeout' in res or 'canceled' in res or 'resource' in res):
                break
        return (res, model)

    def satisfiable(self, facts, rels, timeout=4000):
        """False only if the facts are contradictory."""
        facts, _ = self.prep(facts, z3.BoolVal(True))
        s = z3.Solver() if self.mbqi else z3.SimpleSolver()
        limit(s, min(timeout, 1000))
        if not self.mbqi:
            s.set('mbqi', False)
        s.add(*[f for f in facts if not nonlinear(f)])
        return s.check() != z3.unsat


def nested(f):
    todo = [f.body()]
    while todo:
        g = todo.pop()
        if z3.is_quantifier(g):
            if g.is_forall():
                return True
        elif z3.is_and(g):
            todo += g.children()
        elif z3.is_implies(g):
            todo.append(g.arg(1))
    return False


def flat(f):
    """A universal fact as an equivalent list of facts without universal quantifiers in positive places."""
    out = []

    def go(f, vs, prem, pats):
        n = next(FLAT)
        own = [z3.Const(f'{f.var_name(i)}!fl{n}', f.var_sort(i)) for i in range(f.num_vars())]
        sub = lambda e: z3.substitute_vars(e, *reversed(own))
        vs = vs + own
        mine = [[sub(t) for t in f.pattern(i).children()] for i in range(f.num_patterns())]
        if not mine:
            pats = []
        elif all(occurs_all(vs, p) for p in mine) or not pats:
            pats = mine
        else:
            pats = [p + q for p in pats for q in mine]
        plain = []

        def walk(g, prem):
            if z3.is_and(g):
                for h in g.children():
                    walk(h, prem)
            elif z3.is_implies(g):
                walk(g.arg(1), prem + [g.arg(0)])
            elif z3.is_quantifier(g) and g.is_forall():
                go(g, vs, prem, pats)
            else:
                plain.append((prem, g))
        walk(sub(f.body()), prem)
        for prem, g in plain:
            b = z3.Implies(z3.And(*prem), g) if prem else g
            ps = [z3.MultiPattern(*p) if len(p) > 1 else p[0] for p in pats if occurs_all(vs, p)]
            out.append(z3.ForAll(vs, b, patterns=ps) if ps else z3.ForAll(vs, b))
    go(f, [], [], [])
    return out


def occurs_all(vs, terms):
    ids = {s.get_id() for t in terms for s in subterms(t)}
    return all(v.get_id() in ids for v in vs)


FLAT = itertools.count()


def simple(g):
    """Linear arithmetic over integer terms, or a length: nothing the quantified facts speak of."""
    return not any(z3.is_quantifier(s) or (z3.is_app(s) and s.num_args() and s.decl().kind() == z3.Z3_OP_UNINTERPRETED and not z3.is_int(s))
                   for s in subterms(g))


class Case:
    """One contract case of a function: parameter shapes, precondition, postcondition."""
    name = ''
    raises = {}          # exception name -> condition under which raising it is allowed (function of c, *args) or True
    terminates = False

    def params(self, c):
        raise NotImplementedError

    def pre(self, c, *args):
        return []

    def axioms(self, c, *args):
        """Instances of the defining equations of specification functions."""
        return []

    def result(self, c, *args):
        raise Unsupported('contract without a result description')

    def post(self, c, res, *args):
        return []

    def defines(self, c, res, *args):
        """Definitions of specification functions which the postcondition entails; assumed at call sites."""
        return []

    def match(self, c, args):
        return True

    def coerce(self, c, args):
        return args

    def effects(self, c, args):
        """Havoc what the call may modify; returns an old-state record given to post through c.old"""
        return None

    def must_raise(self, c, *args):
        """[(exception, condition)] known to raise exactly under the condition."""
        return []

    def measure(self, c, *args):
        return None

    def concretise(self, model, args):
        return None


class Contract:
    body_only = False
    inline = ()
    hints = None
    theories = None
    opts = None
    terminates = False
    prop = ''
    weight = 1

    def __init__(self, qual, cases, **kw):
        self.qual, self.cases = qual, cases if isinstance(cases, list) else [cases]
        self.__dict__.update(kw)

    def apply(self, ex, args):
        for case in self.cases:
            if case.match(ex, args):
                break
        else:
            raise Unsupported(f'no contract case of {self.qual} fits this call')
        args = case.coerce(ex, args)
        for nm, f in case.pre(ex, *args):
            ex.check(tobool(f), f'precondition of {self.qual}: {nm} (line {ex.line})', 'pre')
        if ex.current_case is not None and ex.current is self:
            m1 = case.measure(ex, *args)
            m0 = ex.entry_measure
            if m1 is not None and m0 is not None:
                ex.check(z3.And(to_int(m1) >= 0, to_int(m1) < to_int(m0)), 'recursive call decreases the measure', 'variant')
        for exc, cond in case.must_raise(ex, *args):
            if ex.branch(tobool(cond)):
                raise PyRaise(exc, line=ex.line)
        for exc, cond in case.raises.items():         # exceptions that are allowed, under a condition, but not promised
            maybe = ex.fresh('raises', z3.BoolSort())
            if ex.branch(maybe if cond is True else z3.And(maybe, tobool(cond(ex, *args)))):
                raise PyRaise(exc, line=ex.line)
        for f in case.axioms(ex, *args):
            ex.assume(f)
        old = case.effects(ex, args)
        res = case.result(ex, *args)
        saved = getattr(ex, 'old', None)
        ex.old = old
        for nm, f in case.post(ex, res, *args):
            if isinstance(f, tuple):
                f = z3.Implies(tobool(f[0]), tobool(f[1]))
            ex.assume(tobool(f))
        for f in case.defines(ex, res, *args):
            ex.assume(tobool(f))
        ex.old = saved
        return res


def tobool(f):
    return z3.BoolVal(f) if isinstance(f, bool) else f


class Result:
    def __init__(self, qual, case):
        self.qual, self.case = qual, case
        self.status = None
        self.obls = []        # (name, kind, status)
        self.failed = []
        self.note = ''
        self.time = 0.0
        self.paths = 0
        self.inlined = []
        self.used = []
        self.invs = {}
        self.ncalls = 0
        self.by = {}

    def to_json(self):
        return dict(function=self.qual, case=self.case, status=self.status, note=self.note, obligations=len(self.obls),
                    discharged=sum(1 for o in self.obls if o[2] == 'unsat'), failed=self.failed, time=round(self.time, 2),
                    paths=self.paths, inlined=sorted(self.inlined), contracts_used=sorted(self.used),
                    invariants=self.invs, solver_calls=self.ncalls)


def verify(repo, registry, con, case, theories, timeout=8000, inv_timeout=1500, budget=200, verbose=False):
    """Verify one contract case of one function against its current source."""
    res = Result(con.qual, case.name)
    t0 = time.time()
    fi = repo.get(con.qual)
    if isinstance(fi, tuple) and fi[0] == 'attr':
        # an alias such as __radd__ = __add__
        _, cls, expr = fi
        fi = cls.find(repo, expr.id) if isinstance(expr, I.ast.Name) else None
    if not isinstance(fi, FuncInfo):
        res.status, res.note = 'missing', 'the function is not in the source'
        return res
    prover = Prover(con.theories or theories, timeout)
    res.by = prover.by
    opts = dict(con.opts or {})
    opts.update(getattr(case, 'opts', None) or {})
    inv_timeout = int(inv_timeout * opts.get('patience', 1))
    prover.simple_qf = bool(opts.get('simple_qf'))
    prover.linear = bool(opts.get('linear'))
    prover.mbqi = opts.get('mbqi', True)
    prover.flatten = bool(opts.get('flatten'))
    prover.ring = opts.get('ring', True)
    prover.ground = opts.get('ground')
    prover.halves = opts.get('halves', True)
    ex = Ex(repo, registry, theories, opts)
    ex.current, ex.current_case = con, case
    final = []
    inv_obls = []
    covers = []

    def run(ex):
        args = case.params(ex)
        ex.args = args
        ex.entry_args = args
        for nm, f in case.pre(ex, *args):
            ex.assume(tobool(f))
        for f in case.axioms(ex, *args):
            ex.assume(f)
        ex.npre = len(ex.pc)
        if not covers:
            covers.append(prover.satisfiable(ex.pc, ex.rels))
        ex.entry_measure = case.measure(ex, *args)
        ex.old = case.old(ex, *args) if hasattr(case, 'old') else None
        try:
            if hasattr(case, 'run'):
                r = case.run(ex, fi, args)
            elif fi.name == '__init__' and fi.cls is not None:
                full, kw = case.call_args(ex, args) if hasattr(case, 'call_args') else (args, {})
                ex.exec_func(FuncValOf(fi), full, kw)
                r = args[0]
            else:
                full, kw = case.call_args(ex, args) if hasattr(case, 'call_args') else (args, {})
                r = ex.exec_func(FuncValOf(fi), full, kw)
            return ('ret', r)
        except PyRaise as e:
            return ('exc', e)

    def on_path(ex, out):
        if out is not None:
            kind, v = out
            if kind == 'ret':
                for exc, cond in case.must_raise(ex, *ex.args):
                    ex.emit(neg(tobool(cond)), f'{exc} is raised whenever the contract says so', 'post')
                for nm, f in case.post(ex, v, *ex.args):
                    if isinstance(f, tuple):        # (hypotheses, goal)
                        ex.emit(z3.Implies(tobool(f[0]), tobool(f[1])), f'postcondition: {nm}', 'post')
                    else:
                        ex.emit(tobool(f), f'postcondition: {nm}', 'post')
                        if nm.startswith('lemma: '):        # proved first, used by the rest
                            ex.assume(tobool(f))
                if len(covers) < 6:
                    covers.append(('path', prover.satisfiable(ex.pc, ex.rels, 1500)))
            else:
                mr = [c for e_, c in case.must_raise(ex, *ex.args) if e_ == v.name]
                al = case.raises.get(v.name)
                if mr:
                    g = tobool(mr[0])
                    for c in mr[1:]:
                        g = z3.Or(g, tobool(c))
                    if al is not None:
                        g = z3.BoolVal(True) if al is True else z3.Or(g, tobool(al(ex, *ex.args)))
                elif al is None:
                    g = z3.BoolVal(False)
                elif al is True:
                    g = z3.BoolVal(True)
                else:
                    g = tobool(al(ex, *ex.args))
                ex.emit(g, f'no {v.name} is raised at line {v.line}', 'no-raise')
        for o in ex.obls:
            (inv_obls if o.kind in ('inv-init', 'inv-pres') else final).append(o)
        ex.obls = []

    rounds = 0
    settled = set()
    try:
        def rerun():
            nonlocal rounds
            rounds += 1
            for _ in range(12):
                before = signature()
                final.clear()
                inv_obls.clear()
                covers.clear()
                res.paths = ex.explore(run, on_path)
                if signature() == before:       # what the loops modify was known on every path
                    return
            raise Unsupported('the effects of the loops do not settle')

        def signature():
            return {k: (sorted((str(b), str(f)) for b, f in i.objs.items()), sorted(map(str, i.names)),
                        sorted((str(a), str(t)) for a, t in i.types.items()),
                        sorted((str(a), len(m)) for a, m in i.mined.items())) for k, i in ex.loops.items()}

        def houdini(select, own=False, aside=None):
            """Drop candidates among the selected ones until the rest is inductive."""
            while True:
                dropped = 0
                n0 = len(inv_obls)
                for o in list(inv_obls):
                    key, nm = o.extra
                    info = ex.loops[key]
                    if nm in info.dropped or (key, nm) in settled or not select(info, nm):
                        continue
                    ob = o
                    if own:
                        fs = [f for f in o.facts if f.get_id() not in ex.cand or ex.cand[f.get_id()] in settled
                              or ex.cand[f.get_id()] == o.extra]
                        ob = Obligation(o.name, fs, o.goal, o.kind, o.line, o.rels, o.extra)
                    r = prover.prove(ob, inv_timeout)
                    if r[0] != 'unsat':
                        if verbose > 1:
                            print('   drop', nm, '@', o.name[:60], r[0])
                        info.dropped.add(nm)
                        if aside is not None:
                            aside.append((key, nm))
                        dropped += 1
                    if time.time() - t0 > budget:
                        raise TimeoutError()
                if verbose:
                    print(f'   round {rounds}: {n0} invariant VCs, {dropped} candidates dropped, {len(final)} VCs, '
                          f'{res.paths} paths, {time.time()-t0:.1f}s')
                if not dropped:
                    settled.update(o.extra for o in inv_obls if select(ex.loops[o.extra[0]], o.extra[1]))
                    return
                rerun()

        def finals():
            res.obls = [(o.name, o.kind, 'unsat') for o in inv_obls]
            res.failed = []
            for o in final:
                r = prover.prove(o, timeout)
                if r[0] != 'unsat' and time.time() - t0 < budget:
                    if cvc5_check(o, prover):
                        r = ('unsat', None)
                        prover.by['cvc5'] = prover.by.get('cvc5', 0) + 1
                res.obls.append((o.name, o.kind, r[0] if isinstance(r[0], str) else str(r[0])))
                if r[0] != 'unsat':
                    inp = None
                    if r[1] is not None:
                        try:
                            inp = case.concretise(r[1], ex.args)
                        except Exception:
                            inp = None
                    res.failed.append(dict(obligation=o.name, kind=o.kind, line=o.line, solver=str(r[0]), input=inp,
                                           goal=str(o.goal)[:2000], model=(str(r[1])[:3000] if r[1] is not None else '')))
                    if verbose:
                        print('   FAILED', o.name, r[0])
                if time.time() - t0 > budget:
                    raise TimeoutError()

        ex.stage = 1
        rerun()
        prover.quick = True
        houdini(lambda i, nm: True)
        aside = []
        if any(i.later - i.dropped for i in ex.loops.values()):
            # candidates about sums: innermost loops first, each one alone; then, if need be, all together
            ex.stage = 2
            rerun()
            if opts.get('mutual'):
                houdini(lambda i, nm: True)
            nests = [] if opts.get('mutual') else sorted({i.nest for i in ex.loops.values() if i.later}, reverse=True)
            for d in nests:
                houdini(lambda i, nm: i.nest == d or nm not in i.later, own=True, aside=aside)
        prover.quick = False
        finals()
        if res.failed and aside:
            for key, nm in aside:
                if key in ex.loops:
                    ex.loops[key].dropped.discard(nm)
            rerun()
            prover.quick = True
            houdini(lambda i, nm: True)
            prover.quick = False
            finals()
        res.invs = {f'{k[0][1]}#{k[0][2]}.{k[0][3]} {i}': [n for n in names] for i, (k, names) in
                    enumerate(active_invs(inv_obls).items())}
        if covers and covers[0] is False:
            res.status, res.note = 'vacuous', 'the precondition is unsatisfiable'
        elif not any(c is True or (isinstance(c, tuple) and c[1]) for c in covers[1:]) and \
                not any(o.kind == 'no-raise' for o in final):
            res.status, res.note = 'vacuous', 'no path returns'
        elif not res.obls:
            res.status, res.note = 'vacuous', 'no obligations'
        else:
            res.status = 'proved' if not res.failed else 'failed'
    except Unsupported as e:
        res.status, res.note = 'unsupported', f'{e} (line {ex.line})'
        if verbose > 1:
            traceback.print_exc()
    except TimeoutError:
        res.status, res.note = 'timeout', f'over {budget} s'
    except RecursionError:
        res.status, res.note = 'unsupported', 'recursion depth'
    except (z3.Z3Exception, KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError) as e:
        res.status, res.note = 'unsupported', f'internal: {type(e).__name__}: {e} (line {ex.line})'
        if verbose:
            traceback.print_exc()
    res.inlined = sorted(ex.inlined - {fi.qual})
    res.used = sorted(ex.used_contracts)
    res.time = time.time() - t0
    res.ncalls = prover.n
    return res


def active_invs(obls):
    out = {}
    for o in obls:
        k, nm = o.extra
        if o.kind == 'inv-pres':
            out.setdefault(k, [])
            if nm not in out[k]:
                out[k].append(nm)
    return out


def FuncValOf(fi):
    return I.FuncVal(fi)


def cvc5_check(o, prover, timeout=10):
    """Second opinion from cvc5 on the SMT-LIB text of the query."""
    try:
        facts, goal = prover.prep(o.facts, o.goal)
        inst = []
        for th in prover.theories:
            inst += th.instances(facts + inst, goal, o.rels)
        s = z3.Solver()
        s.add(*facts)
        s.add(*inst)
        s.add(z3.Not(goal))
        txt = '(set-logic ALL)\n' + s.to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
        try:
            p = subprocess.run(['cvc5', f'--tlimit={timeout*1000}', f.name], capture_output=True, text=True, timeout=timeout + 5)
            return p.stdout.strip().startswith('unsat')
        finally:
            os.unlink(f.name)
    except Exception:
        return False
