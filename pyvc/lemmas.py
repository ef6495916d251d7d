"""The lemma schemas about finite sums and powers that the ring back end (ring.py) and theory.py instantiate, each proved
by induction from the defining equations of the recursive functions:

  S(a,lo,hi) = 0 if lo >= hi else S(a,lo,hi-1) + a[hi-1]*w(hi-1)      w = pw for EV, w = 1 for SUM / SUMI
  pw(0) = 1, pw(i+1) = pw(i)*X, X*XI = 1;   rpow(x,0) = 1, rpow(x,n+1) = rpow(x,n)*x

Every induction is two obligations (base, step); the step has the hypothesis for hi (or n) and ground instances of the
definitions only."""
from __future__ import annotations
import time
import z3

I_, R_ = z3.IntSort(), z3.RealSort()


def obligations():
    out = []
    for kind in ('EV', 'SUM', 'SUMI'):
        T = I_ if kind == 'SUMI' else R_
        S = z3.Function('S_' + kind, z3.ArraySort(I_, T), I_, I_, T)
        pw = z3.Function('w', I_, T)
        w = pw if kind == 'EV' else (lambda i: z3.IntVal(1) if T == I_ else z3.RealVal(1))
        zero = z3.IntVal(0) if T == I_ else z3.RealVal(0)
        a, b, c = (z3.Const(n, z3.ArraySort(I_, T)) for n in 'abc')
        lo, hi, m, i, o, n = z3.Ints('lo hi m i o n')
        v, k, l = (z3.Const(x, T) for x in 'vkl')
        D = lambda A, L, H: S(A, L, H) == z3.If(L >= H, zero, S(A, L, H - 1) + A[H - 1] * w(H - 1))
        add = lambda x, y: pw(x + y) == pw(x) * pw(y)

        def ind(name, hyp, goal, defs, base, step_hyp=None):
            """goal(h) for h >= base under hyp: induction on h."""
            out.append((f'{kind} {name}: base', hyp(base) + defs(base), goal(base)))
            h = z3.Int('h')
            out.append((f'{kind} {name}: step', [h >= base] + hyp(h + 1) + (step_hyp(h) if step_hyp else []) + [goal(h)] + defs(h + 1), goal(h + 1)))

        none = lambda h: []
        ind('splits at m', lambda h: [lo <= m], lambda h: S(a, lo, h) == S(a, lo, m) + S(a, m, h),
            lambda h: [D(a, lo, h), D(a, m, h)], m)
        out.append((f'{kind} of an empty range is 0', [lo >= hi, D(a, lo, hi)], S(a, lo, hi) == zero))
        out.append((f'{kind} of one element', [D(a, lo, lo + 1), D(a, lo, lo)], S(a, lo, lo + 1) == a[lo] * w(lo)))
        st = z3.Store(a, i, v)
        ind('after a store', none,
            lambda h: S(st, lo, h) == S(a, lo, h) + z3.If(z3.And(lo <= i, i < h), (v - a[i]) * w(i), zero),
            lambda h: [D(st, lo, h), D(a, lo, h)], lo)
        ind('of equal sequences', lambda h: [z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < h), a[i] == b[i]))],
            lambda h: S(a, lo, h) == S(b, lo, h), lambda h: [D(a, lo, h), D(b, lo, h)], lo)
        ind('of zeros', lambda h: [z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < h), a[i] == zero))],
            lambda h: S(a, lo, h) == zero, lambda h: [D(a, lo, h)], lo)
        sh = lambda h: [z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < h), a[i] == b[i + o]), patterns=[a[i]])]
        if kind == 'EV':
            ind('of a shifted sequence', sh, lambda h: S(a, lo, h) == pw(-o) * S(b, lo + o, h + o),
                lambda h: [D(a, lo, h), D(b, lo + o, h + o), pw(h - 1) == pw(-o) * pw(h - 1 + o),
                           pw(-o) * (S(b, lo + o, h - 1 + o) + b[h - 1 + o] * pw(h - 1 + o))
                           == pw(-o) * S(b, lo + o, h - 1 + o) + b[h - 1 + o] * (pw(-o) * pw(h - 1 + o))], lo)
        else:
            ind('of a shifted sequence', sh, lambda h: S(a, lo, h) == S(b, lo + o, h + o),
                lambda h: [D(a, lo, h), D(b, lo + o, h + o)], lo)
            # first element split off, from the split lemma
            ind('of a reversed sequence', lambda h: [z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < h), a[i] == b[n - 1 - i]), patterns=[a[i]])],
                lambda h: S(a, lo, h) == S(b, n - h, n - lo),
                lambda h: [D(a, lo, h), D(b, n - h, n - lo), D(b, n - h, n - h + 1), D(b, n - h, n - h),
                           z3.Implies(h > lo, S(b, n - h, n - lo) == S(b, n - h, n - h + 1) + S(b, n - h + 1, n - lo))], lo)
            rk = z3.Function('rank', I_, I_)
            kp = z3.Function('keep', I_, z3.BoolSort())
            ind('of the kept elements is the sum with the others set to 0',
                lambda h: [rk(0) == 0, lo == 0],
                lambda h: S(a, 0, rk(h)) == S(c, 0, h),
                lambda h: [D(a, 0, rk(h)), D(c, 0, h), rk(h - 1) >= 0, rk(h) == rk(h - 1) + z3.If(kp(h - 1), 1, 0),
                           z3.Implies(kp(h - 1), a[rk(h - 1)] == b[h - 1]), c[h - 1] == z3.If(kp(h - 1), b[h - 1], zero)] if not z3.eq(h, lo) else [D(a, 0, rk(h)), D(c, 0, h)], lo)
            ind('of a repeated value', lambda h: [z3.ForAll([i], a[i] == k)],
                lambda h: S(a, lo, h) == k * ((z3.ToReal(h - lo)) if T == R_ else (h - lo)),
                lambda h: [D(a, lo, h)], lo)
        # linearity:  a = k*b + l*c  pointwise
        ind('is linear', lambda h: [z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < h), a[i] == k * b[i] + l * c[i]), patterns=[a[i]])],
            lambda h: S(a, lo, h) == k * S(b, lo, h) + l * S(c, lo, h),
            lambda h: [D(a, lo, h), D(b, lo, h), D(c, lo, h)], lo)
    pw = z3.Function('w', I_, R_)
    X, XI = z3.Reals('X XI')
    x, y, h = z3.Ints('x y h')
    d = lambda t: pw(t + 1) == pw(t) * X
    out.append(('pw is additive, upwards: base', [pw(0) == 1], pw(x + 0) == pw(x) * pw(0)))
    out.append(('pw is additive, upwards: step', [h >= 0, d(x + h), d(h), pw(x + h) == pw(x) * pw(h)], pw(x + h + 1) == pw(x) * pw(h + 1)))
    out.append(('pw is additive, downwards: step', [h <= 0, X * XI == 1, d(x + h - 1), d(h - 1), pw(x + h) == pw(x) * pw(h),
                                                   # cancel X
                                                   pw(x + h - 1) == pw(x + h) * XI, pw(h - 1) == pw(h) * XI],
                pw(x + h - 1) == pw(x) * pw(h - 1)))
    t = z3.Int('t')
    out.append(('pw downwards', [X * XI == 1, d(t - 1), pw(t) * XI == pw(t - 1) * (X * XI)], pw(t - 1) == pw(t) * XI))
    P = z3.Function('rp', R_, I_, R_)
    r, s = z3.Reals('r s')
    n, m = z3.Ints('n m')
    E = lambda b, e: P(b, e + 1) == P(b, e) * b
    out.append(('rpow is additive: base', [P(r, 0) == 1], P(r, n + 0) == P(r, n) * P(r, 0)))
    out.append(('rpow is additive: step', [h >= 0, E(r, n + h), E(r, h), P(r, n + h) == P(r, n) * P(r, h)], P(r, n + h + 1) == P(r, n) * P(r, h + 1)))
    out.append(('rpow of a unit and of its inverse: step', [r * s == 1, E(r, n), P(s, -n) == P(s, -(n + 1)) * s, P(r, n) == P(s, -n),
                P(r, n) * r == P(s, -(n + 1)) * s * r, P(s, -(n + 1)) * s * r == P(s, -(n + 1)) * (r * s)], P(r, n + 1) == P(s, -(n + 1))))
    return out


def group_obligations():
    """The lemma schemas about products in a group that words.py instantiates.

    P(a,lo,hi) = 1 if lo >= hi else P(a,lo,hi-1) * g(a[hi-1]);  x^0 = 1, x^(n+1) = x^n * x, x^-n the inverse of x^n.
    The group laws are given as quantified axioms; the definitions as ground instances."""
    G = z3.DeclareSort('G')
    E = z3.DeclareSort('El')
    mul = z3.Function('gmul', G, G, G)
    inv = z3.Function('ginv', G, G)
    one = z3.Const('g1', G)
    g = z3.Function('el', E, G)
    A = z3.ArraySort(I_, E)
    P = z3.Function('gP', A, I_, I_, G)
    pw = z3.Function('gpow', G, I_, G)
    x, y, z, u = z3.Consts('x y z u', G)
    a, b = z3.Consts('a b', A)
    v = z3.Const('v', E)
    lo, hi, m, i, o, n, h = z3.Ints('lo hi m i o n h')
    assoc = z3.ForAll([x, y, z], mul(mul(x, y), z) == mul(x, mul(y, z)), patterns=[mul(mul(x, y), z), mul(x, mul(y, z))])
    unit = [z3.ForAll([x], mul(one, x) == x, patterns=[mul(one, x)]), z3.ForAll([x], mul(x, one) == x, patterns=[mul(x, one)])]
    neg = [z3.ForAll([x], z3.And(mul(inv(x), x) == one, mul(x, inv(x)) == one), patterns=[inv(x)])]
    ax = [assoc] + unit + neg
    out = []

    def prod(F, el):
        return lambda L, H: F(L, H) == z3.If(L >= H, one, mul(F(L, H - 1), el(H - 1)))
    D = lambda A_, L, H: P(A_, L, H) == z3.If(L >= H, one, mul(P(A_, L, H - 1), g(A_[H - 1])))

    def ind(name, hyp, goal, defs, base, extra=lambda h: []):
        out.append((f'product {name}: base', ax + hyp(base) + defs(base), goal(base)))
        out.append((f'product {name}: step', ax + [h >= base] + hyp(h + 1) + [goal(h)] + defs(h + 1) + extra(h), goal(h + 1)))
    none = lambda h: []
    ind('splits at m', lambda h: [lo <= m], lambda h: P(a, lo, h) == mul(P(a, lo, m), P(a, m, h)), lambda h: [D(a, lo, h), D(a, m, h)], m)
    out.append(('product over an empty range', [lo >= hi, D(a, lo, hi)], P(a, lo, hi) == one))
    out.append(('product of one element', ax + [D(a, lo, lo + 1), D(a, lo, lo)], P(a, lo, lo + 1) == g(a[lo])))
    ind('of equal sequences', lambda h: [z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < h), a[i] == b[i]), patterns=[a[i]])],
        lambda h: P(a, lo, h) == P(b, lo, h), lambda h: [D(a, lo, h), D(b, lo, h)], lo)
    ind('of a shifted sequence', lambda h: [z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < h), a[i] == b[i + o]), patterns=[a[i]])],
        lambda h: P(a, lo, h) == P(b, lo + o, h + o), lambda h: [D(a, lo, h), D(b, lo + o, h + o)], lo)
    ind('of conjugates', lambda h: [z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < h), g(a[i]) == mul(mul(u, g(b[i])), inv(u))), patterns=[a[i]])],
        lambda h: P(a, lo, h) == mul(mul(u, P(b, lo, h)), inv(u)), lambda h: [D(a, lo, h), D(b, lo, h)], lo,
        lambda h: [mul(inv(u), u) == one, mul(mul(mul(u, P(b, lo, h)), inv(u)), mul(mul(u, g(b[h])), inv(u)))
                   == mul(mul(u, P(b, lo, h)), mul(mul(inv(u), u), mul(g(b[h]), inv(u))))])
    # product of inverses of the elements taken backwards: split off the first element of b
    ind('of the inverses backwards', lambda h: [z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < h), g(a[i]) == inv(g(b[n - 1 - i]))), patterns=[a[i]])],
        lambda h: P(a, lo, h) == inv(P(b, n - h, n - lo)), lambda h: [D(a, lo, h), D(b, n - h, n - h + 1), D(b, n - h, n - h), D(b, n - h, n - lo),
        z3.Implies(h > lo, P(b, n - h, n - lo) == mul(P(b, n - h, n - h + 1), P(b, n - h + 1, n - lo)))], lo,
        lambda h: [inv(mul(g(b[n - h - 1]), P(b, n - h, n - lo))) == mul(inv(P(b, n - h, n - lo)), inv(g(b[n - h - 1]))), inv(one) == one])
    q, r = z3.Consts('q r', G)
    out.append(('inverse of a product', [assoc] + unit + [mul(q, mul(r, mul(inv(r), inv(q)))) == mul(mul(q, mul(r, inv(r))), inv(q)), mul(r, inv(r)) == one,
                mul(q, inv(q)) == one, mul(inv(mul(q, r)), mul(q, r)) == one,
                mul(inv(mul(q, r)), mul(mul(q, r), mul(inv(r), inv(q)))) == mul(mul(inv(mul(q, r)), mul(q, r)), mul(inv(r), inv(q)))],
                inv(mul(q, r)) == mul(inv(r), inv(q))))
    W_ = lambda e, t: pw(e, t + 1) == mul(pw(e, t), e)
    ind('of a constant', lambda h: [z3.ForAll([i], a[i] == v), pw(g(v), 0) == one], lambda h: P(a, lo, h) == pw(g(v), h - lo),
        lambda h: [D(a, lo, h), W_(g(v), h - 1 - lo)], lo)
    out.append(('power is additive: base', ax + [pw(q, 0) == one], pw(q, n + 0) == mul(pw(q, n), pw(q, 0))))
    out.append(('power is additive: step', ax + [h >= 0, W_(q, n + h), W_(q, h), pw(q, n + h) == mul(pw(q, n), pw(q, h))],
                pw(q, n + h + 1) == mul(pw(q, n), pw(q, h + 1))))
    out.append(('power is additive: step down', ax + [h <= 0, W_(q, n + h - 1), W_(q, h - 1), pw(q, n + h) == mul(pw(q, n), pw(q, h)),
                pw(q, n + h - 1) == mul(pw(q, n + h), inv(q)), pw(q, h - 1) == mul(pw(q, h), inv(q))],
                pw(q, n + h - 1) == mul(pw(q, n), pw(q, h - 1))))
    out.append(('power downwards', ax + [W_(q, n), mul(mul(pw(q, n), q), inv(q)) == mul(pw(q, n), mul(q, inv(q)))], mul(pw(q, n + 1), inv(q)) == pw(q, n)))
    # blocks: off(t+1) = off(t) + len(t), block t of a is the sequence c(t); product = product of the products
    off = z3.Function('off', I_, I_)
    Q = z3.Function('gQ', I_, G)           # product of block t
    PQ = z3.Function('gPQ', I_, G)         # product of the first t blocks
    ind('of a concatenation of blocks', lambda h: [off(0) == 0, PQ(0) == one, lo == 0],
        lambda h: P(a, 0, off(h)) == PQ(h),
        lambda h: [D(a, 0, off(h)), PQ(h) == mul(PQ(h - 1), Q(h - 1)), Q(h - 1) == P(a, off(h - 1), off(h)), off(h - 1) >= 0, off(h - 1) <= off(h),
                   P(a, 0, off(h)) == mul(P(a, 0, off(h - 1)), P(a, off(h - 1), off(h)))] if not z3.eq(h, lo) else [D(a, 0, 0), off(lo) == 0, PQ(lo) == one], lo)
    # no factor of a normal form is the Garside element (or the identity), but at the ends
    f = z3.Array('f', I_, I_)
    N = z3.Function('nrm', I_, I_, z3.BoolSort())
    d, e, p, t, L = z3.Ints('d e p t L')
    tab = [z3.ForAll([p, t], z3.Implies(N(p, t), z3.And(z3.Implies(t == d, p == d), z3.Implies(p == e, t == e))), patterns=[N(p, t)])]
    out.append(('normal forms, front: step', tab + [h >= 0, h + 1 < L, N(f[h], f[h + 1]), z3.Implies(f[h] == d, f[0] == d)], z3.Implies(f[h + 1] == d, f[0] == d)))
    out.append(('normal forms, back: step', tab + [h >= 1, h < L, N(f[h - 1], f[h]), z3.Implies(f[h] == e, f[L - 1] == e)], z3.Implies(f[h - 1] == e, f[L - 1] == e)))
    # an increasing permutation of [0, n) is the identity
    srt = [z3.ForAll([p, t], z3.Implies(z3.And(p >= 0, t < n, p < t, t == p + 1), z3.And(f[p] <= f[t], f[p] != f[t])), patterns=[z3.MultiPattern(f[p], f[t])]),
           z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < n), z3.And(f[t] >= 0, f[t] < n)), patterns=[f[t]])]
    out.append(('increasing permutation, from below: base', srt + [n > 0], f[0] >= 0))
    out.append(('increasing permutation, from below: step', srt + [h >= 0, h + 1 < n, f[h] >= h], f[h + 1] >= h + 1))
    out.append(('increasing permutation, from above: base', srt + [n > 0], f[n - 1] <= n - 1))
    out.append(('increasing permutation, from above: step', srt + [h >= 1, h < n, f[h] <= h], f[h - 1] <= h - 1))
    return out


def matching_obligations():
    """Crossingless matchings (specs/tl.py): a closed interval [x, y) has an even number of dots, so the ends of an arc have
    different parity and the number of dots is even; going down and up again through the lower diagram."""
    A = z3.ArraySort(I_, I_)
    a, b = z3.Consts('a b', A)
    n, x, y, t, u, h, L, m, v = z3.Ints('n x y t u h L m v')
    CL = z3.Function('closed', I_, I_, z3.BoolSort())
    W = z3.Function('leaves', I_, I_, I_)
    ok = lambda k: z3.And(k >= 0, k < n)
    cm = [z3.ForAll([t], z3.Implies(ok(t), z3.And(ok(a[t]), a[t] != t, a[a[t]] == t)), patterns=[a[t]]),
          z3.ForAll([t, u], z3.Implies(z3.And(ok(t), t < u, u < a[t]), z3.And(t < a[u], a[u] < a[t])), patterns=[z3.MultiPattern(a[t], a[u])])]
    inn = lambda p, q, k: z3.And(k >= p, k < q)
    D = lambda p, q: [z3.Implies(CL(p, q), z3.ForAll([t], z3.Implies(inn(p, q, t), inn(p, q, a[t])), patterns=[a[t]])),
                      z3.Or(CL(p, q), z3.And(inn(p, q, W(p, q)), z3.Not(inn(p, q, a[W(p, q)]))))]
    IH = lambda p, q: z3.Implies(z3.And(p >= 0, p <= q, q <= n, q - p < h, CL(p, q)), (q - p) % 2 == 0)
    out = [('a closed interval of a crossingless matching is even', cm + D(x, y) + D(x + 1, a[x]) + D(a[x] + 1, y)
            + [x >= 0, x <= y, y <= n, y - x == h, CL(x, y), IH(x + 1, a[x]), IH(a[x] + 1, y)], (y - x) % 2 == 0)]
    EV = lambda p, q: z3.Implies(z3.And(p >= 0, p <= q, q <= n, CL(p, q)), (q - p) % 2 == 0)
    out.append(('a crossingless matching has an even number of dots', cm + D(0, n) + [n >= 0, EV(0, n)], n % 2 == 0))
    out.append(('the ends of an arc have different parity', cm + [ok(v)] + D(v + 1, a[v]) + D(a[v] + 1, v) + [EV(v + 1, a[v]), EV(a[v] + 1, v)], (a[v] - v) % 2 == 1))
    inv = z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < L), z3.And(b[t] >= 0, b[t] < L, b[t] != t, b[b[t]] == t)), patterns=[b[t]])
    d = lambda k: z3.If(b[L - 1 - k] >= L - m, L - 1 - b[L - 1 - k], -1)
    out.append(('down and up again', [inv, m >= 0, m <= L, v >= 0, v < m, d(v) >= 0], z3.And(d(v) < m, d(v) != v, d(d(v)) == v)))
    return out


def prove_all(timeout=4000):
    res = []
    for name, hyps, goal in obligations() + group_obligations() + matching_obligations():
        t0 = time.time()
        st = 'unknown'
        for cfg in range(3):
            s = z3.Solver() if cfg != 1 else z3.SimpleSolver()
            s.set('rlimit', 2000 * timeout)
            s.set('timeout', 15 * timeout)
            if cfg == 2:
                s.set('random_seed', 11)
            s.add(*hyps)
            s.add(z3.Not(goal))
            st = s.check()
            if st == z3.unsat:
                break
        res.append(dict(name='lemma: ' + name, status='proved' if st == z3.unsat else 'unknown', time=round(time.time() - t0, 3),
                        backend='z3', detail='' if st == z3.unsat else str(st)))
    return res


if __name__ == '__main__':
    for r in prove_all():
        print(r['status'], r['name'], r['time'])
