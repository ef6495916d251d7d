"""C13: batch evaluation through packed arrays, against exact evaluation by the oracle (Kronecker products over words the
oracle reads from the divisors)."""
import itertools
import numpy as np
from rt import *
import braidor as O
import repor as R
from c01 import CLS, mk
from c12 import reps
from peyl import polymat


def check(desc, arr, want, *what):
    eq(R.norm(R.packed(np.asarray(arr)), desc_p(desc)), R.norm(want, desc_p(desc)), *what)
    p = desc_p(desc)
    if p:
        need(arr.size == 0 or (arr.min() >= 0 and arr.max() < p), *what, ': entries not reduced modulo p')


def desc_p(desc):
    return desc[2] if desc[0] == 'lkb' else desc[3]


def fits(desc, wants):
    """No machine overflow: coefficients (and products of reduced ones) stay far inside the dtype."""
    p = desc_p(desc)
    if p:
        return True
    return all(abs(c) < 2 ** 56 for w in wants for q in w.values() for c in q.values())


@contract
def pk_batch(desc, kind, xs):
    rep, orc, S = R.make(desc), R.oracle(desc), O.struct(kind, desc[1])
    wants = [orc.braid(S, x) for x in xs]
    if not fits(desc, wants):
        return 'trivial'
    bs = [mk(S, x) for x in xs]
    out = rep.polymat_evaluate_braids_of_same_length(bs)
    eq(out.shape[:3], (len(xs), orc.d, orc.d), 'shape of the batch')
    for a, x, w in zip(out, xs, wants):
        check(desc, a, w, 'batch evaluation', desc, kind, x, 'in a batch of', len(xs))
    need([(b.power, b.factors) for b in bs] == [(x[0], tuple(x[1])) for x in xs], 'operands changed')
    for b, w in list(zip(bs, wants))[:2]:
        check(desc, rep.polymat_evaluate_braid(b), w, 'polymat_evaluate_braid', desc, b.power, b.factors)
        check(desc, rep.polymat_evaluate(b), w, 'polymat_evaluate', desc, b.power, b.factors)
    # evaluating again (caches are filled now) gives the same
    again = rep.polymat_evaluate_braids_of_same_length(list(bs))
    need(again.shape == out.shape and (again == out).all(), 'second evaluation differs')


@contract
def pk_ints(desc, kind, seqs):
    """Sequences of divisors, normal or not."""
    rep, orc, S = R.make(desc), R.oracle(desc), O.struct(kind, desc[1])
    wants = [orc.braid(S, (0, s)) for s in seqs]
    if not fits(desc, wants):
        return 'trivial'
    out = rep.polymat_evaluate_braid_integers_of_same_length(S.cls, [list(s) for s in seqs])
    eq(out.shape[:3], (len(seqs), orc.d, orc.d), 'shape of the batch')
    for a, s, w in zip(out, seqs, wants):
        check(desc, a, w, 'integer sequences', desc, kind, s)


@contract
def pk_long_ints(desc, kind, seqs):
    """Long sequences of divisors modulo p (the oracle reduces after every eight factors)."""
    rep, orc, S, p = R.make(desc), R.oracle(desc), O.struct(kind, desc[1]), desc_p(desc)
    out = rep.polymat_evaluate_braid_integers_of_same_length(S.cls, [list(s) for s in seqs])
    eq(out.shape[:3], (len(seqs), orc.d, orc.d), 'shape of the batch')
    for a, s in zip(out, seqs):
        want = None
        for i in range(0, len(s), 8):
            part = R.KMat.of(orc.d, R.reduce(orc.braid(S, (0, tuple(s[i:i + 8]))), p))
            want = part if want is None else R.KMat.of(orc.d, R.reduce((want * part).entries(), p))
        check(desc, a, want.entries(), 'long integer sequence', desc, kind, s)


@contract
def pk_unequal(desc, kind, xs):
    rep, S = R.make(desc), O.struct(kind, desc[1])
    if len({len(x[1]) for x in xs}) > 1:
        refuses((AssertionError, ValueError), lambda: rep.polymat_evaluate_braids_of_same_length([mk(S, x) for x in xs]), 'batch of unequal lengths')
        refuses((AssertionError, ValueError), lambda: rep.polymat_evaluate_braid_integers_of_same_length(S.cls, [x[1] for x in xs]), 'sequences of unequal lengths')
    refuses((AssertionError, ValueError, IndexError), lambda: rep.polymat_evaluate_braid_integers_of_same_length(S.cls, [[S.N]]), 'index out of range')
    refuses((AssertionError, ValueError, IndexError), lambda: rep.polymat_evaluate_braid_integers_of_same_length(S.cls, [[-1]]), 'index out of range')


@contract
def pk_mul(desc, kind, xs, ys, mode):
    """polymat_mul of two batches (element by element, or all pairs) is multiplication up to a power of v."""
    rep, orc, S = R.make(desc), R.oracle(desc), O.struct(kind, desc[1])
    a = rep.polymat_evaluate_braids_of_same_length([mk(S, x) for x in xs])
    b = rep.polymat_evaluate_braids_of_same_length([mk(S, x) for x in ys])
    K = lambda x: R.KMat.of(orc.d, orc.braid(S, x))
    if mode == 'pairs':
        out = rep.polymat_mul(a[:, None, ...], b[None, :, ...])
        eq(out.shape[:2], (len(xs), len(ys)), 'shape')
        cells = [((i, j), xs[i], ys[j]) for i in range(len(xs)) for j in range(len(ys))]
    else:
        out = rep.polymat_mul(a, b)
        eq(out.shape[0], len(xs), 'shape')
        cells = [((i,), x, y) for i, (x, y) in enumerate(zip(xs, ys))]
    for i, x, y in cells:
        w = (K(x) * K(y)).entries()
        if fits(desc, [w]):
            check(desc, out[i], w, 'polymat_mul', mode, desc, kind, x, y)
            eq(int(polymat.projlen(out[i])), R.spread(R.reduce(w, desc_p(desc))), 'projlen', desc, x, y)


@contract
def pk_id(desc):
    rep, orc = R.make(desc), R.oracle(desc)
    check(desc, rep.polymat_id(), {(i, i): {0: 1} for i in range(orc.d)}, 'polymat_id', desc)


def run(ctx):
    ALL = [d for n in (2, 3, 4, 5) for d in reps(n, (0, 2, 3, 5, 7, 97)) if not (n == 5 and d[0] == 'lkb')]
    J = [d for d in ALL if d[0] == 'jones']
    BIG = [('jones', 6, 2, 5), ('jones', 6, 1, 0), ('lkb', 5, 3, (1, 1), (5, 1)), ('jones', 5, 2, 1009)]
    for desc in ALL:
        ctx.do(pk_id, desc)
        for kind in CLS:
            S = O.struct(kind, desc[1])
            if desc[0] == 'jones' and desc[3] in (0, 3) or desc in ALL[:30]:
                ctx.do(pk_batch, desc, kind, tuple((p, ()) for p in range(-4, 5)))
                fs = [f for f in range(S.N) if f not in (S.id, S.D)]
                if fs and len(fs) < 50:
                    ctx.do(pk_batch, desc, kind, tuple((i % 5 - 2, (f,)) for i, f in enumerate(fs)))
    r = ctx.rng

    def xs(S, length, count):
        out = []
        for _ in range(count):
            out.append((r.choice([0, 0, 1, -1, 2, -2, 3, r.randint(-9, 9)]), S.rand_nf(r, length)))
        return tuple(x for x in out if len(x[1]) == length) or tuple((0, ()) for _ in range(1))

    def once(r):
        desc = r.choice(J * 2 + ALL + BIG)
        n = desc[1]
        S = O.struct(r.choice(['GNF', 'DGNF']), n)
        x = xs(S, r.choice([0, 1, 2, 3, 4, 6, 10]), r.choice([1, 1, 2, 3, 5, 9]))
        ctx.do(pk_batch, desc, S.kind, x)
        L = r.choice([0, 1, 2, 3, 5])
        ctx.do(pk_ints, desc, S.kind, tuple(tuple(r.randrange(S.N) for _ in range(L)) for _ in range(r.choice([1, 2, 4]))))
        m = r.choice([1, 2, 3])
        a, b = xs(S, r.choice([0, 1, 2]), m), xs(S, r.choice([0, 1, 3]), m)
        ctx.do(pk_mul, desc, S.kind, a, b, 'pairs')
        k = min(len(a), len(b))
        ctx.do(pk_mul, desc, S.kind, a[:k], b[:k], 'zip')
        ctx.do(pk_unequal, desc, S.kind, (xs(S, 1, 1) + xs(S, 2, 1)))
    ctx.loop(10, once)

    for desc in (('jones', 3, 1, 0), ('jones', 4, 1, 0), ('jones', 5, 2, 0)):      # coefficients beyond 32 bits
        for kind in CLS:
            ctx.do(pk_batch, desc, kind, xs(O.struct(kind, desc[1]), 60, 2))

    def long(r):      # long braids modulo p: many steps
        desc = r.choice([d for d in J if d[3]])
        S = O.struct(r.choice(['GNF', 'DGNF']), desc[1])
        ctx.do(pk_batch, desc, S.kind, xs(S, r.choice([15, 25, 40]), 2))
        d = r.choice([d for d in J if d[3] and d[1] >= 3 and d[2]])
        S = O.struct(r.choice(['GNF', 'DGNF']), d[1])
        L = r.choice([30, 60, 90])
        one = [r.randrange(S.N) for _ in range(r.choice([2, 5, L]))]
        ctx.do(pk_long_ints, d, S.kind, tuple(tuple((one * L)[:L]) for _ in range(r.choice([1, 2]))))
    ctx.loop(4, long)
