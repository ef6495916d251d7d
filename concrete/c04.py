"""C04: enumeration, counting, sampling, extension.  Oracle: left-weighted sequences listed from the oracle's own relation."""
import itertools, random
from rt import *
import braidor as O
from c01 import CLS, mk
from peyl.braid import GNF, DGNF, BraidGroup


def listing(S, length, last=None):
    out = [()]
    for _ in range(length):
        out = [f + (y,) for f in out for y in S.follows(f[-1] if f else (S.D if last is None else last))]
    return out


def count(S, length, last=None):
    c = {S.D if last is None else last: 1}
    for _ in range(length):
        new = {}
        for x, k in c.items():
            for y in S.follows(x):
                new[y] = new.get(y, 0) + k
        c = new
    return sum(c.values())


@contract
def en_all(kind, n, length, power):
    S = O.struct(kind, n)
    want = listing(S, length)
    got = list(S.cls.all_of_length(n, length, power=power))
    eq(len(got), len(want), 'number of normal forms of length', length)
    for b in got:
        need(type(b) is S.cls and b.n == n and b.power == power and len(b.factors) == length and S.normal(b.factors), 'not a normal form', short(b))
    eq({b.factors for b in got}, set(want), 'normal forms')
    if power == 0:
        eq([b.factors for b in S.cls.all_of_length(n, length)], [b.factors for b in got], 'default power')
    eq(S.cls.count_all_of_length(n, length), len(want), 'count')
    if kind == 'GNF':
        B = BraidGroup(n)
        eq(sorted((b.power, b.factors) for b in B.all_of_garside_length(length, power)), sorted((power, f) for f in want), 'all_of_garside_length')
        eq(B.count_all_of_garside_length(length), len(want), 'count_all_of_garside_length')


@contract
def en_table(kind, n, length, last):
    S = O.struct(kind, n)
    want = listing(S, length, last)
    got = list(S.table.normal_forms(length, following=last))
    eq(len(got), len(want), 'number', length, 'following', last)
    eq(sorted(got), sorted(want), 'normal forms', length, 'following', last)
    eq(S.table.count_normal_forms(length, following=last), len(want), 'count', length, 'following', last)


@contract
def en_count(kind, n, length):
    S = O.struct(kind, n)
    eq(S.cls.count_all_of_length(n, length), count(S, length), 'count', kind, n, length)
    eq(S.table.count_normal_forms(length), count(S, length), 'count', kind, n, length)


@contract
def en_extend(kind, n, x, length):
    """Descendants and suffixes are exactly the extensions."""
    S = O.struct(kind, n)
    b = mk(S, x)
    last = x[1][-1] if x[1] else None
    ext = listing(S, length, last)
    suf = list(b.nf_suffixes(length))
    eq(len(suf), len(ext), 'number of suffixes of', x)
    eq({s.factors for s in suf}, set(ext), 'suffixes of', x)
    for s in suf[:20] + suf[-5:]:
        need(type(s) is S.cls and s.n == n, 'suffix', s)
        c = b * s
        eq((c.power, c.factors), (x[0], tuple(x[1]) + s.factors), 'braid times suffix', x, s.factors)
        need(O.same(O.mul(S.image(*x), S.image(s.power, s.factors)), S.image(x[0], tuple(x[1]) + s.factors)), 'suffix is not a suffix', x, s)
    desc = list(b.nf_descendants())
    want = [(x[0], tuple(x[1]) + f) for f in listing(S, 1, last)]
    eq(sorted((d.power, d.factors) for d in desc), sorted(want), 'descendants of', x)
    need(all(type(d) is S.cls and d.n == n for d in desc), 'type of descendants')


@contract
def en_sample(kind, n, length, seed):
    S = O.struct(kind, n)
    b = S.cls.sample(n, length, random.Random(seed))
    need(type(b) is S.cls and (b.n, b.power, len(b.factors)) == (n, 0, length) and S.normal(b.factors), 'sample', b)
    if kind == 'GNF':
        b = BraidGroup(n).sample_braid_perm(length, random.Random(seed))
        need((b.n, b.power, len(b.factors)) == (n, 0, length) and S.normal(b.factors), 'sample', b)
    c = S.cls.sample(n, length)
    need((c.n, c.power, len(c.factors)) == (n, 0, length) and S.normal(c.factors), 'sample', c)


@contract
def en_sample_support(kind, n, length, tries):
    """Every normal form can be drawn."""
    S = O.struct(kind, n)
    r = random.Random(5)
    got = {S.cls.sample(n, length, r).factors for _ in range(tries)}
    eq(got, set(listing(S, length)), 'set of samples of length', length)


def run(ctx):
    ints = [i for i in mined_ints('peyl/braid.py') if 0 <= i <= 60]
    for kind in CLS:
        for n in (2, 3, 4, 5):
            S = O.struct(kind, n)
            for length in range(0, 7):
                if count(S, length) > (120000 if ctx.thorough else 8000):
                    break
                for power in (0, 1, -1, 3):
                    ctx.do(en_all, kind, n, length, power)
            for length in sorted(set(range(0, 12)) | set(ints)):
                ctx.do(en_count, kind, n, length)
            for last in range(S.N):
                for length in range(0, 4):
                    if count(S, length, last) <= 600:
                        ctx.do(en_table, kind, n, length, last)
        ctx.do(en_sample_support, kind, 3, 2, 3000)
        ctx.do(en_sample_support, kind, 4, 1, 3000)

    def once(r):
        kind = r.choice(['GNF', 'DGNF'])
        n = r.choice([2, 3, 3, 4, 4, 5] + ([6] if kind == 'DGNF' else []))
        S = O.struct(kind, n)
        x = (r.choice([0, 1, -1, 2, -2, r.randint(-8, 8)]), S.rand_nf(r, r.choice([0, 1, 2, 3, 5, r.randint(0, 10)])))
        L = r.choice([0, 1, 1, 2, 3])
        if count(S, L, x[1][-1] if x[1] else None) < 3000:
            ctx.do(en_extend, kind, n, x, L)
        if n > 2:
            ctx.do(en_sample, kind, n, r.choice([0, 1, 2, 3, 7, 20]), r.randint(0, 10 ** 6))
    ctx.loop(8, once)
