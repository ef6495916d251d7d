"""C17: braidsearch.Tracker and its evaluation functions under arbitrary histories."""
import collections, itertools, random
import numpy as np
from rt import *
import braidor as O
import repor as R
from c01 import mk
from c14 import forms, canon
from peyl import braidsearch as BS, polymat
from peyl.braid import GNF, BraidGroup
from peyl.permutations import SymmetricGroup

CRIT = {
    'all': lambda s: [True] * len(s),
    'short': lambda s: s['projlen'] <= 4,
    'even': lambda s: s['length'] % 2 == 0,
    'terms': lambda s: s['nz_terms'] <= 7,
    'gap': lambda s: s['rhogap/length'] < 2,
    'none': lambda s: [False] * len(s),
}


def keep(name, length, projlen, nz):
    return {'all': True, 'short': projlen <= 4, 'even': length % 2 == 0, 'terms': nz <= 7, 'gap': None, 'none': False}[name]


class Model:
    def __init__(self, desc, size, crit, seed):
        self.desc, self.size, self.crit = desc, size, crit
        self.n, self.p = desc[1], desc[3]
        self.orc, self.S = R.oracle(desc), O.struct('GNF', desc[1])
        self.rep = R.make(desc)
        self.rand = None if seed is None else random.Random(seed)
        self.t = BS.Tracker(self.rep, size, ('length', 'projlen'), CRIT[crit], rand=self.rand)
        self.img = {}
        self.offered = {}       # (length, projlen) -> Counter, since the bucket was created

    def image(self, x):
        if x not in self.img:
            self.img[x] = R.norm(self.orc.braid(self.S, x), self.p)
        return self.img[x]

    def key(self, x):
        return (len(x[1]), R.spread(self.image(x)))

    def offer(self, xs):
        for x in xs:
            img = self.image(x)
            k = keep(self.crit, len(x[1]), R.spread(img), sum(len(q) for q in img.values()))
            if k is None:
                k = (R.spread(img) - 1) / 2 / max(1, len(x[1])) < 2
            if k:
                self.offered.setdefault(self.key(x), collections.Counter())[x] += 1

    def check(self, what):
        t = self.t
        need({tuple(map(canon, b)) for b in t.buckets} == set(self.offered), what, ': buckets', short(sorted(t.buckets)), 'expected', short(sorted(self.offered)))
        for b in t.buckets:
            k = tuple(map(canon, b))
            off = self.offered[k]
            bs, imgs = t.bucket_braids_images(b)
            need(len(bs) <= self.size and len(imgs) == len(bs), what, ': bucket', k, 'holds', len(bs), 'capacity', self.size)
            eq(len(bs), min(self.size, len(off)), what, ': slots filled in bucket', k)
            eq(t.bucket_reservoir_counts[b], sum(off.values()), what, ': braids seen by bucket', k)
            got = collections.Counter()
            for br, im in zip(bs, imgs):
                need(type(br) is GNF and br.n == self.n and self.S.normal(br.factors), what, ': not a normal form', br.power, br.factors)
                x = (br.power, tuple(br.factors))
                eq(self.key(x), k, what, ': braid', x, 'is filed in bucket')
                eq(R.norm(R.packed(im), self.p), self.image(x), what, ': image stored with', x)
                eq(im.shape[-1], k[1], what, ': degrees stored with', x)
                got[x] += 1
            need(not got - off, what, ': bucket', k, 'holds a braid that was not offered', short(got - off))
            if self.rand is None:
                need(max(got.values()) == 1, what, ': a braid is stored twice in', k)


@contract
def bs_history(desc, size, crit, seed, ops):
    m = Model(desc, size, crit, seed)
    S = m.S
    prod = lambda x, y: (lambda b: (b.power, tuple(b.factors)))(mk(S, x) * mk(S, y))
    for op in ops:
        tags = sorted(m.t.buckets)
        held = lambda tag: [(b.power, tuple(b.factors)) for b in m.t.bucket_braids[tag]]
        if op[0] == 'boot':
            for l in range(1, op[1] + 1):
                m.offer([(0, f) for f in forms(S, l)])
            m.t.bootstrap_exhaustive(op[1])
        elif op[0] == 'add':
            for l, g in itertools.groupby(op[1], key=lambda x: len(x[1])):
                g = [(x[0], tuple(x[1])) for x in g]
                m.offer(g)
                bs = [mk(S, x) for x in g]
                m.t.add_braids_images(bs, BS.evaluate_braids_of_same_length(m.rep, bs))
        elif op[0] == 'desc' and tags:
            tag = tags[op[1] % len(tags)]
            h = held(tag)
            if len(h) * (20 if m.n > 3 else 3) ** op[2] > 32000:
                continue
            offers = []
            for p, f in h:
                for e in forms(S, op[2], f[-1] if f else None):
                    offers += [(p, f + e[:i]) for i in range(1, op[2] + 1)]
            m.offer(offers)
            m.t.nf_descendants(tag, op[2])
        elif op[0] == 'prod' and tags:
            a, b = tags[op[1] % len(tags)], tags[op[2] % len(tags)]
            if len(held(a)) * len(held(b)) > 400:
                continue
            m.offer([prod(x, y) for x in held(a) for y in held(b)])
            m.t.bucket_product(a, b)
        elif op[0] == 'sub' and tags:
            tag = tags[op[1] % len(tags)]
            h = held(tag)
            l = tag[0]
            m.offer([(p, f[i:j]) for i in range(1, l - 1) for j in range(i + 2, l - 1) for p, f in h])
            m.t.substrings(tag)
        elif op[0] == 'drop' and tags:
            tag = tags[op[1] % len(tags)]
            m.t.discard_bucket(tag)
            del m.offered[tuple(map(canon, tag))]
            m.t.discard_bucket((98765, 4))
        elif op[0] == 'look' and tags:
            tag = tags[op[1] % len(tags)]
            r = m.t.valiate_buckets()
            need(isinstance(r, str), 'valiate_buckets reports a wrong image', r)
            df = m.t.stats()
            eq(sorted((tuple(map(canon, b)), int(c)) for b, c in zip(df['bucket'], df['count'])), sorted((tuple(map(canon, b)), len(m.t.bucket_braids[b])) for b in m.t.buckets), 'stats() counts')
            if m.rand is not None:
                eq(sorted((tuple(map(canon, b)), int(c)) for b, c in zip(df['bucket'], df['reservoir_count'])), sorted((b, sum(c.values())) for b, c in m.offered.items()), 'stats() reservoir counts')
            df = m.t.stats_reservoir()
            d = {tuple(map(canon, b)): int(c) for b, c in zip(df['bucket'], df['reservoir_count'])}
            for b, c in m.offered.items():
                eq(d.get(b), sum(c.values()), 'stats_reservoir() of', b)
            df = m.t.bucket_stats(tag)
            h = held(tag)
            eq([int(x) for x in df['length']], [len(f) for _, f in h], 'bucket_stats length', tag)
            eq([int(x) for x in df['projlen']], [R.spread(m.image(x)) for x in h], 'bucket_stats projlen', tag)
            eq([int(x) for x in df['nz_terms']], [sum(len(q) for q in m.image(x).values()) for x in h], 'bucket_stats nz_terms', tag)
            refuses((ValueError, AssertionError), lambda: m.t.bucket_stats((98765, 4)), 'bucket_stats of a missing bucket')
        m.check(op[0])


def same(desc, arr, x, *what):
    orc, S = R.oracle(desc), O.struct('GNF', desc[1])
    eq(R.norm(R.packed(arr), desc[3]), R.norm(orc.braid(S, x), desc[3]), *what, desc, x)


@contract
def bs_eval(desc, xs):
    rep, S = R.make(desc), O.struct('GNF', desc[1])
    bs = [mk(S, x) for x in xs]
    out = BS.evaluate_braids(rep, bs)
    eq(len(out), len(xs), 'evaluate_braids')
    for a, b, x in zip(out, bs, xs):
        same(desc, a, x, 'evaluate_braids')
        same(desc, BS.evaluate_braid_factors(rep, b), x, 'evaluate_braid_factors')
    for l in {len(x[1]) for x in xs}:
        g = [x for x in xs if len(x[1]) == l]
        gb = [mk(S, x) for x in g]
        for a, x in zip(BS.evaluate_braids_of_same_length(rep, gb), g):
            same(desc, a, x, 'evaluate_braids_of_same_length')
        pre = BS.evaluate_prefixes_of_same_length(rep, gb)
        eq(len(pre), l + 1, 'number of prefixes')
        for i, p in enumerate(pre):
            for a, x in zip(p, g):
                same(desc, a, (x[0], x[1][:i]), 'prefix', i)
    if len({len(x[1]) for x in xs}) > 1:
        refuses((AssertionError, ValueError), lambda: BS.evaluate_braids_of_same_length(rep, bs), 'unequal lengths')
        refuses((AssertionError, ValueError), lambda: BS.evaluate_prefixes_of_same_length(rep, bs), 'unequal lengths')
    if bs:
        imgs = BS.evaluate_braids_of_same_length(rep, bs[:1])
        for i in (imgs, [imgs[0]]):
            df = BS.braids_images_to_dataframe(bs[:1], i)
            eq([list(df['braid']), [int(v) for v in df['length']]], [bs[:1], [len(xs[0][1])]], 'dataframe')
            img = R.norm(R.oracle(desc).braid(S, xs[0]), desc[3])
            eq(int(df['nz_terms'][0]), sum(len(q) for q in img.values()), 'dataframe nz_terms')


@contract
def bs_table(desc):
    rep, S = R.make(desc), O.struct('GNF', desc[1])
    t = BS.symmetric_table(rep)
    eq(len(t), S.N, 'symmetric_table')
    for f in range(S.N):
        orc = R.oracle(desc)
        eq(R.norm(R.packed(t[S.divs[f]]), desc[3]), R.norm(orc.divisor(S, f).entries(), desc[3]), 'symmetric_table', desc, f)


@contract
def bs_sample(desc, lo, hi, count, seed):
    rep, S = R.make(desc), O.struct('GNF', desc[1])
    braids, images = BS.sample_braids_images_upto_length(rep, lo, hi, count, rand=random.Random(seed))
    eq((len(braids), len(images)), (count * (hi - lo + 1),) * 2, 'number of samples')
    for i, (b, im) in enumerate(zip(braids, images)):
        need(S.normal(b.factors) and b.power == 0 and len(b.factors) == lo + i // count, 'sampled braid', b.power, b.factors, 'for length', lo + i // count)
        same(desc, im, (b.power, b.factors), 'sampled image')


@contract
def bs_below(desc, length):
    """all_of_length_below_1: exactly the braids of the length whose gap is below the length."""
    rep, S = R.make(desc), O.struct('GNF', desc[1])
    want = {}
    for f in forms(S, length):
        img = R.norm(R.oracle(desc).braid(S, (0, f)), desc[3])
        if (R.spread(img) - 1) / 2 / length < 1:
            want[0, f] = img
    if not want:
        return 'trivial'
    braids, images = BS.all_of_length_below_1(rep, length)
    eq(sorted((b.power, tuple(b.factors)) for b in braids), sorted(want), 'braids below 1')
    for b, im in zip(braids, images):
        same(desc, im, (b.power, tuple(b.factors)), 'image')


@contract
def bs_batched(n, k):
    for mod in (BS, __import__('peyl.bucketing').bucketing):
        out = list(mod.batched(iter(range(n)), k))
        eq([x for c in out for x in c], list(range(n)), 'batched')
        need(all(len(c) == k for c in out[:-1]) and (not out or 1 <= len(out[-1]) <= k), 'batched sizes', out)
        refuses((AssertionError, ValueError), lambda: list(mod.batched([1], 0)), 'batched 0')


def run(ctx):
    R3 = [('summand', 3, 1, 0), ('summand', 3, 1, 2), ('summand', 4, 1, 2), ('summand', 4, 2, 0), ('summand', 4, 1, 3), ('summand', 4, 2, 5), ('summand', 5, 1, 3), ('summand', 3, 0, 0), ('summand', 3, 1, 3), ('summand', 2, 1, 0), ('summand', 4, 1, 0)]
    for n, k in itertools.product(range(0, 8), (1, 2, 3, 7)):
        ctx.do(bs_batched, n, k)
    for desc in R3:
        ctx.do(bs_table, desc)
    for desc in R3[:5]:
        for l in (1, 2, 3):
            ctx.do(bs_below, desc, l)
        for seed in (None, 3):
            ctx.do(bs_history, desc, 1000, 'all', seed, (('boot', 2), ('look', 0), ('desc', 1, 1), ('look', 2), ('prod', 0, 1), ('sub', 5), ('look', 3)))
            ctx.do(bs_history, desc, 2, 'all', seed, (('boot', 2), ('look', 0), ('desc', 1, 2), ('look', 2), ('prod', 0, 1), ('sub', 5), ('look', 3)))

    # more pairs of a braid and a suffix than one batch holds (1000), with braids further down than the last batch is long
    for desc in (('summand', 4, 1, 2), ('summand', 4, 2, 0)):
        ctx.do(bs_history, desc, 1000, 'all', 5, (('boot', 2), ('desc', 4, 2), ('desc', 5, 2)))
    ctx.do(bs_history, ('summand', 3, 1, 2), 1000, 'all', None, (('boot', 8), ('desc', 7, 1)))
    for k in (9, 10):
        ctx.do(bs_below, ('summand', 3, 1, 2), k)
    # suffixes longer than three factors, and evaluations of many braids of mixed lengths at once
    for desc, k in ((('summand', 3, 1, 2), 5), (('summand', 3, 1, 2), 4), (('summand', 3, 1, 0), 4)):
        ctx.do(bs_history, desc, 1000, 'all', None, (('boot', 2), ('look', 0), ('desc', 1, k), ('look', 2)))
    for desc, k in ((('summand', 3, 1, 2), 130), (('summand', 4, 1, 2), 70)):
        S = O.struct('GNF', desc[1])
        ctx.do(bs_eval, desc, tuple((ctx.rng.randint(-3, 3), S.rand_nf(ctx.rng, (i * 7 + i // 5) % 9)) for i in range(k)))
    # coefficients beyond 32 bits
    for desc in (('summand', 3, 1, 0), ('summand', 4, 1, 0)):
        S = O.struct('GNF', desc[1])
        xs = tuple((p, S.rand_nf(ctx.rng, 80)) for p in (0, 1))
        xs = tuple(x for x in xs if max(abs(c) for q in R.oracle(desc).braid(S, x).values() for c in q.values()) < 2 ** 56)
        ctx.do(bs_eval, desc, xs)
        ctx.do(bs_history, desc, 5, 'all', 1, (('add', xs), ('look', 0), ('desc', 0, 1)))

    def once(r):
        desc = r.choice(R3)
        n = desc[1]
        S = O.struct('GNF', n)
        ops = []
        rx = lambda ls: (r.choice([0, 0, 1, -1, 2, r.randint(-6, 6)]), S.rand_nf(r, r.choice(ls)))
        for _ in range(r.randint(1, 7)):
            o = r.random()
            if o < .15:
                ops.append(('boot', r.choice([0, 1, 1, 2] if n <= 4 else [0, 1])))
            elif o < .45:
                xs = [rx([0, 1, 1, 2, 3, 5, 7]) for _ in range(r.choice([1, 1, 2, 5, 12]))]
                ops.append(('add', tuple(xs + (xs[:2] if r.random() < .3 else []))))
            elif o < .6:
                ops.append(('desc', r.randrange(50), r.choice([1, 1, 2, 3] if n <= 3 else [1, 1, 2])))
            elif o < .72:
                ops.append(('prod', r.randrange(50), r.randrange(50)))
            elif o < .82:
                ops.append(('sub', r.randrange(50)))
            elif o < .9:
                ops.append(('drop', r.randrange(50)))
            else:
                ops.append(('look', r.randrange(50)))
        ops.append(('look', r.randrange(50)))
        ctx.do(bs_history, desc, r.choice([1, 1, 2, 3, 5, 10, 1000]), r.choice(['all', 'all', 'all', 'short', 'even', 'terms', 'gap', 'none']), r.choice([None, r.randrange(10 ** 6)]), tuple(ops))
        ctx.do(bs_eval, desc, tuple(rx([0, 1, 2, 3, 4]) for _ in range(r.choice([1, 2, 4, 7]))))
        if r.random() < .3 and n > 2:
            lo = r.choice([1, 1, 2, 0])
            ctx.do(bs_sample, desc, lo, lo + r.randint(0, 2), r.choice([1, 2, 4]), r.randrange(10 ** 6))
    ctx.loop(12, once)
