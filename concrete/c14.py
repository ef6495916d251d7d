"""C14: bucketing.Tracker under arbitrary histories.  Oracle: the exact image of every braid (repor) and the set of braids
that each operation offers."""
import itertools, random, collections
import numpy as np
from rt import *
import braidor as O
import repor as R
from c01 import CLS, mk
from peyl import bucketing as BK
from peyl.braid import GNF, DGNF

Stats = BK.Stats


def wt(b):
    return float((b.power * 7 + sum((i + 1) * (f + 3) for i, f in enumerate(b.factors)) * 5) % 11)


class SomeWeight(BK.BraidStatBase):
    name = 'some_weight'

    @staticmethod
    def calculate(rep, braids, images):
        return [wt(b) for b in braids]


STATS = {'L': Stats.CanonicalLength, 'P': Stats.ProjectiveLength, 'K': Stats.NFKind, 'Z': Stats.NonzeroTerms}


class Model:
    """What the tracker must satisfy, in terms of the operations performed so far."""
    def __init__(self, desc, kind, capacity, keys, policy, weighted, seed):
        self.desc, self.orc = desc, R.oracle(desc)
        self.n, self.p = desc[1], desc[3]
        self.kind = kind
        self.rep = R.make(desc)
        self.keys, self.capacity, self.policy, self.weighted = keys, capacity, policy, weighted
        self.t = BK.Tracker(rep=self.rep, bucket_capacity=capacity, bucket_braidstats=[STATS[k] for k in keys], other_braidstats=[Stats.NonzeroTerms] if 'Z' not in keys else [],
                            reservoir_method=policy, reservoir_weight=SomeWeight if weighted else None, rand=random.Random(seed))
        self.offered = {}       # tag -> Counter of braids (power, factors) offered since the bucket exists
        self.order = {}         # tag -> list in order of offering (None: the order is not determined)
        self.images = {}

    def struct(self, kind=None):
        return O.struct(kind or self.kind, self.n)

    def image(self, kind, x):
        if (kind, x) not in self.images:
            self.images[kind, x] = R.norm(self.orc.braid(self.struct(kind), x), self.p)
        return self.images[kind, x]

    def tag(self, kind, x):
        img = self.image(kind, x)
        d = {'L': len(x[1]), 'P': R.spread(img), 'K': kind, 'Z': sum(len(q) for q in img.values())}
        return tuple(d[k] for k in self.keys)

    def offer(self, kind, xs):
        for x in xs:
            t = self.tag(kind, x)
            self.offered.setdefault(t, collections.Counter())[kind, x] += 1

    def check(self, what):
        t = self.t
        need({tuple(map(canon, k)) for k in t.buckets} == set(self.offered), what, ': buckets', short(list(t.buckets)), 'expected', short(list(self.offered)))
        for tag, b in t.buckets.items():
            ctag = tuple(map(canon, tag))
            off = self.offered[ctag]
            bs, imgs = t.bucket_braids_images(tag)
            need(len(bs) == len(imgs) == b.size(), what, ': sizes of bucket', tag)
            need(len(bs) <= self.capacity, what, ': bucket', tag, 'holds', len(bs), 'braids, capacity', self.capacity)
            tot = sum(off.values())
            eq(len(bs), min(self.capacity, tot), what, ': number of braids in bucket', tag)
            eq(b.reservoir_count, tot, what, ': number of braids seen by bucket', tag)
            need(abs(b.reservoir_weight - sum(c * (wt_of(x) if self.weighted else 1.0) for (_, x), c in off.items())) < 1e-6, what, ': weight seen by bucket', tag, b.reservoir_weight)
            got = collections.Counter()
            for i, (br, im) in enumerate(zip(bs, imgs)):
                kind, x = type(br).__name__, (br.power, tuple(br.factors))
                need(br.n == self.n and self.struct(kind).normal(br.factors), what, ': not a normal form', kind, x)
                eq(self.tag(kind, x), ctag, what, ': braid', kind, x, 'is filed in bucket')
                eq(R.norm(R.packed(im), self.p), self.image(kind, x), what, ': image stored with', kind, x)
                eq(im.shape[-1], R.spread(self.image(kind, x)), what, ': degrees stored with', kind, x)
                need(b.weights[i] == (wt(br) if self.weighted else 1.0), what, ': weight stored with', kind, x)
                got[kind, x] += 1
            need(not got - off, what, ': bucket', tag, 'holds a braid that was not offered', short(got - off))


def wt_of(x):
    return float((x[0] * 7 + sum((i + 1) * (f + 3) for i, f in enumerate(x[1])) * 5) % 11)


def canon(v):
    return int(v) if isinstance(v, (int, np.integer)) else v


def forms(S, length, last=None):
    """All (0, factors) of the given length which may follow a factor."""
    def go(l, last):
        if not l:
            yield ()
            return
        for f in S.follows(last):
            for rest in go(l - 1, f):
                yield (f,) + rest
    return list(go(length, S.D if last is None else last))


@contract
def tr_history(desc, kind, capacity, keys, policy, weighted, seed, ops):
    m = Model(desc, kind, capacity, keys, policy, weighted, seed)
    S = m.struct()
    m.check('new tracker')
    for op in ops:
        if op[0] == 'boot':
            _, k, upto = op
            if k != kind and 'K' not in keys:
                continue
            Sk = m.struct(k)
            for l in range(1, upto + 1):
                m.offer(k, [(0, f) for f in forms(Sk, l)])
            m.t.bootstrap_exhaustive(CLS[k], upto)
        elif op[0] == 'add':
            _, k, xs = op
            if k != kind and 'K' not in keys:
                continue
            m.offer(k, [(x[0], tuple(x[1])) for x in xs])
            bs = [mk(m.struct(k), x) for x in xs]
            for l, g in itertools.groupby(bs, key=lambda b: len(b.factors)):
                g = list(g)
                m.t.add_braids_images(g, m.rep.polymat_evaluate_braids_of_same_length(g))
        elif op[0] == 'desc':
            _, pick, length = op
            if not m.t.buckets:
                continue
            tags = sorted(m.t.buckets, key=repr)
            tag = tags[pick % len(tags)]
            held = [(type(b).__name__, b.power, tuple(b.factors)) for b in m.t.bucket_braids_images(tag)[0]]
            if len(held) * 30 ** length > 20000:
                continue
            for k, p, f in held:
                m.offer(k, [(p, f + e) for e in forms(m.struct(k), length, f[-1] if f else None)])
            m.t.nf_descendants(tag, length)
        elif op[0] == 'drop':
            tags = sorted(m.t.buckets, key=repr)
            if tags:
                tag = tags[op[1] % len(tags)]
                m.t.discard_bucket(tag)
                del m.offered[tuple(map(canon, tag))]
                m.t.discard_bucket((987654, 3))
        elif op[0] == 'look':
            if m.t.buckets:
                df = m.t.stats()
                eq(sorted(zip(map(lambda b: tuple(map(canon, b)), df['bucket']), df['count'], df['reservoir_count'])),
                   sorted((tuple(map(canon, t)), b.size(), b.reservoir_count) for t, b in m.t.buckets.items()), 'stats()')
                r = m.t.valiate_buckets()
                need(isinstance(r, str), 'valiate_buckets reports a wrong image', r)
                tags = sorted(m.t.buckets, key=repr)
                tag = tags[op[1] % len(tags)]
                bs, imgs = m.t.bucket_braids_images(tag)
                h = m.t.hash_bucket(tag)
                eq(sorted(map(repr, (b for g in h.values() for b in g))), sorted(map(repr, bs)), 'hash_bucket keeps every braid', tag)
                df = m.t.bucket_stats(tag)
                eq(list(df['braid']), list(bs), 'bucket_stats', tag)
                eq([int(x) for x in df['projlen']], [R.spread(m.image(type(b).__name__, (b.power, tuple(b.factors)))) for b in bs], 'bucket_stats projlen', tag)
                eq([int(x) for x in df['length']], [len(b.factors) for b in bs], 'bucket_stats length', tag)
                if 'nz_terms' in df:
                    eq([int(x) for x in df['nz_terms']], [sum(len(q) for q in m.image(type(b).__name__, (b.power, tuple(b.factors))).values()) for b in bs], 'bucket_stats nz_terms', tag)
        m.check(op[0])


@contract
def tr_keys(keys):
    from peyl import JonesCellRep
    if 'L' in keys and 'P' in keys:
        return 'trivial'
    refuses((AssertionError, ValueError), lambda: BK.Tracker(rep=JonesCellRep(3, 1, 0), bucket_capacity=3, bucket_braidstats=[STATS[k] for k in keys], other_braidstats=[]), 'bucket keys', keys)


@contract
def bk_bucket(capacity, k):
    """The bucket itself: appending beyond the capacity, or replacing a slot that is not there, is refused."""
    b = BK.Bucket.create((1, 1), capacity, (1, 1, 1), np.int64)
    br = [GNF(3, i, ()) for i in range(k)]
    for i in range(k):
        img = np.full((1, 1, 1), i + 1)
        if i < capacity:
            need(not b.is_full(), 'full too early')
            eq(b.append_braid(br[i], img, float(i)), i, 'index of the braid appended')
        else:
            need(b.is_full(), 'not full')
            refuses((ValueError,), lambda: b.append_braid(br[i], img, float(i)), 'append to a full bucket')
    s = min(k, capacity)
    eq((b.size(), b.is_full()), (s, s == capacity), 'size')
    for j in (-1, s, s + 1):
        refuses((ValueError,), lambda: b.replace_braid(j, GNF(3, 77, ()), np.full((1, 1, 1), 9), 5.0), 'replacing a slot that is not filled')
    if s:
        b.replace_braid(s - 1, GNF(3, 77, ()), np.full((1, 1, 1), 9), 5.0)
        bs, im = b.braids_images()
        eq(list(bs), br[:s - 1] + [GNF(3, 77, ())], 'after replacing')
        eq([int(x) for x in im.ravel()], list(range(1, s)) + [9], 'images after replacing')


def run(ctx):
    for keys in ['', 'L', 'P', 'K', 'LK', 'PZ', 'PL', 'LP']:
        ctx.do(tr_keys, keys)
    for cap in (1, 2, 3, 5):
        for k in range(0, 8):
            ctx.do(bk_bucket, cap, k)
    R3 = [('jones', 3, 1, 0), ('jones', 3, 1, 2), ('jones', 3, 1, 3), ('jones', 4, 1, 2), ('jones', 4, 2, 0), ('jones', 4, 2, 5), ('jones', 4, 1, 3), ('jones', 5, 1, 3), ('jones', 3, 0, 0), ('jones', 4, 1, 0)]
    POL = ['GreedyFirst', 'Uniform', 'AChao', 'EvictMin']
    for pol in POL:
        for desc in R3[:7]:
            for kind in CLS:
                ctx.do(tr_history, desc, kind, 1000, 'LP', pol, False, 1, (('boot', kind, 2), ('look', 0), ('desc', 1, 1), ('desc', 0, 2), ('look', 1)))
                ctx.do(tr_history, desc, kind, 3, 'LP', pol, True, 2, (('boot', kind, 2), ('look', 0), ('desc', 0, 1), ('desc', 2, 1), ('look', 1)))

    # coefficients beyond 32 bits (the integer representations are kept in 64 bits), in a stored image and in a product with a suffix
    for pol in ('GreedyFirst', 'EvictMin'):
        for desc in (('jones', 3, 1, 0), ('jones', 4, 1, 0)):
            for kind in CLS:
                S = O.struct(kind, desc[1])
                xs = tuple((p, S.rand_nf(ctx.rng, 80)) for p in (0, 1))
                xs = tuple(x for x in xs if max(abs(c) for q in R.oracle(desc).braid(S, x).values() for c in q.values()) < 2 ** 56)
                ctx.do(tr_history, desc, kind, 5, 'LP', pol, False, 1, (('add', kind, xs), ('look', 0), ('desc', 0, 1)))

    def once(r):
        desc = r.choice(R3)
        n = desc[1]
        kind = r.choice(['GNF', 'DGNF'])
        keys = r.choice(['LP', 'PL', 'KLP', 'LPK', 'LPZ', 'ZPL'])
        ops = []
        for _ in range(r.randint(1, 7)):
            o = r.random()
            k = kind if 'K' not in keys else r.choice(['GNF', 'DGNF'])
            S = O.struct(k, n)
            if o < .2:
                ops.append(('boot', k, r.choice([0, 1, 1, 2] if n <= 4 else [0, 1])))
            elif o < .5:
                xs = []
                for _ in range(r.choice([1, 1, 2, 5, 12])):
                    xs.append((r.choice([0, 0, 1, -1, 2, r.randint(-6, 6)]), S.rand_nf(r, r.choice([0, 1, 1, 2, 3, 5]))))
                if r.random() < .3:
                    xs += xs[:2]
                ops.append(('add', k, tuple(xs)))
            elif o < .8:
                ops.append(('desc', r.randrange(50), r.choice([1, 1, 1, 2, 0] if n <= 3 else [1, 1, 0])))
            elif o < .9:
                ops.append(('drop', r.randrange(50)))
            else:
                ops.append(('look', r.randrange(50)))
        ops.append(('look', r.randrange(50)))
        ctx.do(tr_history, desc, kind, r.choice([1, 1, 2, 3, 5, 10, 1000]), keys, r.choice(POL), r.random() < .6, r.randrange(10 ** 6), tuple(ops))
    ctx.loop(12, once)
