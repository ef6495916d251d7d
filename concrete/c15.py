"""C15: the keeping policies of the two search trackers.  Deterministic rules are compared exactly; replacement
probabilities are measured over many independent buckets fed in lock step (fixed seed, 6-sigma tolerance)."""
import collections, math, random
import numpy as np
from rt import *
from c01 import mk
import braidor as O
import repor as R
from peyl import bucketing as BK, braidsearch as BS
from peyl.braid import GNF

Stats = BK.Stats
IMG = np.ones((1, 1, 1), dtype=np.int64)


class Which(BK.BraidStatBase):
    """Splits the stream into independent buckets (the power encodes (item, bucket, weight))."""
    name = 'which'

    @staticmethod
    def calculate(rep, braids, images):
        return [b.power % 100000 for b in braids]


class W(BK.BraidStatBase):
    name = 'w'
    table = {}

    @staticmethod
    def calculate(rep, braids, images):
        return [W.table[b.power] for b in braids]


def tracker(policy, capacity, buckets, seed):
    rep = R.make(('jones', 3, 0, 0))
    return BK.Tracker(rep=rep, bucket_capacity=capacity, bucket_braidstats=[Stats.CanonicalLength, Stats.ProjectiveLength, Which], other_braidstats=[], reservoir_method=policy,
                      reservoir_weight=W, rand=random.Random(seed))


def feed(t, step, buckets, weight):
    bs = [GNF(3, step * 100000 + j, ()) for j in range(buckets)]
    for b in bs:
        W.table[b.power] = weight
    t.add_braids_images(bs, np.broadcast_to(IMG, (buckets, 1, 1, 1)).copy())


def held(t, j):
    b = t.buckets[0, 1, j]
    return [x.power // 100000 for x in b.braids_images()[0]]


@contract
def pol_stream(policy, capacity, weights, seed, split):
    """One stream into one bucket; the calls are split as given."""
    W.table = {i: float(w) for i, w in enumerate(weights)}
    t = BK.Tracker(rep=R.make(('jones', 3, 0, 0)), bucket_capacity=capacity, bucket_braidstats=[Stats.CanonicalLength, Stats.ProjectiveLength], other_braidstats=[],
                   reservoir_method=policy, reservoir_weight=W, rand=random.Random(seed))
    i, prev = 0, []
    n = len(weights)
    while i < n:
        k = min(n - i, split[i % len(split)])
        t.add_braids_images([GNF(3, x, ()) for x in range(i, i + k)], np.ones((k, 1, 1, 1), dtype=np.int64) * np.arange(i + 1, i + k + 1)[:, None, None, None])
        i += k
        b = t.buckets[0, 1]
        bs, imgs = b.braids_images()
        got = [x.power for x in bs]
        need(len(got) == min(i, capacity), policy, ': holds', len(got), 'of', i, 'items offered, capacity', capacity)
        need(len(set(got)) == len(got) and set(got) <= set(range(i)), policy, ': holds', got, 'after', i, 'items')
        eq([int(x) for x in imgs.ravel()], [x + 1 for x in got], policy, ': image beside another braid')
        eq([float(x) for x in b.weights[:len(got)]], [W.table[x] for x in got], policy, ': weight beside another braid')
        eq(b.reservoir_count, i, policy, ': items seen')
        # an item, once in a slot, stays in its slot until it is replaced by a later one
        for s, (x, y) in enumerate(zip(prev, got)):
            need(x == y or y >= i - k, policy, ': slot', s, 'went from', x, 'to the older item', y)
        if policy == 'GreedyFirst':
            eq(got, list(range(min(i, capacity))), 'the first items in their order')
        if policy == 'EvictMin':
            eq(sorted(W.table[x] for x in got), sorted(W.table[x] for x in range(i))[-len(got):], 'EvictMin keeps the items of highest weight', weights[:i])
        prev = got


def zcheck(hits, trials, p, *what):
    if p in (0, 1):
        return need(hits == trials * p, *what, f': {hits} of {trials}, stated probability {p}')
    s = math.sqrt(trials * p * (1 - p))
    need(abs(hits - trials * p) <= 6 * s + 1, *what, f': {hits} of {trials}, stated probability {p:.4f} (expected {trials * p:.0f} +- {s:.0f})')


@contract
def pol_probability(policy, capacity, weights, buckets, seed):
    """Each new item enters a full bucket with the stated probability, in a uniformly chosen slot."""
    W.table = {}
    t = tracker(policy, capacity, buckets, seed)
    tot_h = tot_e = tot_v = 0.0
    slots, nrep = collections.Counter(), 0
    for step, w in enumerate(weights):
        feed(t, step, buckets, float(w))
        if step < capacity:
            continue
        p = capacity / (step + 1) if policy == 'Uniform' else min(1.0, capacity * w / sum(weights[:step + 1]) if sum(weights[:step + 1]) else 1.0)
        hits = 0
        for j in range(buckets):
            h = held(t, j)
            if step in h:
                hits += 1
                slots[h.index(step)] += 1
                nrep += 1
        zcheck(hits, buckets, p, policy, 'item', step, 'of weights', weights, 'capacity', capacity)
        tot_h, tot_e, tot_v = tot_h + hits, tot_e + p * buckets, tot_v + p * (1 - p) * buckets
    need(abs(tot_h - tot_e) <= 6 * math.sqrt(tot_v) + 1, policy, f'replacements over the whole stream {tot_h}, expected {tot_e:.0f} +- {math.sqrt(tot_v):.0f}', 'capacity', capacity)
    for s in range(capacity):
        zcheck(slots[s], nrep, 1 / capacity, policy, 'choice of slot', s)
    if policy == 'Uniform':      # every item of the stream is equally likely to be held at the end
        n = len(weights)
        cnt = collections.Counter(x for j in range(buckets) for x in held(t, j))
        for i in range(n):
            zcheck(cnt[i], buckets, min(1, capacity / n), policy, 'final share of item', i)


# ---- braidsearch.Tracker
def bs_tracker(size, rand, crit=None):
    return BS.Tracker(R.make(('summand', 3, 0, 0)), size, ('length', 'projlen'), crit or (lambda s: [True] * len(s)), rand=rand)


@contract
def bs_stream(size, items, seed, split):
    """items: powers of Delta (repeats allowed).  Without a random source: the first distinct ones."""
    t = bs_tracker(size, random.Random(seed) if seed is not None else None)
    i = 0
    while i < len(items):
        k = min(len(items) - i, split[i % len(split)])
        t.add_braids_images([GNF(3, x, ()) for x in items[i:i + k]], np.ones((k, 1, 1, 1), dtype=np.int64) * np.array(items[i:i + k])[:, None, None, None])
        i += k
        (key,) = t.buckets
        bs, imgs = t.bucket_braids_images(key)
        got = [b.power for b in bs]
        first = list(dict.fromkeys(items[:i]))
        need(len(got) <= size, 'holds', len(got), 'items, capacity', size)
        eq([int(x) for x in imgs.ravel()], got, 'image beside another braid')
        need(set(got) <= set(items[:i]), 'holds', got)
        eq(t.bucket_reservoir_counts[key], i, 'items seen')
        if seed is None:
            eq(got, first[:size], 'the first distinct items')
        else:
            eq(len(got), min(size, len(first)), 'slots filled')


@contract
def bs_probability(size, n, buckets, seed):
    """With a random source: each of the n distinct items is held with probability size / n."""
    rnd = random.Random(seed)
    cnt = collections.Counter()
    last = collections.Counter()
    for j in range(buckets):
        t = bs_tracker(size, rnd)
        t.add_braids_images([GNF(3, x + 1, ()) for x in range(n)], np.ones((n, 1, 1, 1), dtype=np.int64))
        (key,) = t.buckets
        got = [b.power - 1 for b in t.bucket_braids_images(key)[0]]
        need(len(set(got)) == len(got) == min(size, n), 'holds', got)
        cnt.update(got)
        if n - 1 in got:
            last[got.index(n - 1)] += 1
    for i in range(n):
        zcheck(cnt[i], buckets, min(1, size / n), 'reservoir: final share of item', i, 'of', n, 'capacity', size)
    if n > size:
        for s in range(size):
            zcheck(last[s], sum(last.values()), 1 / size, 'reservoir: slot of the last item', s)


def run(ctx):
    POL = ['GreedyFirst', 'Uniform', 'AChao', 'EvictMin']
    big = 8 if ctx.thorough else 1
    for cap, n, bk in ((1, 12, 1500), (2, 10, 1500), (3, 12, 1200), (5, 9, 1000)):
        ctx.do(pol_probability, 'Uniform', cap, (1,) * n, bk * big, ctx.rng.randrange(10 ** 6))
        r = ctx.rng
        ctx.do(pol_probability, 'AChao', cap, (1,) * n, bk * big, r.randrange(10 ** 6))
        ctx.do(pol_probability, 'AChao', cap, tuple(r.choice([0.5, 1, 2, 3, 4]) for _ in range(n)), bk * big, r.randrange(10 ** 6))
        ctx.do(pol_probability, 'AChao', cap, tuple(1 + i for i in range(n)), bk * big, r.randrange(10 ** 6))
        ctx.do(pol_probability, 'AChao', cap, tuple(3 if i % 2 else 0 for i in range(1, n + 1)), bk * big, r.randrange(10 ** 6))
        ctx.do(pol_probability, 'Uniform', cap, tuple(1 + i % 3 for i in range(n)), bk * big, r.randrange(10 ** 6))
        ctx.do(bs_probability, cap, n - 2, 250 * big, r.randrange(10 ** 6))

    def once(r):
        n = r.choice([1, 2, 3, 5, 8, 13, 30, 60])
        mode = r.random()
        w = [r.choice([1, 2, 3]) if mode < .4 else r.random() * 10 if mode < .8 else 1.0 for _ in range(n)]
        if mode > .95:
            w = [0.0] * n
        elif r.random() < .2:
            w.sort(reverse=r.random() < .5)
        split = tuple(r.choice([1, 1, 2, 3, 7, 100]) for _ in range(5))
        for pol in POL:
            ctx.do(pol_stream, pol, r.choice([1, 2, 3, 4, 7, 10, 100]), tuple(w), r.randrange(10 ** 6), split)
        ctx.do(bs_stream, r.choice([1, 2, 3, 5, 10, 40]), tuple(r.randint(1, r.choice([3, 10, 50])) for _ in range(r.choice([1, 2, 5, 9, 20]))), r.choice([None, r.randrange(10 ** 6)]), split)
    ctx.loop(8, once)
