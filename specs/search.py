"""Contracts for peyl/bucketing.py: what the bucket search keeps.

A braid and an image are opaque tokens (the code under contract never looks inside them: anything that would is outside
the subset), so what is proved holds for them as occurrences in the stream of items offered, equal or not:

  LEN(b) the canonical length, PLEN(x), NZT(x) the projective length and number of terms of an image,
  CUT(x, s, e) the image cut to the degrees [s, e), PST(x), PEND(x) where projectivising cuts it,
  PROJ(x) = CUT(x, PST(x), PEND(x)), WT(b, x) the weight of an item, D1(x), D2(x), D3(x) the shape of an image.

The buckets are a map from labels to records.  Random draws are the values of an arbitrary stream.  A heap changed by
heapq only is the bag of its items with the least one in front (heapq is trusted)."""
from __future__ import annotations
import z3
from pyvc.values import *
from pyvc.vc import Contract, Case, tobool
from pyvc import interp as I
from pyvc import invs

M = 'peyl.bucketing:'
I_, R_ = z3.IntSort(), z3.RealSort()
IV, RV = z3.IntVal, z3.RealVal
BRAID, IMG = z3.DeclareSort('BraidToken'), z3.DeclareSort('ImageToken')
F = z3.Function
LEN = F('LEN', BRAID, I_)
PLEN, NZT, PST, PEND = (F(x, IMG, I_) for x in ('PLEN', 'NZT', 'PST', 'PEND'))
D1, D2, D3 = (F(x, IMG, I_) for x in ('D1', 'D2', 'D3'))
CUT = F('CUT', IMG, I_, I_, IMG)
WT = F('WT', BRAID, IMG, R_)
TAG, mk, (t_len, t_plen, t_more) = z3.TupleSort('Label', [I_, I_, I_])      # the third number is 0 when there is no third
AI = z3.ArraySort(I_, I_)
BAG = z3.ArraySort(R_, I_, I_)
MINW, MINI = F('MINW', BAG, R_), F('MINI', BAG, I_)
RND, RNI = F('RND', I_, R_), F('RNI', I_, I_, I_, I_)
OFF = F('OFF', TAG, BRAID, IMG, R_, z3.BoolSort())      # offered, under a label


def PROJ(x):
    return CUT(x, PST(x), PEND(x))


class Token(Model):
    """A braid or an image."""
    def __init__(self, t):
        self.t = t

    def type(self):
        return ('model', TokenT(type(self)))


class TokenT:
    def __init__(self, cls):
        self.cls = cls

    def __eq__(self, o):
        return isinstance(o, TokenT) and o.cls is self.cls

    def __hash__(self):
        return hash(self.cls)

    def leaf_sorts(self):
        return [self.cls.sort]

    def pack(self, v):
        if not isinstance(v, self.cls):
            raise Unsupported('another kind of value')
        return [v.t]

    def unpack(self, it):
        return self.cls(next(it))


class Braid(Token):
    tname, sort = 'braid', BRAID

    def getattr(self, ex, name):
        if name in ('canonical_length', 'garside_length'):
            return Fn(lambda ex: LEN(self.t), name)
        from specs import rep
        r = rep.braid_attr(self, ex, name)
        if r is not None:
            return r
        raise Unsupported(f'attribute {name} of a braid')


class Img(Token):
    tname, sort = 'image', IMG

    def dims(self):
        return D1(self.t), D2(self.t), D3(self.t)

    def getattr(self, ex, name):
        if name == 'shape':
            return self.dims()
        if name == 'dtype':
            return DTYPE
        raise Unsupported(f'attribute {name} of an image')

    def binop(self, ex, op, other, swapped):
        from specs import rep
        return rep.modulo(ex, self, op, other, swapped)

    def getitem(self, ex, k):
        if isinstance(k, tuple) and k and k[0] is Ellipsis:
            k = k[1:]
            full = lambda s: isinstance(s, SliceV) and s.lo is None and s.hi is None and s.step is None
            while len(k) > 1 and full(k[0]):
                k = k[1:]
            if len(k) == 1 and isinstance(k[0], SliceV) and k[0].step in (None, 1) and k[0].lo is not None and k[0].hi is not None:
                lo, hi = to_int(k[0].lo), to_int(k[0].hi)
                ex.check(z3.And(0 <= lo, lo <= hi, hi <= D3(self.t)), 'degrees within the image', 'safe')
                r = CUT(self.t, lo, hi)
                ex.assume(z3.And(D1(r) == D1(self.t), D2(r) == D2(self.t), D3(r) == hi - lo))
                return Img(r)
        raise Unsupported('subscript of an image')


BT, IT = ('model', TokenT(Braid)), ('model', TokenT(Img))


class DType(Model):
    tname = 'dtype'


DTYPE = DType()


class Images(Model):
    """A batch of images of one shape."""
    tname = 'batch of images'

    def __init__(self, n, arr, dims):
        self.n, self.arr, self.dims = n, arr, dims

    def getattr(self, ex, name):
        if name == 'shape':
            return (self.n,) + self.dims
        if name == 'dtype':
            return DTYPE
        raise Unsupported(f'attribute {name} of a batch')

    def type(self):
        from specs import rep
        return ('model', rep.ImagesT())

    def binop(self, ex, op, other, swapped):
        from specs import rep
        return rep.modulo(ex, self, op, other, swapped)

    def length(self, ex):
        return self.n

    def at(self, i):
        return Img(self.arr[i])

    def getitem(self, ex, k):
        rest = ()
        if isinstance(k, tuple):
            k, rest = k[0], k[1:]
        if not is_int(k):
            raise Unsupported('subscript of a batch')
        r = self.at(to_int(ex.norm_index(k, self.n, 'image')))
        return r if not rest else r.getitem(ex, rest if rest[0] is Ellipsis else (Ellipsis,) + rest)

    def iter(self, ex):
        return Iter(self.n, self.at)

    def per_image(self, f):
        return SSeq(INT, self.n, (z3.Map(f, self.arr),), 'tuple')


class Zeros(Model):
    """numpy.zeros: the contents do not matter."""
    tname = 'new array'

    def __init__(self, shape):
        self.shape = shape


class Rand(Model):
    """A source of random numbers: the draws are those of an arbitrary stream."""
    tname = 'random source'

    def __init__(self, c):
        self.c, self.log = c, []
        self.birth = next(I.V._birth)

    def havoc(self, ex, tag, fields):
        self.c = ex.fresh('draws' + tag, I_)
        self.log = None

    def snapshot(self):
        return self.c

    def draw(self, ex, *what):
        ex.mutate(self, 'c')
        c = self.c
        self.c = z3.simplify(c + 1)
        if self.log is not None:
            self.log = self.log + [what + (c,)]
        return c

    def getattr(self, ex, name):
        def random(ex):
            u = RND(self.draw(ex, 'random'))
            ex.assume(z3.And(u >= 0, u < 1))
            return u

        def randrange(ex, a, b=None, last=0):
            a, b = (0, a) if b is None else (a, b)
            a, b = to_int(a), z3.simplify(to_int(b) + last)
            ex.check(a < b, f'a choice among at least one (line {ex.line})', 'safe')
            v = RNI(self.draw(ex, 'randrange', a, b), a, b)
            ex.assume(z3.And(v >= a, v < b))
            return v
        def choice(ex, xs):
            s = as_sseq(ex.as_seq(xs))
            return s.get(randrange(ex, to_int(s.n)))
        if name == 'random':
            return Fn(random, name)
        if name == 'choice':
            return Fn(choice, name)
        if name == 'randrange':
            return Fn(randrange, name)
        if name == 'randint':
            return Fn(lambda ex, a, b: randrange(ex, a, b, 1), name)
        raise Unsupported(f'{name} of a random source')


# ---- the buckets
FIELDS = dict(has=z3.BoolSort(), tag=TAG, capacity=I_, n=I_, braids=z3.ArraySort(I_, BRAID), images=z3.ArraySort(I_, IMG),
              weights=z3.ArraySort(I_, R_), alloc=I_, walloc=I_, d1=I_, d2=I_, d3=I_, count=I_, weight=R_, heapn=I_, bag=BAG)


def tag_of(k):
    if isinstance(k, SSeq) or isinstance(k, LObj):
        raise Unsupported('label of unknown length')
    if isinstance(k, tuple) and 2 <= len(k) <= 3 and all(is_int(x) for x in k):
        return mk(*[to_int(x) for x in k], *[IV(0)] * (3 - len(k)))
    if is_z3(k) and k.sort() == TAG:
        return k
    raise Unsupported('label')


class TagVal(Model):
    tname = 'label'

    def __init__(self, t):
        self.t = t


class State:
    def __init__(self, st):
        self.st = st

    def __getattr__(self, f):
        return self.__dict__['st'][f]


class Store(Model):
    """Maps with labels as keys."""
    fields = {}

    def __init__(self, ex, st=None):
        self.st = st or {f: ex.fresh('S' + f, z3.ArraySort(TAG, s)) for f, s in self.fields.items()}
        self.birth, self.names = next(I.V._birth), {}

    def havoc(self, ex, tag, fields):
        for f in fields:
            self.st = {**self.st, f: ex.fresh('S' + f + tag, z3.ArraySort(TAG, self.fields[f]))}

    def snapshot(self):
        return State(dict(self.st))

    def now(self, ex):
        """The state, with a name for every field."""
        out = {}
        for f, v in self.st.items():
            if not z3.is_const(v):
                if f not in self.names or not z3.eq(self.names[f][0], v):
                    c = ex.fresh('N' + f, v.sort())
                    self.names[f] = (v, c)
                ex.assume(self.names[f][1] == v)
                v = self.names[f][1]
            out[f] = v
        return State(out)

    def put(self, ex, t, f, v):
        ex.mutate(self, f)
        self.st = {**self.st, f: z3.Store(self.st[f], t, v)}


class Buckets(Store):
    tname = 'map of buckets'
    fields = FIELDS

    def contains(self, ex, k):
        return self.st['has'][tag_of(k)]

    def getitem(self, ex, k):
        t = tag_of(k)
        if not ex.branch(self.st['has'][t]):
            raise PyRaise('KeyError', line=ex.line)
        return Ref(self, t)

    def delitem(self, ex, k):
        t = tag_of(k)
        if not ex.branch(self.st['has'][t]):
            raise PyRaise('KeyError', line=ex.line)
        self.put(ex, t, 'has', z3.BoolVal(False))

    def getattr(self, ex, name):
        if name == 'get':
            return Fn(lambda ex, k, d=None: Ref(self, tag_of(k)) if ex.branch(self.st['has'][tag_of(k)]) else d, 'get')
        if name == 'pop':
            def pop(ex, k, *d):
                if d and not ex.branch(self.st['has'][tag_of(k)]):
                    return d[0]
                r = self.getitem(ex, k)
                self.delitem(ex, k)
                return None             # the record is not used afterwards
            return Fn(pop, 'pop')
        if name == 'setdefault':
            def setdefault(ex, k, v):
                if ex.branch(self.st['has'][tag_of(k)]):
                    return Ref(self, tag_of(k))
                self.setitem(ex, k, v)
                return Ref(self, tag_of(k))
            return Fn(setdefault, 'setdefault')
        raise Unsupported(f'{name} of the map of buckets')

    def setitem(self, ex, k, o):
        t = tag_of(k)
        if not (isinstance(o, Obj) and o.cls.name == 'Bucket' and o.alias is None):
            raise Unsupported('not a new bucket')
        f = o.fields
        br, im, w, hp = f['braids'], f['images'], f['weights'], f['heap']
        if not (isinstance(br, LObj) and isinstance(hp, LObj) and isinstance(im, Zeros) and isinstance(w, Zeros) and len(im.shape) == 4
                and len(w.shape) == 1 and not isinstance(hp.val, SSeq) and not hp.val):
            raise Unsupported('a bucket of another shape')
        s = as_sseq(br)
        s = as_sseq(s, BT) if s.et is None else s
        new = dict(has=z3.BoolVal(True), tag=tag_of(f['tag']), capacity=to_int(f['capacity']), n=to_int(s.n), braids=s.arrs[0],
                   images=ex.fresh('zeros', FIELDS['images']), weights=z3.K(I_, RV(0)), alloc=to_int(im.shape[0]), walloc=to_int(w.shape[0]),
                   d1=to_int(im.shape[1]), d2=to_int(im.shape[2]), d3=to_int(im.shape[3]), count=to_int(f['reservoir_count']),
                   weight=to_real(f['reservoir_weight']), heapn=IV(0), bag=EMPTY)
        for x, v in new.items():
            self.put(ex, t, x, v)
        o.alias = Ref(self, t)
        br.derived = hp.derived = True


EMPTY = z3.Const('EMPTYBAG', BAG)       # constrained by bag_axioms


class Ref(Model):
    """The bucket with a label."""
    tname = 'bucket'
    SCALARS = dict(capacity='capacity', reservoir_count='count', reservoir_weight='weight')

    def __init__(self, store, t):
        self.store, self.t = store, t

    def children(self):
        return (self.store,)

    def get(self, f):
        return self.store.st[f][self.t]

    def put(self, ex, f, v):
        self.store.put(ex, self.t, f, v)

    def getattr(self, ex, name):
        if name in self.SCALARS:
            return self.get(self.SCALARS[name])
        if name == 'tag':
            return TagVal(self.get('tag'))
        if name in ('braids', 'images', 'weights', 'heap'):
            return dict(braids=Braids, images=Rows, weights=Weights, heap=Heap)[name](self)
        cls = ex.repo.modules['peyl.bucketing'].globals['Bucket']
        return ex.class_attr(cls, name, self)

    def setattr(self, ex, name, v):
        if name in self.SCALARS:
            self.put(ex, self.SCALARS[name], to_real(v) if name == 'reservoir_weight' else to_int(v))
            return
        raise Unsupported(f'store to {name} of a bucket')

    def isinstance(self, ex, what):
        return getattr(what, 'name', None) == 'Bucket'


class Part(Model):
    def __init__(self, ref):
        self.ref = ref

    def children(self):
        return (self.ref,)


class Braids(Part):
    tname = 'braids of a bucket'

    def length(self, ex):
        return self.ref.get('n')

    def seq(self):
        return SSeq(BT, self.ref.get('n'), (self.ref.get('braids'),), 'list')

    def iter(self, ex):
        s = self.seq()
        return Iter(s.n, s.get)

    def truth(self, ex):
        return self.ref.get('n') > 0

    def getitem(self, ex, k):
        return ex.getitem(self.seq(), k)

    def setitem(self, ex, k, v):
        if not isinstance(v, Braid):
            raise Unsupported('not a braid')
        j = ex.norm_index(k, self.ref.get('n'), 'slot')
        self.ref.put(ex, 'braids', z3.Store(self.ref.get('braids'), to_int(j), v.t))

    def append(self, ex, v):
        if not isinstance(v, Braid):
            raise Unsupported('not a braid')
        n = self.ref.get('n')
        self.ref.put(ex, 'braids', z3.Store(self.ref.get('braids'), n, v.t))
        self.ref.put(ex, 'n', n + 1)

    def getattr(self, ex, name):
        if name == 'append':
            return Fn(lambda ex, v: self.append(ex, v), 'append')
        raise Unsupported(f'{name} of the braids of a bucket')

    def inplace(self, ex, op, other):
        if op == 'Add':
            l = ex.concrete_list(other)
            if l is not None:
                for v in l:
                    self.append(ex, v)
                return self
        raise Unsupported(f'operator {op} on the braids of a bucket')


class Rows(Part):
    tname = 'images of a bucket'

    def dims(self):
        return tuple(self.ref.get(x) for x in ('d1', 'd2', 'd3'))

    def length(self, ex):
        return self.ref.get('alloc')

    def getattr(self, ex, name):
        if name == 'shape':
            return (self.ref.get('alloc'),) + self.dims()
        if name == 'dtype':
            return DTYPE
        raise Unsupported(f'{name} of the images of a bucket')

    def getitem(self, ex, k):
        if isinstance(k, tuple) and len(k) == 2 and k[1] is Ellipsis:
            k = k[0]
        if isinstance(k, SliceV):
            if k.lo not in (None, 0) or k.step is not None:
                raise Unsupported('slice of the images of a bucket')
            n = self.ref.get('alloc') if k.hi is None else to_int(k.hi)
            ex.check(z3.And(n >= 0, n <= self.ref.get('alloc')), 'slots of the bucket', 'safe')
            return Images(n, self.ref.get('images'), self.dims())
        return Img(self.ref.get('images')[to_int(ex.norm_index(k, self.ref.get('alloc'), 'slot'))])

    def setitem(self, ex, k, v):
        full = lambda s: s is Ellipsis or (isinstance(s, SliceV) and s.lo is None and s.hi is None and s.step is None)
        if isinstance(k, tuple) and k and all(full(s) for s in k[1:]):
            k = k[0]
        if not isinstance(v, Img) or not is_int(k):
            raise Unsupported('store to the images of a bucket')
        j = to_int(ex.norm_index(k, self.ref.get('alloc'), 'slot'))
        ex.check(z3.And(*[a == b for a, b in zip(v.dims(), self.dims())]), f'the image has the shape of those in the bucket (line {ex.line})', 'safe')
        self.ref.put(ex, 'images', z3.Store(self.ref.get('images'), j, v.t))


class Weights(Part):
    tname = 'weights of a bucket'

    def length(self, ex):
        return self.ref.get('walloc')

    def getitem(self, ex, k):
        return self.ref.get('weights')[to_int(ex.norm_index(k, self.ref.get('walloc'), 'slot'))]

    def setitem(self, ex, k, v):
        if not is_int(k):
            raise Unsupported('store to the weights of a bucket')
        j = to_int(ex.norm_index(k, self.ref.get('walloc'), 'slot'))
        self.ref.put(ex, 'weights', z3.Store(self.ref.get('weights'), j, to_real(v)))


def at(bag, w, i):
    return z3.Select(bag, w, i)


def least(b):
    """Facts about the least item of a bag that is not empty and finite."""
    w, i = z3.Real('w!hp'), z3.Int('i!hp')
    return [at(b, MINW(b), MINI(b)) >= 1,
            z3.ForAll([w, i], z3.Implies(at(b, w, i) >= 1, z3.Or(MINW(b) < w, z3.And(MINW(b) == w, MINI(b) <= i))), patterns=[at(b, w, i)])]


class Heap(Part):
    """A list changed through heapq only."""
    tname = 'heap'

    def length(self, ex):
        return self.ref.get('heapn')

    def truth(self, ex):
        return self.ref.get('heapn') > 0

    def least(self, ex):
        ex.check(self.ref.get('heapn') > 0, f'the heap is not empty (line {ex.line})', 'safe')
        b = self.ref.get('bag')
        for f in least(b):
            ex.assume(f)
        return MINW(b), MINI(b)

    def getitem(self, ex, k):
        if not (isinstance(k, int) and k == 0):
            raise Unsupported('an item of a heap other than the first')
        return self.least(ex)

    def push(self, ex, x):
        if not (isinstance(x, tuple) and len(x) == 2):
            raise Unsupported('item of a heap')
        b, w, i = self.ref.get('bag'), to_real(x[0]), to_int(x[1])
        self.ref.put(ex, 'bag', z3.Store(b, w, i, at(b, w, i) + 1))
        self.ref.put(ex, 'heapn', self.ref.get('heapn') + 1)

    def pop(self, ex):
        w, i = self.least(ex)
        b = self.ref.get('bag')
        self.ref.put(ex, 'bag', z3.Store(b, w, i, at(b, w, i) - 1))
        self.ref.put(ex, 'heapn', self.ref.get('heapn') - 1)
        return w, i


def heap(v):
    if not isinstance(v, Heap):
        raise Unsupported('a heap elsewhere')
    return v


def replace(ex, h, x):
    r = heap(h).pop(ex)
    h.push(ex, x)
    return r


def zeros(ex, shape=None, dtype=None):
    if not isinstance(shape, tuple):
        shape = (shape,)
    if not all(is_int(x) for x in shape):
        raise Unsupported('shape')
    for x in shape:
        ex.check(to_int(x) >= 0, f'a size is not negative (line {ex.line})', 'safe')
    return Zeros(shape)


EXTERNALS = {
    'heapq.heappush': Fn(lambda ex, h, x: heap(h).push(ex, x), 'heappush'),
    'heapq.heappop': Fn(lambda ex, h: heap(h).pop(ex), 'heappop'),
    'heapq.heapreplace': Fn(replace, 'heapreplace'),
    'numpy.zeros': Fn(zeros, 'zeros'),
    'numpy.float64': DTYPE,
}


class PerImage(Case):
    """polymat.projlen and nz_terms of a batch: decided by check C11 on the real arrays."""
    def __init__(self, f):
        self.f = f

    def match(self, c, args):
        return isinstance(args[0], Images)

    def result(self, c, a):
        return a.per_image(self.f)


class StartsEnds(PerImage):
    def __init__(self):
        pass

    def result(self, c, a):
        return (a.per_image(PST), a.per_image(PEND))


class WeightStat(Model):
    """Any statistic with values in [0, infinity)."""
    tname = 'statistic'

    def getattr(self, ex, name):
        if name == 'calculate':
            def calculate(ex, rep, braids, images):
                s = as_sseq(ex.as_seq(braids))
                if s.et != BT or not isinstance(images, Images):
                    raise Unsupported('statistic of something else')
                ex.check(to_int(s.n) == to_int(images.n), 'as many braids as images', 'safe')
                return SSeq(REAL, s.n, (z3.Map(WT, s.arrs[0], images.arr),), 'list')
            return Fn(calculate, name)
        raise Unsupported(f'{name} of a statistic')


class Rep(Model):
    tname = 'representation'


# ---- the invariant of the buckets
METHODS = ('GreedyFirst', 'Uniform', 'AChao', 'EvictMin')


def every(f, *pats):
    """For every label."""
    t = z3.Const('t!tag', TAG)
    return z3.ForAll([t], f(t), patterns=[p(t) for p in pats])


def every_slot(S, f):
    t, s = z3.Const('t!tag', TAG), z3.Int('s!slot')
    return z3.ForAll([t, s], z3.Implies(z3.And(S.has[t], s >= 0, s < S.n[t]), f(t, s)),
                     patterns=[S.braids[t][s], S.images[t][s], S.weights[t][s]])


def invariant(S, method, cap, dim):
    """[(what, formula)] about the state S of the buckets."""
    out = [
        ('buckets are labelled with their label', every(lambda t: z3.Implies(S.has[t], S.tag[t] == t), lambda t: S.has[t])),
        ('buckets have the capacity', every(lambda t: z3.Implies(S.has[t], z3.And(
            S.capacity[t] == cap, S.alloc[t] == cap, S.walloc[t] == cap, S.d1[t] == dim, S.d2[t] == dim, S.d3[t] == t_plen(t))), lambda t: S.has[t])),
        ('a bucket holds as many items as it was offered, up to its capacity', every(lambda t: z3.Implies(S.has[t], z3.And(
            S.count[t] >= 1, S.n[t] == z3.If(S.count[t] <= cap, S.count[t], cap))), lambda t: S.has[t])),
        ('every item was offered to its bucket', every_slot(S, lambda t, s: OFF(t, S.braids[t][s], S.images[t][s], S.weights[t][s]))),
    ]
    if method == 'EvictMin':
        t, w, i = z3.Const('t!tag', TAG), z3.Real('w!hp'), z3.Int('i!hp')
        out += [('the heap holds the weight of every slot once', z3.ForAll([t, w, i], z3.Implies(S.has[t], at(S.bag[t], w, i) == z3.If(
            z3.And(i >= 0, i < S.n[t], S.weights[t][i] == w), IV(1), IV(0))), patterns=[at(S.bag[t], w, i)])),
            ('the heap has every slot', z3.ForAll([t, i], z3.Implies(z3.And(S.has[t], i >= 0, i < S.n[t]), at(S.bag[t], S.weights[t][i], i) == 1),
                                                  patterns=[S.weights[t][i]])),
            ('the heap is as large as the bucket', every(lambda t: z3.Implies(S.has[t], S.heapn[t] == S.n[t]), lambda t: S.has[t]))]
    return out


def bag_axioms():
    w, i = z3.Real('w!hp'), z3.Int('i!hp')
    return [z3.ForAll([w, i], at(EMPTY, w, i) == 0, patterns=[at(EMPTY, w, i)])]


class Tracked(Case):
    method = 'GreedyFirst'
    weighted = False
    more = False
    mod = 'peyl.bucketing'

    def cls(self, c, name):
        return c.repo.modules[self.mod].globals[name]

    def tracker(self, c):
        cap, dim = c.fresh('cap', I_), c.fresh('dim', I_)
        c.assume(z3.And(cap >= 1, dim >= 1))
        store, rand = Buckets(c), Rand(c.fresh('draws', I_))
        c.ghost.update(cap=cap, dim=dim, store=store, rand=rand)
        c.ghost['old'] = old = store.snapshot()
        for f in bag_axioms():
            c.assume(f)
        for nm, f in self.inv(c, old):
            c.assume(f)
        stats = self.stats(c)
        return Obj(self.cls(c, 'Tracker'), dict(
            rep=Rep(), bucket_capacity=cap, bucket_braidstats=LObj(stats), other_braidstats=LObj([]), buckets=store,
            reservoir_weight_braidstat=WeightStat() if self.weighted else None, reservoir_method=self.method, rand=rand, suffix_cache=None))

    def stats(self, c):
        S = self.cls(c, 'Stats')
        st = lambda x: c.class_attr(S, x, None)
        return [st('CanonicalLength'), st('ProjectiveLength')] + ([st('NonzeroTerms')] if self.more else [])

    def inv(self, c, S):
        return invariant(S, self.method, c.ghost['cap'], c.ghost['dim'])

    def post(self, c, r, *a):
        return self.inv(c, c.ghost['store'].now(c))


class Add(Tracked):
    """add_braids_images(self, braids, images)"""
    def __init__(self, method, weighted, more=False):
        self.method, self.weighted, self.more = method, weighted, more
        self.name = f'{method}, {"weighted" if weighted else "unweighted"}, {3 if more else 2} statistics, any batch'

    def size(self, c):
        n = c.fresh('items', I_)
        c.assume(n >= 0)
        return n

    def params(self, c):
        t = self.tracker(c)
        n = self.size(c)
        dim, w = c.ghost['dim'], c.fresh('width', I_)
        b, x = c.fresh('B', z3.ArraySort(I_, BRAID)), c.fresh('X', z3.ArraySort(I_, IMG))
        c.ghost.update(items=n, B=b, X=x)
        i = z3.Int('i!it')
        item = z3.And(D1(x[i]) == dim, D2(x[i]) == dim, D3(x[i]) == w, 0 <= PST(x[i]), PST(x[i]) <= PEND(x[i]), PEND(x[i]) <= w,
                      PLEN(x[i]) == PEND(x[i]) - PST(x[i]), WT(b[i], x[i]) >= 0)
        c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < to_int(n)), item), patterns=[x[i]]))
        c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < to_int(n)), self.offered(c, i)), patterns=[x[i], b[i]]))
        return [t, LObj(SSeq(BT, n, (b,), 'list')), Images(n, x, (dim, dim, w))]

    def item(self, c, i):
        """label, braid, image stored and weight of the i-th item of the batch"""
        b, x = c.ghost['B'][i], c.ghost['X'][i]
        return mk(LEN(b), PLEN(x), NZT(x) if self.more else IV(0)), b, PROJ(x), WT(b, x) if self.weighted else RV(1)

    def offered(self, c, i):
        return OFF(*self.item(c, i))

    def index(self, ex, view):
        """The item that the iteration deals with, and what is left to show about the choice of items."""
        return (view.k, []) if ex.provable(view.n == to_int(ex.ghost['items'])) is True else None

    def policy(self, c, O, S, k, log):
        """[(what, formula)]: the state is S after item k is offered in state O, with the random choices in log."""
        cap = c.ghost['cap']
        t, b, x, w = self.item(c, k)
        had = O.has[t]
        n0, c0, w0 = z3.If(had, O.n[t], IV(0)), z3.If(had, O.count[t], IV(0)), z3.If(had, O.weight[t], RV(0))
        keep = [f for f in FIELDS if f not in ('heapn', 'bag')] + (['heapn', 'bag'] if self.method == 'EvictMin' else [])
        u, s = z3.Const('u!tag', TAG), z3.Int('s!slot')
        out = [('other buckets are as they were', z3.ForAll([u], z3.Implies(u != t, z3.And(*[
            S.st[f][u] == O.st[f][u] for f in keep])), patterns=[S.st[f][u] for f in keep])),
            ('the bucket has seen one more item', z3.And(S.has[t], S.count[t] == c0 + 1, S.weight[t] == w0 + w))]
        item = lambda j: z3.And(S.braids[t][j] == b, S.images[t][j] == x, S.weights[t][j] == w)
        same = lambda but: z3.ForAll([s], z3.Implies(z3.And(had, s >= 0, s < n0, s != but), z3.And(
            S.braids[t][s] == O.braids[t][s], S.images[t][s] == O.images[t][s], S.weights[t][s] == O.weights[t][s])),
            patterns=[S.braids[t][s], S.images[t][s], S.weights[t][s]])
        room = n0 < cap
        out.append(('while there is room the item is added behind the others', z3.Implies(room, z3.And(S.n[t] == n0 + 1, item(n0), same(IV(-1))))))
        out.append(('a full bucket stays full', z3.Implies(z3.Not(room), S.n[t] == cap)))
        full = lambda f: z3.Implies(z3.Not(room), f)
        if self.method == 'GreedyFirst':
            out.append(('a full bucket is not changed', full(same(IV(-1)))))
        elif self.method == 'EvictMin':
            allw = lambda f: z3.ForAll([s], z3.Implies(z3.And(s >= 0, s < n0), f(O.weights[t][s])), patterns=[O.weights[t][s]])
            out.append(('an item no heavier than the rest is not kept', full(z3.Implies(allw(lambda v: w <= v), same(IV(-1))))))
            m, lw = MINI(O.bag[t]), O.weights[t][MINI(O.bag[t])]
            m, lw = MINI(O.bag[t]), O.weights[t][MINI(O.bag[t])]
            held = z3.And(had, O.n[t] == cap)
            for f in least(O.bag[t]):       # the heap of a full bucket is not empty and finite
                c.assume(z3.Implies(held, f))
            out.append(('one of the lightest is first in the heap', z3.Implies(held, z3.And(m >= 0, m < n0, lw == MINW(O.bag[t]), allw(lambda v: lw <= v)))))
            out.append(('a heavier item replaces it', full(z3.Implies(w > lw, z3.And(item(m), same(m))))))
        else:
            kinds = [d[0] for d in log] if log is not None else None
            if kinds == []:
                out.append(('no choice is made only while there is room', room))
            elif kinds in (['random'], ['random', 'randrange']):
                p = RND(log[0][-1])
                hit = p * z3.ToReal(c0 + 1) <= z3.ToReal(cap) if self.method == 'Uniform' else p * (w0 + w) <= z3.ToReal(cap) * w
                out.append(('the choice is made when the bucket is full', z3.Not(room)))
                out.append(('the item is taken with the probability the policy names', hit if len(kinds) == 2 else z3.Not(hit)))
                if len(kinds) == 2:
                    _, lo, hi, at_ = log[1]
                    out.append(('the slot is chosen among all of them', z3.And(lo == 0, hi == cap)))
                    out.append(('the item takes the slot chosen', z3.And(item(RNI(at_, lo, hi)), same(RNI(at_, lo, hi)))))
                else:
                    out.append(('otherwise the bucket is not changed', same(IV(-1))))
            else:
                raise Unsupported('other random choices')
        return out

    def post(self, c, r, *a):
        if not c.ghost.get('done'):
            raise Unsupported('the items are not offered one after another, each once, in one loop')
        S = c.ghost['store'].now(c)
        if any(not z3.eq(S.st[f], v) for f, v in c.ghost['last'].st.items()):
            raise Unsupported('the buckets change after the items are offered')
        return super().post(c, r, *a)


class Items:
    """The loop over the batch: each iteration offers one item as the policy says."""
    @staticmethod
    def mine(ex, view):
        g = ex.ghost
        return isinstance(ex.current_case, Add) and 'store' in g and view.n is not None and g['store'].birth in view.info.objs and \
            ex.current_case.index(ex, view) is not None

    @classmethod
    def head(cls, ex, view):
        if cls.mine(ex, view):
            g = ex.ghost
            old = view.entry.objs[g['store'].birth]
            if 'head' in g or any(not z3.eq(v, g['old'].st[f]) for f, v in old.st.items()):
                raise Unsupported('the buckets change before the items are offered')
            g['head'] = g['last'] = g['store'].now(ex)
            if isinstance(g['rand'], Rand):
                g['rand'].log = []

    @classmethod
    def end(cls, ex, vh, ve):
        if not cls.mine(ex, vh):
            return []
        g = ex.ghost
        i, more = ex.current_case.index(ex, vh)
        return more + ex.current_case.policy(ex, g['head'], g['store'].now(ex), i, g['rand'].log if isinstance(g['rand'], Rand) else None)

    @classmethod
    def exit(cls, ex, view):
        if cls.mine(ex, view):
            ex.ghost['done'] = True


def add_hints(ex, view):
    case = ex.current_case
    if not isinstance(case, Add) or 'store' not in ex.ghost or ex.ghost['store'].birth not in view.info.objs:
        return
    S = lambda: ex.ghost['store'].now(ex)
    g = ex.ghost
    for j, nm in enumerate(x for x, _ in case.inv(ex, g['old'])):
        yield nm, lambda v, j=j: case.inv(ex, S())[j][1]


class One(Add):
    """One item: exactly what happens to it, and that nothing else does."""
    def __init__(self, method, weighted, more=False):
        super().__init__(method, weighted, more)
        self.name = f'{method}, {"weighted" if weighted else "unweighted"}, {3 if more else 2} statistics, one item'

    def size(self, c):
        return 1

    def post(self, c, r, *a):
        S = c.ghost['store'].now(c)
        return Tracked.post(self, c, r, *a) + self.policy(c, c.ghost['old'], S, IV(0), c.ghost['rand'].log)


# ---- the methods of a bucket
class Method(Case):
    """A bucket somewhere in the map, holding at most its capacity."""
    must = None

    def __init__(self, what='', *args, result=None, must=None, post=None, change=None):
        self.name, self.args, self.res, self.must, self.post_, self.change = what, args, result, must, post, change

    def params(self, c):
        store = Buckets(c)
        t, cap, dim = c.fresh('t', TAG), c.fresh('cap', I_), c.fresh('dim', I_)
        O = store.snapshot()
        c.ghost.update(store=store, old=O, t=t, cap=cap)
        c.assume(z3.And(cap >= 0, dim >= 1, O.has[t], O.capacity[t] == cap, O.alloc[t] == cap, O.walloc[t] == cap, O.d1[t] == dim, O.d2[t] == dim,
                        O.d3[t] == t_plen(t), O.d3[t] >= 0, O.n[t] >= 0, O.n[t] <= cap, O.tag[t] == t))
        out = [Ref(store, t)]
        for a in self.args:
            if a == 'image':
                x = c.fresh('x', IMG)
                c.assume(z3.And(D1(x) == dim, D2(x) == dim, D3(x) == t_plen(t)))
                out.append(Img(x))
            elif a == 'braid':
                out.append(Braid(c.fresh('b', BRAID)))
            else:
                out.append(c.fresh(a, R_ if a == 'weight' else I_))
        return out

    def must_raise(self, c, ref, *a):
        return [self.must(c.ghost['old'], c.ghost['t'], *a)] if self.must else []

    def post(self, c, r, ref, *a):
        O, S, t = c.ghost['old'], c.ghost['store'].now(c), c.ghost['t']
        new = self.change(O, t, *a) if self.change else {}
        u = z3.Const('u!tag', TAG)
        out = [('other buckets are as they were', z3.ForAll([u], z3.Implies(u != t, z3.And(*[S.st[f][u] == O.st[f][u] for f in FIELDS])), patterns=[S.st[f][u] for f in FIELDS])),
               ('the rest of the bucket is as it was', z3.And(*[S.st[f][t] == O.st[f][t] for f in FIELDS if f not in new]))]
        out += [(f'{f} changes as it should', S.st[f][t] == v) for f, v in new.items()]
        if self.res:
            if r is None:
                raise Unsupported('no result')
            out.append(('result', self.res(O, t, r, *a)))
        return out


class Contents(Method):
    """braids_images(self)"""
    def post(self, c, r, ref):
        if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], Images)):
            raise Unsupported('another result')
        O, t, s = c.ghost['old'], c.ghost['t'], z3.Int('s!slot')
        b = r[0].seq() if isinstance(r[0], Braids) else as_sseq(c.as_seq(r[0]))
        return super().post(c, r, ref) + [
            ('as many braids as there are', to_int(b.n) == O.n[t]), ('as many images', to_int(r[1].n) == O.n[t]),
            ('slot by slot', z3.ForAll([s], z3.Implies(z3.And(s >= 0, s < O.n[t]), z3.And(b.arrs[0][s] == O.braids[t][s], r[1].arr[s] == O.images[t][s]))))]


class Create(Case):
    """create(cls, tag, capacity, image_shape, image_dtype)"""
    def params(self, c):
        cap, dims = c.fresh('cap', I_), tuple(c.fresh(x, I_) for x in ('d1', 'd2', 'd3'))
        c.assume(z3.And(cap >= 0, *[d >= 0 for d in dims]))
        return [c.repo.modules['peyl.bucketing'].globals['Bucket'], TagVal(c.fresh('t', TAG)), cap, dims, DTYPE]

    def post(self, c, r, cls, tag, cap, dims, dt):
        if not (isinstance(r, Obj) and isinstance(r.fields['images'], Zeros) and isinstance(r.fields['weights'], Zeros)):
            raise Unsupported('another result')
        f = r.fields
        return [('its label', f['tag'] is tag), ('its capacity', to_int(f['capacity']) == cap), ('no braids', to_int(c.length(f['braids'])) == 0),
                ('room for its capacity', z3.And(*[to_int(a) == b for a, b in zip(f['images'].shape + f['weights'].shape, (cap,) + dims + (cap,))])),
                ('a shape of four', len(f['images'].shape) == 4 and len(f['weights'].shape) == 1),
                ('nothing seen', z3.And(to_int(f['reservoir_count']) == 0, to_real(f['reservoir_weight']) == 0)), ('no heap', to_int(c.length(f['heap'])) == 0)]


def bucket_methods(C):
    one = dict(braids=lambda O, t, j, b, x, w: z3.Store(O.braids[t], j, b.t), images=lambda O, t, j, b, x, w: z3.Store(O.images[t], j, x.t),
               weights=lambda O, t, j, b, x, w: z3.Store(O.weights[t], j, w))
    at_ = lambda j: lambda O, t, *a: {f: g(O, t, j(O, t, *a), *a[-3:]) for f, g in one.items()}
    yield C('Bucket.create', [Create()])
    yield C('Bucket.size', [Method(result=lambda O, t, r: to_int(r) == O.n[t])])
    yield C('Bucket.is_full', [Method(result=lambda O, t, r: tobool(r) == (O.n[t] == O.capacity[t]))])
    yield C('Bucket.braids_images', [Contents()])
    yield C('Bucket.show_reservoir', [Method('', 'weight', change=lambda O, t, w: dict(count=O.count[t] + 1, weight=O.weight[t] + w))])
    yield C('Bucket.append_braid', [Method('', 'braid', 'image', 'weight', result=lambda O, t, r, *a: to_int(r) == O.n[t],
                                          must=lambda O, t, *a: ('ValueError', O.n[t] == O.capacity[t]),
                                          change=lambda O, t, *a: dict(n=O.n[t] + 1, **at_(lambda O, t, *a: O.n[t])(O, t, *a)))])
    yield C('Bucket.replace_braid', [Method('', 'index', 'braid', 'image', 'weight', must=lambda O, t, j, *a: ('ValueError', z3.Or(j < 0, j >= O.n[t])),
                                           change=at_(lambda O, t, j, *a: j))])


class Make(Tracked):
    """Tracker(rep, capacity, statistics, ...)"""
    def __init__(self, length, plen, method):
        self.length, self.plen, self.method = length, plen, method
        self.name = f'{method}, {"" if length else "no "}length, {"" if plen else "no "}projective length'

    def params(self, c):
        cls = self.cls(c, 'Tracker')
        cap = c.fresh('cap', I_)
        c.ghost['cap'] = cap
        st = self.stats(c)
        return [Obj(cls, {}), Rep(), cap, [s for s, x in zip(st, (self.length, self.plen)) if x], LObj([]), self.method, None, Rand(c.fresh('draws', I_))]

    def call_args(self, c, a):
        return [*a[:3], LObj(list(a[3])), *a[4:]], {}

    def must_raise(self, c, *a):
        return [('AssertionError', z3.BoolVal(not (self.length and self.plen)))]

    def post(self, c, r, s, rep, cap, stats, other, method, weight, rand):
        f = r.fields
        return [('no buckets', isinstance(f['buckets'], DictObj) and not f['buckets'].d), ('the capacity asked for', to_int(f['bucket_capacity']) == cap),
                ('the method asked for', f['reservoir_method'] == method), ('the weight asked for', f['reservoir_weight_braidstat'] is weight),
                ('the source of random numbers given', f['rand'] is rand), ('the representation given', f['rep'] is rep),
                ('the statistics asked for', list(f['bucket_braidstats'].val) == stats), ('nothing cached', isinstance(f['suffix_cache'], DictObj) and not f['suffix_cache'].d)]


class Discard(Tracked):
    """discard_bucket(self, tag)"""
    def params(self, c):
        t, tag = self.tracker(c), c.fresh('t', TAG)
        c.ghost['t'] = tag
        return [t, tag]

    def post(self, c, r, tr, tag):
        O, S, t = c.ghost['old'], c.ghost['store'].now(c), c.ghost['t']
        u = z3.Const('u!tag', TAG)
        return self.inv(c, S) + [('the bucket is gone', z3.Not(S.has[t])), ('other buckets are as they were', z3.ForAll([u], z3.Implies(u != t, z3.And(*[
            S.st[f][u] == O.st[f][u] for f in FIELDS])), patterns=[S.st[f][u] for f in FIELDS]))]


class Lookup(Discard):
    """bucket_braids_images(self, tag)"""
    def must_raise(self, c, tr, tag):
        return [('KeyError', z3.Not(c.ghost['old'].has[tag]))]

    def post(self, c, r, tr, tag):
        return Contents.post(Contents(), c, r, tr)


# ---- the other engine: peyl/braidsearch.py
FIELDS2 = dict(inb=z3.BoolSort(), hb=z3.BoolSort(), n=I_, braids=z3.ArraySort(I_, BRAID), hi=z3.BoolSort(), alloc=I_, d1=I_, d2=I_, d3=I_,
               images=z3.ArraySort(I_, IMG), hs=z3.BoolSort(), bset=z3.ArraySort(BRAID, z3.BoolSort()), hc=z3.BoolSort(), count=I_)


class Maps(Store):
    tname, fields = 'maps of buckets', FIELDS2


def braid_of(v):
    if not isinstance(v, Braid):
        raise Unsupported('not a braid')
    return v.t


class Sub(Model):
    """One of the maps."""
    has = ''

    def __init__(self, store):
        self.store = store

    def children(self):
        return (self.store,)

    def contains(self, ex, k):
        return self.store.st[self.has][tag_of(k)]

    def here(self, ex, k):
        t = tag_of(k)
        if not ex.branch(self.store.st[self.has][t]):
            raise PyRaise('KeyError', line=ex.line)
        return t

    def delitem(self, ex, k):
        self.store.put(ex, self.here(ex, k), self.has, z3.BoolVal(False))

    def getitem(self, ex, k):
        return self.part(Ref(self.store, self.here(ex, k)))

    def setitem(self, ex, k, v):
        t = tag_of(k)
        if isinstance(v, Part):
            if type(v) is not self.part or v.ref.store is not self.store or not z3.eq(v.ref.t, t):
                raise Unsupported('two labels with one value')
            return
        self.store.put(ex, t, self.has, z3.BoolVal(True))
        for f, x in self.new(ex, v).items():
            self.store.put(ex, t, f, x)

    def getattr(self, ex, name):
        if name == 'get':
            return Fn(lambda ex, k, d=None: self.getitem(ex, k) if ex.branch(self.contains(ex, k)) else d, 'get')
        if name == 'pop':
            def pop(ex, k, *d):
                if not d or ex.branch(self.contains(ex, k)):
                    self.delitem(ex, k)
                return None
            return Fn(pop, 'pop')
        raise Unsupported(f'{name} of {self.tname}')


class BraidSet(Part):
    tname = 'set of braids'

    def contains(self, ex, x):
        return self.ref.get('bset')[braid_of(x)]

    def add(self, ex, x):
        self.ref.put(ex, 'bset', z3.Store(self.ref.get('bset'), braid_of(x), True))

    def inplace(self, ex, op, other):
        if op == 'BitOr' and isinstance(other, SetObj) and other.items is not None:
            for x in other.items:
                self.add(ex, x)
            return self
        raise Unsupported(f'operator {op} on a set of braids')

    def getattr(self, ex, name):
        if name == 'add':
            return Fn(lambda ex, x: self.add(ex, x), 'add')
        raise Unsupported(f'{name} of a set of braids')


class BraidsMap(Sub):
    tname, has, part = 'map of lists of braids', 'hb', Braids

    def new(self, ex, v):
        if not isinstance(v, LObj):
            raise Unsupported('not a new list')
        s = as_sseq(v)
        s = as_sseq(s, BT) if s.et is None else s
        if s.et != BT:
            raise Unsupported('not braids')
        v.derived = True
        return dict(n=to_int(s.n), braids=s.arrs[0])


class ImagesMap(Sub):
    tname, has, part = 'map of images', 'hi', Rows

    def new(self, ex, v):
        if not (isinstance(v, Zeros) and len(v.shape) == 4):
            raise Unsupported('not a new array')
        return dict(images=ex.fresh('zeros', FIELDS2['images']), **{f: to_int(x) for f, x in zip(('alloc', 'd1', 'd2', 'd3'), v.shape)})


class SetMap(Sub):
    tname, has, part = 'map of sets of braids', 'hs', BraidSet

    def new(self, ex, v):
        if not (isinstance(v, SetObj) and v.items is not None):
            raise Unsupported('not a new set')
        a = z3.K(BRAID, z3.BoolVal(False))
        for x in v.items:
            a = z3.Store(a, braid_of(x), True)
        return dict(bset=a)


class CountMap(Sub):
    tname, has = 'map of counts', 'hc'

    def getitem(self, ex, k):
        return self.store.st['count'][self.here(ex, k)]

    def new(self, ex, v):
        return dict(count=to_int(v))


class LabelSet(Sub):
    tname, has = 'set of labels', 'inb'

    def set(self, ex, k, v=True):
        self.store.put(ex, tag_of(k), 'inb', z3.BoolVal(v))

    def inplace(self, ex, op, other):
        if op == 'BitOr' and isinstance(other, SetObj) and other.items is not None:
            for x in other.items:
                self.set(ex, x)
            return self
        raise Unsupported(f'operator {op} on a set of labels')

    def getattr(self, ex, name):
        if name == 'add':
            return Fn(lambda ex, x: self.set(ex, x), name)
        if name == 'discard':
            return Fn(lambda ex, x: self.set(ex, x, False), name)
        if name == 'remove':
            return Fn(lambda ex, x: self.set(ex, x, False) if self.here(ex, x) is not None else None, name)
        raise Unsupported(f'{name} of a set of labels')

    getitem = setitem = delitem = None


class Callable(Model):
    """A function given by the user."""
    tname = 'function'

    def __init__(self, f):
        self.f = f

    def call(self, ex, args, kw):
        return self.f(ex, *args)


class Table(Model):
    tname = 'table of statistics'


class Stats(Case):
    """The table of statistics is handed to the criterion only."""
    def result(self, c, *a):
        return Table()


class Proj(Case):
    def match(self, c, args):
        return isinstance(args[0], Img)

    def result(self, c, a):
        x = a.t
        r = PROJ(x)
        c.assume(z3.And(D1(r) == D1(x), D2(r) == D2(x), D3(r) == PLEN(x)))
        return Img(r)


def invariant2(S, cap, dim, rand):
    live = lambda f: every(lambda t: z3.Implies(S.inb[t], f(t)), lambda t: S.inb[t])
    t, s, x = z3.Const('t!tag', TAG), z3.Int('s!slot'), z3.Const('x!br', BRAID)
    slots = lambda f, *pats: z3.ForAll([t, s], z3.Implies(z3.And(S.inb[t], s >= 0, s < S.n[t]), f(t, s)), patterns=[p(t, s) for p in pats])
    open_ = lambda t: z3.Or(z3.BoolVal(not rand), S.n[t] < cap)
    return [
        ('the maps have the same labels', every(lambda t: z3.And(S.hb[t] == S.inb[t], S.hi[t] == S.inb[t], S.hs[t] == S.inb[t], z3.Implies(S.inb[t], S.hc[t])),
                                                lambda t: S.inb[t], lambda t: S.hb[t], lambda t: S.hi[t], lambda t: S.hs[t])),
        ('buckets have the capacity', live(lambda t: z3.And(S.alloc[t] == cap, S.d1[t] == dim, S.d2[t] == dim, S.d3[t] == t_plen(t)))),
        ('a bucket holds at most its capacity of the items it was offered', live(lambda t: z3.And(S.n[t] >= 1, S.n[t] <= cap, S.count[t] >= S.n[t]))),
        ('every item was offered to its bucket', slots(lambda t, s: OFF(t, S.braids[t][s], S.images[t][s], RV(1)), lambda t, s: S.braids[t][s], lambda t, s: S.images[t][s])),
        ('the braids of a bucket are in its set', slots(lambda t, s: z3.Implies(open_(t), S.bset[t][S.braids[t][s]]), lambda t, s: S.braids[t][s])),
        ('the set of a bucket has no others', z3.ForAll([t, x], z3.Implies(z3.And(S.inb[t], open_(t), S.bset[t][x]), z3.Exists([s], z3.And(
            s >= 0, s < S.n[t], S.braids[t][s] == x), patterns=[S.braids[t][s]])), patterns=[S.bset[t][x]])),
    ]


class Offer(Add):
    """add_braids_images(self, braids, images) of braidsearch.Tracker"""
    mod = 'peyl.braidsearch'

    def __init__(self, rand, one=False):
        self.rand, self.one = rand, one
        self.name = f'{"a" if rand else "no"} random source, {"one item" if one else "any batch"}'

    def size(self, c):
        return 1 if self.one else super().size(c)

    def inv(self, c, S):
        return invariant2(S, c.ghost['cap'], c.ghost['dim'], self.rand)

    def tracker(self, c):
        cap, dim = c.fresh('cap', I_), c.fresh('dim', I_)
        c.assume(z3.And(cap >= 1, dim >= 1))
        store, rand = Maps(c), Rand(c.fresh('draws', I_)) if self.rand else None
        keep = c.fresh('KEEP', z3.ArraySort(I_, z3.BoolSort()))
        c.ghost.update(cap=cap, dim=dim, store=store, rand=rand, keep=keep)
        c.ghost['old'] = old = store.snapshot()
        for nm, f in self.inv(c, old):
            c.assume(f)
        return Obj(self.cls(c, 'Tracker'), dict(
            rep=Rep(), bucket_size=cap, bucket_keys=LObj([]), buckets=LabelSet(store), bucket_braids=BraidsMap(store), bucket_images=ImagesMap(store),
            bucket_braid_set=SetMap(store), bucket_reservoir_counts=CountMap(store), rand=rand, minimise=Callable(lambda ex, x: Table()),
            criterion=Callable(lambda ex, x: SSeq(BOOL, ex.ghost['items'], (keep,), 'tuple')), image_hashes=DictObj({}), bucket_heap=DictObj({})))

    def item(self, c, i):
        b, x = c.ghost['B'][i], c.ghost['X'][i]
        return mk(LEN(b), PLEN(x), IV(0)), b, PROJ(x), RV(1)

    def offered(self, c, i):
        return z3.Implies(c.ghost['keep'][i], OFF(*self.item(c, i)))

    def index(self, ex, view):
        items, keep = to_int(ex.ghost['items']), ex.ghost['keep']
        if ex.provable(view.n == items) is True:
            return view.k, []
        for r in ex.rels:
            if r[0] == 'filter' and z3.eq(r[2], view.n) and r[3].arity() == 1 and ex.provable(r[6] == items) is True:
                t = r[5]
                return r[3](view.k), [('the items which meet the criterion are offered', z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < items), r[7] == keep[t])))]
        return None

    def policy(self, c, O, S, k, log):
        cap = c.ghost['cap']
        t, b, x, _ = self.item(c, k)
        ok, had = c.ghost['keep'][k], O.inb[t]
        n0 = z3.If(had, O.n[t], IV(0))
        u, s = z3.Const('u!tag', TAG), z3.Int('s!slot')
        out = [('other buckets are as they were', z3.ForAll([u], z3.Implies(z3.Or(u != t, z3.Not(ok)), z3.And(*[
            S.st[f][u] == O.st[f][u] for f in FIELDS2])), patterns=[S.st[f][u] for f in FIELDS2])),
            ('the bucket has seen one more item', z3.Implies(ok, z3.And(S.inb[t], S.count[t] == z3.If(had, O.count[t], IV(0)) + 1)))]
        item = lambda j: z3.And(S.braids[t][j] == b, S.images[t][j] == x)
        same = lambda but: z3.ForAll([s], z3.Implies(z3.And(had, s >= 0, s < n0, s != but), z3.And(
            S.braids[t][s] == O.braids[t][s], S.images[t][s] == O.images[t][s])), patterns=[S.braids[t][s], S.images[t][s]])
        room = n0 < cap
        new = z3.ForAll([s], z3.Implies(z3.And(had, s >= 0, s < n0), O.braids[t][s] != b), patterns=[O.braids[t][s]])
        out.append(('a new item is added behind the others while there is room', z3.Implies(z3.And(ok, room, new), z3.And(S.n[t] == n0 + 1, item(n0), same(IV(-1))))))
        out.append(('an item that is there is not added again', z3.Implies(z3.And(ok, room, z3.Not(new)), z3.And(S.n[t] == n0, same(IV(-1))))))
        full = lambda f: z3.Implies(z3.And(ok, z3.Not(room)), f)
        out.append(('a full bucket stays full', full(S.n[t] == cap)))
        if log is None and self.rand or log and [d[0] for d in log] != ['randrange']:
            raise Unsupported('other random choices')
        if not log:
            out.append(('a full bucket is not changed', full(z3.And(z3.BoolVal(not self.rand), same(IV(-1))))))
        else:
            _, lo, hi, at_ = log[0]
            j = RNI(at_, lo, hi) - lo
            out.append(('a choice is made when the bucket is full', z3.And(ok, z3.Not(room), z3.BoolVal(self.rand))))
            out.append(('the choice is uniform among as many as the bucket has seen', hi - lo == S.count[t]))
            out.append(('the item takes the slot chosen', full(z3.And(z3.Implies(j < cap, z3.And(item(j), same(j))), z3.Implies(j >= cap, same(IV(-1)))))))
        return out

    def post(self, c, r, *a):
        S = c.ghost['store'].now(c)
        if self.one:
            return self.inv(c, S) + self.policy(c, c.ghost['old'], S, IV(0), c.ghost['rand'].log if self.rand else None)
        return super().post(c, r, *a)


class Make2(Case):
    """braidsearch.Tracker(rep, size, keys, criterion, rand)"""
    def __init__(self, keys):
        self.keys, self.name = keys, ', '.join(keys) or 'no keys'

    def params(self, c):
        cls = c.repo.modules['peyl.braidsearch'].globals['Tracker']
        cap = c.fresh('cap', I_)
        return [Obj(cls, {}), Rep(), cap, tuple(self.keys), Callable(None), Rand(c.fresh('draws', I_))]

    def must_raise(self, c, *a):
        return [('AssertionError', z3.BoolVal(not {'length', 'projlen'} <= set(self.keys)))]

    def post(self, c, r, s, rep, cap, keys, crit, rand):
        f = r.fields
        none = lambda x: isinstance(x, DictObj) and not x.d
        return [('no buckets', isinstance(f['buckets'], SetObj) and f['buckets'].items == []), ('no braids', none(f['bucket_braids'])), ('no images', none(f['bucket_images'])),
                ('no sets', none(f['bucket_braid_set'])), ('no counts', none(f['bucket_reservoir_counts'])), ('the size asked for', to_int(f['bucket_size']) == cap),
                ('the criterion given', f['criterion'] is crit), ('the source of random numbers given', f['rand'] is rand), ('the representation given', f['rep'] is rep)]


class Discard2(Offer):
    """discard_bucket(self, bucket) of braidsearch.Tracker"""
    def __init__(self):
        super().__init__(False)
        self.name = ''

    def params(self, c):
        t, tag = self.tracker(c), c.fresh('t', TAG)
        c.ghost['t'] = tag
        return [t, tag]

    def post(self, c, r, tr, tag):
        O, S, t = c.ghost['old'], c.ghost['store'].now(c), c.ghost['t']
        u = z3.Const('u!tag', TAG)
        return self.inv(c, S) + [('the bucket is gone', z3.Not(S.inb[t])), ('counts are kept', z3.And(S.hc[t] == O.hc[t], S.count[t] == O.count[t])),
                                 ('other buckets are as they were', z3.ForAll([u], z3.Implies(u != t, z3.And(*[
                                     S.st[f][u] == O.st[f][u] for f in FIELDS2])), patterns=[S.st[f][u] for f in FIELDS2]))]


class Lookup2(Discard2):
    """bucket_braids_images(self, bucket) of braidsearch.Tracker"""
    def must_raise(self, c, tr, tag):
        return [('AssertionError', z3.Not(c.ghost['old'].inb[tag]))]

    def post(self, c, r, tr, tag):
        if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], Images)):
            raise Unsupported('another result')
        O, S, t, s = c.ghost['old'], c.ghost['store'].now(c), c.ghost['t'], z3.Int('s!slot')
        b = r[0].seq() if isinstance(r[0], Braids) else as_sseq(c.as_seq(r[0]))
        return [('as many braids as there are', to_int(b.n) == O.n[t]), ('as many images', to_int(r[1].n) == O.n[t]),
                ('slot by slot', z3.ForAll([s], z3.Implies(z3.And(s >= 0, s < O.n[t]), z3.And(b.arrs[0][s] == O.braids[t][s], r[1].arr[s] == O.images[t][s])))),
                ('nothing changes', z3.And(*[S.st[f] == O.st[f] for f in FIELDS2]))]


# ---- offering all braids
START = F('START', I_, I_, I_)      # START(l, c) = c * l


class Batched(Case):
    """batched(iterable, chunk_length): consecutive chunks"""
    def params(self, c):
        n, L = c.fresh('N', I_), c.fresh('L', I_)
        c.assume(n >= 0)
        return [SSeq(BT, n, (c.fresh('items', z3.ArraySort(I_, BRAID)),), 'tuple'), L]

    def must_raise(self, c, it, L):
        return [('AssertionError', to_int(L) < 1)]

    def coerce(self, c, args):
        s = as_sseq(c.as_seq(args[0]))
        if s.et != BT:
            raise Unsupported('chunks of something else')
        return [s, to_int(args[1])]

    def axioms(self, c, it, L):
        x = z3.Int('c!ch')
        return [START(L, 0) == 0, z3.ForAll([x], z3.Implies(x >= 0, START(L, x + 1) == START(L, x) + L), patterns=[START(L, x + 1)])]

    def result(self, c, it, L):
        m = c.fresh('chunks', I_)
        return SSeq(('seq', BT, 'list'), m, (c.fresh('len', AI), c.fresh('chunk', z3.ArraySort(I_, z3.ArraySort(I_, BRAID)))), 'tuple')

    def post(self, c, r, it, L):
        if r is None:
            raise Unsupported('no result')
        r = as_sseq(c.as_seq(r))
        N = to_int(it.n)
        if r.et is None:
            return [('no chunk is missing', to_int(r.n) == 0), ('there is nothing to give', N == 0)]
        if r.et[0] != 'seq' or r.et[1] != BT:
            raise Unsupported('chunks of another type')
        lens, arr, m = r.arrs[0], r.arrs[1], to_int(r.n)
        x, j = z3.Ints('c!ch j!ch')
        return [('lemma: chunks have their length', z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < m), z3.And(lens[x] >= 1, lens[x] <= L, z3.Implies(x < m - 1, lens[x] == L))),
                                                              patterns=[lens[x]])),
                ('nothing is left out', z3.And(m >= 0, z3.If(m == 0, N == 0, START(L, m - 1) + lens[m - 1] == N))),
                ('chunks are in order', z3.ForAll([x, j], z3.Implies(z3.And(x >= 0, x < m, j >= 0, j < lens[x]), arr[x][j] == it.arrs[0][START(L, x) + j]),
                                                  patterns=[arr[x][j]]))]


def batched_hints(ex, view):
    if view.k is None or not isinstance(ex.current_case, Batched):
        return
    it, L = ex.entry_args
    x, j = z3.Ints('c!ch j!ch')

    def parts(v):
        """what was yielded and the list at hand"""
        out = v.frame.vars[I.OUT]
        o = as_sseq(out)
        ch = [w for n, w in sorted(v.frame.vars.items()) if isinstance(w, LObj) and n != I.OUT]
        if len(ch) != 1:
            raise Unsupported('several lists')
        ch = as_sseq(ch[0])
        return o, ch if ch.et is not None else as_sseq(LObj([]), BT)
    on = lambda o: to_int(o.n)
    yield 'items so far', lambda v: (lambda o, ch: z3.And(START(L, on(o)) + to_int(ch.n) == v.k, to_int(ch.n) >= 0, to_int(ch.n) < L, on(o) >= 0))(*parts(v))
    yield 'full chunks', lambda v: (lambda o, ch: True if o.et is None else z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < on(o)), o.arrs[0][x] == L), patterns=[o.arrs[0][x]]))(*parts(v))
    yield 'chunks', lambda v: (lambda o, ch: True if o.et is None else z3.ForAll([x, j], z3.Implies(z3.And(x >= 0, x < on(o), j >= 0, j < L),
        o.arrs[1][x][j] == it.arrs[0][START(L, x) + j]), patterns=[o.arrs[1][x][j]]))(*parts(v))
    yield 'this chunk', lambda v: (lambda o, ch: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < to_int(ch.n)), ch.arrs[0][j] == it.arrs[0][START(L, on(o)) + j]),
        patterns=[ch.arrs[0][j]]))(*parts(v))


def contracts(repo):
    opts = dict(floats=True, externals=EXTERNALS, ring=False)

    def C(q, cases, prop, mod=M, **kw):
        return Contract(mod + q, cases, prop=prop, theories=[], opts={**opts, **kw.pop('opts', {})}, **kw)
    return [
        Contract('peyl.braidsearch:Tracker.braid_image_stats', Stats()),
        C('Tracker.add_braids_images', [One(m, w) for m in METHODS for w in (False, True)] + [Add(m, w) for m in METHODS for w in (False, True)], 'C14 C15', hints=add_hints, step=Items),
        *[c for c in bucket_methods(lambda q, cases: C(q, cases, 'C14 C15', body_only=True))],
        C('Tracker.__init__', [Make(a, b, m) for a, b, m in [(True, True, 'EvictMin'), (True, False, 'Uniform'), (False, True, 'Uniform'), (False, False, 'Uniform')]], 'C14'),
        C('Tracker.discard_bucket', [Discard()], 'C14', body_only=True),
        C('Tracker.bucket_braids_images', [Lookup()], 'C14', body_only=True),
        C('Tracker.__init__', [Make2(k) for k in (('length', 'projlen'), ('projlen', 'nz_terms'), ('length',), ())], 'C17', mod='peyl.braidsearch:'),
        C('Tracker.discard_bucket', [Discard2()], 'C17', mod='peyl.braidsearch:', body_only=True),
        C('Tracker.bucket_braids_images', [Lookup2()], 'C17', mod='peyl.braidsearch:', body_only=True),
        C('batched', [Batched()], 'C14', hints=batched_hints),
        C('batched', [Batched()], 'C17', mod='peyl.braidsearch:', hints=batched_hints),
        C('Tracker.add_braids_images', [Offer(r, one) for one in (True, False) for r in (False, True)], 'C15 C17', mod='peyl.braidsearch:', hints=add_hints, step=Items),
    ]
