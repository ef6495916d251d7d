"""Contracts for peyl/jonesrep.py: evaluation of words and braids, exactly and through packed arrays.

An exact matrix is a token of sort X, an element of the monoid of square matrices over Z[v, 1/v] (XMUL, XONE, XPOW), with
XRED(x) its entries reduced modulo p.  G(i), H(i) are the images of the Artin generators and of their inverses.

  EW(wi, we, k)    the image of the first k letters of the word with the indices wi and exponents we
  PC(x)            the class of an image: its entries modulo p, up to a power of v (an abstract monoid: PMUL, PONE, PPOW)
  RED(x)           the entries of x are reduced modulo p
  EB(kind, b, k)   the class of D^power times the first k factors of the braid b

What polymat does to arrays (C11) is read on classes: the class of a product is the product of the classes, packing,
projectivising and reducing modulo p leave the class as it is.  The class of the image of a braid is a unit, so the image
is not zero."""
from __future__ import annotations
import z3
from pyvc.values import *
from pyvc.vc import Contract, Case, tobool
from pyvc import interp as I
from pyvc import nd
from specs.search import Token, TokenT, Braid, Img, Images, BRAID, IMG, LEN, D1, D2, D3, BT, IT
from specs.garside import KINDS, Table

M = 'peyl.jonesrep:'
F, IV = z3.Function, z3.IntVal
I_, B_ = z3.IntSort(), z3.BoolSort()
AI = z3.ArraySort(I_, I_)
X, CL = z3.DeclareSort('ExactMatrix'), z3.DeclareSort('Class')
XMUL, XPOW, XRED, XONE = F('XMUL', X, X, X), F('XPOW', X, I_, X), F('XRED', X, X), z3.Const('XONE', X)
G, H = F('GENIMG', I_, X), F('INVIMG', I_, X)
XR = F('XREDUCED', X, B_)
EW = F('EW', AI, AI, I_, X)
PMUL, PPOW, PONE = F('PMUL', CL, CL, CL), F('PPOW', CL, I_, CL), z3.Const('PONE', CL)
PCX, PC = F('PCX', X, CL), F('PC', IMG, CL)
UC = F('UNITCLASS', CL, B_)
RED = F('REDUCED', IMG, B_)
DIM = z3.Int('dimension!rep')
KD = F('KINDOF', BRAID, I_)
POW, FAC = F('POWER', BRAID, I_), F('FACTORS', BRAID, AI)
MODF = F('open!mod', I_, I_, I_)
BN = F('STRANDS', BRAID, I_)
EB = {k: F('EB' + k, I_, BRAID, I_, CL) for k in 'PN'}
ES = {k: F('ES' + k, I_, AI, I_, CL) for k in 'PN'}       # the same for a sequence of divisors
CODE = {'P': 0, 'N': 1}
CLS = {'P': 'GNF', 'N': 'DGNF'}
PAIR = ('tup', (INT, INT))


def factor(kind, n, x):
    """class of the image of a divisor"""
    K = KINDS[kind]
    return PCX(EW(K.AWI(n, x), K.AWE(n, x), K.AWN(n, x)))


def theory():
    a, b, c = (z3.Const(x + '!cl', CL) for x in 'abc')
    x, y = z3.Const('x!X', X), z3.Const('y!X', X)
    wi, we = z3.Const('wi!w', AI), z3.Const('we!w', AI)
    k, e = z3.Int('k!w'), z3.Int('e!w')
    im = z3.Const('im!I', IMG)
    A = lambda vs, f, *p: z3.ForAll(vs, f, patterns=list(p))
    i, ex = wi[k], we[k]
    return [
        A([a], PMUL(PONE, a) == a, PMUL(PONE, a)), A([a], PMUL(a, PONE) == a, PMUL(a, PONE)),
        A([a], PPOW(a, 0) == PONE, PPOW(a, 0)),
        A([a, b, e], z3.Implies(e >= 0, PMUL(PMUL(b, PPOW(a, e)), a) == PMUL(b, PPOW(a, e + 1))), PMUL(PMUL(b, PPOW(a, e)), a)),
        A([a, b], z3.Implies(z3.And(UC(a), UC(b)), UC(PMUL(a, b))), PMUL(a, b)), A([a, e], z3.Implies(UC(a), UC(PPOW(a, e))), PPOW(a, e)), UC(PONE),
        A([x], XMUL(XONE, x) == x, XMUL(XONE, x)), A([x], XMUL(x, XONE) == x, XMUL(x, XONE)), A([x], XPOW(x, 1) == x, XPOW(x, 1)),
        A([x, y], PCX(XMUL(x, y)) == PMUL(PCX(x), PCX(y)), PCX(XMUL(x, y))), A([x, e], PCX(XPOW(x, e)) == PPOW(PCX(x), e), PCX(XPOW(x, e))),
        A([x], z3.And(PCX(XRED(x)) == PCX(x), XR(XRED(x))), XRED(x)), PCX(XONE) == PONE,
        A([wi, we, k], z3.Implies(k == 0, EW(wi, we, k) == XONE), EW(wi, we, k)),
        A([wi, we, k], z3.Implies(k >= 0, EW(wi, we, k + 1) == XMUL(EW(wi, we, k), XPOW(z3.If(ex >= 0, G(i), H(i)), z3.If(ex >= 0, ex, -ex)))), EW(wi, we, k + 1)),
        A([wi, we, k], UC(PCX(EW(wi, we, k))), PCX(EW(wi, we, k))),
        A([k], z3.And(UC(PCX(G(k))), UC(PCX(H(k)))), G(k)), A([k], UC(PCX(H(k))), H(k)),
    ]


def braids(kind, n):
    """What is known of braids, and how their images are made."""
    K = KINDS[kind]
    b, k, e = z3.Const('b!br', BRAID), z3.Int('k!w'), z3.Int('e!w')
    s = z3.Const('s!seq', AI)
    A = lambda vs, f, *p: z3.ForAll(vs, f, patterns=list(p))
    D, t = factor(kind, n, K.DD(n)), K.TORD(n)
    E, S = EB[kind], ES[kind]
    f = FAC(b)[k]
    mine = KD(b) == CODE[kind]
    return [
        A([b], z3.And(LEN(b) >= 0, z3.Implies(mine, BN(b) == n)), LEN(b)),
        A([b, k], z3.Implies(z3.And(mine, k >= 0, k < LEN(b)), z3.And(f >= 0, f < K.ORD(n))), f),
        t >= 1, K.DD(n) >= 0, K.DD(n) < K.ORD(n), K.ID(n) >= 0, K.ID(n) < K.ORD(n),
        A([b], E(n, b, 0) == PPOW(D, POW(b)), E(n, b, 0)),
        A([b], PPOW(D, POW(b)) == PPOW(D, MODF(POW(b), t)), POW(b)),      # D^tau_order is central and acts by a power of v
        A([b, k], z3.Implies(k >= 0, E(n, b, k + 1) == PMUL(E(n, b, k), factor(kind, n, f))), E(n, b, k + 1)),
        A([b, k], UC(E(n, b, k)), E(n, b, k)),
        factor(kind, n, K.ID(n)) == PONE,
        A([s], S(n, s, 0) == PONE, S(n, s, 0)),
        A([s, k], z3.Implies(k >= 0, S(n, s, k + 1) == PMUL(S(n, s, k), factor(kind, n, s[k]))), S(n, s, k + 1)),
        A([s, k], UC(S(n, s, k)), S(n, s, k)),
        A([k], z3.Implies(z3.And(k >= 0, k < K.ORD(n)), K.AWN(n, k) >= 0), K.AWN(n, k)),
        A([k, e], z3.Implies(z3.And(k >= 0, k < K.ORD(n), e >= 0, e < K.AWN(n, k)), z3.And(K.AWI(n, k)[e] >= 0, K.AWI(n, k)[e] < n - 1)), K.AWI(n, k)[e]),
    ]


# ---- values
class XMat(Token):
    """An exact matrix."""
    tname, sort = 'matrix', X

    def binop(self, ex, op, other, swapped):
        if op == 'Mult' and isinstance(other, XMat):
            a, b = (other, self) if swapped else (self, other)
            return XMat(XMUL(a.t, b.t))
        if op == 'Pow' and not swapped and is_int(other):
            ex.check(to_int(other) >= 0, f'the power is not negative (line {ex.line})', 'safe')
            return XMat(XPOW(self.t, to_int(other)))
        raise Unsupported(f'operator {op} on a matrix')

    def getattr(self, ex, name):
        if name == 'map':
            return Fn(self.map, 'map')
        if name in ('nrows', 'ncols'):
            return DIM
        raise Unsupported(f'{name} of a matrix')

    def map(self, ex, f):
        """Only reduction modulo p is followed: integer entries may be left as they are (they are 0 and 1)."""
        p = ex.ghost.get('p')
        if p is None:
            raise Unsupported('map of a matrix')
        e = ex.fresh('entry', I_)
        r = ex.call(f, [e], {})
        q = ex.call(f, [Entry(p)], {})
        if is_int(r) and (z3.eq(to_int(r), e) or ex.provable(to_int(r) == to_int(ex.arith('Mod', e, p))) is True) and isinstance(q, Entry) and q.done:
            return XMat(XRED(self.t))
        return XMat(ex.fresh('mapped', X))


class Entry(Model):
    """An arbitrary Laurent polynomial."""
    tname = 'entry'

    def __init__(self, p, done=False):
        self.p, self.done = p, done

    def getattr(self, ex, name):
        if name == 'map':
            def go(ex, f):
                c = ex.fresh('coefficient', I_)
                r = ex.call(f, [c], {})
                return Entry(self.p, is_int(r) and ex.provable(to_int(r) == to_int(ex.arith('Mod', c, self.p))) is True)
            return Fn(go, 'map')
        raise Unsupported(f'{name} of an entry')


class ImagesT:
    def __eq__(self, o):
        return isinstance(o, ImagesT)

    def __hash__(self):
        return hash('images')

    def leaf_sorts(self):
        return [I_, z3.ArraySort(I_, IMG), I_, I_, I_]

    def pack(self, v):
        if not isinstance(v, Images):
            raise Unsupported('another kind of value')
        return [to_int(v.n), v.arr, *map(to_int, v.dims)]

    def unpack(self, it):
        n, arr, a, b, c = (next(it) for _ in range(5))
        return Images(n, arr, (a, b, c))


class Kind(Model):
    """The class of a braid."""
    tname = 'class of braids'

    def __init__(self, kind, code):
        self.kind, self.code = kind, code

    def compare(self, ex, op, other, swapped):
        o = code_of(ex, other)
        if op in ('Eq', 'NotEq', 'Is', 'IsNot') and o is not None:
            r = self.code == o
            return r if op in ('Eq', 'Is') else z3.Not(r)
        raise Unsupported('comparison of classes')

    def identical(self, ex, other):
        return self.compare(ex, 'Eq', other, False)

    def getattr(self, ex, name):
        if name == '_nf_table':
            return ex.class_attr(ex.repo.modules['peyl.braid'].globals[CLS[self.kind]], name, None)
        raise Unsupported(f'{name} of a class')

    def type(self):
        return ('model', KindT(self.kind))


class KindT:
    def __init__(self, kind):
        self.kind = kind

    def __eq__(self, o):
        return isinstance(o, KindT) and o.kind == self.kind

    def __hash__(self):
        return hash(('kind', self.kind))

    def leaf_sorts(self):
        return [I_]

    def pack(self, v):
        return [v.code]

    def unpack(self, it):
        return Kind(self.kind, next(it))


def code_of(ex, v):
    if isinstance(v, Kind):
        return v.code
    for k, nm in CLS.items():
        if v is ex.repo.modules['peyl.braid'].globals[nm]:
            return IV(CODE[k])
    return None


def kind_of(ex, v):
    if isinstance(v, Kind):
        return v.kind
    for k, nm in CLS.items():
        if v is ex.repo.modules['peyl.braid'].globals[nm]:
            return k
    return None


def braid_attr(b, ex, name):
    g = ex.ghost
    if 'kind' not in g:
        return None
    n = LEN(b.t)
    if name == '__class__':
        return Kind(g['kind'], KD(b.t))
    if name == 'n':
        return BN(b.t)
    if name == 'power':
        return POW(b.t)
    if name == 'factors':
        return SSeq(INT, n, (FAC(b.t),), 'tuple')
    return None


# ---- arrays of images: what polymat does to classes (C11)
def fresh_image(c, cl, red, rows=None, cols=None):
    x = c.fresh('img', IMG)
    c.assume(z3.And(PC(x) == cl, z3.Implies(red, RED(x)), D1(x) == (DIM if rows is None else rows), D2(x) == (DIM if cols is None else cols), D3(x) >= 0))
    return Img(x)


def fresh_batch(c, n, dims, cl, red):
    """n images, the classes given by cl(k)."""
    arr, w = c.fresh('imgs', z3.ArraySort(I_, IMG)), c.fresh('width', I_)
    k = z3.Int('k!im')
    c.assume(w >= 0)
    c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < to_int(n)), z3.And(
        PC(arr[k]) == cl(k), z3.Implies(red(k), RED(arr[k])), D1(arr[k]) == to_int(dims[0]), D2(arr[k]) == to_int(dims[1]), D3(arr[k]) == w)), patterns=[arr[k]]))
    return Images(n, arr, (dims[0], dims[1], w))


def in_rep(c):
    return isinstance(c.current_case, RCase)


class MulImages(Case):
    """polymat.mul"""
    trusted = True

    def match(self, c, args):
        return isinstance(args[0], (Img, Images)) and isinstance(args[1], (Img, Images)) and all(a is None for a in args[2:])

    def pre(self, c, a, b, *q):
        d, e = (x.dims if isinstance(x, Images) else x.dims() for x in (a, b))
        out = [('matrices fit', to_int(d[1]) == to_int(e[0]))]
        if isinstance(a, Images) and isinstance(b, Images):
            out.append(('batches fit', to_int(a.n) == to_int(b.n)))
        return out

    def result(self, c, a, b, *q):
        d, e = (x.dims if isinstance(x, Images) else x.dims() for x in (a, b))
        at = lambda x, k: x.arr[k] if isinstance(x, Images) else x.t
        if isinstance(a, Img) and isinstance(b, Img):
            return fresh_image(c, PMUL(PC(a.t), PC(b.t)), z3.BoolVal(False), d[0], e[1])
        n = a.n if isinstance(a, Images) else b.n
        return fresh_batch(c, n, (d[0], e[1]), lambda k: PMUL(PC(at(a, k)), PC(at(b, k))), lambda k: z3.BoolVal(False))


class ProjImages(Case):
    """polymat.projectivise"""
    trusted = True

    def match(self, c, args):
        return in_rep(c) and isinstance(args[0], (Img, Images))

    def pre(self, c, a):
        k = z3.Int('k!im')
        if isinstance(a, Img):
            return [('the image is not zero', UC(PC(a.t)))]
        return [('no image is zero', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < to_int(a.n)), UC(PC(a.arr[k]))), patterns=[a.arr[k]])),
                ('there is an image', to_int(a.n) >= 1)]

    def result(self, c, a):
        if isinstance(a, Img):
            return fresh_image(c, PC(a.t), RED(a.t), D1(a.t), D2(a.t))
        return fresh_batch(c, a.n, a.dims[:2], lambda k: PC(a.arr[k]), lambda k: RED(a.arr[k]))


class PackImages(Case):
    """polymat.pack"""
    trusted = True

    def seq(self, c, v):
        try:
            s = as_sseq(c.as_seq(v))
        except Unsupported:
            return None
        return s if s.et == IT else None

    def match(self, c, args):
        return in_rep(c) and not isinstance(args[0], GenExp) and self.seq(c, args[0]) is not None

    def coerce(self, c, args):
        return [self.seq(c, args[0])] + list(args[1:])

    def pre(self, c, s):
        k, x = z3.Int('k!im'), s.arrs[0]
        return [('there is an image', to_int(s.n) >= 1), ('images of one size', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < to_int(s.n)), z3.And(
            D1(x[k]) == D1(x[0]), D2(x[k]) == D2(x[0]))), patterns=[x[k]]))]

    def result(self, c, s):
        x = s.arrs[0]
        return fresh_batch(c, s.n, (D1(x[0]), D2(x[0])), lambda k: PC(x[k]), lambda k: RED(x[k]))


class FromXMat(Case):
    """polymat.from_matrix, up to a power of v"""
    trusted = True

    def match(self, c, args):
        return isinstance(args[0], XMat)

    def result(self, c, m, proj=False, dtype=None):
        if proj is not True:
            raise Unsupported('from_matrix without proj may be refused')
        return fresh_image(c, PCX(m.t), XR(m.t))


def modulo(ex, a, op, other, swapped):
    """a % p"""
    p = ex.ghost.get('p')
    if op != 'Mod' or swapped or not is_int(other) or p is None:
        raise Unsupported(f'operator {op} on images')
    ok = ex.provable(to_int(other) == to_int(p)) is True
    ex.check(to_int(other) != 0, f'the modulus is not zero (line {ex.line})', 'safe')
    t = z3.BoolVal(True)
    if isinstance(a, Img):
        return fresh_image(ex, PC(a.t) if ok else ex.fresh('class', CL), t if ok else z3.BoolVal(False), D1(a.t), D2(a.t))
    other = ex.fresh('classes', z3.ArraySort(I_, CL))
    return fresh_batch(ex, a.n, a.dims[:2], (lambda k: PC(a.arr[k])) if ok else (lambda k: other[k]), lambda k: t if ok else z3.BoolVal(False))


class Identity(Model):
    """numpy.identity"""
    tname = 'identity array'

    def __init__(self, n):
        self.n = n

    def getitem(self, ex, k):
        if isinstance(k, tuple) and len(k) == 2 and k[0] is Ellipsis and k[1] is None or isinstance(k, tuple) and len(k) == 3 and k[2] is None and all(
                isinstance(s, SliceV) and s.lo is None and s.hi is None and s.step is None for s in k[:2]):
            cl = PONE if ex.provable(to_int(self.n) == DIM) is True else ex.fresh('class', CL)
            return fresh_image(ex, cl, z3.BoolVal(True), to_int(self.n), to_int(self.n))
        raise Unsupported('subscript of an identity')


def identity(ex, n, dtype=None, **k):
    return Identity(n)


EXTERNALS = {**nd.EXTERNALS, 'numpy.identity': Fn(identity, 'identity'), 'numpy.eye': Fn(identity, 'eye')}


# ---- contracts
class RCase(Case):
    """Methods of RepBase."""
    kind = None

    def rep(self, c):
        n, p = c.fresh('n', I_), c.fresh('p', I_)
        c.assume(z3.And(n >= 2, p >= 0, p != 1, DIM >= 1))
        c.ghost.update(n=n, p=p)
        if self.kind:
            c.ghost['kind'] = self.kind
            from specs.braid import domain
            c.assume(domain(self.kind, n))
        return Obj(c.repo.modules['peyl.jonesrep'].globals['RepBase'], dict(n=n, p=p))

    def axioms(self, c, s, *a):
        if c.ghost.get('rep-theory') == c.cnt.get('path', 0) and 'rep-theory' in c.ghost:
            return []
        c.ghost['rep-theory'] = c.cnt.get('path', 0)
        out = theory()
        for k in ([self.kind] if self.kind else []):
            out += braids(k, to_int(s.fields['n']))
        return out

    def reduced(self, c, s):
        return to_int(s.fields['p']) != 0

    def image(self, r, cl, red, what='the image'):
        """obligations on a single image"""
        if not isinstance(r, Img):
            raise Unsupported('another result')
        return [(what, PC(r.t) == cl), ('reduced modulo p', z3.Implies(red, RED(r.t))), ('its size', z3.And(D1(r.t) == DIM, D2(r.t) == DIM))]

    def batch(self, r, n, cl, red):
        if not isinstance(r, Images):
            raise Unsupported('another result')
        k = z3.Int('k!im')
        each = lambda f: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < to_int(n)), f(k)), patterns=[r.arr[k]])
        return [('lemma: one image each', to_int(r.n) == to_int(n)), ('the image of each', each(lambda k: PC(r.arr[k]) == cl(k))),
                ('reduced modulo p', z3.Implies(red, each(lambda k: RED(r.arr[k])))),
                ('their size', z3.And(to_int(r.dims[0]) == DIM, to_int(r.dims[1]) == DIM, each(lambda k: z3.And(D1(r.arr[k]) == DIM, D2(r.arr[k]) == DIM))))]


def no_case(c, args):
    return in_rep(c)


class Dimension(RCase):
    trusted = True
    match = no_case

    def match(self, c, args):
        return in_rep(c)

    def result(self, c, *a):
        return DIM


class GensInvs(RCase):
    """artin_gens_invs: the images (C12)"""
    trusted = True

    def match(self, c, args):
        return in_rep(c)

    def result(self, c, s):
        n = to_int(s.fields['n']) - 1
        k = z3.Int('k!g')
        xt = ('model', TokenT(XMat))
        out = []
        for f in (G, H):
            a = c.fresh('gens', z3.ArraySort(I_, X))
            c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), a[k] == f(k)), patterns=[a[k]]))
            out.append(LObj(SSeq(xt, n, (a,), 'list')))
        return tuple(out)


class MatrixIdentity(RCase):
    trusted = True

    def match(self, c, args):
        return in_rep(c)

    def result(self, c, *a):
        n = a[-1]
        return XMat(XONE if c.provable(to_int(n) == DIM) is True else c.fresh('other', X))


def word_parts(c, w):
    s = as_sseq(c.as_seq(w))
    if s.et is None:
        s = as_sseq(s, PAIR)
    if s.et != PAIR:
        raise Unsupported('not a word')
    return to_int(s.n), s.arrs[0], s.arrs[1]


class Word(RCase):
    """f(self, word)"""
    def params(self, c):
        s = self.rep(c)
        w = c.fresh_val(('seq', PAIR, 'list'), 'word')
        n, wi, we = word_parts(c, w)
        k = z3.Int('k!w')
        c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(wi[k] >= 0, wi[k] < c.ghost['n'] - 1)), patterns=[wi[k]]))
        return [s, w]

    def pre(self, c, s, w):
        n, wi, we = word_parts(c, w)
        k = z3.Int('k!w')
        return [('letters in range', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(wi[k] >= 0, wi[k] < to_int(s.fields['n']) - 1)), patterns=[wi[k]]))]

    def value(self, c, w):
        n, wi, we = word_parts(c, w)
        return EW(wi, we, n)


class EvalWord(Word):
    """evaluate_artin_word"""
    def result(self, c, s, w):
        return XMat(c.fresh('value', X))

    def post(self, c, r, s, w):
        if not isinstance(r, XMat):
            raise Unsupported('another result')
        v = self.value(c, w)
        p = to_int(s.fields['p'])
        return [('the image of the word', r.t == z3.If(p != 0, XRED(v), v))]


class PEvalWord(Word):
    """polymat_evaluate_artin_word"""
    def result(self, c, s, w):
        return Img(c.fresh('img', IMG))

    def post(self, c, r, s, w):
        n, wi, we = word_parts(c, w)
        return self.image(r, PCX(self.value(c, w)), self.reduced(c, s))


class Thing(Model):
    """Anything that has an Artin word."""
    tname = 'braid'

    def __init__(self, w):
        self.w = w

    def getattr(self, ex, name):
        if name == 'artin_word':
            return Fn(lambda ex: self.w, name)
        raise Unsupported(f'{name} of a braid')


class EvalThing(EvalWord):
    """evaluate"""
    def params(self, c):
        s, w = super().params(c)
        return [s, Thing(w)]

    def pre(self, c, s, b):
        return super().pre(c, s, b.w)

    def value(self, c, b):
        return super().value(c, b.w)


class PEvalThing(PEvalWord):
    params, pre = EvalThing.params, EvalThing.pre

    def params(self, c):
        s, w = super().params(c)
        return [s, Thing(w)]

    def pre(self, c, s, b):
        return super().pre(c, s, b.w)

    def post(self, c, r, s, b):
        return super().post(c, r, s, b.w)


class PId(RCase):
    """polymat_id"""
    def params(self, c):
        return [self.rep(c)]

    def result(self, c, s):
        return Img(c.fresh('img', IMG))

    def post(self, c, r, s):
        return self.image(r, PONE, z3.BoolVal(True), 'the identity')


class PMulC(RCase):
    """polymat_mul of two batches or of two images"""
    def __init__(self, batch):
        self.isbatch, self.name = batch, 'batches' if batch else 'images'

    def params(self, c):
        s = self.rep(c)
        if not self.isbatch:
            out = [Img(c.fresh(x, IMG)) for x in 'ab']
            for x in out:
                c.assume(z3.And(D1(x.t) == DIM, D2(x.t) == DIM))
            return [s, *out]
        n = c.fresh('N', I_)
        c.assume(n >= 1)
        return [s] + [Images(n, c.fresh(x, z3.ArraySort(I_, IMG)), (DIM, DIM, c.fresh(x + '.width', I_))) for x in 'ab']

    def match(self, c, args):
        return all(isinstance(x, Images if self.isbatch else Img) for x in args[1:])

    def pre(self, c, s, a, b):
        k = z3.Int('k!im')
        if not self.isbatch:
            return [('images of one size', z3.And(*[f(x.t) == DIM for x in (a, b) for f in (D1, D2)])), ('the product is not zero', UC(PMUL(PC(a.t), PC(b.t))))]
        return [('batches of one size', z3.And(to_int(a.n) == to_int(b.n), to_int(a.n) >= 1, *[to_int(d) == DIM for x in (a, b) for d in x.dims[:2]])),
                ('no product is zero', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < to_int(a.n)), UC(PMUL(PC(a.arr[k]), PC(b.arr[k])))), patterns=[a.arr[k], b.arr[k]]))]

    def result(self, c, s, a, b):
        if not self.isbatch:
            return Img(c.fresh('img', IMG))
        w = c.fresh('width', I_)
        return Images(a.n, c.fresh('imgs', z3.ArraySort(I_, IMG)), (DIM, DIM, w))

    def post(self, c, r, s, a, b):
        red = self.reduced(c, s)
        if not self.isbatch:
            return self.image(r, PMUL(PC(a.t), PC(b.t)), red, 'the product')
        return self.batch(r, a.n, lambda k: PMUL(PC(a.arr[k]), PC(b.arr[k])), red)


class PGens(RCase):
    """polymat_artin_gens_invs"""
    def params(self, c):
        return [self.rep(c)]

    def result(self, c, s):
        n = to_int(s.fields['n']) - 1
        return tuple(Images(n, c.fresh('gens', z3.ArraySort(I_, IMG)), (DIM, DIM, c.fresh('width', I_))) for _ in range(2))

    def post(self, c, r, s):
        if not (isinstance(r, tuple) and len(r) == 2):
            raise Unsupported('another result')
        n = to_int(s.fields['n']) - 1
        out = []
        for w, x, f in zip(('generators', 'inverses'), r, (G, H)):
            out += [(a.replace('lemma: ', f'lemma: {w}: ') if a.startswith('lemma') else f'{w}: {a}', b) for a, b in self.batch(x, n, lambda k, f=f: PCX(f(k)), self.reduced(c, s))]
        return out


class FactorC(RCase):
    """_polymat_braid_factor(self, cls, factor)"""
    def __init__(self, kind):
        self.kind, self.name = kind, CLS[kind]

    def params(self, c):
        s = self.rep(c)
        x = c.fresh('x', I_)
        c.assume(z3.And(x >= 0, x < KINDS[self.kind].ORD(c.ghost['n'])))
        return [s, Kind(self.kind, IV(CODE[self.kind])), x]

    def match(self, c, args):
        return kind_of(c, args[1]) == self.kind

    def pre(self, c, s, cls, x):
        return [('a divisor', z3.And(to_int(x) >= 0, to_int(x) < KINDS[self.kind].ORD(to_int(s.fields['n']))))]

    def result(self, c, s, cls, x):
        return Img(c.fresh('img', IMG))

    def post(self, c, r, s, cls, x):
        return self.image(r, factor(self.kind, to_int(s.fields['n']), to_int(x)), self.reduced(c, s))


class DeltaC(FactorC):
    """_polymat_delta_power(self, cls, power)"""
    def params(self, c):
        s = self.rep(c)
        return [s, Kind(self.kind, IV(CODE[self.kind])), c.fresh('power', I_)]

    def pre(self, c, s, cls, e):
        return []

    def must_raise(self, c, s, cls, e):
        return [('AssertionError', z3.Or(to_int(e) < 0, to_int(e) >= KINDS[self.kind].TORD(to_int(s.fields['n']))))]

    def post(self, c, r, s, cls, e):
        n = to_int(s.fields['n'])
        return self.image(r, PPOW(factor(self.kind, n, KINDS[self.kind].DD(n)), to_int(e)), self.reduced(c, s))


class BraidsC(RCase):
    """polymat_evaluate_braids_of_same_length(self, braids)"""
    def __init__(self, kind):
        self.kind, self.name = kind, CLS[kind]

    def params(self, c):
        s = self.rep(c)
        N, b = c.fresh('N', I_), c.fresh('B', z3.ArraySort(I_, BRAID))
        c.assume(z3.And(N >= 1, KD(b[0]) == CODE[self.kind]))
        return [s, LObj(SSeq(BT, N, (b,), 'list'), derived=True)]

    def match(self, c, args):
        return c.ghost.get('kind') == self.kind

    def pre(self, c, s, v):
        return [('braids of this kind', KD(self.seq(c, v)[1][0]) == CODE[self.kind]), ('there is a braid', self.seq(c, v)[0] >= 1)]

    def seq(self, c, v):
        s = as_sseq(c.as_seq(v))
        if s.et != BT:
            raise Unsupported('not braids')
        return to_int(s.n), s.arrs[0]

    def must_raise(self, c, s, v):
        N, b = self.seq(c, v)
        k = z3.Int('k!im')
        return [('AssertionError', z3.Exists([k], z3.And(k >= 0, k < N, z3.Or(LEN(b[k]) != LEN(b[0]), KD(b[k]) != KD(b[0])))))]

    def result(self, c, s, v):
        N, b = self.seq(c, v)
        return Images(N, c.fresh('imgs', z3.ArraySort(I_, IMG)), (DIM, DIM, c.fresh('width', I_)))

    def value(self, c, s, v, k, j):
        N, b = self.seq(c, v)
        return EB[self.kind](to_int(s.fields['n']), b[k], j)

    def length(self, c, s, v):
        return LEN(self.seq(c, v)[1][0])

    def post(self, c, r, s, v):
        N, b = self.seq(c, v)
        return self.batch(r, N, lambda k: self.value(c, s, v, k, LEN(b[k])), self.reduced(c, s))


class BraidC(RCase):
    """polymat_evaluate_braid(self, braid)"""
    def __init__(self, kind):
        self.kind, self.name = kind, CLS[kind]

    def params(self, c):
        s, b = self.rep(c), c.fresh('b', BRAID)
        c.assume(KD(b) == CODE[self.kind])
        return [s, Braid(b)]

    def post(self, c, r, s, b):
        return self.image(r, EB[self.kind](to_int(s.fields['n']), b.t, LEN(b.t)), self.reduced(c, s))


class SeqsC(BraidsC):
    """polymat_evaluate_braid_integers_of_same_length(self, cls, sequences)"""
    def params(self, c):
        s = self.rep(c)
        v = c.fresh_val(('seq', ('seq', INT, 'list'), 'list'), 'seqs')
        c.assume(to_int(as_sseq(v).n) >= 1)
        return [s, c.repo.modules['peyl.braid'].globals[CLS[self.kind]], v]

    def match(self, c, args):
        return kind_of(c, args[1]) == self.kind

    def pre(self, c, s, cls, v):
        return [('there is a sequence', self.seq(c, v)[0] >= 1)]

    def seq(self, c, v):
        s = as_sseq(c.as_seq(v))
        return to_int(s.n), s.arrs[0], s.arrs[1]

    def must_raise(self, c, s, cls, v):
        N, L, A = self.seq(c, v)
        k, j = z3.Ints('k!im j!im')
        o = KINDS[self.kind].ORD(to_int(s.fields['n']))
        return [('AssertionError', z3.Or(z3.Exists([k], z3.And(k >= 0, k < N, L[k] != L[0])),
                                         z3.Exists([k, j], z3.And(k >= 0, k < N, j >= 0, j < L[k], z3.Or(A[k][j] < 0, A[k][j] >= o)))))]

    def value(self, c, s, cls, v, k, j):
        N, L, A = self.seq(c, v)
        return ES[self.kind](to_int(s.fields['n']), A[k], j)

    def length(self, c, s, cls, v):
        return self.seq(c, v)[1][0]

    def post(self, c, r, s, cls, v):
        N, L, A = self.seq(c, v)
        return self.batch(r, N, lambda k: self.value(c, s, cls, v, k, L[k]), self.reduced(c, s))


def hints(ex, view):
    """Loops that multiply images together."""
    case = ex.current_case
    if view.k is None or not isinstance(case, RCase):
        return
    k = z3.Int('k!im')
    s = ex.entry_args[0]
    red = case.reduced(ex, s)
    names = sorted(view.frame.vars)
    for nm in names:
        w = view.frame.vars[nm]
        if isinstance(w, Images) and isinstance(case, BraidsC):
            each = lambda v, f, nm=nm: (lambda r: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < to_int(r.n)), f(r)), patterns=[r.arr[k]]))(v.frame.vars[nm])
            N = case.seq(ex, ex.entry_args[-1])[0]
            yield f'size of {nm}', lambda v, nm=nm, N=N: (lambda r: z3.And(to_int(r.n) == N, to_int(r.dims[0]) == DIM, to_int(r.dims[1]) == DIM))(v.frame.vars[nm])
            yield f'{nm} holds the products so far', lambda v, each=each: each(v, lambda r: PC(r.arr[k]) == case.value(ex, *ex.entry_args, k, v.k))
            yield f'{nm} holds images', lambda v, each=each: each(v, lambda r: z3.And(D1(r.arr[k]) == DIM, D2(r.arr[k]) == DIM))
            yield f'{nm} is reduced', lambda v, each=each: z3.Implies(red, each(v, lambda r: RED(r.arr[k])))
        if isinstance(w, Img) and isinstance(case, Word):
            n, wi, we = word_parts(ex, ex.entry_args[1].w if isinstance(ex.entry_args[1], Thing) else ex.entry_args[1])
            yield f'{nm} is an image', lambda v, nm=nm: (lambda r: z3.And(D1(r.t) == DIM, D2(r.t) == DIM))(v.frame.vars[nm])
            yield f'{nm} is reduced', lambda v, nm=nm: z3.Implies(red, RED(v.frame.vars[nm].t))
            yield f'{nm} is the product so far', lambda v, nm=nm: PC(v.frame.vars[nm].t) == PCX(EW(wi, we, v.k))
            e0 = view.entry.vars.get(nm)
            if isinstance(e0, Img):
                ints = [(x, o) for x, o in sorted(view.entry.vars.items()) if is_int(o)]
                for x, o in ints:
                    for y, e in ints:
                        if x != y:
                            g = z3.If(to_int(e) >= 0, G(to_int(o)), H(to_int(o)))
                            yield f'{nm} gets the image of {x} by the sign of {y} k times', lambda v, nm=nm, g=g, e0=e0: PC(v.frame.vars[nm].t) == PMUL(PC(e0.t), PPOW(PCX(g), v.k))
                for f in (G, H):
                    for x, o in ints:
                        if True:
                            yield f'{nm} gets {f.name()}({x}) k times', lambda v, nm=nm, f=f, e0=e0, o=o: PC(v.frame.vars[nm].t) == PMUL(PC(e0.t), PPOW(PCX(f(to_int(o))), v.k))
        if isinstance(w, XMat) and isinstance(case, Word):
            n, wi, we = word_parts(ex, ex.entry_args[1].w if isinstance(ex.entry_args[1], Thing) else ex.entry_args[1])
            yield f'{nm} is the product so far', lambda v, nm=nm: v.frame.vars[nm].t == EW(wi, we, v.k)


INLINE = [M + 'RepBase.' + x for x in ('id', 'polymat_dtype')]


def mod(ex, a, b):
    r = MODF(a, b)
    ex.assume(z3.And(r >= 0, r < b))
    return r


def contracts(repo):
    opts = dict(mod=mod, externals=EXTERNALS, ring=False, flatten=True)

    def C(q, cases, prop, **kw):
        r = Contract(M + 'RepBase.' + q, cases, prop=prop, theories=[], hints=hints, opts={**opts, **kw.pop('opts', {})}, **kw)
        r.inline = INLINE
        return r
    both = lambda f: [f(k) for k in 'PN']
    return [
        Contract(M + 'RepBase.dimension', [Dimension()]),
        Contract(M + 'RepBase.artin_gens_invs', [GensInvs()]),
        C('evaluate_artin_word', [EvalWord()], 'C12 C13'),
        C('evaluate', [EvalThing()], 'C12'),
        C('polymat_id', [PId()], 'C13'),
        C('polymat_mul', [PMulC(True), PMulC(False)], 'C13'),
        C('polymat_artin_gens_invs', [PGens()], 'C13'),
        C('_polymat_braid_factor', both(FactorC), 'C13'),
        C('_polymat_delta_power', both(DeltaC), 'C13'),
        C('polymat_evaluate_artin_word', [PEvalWord()], 'C13'),
        C('polymat_evaluate', [PEvalThing()], 'C13'),
        C('polymat_evaluate_braids_of_same_length', both(BraidsC), 'C13'),
        C('polymat_evaluate_braid', both(BraidC), 'C13'),
        C('polymat_evaluate_braid_integers_of_same_length', both(SeqsC), 'C13'),
    ]
