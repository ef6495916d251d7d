"""Vocabulary of the braid contracts: the Garside tables as functions of the strand count, and their theory.

For each kind K (P: permutations, divisors of the half twist; N: noncrossing partitions, divisors of the dual element):

  ORD(n) number of divisors, ID(n), DD(n) indices of the identity and of the Garside element, TORD(n) order of tau,
  R1(n,x,y), R2(n,x,y) the renormalised pair, NRM(n,x,y) the pair is left-weighted, LC / RC complements,
  TAU(n,k,x) conjugation by the k-th power of the Garside element, GEN(n,i) the i-th Artin generator,
  LET(n,x) the divisor as an element of the braid group, DEL(n,k) the k-th power of the Garside element,
  PR(n,f,lo,hi) the product of LET(n,f[t]), MIX(n,d,f,lo,hi) the product of DEL(n,d[t]) LET(n,f[t]),
  LOW(n,m,c,P,g): D^m /\\ P D^-c divides g on the left,
  CMB(n,x,y,z): (y,z) = renorm(u,v) for some u, v with (x,u) left-weighted.

SIG(n,i) is the i-th Artin generator as a group element, WORD(n,i,e,lo,hi) the product of SIG(n,i[t])^e[t].

The table contract (that PermTable.create / NParTable.create return tables with these properties) is discharged by
check C02, by evaluating every entry of the real tables."""
from __future__ import annotations
import z3
from pyvc.values import *
from pyvc import words as W
from pyvc.words import B, MUL, ONE, INV, POW, AI, I_
from pyvc.ring import all_subterms

BB = z3.BoolSort()
F = z3.Function
SIG = F('SIG', I_, I_, B)
PWORD = F('PWORD', I_, I_, AI)                    # the one-line word of a permutation
POTH = F('POTH', I_, I_, z3.BoolSort(), I_)       # a place where it is not the identity / the longest element
WORD = F('WORD', I_, AI, AI, I_, I_, B)
W.FUNCS['WORD'] = WORD
W.PRODUCTS['WORD'] = (2, lambda n, v: POW(SIG(n, v[0]), v[1]))


class Kind:
    def __init__(self, k):
        self.k = k
        f = lambda nm, *s: F(nm + k, *s)
        self.ORD, self.ID, self.DD, self.TORD = (f(x, I_, I_) for x in ('ORD', 'ID', 'DD', 'TORD'))
        self.R1, self.R2 = f('R1', I_, I_, I_, I_), f('R2', I_, I_, I_, I_)
        self.NRM = f('NRM', I_, I_, I_, BB)
        self.CMB = f('CMB', I_, I_, I_, I_, BB)
        self.LC, self.RC, self.GEN = f('LC', I_, I_, I_), f('RC', I_, I_, I_), f('GEN', I_, I_, I_)
        self.TAU = f('TAU', I_, I_, I_, I_)
        self.LET = f('LET', I_, I_, B)
        self.DEL = f('DEL', I_, I_, B)
        self.PR = f('PR', I_, AI, I_, I_, B)
        self.MIX = f('MIX', I_, AI, AI, I_, I_, B)
        self.LOW = f('LOW', I_, I_, I_, B, B, BB)
        self.AWN, self.AWI, self.AWE = f('AWN', I_, I_, I_), f('AWI', I_, I_, AI), f('AWE', I_, I_, AI)
        self.BKL = f('BKL', I_, I_, I_, I_)
        self.FC, self.FL = f('FC', I_, I_, I_), f('FL', I_, I_, AI)           # the divisors that may follow one
        self.CN, self.NFA = f('CN', I_, I_, I_, I_), f('NFA', I_, I_, I_, z3.ArraySort(I_, AI))      # the normal forms of a length after one
        self.CNP = f('CNP', I_, I_, I_, I_, I_)              # those whose first factor is one of the first few
        self.DS, self.PS = (f(x, z3.ArraySort(I_, z3.BoolSort()), AI, I_, I_, *a, I_) for x, a in (('DS', ()), ('PS', (I_,))))
        W.DELTAS.add('DEL' + k)
        W.LETTERS['LET' + k] = self.letter
        W.PRODUCTS['PR' + k] = (1, lambda n, v: self.LET(n, v[0]))
        W.PRODUCTS['MIX' + k] = (2, lambda n, v: MUL(self.DEL(n, v[0]), self.LET(n, v[1])))
        W.POSITIVE.add('PR' + k)
        W.LOWS['LOW' + k] = dict(r1='R1' + k, let=self.LET, pr=self.PR, nrm='NRM' + k)
        W.WORDS['AWI' + k] = (self.AWI, self.AWE, self.AWN, self.LET)
        self._ax = None

    def letter(self, R, n, x):
        """What the letter x is in terms of others."""
        L, D = (lambda y: self.LET(n, y)), (lambda k: self.DEL(n, k))
        nm = x.decl().name() if z3.is_app(x) else ''
        k = self.k
        if nm == 'ID' + k and R.same(x.arg(0), n):
            return ONE
        if nm == 'DD' + k and R.same(x.arg(0), n):
            return D(z3.IntVal(1))
        if nm in ('R2' + k, 'TAU' + k, 'LC' + k, 'RC' + k, 'GEN' + k) and R.same(x.arg(0), n):
            a = x.arg(1)
            if nm == 'R2' + k:
                b = x.arg(2)
                return W.mul(INV(L(self.R1(n, a, b))), L(a), L(b))
            if nm == 'TAU' + k:
                return W.mul(D(-a), L(x.arg(2)), D(a))
            if nm == 'LC' + k:
                return W.mul(D(z3.IntVal(1)), INV(L(a)))
            if nm == 'RC' + k:
                return W.mul(INV(L(a)), D(z3.IntVal(1)))
            return SIG(n, a)
        if R.same(x, self.ID(n)):
            return ONE
        if R.same(x, self.DD(n)):
            return D(z3.IntVal(1))
        return None

    # ---- the table contract, as axioms
    def axioms(self, facts, goal):
        """(names of which one must occur in the query, names of which one must occur in the goal, axiom)"""
        if self._ax is None:
            n, x, y, z, k, i = z3.Ints('n x y z k i')
            A = lambda vs, f, *pats: z3.ForAll(vs, f, patterns=[z3.MultiPattern(*p) if isinstance(p, tuple) else p for p in pats])
            rng = lambda v: z3.And(v >= 0, v < self.ORD(n))
            R1, R2, NRM = self.R1(n, x, y), self.R2(n, x, y), self.NRM(n, x, y)
            T = lambda v: self.TAU(n, k, v)
            self._ax = [
                ('', '', A([n], z3.And(rng(self.ID(n)), rng(self.DD(n)), self.ORD(n) >= 1), self.ID(n), self.DD(n), self.ORD(n))),
                ('TORD', '', A([n], self.TORD(n) >= 1, self.TORD(n))),
                ('R1 R2', '', A([n, x, y], z3.Implies(z3.And(rng(x), rng(y)), z3.And(rng(R1), rng(R2))), R1, R2)),
                ('R1 R2', 'NRM CMB', A([n, x, y], z3.Implies(z3.And(rng(x), rng(y)), self.NRM(n, R1, R2)), R1, R2)),
                ('R1 R2', '', A([n, x, y], z3.Implies(z3.And(rng(x), rng(y), R1 == x), z3.And(NRM, R2 == y)), R1, R2)),
                ('R1 R2', '', A([n, x, y], z3.Implies(z3.And(rng(x), rng(y), NRM), z3.And(R1 == x, R2 == y)), (NRM, R1), (NRM, R2))),
                ('LC', '', A([n, x], z3.Implies(rng(x), rng(self.LC(n, x))), self.LC(n, x))),
                ('RC', '', A([n, x], z3.Implies(rng(x), rng(self.RC(n, x))), self.RC(n, x))),
                ('GEN', '', A([n, i], z3.Implies(z3.And(i >= 0, i < n - 1), rng(self.GEN(n, i))), self.GEN(n, i))),
                ('TAU', '', A([n, k, x], z3.Implies(rng(x), z3.And(rng(T(x)), (T(x) == self.ID(n)) == (x == self.ID(n)),
                                                                   (T(x) == self.DD(n)) == (x == self.DD(n)))), T(x))),
                ('TAU', 'NRM', A([n, k, x, y], z3.Implies(z3.And(rng(x), rng(y)), self.NRM(n, T(x), T(y)) == NRM),
                                 self.NRM(n, T(x), T(y)))),
                ('', 'NRM', A([n, y], z3.Implies(rng(y), self.NRM(n, self.DD(n), y)), self.NRM(n, self.DD(n), y))),
                ('', 'NRM', A([n, x], z3.Implies(rng(x), self.NRM(n, x, self.ID(n))), self.NRM(n, x, self.ID(n)))),
                ('NRM', '', A([n, x, y], z3.Implies(z3.And(rng(x), rng(y), NRM), z3.And(z3.Implies(x == self.ID(n), y == self.ID(n)),
                                                                           z3.Implies(y == self.DD(n), x == self.DD(n)))), NRM)),
                ('', 'CMB', A([n, x, y, z], z3.Implies(z3.And(rng(x), rng(y), rng(z), NRM),
                                                       self.CMB(n, x, self.R1(n, y, z), self.R2(n, y, z))),
                              (NRM, self.R1(n, y, z)), (NRM, self.R2(n, y, z)))),
                ('CMB', 'NRM CMB', A([n, x, y, z], z3.Implies(z3.And(rng(x), rng(y), rng(z), self.CMB(n, x, y, z)), self.NRM(n, R2, z)),
                                     self.CMB(n, x, y, z))),
                ('AWI AWE AWN', '', A([n, x], z3.Implies(rng(x), self.AWN(n, x) >= 0), self.AWN(n, x))),
                ('AWI', '', A([n, x, i], z3.Implies(z3.And(rng(x), i >= 0, i < self.AWN(n, x)),
                                                   z3.And(self.AWI(n, x)[i] >= 0, self.AWI(n, x)[i] < n - 1)), self.AWI(n, x)[i])),
                ('AWE', '', A([n, x, i], z3.Implies(z3.And(rng(x), i >= 0, i < self.AWN(n, x)),
                                                   z3.Or(self.AWE(n, x)[i] == 1, self.AWE(n, x)[i] == -1)), self.AWE(n, x)[i])),
            ]
            FC, FL = self.FC(n, x), self.FL(n, x)[i]
            self._ax += [
                ('FC FL', '', A([n, x], z3.Implies(rng(x), z3.And(FC >= 0, z3.Implies(n >= 3, z3.And(self.ID(n) != self.DD(n), z3.Implies(x != self.ID(n), FC >= 1))))), FC)),
                ('FL', '', A([n, x, i], z3.Implies(z3.And(rng(x), i >= 0, i < FC),
                                                  z3.And(rng(FL), self.NRM(n, x, FL), FL != self.ID(n), FL != self.DD(n))), FL))]
            if self.k == 'P':
                for one, idx, val in ((True, self.ID(n), lambda t: t), (False, self.DD(n), lambda t: n - 1 - t)):
                    w, o = PWORD(n, x), POTH(n, x, z3.BoolVal(one))
                    self._ax += [('PWORD', '', A([n, x, i], z3.Implies(z3.And(rng(x), x == idx, i >= 0, i < n), w[i] == val(i)), w[i])),
                                 ('PWORD', '', A([n, x], z3.Implies(z3.And(rng(x), x != idx), z3.And(o >= 0, o < n, w[o] != val(o))), w))]
        k = self.k
        out = []
        for a, g, ax in self._ax:
            if (not a or any(x + k in facts or x + k in goal or x in facts or x in goal for x in a.split())) and (not g or any(x + k in goal for x in g.split())):
                out.append(ax)
        return out


KINDS = {'P': Kind('P'), 'N': Kind('N')}
VOCAB = ('ORD', 'ID', 'DD', 'TORD', 'R1', 'R2', 'NRM', 'CMB', 'LC', 'RC', 'TAU', 'GEN', 'AWI', 'AWE', 'AWN', 'FC', 'FL')


class Garside:
    """Adds the table axioms to queries that mention the tables."""
    name = 'garside'

    def instances(self, facts, goal, rels):
        def names(f, out):
            for s in all_subterms(f):
                if z3.is_app(s):
                    nm = s.decl().name()
                    if nm and nm[-1] in 'PN' and nm[:-1] in VOCAB or nm == 'PWORD':
                        out.add(nm)
            return out
        fs, gs = set(), names(goal, set())
        for f in facts:
            names(f, fs)
        out = []
        for k in 'PN':
            if any(x[-1] == k or x == 'PWORD' and k == 'P' for x in fs | gs):
                out += KINDS[k].axioms(fs, gs)
        return out


# ---- the table object
class Arr(Model):
    """A table row or column given by a function of the index."""
    tname = 'table'

    def __init__(self, n, f, what):
        self.n, self.f, self.what = n, f, what

    def getitem(self, ex, k):
        return self.f(ex.norm_index(k, self.n, self.what))

    def length(self, ex):
        return self.n

    def iter(self, ex):
        return Iter_(self.n, self.f)

    def type(self):
        raise Unsupported('type of a table')


def Iter_(n, f):
    from pyvc.values import Iter
    return Iter(n, lambda k: f(k))


class Tau(Arr):
    def __init__(self, K, n, sign):
        self.K, self.m, self.sign = K, n, sign
        super().__init__(K.TORD(n), None, 'tau')

    def getitem(self, ex, k):
        K, n = self.K, self.m
        k = to_int(k)
        t = K.TORD(n)
        # k % tau_order: the power may be taken without the remainder, D^tau_order being central
        if z3.is_app(k) and k.decl().kind() == z3.Z3_OP_MOD and z3.eq(z3.simplify(k.arg(1)), z3.simplify(t)):
            e = k.arg(0)
        else:
            e = ex.norm_index(k, t, 'power of tau')
        return Arr(K.ORD(n), lambda x: K.TAU(n, e if self.sign > 0 else -e, x), 'divisor')


class Table(Model):
    tname = 'table'

    def __init__(self, kind, n):
        self.kind, self.K, self.n = kind, KINDS[kind], n

    def getattr(self, ex, name):
        K, n = self.K, self.n
        o = K.ORD(n)
        if name == 'n':
            return n
        if name in ('order', 'tau_order', 'id', 'D'):
            if name == 'tau_order':
                ex.assume(K.TORD(n) >= 1)
            return dict(order=o, tau_order=K.TORD(n), id=K.ID(n), D=K.DD(n))[name]
        if name == 'renorm':
            return Arr(o, lambda x: Arr(o, lambda y: (K.R1(n, x, y), K.R2(n, x, y)), 'divisor'), 'divisor')
        if name == 'is_normalised':
            return Arr(o, lambda x: Arr(o, lambda y: K.NRM(n, x, y), 'divisor'), 'divisor')
        if name == 'left_comp':
            return Arr(o, lambda x: K.LC(n, x), 'divisor')
        if name == 'right_comp':
            return Arr(o, lambda x: K.RC(n, x), 'divisor')
        if name == 'artin_gens':
            return Arr(n - 1, lambda i: K.GEN(n, i), 'generator')
        if name == 'tau_right':
            return Tau(K, n, 1)
        if name == 'tau_left':
            return Tau(K, n, -1)
        if name == 'artin_word':
            def word(x):
                ex.assume(K.AWN(n, x) >= 0)
                return LObj(SSeq(('tup', (INT, INT)), K.AWN(n, x), (K.AWI(n, x), K.AWE(n, x)), 'list'), derived=True)
            return Arr(o, word, 'divisor')
        if name == 'follows':
            def follows(x):
                ex.assume(K.FC(n, x) >= 0)
                return LObj(SSeq(INT, K.FC(n, x), (K.FL(n, x),), 'list'), derived=True)
            return Arr(o, follows, 'divisor')
        if name == 'divs':
            return Arr(o, lambda x: Div(self.kind, n, x), 'divisor')
        if name == 'index':
            return Index(self)
        # methods of the class
        cls = ex.repo.modules['peyl.braid'].globals['PermTable' if self.kind == 'P' else 'NParTable']
        return ex.class_attr(cls, name, self)

    def type(self):
        return ('model', TableT(self.kind, self.n))

    def isinstance(self, ex, what):
        return getattr(what, 'name', None) in ('NFTable', 'PermTable' if self.kind == 'P' else 'NParTable')


class TableT:
    def __init__(self, kind, n):
        self.kind, self.n = kind, n

    def __eq__(self, o):
        return isinstance(o, TableT) and o.kind == self.kind and z3.eq(z3.simplify(to_int(self.n)), z3.simplify(to_int(o.n)))

    def __hash__(self):
        return hash(self.kind)

    def leaf_sorts(self):
        return []

    def pack(self, v):
        return []

    def unpack(self, it):
        return Table(self.kind, self.n)


class Div(Model):
    """The divisor with a given index."""
    tname = 'divisor'

    def __init__(self, kind, n, x):
        self.kind, self.n, self.x = kind, n, x

    def type(self):
        return ('model', DivT(self.kind, self.n))

    def getattr(self, ex, name):
        if name == 'n' and self.kind == 'N':
            return self.n
        if name == 'word' and self.kind == 'P':
            return SSeq(INT, self.n, (PWORD(self.n, self.x),), 'tuple')
        raise Unsupported(f'attribute {name} of a divisor')

    def isinstance(self, ex, what):
        return getattr(what, 'name', None) == ('Permutation' if self.kind == 'P' else 'NPar')




class DivT:
    def __init__(self, kind, n):
        self.kind, self.n = kind, n

    def __eq__(self, o):
        return isinstance(o, DivT) and o.kind == self.kind and z3.eq(z3.simplify(to_int(self.n)), z3.simplify(to_int(o.n)))

    def __hash__(self):
        return hash(self.kind)

    def leaf_sorts(self):
        return [I_]

    def pack(self, v):
        return [v.x]

    def unpack(self, it):
        return Div(self.kind, self.n, next(it))


class Index(Model):
    tname = 'index'

    def __init__(self, table):
        self.table = table

    def getitem(self, ex, d):
        if not isinstance(d, Div) or d.kind != self.table.kind:
            raise Unsupported('index of something else')
        if not ex.provable(to_int(d.n) == to_int(self.table.n)):
            raise Unsupported('divisor of another size')
        ex.assume(z3.And(d.x >= 0, d.x < self.table.K.ORD(self.table.n)))
        return d.x
