"""C16: storage.  Oracle: the object itself, and an independent reading of the stored text."""
import ast, sqlite3, re
from rt import *
import braidor as O
from c01 import CLS, mk
from peyl import braid as B


def denotes(text):
    """The (kind, n, power, factors) a stored text denotes, or None."""
    m = re.match(r'(D?GNF)(.*)\Z', text, re.S)
    if not m:
        return None
    try:
        v = ast.literal_eval(m.group(2))
    except Exception:
        return None
    if not (isinstance(v, tuple) and len(v) == 3 and type(v[0]) is int and type(v[1]) is int and type(v[2]) is tuple and all(type(f) is int for f in v[2])):
        return None
    if not 2 <= v[0] <= 6:
        return 'skip'
    S = O.struct(m.group(1), v[0])
    return (m.group(1), *v) if S.normal(v[2]) else None


@contract
def st_roundtrip(kind, n, x):
    S = O.struct(kind, n)
    b = mk(S, x)
    t = B.adapt_braid(b)
    need(isinstance(t, str), 'adapt_braid', t)
    c = B.convert_braid(t.encode('utf-8'))
    need(type(c) is S.cls and c == b and hash(c) == hash(b) and type(c.factors) is tuple, 'round trip of', t, 'is', c)
    eq(denotes(t), (kind, n, x[0], tuple(x[1])), 'stored text', t)


@contract
def st_sqlite(rows):
    B.register_sqlite3_adapters()
    con = sqlite3.connect(':memory:', detect_types=sqlite3.PARSE_DECLTYPES)
    try:
        con.execute('CREATE TABLE t (i INTEGER, b BRAID)')
        bs = [mk(O.struct(k, n), x) for k, n, x in rows]
        con.executemany('INSERT INTO t VALUES (?, ?)', list(enumerate(bs)))
        got = [b for _, b in con.execute('SELECT i, b FROM t ORDER BY i')]
        eq(got, bs, 'read back from the database')
        for b, c in zip(bs, got):
            need(type(b) is type(c), 'kind', b, c)
            n, = con.execute('SELECT COUNT(*) FROM t WHERE b = ?', (b,)).fetchone()
            eq(n, bs.count(b), 'lookup by braid', b)
    finally:
        con.close()


@contract
def st_text(text):
    """A text is turned into the braid it denotes, or refused."""
    want = denotes(text)
    if want == 'skip':
        return 'trivial'
    data = text.encode('utf-8')
    if want is None:
        return refuses((Exception,), lambda: B.convert_braid(data), 'text', repr(text))
    b = B.convert_braid(data)
    eq((type(b).__name__, b.n, b.power, b.factors), want, 'text', repr(text))


def run(ctx):
    for t in ['', 'GNF', 'DGNF', 'GNF()', 'GNF(4)', 'GNF(4, 0)', 'GNF(4, 0, [])', 'GNF(4, 0, [3])', 'GNF(4, 0, (3))', "GNF(4, 'a', ())", 'GNF(4, 1.5, ())', 'GNF(4, 0, (99,))',
              'GNF(4, 0, (-3,))', 'GNF(4, 0, (0,))', 'GNF(4, 0, (23,))', 'NF(4, 0, ())', 'XGNF(4, 0, ())', 'gnf(4, 0, ())', 'GNF(4, 0, ()', 'GNF[4, 0, ()]', 'GNF(4, 0, (1.0,))',
              'GNF(4, True, ())', 'GNF(True, 0, ())', 'DGNF(4, 0, (14,))', 'DGNF(4, 0, (3,))', 'GNFGNF(4, 0, ())', 'GNF(4, 0, (), 1)', 'GNF(4.0, 0, ())', 'GNF(4, None, ())', 'GNF(4, 0, None)', 'BraidGroup(4)',
              'GNF(4, 0, (1, 22))', 'GNF(4, 0, (22, 1))', 'DGNF(4, -2, (1, 2))', 'GNF{4, 0}', 'GNF(4, 0, "3")', 'DGNF(4, 0, (99,))', 'DGNF(4, 0, (-1,))']:
        ctx.do(st_text, t)
    for kind in CLS:
        for n in (2, 3, 4):
            S = O.struct(kind, n)
            for f in range(S.N):
                if f not in (S.id, S.D):
                    for p in (-12, -1, 0, 1, 10):
                        ctx.do(st_roundtrip, kind, n, (p, (f,)))
            for p in range(-15, 16):
                ctx.do(st_roundtrip, kind, n, (p, ()))

    for kind, n in (('GNF', 3), ('GNF', 4), ('DGNF', 4), ('DGNF', 6)):
        S = O.struct(kind, n)
        for length, power in ((64, 0), (65, 1), (100, 10 ** 30), (257, -10 ** 20), (700, 3)):
            x = (power, S.rand_nf(ctx.rng, length))
            ctx.do(st_roundtrip, kind, n, x)
            ctx.do(st_sqlite, [(kind, n, x), (kind, n, (power, x[1][:-1]))])

    def one(r):
        kind = r.choice(['GNF', 'DGNF'])
        n = r.choice([2, 3, 4, 5] + ([6] if kind == 'DGNF' else []))
        S = O.struct(kind, n)
        return kind, n, (r.choice([0, 1, -1, r.randint(-10 ** 6, 10 ** 6), r.randint(-12, 12)]), S.rand_nf(r, r.choice([0, 1, 2, 3, 5, 12, 40])))

    def once(r):
        k, n, x = one(r)
        ctx.do(st_roundtrip, k, n, x)
        t = B.adapt_braid(mk(O.struct(k, n), x))
        for _ in range(4):      # corrupted texts
            s = list(t)
            for _ in range(r.choice([1, 1, 2])):
                i = r.randrange(len(s) + 1)
                op = r.random()
                if op < .35 and i < len(s):
                    s[i] = r.choice("0123456789(), -GNFD[].x")
                elif op < .6:
                    s.insert(i, r.choice("0123456789(), -GNFD[].x"))
                elif i < len(s):
                    del s[i]
            s = ''.join(s)
            if len(s) < 2000:
                ctx.do(st_text, s)
        if r.random() < .2:
            ctx.do(st_sqlite, [one(r) for _ in range(r.randint(1, 6))])
    ctx.loop(5, once)
