"""Runtime-contract layer: evaluates the contracts of the properties on the real code, on enumerated and sampled inputs.

This is the *bounded* part of every check (never counted as proved).  It runs under /opt/venv/bin/python with
PYTHONPATH=/repo, so it executes the code of /repo's working tree.  A contract is a function registered with @contract;
it takes plain data (so that a failing call can be written to a replay file and run again), builds objects of the real
library from it, and raises Violation (or lets an unexpected exception of the library escape) when the contract fails.
"""
from __future__ import annotations
import ast, os, random, signal, sys, time, traceback, json, hashlib

REPO = os.environ.get('VERIF_REPO', '/repo')
CONTRACTS = {}


class Violation(Exception):
    pass


class Timeout(BaseException):
    pass


def contract(f):
    CONTRACTS[f.__name__] = f
    return f


def need(cond, *msg):
    if not cond:
        raise Violation(' '.join(str(m) for m in msg))


def eq(got, want, *what):
    if not (got == want):
        raise Violation(f"{' '.join(map(str, what))}: got {short(got)}, expected {short(want)}")


def refuses(exc, f, *what):
    """f() must raise one of exc (a tuple of exception types); returning a value is a violation."""
    try:
        r = f()
    except exc:
        return
    raise Violation(f"{' '.join(map(str, what))}: not refused, returned {short(r)}")


def short(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def mined_ints(*modules):
    """Integer literals of the current source of the modules (to aim inputs at thresholds in the code)."""
    out = set()
    for m in modules:
        try:
            tree = ast.parse(open(os.path.join(REPO, m)).read())
        except Exception:
            continue
        for node in ast.walk(tree):
            if isinstance(node, ast.Constant) and isinstance(node.value, int) and not isinstance(node.value, bool):
                v = node.value
                out |= {v - 1, v, v + 1}
    return sorted(out)


class Ctx:
    def __init__(self, prop, seed, tier, budget):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.rng = random.Random(f'{prop}-{seed}')
        self.t0 = time.time()
        self.deadline = self.t0 + budget
        self.evaluations = 0
        self.distinct = set()
        self.per = {}
        self.samples = []
        self.failures = []      # (contract, args, message)
        self.failed_contracts = {}
        self.loops_only = False      # extra workers skip the enumerated part
        self.in_loop = False

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def left(self):
        return self.deadline - time.time()

    def do(self, f, *args):
        """Evaluate one contract on one input.  Returns False if it failed."""
        name = f.__name__
        if self.loops_only and not self.in_loop:
            return True
        if self.failed_contracts.get(name, 0) >= 3:
            return False
        self.evaluations += 1
        msg = call(f, args)
        trivial = msg == 'trivial'
        if not trivial:
            key = hashlib.md5((name + repr(args)).encode()).digest()[:8]
            if key not in self.distinct:
                self.distinct.add(key)
                k = self.per.setdefault(name, 0)
                self.per[name] = k + 1
                if k in (1, 7) and len(self.samples) < 30:
                    self.samples.append({'contract': name, 'args': short(args, 200)})
        if msg and not trivial:
            self.failures.append((name, args, msg))
            self.failed_contracts[name] = self.failed_contracts.get(name, 0) + 1
            return False
        return True

    def loop(self, seconds, gen):
        """Run gen(rng) repeatedly for at most the given number of seconds (scaled by tier), at least once."""
        end = min(time.time() + seconds * (8 if self.thorough else 1), self.deadline)
        n = 0
        self.in_loop = True
        while n < 3 or time.time() < end:
            gen(self.rng)
            n += 1
            if len(self.failures) > 20:
                break
        self.in_loop = False


LIMIT = 60


def _alarm(sig, frame):
    raise Timeout()


def call(f, args, limit=None):
    """None if the contract held, else a message."""
    limit = limit or LIMIT
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        r = f(*args)
        return 'trivial' if r == 'trivial' else None
    except Violation as e:
        return str(e)
    except Timeout:
        return f'did not finish within {limit} s'
    except RecursionError:
        return 'RecursionError'
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f'{os.path.basename(fr.filename)}:{fr.name}' for fr in reversed(tb) if '/peyl/' in fr.filename), '?')
        return f'unexpected {type(e).__name__}: {short(str(e), 200)} (in {where})'
    finally:
        signal.alarm(0)
