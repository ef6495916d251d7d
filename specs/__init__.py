"""Contracts, one module per part of the repository.  Each module has contracts(repo) -> [Contract]; a contract's `prop`
names the property whose check proves it."""
import importlib

MODULES = ['lpoly', 'poly', 'perm', 'matrix', 'braid', 'search', 'forms', 'polymat', 'rep', 'tl', 'tlmor']


def load(repo):
    out = []
    for m in MODULES:
        mod = importlib.import_module('specs.' + m)
        out += mod.contracts(repo)
    return out


def probes(qual, inp):
    """Runtime contracts (concrete/) that replay the solver's counterexample `inp` for the function."""
    mod = importlib.import_module('specs.' + qual.split(':')[0].split('.')[-1])
    return mod.probes(qual.split('.')[-1], inp) if hasattr(mod, 'probes') else []


def integral(x):
    if isinstance(x, (list, tuple)):
        return all(map(integral, x))
    if isinstance(x, dict):
        return all(map(integral, x.values()))
    return isinstance(x, int)
