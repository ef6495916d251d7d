"""python run.py PROP --seed S --tier T --budget SECONDS --out FILE      run the contracts of a property
   python run.py PROP --replay FILE                                      re-run one failing call"""
import sys, os, json, argparse, importlib, time, ast, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import rt

ap = argparse.ArgumentParser()
ap.add_argument('prop'); ap.add_argument('--seed', type=int, default=1); ap.add_argument('--tier', default='quick')
ap.add_argument('--budget', type=float, default=60); ap.add_argument('--out'); ap.add_argument('--replay'); ap.add_argument('--probe'); ap.add_argument('--worker', type=int, default=0)
a = ap.parse_args()
mod = importlib.import_module(a.prop.lower())
if a.replay:
    d = json.load(open(a.replay))
    if d['contract'] == '__run__':
        try:
            mod.run(rt.Ctx(a.prop, 1, 'quick', 60))
        except Exception as e:
            print('FAILS:', repr(e))
            sys.exit(1)
        sys.exit(0)
    msg = rt.call(rt.CONTRACTS[d['contract']], ast.literal_eval(d['args']))
    print('holds' if msg in (None, 'trivial') else f'FAILS: {msg}')
    sys.exit(0 if msg in (None, 'trivial') else 1)
ctx = rt.Ctx(a.prop, f'{a.seed}-{a.worker}' if a.worker else a.seed, a.tier, a.budget)
ctx.loops_only = a.worker > 0
if a.probe:      # concretised counterexamples of failed proof obligations: list of [contract, repr(args)]
    for name, args in json.load(open(a.probe)):
        if name in rt.CONTRACTS:
            try:
                ctx.do(rt.CONTRACTS[name], *ast.literal_eval(args))
            except Exception as e:
                pass
note = ''
try:
    mod.run(ctx)
except Exception as e:
    tb = traceback.extract_tb(e.__traceback__)
    note = traceback.format_exc()[-3000:]
    # an interface the harness drives is gone: no verdict from it; anything else is the library misbehaving
    if '/peyl/' in tb[-1].filename or not isinstance(e, (AttributeError, ImportError, NameError)):
        ctx.failures.append(('__run__', (), f'{type(e).__name__}: {rt.short(str(e), 200)} at {tb[-1].filename}:{tb[-1].name} while preparing inputs'))
res = dict(note=note, evaluations=ctx.evaluations, distinct_nontrivial=len(ctx.distinct), keys=[k.hex() for k in ctx.distinct], per_contract=ctx.per, samples=ctx.samples,
           failures=[dict(contract=n, args=repr(x), message=m) for n, x, m in ctx.failures], wall_s=time.time() - ctx.t0)
if a.out:
    json.dump(res, open(a.out, 'w'))
else:
    for f in res['failures'][:10]:
        print('FAIL', f['contract'], f['args'][:300], '->', f['message'][:500])
    print(res['evaluations'], res['distinct_nontrivial'], res['per_contract'], f"{res['wall_s']:.1f}s")
