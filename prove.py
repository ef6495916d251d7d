"""prove.py PROP [--tier quick|thorough] [--out FILE] [--only SUBSTRING] [-v]

Generates the verification conditions of every contract of PROP from the current source of VERIF_REPO and discharges
them; also re-proves the lemma schemas used.  Writes one entry per obligation."""
import sys, os, json, time, argparse, multiprocessing, traceback, signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
REPO = os.environ.get('VERIF_REPO', '/repo')


def work(job):
    prop, qual, ci, tier, again = job
    import warnings
    warnings.filterwarnings('ignore')
    sys.stdout = open(os.devnull, 'w')
    from pyvc.vc import verify, Repo
    from pyvc.theory import Sums
    import specs
    repo = Repo(REPO)
    cs = specs.load(repo)
    reg = {c.qual: c for c in cs}
    con = next(c for c in cs if c.qual == qual and prop in c.prop.split())
    case = con.cases[ci]
    kw = dict(timeout=8000, inv_timeout=1500, budget=150)
    larger = dict(timeout=16000, inv_timeout=5000, budget=150)
    t0 = time.time()
    confirmed = False
    try:
        r = verify(repo, reg, con, case, [Sums()], **(dict(larger, budget=240) if again else kw))
        if again:
            confirmed = r.status == 'failed'
        elif r.status == 'failed' and time.time() - t0 < 60:
            # once more with larger limits: only a failure that stays is reported
            r2 = verify(repo, reg, con, case, [Sums()], **larger)
            if r2.status in ('proved', 'failed'):
                r = r2
                confirmed = r.status == 'failed'
    except Exception:
        return dict(function=qual, case=case.name, status='unsupported', note='internal: ' + traceback.format_exc()[-400:], obls=[], failed=[],
                    time=time.time() - t0)
    d = r.to_json()
    d['obls'] = r.obls
    d['fails'] = r.failed
    d['confirmed'] = confirmed
    d['total'] = time.time() - t0
    d['terminates'] = bool(getattr(con, 'terminates', False) or getattr(case, 'terminates', False))
    d['by'] = dict(r.by)
    return d


def probes(qual, inp):
    import specs
    try:
        return [[n, repr(tuple(x))] for n, x in specs.probes(qual, inp)]
    except Exception:
        return []


def lem(_):
    from pyvc import lemmas
    return lemmas.prove_all()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default='quick'); ap.add_argument('--out'); ap.add_argument('--only', default='')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    limit = 200 if a.tier == 'quick' else 600
    from pyvc.vc import Repo
    import specs
    repo = Repo(REPO)
    cs = [c for c in specs.load(repo) if a.prop in c.prop.split() and a.only in c.qual]
    jobs = [(a.prop, c.qual, i, a.tier, False) for c in cs for i in range(len(c.cases)) if not getattr(c.cases[i], 'trusted', False)]
    heavy = {c.qual: getattr(c, 'weight', 1) for c in cs}
    jobs.sort(key=lambda j: -heavy[j[1]])
    obl, functions = [], {}
    assumptions, used = set(), set()
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(min(8, len(jobs) + 1), maxtasksperchild=1) as pool:        # each case starts from the same solver state
        lr = pool.apply_async(lem, (0,)) if jobs and not a.only else None

        def collect(jobs, until):
            out = []
            for j, r in [(j, pool.apply_async(work, (j,))) for j in jobs]:
                try:
                    d = r.get(max(1, until - (time.time() - t0)))
                except multiprocessing.TimeoutError:
                    d = dict(function=j[1], case=str(j[2]), status='timeout', note=f'over {until:.0f} s', obls=[], fails=[], total=until)
                except Exception as e:
                    d = dict(function=j[1], case=str(j[2]), status='unsupported', note=f'internal: {e}', obls=[], fails=[], total=0)
                out.append(d)
            return out
        ds = collect(jobs, limit)
        # a refutation not seen twice, the second time with larger limits, is not reported
        doubt = [i for i, d in enumerate(ds) if any(st == 'sat' for _, _, st in d['obls']) and not d.get('confirmed')]
        for i, d in zip(doubt, collect([jobs[i][:4] + (True,) for i in doubt], time.time() - t0 + 260) if doubt else ()):
            if d['status'] in ('proved', 'failed'):
                ds[i] = d
            else:
                ds[i] = dict(ds[i], obls=[(on, kind, 'unknown' if st == 'sat' else st) for on, kind, st in ds[i]['obls']])
        for d in ds:
            nm = f"{d['function']} [{d['case']}]"
            if a.v:
                print(f"{d['status']:11} {nm}  {len(d['obls'])} obligations {d.get('total', 0):.1f}s {d['note'][:200]}", flush=True)
                for f in d.get('fails', []):
                    print('      ', f['obligation'][:150], f['solver'], f.get('input'))
            f = functions.setdefault(d['function'], dict(function=d['function'], cases=[], inlined=[], uses=[]))
            f['cases'].append(dict(case=d['case'], status=d['status'], obligations=len(d['obls']), time_s=round(d.get('total', 0), 2),
                                   invariants=d.get('invariants', {}), terminates=d.get('terminates', False), note=d['note'][:300]))
            f['inlined'] = sorted(set(f['inlined']) | set(d.get('inlined', [])))
            f['uses'] = sorted(set(f['uses']) | set(d.get('contracts_used', [])))
            used |= set(d.get('contracts_used', []))
            if d['status'] in ('proved', 'failed'):
                by = d.get('by', {})
                for n, (on, kind, st) in enumerate(d['obls']):
                    fl = next((x for x in d['fails'] if x['obligation'] == on), None) if st != 'unsat' else None
                    obl.append(dict(name=f'{nm} {on} #{n}', status='proved' if st == 'unsat' else 'refuted' if st == 'sat' else 'unknown',
                                    time=d['total'] / max(1, len(d['obls'])), backend='pyvc (z3, ring normal forms, cvc5)',
                                    detail=json.dumps(fl, default=str)[:3000] if fl else '',
                                    probes=probes(d['function'], fl['input']) if fl and fl.get('input') is not None else []))
            else:
                obl.append(dict(name=f'{nm} verification conditions', status=d['status'], time=d.get('total', 0), backend='', detail=d['note'], probes=[]))
        if lr is not None:
            obl += lr.get(100)
    own = {c.qual for c in cs}
    for u in sorted(used - own):
        assumptions.add(f'contract of {u} (proved by the check of its own property)')
    import specs.info as info
    out = dict(obligations=obl, functions=list(functions.values()), assumptions=sorted(assumptions) + info.ASSUMPTIONS + info.BY_PROP.get(a.prop, []),
               trusted=info.TRUSTED, uncovered=info.uncovered(repo, a.prop, functions), wall_s=round(time.time() - t0, 2))
    if a.out:
        json.dump(out, open(a.out, 'w'), indent=1)
    if a.v:
        n = sum(1 for o in obl if o['status'] == 'proved')
        print(f'{a.prop}: {n}/{len(obl)} obligations proved, {time.time()-t0:.1f}s')


if __name__ == '__main__':
    main()
