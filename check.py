#!/usr/bin/env python3
"""check.py PROP [--replay FILE]

Decides one property on /repo's current working tree:
  1. the contracts of the property are proved: prove.py generates verification conditions from the current source and
     discharges them with an SMT solver (function by function);
  2. the same contracts are evaluated at run time on enumerated and sampled inputs (bounded; never counted as proved),
     which also supplies the failing inputs.
Exit 0: held.  Exit 1 and `VIOLATION property=<id> replay=<path>`: broken."""
import sys, os, json, subprocess, time, hashlib, tempfile, argparse, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
RUNPY, PROVEPY = '/opt/venv/bin/python', '/opt/veriftools/pyvenv/bin/python'
WORKERS = 4


def env():
    e = dict(os.environ)
    e.update(PYTHONPATH=REPO, VERIF_REPO=REPO, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0')
    return e


def findings(prop):
    known, fixed = {}, []
    for line in open(os.path.join(HERE, 'KNOWN_FINDINGS')):
        line = line.strip()
        if line.startswith(f'fixed: property={prop} '):
            fixed.append(line)
        elif line.startswith(f'finding: property={prop} '):
            d = json.loads(line.split(' ', 2)[2])
            known[d['contract'], d['args']] = d['what']
    return known, fixed


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--replay')
    a = ap.parse_args()
    prop = a.prop
    os.chdir(HERE)
    if a.replay:
        d = json.load(open(a.replay))
        if 'contract' not in d:
            print(json.dumps(d, indent=1))
            sys.exit(1)
        sys.exit(subprocess.call([RUNPY, 'concrete/run.py', prop, '--replay', os.path.abspath(a.replay)], env=env()))
    t0 = time.time()
    work = os.path.join(HERE, 'work', prop)
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    thorough = TIER == 'thorough'
    tmp = tempfile.mkdtemp(prefix=f'verif-{prop}-')
    conc = []
    limit = 700 if thorough else 240
    for k in range(WORKERS):
        out = os.path.join(tmp, f'c{k}.json')
        conc.append((out, open(out + '.err', 'w+'), ))
        conc[k] += (subprocess.Popen([RUNPY, 'concrete/run.py', prop, '--seed', str(SEED), '--tier', TIER, '--budget', str(limit - 60), '--out', out, '--worker', str(k)],
                                     env=env(), stdout=subprocess.DEVNULL, stderr=conc[k][1]),)
    pout = os.path.join(tmp, 'p.json')
    perr = open(pout + '.err', 'w+')
    pp = subprocess.Popen([PROVEPY, 'prove.py', prop, '--tier', TIER, '--out', pout], env=env(), stdout=subprocess.DEVNULL, stderr=perr)

    def wait(p, until):
        try:
            p.wait(max(1, until - time.time()))
        except subprocess.TimeoutExpired:
            p.kill(); p.wait()
            return False
        return True
    results, errors = [], []
    for out, err, p in conc:
        done = wait(p, t0 + limit)
        if os.path.exists(out):
            results.append(json.load(open(out)))
        else:
            err.seek(0)
            errors.append((err.read()[-3000:] or f'worker ended with {p.returncode}') if done else 'worker ran out of time')
    wait(pp, min(t0 + limit + 280, t0 + 870))
    if os.path.exists(pout):
        proof = json.load(open(pout))
    else:
        perr.seek(0)
        proof = dict(obligations=[], error=perr.read()[-3000:] or 'no result')
    obl = proof['obligations']
    bad = [o for o in obl if o['status'] == 'refuted']
    failures = [f for r in results for f in r['failures']]

    # the solver's counterexamples, replayed against the real code
    probes = [p for o in bad for p in o.get('probes', [])]
    if probes and not failures:
        pf, po = os.path.join(tmp, 'probe.json'), os.path.join(tmp, 'probe-out.json')
        json.dump(probes, open(pf, 'w'))
        p = subprocess.Popen([RUNPY, 'concrete/run.py', prop, '--seed', str(SEED + 77), '--tier', 'quick', '--budget', '60', '--probe', pf, '--out', po, '--worker', '99'], env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        wait(p, time.time() + 120)
        if os.path.exists(po):
            r = json.load(open(po))
            results.append(r)
            failures += r['failures']

    errors += [r['note'] for r in results if r.get('note')]
    # the bounded layer could not start because the code under test cannot be imported
    if errors and not results:
        p = subprocess.run([RUNPY, '-c', 'import peyl'], env=env(), capture_output=True, text=True, cwd=tmp)
        if p.returncode:
            failures.append(dict(contract='__run__', args='()', message='import peyl fails: ' + p.stderr[-500:]))

    known, fixed = findings(prop)
    shown = set()
    fresh = []
    for f in failures:
        k = (f['contract'], f['args'])
        if k in known:
            if k not in shown:
                shown.add(k)
                print(f'KNOWN-FINDING: property={prop} {known[k]}')
        else:
            fresh.append(f)

    violations = []
    for f in fresh:
        if len(violations) >= 5:
            break
        path = os.path.join(work, 'replay-' + hashlib.md5((f['contract'] + f['args']).encode()).hexdigest()[:10] + '.json')
        f = dict(property=prop, **f)
        f['failed_obligations'] = [dict(name=o['name'], detail=o.get('detail', '')) for o in bad]
        json.dump(f, open(path, 'w'), indent=1)
        violations.append((path, '', f"{f['contract']}{f['args'][:200]}: {f['message'][:300]}"))
    if bad and not violations:
        path = os.path.join(work, 'obligations.json')
        json.dump(dict(property=prop, failed_obligations=bad, note='no failing input found'), open(path, 'w'), indent=1)
        violations.append((path, ' no-failing-input-found', 'failed obligations: ' + ', '.join(o['name'] for o in bad)[:400]))

    evals = sum(r['evaluations'] for r in results)
    distinct = len({k for r in results for k in r['keys']})
    per = {}
    for r in results:
        for k, v in r['per_contract'].items():
            per[k] = per.get(k, 0) + v
    count = lambda s: sum(1 for o in obl if o['status'] == s)
    info = json.load(open(os.path.join(HERE, 'levels.json')))[prop]
    by = {}
    for o in obl:
        if o['status'] == 'proved':
            by[o.get('backend', '?')] = by.get(o.get('backend', '?'), 0) + 1
    cov = dict(
        evaluations=evals, distinct_nontrivial=distinct,
        rule='Runtime contracts of the property evaluated on the real code: small domains enumerated, the rest sampled (seeded, with thresholds mined from the source). A case is counted once '
             'per contract and argument tuple, and is trivial when the contract has nothing to say about it.',
        samples=[s for r in results for s in r['samples']][:12],
        obligations=len(obl), discharged=count('proved'),
        checker_cmd=f'{PROVEPY} prove.py {prop} --tier {TIER}',
        trusted_base=proof.get('trusted', []) or ['pyvc: the verification-condition generator of /verif/pyvc (semantics of the Python subset)', 'z3 and cvc5', 'CPython executes the source that was read'],
        bounded=dict(label='bounded stand-in, not counted as proved', contracts=per),
        proof=dict(functions_under_contract=proof.get('functions', []), by_backend=by, solver_s=round(sum(o.get('time', 0) for o in obl), 2),
                   undecided=[dict(name=o['name'], status=o['status'], detail=o.get('detail', '')[:300]) for o in obl if o['status'] not in ('proved',)],
                   not_under_contract=proof.get('uncovered', []), error=proof.get('error', '')[-1500:]),
        explanation=info['explanation'],
    )
    ev = dict(property=prop, tier=TIER, seed=SEED, level=info['level'], coverage=cov, assumptions=info.get('assumptions', []) + proof.get('assumptions', []),
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    json.dump(ev, open(os.path.join(HERE, 'evidence', f'{prop}.json'), 'w'), indent=1)
    subprocess.call(['find', tmp, '-delete'])
    for path, tail, what in violations:
        print('  ' + what)
        print(f'VIOLATION property={prop} replay={path}{tail}')
    print(f'{prop}: {count("proved")}/{len(obl)} obligations discharged, {evals} runtime contract evaluations ({distinct} distinct), {len(violations)} violations, {time.time() - t0:.1f} s')
    if errors:
        print('note: a worker of the bounded layer failed:', errors[0][-500:])
    sys.exit(1 if violations else 0)


if __name__ == '__main__':
    main()
