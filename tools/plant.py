#!/usr/bin/env python3
"""plant.py [--check] [ID ...]: rebuild /verif/seeded/<id>/ from bugs.py and confirm each planted bug.

For each bug: copy /repo to a scratch directory, apply the edits, confirm that the stable tests still pass, that demo.sh
succeeds on the unchanged copy and fails on the changed one, that the changed lines are lines of the original repository;
with --check also run the check of the bug's property against the scratch copy."""
import sys, os, json, subprocess, shutil, tempfile, textwrap, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BASE = '87a64a2'
sys.path.insert(0, HERE)
from bugs import BUGS

ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1')
DEMO = '''#!/bin/bash
# exit 0 when the property holds on the tree in the current directory
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def tests(tree):
    base = set(json.load(open('/opt/vp/BASELINE.json')).get('passed') or json.load(open('/opt/vp/BASELINE.json')))
    r = tempfile.mktemp(suffix='.xml')
    p = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '-o', 'junit_family=xunit2', f'--junitxml={r}'],
                       cwd=tree, env=ENV, capture_output=True, text=True)
    if os.path.exists(r):
        os.remove(r)
    return p.returncode == 0, p.stdout[-600:]


def demo(d, tree):
    return subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=tree, env=ENV, capture_output=True, text=True, timeout=300)


def main():
    args = sys.argv[1:]
    check = '--check' in args
    ids = [a for a in args if not a.startswith('--')] or list(BUGS)
    bad = 0
    for bid in ids:
        b = BUGS[bid]
        tmp = tempfile.mkdtemp(prefix='plant-')
        tree = os.path.join(tmp, 'repo')
        subprocess.run(['git', 'clone', '-q', '/repo', tree], check=True)
        d = os.path.join(VERIF, 'seeded', bid)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'demo.py'), 'w').write(textwrap.dedent(b['demo']).lstrip())
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        p0 = demo(d, tree)
        msgs = []
        if p0.returncode:
            msgs.append('demo fails on the unchanged tree: ' + (p0.stdout + p0.stderr)[-400:])
        touched = []
        for f, old, new in b['edits']:
            path = os.path.join(tree, f)
            s = open(path).read()
            if s.count(old) != 1:
                msgs.append(f'{f}: {s.count(old)} occurrences of {old!r}'); continue
            open(path, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=tree, capture_output=True, text=True).stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        # lines removed must be lines of the original repository
        cur = None; ln = 0; orig = mine = 0
        bl = {}
        for line in diff.splitlines():
            if line.startswith('--- a/'):
                cur = line[6:]
                bl[cur] = [x.split(' ')[0].startswith('^' + BASE[:6]) or x.startswith('^') for x in subprocess.run(['git', 'blame', '-b' if False else '-s', f'{BASE}..HEAD', '--', cur], cwd=tree, capture_output=True, text=True).stdout.splitlines()]
            elif line.startswith('@@'):
                ln = int(line.split()[1].split(',')[0][1:])
            elif line.startswith('-') and not line.startswith('---'):
                if bl[cur][ln - 1]: orig += 1
                else: mine += 1
                ln += 1
            elif not line.startswith('+'):
                ln += 1
        if not orig or mine:
            msgs.append(f'changes {orig} original lines, {mine} lines of fixes')
        ok, out = tests(tree)
        if not ok:
            msgs.append('tests fail: ' + out)
        p1 = demo(d, tree)
        if p1.returncode == 0:
            msgs.append('demo passes with the change')
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['what']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        line = f'{bid}: ' + ('confirmed' if not msgs else '; '.join(msgs))
        if check and not msgs:
            t = time.time()
            p = subprocess.run(['/usr/bin/python3', os.path.join(VERIF, 'check.py'), b['property']], env=dict(ENV, VERIF_REPO=tree), capture_output=True, text=True)
            line += f' check exit {p.returncode} {time.time()-t:.0f}s: ' + p.stdout.strip().replace('\n', ' | ')[:300]
        if msgs:
            bad += 1
            if '--keep' not in args:
                shutil.rmtree(d)
        print(line, flush=True)
        shutil.rmtree(tmp)
    return bad


if __name__ == '__main__':
    sys.exit(1 if main() else 0)
