"""Build and confirm planted bugs: tools/bugs/<id>.py (PROPERTY, NEEDS, BREAKS, EDITS, DEMO) -> seeded/<id>/.

python3 tools/plant.py [--no-tests] [--checks all|own|none] [id ...]
Each bug is applied to a scratch copy of /repo; confirmed are: demo passes before and fails after, tests pass, lines are original.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument('ids', nargs='*')
ap.add_argument('--no-tests', action='store_true')
ap.add_argument('--checks', default='own')
ap.add_argument('--seed', default='1')
args = ap.parse_args()
ROOT = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.split()[0]


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


BASE = json.load(open('/opt/vp/BASELINE.json'))
ids = args.ids or sorted(f[:-3] for f in os.listdir(HERE + '/tools/bugs') if f.endswith('.py'))
bad = 0
for bug in ids:
    spec = {}
    exec(open(f'{HERE}/tools/bugs/{bug}.py', encoding='utf-8').read(), spec)
    out = f'{HERE}/seeded/{bug}'
    os.makedirs(out, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='plant.')
    msgs = []
    try:
        repo = tmp + '/repo'
        shutil.copytree('/repo', repo, symlinks=True)
        with open(out + '/demo.py', 'w', encoding='utf-8') as f:
            f.write(spec['DEMO'].lstrip('\n'))
        with open(out + '/demo.sh', 'w') as f:
            f.write('#!/bin/bash\n# exit 0 if the property holds for the demonstrated case\n'
                    'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONUTF8=1\n'
                    'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(out + '/demo.sh', 0o755)
        r = sh(f'bash {out}/demo.sh', cwd=repo)
        if r.returncode:
            msgs.append('DEMO FAILS ON CLEAN TREE: ' + (r.stdout + r.stderr)[-600:])
        for path, old, new in spec['EDITS']:
            p = f'{repo}/{path}'
            s = open(p, encoding='utf-8', newline='').read()
            if s.count(old) != 1:
                msgs.append(f'EDIT matches {s.count(old)} times in {path}: {old[:80]!r}')
                continue
            s = s.replace(old, new)
            open(p, 'w', encoding='utf-8', newline='').write(s)
        if any(m.startswith('EDIT') for m in msgs):
            print(bug, *msgs)
            bad += 1
            continue
        diff = sh('git diff', cwd=repo).stdout
        open(out + '/patch.diff', 'w', encoding='utf-8').write(diff)
        # original lines only
        for path in {e[0] for e in spec['EDITS']}:
            d = sh(f'git diff -U0 -- {path}', cwd=repo).stdout
            blame = sh(f'git blame -s -l HEAD -- {path}', cwd=repo).stdout.splitlines()
            for line in d.splitlines():
                if line.startswith('@@'):
                    a = line.split()[1][1:]
                    start, cnt = (a.split(',') + ['1'])[:2]
                    for k in range(int(start), int(start) + int(cnt)):
                        if not blame[k - 1].lstrip('^').startswith(ROOT[:30]):
                            msgs.append(f'line {path}:{k} not original')
        json.dump(dict(property=spec['PROPERTY'], needs=spec['NEEDS'], what_it_breaks=spec['BREAKS']), open(out + '/meta.json', 'w'), indent=1, ensure_ascii=False)
        r = sh(f'bash {out}/demo.sh', cwd=repo)
        if r.returncode == 0:
            msgs.append('DEMO PASSES WITH THE BUG')
        if not args.no_tests:
            t = sh(f"sed 's#/repo#{repo}#g' /opt/vp/test.sh > {tmp}/t.sh; bash {tmp}/t.sh {tmp}/o.json", cwd=repo)
            o = open(tmp + '/o.json').read() if os.path.exists(tmp + '/o.json') else ''
            if '"PASS' in o or 'pass' in o:
                res = json.loads(o)
            else:
                res = {}
            tail = [l for l in t.stdout.splitlines() if 'passed' in l or 'failed' in l]
            failing = [k for k, v in (res.get('tests', res) or {}).items() if isinstance(v, str) and v.lower() not in ('pass', 'passed')] if isinstance(res, dict) else []
            msgs.append('tests: ' + (tail[-1] if tail else t.stdout[-200:]) + (f' FAILING {failing}' if failing else '') )
        if args.checks != 'none':
            props = [spec['PROPERTY']] if args.checks == 'own' else sorted(f[:3].upper() for f in os.listdir(HERE + '/checks') if f.startswith('c') and f[1].isdigit())
            caught = []
            for p in props:
                r = sh(f'python3 {HERE}/run.py {p} --seed {args.seed}', env=dict(os.environ, UDAPI_REPO=repo))
                if r.returncode == 1 and f'VIOLATION property={p}' in r.stdout:
                    caught.append(p)
                elif r.returncode:
                    msgs.append(f'{p} exit {r.returncode}')
            msgs.append('caught by ' + ','.join(caught) if caught else 'MISSED')
    finally:
        shutil.rmtree(tmp)
    print(bug, spec['PROPERTY'], *msgs, sep=' | ', flush=True)
