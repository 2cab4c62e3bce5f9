"""Mutation testing of the checks (a development tool; no check uses it).

mutate.py cover [ids]                     which lines of udapi each check executes -> /tmp/mut/cover.json
mutate.py run OUT.jsonl SEED N [files]  N random mutants of covered lines; each is run against the checks covering its line
mutate.py show OUT.jsonl                the survivors
"""
import ast
import json
import glob
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
import queue

V = '/verif'
W = '/tmp/mut'
CHECKS = sorted(os.path.basename(p)[:3].upper() for p in glob.glob(V + '/checks/c[0-9][0-9]_*.py'))
NWORK = 4


def cover(only=()):
    os.makedirs(W, exist_ok=True)
    out = json.load(open(W + '/cover.json')) if only else {}
    for c in only or CHECKS:
        for p in glob.glob(W + '/cov.*'):
            os.remove(p)
        subprocess.run([sys.executable, V + '/run.py', c], env=dict(os.environ, VERIF_COVER=W + '/cov'), capture_output=True)
        lines = set()
        for p in glob.glob(W + '/cov.*'):
            lines |= {tuple(x) for x in json.load(open(p))}
        out[c] = sorted(lines)
        print(c, len(lines), flush=True)
    json.dump(out, open(W + '/cover.json', 'w'))


SWAP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}


def mutants(src):
    """Yield (line, description, new source)."""
    tree = ast.parse(src)
    lines = src.split('\n')
    offs = [0]
    for x in lines:
        offs.append(offs[-1] + len(x.encode()) + 1)
    b = src.encode()

    def pos(n, end=False):
        return offs[(n.end_lineno if end else n.lineno) - 1] + (n.end_col_offset if end else n.col_offset)

    def seg(n):
        return b[pos(n):pos(n, True)].decode()

    def rep(n, new):
        return (b[:pos(n)] + new.encode() + b[pos(n, True):]).decode()

    def rng_rep(a, z, new):
        return (b[:a] + new.encode() + b[z:]).decode()
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            docs.add(id(n.value))
            docs.add(id(n))
    for n in ast.walk(tree):
        if id(n) in docs:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = n.left, n.comparators[0]
            op = SWAP.get(type(n.ops[0]))
            if op:
                yield n.lineno, f'{seg(n)} -> {op}', rng_rep(pos(l, True), pos(r), f' {op} ')
            if isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                op = {ast.Lt: '>', ast.LtE: '>=', ast.Gt: '<', ast.GtE: '<='}[type(n.ops[0])]
                yield n.lineno, f'{seg(n)} -> {op}', rng_rep(pos(l, True), pos(r), f' {op} ')
        elif isinstance(n, ast.BoolOp):
            op = 'or' if isinstance(n.op, ast.And) else 'and'
            for x, y in zip(n.values, n.values[1:]):
                yield n.lineno, f'{seg(n)} -> {op}', rng_rep(pos(x, True), pos(y), b[pos(x, True):pos(y)].decode().replace('and' if op == 'or' else 'or', op))
            for x in n.values:
                yield n.lineno, f'{seg(n)}: without {seg(x)}', rep(x, 'True' if op == 'or' else 'False')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield n.lineno, f'{seg(n)} -> without not', rep(n, '(' + seg(n.operand) + ')')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant):
            yield n.lineno, f'{seg(n)} -> 0', rep(n, '0')
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield n.lineno, f'{n.value} -> {not n.value}', rep(n, str(not n.value))
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            yield n.lineno, f'{n.value} -> {n.value + 1} in {lines[n.lineno-1].strip()}', rep(n, str(n.value + 1))
            if n.value > 0:
                yield n.lineno, f'{n.value} -> {n.value - 1} in {lines[n.lineno-1].strip()}', rep(n, str(n.value - 1))
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            op = '-' if isinstance(n.op, ast.Add) else '+'
            yield n.lineno, f'{seg(n)} -> {op}', rng_rep(pos(n.left, True), pos(n.right), f' {op} ')
            yield n.lineno, f'{seg(n)} -> {seg(n.left)}', rep(n, '(' + seg(n.left) + ')')
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            yield n.lineno, f'if {seg(n.test)} -> False', rep(n.test, 'False')
            if not isinstance(n, ast.While):
                yield n.lineno, f'if {seg(n.test)} -> True', rep(n.test, 'True')
        elif isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            yield n.lineno, f'{seg(n)} -> return None', rep(n, 'return None')
        elif isinstance(n, ast.Break):
            yield n.lineno, 'break -> pass', rep(n, 'pass')
        elif isinstance(n, ast.Continue):
            yield n.lineno, 'continue -> pass', rep(n, 'pass')
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete)):
            if seg(n).startswith(('logging.', 'super().__init__')):
                continue
            yield n.lineno, f'delete: {seg(n)}', rep(n, 'pass')
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('sorted', 'min', 'max', 'any', 'all', 'set', 'list', 'reversed'):
            new = {'sorted': 'list', 'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any', 'set': 'list', 'list': '', 'reversed': 'list'}[n.func.id]
            if n.func.id == 'sorted' and n.keywords:
                yield n.lineno, f'{seg(n)}: list', rep(n, f'list({seg(n.args[0])})')
            elif n.args:
                yield n.lineno, f'{seg(n)}: {new}', rep(n.func, new)
        elif isinstance(n, ast.Slice):
            for part in ('lower', 'upper'):
                x = getattr(n, part)
                if x is not None:
                    yield n.lineno, f'slice {seg(n)} without {part}', rep(x, '')
        elif isinstance(n, ast.Call) and n.keywords and not isinstance(n.func, ast.Name):
            for k in n.keywords:
                if k.arg and isinstance(k.value, ast.Constant):
                    a, z = pos(k), pos(k, True)
                    pre = b[:a].decode().rstrip()
                    if pre.endswith(','):
                        yield n.lineno, f'{seg(n)}: without {k.arg}', pre[:-1] + b[z:].decode()


def worker_dir(k):
    d = f'{W}/w{k}'
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    subprocess.run(f'mkdir {d}/repo && cp -a /repo/udapi /repo/bin {d}/repo/ && mkdir {d}/verif && cp -a {V}/lib {V}/checks {V}/run.py {V}/known_findings.txt {d}/verif/', shell=True, check=True)
    for f in glob.glob('/repo/*'):
        b = os.path.basename(f)
        if b not in ('udapi', 'bin') and not os.path.exists(f'{d}/repo/{b}'):
            subprocess.run(['cp', '-a', f, f'{d}/repo/'])
    p = f'{d}/verif/lib/vf.py'
    s = open(p).read().replace('PROCS = 4', 'PROCS = 2').replace('CASE_CPU_LIMIT = 120', 'CASE_CPU_LIMIT = 10')
    open(p, 'w').write(s)
    p = f'{d}/verif/checks/c25_cli.py'
    if os.path.exists(p):
        s = open(p).read().replace('PROCS = 8', 'PROCS = 2')
        open(p, 'w').write(s)
    return d


def run(out, seed, n, files):
    cov = json.load(open(W + '/cover.json'))
    by_line = {}
    for c, ls in cov.items():
        for f, no in ls:
            by_line.setdefault((f, no), []).append(c)
    counts = {c: len(ls) for c, ls in cov.items()}
    pool = []
    allfiles = sorted({f for f, _ in by_line})
    done = set()
    if os.path.exists(out):
        done = {(r['file'], r['line'], r['what']) for r in map(json.loads, open(out))}
    # lines added by the fix commits are not the target of planted bugs
    for f in allfiles:
        if files and not any(f == x or f.startswith(x) for x in files):
            continue
        src = open('/repo/udapi/' + f, encoding='utf-8').read()
        fn_spans = []
        for node in ast.walk(ast.parse(src)):
            if isinstance(node, (ast.FunctionDef,)):
                fn_spans.append((node.lineno, node.end_lineno))
        for line, what, new in mutants(src):
            cs = by_line.get((f, line))
            if not cs or not any(a <= line <= z for a, z in fn_spans):
                continue
            try:
                compile(new, f, 'exec')
            except (SyntaxError, ValueError):
                continue
            if (f, line, what[:300]) in done:
                continue
            pool.append((f, line, what[:300], new, cs))
    print(len(pool), 'candidate mutants', flush=True)
    rng = random.Random(seed)
    rng.shuffle(pool)
    pool = pool[:n]
    dirs = queue.Queue()
    for k in range(NWORK):
        dirs.put(worker_dir(f'{os.getpid()}_{k}'))
    kills = {}

    def one(m):
        f, line, what, new, cs = m
        d = dirs.get()
        try:
            p = f'{d}/repo/udapi/{f}'
            orig = open('/repo/udapi/' + f, encoding='utf-8').read()
            open(p, 'w', encoding='utf-8').write(new)
            order = sorted([c for c in cs if c != 'C25' or len(cs) == 1], key=lambda c: (-kills.get((f, c), 0), counts[c]))
            killer, res = None, None
            for c in order:
                try:
                    r = subprocess.run(['bash', '-c', f'ulimit -v 8000000; exec timeout 200 python3 {d}/verif/run.py {c}'], capture_output=True, text=True,
                                       env=dict(os.environ, UDAPI_REPO=d + '/repo', VERIF_SEED='1', VERIF_TIER='quick'), cwd=d + '/verif')
                except Exception as e:
                    res = repr(e)
                    continue
                if r.returncode == 1:
                    killer = c
                    res = r.stdout[:300]
                    kills[f, c] = kills.get((f, c), 0) + 1
                    break
                if r.returncode != 0:
                    res = f'{c} rc {r.returncode} {r.stderr[-300:]}'
                    killer = c + '?'
                    break
            open(p, 'w', encoding='utf-8').write(orig)
            rec = dict(file=f, line=line, what=what, killer=killer, checks=cs, res=res)
            with open(out, 'a') as o:
                o.write(json.dumps(rec) + '\n')
        finally:
            dirs.put(d)
    with ThreadPoolExecutor(NWORK) as ex:
        list(ex.map(one, pool))
    for k in range(NWORK):
        shutil.rmtree(f'{W}/w{os.getpid()}_{k}', ignore_errors=True)


def show(out):
    recs = [json.loads(x) for x in open(out)]
    alive = [r for r in recs if not r['killer']]
    print(len(recs), 'mutants', len(alive), 'survive')
    for r in sorted(alive, key=lambda r: (r['file'], r['line'])):
        print(f"{r['file']}:{r['line']}: {r['what']}   [{' '.join(r['checks'])}]")


if __name__ == '__main__':
    if sys.argv[1] == 'cover':
        cover(sys.argv[2:])
    elif sys.argv[1] == 'run':
        run(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5:])
    else:
        show(sys.argv[2])
