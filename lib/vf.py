"""Runtime-monitoring framework: deterministic workloads, monitors, evidence, replays.

A check module defines
    ID, RULE, WORKLOADS = [Workload(name, fn, quick, thorough), ...]
and optionally NEEDS (counter names that must be non-zero, otherwise the run is inconclusive),
KNOWN (list of (finding key, probe function)) and ASSUMPTIONS.
`fn(rng, mon, i)` drives the real code of /repo for one case; the monitor `mon` observes and judges.
Each case has its own random generator derived from (VERIF_SEED, check, workload, case number) only,
so the verdict is a function of the tree under test and the seed.
"""
import collections
import contextlib
import gc
import hashlib
import importlib
import io
import json
import logging
import multiprocessing
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('UDAPI_REPO', '/repo')
CASE_CPU_LIMIT = 120      # CPU seconds of one case (typical cases take milliseconds)
PROCS = 4


class Violation(Exception):
    """The monitor observed behaviour that breaks the property."""


class CaseTimeout(Exception):
    """One case used more CPU time than any terminating case could."""


class Workload:
    def __init__(self, name, fn, quick, thorough):
        self.name, self.fn, self.quick, self.thorough = name, fn, quick, thorough


class Mon:
    """Counts what was observed and raises Violation when an oracle disagrees."""

    def __init__(self):
        self.counts = collections.Counter()
        self.states = collections.defaultdict(set)
        self.context = {}
        self.scratch_dirs = []

    # --- observations
    def event(self, name, n=1):
        self.counts['events.' + name] += n

    def state(self, kind, value):
        """Note a distinct observed state (hashed)."""
        if not isinstance(value, (str, bytes)):
            value = repr(value)
        if isinstance(value, str):
            value = value.encode('utf-8', 'surrogatepass')
        self.states[kind].add(hashlib.blake2b(value, digest_size=8).digest())

    def note(self, **ctx):
        """Keep what a replay needs to show (the latest value per key)."""
        self.context.update(ctx)

    # --- judgements
    def ok(self, cond, label, detail=''):
        self.counts['oracle.' + label] += 1
        if not cond:
            if callable(detail):
                detail = detail()
            raise Violation(f'{label}: {detail}')

    def eq(self, got, want, label, detail=''):
        self.counts['oracle.' + label] += 1
        if got != want:
            if callable(detail):
                detail = detail()
            if isinstance(got, str) and isinstance(want, str) and len(got) + len(want) > 300:
                k = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
                raise Violation(f'{label}: first difference at {k}: got {got[max(0, k - 120):k + 150]!r} '
                                f'want {want[max(0, k - 120):k + 150]!r} {detail}')
            raise Violation(f'{label}: got {short(got)} want {short(want)} {detail}')

    def raises(self, fn, label, exc=Exception):
        """fn() must raise an instance of exc."""
        self.counts['oracle.' + label] += 1
        try:
            res = fn()
        except exc as err:   # pylint: disable=broad-except
            if isinstance(err, (Violation, CaseTimeout)):
                raise
            return err
        raise Violation(f'{label}: no exception raised, result {short(res)}')

    def scratch(self):
        d = tempfile.mkdtemp(prefix='udapi-verif-')
        self.scratch_dirs.append(d)
        return d

    def cleanup(self):
        for d in self.scratch_dirs:
            if os.path.basename(d).startswith('udapi-verif-'):
                shutil.rmtree(d, ignore_errors=True)
        self.scratch_dirs = []


def short(x, n=1500):
    s = x if isinstance(x, str) else repr(x)
    s = repr(s) if isinstance(x, str) else s
    return s if len(s) <= n else s[:n] + '...'


@contextlib.contextmanager
def captured():
    """Capture what the code prints; sys.stdout is restored whatever happens."""
    old = sys.stdout
    buf = io.StringIO()
    sys.stdout = buf
    try:
        yield buf
    finally:
        sys.stdout = old


class Logs(logging.Handler):
    """Collects logging records (the code reports problems by logging.warning)."""

    def __init__(self):
        super().__init__()
        self.records = []

    def emit(self, record):
        self.records.append(record)

    def __enter__(self):
        logging.getLogger().addHandler(self)
        return self

    def __exit__(self, *a):
        logging.getLogger().removeHandler(self)

    def messages(self, level=logging.WARNING):
        return [r.getMessage() for r in self.records if r.levelno >= level]


def setup_import():
    sys.dont_write_bytecode = True
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    lg = logging.getLogger()
    lg.handlers[:] = [logging.NullHandler()]
    lg.setLevel(logging.WARNING)


def case_rng(seed, check_id, wname, i):
    return random.Random(f'{seed}:{check_id}:{wname}:{i}')


def _alarm(signum, frame):
    raise CaseTimeout(f'case used more than {CASE_CPU_LIMIT} s of CPU time')


def _where(tb):
    """Innermost frames of a traceback, /repo ones included."""
    return [f'{f.filename}:{f.lineno} {f.name}' for f in traceback.extract_tb(tb)][-6:]


def run_case(module, wl, seed, i, mon):
    """Run one case; return None or a violation dict."""
    mon.context = {}
    rng = case_rng(seed, module.ID, wl.name, i)
    # the process-wide generator is used by a few blocks; make it a function of the case too
    random.seed(f'{seed}:{module.ID}:{wl.name}:{i}:global')
    cwd = os.getcwd()
    old_out = sys.stdout
    devnull = io.StringIO()
    sys.stdout = devnull
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_LIMIT)
    try:
        wl.fn(rng, mon, i)
        return None
    except Violation as v:
        kind, msg, tb = 'oracle', str(v), sys.exc_info()[2]
    except CaseTimeout as v:
        kind, msg, tb = 'no-termination', str(v), sys.exc_info()[2]
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as v:   # pylint: disable=broad-except
        # On a correct tree no case raises (refused operations are caught by the case itself),
        # so an escaping exception is the code failing an operation which must succeed.
        kind, msg, tb = 'exception', f'{type(v).__name__}: {v}', sys.exc_info()[2]
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        sys.stdout = old_out
        os.chdir(cwd)
        mon.cleanup()
    return dict(workload=wl.name, case=i, kind=kind, message=msg[:4000], where=_where(tb),
                context={k: short(v, 6000) if not isinstance(v, str) else v[:20000]
                         for k, v in mon.context.items()})


def _watch_lines(path):
    """With VERIF_COVER=FILE (tools/mutate.py), record which lines of the code under test are executed."""
    root = os.path.join(REPO, 'udapi') + os.sep
    seen = set()
    mon = sys.monitoring

    def line(code, no):
        if code.co_filename.startswith(root):
            seen.add((code.co_filename[len(root):], no))
        return mon.DISABLE
    try:
        mon.use_tool_id(mon.COVERAGE_ID, 'verif')
    except ValueError:
        return seen
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
    return seen


def _worker(args):
    modname, wname, seed, lo, hi = args
    cover = os.environ.get('VERIF_COVER')
    if cover:
        seen = _watch_lines(cover)
    module = importlib.import_module(modname)
    wl = next(w for w in module.WORKLOADS if w.name == wname)
    signal.signal(signal.SIGVTALRM, _alarm)
    gc.collect()
    gc.freeze()     # the readers call gc.collect(), keep it cheap
    mon = Mon()
    viol = None
    done = 0
    for i in range(lo, hi):
        viol = run_case(module, wl, seed, i, mon)
        done += 1
        if viol:
            break
    if cover:
        sys.monitoring.free_tool_id(sys.monitoring.COVERAGE_ID)
        with open(f'{cover}.{os.getpid()}.{wname}.{lo}', 'w') as f:
            json.dump(sorted(seen), f)
    return wname, done, mon.counts, dict(mon.states), viol


def main(modname, argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    replay = None
    only = None
    i = 0
    while i < len(argv):
        if argv[i] == '--tier':
            tier = argv[i + 1]
            i += 2
        elif argv[i] == '--seed':
            seed = int(argv[i + 1])
            i += 2
        elif argv[i] == '--replay':
            replay = argv[i + 1]
            i += 2
        elif argv[i] == '--only':
            only = argv[i + 1]
            i += 2
        else:
            print('usage: run.py CHECK [--tier quick|thorough] [--seed N] [--only WORKLOAD] [--replay FILE]', file=sys.stderr)
            return 2
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    setup_import()
    module = importlib.import_module(modname)
    signal.signal(signal.SIGVTALRM, _alarm)
    if replay:
        with open(replay, encoding='utf-8') as f:
            r = json.load(f)
        wl = next(w for w in module.WORKLOADS if w.name == r['workload'])
        viol = run_case(module, wl, r['seed'], r['case'], Mon())
        print(json.dumps(viol, indent=1, ensure_ascii=False))
        if viol:
            print(f'VIOLATION property={module.ID} replay={replay}')
        return 1 if viol else 0

    t0 = time.time()
    jobs = []
    for wl in module.WORKLOADS:
        if only and wl.name != only:
            continue
        n = wl.quick if tier == 'quick' else wl.thorough
        chunk = max(1, min(200, (n + PROCS * 4 - 1) // (PROCS * 4)))
        for lo in range(0, n, chunk):
            jobs.append((modname, wl.name, seed, lo, min(n, lo + chunk)))
    counts, states, cases, violations = collections.Counter(), collections.defaultdict(set), collections.Counter(), []
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(getattr(module, 'PROCS', PROCS), maxtasksperchild=50) as pool:
        for wname, done, c, st, viol in pool.imap(_worker, jobs):
            counts.update(c)
            cases[wname] += done
            for k, v in st.items():
                states[k] |= v
            if viol:
                violations.append(viol)
                if len(violations) >= 3:
                    pool.terminate()
                    break
    # Known findings: each probe must still show the listed behaviour (it never hides anything else).
    known_lines = []
    for key, probe in getattr(module, 'KNOWN', []):
        listed = known_findings().get(key)
        if listed is None:
            continue
        try:
            with captured():
                still = probe()
        except Exception as e:   # pylint: disable=broad-except
            still = f'probe raised {type(e).__name__}: {e}'
        if still:
            known_lines.append(f'KNOWN-FINDING: property={module.ID} {key}: {listed}')
    missing = [] if only else [n for n in getattr(module, 'NEEDS', []) if not counts.get(n)]
    wall = round(time.time() - t0, 2)
    distinct = sum(len(v) for v in states.values())
    evidence = dict(
        property=module.ID, tier=tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=sum(v for k, v in counts.items() if k.startswith('oracle.')),
            distinct_nontrivial=distinct,
            rule=module.RULE,
            cases=sum(cases.values()),
            cases_per_workload=dict(cases),
            oracle_evaluations={k[7:]: v for k, v in sorted(counts.items()) if k.startswith('oracle.')},
            observed_events={k[7:]: v for k, v in sorted(counts.items()) if k.startswith('events.')},
            distinct_states={k: len(v) for k, v in sorted(states.items())},
            samples=[f'{w} case 0..{n - 1}' for w, n in cases.items()],
        ),
        assumptions=list(getattr(module, 'ASSUMPTIONS', [])),
        known_findings=known_lines,
        violations=violations,
        wall_s=wall)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', module.ID + '.json'), 'w', encoding='utf-8') as f:
        json.dump(evidence, f, indent=1, ensure_ascii=False, sort_keys=True, default=str)
        f.write('\n')
    for line in known_lines:
        print(line)
    if violations:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        for v in violations:
            path = os.path.join(VERIF, 'replays', f"{module.ID}-{v['workload']}-{seed}-{v['case']}.json")
            with open(path, 'w', encoding='utf-8', errors='backslashreplace') as f:
                json.dump(dict(v, property=module.ID, seed=seed), f, indent=1, ensure_ascii=False)
            print(f"# {v['workload']}[{v['case']}] {v['kind']}: {v['message'][:600]}")
            print(f'VIOLATION property={module.ID} replay={path}')
        return 1
    if missing:
        print(f'INCONCLUSIVE property={module.ID}: nothing observed for {missing}', file=sys.stderr)
        return 3
    print(f"{module.ID} held: {sum(cases.values())} cases, {evidence['coverage']['evaluations']} oracle evaluations, "
          f"{distinct} distinct states, {wall} s")
    return 0


_KNOWN = None


def known_findings():
    """Keys and texts of /verif/known_findings.txt (lines 'known: property=ID key: text')."""
    global _KNOWN
    if _KNOWN is None:
        _KNOWN = {}
        path = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(path):
            with open(path, encoding='utf-8') as f:
                for line in f:
                    if line.startswith('known: '):
                        _prop, rest = line[7:].strip().split(' ', 1)
                        key, text = rest.split(': ', 1)
                        _KNOWN[key] = text
    return _KNOWN
