"""C25: the command-line tool does what the same blocks do through the Python API, and reports failures by its exit status."""
import io
import os
import subprocess
import sys

from lib import gen
from lib.vf import REPO, Logs, Workload, captured, short
from udapi.core.block import Block
from udapi.core.document import Document
from udapi.core.run import create_block

ID = 'C25'
PROCS = 8
RULE = 'distinct (flags, scenario, way of feeding the input) configurations of real udapy processes'
NEEDS = ['oracle.standard output', 'oracle.files', 'oracle.exit status 0', 'oracle.non-zero exit status', 'oracle.exit status asked for', 'oracle.output before the failure',
         'oracle.quiet', 'oracle.reader that stops early', 'oracle.verbose', 'oracle.the failure is reported', 'events.stdin', 'events.files', 'events.several documents', 'events.gc',
         'events.flag.s', 'events.flag.T', 'events.flag.H', 'events.flag.A', 'events.flag.C', 'events.flag.M', 'events.flag.N', 'events.flag.X', 'events.long flag',
         'events.printed at the end', 'events.large output', 'events.private block', 'events.writes files']
ASSUMPTIONS = ['udapy processes run with the interpreter of the check, UTF-8 locale, PYTHONPATH=/repo and a scratch current directory',
               'a reader of the standard output that goes away early is not a failure (documented in bin/udapy)']

UDAPY = os.path.join(REPO, 'bin', 'udapy')
LONG = dict(s='--save', T='--save_text_mode_trees', H='--save_html', A='--save_all_attributes', C='--save_comments', M='--marked_only', N='--no_color',
            X='--extra', q='--quiet', v='--verbose')

ECHO = '''
import sys
from udapi.core.block import Block
class Echo(Block):
    def __init__(self, **kwargs):
        super().__init__()
        self.kwargs = kwargs
    def say(self, what):
        print(what, ' '.join('%s=%r' % kv for kv in sorted(self.kwargs.items())))
    def process_start(self):
        self.say('start')
    def process_document(self, doc):
        self.say('document %d' % len(doc.bundles))
    def process_end(self):
        self.say('end')
'''


def udapy(argv, cwd, stdin=b'', hashseed=0):
    env = dict(PATH=os.environ.get('PATH', ''), LC_ALL='C.UTF-8', LANG='C.UTF-8', PYTHONPATH=REPO + os.pathsep + cwd, PYTHONDONTWRITEBYTECODE='1',
               PYTHONHASHSEED=str(hashseed), HOME=cwd)
    return subprocess.run([sys.executable, '-W', 'ignore', UDAPY] + argv, input=stdin, capture_output=True, cwd=cwd, env=env, timeout=300)


def value(text):
    """A command-line value as the API would be given it."""
    return int(text) if text.isascii() and text.isdigit() else text


def through_api(blocks, cwd, stdin, private=False):
    """What the blocks print through the API, and the exception which stopped them (or None)."""
    old_in, old_cwd = sys.stdin, os.getcwd()
    os.chdir(cwd)
    sys.stdin = io.TextIOWrapper(io.BytesIO(stdin), encoding='utf-8')
    if private:
        sys.path.insert(0, cwd)
    error = None
    try:
        with captured() as out, Logs():
            try:
                made = [create_block(name, **{k: value(v) for k, v in params}) for name, params in blocks]
                for b in made:
                    b.process_start()
                readers = [b for b in made if hasattr(b, 'finished')]
                if not readers:
                    readers = [create_block('read.Conllu')]
                    made = readers + made
                while True:
                    doc = Document()
                    for b in made:
                        b.apply_on_document(doc)
                    if all(r.finished for r in readers):
                        break
                for b in made:
                    b.process_end()
            except BaseException as e:   # pylint: disable=broad-except
                error = e
    finally:
        sys.stdin = old_in
        os.chdir(old_cwd)
        if private:
            sys.path.remove(cwd)
            for m in ('echo',):
                sys.modules.pop(m, None)
    return out.getvalue(), error


def listing(d):
    out = {}
    for base, _, names in os.walk(d):
        for n in names:
            p = os.path.join(base, n)
            if '__pycache__' in p:
                continue
            with open(p, 'rb') as f:
                out[os.path.relpath(p, d)] = f.read()
    return out


# blocks that work on any document (name, list of parameter alternatives)
WORK = [
    ('util.Eval', [[('node', 'node.misc["Mark"] = node.ord')], [('node', 'if node.ord % 2: node.misc["Mark"] = "a=b c"')],
                   [('node', 'node.lemma = node.form.lower() if node.form else None')],
                   [('node', 'print(node.form, node.ord == 1)')], [('tree', 'print(len(tree.descendants))')], [('bundle', 'print(bundle.bundle_id)')],
                   [('start', 'print("start")'), ('end', 'print("end of it")')], [('node', 'if node.upos == "VERB": print(node)')],
                   [('doc', 'print(len(list(doc.nodes)))'), ('xpand_code', '1')],
                   [('tree', 'tree.add_comment("žluťoučký = kůň")')], [('before_doc', 'print("before")'), ('after_doc', 'print("after")')]]),
    ('util.Wc', [[], [('tsv', '1')]]),
    ('util.Normalize', [[], [('feats', '1'), ('misc', '1'), ('sent_id', '1'), ('start_sent_id', '7')]]),
    ('util.Filter', [[('delete_tree', 'len(tree.descendants) > 4')], [('keep_tree_if_node', 'node.upos == "NOUN"')], [('mark', 'x'), ('keep_node', 'node.ord < 3')]]),
    ('util.See', [[('node', 'node.upos == "NOUN"'), ('n', '2')]]),
    ('util.Mark', [[('node', 'node.upos == "DET"')], [('node', 'node.deprel != "det"'), ('mark', '7'), ('add', '0')]]),
    ('util.Split', [[('parts', '3')]]),
    ('transform.Flatten', [[]]),
    ('transform.Proj', [[]]),
    ('ud.SetSpaceAfterFromText', [[]]),
    ('ud.FixChain', [[], [('deprels', 'flat,det')]]),
    ('demo.RehangPrepositions', [[]]),
    ('util.ResegmentGold', None),
    ('.Echo', None),
]
WRITE = [
    ('write.Conllu', [[], [('print_sent_id', '0')], [('print_text', '0'), ('print_empty_trees', '0')], [('files', 'out.conllu')], [('docname_as_file', '1')]]),
    ('write.Sentences', [[], [('if_missing', 'empty')], [('files', 'sub/s.txt')]]),
    ('write.TextModeTrees', [[], [('color', '1')], [('attributes', 'ord,form,upos')], [('layout', 'align'), ('files', 'trees')], [('files', '-')],
                             [('print_undef_as', '=')], [('mark', 'Gloss'), ('marked_only', '1')]]),
    ('write.TextModeTreesHtml', [[], [('title', 'my = title'), ('color', '0')], [('files', 't.html')]]),
    ('write.Tikz', [[]]),
    ('write.Html', [[], [('files', 'h.html')]]),
    ('write.Sdparse', [[]]),
]
DEMO_SKIP = {'demo.RehangPrepositions', 'util.ResegmentGold', 'util.Split', 'ud.SetSpaceAfterFromText'}


def gen_text(rng, nsent=None, max_n=6, names=False):
    sents = gen.gen_doc(rng, nsent=nsent, max_n=max_n, p_newdoc=0.0)
    for s in sents:
        for w in s.words:
            if w['form'] == '_':
                w['form'] = 'x'
    if names:
        sents[0].comments.insert(0, f'# newdoc id = {names}')
    return gen.to_text(sents)


def pick_blocks(rng, mon, feed):
    blocks, used = [], set()
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        name, alts = rng.choice(WORK)
        if name in DEMO_SKIP:
            continue
        if name == '.Echo':
            params = {}
            for _ in range(rng.randint(0, 3)):
                params[rng.choice(['a', 'key', 'x_y'])] = rng.choice(['1', '0', '12', 'a=b', '=', '', ' ', 'node.form == "x"', 'ž', "it's", 'a,b', '-1', '1.5', '-s', '{x}'])
            blocks.append((name, sorted(params.items())))
            mon.event('private block')
        else:
            blocks.append((name, rng.choice(alts)))
        if name in ('util.Wc',) or (name == 'util.Eval' and 'end' in dict(blocks[-1][1])) or name == 'util.See':
            mon.event('printed at the end')
    for _ in range(rng.choice([0, 1, 1, 2])):
        name, alts = rng.choice(WRITE)
        params = rng.choice(alts)
        d = dict(params)
        if feed != 'stdin' and ('files' in d and d['files'] != '-'):
            params = [(k, v) for k, v in params if k != 'files']     # one output file per document
        if 'docname_as_file' in d and 'files' in used:
            continue
        if 'files' in d and d['files'] != '-' and feed == 'stdin':
            if d['files'] in used:
                continue
            used.add(d['files'])
            mon.event('writes files')
        blocks.append((name, params))
    return blocks


def pick_flags(rng, mon, blocks):
    """Command-line flags and the blocks they stand for (a copy of `blocks` with them)."""
    blocks = [(n, list(p)) for n, p in blocks]
    flags = []
    if rng.random() < 0.75:
        main = rng.choice(['s', 'T', 'T', 'H', 'H', 'sT', 'TH', ''])
        flags = list(main)
        if 's' in main:
            blocks.append(('write.Conllu', []))
        if 'T' in main:
            blocks.append(('write.TextModeTrees', [('color', '1')]))
        if 'H' in main:
            blocks.append(('write.TextModeTreesHtml', [('color', '1')]))
        extra = []
        if main and main != 's':
            if rng.random() < 0.4:
                flags.append('A')
                blocks[-1][1].append(('attributes', 'form,lemma,upos,xpos,feats,deprel,misc'))
            if rng.random() < 0.4:
                flags.append('C')
                blocks[-1][1].append(('print_comments', '1'))
            if rng.random() < 0.4:
                flags.append('M')
                blocks[-1][1].append(('marked_only', '1'))
            if rng.random() < 0.4:
                flags.append('N')
                blocks[-1][1].append(('color', '0'))
            for k, v in [('layout', 'align'), ('attributes', 'form,misc'), ('print_sent_id', '0'), ('add_empty_line', '0'), ('print_doc_meta', '0')]:
                if rng.random() < 0.12:
                    extra.append([f'{k}={v}'])
                    blocks[-1][1].append((k, v))
        if rng.random() < 0.15:
            extra.append(['write.Sentences'])
            blocks.append(('write.Sentences', []))
            if rng.random() < 0.5:
                extra.append(['if_missing=empty'])
                blocks[-1][1].append(('if_missing', 'empty'))
    else:
        extra = []
    for f in flags:
        mon.event('flag.' + f)
    xs = [e[0] for e in extra]
    if xs:
        mon.event('flag.X')
    rng.shuffle(flags)
    argv = []
    if flags and rng.random() < 0.6:
        if xs and rng.random() < 0.5:
            argv.append('-' + ''.join(flags) + 'X')
            argv.append(xs[0])
            rest = xs[1:]
        else:
            argv.append('-' + ''.join(flags))
            rest = xs
        for x in rest:
            argv += ['-X', x]
    else:
        for f in flags:
            argv.append('-' + f if rng.random() < 0.6 else LONG[f])
            if argv[-1].startswith('--'):
                mon.event('long flag')
        for x in xs:
            argv += rng.choice([['-X', x], ['--extra', x], [f'--extra={x}']])
    # a later value of the same parameter wins
    merged = []
    for n, p in blocks:
        d = {}
        for k, v in p:
            d[k] = v
        merged.append((n, list(d.items())))
    return argv, merged


def argv_of(blocks):
    out = []
    for n, p in blocks:
        out.append(n)
        out += [f'{k}={v}' for k, v in p]
    return out


def prepare(rng, mon, blocks_of):
    """Two scratch directories with the same input, the blocks (incl. a reader) and the standard input."""
    feed = rng.choice(['stdin', 'stdin', 'stdin', 'files', 'files', 'per_doc'])
    mon.event('stdin' if feed != 'files' else 'files')
    dirs = [mon.scratch(), mon.scratch()]
    reader, stdin = [], b''
    if feed == 'stdin':
        stdin = gen_text(rng, names='doc1' if rng.random() < 0.7 else False).encode()
        if rng.random() < 0.3:
            reader = [('read.Conllu', rng.choice([[], [('files', '-')]]))]
    elif feed == 'files':
        n = rng.choice([1, 2, 3])
        names = [f'in {k}.conllu' if False else f'in{k}.conllu' for k in range(n)]
        for k, nm in enumerate(names):
            text = gen_text(rng, nsent=rng.choice([1, 2]), names=f'doc{k}')
            for d in dirs:
                with open(os.path.join(d, nm), 'w', encoding='utf-8') as f:
                    f.write(text)
        reader = [('read.Conllu', [('files', rng.choice([',', ' ']).join(names) if rng.random() < 0.5 else '!in*.conllu')])]
        if n > 1:
            mon.event('several documents')
    else:
        stdin = gen_text(rng, nsent=rng.choice([3, 4, 5])).encode()
        reader = [('read.Conllu', [('bundles_per_doc', '2')])]
        mon.event('several documents')
    for d in dirs:
        with open(os.path.join(d, 'echo.py'), 'w', encoding='utf-8') as f:
            f.write(ECHO)
    body = blocks_of(feed)
    return dirs, reader, body, stdin


def same(rng, mon, i):
    """Any scenario with any flags: bytes of the standard output, the files and exit status 0."""
    dirs, reader, body, stdin = prepare(rng, mon, lambda feed: pick_blocks(rng, mon, feed))
    argv, blocks = pick_flags(rng, mon, reader + body)
    if not blocks:
        blocks = [('write.Conllu', [])]
        body = blocks
    base = reader + body
    if rng.random() < 0.25:
        argv = ['--gc'] + argv
        mon.event('gc')
    noise = rng.choice(['', '', '', '-q', '--quiet', '-v', '--verbose'])
    if noise:
        argv = [noise] + argv
    if not base and not argv:
        return
    argv = argv + argv_of(base)
    mon.note(argv=argv, stdin=stdin.decode(), blocks=blocks)
    mon.state('configuration', repr((argv,)))
    out, error = through_api(blocks, dirs[0], stdin, private=True)
    mon.note(error=repr(error))
    res = udapy(argv, dirs[1], stdin, hashseed=rng.randint(0, 1000))
    mon.note(stderr=res.stderr.decode('utf-8', 'replace')[-3000:])
    if error is not None:
        mon.ok(res.returncode != 0, 'non-zero exit status', lambda: f'API raised {error!r}')
    else:
        mon.eq(res.returncode, 0, 'exit status 0', res.stderr.decode('utf-8', 'replace')[-1500:])
    mon.eq(res.stdout.decode('utf-8'), out, 'standard output')
    if error is None:
        mon.eq(listing(dirs[1]), listing(dirs[0]), 'files')
    if noise in ('-q', '--quiet') and error is None:
        mon.eq(res.stderr, b'', 'quiet')
    elif noise in ('-v', '--verbose'):
        mon.ok(b'DEBUG' in res.stderr, 'verbose', lambda: short(res.stderr))
    elif not noise:
        mon.ok(b'DEBUG' not in res.stderr, 'verbose', lambda: short(res.stderr))


def settings(rng, mon, i):
    """The garbage collector, verbosity and hash seed do not influence the results."""
    dirs, reader, body, stdin = prepare(rng, mon, lambda feed: pick_blocks(rng, mon, feed))
    argv, blocks = pick_flags(rng, mon, reader + body)
    if not blocks:
        argv = ['-s']
    argv = argv + argv_of(reader + body)
    mon.note(argv=argv, stdin=stdin.decode())
    mon.state('configuration', repr((argv,)))
    a = udapy(argv, dirs[0], stdin, hashseed=1)
    more = rng.choice([['--gc'], ['--gc', '-q'], ['-v'], ['-q', '--gc'], ['--gc', '--verbose']])
    b = udapy(more + argv, dirs[1], stdin, hashseed=2)
    mon.event('gc')
    mon.eq(b.returncode, a.returncode, 'settings do not change the results', f'exit status, {more}')
    mon.eq(b.stdout, a.stdout, 'settings do not change the results', str(more))
    mon.eq(listing(dirs[1]), listing(dirs[0]), 'settings do not change the results', f'files, {more}')


BROKEN_START = [
    ['no.SuchBlock'], ['util.NoSuchBlock'], ['NoSuchBlock'], ['util.eval'], ['util.Eval', 'nodes=1'], ['write.Conllu', 'fles=x'], ['write.Conllu', 'color=1'],
    ['files=x', 'read.Conllu'], ['a=b'], [], ['util.Mark'], ['read.Conllu', 'files=missing-file.conllu'], ['.nosuchmodule.Block'],
    ['write.TextModeTrees', 'attributes=nonsense'], ['util.Wc', 'write.Nowhere'], ['udpipe.Base', 'nomodel=1'], ['.broken.Block'], ['.Broken'],
    ['util.Eval', 'start=1/0'], ['.brokenend.BrokenEnd'], ['read.Conllu', 'files=!no-such-*.conllu'], ['read.Conllu', 'encoding=no-such-encoding'],
    ['util.Eval', 'end=raise ValueError("late")'], ['write.Conllu', 'files=echo.py/x']]


def failing(rng, mon, i):
    """A scenario that fails at a random place has a non-zero exit status; what it printed before is the same as through the API."""
    d1, d2 = mon.scratch(), mon.scratch()
    for d in (d1, d2):
        with open(os.path.join(d, 'broken.py'), 'w') as f:
            f.write('import udapi\nclass Broken(:\n')
        with open(os.path.join(d, 'echo.py'), 'w') as f:
            f.write(ECHO)
    text = gen_text(rng, nsent=rng.choice([1, 2, 3]))
    nodes = sum(1 for line in text.splitlines() if line.split('\t')[0].isdigit())
    stdin = text.encode()
    how = rng.choice(['broken', 'node', 'node', 'tree', 'end', 'exit', 'exit', 'exit', 'input', 'input', 'flags'])
    before = rng.choice([[], [('write.Conllu', [])], [('util.Eval', [('node', 'print(node.form)')])], [('write.Sentences', [])],
                         [('util.Eval', [('start', 'print("started")')]), ('write.TextModeTrees', [('color', '0')])]])
    after = rng.choice([[], [('write.Conllu', [])], [('util.Wc', [])]])
    flags = rng.choice([[], [], ['--gc'], ['-q'], ['-s'], ['-T'], ['-q', '--gc', '-s']])
    code = None
    broken = None
    if how == 'broken':
        broken = rng.choice(BROKEN_START)
        argv = broken if rng.random() < 0.5 or not broken or '=' in broken[0] else broken + ['write.Conllu']
        flags = [f for f in flags if f in ('--gc', '-q')]
        if not broken or '=' in broken[0]:
            pass
        elif rng.random() < 0.4:
            argv = ['util.Eval', 'node=node.lemma="x"'] + argv
    else:
        k = rng.randint(1, max(1, nodes))
        exc = rng.choice(['ValueError("x")', 'RuntimeError', 'KeyError(1)', 'AssertionError()', 'KeyboardInterrupt', 'MemoryError', 'StopIteration', 'RecursionError("r")'])
        counter = 'doc.meta["n"] = doc.meta.get("n", 0) + 1'
        if how == 'node':
            bad = ('util.Eval', [('node', f'{counter}\nif doc.meta["n"] == {k}: raise {exc}')])
        elif how == 'tree':
            bad = ('util.Eval', [('tree', f'print("tree")\nraise {exc}')])
        elif how == 'end':
            bad = ('util.Eval', [('end', f'print("the end")\nraise {exc}')])
        elif how == 'exit':
            code = rng.choice([1, 2, 3, 42, 255, 0, '"message"', 'None', 256, 257, 300, -1])
            where = rng.choice(['node', 'tree', 'end', 'start', 'doc'])
            bad = ('util.Eval', [(where, f'print("leaving")\nimport sys\nsys.exit({code})')])
        elif how == 'input':
            kind = rng.choice(['columns', 'head', 'cycle', 'bytes', 'nofile'])
            bad = None
            if kind == 'columns':
                stdin += b'1\tx\t_\t_\t_\t_\t0\t_\t_\t_\t_\n\n'
            elif kind == 'head':
                stdin += b'1\tx\t_\t_\t_\t_\tx\t_\t_\t_\n\n'
            elif kind == 'cycle':
                stdin += b'1\tx\t_\t_\t_\t_\t2\t_\t_\t_\n2\tx\t_\t_\t_\t_\t1\t_\t_\t_\n\n'
            elif kind == 'bytes':
                stdin += b'1\t\xff\xfe\t_\t_\t_\t_\t0\t_\t_\t_\n\n'
            else:
                before = [('read.Conllu', [('files', 'nofile.conllu')])] + before
        else:
            bad = ('write.Conllu', [])
            flags = rng.choice([['-sA'], ['-sM'], ['-sN'], ['-sX', 'nonsense=1'], ['-TX', 'nonsense=1'], ['-sX', 'no.Block'], ['-A', '-s', '--gc']])
        blocks = before + ([bad] if bad else []) + after
        if not blocks:
            blocks = [('write.Conllu', [])]
        argv = argv_of(blocks)
    mon.note(argv=flags + argv, stdin=stdin.decode('utf-8', 'replace'), how=how)
    mon.state('configuration', repr((flags, argv)))
    mon.event('failure.' + how)
    res = udapy(flags + argv, d2, stdin)
    mon.note(stderr=res.stderr.decode('utf-8', 'replace')[-3000:], stdout=res.stdout.decode('utf-8', 'replace')[:3000])
    if code is not None:
        want = {'"message"': 1, 'None': 0}[code] if isinstance(code, str) else code % 256
        mon.eq(res.returncode, want, 'exit status asked for', res.stderr.decode('utf-8', 'replace')[-500:])
        if code == '"message"':
            mon.ok(b'message' in res.stderr, 'the failure is reported', lambda: short(res.stderr))
    elif how in ('node', 'tree', 'input') and through_api(blocks, d1, stdin, private=True)[1] is None:
        mon.eq(res.returncode, 0, 'exit status 0')      # the failing step was not reached
        return
    else:
        mon.ok(res.returncode != 0, 'non-zero exit status', lambda: short(res.stderr.decode('utf-8', 'replace')[-1500:]))
        mon.ok(res.stderr.strip() != b'', 'the failure is reported')
    if how == 'broken' or how == 'flags':
        return
    full = list(blocks)
    if '-s' in flags:
        full.append(('write.Conllu', []))
    if '-T' in flags:
        full.append(('write.TextModeTrees', [('color', '1')]))
    out, error = through_api(full, d1, stdin, private=True)
    mon.ok(error is not None, 'the same failure through the API')
    mon.eq(res.stdout.decode('utf-8', 'replace'), out, 'output before the failure')


def early(rng, mon, i):
    """A reader of the standard output that goes away, and output larger than any buffer."""
    d = mon.scratch()
    text = gen_text(rng, nsent=4)
    n = rng.choice([100, 300])
    stdin = (text * n).encode()
    writer = rng.choice([['-s'], ['-T'], ['write.Sentences'], ['write.Conllu', 'util.Wc'], ['util.Eval', 'node=print(node)'], ['--gc', '-s']])
    flags = [w for w in writer if w.startswith('-')]
    scenario = [w for w in writer if not w.startswith('-')] or ['read.Conllu']
    argv = flags + scenario
    mon.note(argv=argv, text=text, n=n)
    mon.state('configuration', repr((argv, n)))
    with open(os.path.join(d, 'in'), 'wb') as f:
        f.write(stdin)
    env = dict(PATH=os.environ.get('PATH', ''), LC_ALL='C.UTF-8', PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', HOME=d)
    take = rng.choice([0, 1, 10, 1000, 5000])
    with open(os.path.join(d, 'in'), 'rb') as inp, open(os.path.join(d, 'err'), 'wb') as err:
        p = subprocess.Popen([sys.executable, '-W', 'ignore', UDAPY] + argv, stdin=inp, stdout=subprocess.PIPE, stderr=err, cwd=d, env=env)
        got = p.stdout.read(take)
        p.stdout.close()
        rc = p.wait(timeout=300)
    with open(os.path.join(d, 'err'), 'rb') as f:
        stderr = f.read().decode('utf-8', 'replace')
    res = udapy(argv, d, stdin)
    mon.event('large output')
    mon.eq(res.returncode, 0, 'exit status 0', res.stderr.decode('utf-8', 'replace')[-1500:])
    blocks = [(b, []) for b in scenario] if scenario != ['util.Eval', 'node=print(node)'] else [('util.Eval', [('node', 'print(node)')])]
    if '-s' in flags:
        blocks.append(('write.Conllu', []))
    if '-T' in flags:
        blocks.append(('write.TextModeTrees', [('color', '1')]))
    out, error = through_api(blocks, d, stdin)
    mon.ok(error is None, 'API works', repr(error))
    mon.eq(res.stdout.decode('utf-8'), out, 'standard output')
    mon.ok(res.stdout.startswith(got), 'reader that stops early', 'wrong bytes')
    if len(res.stdout) > 300000:    # otherwise the process may finish before the pipe is closed
        mon.eq(rc, 0, 'reader that stops early', stderr[-1500:])
    mon.ok('Traceback' not in stderr, 'reader that stops early', stderr[-1500:])


WORKLOADS = [Workload('same', same, 500, 6000), Workload('settings', settings, 80, 1000), Workload('failing', failing, 350, 4000),
             Workload('early', early, 10, 100)]
