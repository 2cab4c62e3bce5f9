"""C15: a scenario runs its blocks in the promised order on every document."""
import argparse
import glob
import importlib
import io
import os
import re
import sys

from lib import corefgen, gen
from lib import vf
from lib.vf import Logs, Workload, captured
from lib.probes import probe
from udapi.core.document import Document as Doc
from udapi.core.run import Run, create_block

ID = 'C15'
RULE = 'distinct scenarios (readers with their files, probe blocks with their zones and edits) whose complete call log was compared'
NEEDS = ['oracle.calls in order', 'oracle.documents', 'oracle.visits', 'oracle.other zones untouched', 'oracle.parameter value',
         'oracle.failure reported', 'oracle.empty trees', 'oracle.coref visits', 'oracle.default reader', 'oracle.block resolved',
         'events.probe.Node', 'events.probe.Tree', 'events.probe.Bundlesuper', 'events.probe.Empty', 'events.probe.Both',
         'events.visits while editing', 'events.readers.2', 'events.documents']
ASSUMPTIONS = ['probe blocks identify nodes by a MISC attribute; trees and bundles created while iterating may or may not be visited']

ZS = ['', 'cs', 'en', 'x_y']


def sentence(rng, uid, sid, zone, empties=True):
    n = rng.choice([1, 2, 3, 3, 5])
    par = gen.tree_parents(rng, n)
    out = f'# sent_id = {sid}' + (f'/{zone}' if zone else '') + '\n'
    nodes, em = [], []
    for i in range(0, n + 1):
        if i:
            out += f'{i}\tw{i}\t_\t_\t_\t_\t{par[i]}\tdep\t_\tuid={uid}.{i}\n'
            nodes.append(f'{uid}.{i}')
        if empties and rng.random() < 0.25:
            for k in range(1, rng.choice([1, 2, 3]) + 1):
                out += f'{i}.{k}\te\t_\t_\t_\t_\t_\t_\t0:dep\tuid={uid}.{i}.{k}\n'
                em.append(f'{uid}.{i}.{k}')
    return out + '\n', nodes, em


def make_inputs(rng, mon):
    """Readers: [(parameters, [per file: [bundle: [(zone, nodes, empties)]]])]."""
    d = mon.scratch()
    nreaders = rng.choice([1, 1, 2, 2, 3])
    readers = []
    zones = rng.sample(ZS, len(ZS))
    for r in range(nreaders):
        own = zones[0:2] if r == 0 and nreaders < 4 else [zones[r + 1 if r else 0]]
        override = rng.random() < 0.4 or r > 0
        files, paths = [], []
        for f in range(rng.choice([1, 1, 2, 3, 4])):
            bundles, text = [], ''
            for b in range(rng.choice([1, 2, 3, 5])):
                trees = []
                zs = [own[-1]] if override else rng.sample(own, rng.choice([1, len(own)]))
                for z in zs:
                    t, nodes, em = sentence(rng, f'r{r}f{f}b{b}z{z}', f'b{b}', '' if override else z)
                    text += t
                    trees.append((z, nodes, em))
                bundles.append(trees)
            files.append(bundles)
            path = f'{d}/r{r}f{f}.conllu'
            with open(path, 'w', encoding='utf-8') as fh:
                fh.write(text)
            paths.append(path)
        params = [f'files={",".join(paths)}'] + ([f'zone={own[-1]}'] if override else [])
        rng.shuffle(params)
        readers.append((params, files))
    return readers


def merged(readers, rnd):
    """The document of one round after all readers."""
    doc = []
    for _, files in readers:
        if rnd < len(files):
            for k, trees in enumerate(files[rnd]):
                if k == len(doc):
                    doc.append([])
                doc[k] += trees
    return doc


def plain(snap):
    return [[(z, nodes, em) for _, z, nodes, em in trees] for _, trees in snap]


def selected(zones, zone):
    return zones is None or zones == 'all' or zone in zones.split(',')


def expected_visits(kind, zones, snap):
    out = []
    for bundle, trees in snap:
        if kind in ('Bundle', 'Bundlesuper'):
            out.append(('bundle', bundle))
            if kind == 'Bundle':
                continue
        for tree, zone, nodes, em in trees:
            if not selected(zones, zone):
                continue
            if kind in ('Tree', 'Treesuper', 'Bundlesuper'):
                out.append(('tree', tree))
            if kind in ('Node', 'Both', 'Treesuper'):
                out += [('node', u) for u in nodes]
            if kind in ('Empty', 'Both'):
                out += [('empty', u) for u in em]
    return out


EDITS = dict(Node=['', 'create', 'create after', 'remove', 'first', 'last', 'reattach'], Both=['', 'create', 'remove', 'last'],
             Empty=['', 'remove', 'create'], Tree=['', 'remove', 'create'], Treesuper=['', 'create', 'first', 'remove'],
             Bundle=['', 'remove'], Bundlesuper=['', 'remove'], Document=[''])


def run_scenario(rng, mon, i):
    readers = make_inputs(rng, mon)
    probe.LOG.clear()
    # what stands between the readers only watches; after them the probes may edit
    items = []
    for r, (params, _) in enumerate(readers):
        if rng.random() < 0.4:
            items.append((rng.choice(list(EDITS)), '', rng.choice([None, 'all', 'cs'])))
        items.append(('reader', r, params))
    last = len(items)
    for _ in range(rng.choice([1, 2, 3, 5])):
        kind = rng.choice(list(EDITS))
        zones = rng.choice([None, 'all', '', 'cs', 'en', 'cs,en', 'x_y,', 'en,x_y', 'none', 'c', 'cs_x'])
        items.append((kind, rng.choice(EDITS[kind]), zones))
    scenario = []
    for k, (kind, edit, x) in enumerate(items):
        if kind == 'reader':
            scenario += ['read.Conllu'] + x
        else:
            args = [f'name=p{k}'] + ([f'edit={edit}'] if edit else []) + ([f'zones={x}'] if x is not None else [])
            rng.shuffle(args)
            scenario += [f'.lib.probes.{kind}'] + args
    mon.note(scenario=scenario)
    mon.state('scenario', repr([(a, b if a != 'reader' else len(x), None if a == 'reader' else x) for a, b, x in items]) +
              repr([[len(f) for f in files] for _, files in readers]))
    mon.event(f'readers.{len(readers)}')
    blocks = Run(argparse.Namespace(scenario=scenario)).execute()
    mon.eq([b[0] for b in blocks], [t for t in scenario if '=' not in t], 'blocks returned')

    log = list(probe.LOG)
    names = [f'p{k}' for k, it in enumerate(items) if it[0] != 'reader']
    kinds = {f'p{k}': it for k, it in enumerate(items) if it[0] != 'reader'}
    n = len(names)
    rounds = max(len(files) for _, files in readers)
    brief = [(e[0], e[1]) for e in log if e[1] in ('init', 'start', 'before', 'after', 'end')]
    want = [(x, 'init') for x in names] + [(x, 'start') for x in names]
    for _ in range(rounds):
        for x in names:
            want += [(x, 'before'), (x, 'after')]
    want += [(x, 'end') for x in names]
    mon.eq(brief, want, 'calls in order')
    # every call belongs to the block being applied
    docs, cur, pos = [], None, 2 * n
    per = []      # per application: [name, doc, before, visits, after]
    for e in log[2 * n:len(log) - n]:
        if e[1] == 'before':
            mon.ok(cur is None, 'calls in order')
            cur = [e[0], e[2], e[3], [], None]
        elif e[1] == 'after':
            mon.ok(cur is not None and cur[0] == e[0] and cur[1] is e[2], 'calls in order', e[:2])
            cur[4] = e[3]
            per.append(cur)
            cur = None
        else:
            mon.ok(cur is not None and cur[0] == e[0], 'calls in order', e[:2])
            cur[3].append(e[1:])
    mon.eq(len(per), rounds * n, 'calls in order')
    for rnd in range(rounds):
        group = per[rnd * n:(rnd + 1) * n]
        mon.ok(all(g[1] is group[0][1] for g in group), 'documents', 'one round, several documents')
        mon.ok(all(group[0][1] is not d for d in docs), 'documents', 'a document came twice')
        docs.append(group[0][1])
        mon.event('documents')
        prev = None
        for (name, doc, before, visits, after), k in zip(group, [k for k, it in enumerate(items) if it[0] != 'reader']):
            kind, edit, zones = kinds[name]
            done = sum(1 for it in items[:k] if it[0] == 'reader')
            if k < last or prev is None or k == last:
                mon.eq(plain(before), merged(readers[:done], rnd), 'documents', f'round {rnd} before {name}')
            else:
                mon.ok(before == prev, 'documents', f'{name} got something else than the previous block left')
            prev = after
            mon.event(f'probe.{kind}')
            if kind == 'Document':
                mon.ok(len(visits) == 1 and visits[0] == ('document', doc), 'visits')
                mon.ok(before == after, 'visits')
                continue
            wantv = expected_visits(kind, zones, before)
            newzone = [v for v in visits if v[0] == 'tree' and v[1].zone == 'zz'] if edit == 'create' else []
            if edit == 'create' and kind == 'Tree':
                old = {id(t) for _, trees in before for t, _, _, _ in trees}
                visits = [v for v in visits if id(v[1]) in old]
                del newzone
            mon.ok(len(visits) == len(wantv) and all(a[0] == b[0] and (a[1] is b[1] or (isinstance(a[1], str) and a[1] == b[1]))
                                                     for a, b in zip(visits, wantv)), 'visits',
                   lambda: f'{name} {kind} edit={edit!r} zones={zones!r} visited {[(v[0], str(v[1])) for v in visits]}, '
                           f'expected {[(v[0], str(v[1])) for v in wantv]}')
            if edit and visits:
                mon.event('visits while editing', len(visits))
            # trees of other zones stay where they were, as they were
            if kind in ('Bundle',):
                mon.eq([] if edit else plain(before), plain(after), 'other zones untouched', f'{name} {kind} {edit}')
            else:
                rest = lambda snap: [(id(b), [(id(t), z, nn, ee) for t, z, nn, ee in trees if not selected(zones, z) and z != 'zz'])
                                     for b, trees in snap]
                mon.eq(rest(after), rest(before), 'other zones untouched', f'{name} {kind} {edit}')
                if not edit:
                    mon.ok(before == after, 'other zones untouched', 'a watching probe changed the document')


def value(rng):
    if rng.random() < 0.2:
        return str(rng.choice([0, 1, 7, 10, 123456789012345678901234567890]))
    if rng.random() < 0.1:
        return rng.choice(['007', '00'])
    pieces = ['a', 'B', '=', '==', ' ', '"', "'", '\\', '\n', '\t', ',', '.', ';', '²', '½', '-5', '1.5', '+1', 'ž', '日', '{', '}', '%s', '%', '#',
              'x=y', '$HOME', '`', '(', ')', 'None', 'True', '\u2028', '/', '0x1', '1e3', '\x00', '𝟙x', '_']
    return ''.join(rng.choice(pieces) for _ in range(rng.choice([0, 1, 1, 2, 4, 8])))


def run_params(rng, mon, i):
    probe.LOG.clear()
    scenario, want = [], []
    for k in range(rng.choice([1, 1, 2, 4])):
        cls = rng.choice(['Node', 'Tree', 'Document', 'Empty'])
        scenario.append(f'.lib.probes.{cls}')
        args = {'name': f'n{k}'}
        for key in rng.sample(['arg', 'edit', 'zones', 'if_empty_tree'], rng.choice([0, 1, 2, 3])):
            args[key] = value(rng)
            if rng.random() < 0.2:
                scenario.append(f'{key}=overridden')   # the last value counts
            scenario.append(f'{key}={args[key]}')
        scenario.append(f'name=n{k}')
        want.append((cls, {a: int(v) if re.fullmatch('[0-9]+', v) else v for a, v in args.items()}))
    d = mon.scratch()
    with open(f'{d}/empty.conllu', 'w') as f:
        pass
    mon.note(scenario=scenario)
    mon.state('scenario', repr(scenario))
    pos = rng.choice([0, len(want)])
    reader = ['read.Conllu', f'files={d}/empty.conllu']
    blocks = Run(argparse.Namespace(scenario=reader + scenario if pos == 0 else scenario + reader)).execute()
    blocks = blocks[1:] if pos == 0 else blocks[:-1]
    mon.eq(len(blocks), len(want), 'parameter value')
    for (name, block, _), (cls, args) in zip(blocks, want):
        mon.eq(type(block).__name__, cls, 'parameter value')
        for key in ('name', 'arg', 'edit', 'zones', 'if_empty_tree'):
            default = dict(zones='all', if_empty_tree='process', edit='', arg=None)
            w = args.get(key, default.get(key))
            if key == 'name':
                w = str(w)
            got = getattr(block, key)
            mon.ok(got == w and type(got) is type(w), 'parameter value', f'{key}: got {got!r} want {w!r}')
    # the factory passes Python values as they are
    obj = rng.choice([None, 5, '5', [1], {'a': 1}, 2.5, '=x'])
    b = create_block('.lib.probes.Tree', name='f', arg=obj)
    mon.ok(type(b) is probe.Tree and b.arg is obj, 'parameter value', 'create_block')


def run_failures(rng, mon, i):
    d = mon.scratch()
    text, _, _ = sentence(rng, 'u', 'b0', '')
    with open(f'{d}/a.conllu', 'w', encoding='utf-8') as f:
        f.write(text)
    rd = ['read.Conllu', f'files={d}/a.conllu']
    ok1 = ['.lib.probes.' + rng.choice(['Node', 'Tree', 'Document']), 'name=ok1']
    ok2 = ['.lib.probes.' + rng.choice(['Node', 'Tree', 'Document']), 'name=ok2']
    kind = rng.choice(['fail', 'nothing', 'unknown', 'class', 'extra', 'param first', 'empty', 'notlist', 'badempty', 'kwargs'])
    probe.LOG.clear()

    def run(sc):
        mon.note(scenario=sc)
        with Logs():
            Run(argparse.Namespace(scenario=sc)).execute()
    mon.event(f'failure.{kind}')
    label = 'failure reported'
    if kind == 'fail':
        mon.raises(lambda: run(rd + ok1 + ['.lib.probes.Fail', 'name=bad'] + ok2), label, ArithmeticError)
        mon.ok(('ok1', 'start') in [e[:2] for e in probe.LOG] and ('ok2', 'start') in [e[:2] for e in probe.LOG], label)
        mon.ok(not any(e[1] == 'end' for e in probe.LOG), label, 'process_end after a failure')
        mon.ok(not any(e[0] == 'ok2' and e[1] not in ('init', 'start') for e in probe.LOG), label, 'blocks after a failure')
    elif kind == 'nothing':
        err = mon.raises(lambda: run(rd + ok1 + ['.lib.probes.Nothing']), label)
        mon.ok('No processing activity' in str(err), label, str(err))
    elif kind == 'unknown':
        bad = rng.choice(['write.Nonexistent', 'nonexistent.Block', 'ud.nope.Block', '.no.such.Module', 'Conllu', 'read.Conllu.x'])
        err = mon.raises(lambda: run(rd + ok1 + [bad] + ok2), label, (ImportError, SyntaxError))
        mon.ok(not any(e[1] == 'start' for e in probe.LOG), label, 'a block was started')
    elif kind == 'class':
        bad = rng.choice(['read.conllu', 'write.CONLLU', 'util.wC'])
        mon.raises(lambda: run(rd + [bad]), label, ImportError)
    elif kind == 'extra':
        blk, extra = rng.choice([('write.Conllu', 'nope=1'), ('util.Wc', 'zonez=cs'), ('.lib.probes.Node', 'x=y'),
                                 ('read.Conllu', 'Files=x'), ('write.TextModeTrees', 'colour=1')])
        err = mon.raises(lambda: run(rd + ok1 + [blk, extra]), label, TypeError)
        mon.ok(extra.split('=')[0] in str(err), label, str(err))
        mon.ok(not any(e[1] == 'start' for e in probe.LOG), label, 'a block was started')
    elif kind == 'kwargs':
        blk = rng.choice(['util.Mark', 'util.See', 'util.MarkDiff', 'eval.F1', 'eval.Parsing', 'ud.FixPseudoCop'])
        mon.raises(lambda: run(rd + [blk]), label, TypeError)
    elif kind == 'param first':
        mon.raises(lambda: run(['files=x'] + rd), label, RuntimeError)
    elif kind == 'empty':
        mon.raises(lambda: run([]), label, ValueError)
    elif kind == 'notlist':
        mon.raises(lambda: run(rng.choice(['read.Conllu', ('read.Conllu',), None])), label, TypeError)
    elif kind == 'badempty':
        doc = Doc()
        doc.create_bundle().create_tree()
        mon.raises(lambda: create_block('.lib.probes.Tree', if_empty_tree=rng.choice(['ignore', 'Skip', 'deleted'])).run(doc), label, ValueError)


def run_empty_trees(rng, mon, i):
    """if_empty_tree, on documents built by the API."""
    probe.LOG.clear()
    doc = Doc()
    for b in range(rng.choice([1, 2, 4])):
        bundle = doc.create_bundle()
        for z in rng.sample(ZS, rng.choice([1, 2, 3])):
            tree = bundle.create_tree(z)
            for k in range(rng.choice([0, 0, 1, 2])):
                tree.create_child(form='x', misc=f'uid=b{b}z{z}w{k}')
            if rng.random() < 0.2:
                e = tree.create_empty_child(misc=f'uid=b{b}z{z}e0')
    kind = rng.choice(['Tree', 'Node', 'Both', 'Treesuper', 'Bundlesuper', 'Empty'])
    mode = rng.choice(['process', 'skip', 'skip_warn', 'fail', 'delete'])
    zones = rng.choice(['all', '', 'cs', 'en', 'cs,en', 'x_y,', 'none'])
    before = probe.snapshot(doc)
    mon.note(kind=kind, mode=mode, zones=zones, before=plain(before))
    mon.state('empty', repr((kind, mode, zones, plain(before))))
    block = create_block(f'.lib.probes.{kind}', name='e', zones=zones, if_empty_tree=mode)
    hit = [(b, t) for b, trees in before for t, z, nodes, _ in trees if selected(zones, z) and not nodes]
    with Logs() as logs:
        if mode == 'fail' and hit:
            mon.raises(lambda: block.run(doc), 'empty trees')
            mon.ok(probe.snapshot(doc) == before, 'empty trees', 'changed by a refused run')
            return
        block.run(doc)
        warnings = len([m for m in logs.messages() if 'empty' in m])
    mon.eq(warnings, len(hit) if mode == 'skip_warn' else 0, 'empty trees', 'warnings')
    keep = before if mode == 'process' else [(b, [x for x in trees if not (selected(zones, x[1]) and not x[2])]) for b, trees in before]
    want = expected_visits(kind, zones, keep)
    visits = [e[1:3] for e in probe.LOG if e[1] in ('bundle', 'tree', 'node', 'empty')]
    mon.ok(len(visits) == len(want) and all(a[0] == b[0] and (a[1] is b[1] or a[1] == b[1]) for a, b in zip(visits, want)), 'empty trees',
           lambda: f'{[(v[0], str(v[1])) for v in visits]} want {[(v[0], str(v[1])) for v in want]}')
    mon.ok(probe.snapshot(doc) == (keep if mode == 'delete' else before), 'empty trees', 'document after the block')


def run_coref(rng, mon, i):
    probe.LOG.clear()
    model = corefgen.gen_model(rng)
    corefgen.annotate(rng, model)
    text = gen.to_text(model.sents)
    doc = Doc()
    doc.from_conllu_string(text)
    for _ in range(rng.choice([0, 0, 1, 2])):     # entities without mentions
        doc.create_coref_entity()
    kind, edit = rng.choice([('Mention', ''), ('Mention', 'remove'), ('Entity', '')])
    mon.note(kind=kind, edit=edit, text=text)
    want = []
    for e in doc.coref_entities:
        if kind == 'Entity':
            want.append(('entity', e.eid))
        for m in e.mentions:
            want.append(('mention', e.eid, m.span))
    mon.state('coref', repr((kind, edit, len(want), [w[1] for w in want])))
    create_block(f'.lib.probes.{kind}', name='c', edit=edit).run(doc)
    got = [e[1:] for e in probe.LOG if e[1] in ('entity', 'mention')]
    if edit != 'remove':
        mon.eq(got, want, 'coref visits')
    else:   # spans are rendered while the mentions disappear, so only entities are compared
        mon.eq([g[1] for g in got], [w[1] for w in want], 'coref visits')
    mon.event('mentions visited', len(got))


def run_stdin(rng, mon, i):
    probe.LOG.clear()
    text, want = '', []
    for b in range(rng.choice([1, 2, 3])):
        t, nodes, em = sentence(rng, f'b{b}', f'b{b}', '')
        text += t
        want.append([('', nodes, em)])
    mon.note(text=text)
    mon.state('stdin', text)
    old = sys.stdin
    sys.stdin = io.TextIOWrapper(io.BytesIO(text.encode('utf-8')), encoding='utf-8')
    try:
        explicit = rng.random() < 0.3
        sc = (['read.Conllu'] if explicit else []) + ['.lib.probes.Node', 'name=a', '.lib.probes.Tree', 'name=b']
        blocks = Run(argparse.Namespace(scenario=sc)).execute()
    finally:
        sys.stdin = old
    mon.eq([b[0] for b in blocks], ['read.Conllu', '.lib.probes.Node', '.lib.probes.Tree'], 'default reader')
    mon.eq([e[:2] for e in probe.LOG if e[1] in ('start', 'before', 'after', 'end')], [(x, y) for ys in (['start'], ['before', 'after'], ['end']) for x in 'ab' for y in ys], 'default reader')
    befores = [e[3] for e in probe.LOG if e[:2] == ('a', 'before')]
    mon.eq([plain(b) for b in befores], [want], 'default reader')
    mon.eq([e[2] for e in probe.LOG if e[1] == 'node'], [u for t in want for u in t[0][1]], 'default reader')


def unknown_block(rng, mon):
    """A misspelt name is reported, with the names to choose from."""
    base = os.path.join(vf.REPO, 'udapi', 'block')
    pkg = rng.choice([d for d in sorted(os.listdir(base)) if os.path.isdir(os.path.join(base, d)) and d[0] not in '._' and d != 'udpipe'])
    name = f'{pkg}.Nosuchblock{rng.randint(0, 9)}'
    with Logs(), captured():
        err = mon.raises(lambda: create_block(name), 'unknown block', ModuleNotFoundError)
        err2 = mon.raises(lambda: create_block('nosuchpkg.Block'), 'unknown block', ModuleNotFoundError)
    mon.ok('nosuchpkg' in str(err2), 'unknown block', str(err2))
    mon.ok(name in str(err), 'unknown block', str(err))
    for path in sorted(glob.glob(os.path.join(base, pkg, '*.py'))):
        last = os.path.basename(path)[:-3]
        names = [c for c in re.findall(r'^class (\w+)\(', open(path, encoding='utf-8').read(), re.M) if c.lower() == last]
        if len(names) == 1:
            try:
                importlib.import_module(f'udapi.block.{pkg}.{last}')
            except ImportError:
                continue
            mon.ok(f'{pkg}.{names[0]}' in str(err).split('\n'), 'unknown block', lambda: f'{pkg}.{names[0]} is not among the suggestions')


def run_resolve(rng, mon, i):
    """Every block of the package is found by its documented name."""
    base = os.path.join(vf.REPO, 'udapi', 'block')
    paths = sorted(p for p in glob.glob(base + '/*/*.py') + glob.glob(base + '/*/*/*.py') if not p.endswith('__init__.py'))
    mine = paths[i::8]
    for _ in range(2):
        unknown_block(rng, mon)
    for path in mine:
        mod = os.path.relpath(path, base)[:-3].replace(os.sep, '.')
        pkg, last = mod.rsplit('.', 1)
        src = open(path, encoding='utf-8').read()
        names = [c for c in re.findall(r'^class (\w+)\(', src, re.M) if c.lower() == last]
        if len(names) != 1 or pkg == 'udpipe':     # those connect to a server or load a model
            continue
        name = f'{pkg}.{names[0]}'
        try:
            importlib.import_module('udapi.block.' + mod)
        except ImportError:
            mon.event('blocks whose dependencies are not installed')
            continue
        mon.note(block=name)
        with Logs(), captured():
            try:
                block = create_block(name)
            except TypeError as err:
                if 'required positional argument' in str(err):
                    mon.event('blocks with required parameters')
                    continue
                raise
            except (ValueError, ImportError, OSError, LookupError):
                mon.event('blocks which need resources')
                continue
        mon.ok(type(block).__name__ == names[0] and type(block).__module__ == 'udapi.block.' + mod, 'block resolved', name)
        mon.state('block', name)


WORKLOADS = [Workload('scenario', run_scenario, 2800, 16800), Workload('params', run_params, 1650, 9900),
             Workload('failures', run_failures, 650, 3900), Workload('empty trees', run_empty_trees, 2800, 16800),
             Workload('coref', run_coref, 450, 2700), Workload('stdin', run_stdin, 200, 1200), Workload('resolve', run_resolve, 8, 8)]
