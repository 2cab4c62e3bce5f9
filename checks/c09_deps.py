"""C09: enhanced dependencies keep pointing at the same nodes."""
from lib import gen, refconllu as ref
from lib.edits import History
from lib.treelib import random_tree, shape_of, build
from lib.vf import Workload
from udapi.core.document import Document

ID = 'C09'
RULE = 'distinct (enhanced graph, edit) pairs after which the graph was compared by node identity and through the stored file'
NEEDS = ['oracle.parsed heads', 'oracle.string view', 'oracle.edges kept', 'oracle.stored graph', 'events.edges to empty nodes',
         'events.edit.shift', 'events.edit.remove', 'events.edit.empty created', 'events.edit.empty removed', 'events.edits before the first read', 'oracle.bad head refused']
ASSUMPTIONS = []


def idx(n):
    return str(n.ord)


def string_list(rng, mon, i):
    """String to list and back, on fresh nodes, without edits."""
    s = gen.gen_sent(rng, p_empty=0.7, p_deps=1.0, many_empty=0.3, p_mwt=0.0)
    text = s.conllu()
    mon.note(input=text)
    doc = Document()
    doc.from_conllu_string(text)
    t = list(doc.trees)[0]
    nodes = list(t.descendants_and_empty)
    by_id = {'0': t}
    for n in nodes:
        by_id[idx(n)] = n
    mon.eq(len(by_id), len(nodes) + 1, 'unique indices')
    for n in rng.sample(nodes, min(len(nodes), 6)):
        for _ in range(rng.randint(1, 4)):
            pairs = [(rng.choice(sorted(by_id)), rng.choice(gen.EDEPRELS)) for _ in range(rng.randint(0, 4))]
            kind = rng.choice(['string', 'list', 'append', 'bad', 'modify', 'back'])
            if kind == 'string':
                n.raw_deps = '|'.join(f'{h}:{d}' for h, d in pairs) or '_'
                want = pairs
                if rng.random() < 0.3:
                    mon.eq(n.raw_deps, '|'.join(f'{h}:{d}' for h, d in want) or '_', 'string view')
            elif kind == 'back':
                # the string is assigned again after the list was changed
                old = n.raw_deps
                want = [tuple(x.split(':', 1)) for x in old.split('|')] if old != '_' else []
                n.deps.append(dict(parent=t, deprel='extra'))
                if rng.random() < 0.5:
                    del n.deps[0]
                n.raw_deps = old
            elif kind == 'list':
                n.deps = [dict(parent=by_id[h], deprel=d) for h, d in pairs]
                want = pairs
            elif kind == 'append':
                want = [(idx(d['parent']), d['deprel']) for d in n.deps] + pairs
                for h, d in pairs:
                    n.deps.append(dict(parent=by_id[h], deprel=d))
            elif kind == 'modify':
                if not n.deps:
                    continue
                k = rng.randrange(len(n.deps))
                want = [(idx(d['parent']), d['deprel']) for d in n.deps]
                want[k] = (rng.choice(sorted(by_id)), 'new:rel')
                n.deps[k]['parent'], n.deps[k]['deprel'] = by_id[want[k][0]], 'new:rel'
            else:
                bad = rng.choice([f'{len(t.descendants) + 1}', '0.99', f'{len(t.descendants)}.77', '1.15', 'x'])
                if bad in by_id:
                    continue
                n.raw_deps = bad + ':dep'
                mon.raises(lambda: n.deps, 'bad head refused', (ValueError, IndexError))
                n.raw_deps = '_'
                want = []
            mon.event('assigned by ' + kind)
            got = n.deps
            mon.ok(all(d['parent'] is by_id[h] for d, (h, _) in zip(got, want)) and [d['deprel'] for d in got] == [d for _, d in want],
                   'parsed heads', lambda: f'{[(idx(d["parent"]), d["deprel"]) for d in got]} expected {want}')
            mon.eq(n.raw_deps, '|'.join(f'{h}:{d}' for h, d in want) or '_', 'string view', kind)
            mon.event('edges to empty nodes', sum('.' in h for h, _ in want))
            mon.state('deps', repr((kind, want)))


def graph(nodes):
    return {n: [(d['parent'], d['deprel']) for d in n.deps] for n in nodes}


def show(g):
    return {n.form: [(p.form, r) for p, r in e] for n, e in g.items()}


def history(rng, mon, i):
    s = gen.gen_sent(rng, p_empty=0.6, p_deps=1.0, p_mwt=0.0, max_n=9, many_empty=0.1)
    for k, w in enumerate(s.words):
        w['form'] = f'w{k}'
    for k, (_, _, e) in enumerate(s.empties):
        e['form'] = f'e{k}'
    text = s.conllu()
    log = []
    mon.note(input=text, history=log)
    doc = Document()
    doc.from_conllu_string(text)
    t = list(doc.trees)[0]
    nodes = list(t.descendants_and_empty)
    by_id = {'0': t}
    for n in nodes:
        by_id[idx(n)] = n
    want = {}
    for n, w in zip(nodes, sorted(ref.parse(text)[0].words + ref.parse(text)[0].empties, key=lambda w: tuple(map(int, (w[0] + '.0').split('.')[:2])))):
        want[n] = [] if w[8] == '_' else [(by_id[d.split(':', 1)[0]], d.split(':', 1)[1]) for d in w[8].split('|')]
    # Some strings are read only after the edits.
    lazy = rng.random() < 0.5
    if not lazy:
        mon.ok(graph(nodes) == want, 'parsed heads', lambda: f'{show(graph(nodes))} expected {show(want)}')
    mon.event('history with strings not read yet' if lazy else 'history with strings read')
    h = History(rng, [t], log)
    serial = 0
    for _ in range(rng.randint(2, 10)):
        kind = rng.choice(['edit', 'edit', 'edit', 'new empty', 'remove empty'])
        words = list(t.descendants)
        if kind == 'edit':
            before = set(words)
            name, _ = h.edit(['create', 'attach', 'remove', 'shift', 'shift'])
            after = set(t.descendants)
            for n in before - after:
                want.pop(n, None)
            for n in after - before:
                want[n] = []
            gone = before - after
            for n in want:
                want[n] = [(p, r) for p, r in want[n] if p not in gone]
            mon.event('edit.' + name)
        elif kind == 'new empty' and words:
            p = rng.choice(words)
            serial += 1
            rel = rng.choice(gen.EDEPRELS)
            after = rng.random() < 0.7
            h.do('create_empty_child', p.ord, rel, after)
            e = p.create_empty_child(rel, after=after, form=f'ne{serial}')
            want[e] = [(p, rel)]
            mon.event('edit.empty created')
        elif kind == 'remove empty' and t.empty_nodes:
            e = rng.choice(t.empty_nodes)
            h.do('remove empty', str(e.ord))
            e.remove()
            want.pop(e)
            for n in want:
                want[n] = [(p, r) for p, r in want[n] if p is not e]
            mon.event('edit.empty removed')
        else:
            continue
        if lazy and rng.random() < 0.5:
            mon.event('edits before the first read')
            continue
        lazy = False
        nodes = list(t.descendants_and_empty)
        mon.eq(len(nodes), len(want), 'edges kept', 'number of nodes')
        got = graph(nodes)
        mon.ok(got == want, 'edges kept', lambda: f'{show(got)} expected {show(want)} after {log}')
        for n in nodes:
            mon.eq(n.raw_deps, '|'.join(f'{idx(p)}:{r}' for p, r in want[n]) or '_', 'string view', lambda: log)
        out = doc.to_conllu_string()
        if t.descendants:
            r = ref.parse(out)[0]
            forms = {'0': '<ROOT>'}
            for w in r.words + r.empties:
                mon.ok(w[0] not in forms, 'stored graph', lambda: f'index {w[0]} twice in {out}')
                forms[w[0]] = w[1]
            stored = {}
            for w in r.words + r.empties:
                stored[w[1]] = []
                for d in ([] if w[8] == '_' else w[8].split('|')):
                    head, rel = d.split(':', 1)
                    stored[w[1]].append((forms.get(head, 'MISSING ' + head), rel))
            mon.eq(stored, show(want), 'stored graph', lambda: log)
        mon.state('graph', repr((log[-1], sorted((k, v) for k, v in show(want).items()))))


WORKLOADS = [Workload('string and list', string_list, 11550, 69300), Workload('history', history, 15400, 92400)]
