"""C10: empty nodes keep unique, ordered indices next to the right words."""
from lib import gen, refconllu as ref
from lib.edits import Model, place
from lib.vf import Workload
from udapi.core.document import Document

ID = 'C10'
RULE = 'distinct (index layout, operation) pairs; the sequence of words and empty nodes is compared with a reference list after each operation'
NEEDS = ['oracle.sequence', 'oracle.index', 'oracle.unique and sorted', 'oracle.stored IDs', 'oracle.edges dropped', 'events.op.create',
         'events.op.remove empty', 'events.op.remove word', 'events.op.move', 'events.beyond nine', 'events.two digits', 'events.child of an empty node']
ASSUMPTIONS = ['moves of whole subtrees are outside (documented as not implemented for empty nodes)',
               'a word moved next to empty nodes may end on either side of those at the target gap']


def key(n):
    s = str(n.ord)
    return tuple(map(int, s.split('.'))) if '.' in s else (int(s), 0)


def keys(t):
    return [str(n.ord) for n in t.descendants_and_empty]


def judge(mon, t, seq, detail):
    """seq: expected sequence of all words and empty nodes."""
    got = list(t.descendants_and_empty)
    mon.ok(len(got) == len(seq) and all(a is b for a, b in zip(got, seq)), 'sequence',
           lambda: f'{[x.form for x in got]} with {[str(x.ord) for x in got]} expected {[x.form for x in seq]} after {detail}')
    ks = [key(n) for n in got]
    mon.eq(ks, sorted(set(ks)), 'unique and sorted', lambda: detail)
    emp = list(t.empty_nodes)
    mon.ok([key(e) for e in emp] == sorted(key(e) for e in emp), 'unique and sorted', lambda: f'empty_nodes {[str(e.ord) for e in emp]} after {detail}')
    major = 0
    for n in seq:
        if n.is_empty():
            mon.eq(key(n)[0], major, 'index', lambda: f'integer part of {n.form} after {detail}')
            mon.ok(key(n)[1] >= 1, 'index', lambda: detail)
            mon.event('beyond nine', int(key(n)[1] > 9))
            mon.event('two digits', int(key(n)[0] > 9))
        else:
            major += 1
            mon.eq(key(n), (major, 0), 'index', lambda: detail)
    for a in got[:6]:
        for b in got[-6:]:
            mon.eq((a < b, a == b, a > b), (key(a) < key(b), a is b, key(a) > key(b)), 'comparison of ords', lambda: (str(a.ord), str(b.ord)))


def history(rng, mon, i):
    n = rng.randint(1, 6) if rng.random() < 0.85 else rng.randint(8, 13)     # indices of two digits as well
    doc = Document()
    log = []
    if rng.random() < 0.4:
        s = gen.gen_sent(rng, n=n, p_empty=0.8, p_deps=0.7, p_mwt=0.0, many_empty=0.3)
        for k, w in enumerate(s.words):
            w['form'] = f'w{k}'
        for k, e in enumerate(s.empties):
            e[2]['form'] = f'e{k}'
        doc.from_conllu_string(s.conllu())
        t = list(doc.trees)[0]
        mon.note(input=s.conllu())
        for x in t.descendants_and_empty:
            _ = x.deps      # once accessed as a list, edges follow their nodes
    else:
        t = doc.create_bundle().create_tree()
        par = gen.tree_parents(rng, n)
        nodes = [t] + [t.create_child(form=f'w{k}') for k in range(n)]
        for k in range(1, n + 1):
            if par[k]:
                nodes[k].parent = nodes[par[k]]
    mon.note(history=log)
    seq = list(t.descendants_and_empty)
    judge(mon, t, seq, 'start')
    serial = 0
    burst = rng.random() < 0.2
    for _ in range(rng.randint(3, 30 if burst else 14)):
        words = list(t.descendants)
        if not words:
            break
        op = 'create' if burst and rng.random() < 0.8 else rng.choice(['create', 'create', 'remove empty', 'remove word', 'move', 'move', 'rehang'])
        before = keys(t)
        if op == 'create':
            w = rng.choice(words[:1] + words[-1:]) if burst else rng.choice(words)
            after = rng.random() < 0.7
            if t.empty_nodes and rng.random() < 0.15:
                w, after = rng.choice(t.empty_nodes), True      # governed by another empty node
                mon.event('child of an empty node')
            log.append((op, str(w.ord), 'after' if after else 'before'))
            serial += 1
            major = key(w)[0] if after else key(w)[0] - 1
            used = {key(e)[1] for e in t.empty_nodes if key(e)[0] == major and key(e)[1] > key(w)[1] * w.is_empty()}
            minor = next(k for k in range(1 + key(w)[1] * w.is_empty(), 1000) if k not in used)
            rel = rng.choice(gen.EDEPRELS)
            e = w.create_empty_child(rel, after=after, form=f'n{serial}', lemma='l', upos='X') if not after or rng.random() < 0.5 \
                else w.create_empty_child(deprel=rel, form=f'n{serial}', lemma='l', upos='X')
            mon.eq(str(e.ord), f'{major}.{minor}', 'index', lambda: f'next free index after {log}')
            mon.ok(e.is_empty() and e.root is t and e.parent is None and [(d['parent'], d['deprel']) for d in e.deps] == [(w, rel)]
                   and (e.lemma, e.upos) == ('l', 'X'), 'created empty node', lambda: f'{e.deps}')
            k = next((j for j, x in enumerate(seq) if key_in(seq, x) > (major, minor)), len(seq))
            seq.insert(k, e)
        elif op == 'remove empty':
            if not t.empty_nodes:
                continue
            e = rng.choice(t.empty_nodes)
            log.append((op, str(e.ord)))
            maj, mnr = key(e)
            want_keys = []
            for x in seq:
                if x is not e:
                    a, b = key(x)
                    want_keys.append((a, b - 1) if a == maj and b > mnr else (a, b))
            e.remove()
            seq = [x for x in seq if x is not e]
            mon.eq([key(x) for x in t.descendants_and_empty], want_keys, 'index', lambda: f'gap closed after {log}')
            if rng.random() < 0.3:
                e.remove()      # removing twice does nothing
        elif op == 'remove word':
            w = rng.choice(words)
            log.append((op, w.ord))
            gone = set(Model(t).sub(w))
            w.remove()
            seq = [x for x in seq if x not in gone]
        elif op == 'rehang':
            w = rng.choice(words)
            log.append((op, w.ord))
            w.remove(children='rehang')
            seq = [x for x in seq if x is not w]
        else:
            w, r = rng.choice(words), rng.choice(words)
            if w is r:
                continue
            name = rng.choice(['shift_after_node', 'shift_before_node', 'shift_after_subtree', 'shift_before_subtree'])
            without = True if w.children else rng.random() < 0.5
            log.append((name, w.ord, r.ord))
            order = place(Model(t), w, r, name, True)
            getattr(w, name)(r, without_children=without)
            rest = [x for x in seq if x is not w]
            got = list(t.descendants_and_empty)
            mon.ok([x for x in got if x is not w] == rest, 'sequence',
                   lambda: f'{[(x.form, str(x.ord)) for x in got]} expected {[x.form for x in rest]} apart from the moved word after {log}')
            mon.ok(list(t.descendants) in order, 'sequence', lambda: f'words after {log}')
            seq = got
        mon.event('op.' + op)
        judge(mon, t, seq, log)
        mon.state('layout and op', repr((before, log[-1])))
    # enhanced edges: removal of an empty node drops exactly the edges to it
    if t.descendants:
        out = doc.to_conllu_string()
        r = ref.parse(out)[0]
        mon.eq([e[:2] for e in r.empties], [[str(e.ord), e.form] for e in t.empty_nodes], 'stored IDs', lambda: out)
        mon.eq([x.split('\t')[0] for x in out.split('\n') if x and x[0] != '#'], [str(x.ord) for x in seq], 'stored IDs', lambda: out)


def key_in(seq, x):
    return key(x)


def edges(rng, mon, i):
    """Removing an empty node drops exactly the enhanced edges leading to it, lazily loaded or not."""
    s = gen.gen_sent(rng, p_empty=1.0, p_deps=1.0, p_mwt=0.0, max_n=rng.choice([7, 7, 13]), many_empty=0.2)
    for k, w in enumerate(s.words):
        w['form'] = f'w{k}'
    for k, e in enumerate(s.empties):
        e[2]['form'] = f'e{k}'
    doc = Document()
    doc.from_conllu_string(s.conllu())
    mon.note(input=s.conllu())
    t = list(doc.trees)[0]
    form = {str(k): w['form'] for k, w in enumerate(s.words, 1)}
    form.update({f'{a}.{b}': e['form'] for a, b, e in s.empties})
    form['0'] = '<ROOT>'
    want = {}
    for f, w in [(w['form'], w) for w in s.words] + [(e['form'], e) for _, _, e in s.empties]:
        want[f] = [] if w['deps'] == '_' else [(form[d.split(':', 1)[0]], d.split(':', 1)[1]) for d in w['deps'].split('|')]
    for _ in range(rng.randint(1, 4)):
        if not t.empty_nodes:
            break
        if rng.random() < 0.4:
            for x in rng.sample(list(t.descendants_and_empty), 1):
                _ = x.deps
        e = rng.choice(t.empty_nodes)
        f = e.form
        e.remove()
        del want[f]
        for k in want:
            want[k] = [p for p in want[k] if p[0] != f]
        mon.event('op.remove empty')
        lazy = doc.to_conllu_string() if rng.random() < 0.5 else None
        got = {x.form: [(d['parent'].form, d['deprel']) for d in x.deps] for x in t.descendants_and_empty}
        mon.eq(got, want, 'edges dropped', f)
        r = ref.parse(lazy or doc.to_conllu_string())[0]
        names = {w[0]: w[1] for w in r.words + r.empties}
        names['0'] = '<ROOT>'
        stored = {w[1]: [] if w[8] == '_' else [(names[d.split(':', 1)[0]], d.split(':', 1)[1]) for d in w[8].split('|')] for w in r.words + r.empties}
        mon.eq(stored, want, 'edges dropped', 'in the stored file')
        mon.state('edges', repr(sorted(want.items())))


WORKLOADS = [Workload('history', history, 17500, 105000), Workload('edges', edges, 4350, 26100)]
