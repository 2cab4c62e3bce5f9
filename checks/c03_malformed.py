"""C03: malformed CoNLL-U is rejected or repaired, never silently misread."""
import io

from lib import gen, refconllu as ref
from lib.treelib import malformed, heads
from lib.vf import Workload
from checks.c02_reader import judge
from udapi.core.document import Document
from udapi.block.read.conllu import Conllu as Reader
from udapi.block.read.conll import Conll as ConllReader

ID = 'C03'
RULE = 'distinct (corruption kind, head vector, position) tuples of corrupted sentences that were offered to the readers'
NEEDS = ['oracle.rejected', 'oracle.repaired tree is well-formed', 'oracle.only cycle words re-attached', 'events.kind.self', 'events.kind.cycle',
         'events.kind.range', 'events.kind.columns', 'events.kind.ids', 'events.kind.tokens']


def load(text, entry, **kw):
    if entry == 'string':
        doc = Document()
        if kw:
            Reader(filehandle=io.StringIO(text), **kw).apply_on_document(doc)
        else:
            doc.from_conllu_string(text)
        return [doc]
    if entry == 'slow':
        return Reader(filehandle=io.StringIO(text), bundles_per_doc=2, **kw).read_documents()
    if entry == 'max_docs':
        return Reader(filehandle=io.StringIO(text), max_docs=99, **kw).read_documents()
    return ConllReader(filehandle=io.StringIO(text), **kw).read_documents()


ENTRIES = ['string', 'string', 'slow', 'max_docs', 'conll']


def make_cycle(rng, heads_):
    """Redirect heads so that at least one cycle arises; returns the head list (index 0 unused)."""
    n = len(heads_) - 1
    h = list(heads_)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.randint(1, min(n, rng.choice([1, 2, 2, 3, 5, n])))
        cyc = rng.sample(range(1, n + 1), k)
        for a, b in zip(cyc, cyc[1:] + cyc[:1]):
            h[a] = b
    return h


def cycle_sets(h):
    """The cycles of the functional graph i -> h[i] (0 is the sink)."""
    n = len(h) - 1
    color = [0] * (n + 1)
    cycles = []
    for s in range(1, n + 1):
        path = []
        x = s
        while x != 0 and color[x] == 0:
            color[x] = 1
            path.append(x)
            x = h[x]
        if x != 0 and color[x] == 1:
            cycles.append(set(path[path.index(x):]))
        for y in path:
            color[y] = 2
    return cycles


def base(rng, **kw):
    sents = gen.gen_doc(rng, nsent=rng.choice([1, 1, 2, 3]), canonical=True, p_empty=0.15, **kw)
    k = rng.randrange(len(sents))
    return sents, k, sents[k]


def cycles(rng, mon, i):
    sents, k, s = base(rng)
    h = make_cycle(rng, [0] + [w['head'] for w in s.words])
    for w, x in zip(s.words, h[1:]):
        w['head'] = x
    text = gen.to_text(sents)
    mon.note(input=text)
    cs = cycle_sets(h)
    mon.ok(cs, 'harness: a cycle was made')
    mon.event('kind.self' if any(len(c) == 1 for c in cs) else 'kind.cycle')
    mon.state('cycles', ('cycle', tuple(h)))
    entry = rng.choice(ENTRIES if not s.empties else ENTRIES[:-1])
    mon.note(entry=entry)
    mon.raises(lambda: load(text, entry), 'rejected')
    docs = load(text, entry, fix_cycles=True)
    trees = [t for d in docs for t in d.trees]
    mon.eq(len(trees), len(sents), 'repaired: sentence count')
    tree = trees[k]
    bad = malformed(tree)
    mon.ok(bad is None, 'repaired tree is well-formed', lambda: f'{bad} (heads in file {h[1:]})')
    mon.eq([n.form for n in tree.descendants], [w['form'] for w in s.words], 'repaired tree has the same words')
    got = heads(tree)
    for j in range(1, len(h)):
        if got[j] != h[j]:
            mon.ok(got[j] == 0 and any(j in c for c in cs), 'only cycle words re-attached', lambda: f'word {j}: {h[j]} -> {got[j]}; {h[1:]}')
    for c in cs:
        mon.eq(sum(got[j] != h[j] for j in c), 1, 'one word per cycle re-attached', f'cycle {sorted(c)} of {h[1:]} became {got[1:]}')
    for j, t in enumerate(trees):
        if j != k:
            mon.eq(heads(t)[1:], [w['head'] for w in sents[j].words], 'other sentences unaffected')


def ranges(rng, mon, i):
    sents, k, s = base(rng)
    n = len(s.words)
    w = rng.choice(s.words)
    bad = rng.choice([n + 1, n + 2, n + 100, -1, -n, -n - 1, -2, 'x', '1.1', '', '1-2', '+', 10 ** 9])
    w['head'] = bad
    text = gen.to_text(sents)
    mon.note(input=text)
    mon.event('kind.range')
    mon.state('ranges', ('range', bad, n, s.words.index(w)))
    entry = rng.choice(ENTRIES if not s.empties else ENTRIES[:-1])
    kw = rng.choice([{}, {}, dict(fix_cycles=True), dict(strict=True)])
    mon.note(entry=entry, kw=kw)
    mon.raises(lambda: load(text, entry, **kw), 'rejected')


def columns(rng, mon, i):
    sents, k, s = base(rng)
    lines = s.lines()
    rows = [j for j, l in enumerate(lines) if l[0] != '#']
    j = rng.choice(rows)
    f = lines[j].split('\t')
    kind = rng.choice(['drop', 'add', 'dup', 'space', 'nohead', 'one'])
    if kind == 'drop':
        del f[rng.randrange(1, 10)]
    elif kind == 'add':
        f.append('_')
    elif kind == 'dup':
        p = rng.randrange(1, 10)
        f.insert(p, f[p])
    elif kind == 'space':
        p = rng.randrange(0, 9)
        f[p:p + 2] = [f[p] + ' ' + f[p + 1]]
    elif kind == 'one':
        f = f[:1]
    elif kind == 'nohead':
        if '.' in f[0] or '-' in f[0]:
            kind = 'drop'
            del f[9]
        else:
            f[6] = '_'
    lines[j] = '\t'.join(f)
    text = ''.join('\n'.join(lines) + '\n\n' if x is s else x.conllu() for x in sents)
    mon.note(input=text, bad_line=lines[j])
    mon.event('kind.columns')
    mon.state('columns', (kind, len(f), j, len(lines)))
    entry = rng.choice(ENTRIES if not s.empties else ENTRIES[:-1])
    mon.note(entry=entry)
    mon.raises(lambda: load(text, entry, strict=True), 'rejected')


def ids(rng, mon, i):
    sents, k, s = base(rng)
    s.mwts = []
    n = len(s.words)
    lines = s.lines()
    rows = [j for j, l in enumerate(lines) if l[0] != '#' and '.' not in l.split('\t')[0]]
    kind = rng.choice(['gap', 'dup', 'swap', 'offset', 'zero', 'word'])
    if kind in ('dup', 'swap') and n < 2:
        kind = 'gap'
    j = rng.choice(rows)

    def setid(row, x):
        f = lines[row].split('\t')
        f[0] = str(x)
        lines[row] = '\t'.join(f)
    if kind == 'gap':
        for row in rows[rows.index(j):]:
            setid(row, int(lines[row].split('\t')[0]) + rng.choice([1, 1, 2, 10]))
    elif kind == 'dup':
        j = rng.choice(rows[1:])
        setid(j, int(lines[j].split('\t')[0]) - 1)
    elif kind == 'swap':
        p = rng.randrange(len(rows) - 1)
        a, b = rows[p], rows[p + 1]
        lines[a], lines[b] = lines[b], lines[a]
    elif kind == 'offset':
        for row in rows:
            setid(row, int(lines[row].split('\t')[0]) + 5)
    elif kind == 'zero':
        for row in rows:
            setid(row, int(lines[row].split('\t')[0]) - 1)
    else:
        setid(j, rng.choice(['x', '1a', '', '1,1']))
    text = ''.join('\n'.join(lines) + '\n\n' if x is s else x.conllu() for x in sents)
    mon.note(input=text, kind=kind)
    mon.event('kind.ids')
    mon.state('ids', (kind, n, j))
    entry = rng.choice(ENTRIES if not s.empties else ENTRIES[:-1])
    mon.note(entry=entry)
    mon.raises(lambda: load(text, entry), 'rejected')


def tokens(rng, mon, i):
    """Multiword tokens over words which are not there."""
    sents, k, s = base(rng)
    n = len(s.words)
    s.mwts = []
    lines = s.lines()
    bad = rng.choice([(0, 1), (0, n), (1, n + 1), (n, n + 1), (n, n + 7), (n + 1, n + 2), (2, 1), (n, 1) if n > 1 else (3, 2), (0, 0), (2, 0), ('x', 1), (1, 'x'), ('', 1), (1, '')])
    rows = [j for j, l in enumerate(lines) if l[0] != '#'] + [len(lines)]
    lines.insert(rng.choice(rows), f'{bad[0]}-{bad[1]}\tab' + '\t_' * 8)
    text = ''.join('\n'.join(lines) + '\n\n' if x is s else x.conllu() for x in sents)
    mon.note(input=text, bad=bad)
    mon.event('kind.tokens')
    mon.state('tokens', (bad, n))
    entry = rng.choice(ENTRIES if not s.empties else ENTRIES[:-1])
    kw = rng.choice([{}, {}, dict(fix_cycles=True), dict(strict=True)])
    mon.note(entry=entry, kw=kw)
    mon.raises(lambda: load(text, entry, **kw), 'rejected')


def controls(rng, mon, i):
    """Well-formed input is accepted unchanged in strict and cycle-fixing mode."""
    sents, k, s = base(rng)
    text = gen.to_text(sents)
    mon.note(input=text)
    entry = rng.choice(ENTRIES[:-1])
    docs = load(text, entry, strict=rng.random() < 0.5, fix_cycles=rng.random() < 0.5)
    judge(mon, docs, ref.parse(text), entry)


WORKLOADS = [Workload('cycles', cycles, 9000, 54000), Workload('ranges', ranges, 3600, 21600), Workload('columns', columns, 3600, 21600),
             Workload('ids', ids, 3600, 21600), Workload('tokens', tokens, 1800, 10800), Workload('controls', controls, 1200, 7200)]
