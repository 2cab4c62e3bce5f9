"""C18: projectivization and deprojectivization."""
from lib import gen
from lib.treelib import build, malformed, snapshot
from lib.vf import Workload
from udapi.core.document import Document
from udapi.core.run import create_block

ID = 'C18'
RULE = 'distinct (heads, deprels, options) trees with at least one non-projective edge, judged before and after by definition-level predicates'
NEEDS = ['oracle.projective', 'oracle.lifted to an ancestor', 'oracle.lifted only as far as needed', 'oracle.projective trees untouched', 'oracle.marks', 'oracle.everything else',
         'oracle.idempotent', 'oracle.deproj by the mark', 'oracle.deproj inverse', 'oracle.deproj unmarked', 'oracle.marks removed', 'oracle.unknown label',
         'events.nonprojective edges', 'events.lifted twice or more', 'events.mark not found', 'events.words without deprel']
ASSUMPTIONS = ['every word has a deprel if marks are stored in deprels; deprels do not contain "+" and MISC has no pproj beforehand']


def nonproj(par, i):
    """By definition: a word between i and its head is not dominated by the head."""
    p = par[i]
    if p == 0:
        return False
    for x in range(min(i, p) + 1, max(i, p)):
        y = x
        while y not in (0, p):
            y = par[y]
        if y != p:
            return True
    return False


def ancestors(par, i):
    out = []
    while i:
        i = par[i]
        out.append(i)
    return out


def lifts_needed(par, i):
    """How many times i alone must be lifted until its edge is projective."""
    par = list(par)
    k = 0
    while nonproj(par, i):
        par[i] = par[par[i]]
        k += 1
    return k


def make(rng, doc, lo=1, hi=12):
    n = rng.choice([rng.randint(lo, hi), rng.randint(lo, hi), rng.randint(3, 6)])
    par = gen.tree_parents(rng, n)
    root = build(rng, par, doc=doc, attrs=True, forms=[rng.choice('abc') for _ in range(n)])
    for node in root.descendants:
        node.deprel = rng.choice(['nsubj', 'obj', 'nsubj:pass', 'obl:tmod', 'acl:relcl:x', 'root', 'conj', 'advmod'])
        if rng.random() < 0.2:
            node.misc['Ref'] = 'x'
    if n > 1 and rng.random() < 0.2:
        root.create_multiword_token(root.descendants[:2], form='ab')
    if rng.random() < 0.2:
        rng.choice(root.descendants).create_empty_child('dep', form='e')
    return root


def rest(root, keep_deprel=True):
    """Everything the blocks must not touch."""
    return ([(id(n), n.ord, n.form, n.lemma, n.upos, n.xpos, str(n.feats), n.deprel if keep_deprel else None,
              {k: v for k, v in n.misc.items() if k != 'pproj'}) for n in root.descendants],
            [(id(e), str(e.ord), [(id(d['parent']), d['deprel']) for d in e.deps]) for e in root.empty_nodes],
            [(id(m), [id(w) for w in m.words], m.form) for m in root.multiword_tokens], root.text, root.comment)


def heads(root):
    return [0] + [n.parent.ord for n in root.descendants]


def bfs(par, deprels, i, label):
    """The documented head strategy: breadth-first search for the deprel among the siblings and below them."""
    kids = lambda p: [x for x in range(1, len(par)) if par[x] == p]
    queue = [x for x in kids(par[i]) if x != i]
    while queue:
        x = queue.pop(0)
        if deprels[x].split(':')[0] == label:
            return x
        queue.extend(kids(x))
    return None


def project(rng, mon, i):
    doc = Document()
    label = rng.choice(['misc', 'misc', 'deprel'])
    order = rng.choice(['deepest', 'shortest'])
    roots = [make(rng, doc, hi=rng.choice([6, 12, 12, 25])) for _ in range(rng.choice([1, 1, 2]))]
    params = {}
    if label != 'misc' or rng.random() < 0.3:
        params['label'] = label
    if order != 'deepest' or rng.random() < 0.3:
        params['lifting_order'] = order
    before = [(heads(r), [None] + [n.deprel for n in r.descendants], rest(r, False), rest(r), snapshot(r)) for r in roots]
    mon.note(heads=[b[0] for b in before], deprels=[b[1] for b in before], params=params)
    create_block('transform.Proj', **params).run(doc)
    after = []
    for root, (par, deprels, other, full, snap) in zip(roots, before):
        mon.ok(malformed(root) is None, 'everything else', lambda: malformed(root))
        now = heads(root)
        n = len(par) - 1
        bad = {k for k in range(1, n + 1) if nonproj(par, k)}
        mon.event('nonprojective edges', len(bad))
        if bad:
            mon.state('tree', repr((par, deprels, label, order)))
        mon.eq([k for k in range(1, n + 1) if nonproj(now, k)], [], 'projective', lambda: (par, now))
        if not bad:
            mon.eq(snapshot(root), snap, 'projective trees untouched')
        moved = {k for k in range(1, n + 1) if now[k] != par[k]}
        mon.ok(not bad or moved, 'lifted to an ancestor')
        want = {k: deprels[par[k]].split(':')[0] for k in moved}
        for k in moved:
            mon.ok(now[k] in ancestors(par, k)[1:], 'lifted to an ancestor', lambda: (par, now, k))
            if ancestors(par, k).index(now[k]) > 1:
                mon.event('lifted twice or more')
        if len(bad) == 1:
            k = next(iter(bad))
            low = list(par)
            for _ in range(lifts_needed(par, k)):
                low[k] = low[low[k]]
            if not any(nonproj(low, x) for x in range(1, n + 1)):
                mon.eq(now, low, 'lifted only as far as needed', lambda: (par, now))
        mon.eq(rest(root, False), other, 'everything else')
        for k, node in enumerate(root.descendants, 1):
            if label == 'misc':
                mon.eq(node.misc['pproj'], want.get(k, ''), 'marks')
                mon.eq(node.deprel, deprels[k], 'marks')
            else:
                u, _, s = deprels[k].partition(':')
                mon.eq(node.deprel, f'{u}:{s}+{want[k]}' if k in want else deprels[k], 'marks')
                mon.eq(node.misc['pproj'], '', 'marks')
        after.append((now, want, [None] + [x.deprel for x in root.descendants], snapshot(root)))
    create_block('transform.Proj', **params).run(doc)
    for root, (_, _, _, snap) in zip(roots, after):
        mon.eq(snapshot(root), snap, 'idempotent')
    # and back
    create_block('transform.Deproj', **({'label': label} if label != 'misc' or rng.random() < 0.3 else {})).run(doc)
    for root, (par, deprels, other, full, snap), (now, want, marked, _) in zip(roots, before, after):
        mon.ok(malformed(root) is None, 'everything else', lambda: malformed(root))
        model = list(now)
        names = list(marked)
        for k in range(1, len(par)):
            if label == 'deprel':
                names[k] = deprels[k]
            if k in want:
                target = bfs(model, names, k, want[k])
                if target is None:
                    mon.event('mark not found')
                else:
                    model[k] = target
        back = heads(root)
        mon.eq(back, model, 'deproj by the mark', lambda: (par, now, want))
        mon.eq([k for k in range(1, len(par)) if k not in want and back[k] != now[k]], [], 'deproj unmarked')
        for k in want:   # always below the original relation type, or where it was
            mon.ok(back[k] == now[k] or deprels[back[k]].split(':')[0] == want[k], 'deproj by the mark', lambda: (par, now, back))
        mon.eq(rest(root), full, 'marks removed' if label == 'deprel' else 'everything else')
        if len(want) == 1:
            k = next(iter(want))
            same = [x for x in range(1, len(par)) if x != k and deprels[x].split(':')[0] == want[k] and k not in ancestors(par, x)]
            if same == [par[k]]:   # the mark is unambiguous, so the original tree is restored
                mon.eq(back, par, 'deproj inverse', lambda: (par, now, back))
    for kind in ('transform.Deproj',):
        r = roots[0]
        plain = Document()
        q = make(rng, plain)
        if rng.random() < 0.3:
            rng.choice(q.descendants).deprel = None
            mon.event('words without deprel')
        s = snapshot(q)
        create_block(kind, label=label).run(plain)
        mon.eq(snapshot(q), s, 'deproj unmarked')


def marks(rng, mon, i):
    """Deprojectivization of arbitrary marks (as a parser trained on projectivized data may produce them)."""
    doc = Document()
    root = make(rng, doc)
    label = rng.choice(['misc', 'deprel'])
    par = heads(root)
    deprels = [None] + [n.deprel for n in root.descendants]
    want = {}
    for node in root.descendants:
        if rng.random() < 0.3:
            want[node.ord] = rng.choice(['nsubj', 'obj', 'obl', 'acl', 'root', 'xcomp'])
            if label == 'misc':
                node.misc['pproj'] = want[node.ord]
            else:
                u, _, s = node.deprel.partition(':')
                node.deprel = f'{u}:{s}+{want[node.ord]}'
    full = rest(root, False)
    mon.note(heads=par, deprels=deprels, want=want, label=label)
    mon.state('marks', repr((par, deprels, sorted(want.items()), label)))
    create_block('transform.Deproj', label=label).run(doc)
    mon.ok(malformed(root) is None, 'everything else', lambda: malformed(root))
    model = list(par)
    for k in sorted(want):
        target = bfs(model, deprels, k, want[k])
        if target is None:
            mon.event('mark not found')
        else:
            model[k] = target
    mon.eq(heads(root), model, 'deproj by the mark')
    mon.eq([n.deprel for n in root.descendants], deprels[1:], 'marks removed')
    mon.eq(rest(root, False), full, 'everything else')
    bad = Document()
    t = make(rng, bad, lo=4)
    if any(nonproj(heads(t), k) for k in range(1, len(heads(t)))):
        mon.raises(lambda: create_block('transform.Proj', label='xx').run(bad), 'unknown label', ValueError)
    mon.raises(lambda: create_block('transform.Deproj', label='xx').run(bad), 'unknown label', ValueError)


WORKLOADS = [Workload('project', project, 9000, 54000), Workload('marks', marks, 4800, 28800)]
