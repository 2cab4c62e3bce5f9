"""C07: tree queries agree with their definitions."""
from lib import gen
from lib.edits import History
from lib.treelib import build, random_tree, shape_of, snapshot
from lib.vf import Workload
from udapi.core.document import Document
from udapi.core.node import find_minimal_common_treelet

ID = 'C07'
RULE = 'distinct (tree shape, query kind, operands) evaluations compared with brute-force definitions over parent links and word order'
NEEDS = ['oracle.children', 'oracle.siblings', 'oracle.descendants', 'oracle.is_descendant_of', 'oracle.precedes', 'oracle.is_nonprojective',
         'oracle.is_nonprojective_gap', 'oracle.minimal common treelet', 'oracle.get_attrs', 'oracle.prev/next', 'oracle.queries change nothing',
         'events.nonprojective edges', 'events.gaps', 'events.precedes across trees']


class Def:
    """Definitions computed from parent links and the word order only."""

    def __init__(self, root):
        self.root = root
        self.words = list(root.descendants)
        self.all = [root] + self.words
        self.ord = {n: k for k, n in enumerate(self.all)}
        self.par = {n: n.parent for n in self.words}
        self.par[root] = None

    def ancestors(self, n):
        out = []
        n = self.par[n]
        while n is not None:
            out.append(n)
            n = self.par[n]
        return out

    def under(self, a, b):
        return b in self.ancestors(a)

    def children(self, n):
        return [x for x in self.words if self.par[x] is n]

    def descendants(self, n):
        return [x for x in self.words if self.under(x, n)]

    def nonproj(self, n):
        p = self.par[n]
        if p is None or p is self.root:
            return False
        lo, hi = sorted((self.ord[n], self.ord[p]))
        return any(lo < self.ord[x] < hi and not self.under(x, p) for x in self.words)

    def gap(self, n):
        for x in self.all:
            if x is n or self.under(n, x):
                continue
            sub = [self.ord[x]] + [self.ord[y] for y in self.descendants(x)]
            if min(sub) < self.ord[n] < max(sub):
                return True
        return False

    def treelet(self, nodes):
        chains = [[n] + self.ancestors(n) for n in nodes]
        common = [x for x in chains[0] if all(x in c for c in chains)]
        nca = common[0]
        added = set()
        for c in chains:
            for x in c:
                if x not in nodes:
                    added.add(x)
                if x is nca:
                    break
        return nca, added


def same(mon, got, want, label, d, detail):
    mon.eq([d.ord.get(x, 'foreign') for x in got], [d.ord[x] for x in want], label, detail)


def restrict(d, nodes, n, add_self, pre, fol):
    out = list(nodes) + ([n] if add_self else [])
    out.sort(key=lambda x: d.ord[x])
    if pre:
        out = [x for x in out if d.ord[x] <= d.ord[n]]
    elif fol:
        out = [x for x in out if d.ord[x] >= d.ord[n]]
    return out


PSEUDO = ['form', 'lemma', 'upos', 'xpos', 'deprel', 'ord', 'feats', 'misc', 'dir', 'edge', 'children', 'siblings', 'depth', 'feats_split',
          'misc_split', 'udeprel', 'sdeprel', 'feats[Case]', 'feats[Gender[psor]]', 'misc[SpaceAfter]', 'misc[Gloss]', 'no_space_after']


def value(d, n, name):
    p = d.par[n]
    if name == 'dir':
        return 'root' if p is None or p is d.root else ('left' if d.ord[n] < d.ord[p] else 'right')
    if name == 'edge':
        return 0 if p is None or p is d.root else d.ord[n] - d.ord[p]
    if name == 'children':
        return len(d.children(n))
    if name == 'siblings':
        return 0 if p is None else len(d.children(p)) - 1
    if name == 'depth':
        return len(d.ancestors(n))
    if name == 'ord':
        return d.ord[n]
    if name in ('feats', 'misc'):
        return str(getattr(n, name))
    if name.startswith('feats[') or name.startswith('misc['):
        attr, key = name[:-1].split('[', 1)
        for kv in str(getattr(n, attr)).split('|'):
            k, eq, v = kv.partition('=')
            if k == key:
                return v if eq else True
        return ''
    if name == 'udeprel':
        return None if n.deprel is None else n.deprel.split(':')[0]
    if name == 'sdeprel':
        return None if n.deprel is None else (n.deprel.split(':', 1) + [''])[1]
    if name == 'no_space_after':
        return 'SpaceAfter=No' in str(n.misc).split('|')
    return getattr(n, name)


def attrs(d, n, name):
    nodes = [n]
    k = d.ord[n]
    if name[1] == '_':
        rel, name = name[0], name[2:]
        if rel == 'p':
            nodes = [d.par[n]] if d.par[n] is not None else []
        elif rel == 'c':
            nodes = d.children(n)
        elif rel == 'l':
            nodes = [d.all[k - 1]] if k > 0 else []
        else:
            nodes = [d.all[k + 1]] if k + 1 < len(d.all) else []
    out = []
    for x in nodes:
        if name.endswith('_split'):
            out += str(getattr(x, name[:-6])).split('|')
        else:
            out.append(value(d, x, name))
    return out


def queries(rng, mon, root, exhaustive):
    d = Def(root)
    other = build(rng, [0] + [k + 2 for k in range(len(d.words) - 1)] + [0] if d.words else [0]) if rng.random() < 0.1 else None
    shape = shape_of(root)
    before = snapshot(root)
    for n in d.all:
        for add in (False, True):
            for pre, fol in ((False, False), (True, False), (False, True)):
                kw = dict(add_self=add, preceding_only=pre, following_only=fol)
                det = lambda: (shape, d.ord[n], kw)
                plain = not (add or pre or fol)
                same(mon, n.children if plain else n.children(**kw), restrict(d, d.children(n), n, add, pre, fol), 'children', d, det)
                same(mon, n.descendants if plain else n.descendants(**kw), restrict(d, d.descendants(n), n, add, pre, fol), 'descendants', d, det)
                if n is not root:
                    sib = [x for x in d.children(d.par[n]) if x is not n]
                    same(mon, n.siblings if plain else n.siblings(**kw), restrict(d, sib, n, add, pre, fol), 'siblings', d, det)
        mon.eq(sorted(d.ord[x] for x in n.unordered_descendants()), [d.ord[x] for x in d.descendants(n)], 'descendants', 'unordered')
        k = d.ord[n]
        mon.eq(n.ord, k, 'prev/next', 'ord')
        mon.ok(n.prev_node is (d.all[k - 1] if k else None), 'prev/next', lambda: f'prev_node of {k} in {shape}')
        mon.ok(n.next_node is (d.all[k + 1] if k + 1 < len(d.all) else None), 'prev/next', lambda: f'next_node of {k} in {shape}')
        mon.eq(n.is_leaf(), not d.children(n), 'is_leaf', (shape, k))
        mon.eq(n.is_root(), n is root, 'is_root')
        mon.eq(n.is_nonprojective(), d.nonproj(n), 'is_nonprojective', lambda: f'word {k} in {shape}')
        mon.event('nonprojective edges', int(d.nonproj(n)))
        mon.eq(n.is_nonprojective_gap(), d.gap(n), 'is_nonprojective_gap', lambda: f'word {k} in {shape}')
        mon.event('gaps', int(d.gap(n)))
        for x in (d.all if exhaustive else rng.sample(d.all, min(4, len(d.all)))):
            mon.eq(n.is_descendant_of(x), d.under(n, x), 'is_descendant_of', lambda: f'{k} of {d.ord[x]} in {shape}')
            if other is not None and x is not root and d.ord[x] <= len(other._descendants):
                mon.ok(not n.is_descendant_of(other._descendants[d.ord[x] - 1]), 'is_descendant_of', lambda: f'{k} of word {d.ord[x]} of another tree')
            mon.eq((n.precedes(x), n < x, n > x, n <= x), (k < d.ord[x], k < d.ord[x], k > d.ord[x], k <= d.ord[x]), 'precedes', lambda: (k, d.ord[x], shape))
    for _ in range(6):
        names = [rng.choice(['', '', 'p_', 'c_', 'l_', 'r_']) + rng.choice(PSEUDO) for _ in range(rng.randint(1, 4))]
        n = rng.choice(d.all)
        undefs = rng.choice([None, '', 'UNDEF'])
        strg = rng.random() < 0.5
        want = []
        for nm in names:
            want += attrs(d, n, nm)
        if undefs is not None:
            want = [undefs if x is None else x for x in want]
        if strg:
            want = [str(x) if x is not None else None for x in want]
        got = n.get_attrs(names, undefs=undefs, stringify=strg)
        if not strg:
            got = [str(x) if not isinstance(x, (str, int, bool, type(None))) else x for x in got]
        mon.eq(got, want, 'get_attrs', lambda: (names, d.ord[n], shape, undefs, strg))
        mon.state('query', repr(('attrs', shape, d.ord[n], names)))
    for _ in range(12 if exhaustive else 6):
        nodes = rng.sample(d.all, min(len(d.all), rng.choice([1, 2, 2, 2, 3, 3, 4, 6])))
        nca, added = find_minimal_common_treelet(*nodes)
        w_nca, w_added = d.treelet(nodes)
        added = list(added)
        det = lambda: f'nodes {[d.ord[x] for x in nodes]} in {shape}'
        mon.eq(d.ord.get(nca), d.ord[w_nca], 'minimal common treelet', det)
        mon.eq(sorted(d.ord[x] for x in added), sorted(d.ord[x] for x in w_added), 'minimal common treelet', det)
        mon.state('query', repr(('treelet', shape, [d.ord[x] for x in nodes])))
    # results are the caller's own lists
    if d.words:
        n = rng.choice(d.all)
        n.children.clear()
        n.descendants.clear()
        root.descendants.append(None)
    mon.eq(snapshot(root), before, 'queries change nothing', shape)
    mon.state('query', repr(('all', shape)))


def single(rng, mon, i):
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 13])
    t = build(rng, gen.tree_parents(rng, n), attrs=rng.random() < 0.5)
    if rng.random() < 0.4:       # reach trees also through edits, not only fresh ones
        h = History(rng, [t])
        for _ in range(rng.randint(1, 5)):
            h.edit(['attach', 'shift', 'remove', 'create'])
        mon.note(history=h.log)
    mon.note(shape=shape_of(t))
    queries(rng, mon, t, exhaustive=n <= 8)


def across(rng, mon, i):
    """Word order across sentences and document iterators."""
    doc = Document()
    zones = rng.sample(['', 'en', 'cs'], rng.randint(1, 3))
    for _ in range(rng.randint(2, 5)):
        b = doc.create_bundle()
        for z in zones:
            if rng.random() < 0.9:
                t = b.create_tree(z)
                for k in range(rng.randint(0, 4)):
                    t.create_child(form=f'w{k}')
                if rng.random() < 0.4:
                    for x in t.descendants[:2]:
                        x.create_empty_child('dep')
    for _ in range(rng.choice([0, 0, 1, 2])):
        if len(doc.bundles) > 1:
            rng.choice(doc.bundles).remove()
            if rng.random() < 0.5:
                doc.create_bundle().create_tree(zones[0]).create_child(form='new')
    trees = [t for b in doc.bundles for t in b.trees]
    mon.ok(all(a is b for a, b in zip(doc.trees, trees)) and len(list(doc.trees)) == len(trees), 'document iterators')
    words = [n for t in trees for n in t.descendants]
    mon.eq([id(n) for n in doc.nodes], [id(n) for n in words], 'document iterators')
    want = []
    for t in trees:
        key = {}
        for n in t.descendants:
            key[n] = (n.ord, 0)
        for e in t.empty_nodes:
            key[e] = tuple(map(int, str(e.ord).split('.')))
        want += sorted(key, key=key.get)
    mon.eq([id(n) for n in doc.nodes_and_empty], [id(n) for n in want], 'document iterators')
    other = Document()
    ot = other.create_bundle().create_tree(zones[0])
    foreign = ot.create_child(form='x')
    pos = {id(b): k for k, b in enumerate(doc.bundles)}
    for _ in range(20):
        if not words:
            break
        a, b = rng.choice(words), rng.choice(words)
        if a.root is b.root:
            mon.eq(a.precedes(b), a.ord < b.ord, 'precedes')
        elif a.root.zone == b.root.zone:
            mon.event('precedes across trees')
            mon.eq(a.precedes(b), pos[id(a.root.bundle)] < pos[id(b.root.bundle)], 'precedes', 'across sentences')
        else:
            mon.raises(lambda: a.precedes(b), 'precedes across zones is refused', ValueError)
        if a.root.zone == ot.zone:
            mon.raises(lambda: a.precedes(foreign), 'precedes across documents is refused', ValueError)
    mon.state('query', repr(('across', [(t.zone, len(t.descendants)) for t in trees])))


WORKLOADS = [Workload('single', single, 15000, 90000), Workload('across', across, 3600, 21600)]
