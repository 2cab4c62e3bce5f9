"""Random tree-editing histories: every operation comes with the list-based reference effect it must have."""
from lib import gen
from lib.treelib import attrs_of
from udapi.core.node import CycleError


class Model:
    """Reference state of one tree: word order, heads and attributes by node identity."""

    def __init__(self, root):
        self.root = root
        self.order = list(root.descendants)
        self.par = {n: n.parent for n in self.order}
        self.attrs = {n: attrs_of(n) for n in self.order}

    def sub(self, n):
        """The subtree of n (with n) in word order, by the definition over parents."""
        out = []
        for x in self.order:
            y = x
            while y is not self.root and y is not n:
                y = self.par[y]
            if y is n:
                out.append(x)
        return out

    def is_under(self, x, n):
        while x is not self.root:
            if x is n:
                return True
            x = self.par[x]
        return n is self.root

    def differs(self):
        """None, or how the real tree differs from this model."""
        real = list(self.root.descendants)
        if len(real) != len(self.order) or any(a is not b for a, b in zip(real, self.order)):
            pos = {id(n): k for k, n in enumerate(self.order, 1)}
            return f'word order {[pos.get(id(n), "?") for n in real]} (numbers = expected positions 1..{len(self.order)})'
        for n in real:
            if n.parent is not self.par[n]:
                return f'head of word {n.ord} is {n.parent.ord if n.parent is not None else None}, ' \
                       f'expected {self.par[n].ord if self.par[n] is not None else None}'
            if attrs_of(n) != self.attrs[n]:
                return f'attributes of word {n.ord} are {attrs_of(n)}, expected {self.attrs[n]}'
        for n in [self.root] + real:
            want = [x for x in self.order if self.par[x] is n]
            got = list(n.children)
            if len(got) != len(want) or any(a is not b for a, b in zip(got, want)):
                return f'children of {n.ord} are {[x.ord for x in got]}, expected {[x.ord for x in want]}'
        return None


SHIFTS = ['shift_after_node', 'shift_before_node', 'shift_after_subtree', 'shift_before_subtree']


def place(model, node, ref, name, without):
    """Word order after a shift: the moved words taken out and inserted at the requested place.
    Returns the list of acceptable orders (more than one if the reference subtree contains moved words)."""
    moved = [node] if without else model.sub(node)
    ms = set(moved)
    pos = {n: k for k, n in enumerate(model.order)}
    pos[model.root] = -1
    rest = [n for n in model.order if n not in ms]
    if name.endswith('_node'):
        anchors = [[ref]]
    else:
        sub = [ref] + [x for x in model.sub(ref) if x is not ref]
        anchors = [[x for x in sub if x is not node] or [ref], [x for x in sub if x not in ms] or [ref]]
    out = []
    for a in anchors:
        if 'after' in name:
            p = max(pos[x] for x in a)
            k = sum(1 for x in rest if pos[x] <= p)
        else:
            p = min(pos[x] for x in a)
            k = sum(1 for x in rest if pos[x] < p)
        order = rest[:k] + moved + rest[k:]
        if order not in out:
            out.append(order)
    return out


class History:
    """Random edits over several trees of one document, each with its expected effect."""

    def __init__(self, rng, trees, log=None):
        self.rng, self.trees = rng, trees
        self.log = log if log is not None else []
        self.serial = 0

    def snapshot(self):
        return {id(t): Model(t) for t in self.trees}

    def pick(self, tree=None):
        t = tree or self.rng.choice(self.trees)
        d = t.descendants
        return t, (self.rng.choice(d) if d else None)

    def do(self, name, *args):
        self.log.append((name,) + args)

    def edit(self, kinds):
        """Perform one legal edit. Returns (name, models, orders) where models maps tree ids to the expected Model and
        orders is None or the list of acceptable word orders of models' changed tree (first element: which tree)."""
        rng = self.rng
        kind = rng.choice(kinds)
        t, n = self.pick()
        if kind != 'create' and n is None:
            kind = 'create'
        ms = self.snapshot()
        m = ms[id(t)]
        alternatives = None
        if kind == 'create':
            p = rng.choice([t] + list(t.descendants))
            self.serial += 1
            kw = dict(form=f'n{self.serial}', lemma=rng.choice(gen.FORMS), upos=rng.choice(gen.UPOS), xpos='X', deprel=rng.choice(gen.DEPRELS),
                      feats=gen.gen_feats(rng), misc=gen.gen_misc(rng))
            self.do('create_child', p.ord, kw['form'])
            new = p.create_child(**kw)
            m.order.append(new)
            m.par[new] = p
            m.attrs[new] = (kw['form'], kw['lemma'], kw['upos'], kw['xpos'], kw['feats'], kw['deprel'], kw['misc'])
        elif kind == 'attach':
            cands = [x for x in [t] + list(t.descendants) if not m.is_under(x, n)] or [n.parent]
            p = rng.choice(cands)
            self.do('attach', n.ord, p.ord)
            n.parent = p
            m.par[n] = p
        elif kind == 'remove':
            how = rng.choice([None, None, 'rehang', 'rehang_warn', 'warn'])
            self.do('remove', n.ord, how)
            if how is not None and how.startswith('rehang'):
                gone = [n]
                for x in m.order:
                    if m.par[x] is n:
                        m.par[x] = m.par[n]
            else:
                gone = m.sub(n)
            m.order = [x for x in m.order if x not in gone]
            n.remove() if how is None else n.remove(children=how)
        elif kind == 'shift':
            name = rng.choice(SHIFTS)
            ref = rng.choice(list(t.descendants) + ([t] if 'after' in name else []))
            without = rng.random() < 0.4
            skip = rng.random() < 0.3
            if ref is n:
                return self.edit(kinds)
            under = m.is_under(ref, n)
            if under and not without and not skip:
                without = True
            self.do(name, n.ord, ref.ord, 'without_children' if without else '', 'skip_if_descendant' if skip else '')
            if not (under and not without and skip):
                alternatives = place(m, n, ref, name, without)
            kw = {}
            if without:
                kw['without_children'] = True
            if skip:
                kw['skip_if_descendant'] = True
            getattr(n, name)(ref, **kw)
            if alternatives:
                real = list(t.descendants)
                m.order = next((a for a in alternatives if len(a) == len(real) and all(x is y for x, y in zip(a, real))), alternatives[0])
        elif kind == 'flatten':
            d = rng.choice(['root', 'dep'])
            self.do('flatten', d)
            if d == 'root':
                t.flatten()
            else:
                t.flatten(deprel=d)
            for x in m.order:
                m.par[x] = t
                m.attrs[x] = m.attrs[x][:5] + (d,) + m.attrs[x][6:]
        elif kind == 'steal' and len(self.trees) > 1:
            t2 = rng.choice([x for x in self.trees if x is not t])
            d = list(t.descendants)
            nodes = rng.choice([d, rng.sample(d, rng.randint(1, len(d))), n.descendants(add_self=True), d[n.ord - 1:]])
            nodes = list(nodes)
            if rng.random() < 0.5:
                rng.shuffle(nodes)
            self.do('steal_nodes', [x.ord for x in nodes])
            m2 = ms[id(t2)]
            moved = [x for x in m.order if x in nodes]
            for x in moved:
                p = m.par[x]
                m2.order.append(x)
                m2.par[x] = p if p in nodes else t2
                m2.attrs[x] = m.attrs[x]
            m.order = [x for x in m.order if x not in nodes]
            for x in m.order:
                if m.par[x] in nodes:
                    m.par[x] = t
            t2.steal_nodes(nodes)
        else:
            return self.edit(kinds)
        return kind, ms

    def refused(self):
        """Return (description, callable, exception class) of an operation that must be refused, or None."""
        rng = self.rng
        t, n = self.pick()
        if n is None:
            return None
        kind = rng.choice(['none', 'self', 'cycle', 'cycle', 'empty', 'foreign', 'rootparent', 'shift_desc', 'shift_desc', 'shift_root',
                           'emptyparent', 'steal_mixed'])

        def attach(a, b):
            a.parent = b
        if kind == 'none':
            return f'{n.ord}.parent = None', lambda: attach(n, None), ValueError
        if kind == 'self':
            return f'{n.ord}.parent = self', lambda: attach(n, n), CycleError
        if kind == 'cycle':
            d = n.descendants
            if not d:
                return None
            x = rng.choice(d)
            return f'{n.ord}.parent = own descendant {x.ord}', lambda: attach(n, x), CycleError
        if kind == 'empty':
            if not t.empty_nodes:
                return None
            e = rng.choice(t.empty_nodes)
            return f'{n.ord}.parent = empty node', lambda: attach(n, e), ValueError
        if kind == 'emptyparent':
            if not t.empty_nodes:
                return None
            e = rng.choice(t.empty_nodes)
            return 'parent of an empty node', lambda: attach(e, n), AttributeError
        if kind == 'foreign':
            if len(self.trees) < 2:
                return None
            t2 = rng.choice([x for x in self.trees if x is not t])
            p = rng.choice([t2] + list(t2.descendants))
            return f'{n.ord}.parent = node of another tree', lambda: attach(n, p), ValueError
        if kind == 'rootparent':
            return 'root.parent = a word', lambda: attach(t, n), AttributeError
        if kind == 'shift_desc':
            d = n.descendants
            if not d:
                return None
            x, name = rng.choice(d), rng.choice(SHIFTS)
            return f'{name}({n.ord}, own descendant {x.ord})', lambda: getattr(n, name)(x), ValueError
        if kind == 'shift_root':
            name = rng.choice(['shift_before_node', 'shift_before_subtree'])
            wc = rng.random() < 0.5
            skip = rng.random() < 0.4
            return f'{name}({n.ord}, root, {skip})', lambda: getattr(n, name)(t, without_children=wc, skip_if_descendant=skip), ValueError
        if kind == 'steal_mixed':
            if len(self.trees) < 3:
                return None
            t2 = rng.choice([x for x in self.trees if x is not t])
            if not t2.descendants:
                return None
            t3 = next(x for x in self.trees if x is not t and x is not t2)
            mixed = list(dict.fromkeys([n, rng.choice(list(t2.descendants))] + rng.sample(list(t.descendants), min(2, len(t.descendants)))))
            if rng.random() < 0.5:
                rng.shuffle(mixed)
            return 'steal_nodes from several trees', lambda: t3.steal_nodes(mixed), ValueError
        return None
