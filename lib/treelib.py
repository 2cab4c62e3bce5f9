"""Tree construction, snapshots and the well-formedness monitor; only the public API of udapi is used."""
from udapi.core.document import Document
from lib import gen


def build(rng=None, parents=None, doc=None, forms=None, attrs=False, zone=''):
    """Build a tree through the API; parents[i] is the head of word i (index 0 unused)."""
    doc = doc if doc is not None else Document()
    bundle = doc.create_bundle()
    root = bundle.create_tree(zone)
    n = len(parents) - 1
    nodes = [root]
    for i in range(1, n + 1):
        kw = {}
        if attrs:
            kw = dict(lemma=rng.choice(gen.FORMS), upos=rng.choice(gen.UPOS), xpos=rng.choice(gen.XPOS),
                      feats=gen.gen_feats(rng), deprel=rng.choice(gen.DEPRELS), misc=gen.gen_misc(rng))
        nodes.append(root.create_child(form=forms[i - 1] if forms else f'w{i}', **kw))
    for i in range(1, n + 1):
        if parents[i] != 0:
            nodes[i].parent = nodes[parents[i]]
    return root


def random_tree(rng, lo=0, hi=12, shape=None, attrs=False, doc=None, zone=''):
    n = rng.randint(lo, hi)
    return build(rng, gen.tree_parents(rng, n, shape), doc=doc, attrs=attrs, zone=zone)


def attrs_of(node):
    return (node.form, node.lemma, node.upos, node.xpos, str(node.feats), node.deprel, str(node.misc))


def snapshot(root):
    """Everything observable about the tree, by node identity."""
    desc = list(root.descendants)
    return (tuple(id(n) for n in desc),
            tuple(n.ord for n in desc),
            tuple(id(n.parent) for n in desc),
            tuple(tuple(id(c) for c in n.children) for n in [root] + desc),
            tuple(attrs_of(n) for n in desc),
            tuple((id(e), str(e.ord)) for e in root.empty_nodes),
            tuple((id(m), tuple(id(w) for w in m.words), m.form, str(m.misc)) for m in root.multiword_tokens))


def heads(root):
    return [0] + [n.parent.ord for n in root.descendants]


def shape_of(root):
    return tuple(heads(root))


def malformed(root):
    """None, or a description of why this is not a well-formed tree (definition-level check)."""
    desc = list(root.descendants)
    ids = {id(n) for n in desc}
    if len(ids) != len(desc):
        return 'descendants of the root contain a node twice'
    if id(root) in ids:
        return 'root is among its own descendants'
    if [n.ord for n in desc] != list(range(1, len(desc) + 1)):
        return f'ords are {[n.ord for n in desc]}'
    if root.ord != 0:
        return f'root ord is {root.ord}'
    if root.parent is not None:
        return 'root has a parent'
    seen_child = {}
    for n in [root] + desc:
        ch = list(n.children)
        if [c.ord for c in ch] != sorted(c.ord for c in ch):
            return f'children of {n.ord} are not in word order: {[c.ord for c in ch]}'
        for c in ch:
            if c.parent is not n:
                return f'{c.ord} is a child of {n.ord} but its parent is another node'
            if id(c) not in ids:
                return f'{n.ord} has child {c.ord} which is not among the descendants of the root'
            if id(c) in seen_child:
                return f'node {c.ord} is listed as a child twice'
            seen_child[id(c)] = n
        if n.root is not root:
            return f'node {n.ord} has a different root'
    for n in desc:
        if id(n) not in seen_child:
            return f'node {n.ord} is no child of anything'
        climber, steps = n, 0
        while climber is not root:
            climber = climber.parent
            steps += 1
            if climber is None or steps > len(desc):
                return f'node {n.ord} does not reach the root'
    # descendants view of every node
    sub = {id(n): [] for n in desc}
    for n in desc:
        p = n.parent
        while p is not root:
            sub[id(p)].append(n)
            p = p.parent
    for n in desc:
        got = list(n.descendants)
        want = sub[id(n)]
        if len(got) != len(want) or any(a is not b for a, b in zip(got, want)):
            return f'descendants of {n.ord} are {[x.ord for x in got]}, expected {[x.ord for x in want]}'
    return None
