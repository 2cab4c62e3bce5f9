"""C21: selecting, deleting, splitting, marking and counting treat exactly what they name."""
import os
import re
from collections import Counter

from lib import gen, refconllu as ref
from lib.treelib import attrs_of, malformed
from lib.vf import Logs, Workload, captured
from udapi.core.block import Block
from udapi.core.document import Document
from udapi.core.run import Run, create_block

ID = 'C21'
RULE = 'distinct (document, block, options) cases in which the kept, removed, marked or counted items were compared with the condition evaluated by the monitor'
NEEDS = ['oracle.trees kept', 'oracle.words kept', 'oracle.heads', 'oracle.attributes kept', 'oracle.marked words', 'oracle.well-formed', 'oracle.parts', 'oracle.part sizes',
         'oracle.sentence IDs', 'oracle.normalized order', 'oracle.rest unchanged', 'oracle.counts', 'oracle.statistics', 'oracle.differences', 'oracle.alignment', 'oracle.evaluated code',
         'oracle.tokens as words', 'oracle.flat', 'oracle.empty nodes deleted', 'oracle.reachable', 'oracle.attributes deleted', 'oracle.empty node order',
         'events.filter.delete_tree', 'events.filter.delete_tree_if_node', 'events.filter.delete_subtree', 'events.filter.keep_tree', 'events.filter.keep_tree_if_node',
         'events.filter.keep_subtree', 'events.filter.keep_node', 'events.filter.more conditions', 'events.tree removed', 'events.zones restricted', 'events.nested subtrees',
         'events.fewer bundles than parts', 'events.unequal lengths', 'events.underscore shift', 'events.no matching node']
ASSUMPTIONS = ['with keep_subtree, a matching word inside another kept subtree may hang on its head or on the root',
               'conditions used with delete_subtree do not depend on words deleted before',
               'differences are exact when word forms are unique in the sentence and in the same order']

ZONES = [[''], [''], [''], ['en', 'cs'], ['', 'en_x'], ['cs']]


def text_of(rng, zones, nsent, **kw):
    kw = dict(dict(max_n=9, p_nosid=0.0), **kw)
    out = ''
    for k in range(nsent):
        for j, z in enumerate(zones):
            out += gen.gen_sent(rng, sid=f's{k}', zone=z, **(dict(kw, p_newdoc=0.0) if j else kw)).conllu()
    return out


def load(rng, mon, nsent=None, **kw):
    zones = rng.choice(ZONES)
    text = text_of(rng, zones, nsent or rng.choice([1, 2, 3]), **kw)
    mon.note(input=text)
    doc = Document()
    doc.from_conllu_string(text)
    return doc, zones


def pick_zones(rng, mon, zones):
    """(parameter, does the block process this zone?)"""
    if rng.random() < 0.6:
        return {}, lambda z: True
    sel = rng.sample(zones, rng.randint(1, len(zones)))
    mon.event('zones restricted')
    return dict(zones=','.join(sel)), lambda z: z in sel


# Conditions: (expression, the same evaluated on the words before the block)
NODE = [('node.upos == "NOUN"', lambda n: n.upos == 'NOUN'), ('node.deprel in ("punct", "nsubj", "obj", "root")', lambda n: n.deprel in ('punct', 'nsubj', 'obj', 'root')),
        ('node.feats["Number"]', lambda n: str(n.feats).find('Number=') >= 0), ('re.match("[a-z]", node.form)', lambda n: 'a' <= n.form[0] <= 'z'),
        ('node.misc["SpaceAfter"] == "No"', lambda n: 'SpaceAfter=No' in str(n.misc).split('|')), ('False', lambda n: False), ('True', lambda n: True)]
TOPO = [('node.ord % 2 == 0', lambda n: n.ord % 2 == 0), ('node.is_leaf()', lambda n: not any(m.parent is n for m in n.root.descendants)),
        ('node.parent is root', lambda n: n.parent is n.root), ('len(node.children) > 1', lambda n: sum(m.parent is n for m in n.root.descendants) > 1),
        ('node.ord > 2', lambda n: n.ord > 2), ('node == tree.descendants[-1]', lambda n: n is list(n.root.descendants)[-1])]
TREE = [('len(tree.descendants) > 3', lambda t: len(list(t.descendants)) > 3), ('root.newpar', lambda t: bool(t.newpar)), ('len(root.children) > 1', lambda t: len(list(t.children)) > 1),
        ('tree.zone == "en"', lambda t: t.zone == 'en'), ('re.search("^s[02]", tree.sent_id)', lambda t: t.sent_id[:2] in ('s0', 's2')), ('0', lambda t: False), ('1', lambda t: True)]


def under(n, tops):
    while n is not None and n is not n.root:
        if n in tops:
            return True
        n = n.parent
    return False


def filter_(rng, mon, i):
    doc, zones = load(rng, mon)
    kw, mine = pick_zones(rng, mon, zones)
    names = ['delete_tree', 'delete_tree_if_node', 'delete_subtree', 'keep_tree', 'keep_tree_if_node', 'keep_subtree', 'keep_node']
    used = [rng.choice(names)]
    if rng.random() < 0.25:
        used = sorted(rng.sample(names, 2), key=names.index)
        mon.event('filter.more conditions')
    cond = {}
    for k in used:
        cond[k] = rng.choice(TREE) if k in ('delete_tree', 'keep_tree') else rng.choice(NODE if len(used) > 1 or k == 'delete_subtree' else NODE + TOPO)
        kw[k] = cond[k][0]
        mon.event('filter.' + k)
    mark = rng.choice([None, None, 'hit', 1, '7']) if 'keep_tree_if_node' in used else None
    if mark is not None:
        kw['mark'] = mark
    mon.note(options=kw)
    # What should happen.
    plan = []
    for bundle in doc.bundles:
        for t in bundle:
            words = list(t.descendants)
            p = dict(tree=t, bundle=bundle, keep=True, words=words, marked=set(), head={n: (n.parent,) for n in words}, attrs={n: attrs_of(n) for n in words},
                     mwts=[(m.form, [w for w in m.words]) for m in t.multiword_tokens])
            plan.append(p)
            if not mine(t.zone):
                continue
            for k in used:
                fn = cond[k][1]
                ws = p['words']
                if k == 'delete_tree':
                    p['keep'] = not fn(t)
                elif k == 'keep_tree':
                    p['keep'] = bool(len(ws) > 3) if cond[k] is TREE[0] and used[0] == 'delete_subtree' else bool(fn(t))
                    if used[0] == 'delete_subtree' and cond[k] is TREE[2]:
                        p['keep'] = sum(n.parent is t for n in ws) > 1
                elif k == 'delete_tree_if_node':
                    p['keep'] = not any(fn(n) for n in ws)
                elif k == 'delete_subtree':
                    tops = {n for n in ws if fn(n)}
                    p['words'] = [n for n in ws if not under(n, tops)]
                elif k == 'keep_tree_if_node':
                    hits = {n for n in ws if fn(n)}
                    p['keep'] = bool(hits)
                    if mark is not None:
                        p['marked'] = hits
                elif k == 'keep_subtree':
                    tops = {n for n in ws if fn(n)}
                    p['keep'] = bool(tops)
                    new = [n for n in ws if under(n, tops)]
                    for n in new:
                        if n in tops:
                            inside = n.parent in set(new)
                            mon.event('nested subtrees', inside)
                            p['head'][n] = (t, n.parent) if inside else (t,)
                    p['words'] = new
                elif k == 'keep_node':
                    new = [n for n in ws if fn(n)]
                    p['keep'] = bool(new)
                    for n in new:
                        if len(p['head'][n]) > 1:   # unspecified before
                            p['head'][n] = None
                            continue
                        h = p['head'][n][0]
                        while h is not t and h not in set(new):
                            h = p['head'][h]
                            h = h[0] if h is not None and len(h) == 1 else t
                        p['head'][n] = (h,)
                    if used[0] == 'keep_subtree':
                        for n in new:
                            p['head'][n] = None
                    p['words'] = new
                if not p['keep']:
                    break
    bundles = list(doc.bundles)
    create_block('util.Filter', **kw).run(doc)
    mon.ok(len(doc.bundles) <= len(bundles) and [id(b) for b in doc.bundles] == [id(b) for b in bundles if b in doc.bundles], 'trees kept', 'order of bundles')
    got = [id(t) for b in bundles for t in b if b in doc.bundles]
    mon.eq(got, [id(p['tree']) for p in plan if p['keep']], 'trees kept', lambda: [p['tree'].sent_id for p in plan if p['keep']])
    mon.event('tree removed', sum(not p['keep'] for p in plan))
    for p in plan:
        if not p['keep']:
            continue
        t = p['tree']
        now = list(t.descendants)
        mon.eq([n.form for n in now], [n.form for n in p['words']], 'words kept')
        mon.ok(all(a is b for a, b in zip(now, p['words'])), 'words kept', 'identity')
        bad = malformed(t)
        mon.ok(bad is None, 'well-formed', lambda: bad)
        kept = set(now)
        for n in now:
            if p['head'][n] is not None:
                mon.ok(n.parent in p['head'][n], 'heads', lambda: f'{n.form} hangs on {n.parent.form}')
            if n in p['marked']:
                mon.eq(str(n.misc['Mark']), str(mark), 'marked words')
                del n.misc['Mark']
            before = p['attrs'][n]
            after = attrs_of(n)
            # A word whose multi-word token was dissolved is otherwise the same.
            mon.eq(after[:6], before[:6], 'attributes kept')
            mon.eq(after[6], before[6] if 'Mark=' not in before[6] else after[6], 'attributes kept', 'misc')
        for form, ws in p['mwts']:
            left = [w for w in ws if w in kept]
            if len(left) == len(ws):
                mon.ok(left[0].multiword_token is not None and left[0].multiword_token.form == form, 'attributes kept', 'MWT')
        for e in t.empty_nodes:
            mon.ok(e.root is t, 'well-formed', 'empty nodes')
    mon.state('filter', repr((kw, [(p['keep'], [n.ord for n in p['words']], [n.form for n in p['words']]) for p in plan])))


class Collect(Block):
    def __init__(self, **kw):
        super().__init__(**kw)
        self.docs = []

    def process_document(self, document):
        self.docs.append(document)


class Args:
    def __init__(self, s):
        self.scenario = s


def parts(rng, mon, i):
    from udapi.block.read.conllu import Conllu
    from udapi.block.util.split import Split
    n = rng.choice([1, 2, 3, 4, 5, 6, 7, 10, 11])
    zones = rng.choice(ZONES)
    texts = [''.join(gen.gen_sent(rng, sid=f's{k}', zone=z, max_n=2, p_newdoc=0.0, p_empty=0, p_mwt=0).conllu() for z in zones) for k in range(n)]
    path = os.path.join(mon.scratch(), 'in.conllu')
    with open(path, 'w', encoding='utf-8') as f:
        f.write(''.join(texts))
    opt = rng.choice(['parts', 'bundles_per_doc'])
    k = rng.randint(1, 7)
    mon.note(n=n, option=(opt, k))
    col = Collect()
    reader, split = Conllu(files=path), Split(**{opt: k})
    with Logs():
        Run(Args(['x'])).run_blocks([('read.Conllu', reader, ''), ('util.Split', split, ''), ('.Collect', col, '')])
    sizes = [len(d.bundles) for d in col.docs]
    ids = [b.bundle_id for d in col.docs for b in d.bundles]
    mon.eq(ids, [f's{k}' for k in range(n)], 'parts', lambda: sizes)
    whole = Document()
    whole.from_conllu_string(''.join(texts))
    mon.eq([[(t.zone, [attrs_of(x) for x in t.descendants]) for t in b] for d in col.docs for b in d.bundles],
           [[(t.zone, [attrs_of(x) for x in t.descendants]) for t in b] for b in whole.bundles], 'parts', 'contents')
    if opt == 'parts':
        mon.eq(len(sizes), min(k, n), 'part sizes', lambda: sizes)
        mon.ok(max(sizes) - min(sizes) <= 1, 'part sizes', lambda: sizes)
        mon.event('fewer bundles than parts', n < k)
    else:
        mon.eq(sizes, [min(k, n - j) for j in range(0, n, k)], 'part sizes')
    mon.state('parts', repr((n, opt, k, zones)))


def rest(doc):
    """Everything but sentence IDs and the order of features."""
    return [[(t.zone, t.text, t.comment, [attrs_of(n)[:4] + (sorted(str(n.feats).split('|')), n.deprel, sorted(str(n.misc).split('|')), n.parent.ord) for n in t.descendants],
              [(e.form, attrs_of(e)[1:]) for e in t.empty_nodes], [(m.form, str(m.misc), m.ord_range) for m in t.multiword_tokens]) for t in b] for b in doc.bundles]


def edges(t):
    names = {id(n): k for k, n in enumerate([t] + list(t.descendants_and_empty))}
    return [[(names[id(d['parent'])], d['deprel']) for d in n.deps] for n in t.descendants_and_empty]


def normalize(rng, mon, i):
    doc, zones = load(rng, mon, canonical=False, p_empty=0.5, p_deps=0.5, p_newdoc=0.3, nsent=rng.choice([1, 3, 4]))
    kw = {}
    if rng.random() < 0.5:
        kw['sent_id'] = rng.choice([1, True])
    if rng.random() < 0.3:
        kw['start_sent_id'] = rng.choice([1, 2, 100])
    if rng.random() < 0.3:
        kw['sent_id_prefix'] = rng.choice(['a', 'dev-s', 'ž'])
    name = None
    if rng.random() < 0.4:
        name = rng.choice(['ab', 'x.y', 'Ž_1'])
        doc.meta['loaded_from'] = rng.choice(['', '/tmp/d/', 'a/b.c/']) + name + '.conllu'
        kw['sent_id_from_filename'] = 1
        if rng.random() < 0.5:
            kw['sent_id_reset_at_newdoc'] = 1
        if rng.random() < 0.5:
            kw['newdoc_from_filename'] = 1
    for k in ('feats', 'misc'):
        if rng.random() < 0.3:
            kw[k] = 0
    kw['empty_node_ord'] = rng.choice([0, 1])
    if kw['empty_node_ord']:   # make gaps
        for t in doc.trees:
            for e in t.empty_nodes:
                e.deps
            for n in t.descendants:
                n.deps
            for e in reversed(t.empty_nodes):
                if rng.random() < 0.5:
                    maj, minor = map(int, str(e.ord).split('.'))
                    later = [x for x in t.empty_nodes if int(str(x.ord).split('.')[0]) == maj and x.ord > e.ord]
                    if not later:
                        e.ord = f'{maj}.{minor + rng.randint(1, 3)}'
    z, mine = pick_zones(rng, mon, zones)
    mon.note(options=kw, zones=z)
    was, was_edges = rest(doc), [edges(t) for t in doc.trees]
    if kw['empty_node_ord'] and rng.random() < 0.7:   # the same document, its enhanced dependencies not looked at yet
        meta, text = doc.meta, doc.to_conllu_string()
        mon.note(gaps=text)
        doc = Document()
        doc.from_conllu_string(text)
        doc.meta.update(meta)
        mon.event('gaps reloaded')
    order = [[id(n) for n in t.descendants_and_empty] for t in doc.trees]
    old_ids, newdocs = [b.bundle_id for b in doc.bundles], [[t.newdoc for t in b] for b in doc.bundles]
    old_ord = [[str(e.ord) for e in t.empty_nodes] for t in doc.trees]
    raw = [[(str(n.feats), str(n.misc)) for n in t.descendants] for t in doc.trees]
    create_block('util.Normalize', **kw, **z).run(doc)
    active = kw.get('sent_id') or kw.get('sent_id_prefix') or kw.get('start_sent_id', 1) != 1 or name
    want, num = [], kw.get('start_sent_id', 1)
    for b, nd in zip(old_ids, newdocs):
        if kw.get('sent_id_reset_at_newdoc') and any(nd):
            num = 1
        want.append((name or '') + kw.get('sent_id_prefix', '') + str(num) if active else b)
        num += 1
    mon.eq([b.bundle_id for b in doc.bundles], want, 'sentence IDs')
    mon.eq([t.sent_id for t in doc.trees], [w + ('/' + t.zone if t.zone else '') for w, b in zip(want, doc.bundles) for t in b], 'sentence IDs', 'trees')
    mon.eq(rest(doc), was, 'rest unchanged')
    mon.eq([edges(t) for t in doc.trees], was_edges, 'rest unchanged', 'enhanced dependencies')
    mon.eq([[id(n) for n in t.descendants_and_empty] for t in doc.trees], order, 'rest unchanged', 'order')
    if not kw.get('newdoc_from_filename'):
        mon.eq([[t.newdoc for t in b] for b in doc.bundles], newdocs, 'rest unchanged', 'newdoc')
    else:
        for b, nd in zip(doc.bundles, newdocs):
            first = next((k for k, x in enumerate(nd) if x), None)
            mon.eq([t.newdoc for t in b], [name if k == first else x for k, x in enumerate(nd)], 'rest unchanged', 'newdoc')
    for t, o, old in zip(doc.trees, old_ord, raw):
        if mine(t.zone):
            for n in t.descendants:
                for v, on in ((str(n.feats), kw.get('feats', 1)), (str(n.misc), kw.get('misc', 1))):
                    if on and v != '_':
                        keys = [x.split('=')[0].lower() for x in v.split('|')]
                        mon.ok(keys == sorted(keys), 'normalized order', v)
        else:
            mon.eq([(str(n.feats), str(n.misc)) for n in t.descendants], old, 'normalized order', 'zone not selected')
        if kw['empty_node_ord'] and mine(t.zone):
            want_ord, seen = [], Counter()
            for x in o:
                maj = x.split('.')[0]
                seen[maj] += 1
                want_ord.append(f'{maj}.{seen[maj]}')
            mon.eq([str(e.ord) for e in t.empty_nodes], want_ord, 'empty node order')
        else:
            mon.eq([str(e.ord) for e in t.empty_nodes], o, 'empty node order')
    mon.state('normalize', repr((kw, z, want)))


def counting(rng, mon, i):
    docs, zones = [], rng.choice(ZONES)
    for _ in range(rng.choice([1, 1, 2, 3])):
        text = text_of(rng, zones, rng.choice([1, 2, 3]), p_newdoc=0.4, p_newpar=0.4, p_mwt=0.5)
        mon.note(**{f'input{len(docs)}': text})
        doc = Document()
        doc.from_conllu_string(text)
        docs.append((doc, ref.parse(text)))
    z, mine = pick_zones(rng, mon, zones)
    filtered = rng.random() < 0.2
    c = dict.fromkeys(('trees', 'words', 'tokens', 'mwts', 'empty', 'docs', 'pars'), 0)
    for doc, sents in docs:
        trees = list(doc.trees)
        mon.eq(len(sents), len(trees), 'counts')
        gone = set()
        if filtered:
            for t in trees:
                if rng.random() < 0.4:
                    gone.add(id(t))
                    t.remove()
        first = True
        for t, s in zip(trees, sents):
            if id(t) in gone:
                continue
            is_first, first = first, False
            if not mine(t.zone):
                continue
            c['trees'] += 1
            c['words'] += len(s.words)
            c['mwts'] += len(s.mwts)
            c['tokens'] += len(s.words) - sum(m[1] - m[0] for m in s.mwts)
            c['empty'] += len(s.empties)
            c['docs'] += bool(t.newdoc) or is_first
            c['pars'] += bool(t.newpar)
    for tsv in (True, False):
        with captured() as buf:
            b = create_block('util.Wc', tsv=tsv, **z)
            b.process_start()
            for doc, _ in docs:
                b.apply_on_document(doc)
            b.process_end()
        out = buf.getvalue()
        if tsv:
            mon.eq(out, '\t'.join(str(c[k]) for k in ('trees', 'words', 'tokens', 'mwts', 'empty', 'docs', 'pars')) + '\n', 'counts')
        else:
            want = [(c['trees'], 'trees'), (c['words'], 'words')] + ([(c['mwts'], 'multi-word tokens'), (c['tokens'], 'tokens')] if c['mwts'] else [])
            want += [(c[k], n) for k, n in (('empty', 'empty nodes'), ('docs', 'documents'), ('pars', 'paragraphs')) if c[k]]
            mon.eq([(int(x[:8]), x[9:]) for x in out.splitlines()], want, 'counts')
    mon.state('counts', repr((c, z)))


def stat(n, name):
    """The values of a (pseudo-)attribute, from the definition."""
    words = list(n.root.descendants)
    kids = [m for m in words if m.parent is n]
    up = n.parent
    s = lambda v: '' if v is None else str(v)
    if name == 'dir':
        return ['root' if up is n.root else 'left' if n.ord < up.ord else 'right']
    if name == 'edge':
        return ['0' if up is n.root else str(n.ord - up.ord)]
    if name == 'depth':
        d = 1
        while up is not n.root:
            up, d = up.parent, d + 1
        return [str(d)]
    if name == 'children':
        return [str(len(kids))]
    if name == 'siblings':
        return [str(sum(m.parent is up for m in words) - 1)]
    if name == 'feats_split':
        return str(n.feats).split('|')
    if name[:2] == 'p_':
        return ['<ROOT>'] if up is n.root else stat(up, name[2:])
    if name[:2] == 'c_':
        return [v for m in kids for v in stat(m, name[2:])]
    if name[:2] == 'l_':
        k = words.index(n)
        return stat(words[k - 1], name[2:]) if k else ['<ROOT>']
    if name[:2] == 'r_':
        k = words.index(n)
        return stat(words[k + 1], name[2:]) if k + 1 < len(words) else []
    return [s(getattr(n, name))]


STATS = ['dir', 'edge', 'depth', 'children', 'siblings', 'feats_split', 'p_upos', 'p_lemma', 'c_upos', 'c_deprel', 'form', 'lemma', 'upos', 'deprel', 'l_form', 'r_upos', 'xpos']


def see(rng, mon, i):
    doc, zones = load(rng, mon, p_empty=rng.choice([0.0, 0.6]))
    z, mine = pick_zones(rng, mon, zones)
    empty = rng.random() < 0.3
    cond = rng.choice(NODE + ([] if empty else [c for c in TOPO if 'tree' not in c[0] and 'root' not in c[0]]))
    n_top = rng.choice([1, 3, 5, 100])
    stats = rng.sample(STATS, rng.randint(1, 4)) if not empty else rng.sample(['form', 'lemma', 'upos', 'xpos', 'feats_split'], rng.randint(1, 4))
    words = lambda t: t.descendants_and_empty if empty else t.descendants
    mon.note(condition=cond[0], stats=stats, n=n_top, zones=z)
    trees = [t for t in doc.trees if mine(t.zone)]
    nodes = [n for t in trees for n in words(t)]
    match = [n for n in nodes if cond[1](n)]
    mon.event('no matching node', not match)
    mt = sum(any(cond[1](n) for n in words(t)) for t in trees)
    with captured() as buf:
        create_block('util.See', node=cond[0], n=n_top, stats=','.join(stats), **z, **({'empty': 1} if empty else {})).run(doc)
    lines = buf.getvalue().split('\n')
    mon.eq(lines[:2], [cond[0], f'matches {len(match)} out of {len(nodes)} nodes ({100 * len(match) / (len(nodes) or 1):.1f}%) in {mt} out of {len(trees)} trees '
                                f'({100 * mt / (len(trees) or 1):.1f}%)'], 'statistics')
    pos = 2
    for s in stats:
        every = Counter(v for n in nodes for v in stat(n, s))
        hits = Counter(v for n in match for v in stat(n, s))
        m = re.fullmatch(r'=== (\S+) \((\d+) values?\) ===', lines[pos])
        mon.ok(m and m.group(1) == s and int(m.group(2)) == len(hits), 'statistics', lambda: (lines[pos], hits))
        pos += 1
        got = []
        for _ in range(min(n_top, len(hits))):
            line = lines[pos]
            pos += 1
            value, cnt, perc, delta = re.fullmatch(r' *(.*?) +(\d+) +(-?\d+)% delta= *([+-]\d+)%', line).groups()
            mon.ok(value.strip() in {v.strip() for v in hits}, 'statistics', lambda: (line, hits))
            real = [v for v in hits if v.strip() == value.strip()]
            if len(real) == 1:
                mon.eq(int(cnt), hits[real[0]], 'statistics', lambda: line)
                mp, ep = 100 * hits[real[0]] / sum(hits.values()), 100 * every[real[0]] / sum(every.values())
                mon.eq((int(perc), int(delta)), (int(mp), int(mp - ep)), 'statistics', lambda: line)
            got.append(int(cnt))
        mon.eq(got, sorted(hits.values(), reverse=True)[:n_top], 'statistics', s)
    mon.eq(lines[pos:], [''], 'statistics', 'end')
    mon.state('see', repr((cond[0], stats, n_top, len(match), len(nodes))))


def mark(rng, mon, i):
    doc, zones = load(rng, mon, p_empty=0.3)
    for t in doc.trees:
        for n in t.descendants:
            for k in ('Mark', 'ToDo', 'Bug', 'X'):
                if rng.random() < 0.1:
                    n.misc[k] = rng.choice(['old', '1', 'yes'])
    z, mine = pick_zones(rng, mon, zones)
    cond = rng.choice(NODE + [c for c in TOPO if 'tree' not in c[0] and 'root' not in c[0]])
    kw = dict(node=cond[0], add=rng.choice([True, True, 0]), print_stats=rng.choice([0, 1]), empty=rng.choice([False, True]) if cond in NODE else False)
    if rng.random() < 0.6:
        kw['mark'] = rng.choice([1, 'yes', 'a=b', 7])
    if rng.random() < 0.3:
        kw['mark_attr'] = rng.choice(['X', 'Todo2', 'Mark'])
    mon.note(options=kw, zones=z)
    want, total = {}, 0
    for t in doc.trees:
        for n in list(t.descendants) + list(t.empty_nodes):
            m = ref.kv(str(n.misc)) if str(n.misc) != '_' else []
            m = dict(m)
            if mine(t.zone) and (kw['empty'] or not n.is_empty()):
                if cond[1](n):
                    m[kw.get('mark_attr', 'Mark')] = str(kw.get('mark', 1))
                    total += 1
                elif not kw['add']:
                    for k in (kw.get('mark_attr', 'Mark'), 'ToDo', 'Bug'):
                        m.pop(k, None)
            want[n] = m
    attrs = {n: attrs_of(n)[:6] for n in want}
    with captured() as buf:
        create_block('util.Mark', **kw, **z).run(doc)
    for n, m in want.items():
        mon.eq(dict(ref.kv(str(n.misc))) if str(n.misc) != '_' else {}, m, 'marked words', lambda: n.form)
        mon.eq(attrs_of(n)[:6], attrs[n], 'attributes kept')
    mon.eq(buf.getvalue(), f'util.Mark marked {total} nodes\n' if kw['print_stats'] else '', 'marked words', 'total')
    mon.state('mark', repr((kw, z, total, len(want))))


def diff(rng, mon, i):
    """util.MarkDiff on words with unique forms, some deleted, inserted, changed, rehanged."""
    n = rng.choice([1, 2, 4, 6, 9])
    doc = Document()
    attrs = rng.choice(['form', 'form,upos', 'form,lemma,upos,xpos,deprel,feats,misc', 'form,deprel'])
    sents, text = [], ''
    for k in range(rng.choice([1, 2])):
        gold = [dict(form=f'g{j}', lemma=rng.choice(['l', 'm']), upos=rng.choice(['NOUN', 'VERB']), deprel=rng.choice(['nsubj', 'obj'])) for j in range(n)]
        pred = []
        p_edit = rng.choice([0, 0.1, 0.4])
        for j, w in enumerate(gold):
            w = dict(w)
            r = rng.random()
            if r < p_edit / 4:
                continue
            if r < p_edit / 2:
                w['form'] = w['form'] + 'x'
            elif r < p_edit * 0.8:
                w[rng.choice(['upos', 'deprel', 'lemma'])] = rng.choice(['new', 'obj'])
            elif r < p_edit and 'lemma' in attrs:
                # the same string if the attributes are concatenated with an underscore
                gold[j]['lemma'] = 'a_' + w['lemma']
                w['form'] += '_a'
                mon.event('underscore shift')
            pred.append(w)
            if rng.random() < p_edit / 3:
                pred.append(dict(form=f'n{len(pred)}', lemma='l', upos='NOUN', deprel='obj'))
        if not pred:
            pred = [dict(gold[0])]
        gp = gen.tree_parents(rng, len(gold))
        idx = {w['form']: j for j, w in enumerate(gold, 1)}
        pp = gen.tree_parents(rng, len(pred))
        if rng.random() < 0.7 and len(pred) == len(gold):
            pp = list(gp)
        sents.append((gold, gp, pred, pp))
        for z, ws, ps in (('gold', gold, gp), ('', pred, pp)):
            text += f'# sent_id = s{k}' + ('/gold' if z else '') + '\n'
            for j, w in enumerate(ws, 1):
                text += '\t'.join([str(j), w['form'], w['lemma'], w['upos'], '_', '_', str(ps[j]), w['deprel'], '_', rng.choice(['_', '_', 'Bug=1']) if 'misc' not in attrs else '_']) + '\n'
            text += '\n'
    mon.note(input=text)
    doc.from_conllu_string(text)
    kw = dict(gold_zone='gold', attributes=attrs, align=rng.choice([False, 'both', 'from-pred', 'from-gold']), ignore_parent=rng.choice([0, 0, 1]))
    kw['print_stats'] = rng.choice([0, -1, 1])
    kw['add'] = rng.choice([0, 1])
    if rng.random() < 0.3:
        kw['mark'] = 'zz'
    if rng.random() < 0.3:
        kw['mark_attr'] = rng.choice(['Diff'] + ([0] if kw['align'] or kw['print_stats'] else []))
    mon.note(options=kw)
    old = {x: str(x.misc) for t in doc.trees for x in t.descendants}
    with captured() as buf:
        create_block('util.MarkDiff', **kw).run(doc)
    name, value = kw.get('mark_attr', 'Mark'), str(kw.get('mark', 1))
    added = deleted = parents = onlyparents = 0
    for b, (gold, gp, pred, pp) in zip(doc.bundles, sents):
        gt, pt = b.get_tree('gold'), b.get_tree('')
        gn, pn = list(gt.descendants), list(pt.descendants)
        key = lambda w: tuple(w.get(a) for a in attrs.split(','))
        gk, pk = [key(w) for w in gold], [key(w) for w in pred]
        eq = {j: gk.index(x) for j, x in enumerate(pk) if x in gk}
        # words between the equal ones are aligned by position
        align, mark_p, mark_g = dict(eq), set(), set()
        anchors = [(-1, -1)] + sorted(eq.items()) + [(len(pk), len(gk))]
        for (a, x), (c, y) in zip(anchors, anchors[1:]):
            gap_p, gap_g = list(range(a + 1, c)), list(range(x + 1, y))
            align.update(zip(gap_p, gap_g))
            mark_p.update(gap_p)
            mark_g.update(gap_g)
            m = min(len(gap_p), len(gap_g))
            added += len(gap_g) - m
            deleted += len(gap_p) - m
        full = dict(align)
        full[-1] = -1
        for j, g in align.items():
            if full.get(pp[j + 1] - 1) != gp[g + 1] - 1 and not kw['ignore_parent']:
                if j in eq:
                    onlyparents += 1
                    mark_p.add(j)
                    mark_g.add(g)
                else:
                    parents += 1
        mon.event('unequal lengths', len(pk) != len(gk))
        for nodes, marked, al, on in ((pn, mark_p, align, kw['align'] in ('both', 'from-pred')), (gn, mark_g, {g: p for p, g in align.items()}, kw['align'] in ('both', 'from-gold'))):
            for j, x in enumerate(nodes):
                if name:
                    mon.eq(str(x.misc[name]), value if j in marked else '', 'differences', lambda: (x.form, kw))
                mon.eq(str(x.misc['Align']), str(al[j] + 1) if on and j in al else '', 'alignment', lambda: (x.form, kw))
                mon.eq(str(x.misc['Bug']), '1' if kw['add'] and 'Bug' in old[x] else '', 'differences', 'old marks')
        for t in (gt, pt):
            mon.eq(f'{name} = {value}' in (t.comment or ''), bool(len(pk) != len(gk) and name), 'differences', 'comment')
        mon.eq([[x.form for x in gn], [x.parent.ord for x in gn], [x.form for x in pn], [x.parent.ord for x in pn]],
               [[w['form'] for w in gold], gp[1:], [w['form'] for w in pred], pp[1:]], 'rest unchanged')
        mon.state('diff', repr((kw, gold, pred, gp, pp)))
    out = buf.getvalue()
    if kw['print_stats'] == -1:
        got = {m.group(2): int(m.group(1)) for m in re.finditer(r'^ *(\d+) (.*)$', out, re.M)}
        mon.eq([got.get(k, 0) for k in ('ADD-WORD', 'DELETE-WORD', 'ONLY-PARENT-CHANGED', 'PARENT-CHANGED')], [added, deleted, onlyparents, parents], 'differences', 'statistics')
        mon.eq(sum(v for k, v in got.items() if k.startswith('ADD-LEMMA')), added, 'differences', 'lemmas')
    else:
        mon.ok(len(out.splitlines()) <= kw['print_stats'], 'differences', 'number of lines')


def evaluate(rng, mon, i):
    """util.Eval runs the code once for each item, in order."""
    doc, zones = load(rng, mon)
    z, mine = pick_zones(rng, mon, zones)
    log = doc.meta['log'] = []
    use = set(rng.sample(['doc', 'bundle', 'tree', 'node', 'mwt', 'before_doc', 'after_doc', 'before_bundle', 'after_bundle', 'start', 'end'], rng.randint(1, 6)))
    empty = rng.random() < 0.4
    dollar = rng.random() < 0.5
    kw = {}
    for k in use:
        if k in ('start', 'end'):
            kw[k] = 'self.count["%s"] += 1' % k
        else:
            var = dict(doc='doc', bundle='bundle', tree='tree', node='node', mwt='mwt', before_doc='doc', after_doc='document', before_bundle='bundle', after_bundle='this')[k]
            item = 'this' if dollar else var
            where = {'doc': 'doc.', 'before_doc': '$.' if dollar else 'this.', 'after_doc': 'document.', 'bundle': 'document.', 'before_bundle': 'doc.', 'after_bundle': 'bundle.document.', 'tree': 'doc.',
                     'node': 'root.document.', 'mwt': 'bundle.document.'}[k]
            kw[k] = f'{where}meta["log"].append(("{k}", {item})); count_{k} += 1'
    if 'node' in use:
        kw['node'] += '; count_$.form += 1' if dollar else ''
    if empty:
        kw['empty_nodes'] = True
    mon.note(options=kw, zones=z)
    want = []
    for b_ in [None]:
        if 'before_doc' in use:
            want.append(('before_doc', doc))
        if 'doc' in use:
            want.append(('doc', doc))
        for b in doc.bundles:
            if 'before_bundle' in use:
                want.append(('before_bundle', b))
            if 'bundle' in use:
                want.append(('bundle', b))
            for t in b:
                if mine(t.zone):
                    if 'tree' in use:
                        want.append(('tree', t))
                    if 'node' in use:
                        want += [('node', n) for n in (t.descendants_and_empty if empty else t.descendants)]
                    if 'mwt' in use:
                        want += [('mwt', m) for m in t.multiword_tokens]
            if 'after_bundle' in use:
                want.append(('after_bundle', b))
        if 'after_doc' in use:
            want.append(('after_doc', doc))
    block = create_block('util.Eval', **kw, **z)
    # Names in count_X are expressions, so count_node needs the variables to exist.
    block.expand_code = True
    kw2 = {k: v.replace(f'count_{k}', f'count_"{k}"') for k, v in kw.items() if isinstance(v, str)}
    block = create_block('util.Eval', **dict(kw, **kw2), **z)
    block.run(doc)
    mon.eq([k for k, _ in log], [k for k, _ in want], 'evaluated code')
    mon.ok(all(a is b for (_, a), (_, b) in zip(log, want)), 'evaluated code', 'items')
    c = Counter(k for k, _ in want)
    for k in ('start', 'end'):
        c[k] += k in use
    if 'node' in use and dollar:
        for k, n in want:
            if k == 'node':
                c[n.form] += 1
    mon.eq({k: v for k, v in block.count.items() if v}, {k: v for k, v in c.items() if v}, 'evaluated code', 'counter')
    mon.state('eval', repr((sorted(use), empty, dollar, [k for k, _ in want])))


def closure(t, parents):
    """The nodes from which the root is reachable."""
    ok, more = set(), True
    while more:
        new = {n for n, ps in parents.items() if n not in ok and any(p is t or p in ok for p in ps)}
        ok |= new
        more = bool(new)
    return ok


def remove(rng, mon, i):
    """ud.RemoveMwt, transform.Flatten, corefud.RemoveMisc, corefud.Delete empty=1."""
    kind = rng.choice(['mwt', 'flat', 'misc', 'empty', 'empty'])
    doc, zones = load(rng, mon, p_mwt=0.8 if kind == 'mwt' else 0.3, p_empty=0.9 if kind == 'empty' else 0.2, p_deps=0.8)
    mon.note(kind=kind)
    mon.state('remove', repr((kind, doc.to_conllu_string())))
    if kind == 'flat':
        one = rng.choice([0, 1])
        z, mine = pick_zones(rng, mon, zones)
        was = [[attrs_of(n)[:5] + (n.deprel, n.parent.ord, str(n.misc)) for n in t.descendants] for t in doc.trees]
        create_block('transform.Flatten', oneroot=one, **z).run(doc)
        for t, w in zip(doc.trees, was):
            if mine(t.zone):
                w = [x[:5] + (('dep', 1) if one and k else ('root', 0)) + x[7:] for k, x in enumerate(w)]
            mon.eq([attrs_of(n)[:5] + (n.deprel, n.parent.ord, str(n.misc)) for n in t.descendants], w, 'flat')
            bad = malformed(t)
            mon.ok(bad is None, 'well-formed', lambda: bad)
    elif kind == 'misc':
        names = rng.sample(gen.MISC_NAMES, 3)
        for t in doc.trees:
            for n in t.descendants_and_empty:
                if rng.random() < 0.2:
                    n.misc[f'{names[0]}[{rng.randint(1, 12)}]'] = 'v'
        want = {n: {k: v for k, v in (dict(ref.kv(str(n.misc))) if str(n.misc) != '_' else {}).items() if re.sub(r'\[\d+\]', '', k) not in names}
                for t in doc.trees for n in t.descendants_and_empty}
        create_block('corefud.RemoveMisc', attrnames=','.join(names)).run(doc)
        for n, m in want.items():
            mon.eq(dict(ref.kv(str(n.misc))) if str(n.misc) != '_' else {}, m, 'attributes deleted', lambda: (n.form, names))
    elif kind == 'mwt':
        plan = []
        for t in doc.trees:
            toks = [(m.form, str(m.misc), list(m.words)) for m in t.multiword_tokens]
            gone = {w for _, _, ws in toks for w in ws[1:]}
            head = {}
            for n in t.descendants:
                h = n.parent
                while h in gone:
                    h = h.parent
                head[n] = h
            plan.append((t, toks, gone, head, list(t.descendants), {n: attrs_of(n) for n in t.descendants}, t.compute_text()))
        create_block('ud.RemoveMwt').run(doc)
        for t, toks, gone, head, words, attrs, text in plan:
            left = [w for w in words if w not in gone]
            mon.ok(len(t.multiword_tokens) == 0 and all(n.multiword_token is None for n in t.descendants), 'tokens as words', 'no MWT left')
            mon.eq([id(n) for n in t.descendants], [id(n) for n in left], 'tokens as words')
            bad = malformed(t)
            mon.ok(bad is None, 'well-formed', lambda: bad)
            first = {ws[0]: (form, misc, ws) for form, misc, ws in toks}
            for n in left:
                a = attrs[n]
                if n in first:
                    form, misc, ws = first[n]
                    feats = {}
                    for w in ws:
                        feats.update(dict(ref.kv(attrs[w][4])) if attrs[w][4] != '_' else {})
                    mon.eq((n.form, n.lemma, n.upos, n.xpos, n.deprel, str(n.misc)), (form, a[1], a[2], a[3], a[5], misc), 'tokens as words')
                    mon.eq(dict(ref.kv(str(n.feats))) if str(n.feats) != '_' else {}, feats, 'tokens as words', 'feats')
                else:
                    mon.eq(attrs_of(n), a, 'tokens as words', 'other words')
                    mon.ok(n.parent is head[n] or n.parent.multiword_token is None and head[n] not in left, 'heads')
                mon.ok(n.parent is head[n] or head[n] is n, 'heads', lambda: n.form)
            mon.eq(t.compute_text(), text, 'tokens as words', 'text')
    else:
        keep_heads = []
        for t in doc.trees:
            words = list(t.descendants)
            emp = set(t.empty_nodes)
            deps = {n: [(d['parent'], d['deprel']) for d in n.deps] for n in t.descendants_and_empty}

            def reach(n, seen):
                if n is t:
                    return True
                if n in seen or n in emp:
                    return False
                seen.add(n)
                return any(reach(p, seen) for p, _ in deps[n])
            keep_heads.append((t, words, emp, deps, {n: (attrs_of(n), n.parent) for n in words}, {n: reach(n, set()) for n in words}))
        create_block('corefud.Delete', empty=1, coref=0).run(doc)
        for t, words, emp, deps, base, ok in keep_heads:
            mon.eq(list(t.empty_nodes), [], 'empty nodes deleted')
            for n in words:
                mon.eq(attrs_of(n), base[n][0], 'attributes kept')
                mon.ok(n.parent is base[n][1], 'heads')
                mon.ok(n.raw_deps and '.' not in re.sub(r':[^|]*', '', n.raw_deps), 'empty nodes deleted', lambda: n.raw_deps)
                now = [(d['parent'], d['deprel']) for d in n.deps]
                mon.ok(all(p not in emp for p, _ in now), 'empty nodes deleted', lambda: n.raw_deps)
                kept = [d for d in deps[n] if d[0] not in emp]
                if len(kept) == len(deps[n]):
                    mon.ok(now == deps[n], 'empty nodes deleted', lambda: 'a word not depending on empty nodes')
                elif ok[n]:
                    mon.ok(now == kept, 'reachable', lambda: n.raw_deps)
                else:   # edges lead to the nearest words above
                    targets, seen, stack = set(), set(), [n]
                    while stack:
                        x = stack.pop()
                        for p, r in deps[x]:
                            if p not in emp:
                                targets.add((p.ord, r))
                            elif p not in seen:
                                seen.add(p)
                                stack.append(p)
                    got = {(p.ord, r) for p, r in now}
                    # (The root may have become reachable thanks to edges of the previous words.)
                    mon.ok(targets <= got and got - targets <= {(0, 'root')} or now == kept and kept, 'reachable', lambda: (n.raw_deps, targets))
                    mon.eq(len(got), len(now), 'reachable', 'an edge twice')
            before = closure(t, {n: [p for p, _ in d] for n, d in deps.items()})
            after = closure(t, {n: [d['parent'] for d in n.deps] for n in words})
            mon.ok(before - emp <= after, 'reachable', lambda: ('root no longer reachable from', [n.form for n in before - emp - after]))
        text = doc.to_conllu_string()
        for s in ref.parse(text):
            mon.eq(s.empties, [], 'empty nodes deleted', 'stored')
            for w in s.words:
                for d in w[8].split('|') if w[8] != '_' else []:
                    mon.ok(0 <= int(d.split(':')[0]) <= len(s.words), 'empty nodes deleted', 'stored head')


WORKLOADS = [Workload('filter', filter_, 5750, 60000), Workload('parts', parts, 1150, 8000), Workload('normalize', normalize, 2750, 25000), Workload('counting', counting, 2300, 20000),
             Workload('statistics', see, 2300, 20000), Workload('mark', mark, 2300, 20000), Workload('differences', diff, 3450, 30000), Workload('code', evaluate, 1800, 15000),
             Workload('remove', remove, 3450, 30000)]
