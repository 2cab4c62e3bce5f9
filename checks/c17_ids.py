"""C17: sentence IDs, zones, addresses, bundle numbers."""
import re

from lib import gen
from lib.vf import Logs, Workload, captured
from udapi.core.bundle import Bundle
from udapi.core.document import Document
from udapi.core.root import Root
from udapi.core.run import create_block

ID = 'C17'
RULE = 'distinct (history prefix, document structure) states: IDs, zones and order of all bundles and trees after each operation'
NEEDS = ['oracle.sent_id', 'oracle.address', 'oracle.number', 'oracle.precedes', 'oracle.refused', 'oracle.refused changes nothing', 'oracle.fresh ID',
         'oracle.zones', 'oracle.structure', 'oracle.round trip', 'oracle.nodes', 'oracle.get_tree', 'events.op.set_sent_id', 'events.op.set_bundle_id',
         'events.op.set_zone', 'events.op.remove_bundle', 'events.op.remove_tree', 'events.op.add_tree', 'events.op.create_tree', 'events.op.reload',
         'events.block.split', 'events.block.join', 'events.block.segment', 'events.block.merge', 'events.block.normalize', 'events.block.parts',
         'events.block.filter', 'oracle.words of a MWT', 'oracle.empty node address']
ASSUMPTIONS = ['bundle IDs are non-empty strings without whitespace and slashes; they are unique if the user keeps them unique',
               'a sentence ID without a slash set on a tree in a named zone renames the bundle and keeps the zone',
               'bundles are changed through the API, not by editing document.bundles']

GOOD_ZONES = ['', 'en', 'cs', 'en_udpipe', 'cs_Gold-2', 'x-y', '_ref', 'en_1', 'sr-latn']
BAD_ZONES = ['all', 'EN', 'en/cs', 'en_a_b', 'en_', 'č', ' ', 'en ', 'en\n', 'en_x\n', 'a.b', '1']
IDS = ['s1', 's2', 's3', 'a', 'train-s7', 'x.y:z', 'ž1', '1', '2', '3', '5', '7', '12', '-', '٣']


def valid_zone(z):
    """Documented pattern: lowercase letters and hyphens, optionally an underscore and a selector; 'all' is reserved."""
    if z == 'all':
        return False
    lang, sep, sel = z.partition('_')
    if any(not ('a' <= c <= 'z' or c == '-') for c in lang):
        return False
    return not sep or (sel != '' and all(c.isascii() and (c.isalnum() or c == '-') for c in sel))


class Model:
    """What the document should be: [[bundle, id, [[tree, zone], ...]], ...]."""

    def __init__(self, doc):
        self.doc = doc
        self.b = []

    def check(self, mon, rng):
        doc = self.doc
        mon.eq([id(x) for x in doc.bundles], [id(x[0]) for x in self.b], 'structure', 'bundles of the document')
        mon.eq(len(doc), len(self.b), 'structure')
        mon.eq([id(t) for t in doc.trees], [id(t) for x in self.b for t, _ in x[2]], 'structure', 'trees of the document')
        nums = []
        for bundle, bid, trees in self.b:
            nums.append(bundle.number)
            mon.eq(bundle.bundle_id, bid, 'sent_id', 'bundle_id')
            mon.eq(bundle.address(), bid, 'address')
            mon.ok(bundle.document is doc, 'structure', 'bundle.document')
            mon.eq([id(t) for t in bundle], [id(t) for t, _ in trees], 'structure', 'trees of a bundle')
            zs = [z for _, z in trees]
            mon.eq([t.zone for t, _ in trees], zs, 'zones')
            mon.ok(len(set(zs)) == len(zs), 'zones', zs)
            for t, z in trees:
                sid = bid + '/' + z if z else bid
                mon.eq(t.sent_id, sid, 'sent_id')
                mon.eq(t.address(), sid, 'address')
                mon.ok(t.bundle is bundle and t.document is doc, 'structure', 'tree.bundle')
                mon.ok(bundle.get_tree(z) is t and bundle.has_tree(z), 'get_tree', z)
                for n in t.descendants:
                    mon.eq(n.address(), f'{sid}#{n.ord}', 'address')
                for e in t.empty_nodes:
                    mon.eq(e.address(), f'{sid}#{e.ord}', 'empty node address')
                for m in t.multiword_tokens:
                    mon.eq(m.address(), f'{sid}#{m.words[0].ord}-{m.words[-1].ord}', 'words of a MWT')
            for z in rng.sample(GOOD_ZONES + ['nonexistent'], 3):
                if z not in zs:
                    mon.ok(not bundle.has_tree(z), 'get_tree', z)
                    mon.raises(lambda: bundle.get_tree(z), 'get_tree')
            if '' not in zs:
                mon.ok(not bundle.has_tree(), 'get_tree')
                mon.raises(lambda: bundle.get_tree(), 'get_tree')
        mon.ok(all(a < b for a, b in zip(nums, nums[1:])), 'number', nums)
        mon.ok(nums == list(range(1, len(nums) + 1)), 'number', lambda: ('numbers are 1-based positions', nums))
        mon.eq([id(n) for n in doc.nodes], [id(n) for t in doc.trees for n in t.descendants], 'nodes')
        # cross-sentence word order
        where = {}
        for i, (_, _, trees) in enumerate(self.b):
            for t, z in trees:
                where.setdefault(z, []).extend(((i, n.ord), n) for n in t.descendants)
        where = {z: items for z, items in where.items() if items}
        for z, items in where.items():
            for _ in range(3):
                (p, x), (q, y) = rng.choice(items), rng.choice(items)
                mon.eq(x.precedes(y), p < q, 'precedes', (z, p, q))
        zl = list(where)
        if len(zl) > 1:
            (p, x), (q, y) = rng.choice(where[zl[0]]), rng.choice(where[zl[1]])
            mon.raises(lambda: x.precedes(y), 'refused', ValueError)
        mon.state('document', repr([(bid, [(z, len(t.descendants)) for t, z in trees]) for _, bid, trees in self.b]))

    def shot(self):
        return [(id(b), b.bundle_id, b.number, [(id(t), t.zone, t.sent_id) for t in b]) for b in self.doc.bundles]

    def refused(self, mon, fn, what):
        before = self.shot()
        mon.raises(fn, 'refused')
        mon.eq(self.shot(), before, 'refused changes nothing', what)


def detached(mon, rng):
    """Trees and bundles which are not a part of a document."""
    bid = rng.choice(IDS)
    b = Bundle(bundle_id=bid) if rng.random() < 0.5 else Bundle()
    if rng.random() < 0.5 or b.bundle_id is None:
        bid = rng.choice(IDS)
        b.bundle_id = bid
    mon.eq((b.bundle_id, b.address(), b.document), (bid, bid, None), 'fresh ID', 'bundle outside of a document')
    zones = []
    for z in rng.sample(GOOD_ZONES, rng.randint(1, min(3, len(GOOD_ZONES)))):
        tree = Root()
        mon.eq(tree.sent_id, '?', 'sent_id', 'nowhere')
        if rng.random() < 0.5:
            tree.sent_id = rng.choice(['q', 'q/en', 'q/xx'])
            tree.zone = z
            mon.eq(tree.sent_id, 'q' + ('/' + z if z else ''), 'sent_id', 'of a tree without a bundle after setting the zone')
        else:
            tree = Root(zone=z)
            mon.eq(tree.sent_id, '?' + ('/' + z if z else ''), 'sent_id', 'of a tree without a bundle')
        b.add_tree(tree)
        zones.append(z)
        mon.eq([(t.zone, t.sent_id) for t in b], [(y, bid + ('/' + y if y else '')) for y in zones], 'sent_id', 'in a bundle outside of a document')
    bid = rng.choice(IDS)
    b.bundle_id = bid
    mon.eq([(t.zone, t.sent_id, t.address()) for t in b], [(y,) + (bid + ('/' + y if y else ''),) * 2 for y in zones], 'sent_id', 'renamed bundle outside of a document')


def fill(rng, tree):
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        tree.create_child(form=rng.choice(['a', 'b']), deprel='dep')
    d = tree.descendants
    if len(d) > 1 and rng.random() < 0.2:
        tree.create_multiword_token(d[:2], form='ab')
    if d and rng.random() < 0.2:
        rng.choice(d).create_empty_child('dep', form='e')


def new_id(rng, m, own=None):
    used = {x[1] for x in m.b} - {own}
    free = [x for x in IDS if x not in used]
    return rng.choice(free) if free else f'n{rng.randint(100, 999)}'


def history(rng, mon, i):
    doc = Document()
    m = Model(doc)
    log = []
    if rng.random() < 0.5:   # a loaded document
        text = gen.to_text(gen.gen_doc(rng, zones=True, max_n=4, p_nosid=0.0, p_newdoc=0.0))
        doc.from_conllu_string(text)
        log.append(text)
        m.b = [[b, b.bundle_id, [[t, t.zone] for t in b]] for b in doc.bundles]
        for b in doc.bundles:   # the IDs as written in the file
            for t in b:
                mon.ok(f'# sent_id = {t.sent_id}\n' in text, 'sent_id')
    m.check(mon, rng)
    detached(mon, rng)
    for _ in range(rng.choice([3, 6, 12, 20])):
        op = rng.choice(['create_bundle', 'create_bundle', 'create_tree', 'create_tree', 'create_tree', 'add_tree', 'set_sent_id', 'set_sent_id',
                         'set_bundle_id', 'set_zone', 'set_zone', 'remove_tree', 'remove_bundle', 'reload', 'renumber'])
        x = rng.choice(m.b) if m.b else None
        t = rng.choice(x[2]) if x and x[2] else None
        if op == 'create_bundle':
            known = {y[1] for y in m.b}
            b = doc.create_bundle()
            mon.ok(b.bundle_id not in known, 'fresh ID', lambda: (b.bundle_id, known))
            mon.ok(doc.bundles[-1] is b and b.trees == [], 'structure')
            m.b.append([b, b.bundle_id, []])
        elif op in ('create_tree', 'add_tree') and x:
            z = rng.choice(GOOD_ZONES + GOOD_ZONES + BAD_ZONES + [None])
            zz = z or ''
            root = None
            if op == 'add_tree':
                root = Root(zone=z) if rng.random() < 0.5 else Root()
                if root.zone is None and z is not None and rng.random() < 0.5:
                    root.sent_id = 'other/' + z
                elif root.zone is None and z is not None:
                    root.zone = z
                zz = root.zone or ''


            def act():
                if op == 'add_tree':
                    return x[0].add_tree(root)
                return x[0].create_tree(z) if z is not None or rng.random() < 0.5 else x[0].create_tree()
            if valid_zone(zz) and zz not in [q for _, q in x[2]]:
                r = act()
                mon.ok(root is None or r is root, 'structure')
                fill(rng, r)
                x[2].append([r, zz])
            else:
                m.refused(mon, act, zz)
        elif op == 'set_bundle_id' and x:
            x[1] = new_id(rng, m, x[1])
            x[0].bundle_id = x[1]
        elif op == 'set_sent_id' and t:
            bid = new_id(rng, m, x[1]) if rng.random() < 0.8 else x[1]
            how = rng.choice(['bare', 'same', 'zone', 'zone', 'empty'])
            z = {'bare': None, 'same': t[1], 'zone': rng.choice(GOOD_ZONES + BAD_ZONES), 'empty': ''}[how]
            sid = bid if z is None or (z == '' and how == 'same') else f'{bid}/{z}'
            if z is None:
                z = t[1]

            def act():
                t[0].sent_id = sid
            if z == t[1] or (valid_zone(z) and z not in [q for _, q in x[2]]):
                act()
                x[1], t[1] = bid, z
            else:
                m.refused(mon, act, sid)
        elif op == 'set_zone' and t:
            z = rng.choice(GOOD_ZONES + BAD_ZONES + [t[1]])

            def act():
                t[0].zone = z
            if z == t[1] or (valid_zone(z) and z not in [q for _, q in x[2]]):
                act()
                t[1] = z
            else:
                m.refused(mon, act, z)
        elif op == 'remove_tree' and t:
            t[0].remove()
            x[2] = [y for y in x[2] if y is not t]
        elif op == 'remove_bundle' and x:
            x[0].remove()
            m.b = [y for y in m.b if y is not x]
        elif op == 'reload' and m.b and all(y[2] for y in m.b) and len({y[1] for y in m.b}) == len(m.b):
            text = doc.to_conllu_string()
            doc2 = Document()
            doc2.from_conllu_string(text)
            mon.eq([(b.bundle_id, [(q.zone, q.sent_id, [n.address() for n in q.descendants]) for q in b]) for b in doc2.bundles],
                   [(y[1], [(z, y[1] + ('/' + z if z else ''), [n.address() for n in q.descendants]) for q, z in y[2]]) for y in m.b], 'round trip')
            if m.b[0][2][0][0].descendants and doc2.bundles and rng.random() < 0.5:
                other = doc2.bundles[0].trees[0]
                mine = m.b[0][2][0][0]
                mon.raises(lambda: mine.descendants[0].precedes(other.descendants[0]), 'refused', ValueError)
            doc = doc2
            m.doc = doc
            m.b = [[b, b.bundle_id, [[q, q.zone] for q in b]] for b in doc.bundles]
        elif op == 'renumber' and m.b:
            with Logs():
                create_block('util.Normalize', sent_id=1, sent_id_prefix='p').run(doc)
            for k, y in enumerate(m.b, 1):
                y[1] = f'p{k}'
        else:
            continue
        mon.event('op.' + op)
        log.append((op, [(y[1], [z for _, z in y[2]]) for y in m.b]))
        mon.note(log=log)
        m.check(mon, rng)
    if m.b and rng.random() < 0.3:   # a removed tree or bundle does not come back with what follows
        b = doc.create_bundle()
        mon.ok(b.bundle_id not in {y[1] for y in m.b}, 'fresh ID')
        m.b.append([b, b.bundle_id, []])
        m.check(mon, rng)


def consistent(mon, rng, doc, label):
    """The part of the property which holds whatever a block has done to the bundles."""
    m = Model(doc)
    m.b = [[b, b.bundle_id, [[t, t.zone] for t in b]] for b in doc.bundles]
    ids = [x[1] for x in m.b]
    mon.ok(len(set(ids)) == len(ids), 'fresh ID', lambda: (label, ids))
    m.check(mon, rng)
    b = doc.create_bundle()
    mon.ok(b.bundle_id not in ids, 'fresh ID', lambda: (label, b.bundle_id, ids))
    m.b.append([b, b.bundle_id, []])
    m.check(mon, rng)
    b.remove()


def blocks(rng, mon, i):
    """Blocks which add, remove and reorder bundles."""
    kind = rng.choice(['split', 'split1', 'join', 'join1', 'segment', 'merge', 'normalize', 'parts', 'filter', 'chain'])
    sents = gen.gen_doc(rng, nsent=rng.choice([1, 2, 3, 4]), max_n=6, p_nosid=0.0, p_newdoc=0.0, json_comments=0)
    if rng.random() < 0.3:   # numeric IDs
        ids = sorted(rng.sample(range(1, 12), len(sents)))
        for s, k in zip(sents, ids):
            s.comments = [f'# sent_id = {k}' if c.startswith('# sent_id =') else c for c in s.comments]
            s.sent_id = str(k)
    doc = Document()
    doc.from_conllu_string(gen.to_text(sents))
    ids = [b.bundle_id for b in doc.bundles]
    docs = [doc]
    mon.note(kind=kind, text=gen.to_text(sents))
    with captured(), Logs():
        for step in (rng.choice(['split', 'join', 'merge', 'normalize', 'filter']) for _ in range(3)) if kind == 'chain' else [kind]:
            trees = list(doc.trees)
            if not trees or len(trees) < len(doc.bundles):
                break
            if step == 'split':
                for t in trees:
                    for n in t.descendants:
                        if n.ord > 1 and rng.random() < 0.3:
                            n.misc['Cut'] = rng.choice(['Yes', '1'])
                create_block('util.SplitSentence', misc_name='Cut', **({} if rng.random() < 0.6 else dict(misc_value=rng.choice(['Yes', 1])))).run(doc)
            elif step == 'split1':
                t = rng.choice(trees)
                if len(t.descendants) > 1:
                    sid = t.sent_id
                    create_block('util.SplitSentence', sent_id=int(sid) if sid.isdecimal() else sid, word_id=rng.randint(2, len(t.descendants))).run(doc)
                    mon.eq([b.bundle_id for b in doc.bundles], [y for z in ids for y in ([z + 'A', z + 'B'] if z == sid else [z])], 'structure')
            elif step == 'join':
                for t in trees[1:]:
                    if t.descendants and rng.random() < 0.4:
                        rng.choice(t.descendants).misc['Glue'] = 'Yes'
                create_block('util.JoinSentence', misc_name='Glue').run(doc)
            elif step == 'join1':
                if len(trees) > 1:
                    t = rng.choice(trees[1:])
                    sid = t.sent_id
                    create_block('util.JoinSentence', sent_id=int(sid) if sid.isdecimal() else sid).run(doc)
                    mon.eq([b.bundle_id for b in doc.bundles], [z for z in ids if z != sid], 'structure')
            elif step == 'segment':
                for t in trees:
                    for n in t.children:
                        n.remove()
                    t.text = ' '.join(rng.choice(['Ahoj.', 'Pes!', 'Kos', 'x.', 'A.', '1.', '„Ne?“', 'B']) for _ in range(rng.randint(1, 6)))
                create_block('segment.Simple').run(doc)
            elif step == 'merge':
                for t in trees:
                    if t.descendants and rng.random() < 0.5:
                        t.descendants[-1].form = rng.choice([';', 'x;'])
                if all(t.descendants for t in trees):
                    create_block('segment.Merge').run(doc)
            elif step == 'normalize':
                start = rng.choice([1, 1, 5])
                pref = rng.choice(['', 'q-', 'ž'])
                create_block('util.Normalize', sent_id=1, start_sent_id=start, sent_id_prefix=pref).run(doc)
                mon.eq([b.bundle_id for b in doc.bundles], [f'{pref}{start + k}' for k in range(len(doc.bundles))], 'structure')
            elif step == 'parts':
                blk = create_block('util.Split', **rng.choice([dict(parts=2), dict(parts=3), dict(bundles_per_doc=1), dict(bundles_per_doc=2)]))
                docs, d = [], doc
                while True:
                    blk.apply_on_document(d)
                    docs.append(d)
                    if blk.finished:
                        break
                    d = Document()
                mon.eq([b.bundle_id for d in docs for b in d.bundles], ids, 'structure')
            elif step == 'filter':
                pick = rng.choice(['len(tree.descendants) > 2', 'tree.descendants and tree.descendants[0].form > "b"', 'tree.bundle.number == 1'])
                create_block('util.Filter', **{rng.choice(['keep_tree_if_node', 'delete_tree_if_node']): 'node.ord > 2'} if rng.random() < 0.5 else
                             {rng.choice(['keep_tree', 'delete_tree']): pick}).run(doc)
            mon.event('block.' + step.rstrip('1'))
    for d in docs:
        consistent(mon, rng, d, kind)


WORKLOADS = [Workload('history', history, 9000, 54000), Workload('blocks', blocks, 9000, 54000)]
