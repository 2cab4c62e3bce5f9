"""C19: splitting, joining and moving sentences conserves words and structure."""
from lib import gen
from lib.treelib import attrs_of, malformed
from lib.vf import Logs, Workload
from udapi.core.document import Document
from udapi.core.root import Root
from udapi.core.run import create_block

ID = 'C19'
RULE = 'distinct (sentences before, operation) pairs after which every word, head, token, empty node and enhanced edge was compared by node identity'
NEEDS = ['oracle.words', 'oracle.heads', 'oracle.tokens', 'oracle.attributes', 'oracle.empty nodes', 'oracle.enhanced edges', 'oracle.well-formed', 'oracle.text',
         'oracle.surface text', 'oracle.root deprels', 'oracle.trigger removed', 'oracle.stored file', 'oracle.refused', 'oracle.one root', 'oracle.characters',
         'events.steal.whole', 'events.steal.suffix', 'events.steal.subset', 'events.steal.MWT cut', 'events.steal.MWT moved', 'events.block.split', 'events.block.split at word',
         'events.block.join', 'events.block.join by ID', 'events.block.merge', 'events.block.chain', 'events.gold.split', 'events.gold.joined', 'events.gold.shifted']
ASSUMPTIONS = ['all trees of an operation are in the same document, one zone per bundle for split and join',
               'a selection that cuts a multi-word token: only word order, heads and well-formedness are specified',
               'the marked word is not inside a multi-word token, the first sentence is not marked for joining']

MARK = 'Sentence'


class M:
    """A tree as it should be."""

    def __init__(self, root):
        self.root = root
        self.words = list(root.descendants)
        self.head = {n: n.parent for n in self.words}
        self.attrs = {n: attrs_of(n) for n in self.words}
        self.mwts = [[list(m.words), m.form, (str(m.misc), str(m.feats))] for m in root.multiword_tokens]
        self.mwts.sort(key=lambda m: m[0][0].ord)
        self.empties, last = [], root
        for n in root.descendants_and_empty:
            if n.is_empty():
                self.empties.append((n, last))
            else:
                last = n
        # Only a string comparison, so the strings of the real nodes are not deserialized.
        by_id = {'0': root}
        for n in root.descendants_and_empty:
            by_id[str(n.ord)] = n
        self.deps = {n: [] if n.raw_deps == '_' else [(by_id[d.split(':', 1)[0]], d.split(':', 1)[1]) for d in n.raw_deps.split('|')]
                     for n in root.descendants_and_empty}
        self.cut = False

    def give(self, other, chosen):
        """Move chosen words to the end of other."""
        whole = len(chosen) == len(self.words)
        chosen = [w for w in self.words if w in set(chosen)]
        sel = set(chosen)
        last = other.words[-1] if other.words else other.root
        for w in chosen:
            if self.head[w] is self.root or self.head[w] not in sel:
                other.head[w] = other.root
            else:
                other.head[w] = self.head[w]
        for w in self.words:
            if w not in sel and self.head[w] in sel:
                self.head[w] = self.root
        other.words += chosen
        self.words = [w for w in self.words if w not in sel]
        for m in list(self.mwts):
            inside = [w in sel for w in m[0]]
            if all(inside):
                self.mwts.remove(m)
                other.mwts.append(m)
            elif any(inside):
                self.cut = other.cut = True
        moved = []
        for e, after in list(self.empties):
            if after in sel or (whole and after is self.root):
                self.empties.remove((e, after))
                other.empties.append((e, last if after is self.root else after))
                moved.append(e)
        for n in chosen + moved:
            other.deps[n] = self.deps.pop(n)
        for n in chosen:
            other.attrs[n] = self.attrs.pop(n)
            if other.head[n] is not self.root:
                self.head.pop(n)
        for m in self, other:
            nodes = set(m.deps)
            for n in nodes:
                m.deps[n] = [(p if p in nodes else m.root, r) for p, r in m.deps[n]]

    def check(self, mon, text=True):
        t = self.root
        mon.eq([n.form for n in t.descendants], [n.form for n in self.words], 'words')
        mon.ok(all(a is b for a, b in zip(t.descendants, self.words)), 'words', 'order of equal forms')
        bad = malformed(t)
        mon.ok(bad is None, 'well-formed', lambda: bad)
        mon.eq([(n.ord, n.parent.ord) for n in self.words], [(n.ord, self.head[n].ord) for n in self.words], 'heads')
        mon.ok(all(n.parent is self.head[n] for n in self.words), 'heads', 'identity')
        inside = {id(w) for m in t.multiword_tokens for w in m.words}
        for m in t.multiword_tokens:
            mon.ok(m.root is t, 'well-formed', 'mwt.root')
            mon.ok(all(w.multiword_token is m and w.root is t for w in m.words), 'well-formed', 'words of a MWT')
        mon.ok(all(n.multiword_token is None for n in self.words if id(n) not in inside), 'well-formed', 'MWT of another tree')
        if not self.cut:
            got = sorted([[[w.ord for w in m.words], m.form, (str(m.misc), str(m.feats))] for m in t.multiword_tokens])
            mon.eq(got, sorted([[w.ord for w in m[0]], m[1], m[2]] for m in self.mwts), 'tokens')
            mon.eq([attrs_of(n) for n in self.words], [self.attrs[n] for n in self.words], 'attributes')
        slots = []
        last = t
        for n in t.descendants_and_empty:
            if n.is_empty():
                slots.append((n, last))
                mon.ok(n.root is t, 'empty nodes', 'root')
            else:
                last = n
        mon.eq([(e.form, f.ord) for e, f in slots], [(e.form, f.ord) for e, f in self.empties], 'empty nodes')
        mon.ok(all(a is b and f is g for (a, f), (b, g) in zip(slots, self.empties)), 'empty nodes', 'identity')
        mon.eq([e.ord for e in t.empty_nodes], sorted(e.ord for e in t.empty_nodes), 'empty nodes', 'sorted')
        count, names = {}, []
        for e, f in slots:
            count[f.ord] = count.get(f.ord, 0) + 1
            names.append(f'{f.ord}.{count[f.ord]}')
        mon.eq([str(e.ord) for e in t.empty_nodes], names, 'empty nodes', 'numbered after the word they follow')
        for n in t.descendants_and_empty:
            mon.eq(n.raw_deps, '|'.join(f'{p.ord}:{r}' for p, r in self.deps[n]) or '_', 'enhanced edges', lambda: n.form)
            mon.ok(all(d['parent'] is p for d, (p, _) in zip(n.deps, self.deps[n])), 'enhanced edges', 'identity')
        if text:
            mon.eq(t.text, t.compute_text(), 'text')


def surface(trees):
    return ''.join(tok.form for t in trees for tok in t.token_descendants)


def document(rng, mon, nsent, **kw):
    kw = dict(dict(p_mwt=0.5, p_empty=0.3, p_deps=0.4, p_notext=0.2, max_n=10), **kw)
    text = ''.join(gen.add_mwt_feats(rng, [gen.gen_sent(rng, sid=f's{i}', **kw)])[0].conllu() for i in range(nsent))
    mon.note(input=text)
    doc = Document()
    doc.from_conllu_string(text)
    if rng.random() < 0.5:
        for t in doc.trees:
            for n in t.descendants_and_empty:
                n.deps
    return doc


def stored(mon, doc):
    """The operation survives storing."""
    doc2 = Document()
    doc2.from_conllu_string(doc.to_conllu_string())
    trees = list(doc.trees)
    mon.eq(len(list(doc2.trees)), len(trees), 'stored file')
    for a, b in zip(doc2.trees, trees):
        mon.eq([attrs_of(n) + (n.parent.ord, n.raw_deps) for n in a.descendants], [attrs_of(n) + (n.parent.ord, n.raw_deps) for n in b.descendants], 'stored file')
        mon.eq([(str(n.ord), n.form, n.raw_deps) for n in a.empty_nodes], [(str(n.ord), n.form, n.raw_deps) for n in b.empty_nodes], 'stored file')
        mon.eq([(m.ord_range, m.form, str(m.misc)) for m in a.multiword_tokens],
               sorted([(m.ord_range, m.form, str(m.misc)) for m in b.multiword_tokens], key=lambda m: int(m[0].split('-')[0])), 'stored file')


def pick(rng, words, mwts):
    kind = rng.choice(['whole', 'suffix', 'prefix', 'interval', 'subset', 'subset', 'subtree'])
    n = len(words)
    if kind == 'whole':
        sel = list(words)
    elif kind == 'suffix':
        sel = words[rng.randrange(n):]
    elif kind == 'prefix':
        sel = words[:rng.randint(1, n)]
    elif kind == 'interval':
        a = rng.randrange(n)
        sel = words[a:rng.randint(a + 1, n)]
    elif kind == 'subset':
        sel = [w for w in words if rng.random() < 0.5] or [words[0]]
    else:
        sel = list(rng.choice(words).descendants(add_self=True))
    cut = False
    if rng.random() < 0.8:
        for ws, _, _ in mwts:   # do not cut tokens
            if any(w in sel for w in ws):
                sel += [w for w in ws if w not in sel]
    else:
        cut = any(any(w in sel for w in ws) and not all(w in sel for w in ws) for ws, _, _ in mwts)
    return kind, sel, cut


def steal(rng, mon, i):
    doc = document(rng, mon, rng.choice([2, 2, 3]))
    trees = list(doc.trees)
    if rng.random() < 0.4:
        trees.append(doc.create_bundle().create_tree())
    models = {t: M(t) for t in trees}
    log = []
    mon.note(history=log)
    for _ in range(rng.randint(1, 4)):
        src, trg = rng.sample(trees, 2)
        m, o = models[src], models[trg]
        if not m.words:
            trg.steal_nodes([])
            o.check(mon, text=False)
            continue
        kind, sel, cut = pick(rng, m.words, m.mwts)
        rng.shuffle(sel)
        log.append((trees.index(src), trees.index(trg), sorted(n.ord for n in sel)))
        mon.event('steal.' + ('whole' if len(sel) == len(m.words) else kind))
        mon.event('steal.MWT cut', cut)
        mon.event('steal.MWT moved', sum(ws[0] in sel for ws, _, _ in m.mwts))
        if rng.random() < 0.1 and len(models) > 1:
            alien = [w for t, x in models.items() if t is not src for w in x.words]
            if alien:
                before = [str(x.__dict__) if hasattr(x, '__dict__') else 0 for x in trees]
                mon.raises(lambda: trg.steal_nodes(sel + [alien[0]]), 'refused', ValueError)
        trg.steal_nodes(sel)
        m.give(o, sel)
        for x in models.values():
            x.check(mon, text=False)
        mon.state('steal', repr((log[-1], [[n.form for n in x.words] for x in models.values()], [x.mwts and len(x.mwts) for x in models.values()])))
        if cut:
            return
    if rng.random() < 0.5:
        stored(mon, doc)


def after_split(mon, before_text, groups_text, last_joined):
    """The text of the whole is the texts of the parts put together."""
    out = ''
    for text, glued in zip(groups_text, last_joined):
        out += text + ('' if glued else ' ')
    mon.eq(out.rstrip(), before_text, 'surface text')


def glued(tree):
    tok = list(tree.token_descendants)[-1]
    return tok.misc['SpaceAfter'] == 'No'


def blocks(rng, mon, i):
    kind = rng.choice(['split', 'split at word', 'join', 'join by ID', 'merge', 'chain'])
    doc = document(rng, mon, rng.choice([2, 3, 4]))
    if kind == 'merge' or kind == 'chain':
        for t in doc.trees:
            if rng.random() < 0.5:
                t.descendants[-1].form = rng.choice([';', 'a;', ';;'])
    log = []
    mon.note(history=log)
    models = [M(t) for t in doc.trees]
    mon.event('block.' + kind)
    steps = [rng.choice(['split', 'join', 'merge']) for _ in range(3)] if kind == 'chain' else [kind]
    for step in steps:
        trees = list(doc.trees)
        text = surface(trees)
        mon.event('block.' + step)
        if step in ('split', 'split at word'):
            wanted = {}
            if step == 'split':
                val = rng.choice([None, 'x', '1'])
                for k, t in enumerate(trees):
                    pts = []
                    for n in t.descendants:
                        if MARK in n.misc:   # left by a previous step
                            del n.misc[MARK]
                    for n in t.descendants[1:]:
                        if rng.random() < 0.25 and (not n.multiword_token or n is n.multiword_token.words[0]):
                            v = val if val is not None else rng.choice(['a', '1', 'Yes'])
                            n.misc[MARK] = v
                            pts.append(n)
                        elif rng.random() < 0.1 and val is not None:
                            n.misc[MARK] = val + '2'
                        elif rng.random() < 0.1 and val is not None:
                            n.misc[MARK.lower() + 'X'] = val
                    wanted[k] = pts
                    models[k] = M(t)
                    for p in pts:
                        a = list(models[k].attrs[p])
                        was = p.misc[MARK]
                        p.misc[MARK] = ''
                        models[k].attrs[p] = attrs_of(p)
                        p.misc[MARK] = was
                block = create_block('util.SplitSentence', misc_name=MARK, misc_value=val)
                log.append(('split', val, [[p.ord for p in wanted[k]] for k in wanted]))
            else:
                cand = [(k, n) for k, t in enumerate(trees) for n in t.descendants[1:]
                        if not n.multiword_token or n is n.multiword_token.words[0]]
                if not cand:
                    continue
                k, n = rng.choice(cand)
                wanted[k] = [n]
                block = create_block('util.SplitSentence', sent_id=trees[k].bundle.bundle_id, word_id=n.ord)
                log.append(('split at', k, n.ord))
            was = [t.compute_text() for t in trees]
            texts = [t.text for t in trees]
            with Logs():
                block.process_document(doc)
            now = list(doc.trees)
            new_models, pos = [], 0
            for k, t in enumerate(trees):
                m = models[k]
                pts = wanted.get(k, [])
                mon.ok(now[pos] is t, 'words', 'order of sentences')
                parts = [m]
                cuts = [p for p in pts] + [None]
                for a, b in zip(cuts, cuts[1:]):
                    nm = M(now[pos + len(parts)])
                    nm.words, nm.head, nm.attrs, nm.mwts, nm.empties, nm.deps = [], {}, {}, [], [], {}
                    end = m.words.index(b) if b is not None else len(m.words)
                    m.give(nm, m.words[m.words.index(a):end])
                    parts.append(nm)
                pos += len(parts)
                if len(parts) > 1:
                    for x in parts:
                        for n in x.words:
                            if x.head[n] is x.root:
                                a = list(x.attrs[n])
                                a[5] = 'root'
                                x.attrs[n] = tuple(a)
                        mon.ok(all(n.deprel == 'root' for n in x.root.children), 'root deprels')
                        x.check(mon)
                    after_split(mon, was[k], [x.root.text for x in parts], [glued(x.root) for x in parts])
                else:
                    m.check(mon, text=False)
                    mon.eq(t.text, texts[k], 'text', 'other sentence')
                new_models += parts
                for p in pts:
                    if step == 'split':
                        mon.eq(p.misc[MARK], '', 'trigger removed')
            mon.eq(pos, len(now), 'words', 'number of sentences')
            models = new_models
        elif step in ('join', 'join by ID'):
            marks = {}
            if len(trees) < 2:
                continue
            if step == 'join':
                val = rng.choice([None, 'x', '1'])
                for k, t in enumerate(trees):
                    for n in t.descendants:
                        if MARK in n.misc:
                            del n.misc[MARK]
                    models[k] = M(t)
                    if k and rng.random() < 0.5:
                        n = rng.choice(list(t.descendants))
                        marks[k] = [n] + (rng.sample(list(t.descendants), min(2, len(t.descendants))) if rng.random() < 0.3 else [])
                        for n in marks[k]:
                            n.misc[MARK] = val if val is not None else rng.choice(['a', '1'])
                        mon.event('several join marks', len(set(marks[k])) > 1)
                    elif k and val is not None and rng.random() < 0.3:
                        n = rng.choice(list(t.descendants))
                        n.misc[MARK] = val + 'y'
                        models[k] = M(t)
                block = create_block('util.JoinSentence', misc_name=MARK, misc_value=val)
            else:
                k = rng.randrange(1, len(trees))
                marks[k] = None
                block = create_block('util.JoinSentence', sent_id=trees[k].bundle.bundle_id)
            log.append((step, sorted(marks)))
            was = [t.compute_text() for t in trees]
            glue = [glued(t) for t in trees]
            texts = [t.text for t in trees]
            with Logs():
                block.process_document(doc)
            joined(mon, doc, trees, models, set(marks), was, glue, texts)
            models = [m for k, m in enumerate(models) if k not in marks]
            for ns in marks.values():
                for n in ns or ():
                    mon.eq(n.misc[MARK], '', 'trigger removed')
        elif step == 'merge':
            marks = {k + 1 for k, t in enumerate(trees[:-1]) if t.descendants[-1].form.endswith(';')}
            was = [t.compute_text() for t in trees]
            glue = [glued(t) for t in trees]
            texts = [t.text for t in trees]
            log.append(('merge', sorted(marks)))
            create_block('segment.Merge').process_document(doc)
            joined(mon, doc, trees, models, marks, was, glue, texts)
            models = [m for k, m in enumerate(models) if k not in marks]
        mon.eq(surface(doc.trees), text, 'surface text', 'concatenated tokens')
        mon.state('block', repr((log[-1:], [[n.form for n in x.words] for x in models])))
    stored(mon, doc)


def joined(mon, doc, trees, models, marks, was, glue, texts):
    now = list(doc.trees)
    mon.eq(len(now), len(trees) - len(marks), 'words', 'number of sentences')
    pos, cur = -1, None
    groups = []
    for k in range(len(trees)):
        if k in marks:
            models[k].give(cur, models[k].words)
            groups[-1].append(k)
        else:
            cur = models[k]
            groups.append([k])
    for t, g in zip(now, groups):
        mon.ok(t is trees[g[0]], 'words', 'order of sentences')
        models[g[0]].check(mon, text=len(g) > 1)
        if len(g) > 1:
            after_split(mon, t.text, [was[k] for k in g], [glue[k] for k in g])
        else:
            mon.eq(t.text, texts[g[0]], 'text', 'other sentence')


FUNCTIONAL = {'aux', 'cop', 'mark', 'det', 'clf', 'case', 'cc'}
CHARS = ['a', 'b', 'ab', 'ba', '.', 'cd', 'č', 'x']


def gold(rng, mon, i):
    """util.ResegmentGold: the predicted zone gets the sentences of the gold zone."""
    n = rng.randint(2, 14)
    forms = [rng.choice(CHARS) for _ in range(n)]

    def cuts():
        return sorted(rng.sample(range(1, n), rng.randint(0, min(4, n - 1)))) + [n]
    gc = cuts()
    pc = gc if rng.random() < 0.1 else (sorted(set(gc) | set(rng.sample(range(1, n), 1))) if rng.random() < 0.3 else cuts())
    doc = Document()
    gtrees, ptrees = [], []

    def sentences(cs, retok):
        start, out = 0, []
        for end in cs:
            toks, k = [], start
            while k < end:
                if retok and rng.random() < 0.15 and k + 1 < end:
                    toks.append(forms[k] + rng.choice(['', '', ' ', '\u00a0']) + forms[k + 1])
                    k += 2
                else:
                    toks.append(forms[k])
                    k += 1
            out.append(toks)
            start = end
        return out
    gs, ps = sentences(gc, True), sentences(pc, False)
    orig_head, orig_tree = {}, {}
    for k in range(max(len(gs), len(ps))):
        b = doc.create_bundle()
        for zone, sents, store in (('gold', gs, gtrees), ('pred', ps, ptrees)):
            if k >= len(sents):
                continue
            t = b.create_tree(zone)
            par = gen.tree_parents(rng, len(sents[k]))
            nodes = [t] + [t.create_child(form=f, deprel=rng.choice(gen.DEPRELS)) for f in sents[k]]
            for c in range(1, len(nodes)):
                nodes[c].parent = nodes[par[c]]
            # A single sub-root, as in CoNLL-U.
            for extra in t.children[1:]:
                extra.parent = t.children[0]
            store.append(t)
            if zone == 'pred':
                for w in t.descendants:
                    orig_head[w], orig_tree[w] = w.parent, t
                ws = list(t.descendants)
                k2 = 0
                while k2 + 1 < len(ws):
                    if rng.random() < 0.15:
                        t.create_multiword_token(ws[k2:k2 + 2], form=ws[k2].form + ws[k2 + 1].form)
                        k2 += 1
                    k2 += 1
    cross = False
    gset = set(gc)
    pos = 0
    for t in ptrees:
        for tok in t.token_descendants:
            size = len(getattr(tok, 'words', [0]))
            if any(p in gset for p in range(pos + 1, pos + size)):
                cross = True
            pos += size
    if cross:
        mon.event('gold.MWT crossing (not specified)')
        return
    words = [w for t in ptrees for w in t.descendants]
    kids = {}
    for w in words:
        kids.setdefault(orig_head[w], []).append(w)
    mon.note(gold=gs, pred=ps, gc=gc, pc=pc)
    mon.event('gold.same' if gc == pc else 'gold.split' if set(pc) < gset else 'gold.joined' if set(pc) > gset else 'gold.shifted')
    gsnap = [[(w.form, w.parent.ord) for w in t.descendants] for t in gtrees]
    toks = [(m.form, tuple(map(id, m.words))) for t in ptrees for m in t.multiword_tokens]
    with Logs():
        create_block('util.ResegmentGold', gold_zone='gold').process_document(doc)
    mon.eq([[(w.form, w.parent.ord) for w in t.descendants] for t in gtrees], gsnap, 'words', 'gold zone')
    mon.eq([[t.zone for t in b] for b in doc.bundles], [['gold', 'pred']] * len(gs), 'words', 'zones')
    new = [b.get_tree('pred') for b in doc.bundles]
    got = [w for t in new for w in t.descendants]
    mon.eq([w.form for w in got], [w.form for w in words], 'words')
    mon.ok(all(a is b for a, b in zip(got, words)), 'words', 'identity')
    mon.eq(sorted((m.form, tuple(map(id, m.words))) for t in new for m in t.multiword_tokens), sorted(toks), 'tokens')
    mon.eq([''.join(tok.form for tok in t.token_descendants) for t in new], [''.join(''.join(c for c in f if c not in ' \u00a0') for f in s) for s in gs], 'characters')
    for t in new:
        bad = malformed(t)
        mon.ok(bad is None, 'well-formed', lambda: bad)
        mon.eq(len(t.children), 1, 'one root')
        ws = set(t.descendants)
        top = t.children[0]
        roots = [w for w in t.descendants if orig_head[w].is_root()]
        if roots and len(ptrees) > 1:
            # the root is one of the original ones: that which has the form of the gold root and is nearest to its position, else the first one
            g = gtrees[new.index(t)].children[0]
            same = [w for w in roots if w.form == g.form]
            best = min(same, key=lambda w: abs(w.ord - g.ord)) if same else roots[0]
            mon.event('gold.root by form' if same and len(roots) > 1 else 'gold.root first', len(roots) > 1)
            mon.ok(top is best, 'one root', lambda: f'{top.ord} {top.form} chosen of {[(w.ord, w.form) for w in roots]}, gold {g.ord} {g.form}')
        for w in t.descendants:
            h = orig_head[w]
            if h in ws:
                mon.ok(w.parent is h, 'heads', lambda: (w.form, w.ord))
            else:
                mon.ok(w is top or w.parent is top or orig_head[w.parent].is_root() or w.parent.misc['Rehanged'] == 'Yes', 'heads', lambda: ('rehanged', w.form, w.ord))
                mon.eq(w.misc['Rehanged'], '' if w is top and h.is_root() else 'Yes', 'attributes', lambda: f'Rehanged mark of {w.ord} {w.form}')
            if h in ws:
                mon.eq(w.misc['Rehanged'], '', 'attributes', lambda: f'Rehanged mark of {w.ord} {w.form} which kept its head')
            lost = [c for c in kids.get(w, ()) if c.udeprel in FUNCTIONAL and c not in ws]
            mon.event('gold.lost functional child', len(lost))
            if lost:
                mon.eq(w.misc['FuncChildMissing'], 'Yes', 'attributes', lambda: f'functional child of {w.ord} {w.form} went to another sentence')
            elif not any(c.udeprel in FUNCTIONAL for c in words):
                mon.eq(w.misc['FuncChildMissing'], '', 'attributes')
    mon.state('gold', repr((gc, pc, [w.ord for w in got], [w.parent.ord for w in got])))


WORKLOADS = [Workload('moving words', steal, 10500, 63000), Workload('blocks', blocks, 10500, 63000), Workload('gold segmentation', gold, 10500, 63000)]
