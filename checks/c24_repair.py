"""C24: treebank-repair blocks change only what they document, remove their defect and keep the words and a valid tree."""
import itertools
import os
import re

from lib import gen
from lib.treelib import malformed
from lib.vf import Logs, Workload, captured
from udapi.core.document import Document
from udapi.core.run import create_block

ID = 'C24'
RULE = 'distinct (tree, block, parameters) inputs whose repaired tree was compared with an independent model or with the documented postconditions'
BLOCKS = ['FixPunct', 'FixPunctChild', 'FixRightheaded', 'FixLeaf', 'FixChain', 'FixRoot', 'FixMultiSubjects', 'FixAdvmodByUpos', 'FixPseudoCop', 'FixCompoundName',
          'AddPunctType', 'SetSpaceAfter', 'SetTranslation', 'Convert1to2']
NEEDS = ['oracle.words', 'oracle.well-formed', 'oracle.frame', 'oracle.heads', 'oracle.defect gone', 'oracle.idempotent', 'oracle.projective punctuation', 'oracle.single root', 'oracle.paired marks',
         'oracle.highest attachment', 'oracle.enhanced', 'oracle.spaces', 'oracle.text', 'oracle.comments', 'events.changed', 'events.unchanged', 'events.empty tree', 'events.conj', 'events.chain',
         'events.multi-word token', 'events.goeswith', 'events.quotes', 'events.remnants'] + ['events.block.' + b for b in BLOCKS]
ASSUMPTIONS = ['FixPunct is a heuristic: its result is judged by projectivity, leaves, roots and paired marks (where they are documented to hold), not as one best tree']

PAIRS = {'(': ')', '[': ']', '{': '}', '"': '"', "'": "'", '“': '”', '„': '“', '«': '»', '‹': '›', '《': '》', '「': '」', '『': '』', '¿': '?', '¡': '!'}


def attrs(n):
    return dict(form=n.form, lemma=n.lemma, upos=n.upos, xpos=n.xpos, feats=str(n.feats), misc=str(n.misc), deprel=n.deprel, head=n.parent.ord,
                deps=[(d['parent'].ord if d['parent'].ord else 0, d['deprel']) for d in n.deps])


def snap(t):
    return dict(words=[attrs(n) for n in t.descendants], ids=[id(n) for n in t.descendants], text=t.text, comment=t.comment, sent_id=t.sent_id, newpar=t.newpar,
                empty=[(str(e.ord), e.form, [(d['parent'].ord, d['deprel']) for d in e.deps]) for e in t.empty_nodes],
                mwts=[([w.ord for w in m.words], m.form, str(m.misc)) for m in t.multiword_tokens])


WARM = '''# sent_id = w1
1\t(\t(\tPUNCT\t_\t_\t3\tpunct\t_\t_
2\t"\t"\tPUNCT\t_\t_\t3\tpunct\t_\t_
3\tbe\tbe\tAUX\t_\t_\t0\troot\t_\t_
4\t"\t"\tPUNCT\t_\t_\t3\tpunct\t_\t_
5\tstay\tstay\tAUX\t_\t_\t3\tcop\t_\t_
6\t„\t„\tPUNCT\t_\t_\t3\tpunct\t_\t_
7\tx\tx\tNOUN\t_\t_\t3\tnsubj\t_\t_
8\t“\t“\tPUNCT\t_\t_\t3\tpunct\t_\t_
9\t)\t)\tPUNCT\t_\t_\t3\tpunct\t_\t_

# sent_id = w2
1\t“\t“\tPUNCT\t_\t_\t2\tpunct\t_\t_
2\tx\tx\tNOUN\t_\t_\t0\troot\t_\t_
3\t”\t”\tPUNCT\t_\t_\t2\tpunct\t_\t_
4\t"\t"\tPUNCT\t_\t_\t2\tpunct\t_\t_

'''


def u(deprel):
    return deprel.split(':')[0] if deprel is not None else None


def run(block, t, **kw):
    b = create_block('ud.' + block, **kw)
    if len(t.descendants) % 3 == 0:        # the block has already seen another document
        with captured(), Logs():
            warm = Document()
            warm.from_conllu_string(WARM)
            b.process_document(warm)
    with captured() as buf:
        b.run(t.document) if False else b.process_document(t.bundle.document)
    return buf.getvalue()


def tree(rng, mon, deprels, upos=None, forms=None, lemmas=None, n=None, shape=None, p_deps=None, single=None):
    """A document with a tree with labels from a small set (rich in MWTs, empty nodes and enhanced dependencies)."""
    doc = Document()
    doc.from_conllu_string(gen.gen_sent(rng, n=n if n is not None else rng.choice([1, 2, 3, 4, 5, 6, 8, 10]), shape=shape, canonical=True, sid='s1',
                                        **({} if p_deps is None else dict(p_deps=p_deps))).conllu())
    t = next(iter(doc.trees))
    for w in t.descendants:
        if rng.random() < 0.9:
            w.deprel = rng.choice(deprels)
        if upos:
            w.upos = rng.choice(upos)
        if forms:
            w.form = rng.choice(forms)
        if lemmas:
            w.lemma = rng.choice(lemmas)
    if rng.random() < 0.08:
        w.deprel = None
    if rng.random() < 0.03 and not t.empty_nodes:
        for c in t.children:
            c.remove()
        mon.event('empty tree')
    if single if single is not None else rng.random() < 0.8:
        for c in t.children[1:]:
            c.parent = t.children[0]
    for c in t.children:
        c.deprel = 'root'
    if forms:
        t.text = t.compute_text()
    return t


def frame(mon, t, before, may=(), may_tree=()):
    """Nothing but the attributes in `may` is changed."""
    after = snap(t)
    mon.eq(after['ids'], before['ids'], 'words', 'the nodes')
    mon.eq([w['form'] for w in after['words']], [w['form'] for w in before['words']], 'words')
    mon.eq([w['lemma'] for w in after['words']], [w['lemma'] for w in before['words']], 'words')
    bad = malformed(t)
    mon.ok(not bad, 'well-formed', lambda: bad)
    drop = lambda ws: [{k: v for k, v in w.items() if k not in may} for w in ws]
    mon.eq(drop(after['words']), drop(before['words']), 'frame')
    mon.eq({k: v for k, v in after.items() if k not in ('words', 'ids') + tuple(may_tree)}, {k: v for k, v in before.items() if k not in ('words', 'ids') + tuple(may_tree)}, 'frame', 'the sentence')
    mon.event('changed' if after != before else 'unchanged')
    return after


def again(mon, block, t, after, **kw):
    run(block, t, **kw)
    mon.eq(snap(t), after, 'idempotent', lambda: f'{block} {kw}')


def heads(s):
    return [0] + [w['head'] for w in s['words']]


def labels(s):
    return ['<ROOT>'] + [w['deprel'] for w in s['words']]


def judge(mon, block, t, before, want_h=None, want_d=None, kw={}, may=(), idem=True):
    mon.event('block.' + block)
    mon.note(input=t.bundle.document.to_conllu_string(), block=block, kw=kw)
    run(block, t, **kw)
    after = frame(mon, t, before, may=['head', 'deprel'] + list(may))
    if want_h is not None:
        mon.eq(heads(after), want_h, 'heads', block)
    if want_d is not None:
        mon.eq(labels(after), want_d, 'heads', f'{block} deprels')
    if idem:
        again(mon, block, t, after, **kw)
    mon.state('repairs', repr((block, sorted(kw.items()), before['words'])))
    return after


def climbing(rng, mon, i):
    """FixPunctChild, FixChain, FixLeaf: words climb to the nearest acceptable ancestor."""
    which = rng.choice(['FixPunctChild', 'FixChain', 'FixLeaf'])
    shape = rng.choice([None, None, 'chain', 'deep'])
    kw = {}
    if which == 'FixPunctChild':
        t = tree(rng, mon, ['punct', 'punct', 'dep', 'nsubj', 'punct:x'], shape=shape)
        s = snap(t)
        h, d = heads(s), labels(s)
        stop = lambda p: d[p] != 'punct'
        want = []
        for p in h:
            while not stop(p):
                p = h[p]
            want.append(p)
        after = judge(mon, which, t, s, want, d)
        mon.ok(all(d[p] != 'punct' for p in heads(after)), 'defect gone', which)
    elif which == 'FixChain':
        ds = ['fixed', 'flat', 'goeswith', 'list']
        if rng.random() < 0.4:
            ds = rng.sample(['flat', 'conj', 'appos', 'list'], 2)
            kw = dict(deprels=','.join(ds))
        t = tree(rng, mon, rng.sample(['fixed', 'flat', 'flat:name', 'goeswith', 'list', 'conj', 'appos', 'dep'], rng.choice([2, 3, 8])), shape=shape)
        s = snap(t)
        h, d = heads(s), labels(s)
        want = []
        for c, p in enumerate(h):
            k = 0
            while c and u(d[c]) in ds and u(d[p]) == u(d[c]):
                p = h[p]
                k += 1
            mon.event('chain', k > 1)
            want.append(p)
        after = judge(mon, which, t, s, want, d, kw)
        mon.ok(not any(u(d[c]) in ds and u(d[c]) == u(d[p]) for c, p in enumerate(heads(after)) if c), 'defect gone', which)
    else:
        ds = ['aux', 'cop', 'case', 'mark', 'cc']
        if rng.random() < 0.4:
            ds = rng.sample(ds + ['det'], 2)
            kw = dict(deprels=','.join(ds))
        t = tree(rng, mon, rng.sample(['aux', 'aux:pass', 'cop', 'case', 'mark', 'cc', 'cc:preconj', 'fixed', 'punct', 'goeswith', 'reparandum', 'conj', 'det', 'nsubj', 'obl'], rng.choice([3, 6, 15])),
                 shape=shape, p_deps=rng.choice([0, 0.9]))
        s = snap(t)
        h, d = heads(s), labels(s)
        ok = lambda c, p: u(d[p]) not in ds or u(d[c]) in ['fixed', 'punct', 'goeswith', 'reparandum'] + ([] if u(d[p]) == 'cc' else ['conj', 'cc'])
        want, deps = [], []
        for c, p in enumerate(h):
            q = p
            if c and not ok(c, p):
                while u(d[q]) in ds:
                    q = h[q]
                deps.append([(q if x == p else x, y) for x, y in s['words'][c - 1]['deps']])
            elif c:
                deps.append(s['words'][c - 1]['deps'])
            want.append(q)
        after = judge(mon, which, t, s, want, d, kw, may=['deps'])
        key = lambda x: [sorted((str(a), b) for a, b in y) for y in x]
        mon.eq(key(w['deps'] for w in after['words']), key(deps), 'enhanced', which)
        mon.ok(all(ok(c, p) for c, p in enumerate(heads(after)) if c), 'defect gone', which)


def righthead(rng, mon, i):
    """FixRightheaded: a head-initial structure."""
    ds = ['flat', 'fixed', 'appos', 'goeswith', 'list']
    kw = {}
    if rng.random() < 0.4:
        ds = rng.sample(ds + ['conj', 'conj'], 2)
        kw = dict(deprels=','.join(ds))
    t = tree(rng, mon, rng.sample(['flat', 'flat:name', 'fixed', 'appos', 'goeswith', 'list', 'conj', 'conj:svc', 'dep', 'nsubj', 'obl'], rng.choice([2, 4, 11])), shape=rng.choice([None, 'chain', 'attach_right']))
    s = snap(t)
    h, d = heads(s), labels(s)
    bad = [c for c, p in enumerate(h) if c and u(d[c]) in ds and c < p]
    wh = wd = None
    if not bad:
        wh, wd = h, d
    elif len(bad) == 1 and (u(d[h[bad[0]]]) not in ds or bad[0] > h[h[bad[0]]]):
        c = bad[0]
        p = h[c]
        wh = [c if x == p and u(d[c]) != 'conj' else x for x in h]
        wh[c], wh[p] = h[p], c
        wd = list(d)
        wd[c], wd[p] = d[p], d[c]
        mon.event('conj', u(d[c]) == 'conj')
    after = judge(mon, 'FixRightheaded', t, s, wh, wd, kw)
    h2, d2 = heads(after), labels(after)
    mon.ok(not any(u(d2[c]) in ds and c < p for c, p in enumerate(h2) if c), 'defect gone', 'FixRightheaded')
    mon.eq(sorted(map(str, d2)), sorted(map(str, d)), 'heads', 'deprels only swap')
    touched = set(bad) | {h[c] for c in bad}
    while True:
        more = {c for c, p in enumerate(h) if c and (p in touched or c in touched)} | {h[c] for c in touched if u(d[h[c]]) in ds or u(d[c]) in ds} | touched
        if more == touched:
            break
        touched = more
    for c in range(1, len(h)):
        if c not in touched:
            mon.eq((h2[c], d2[c]), (h[c], d[c]), 'heads', f'word {c} has nothing to do with it')


def labels_only(rng, mon, i):
    """FixMultiSubjects, FixAdvmodByUpos, FixRoot."""
    which = rng.choice(['FixMultiSubjects', 'FixAdvmodByUpos', 'FixRoot'])
    if which == 'FixMultiSubjects':
        t = tree(rng, mon, ['nsubj', 'nsubj:pass', 'nsubj:outer', 'csubj', 'csubj:outer', 'csubj:pass', 'obj', 'nsubject', 'nsubj:pass:outer'], shape=rng.choice([None, 'attach_left', 'attach_right']))
        s = snap(t)
        h, d = heads(s), labels(s)
        want, seen = list(d), set()
        for c in range(1, len(h)):
            if u(d[c]) in ('nsubj', 'csubj') and not d[c].endswith(':outer'):
                if h[c] in seen:
                    want[c] = {'n': 'obl', 'c': 'advcl'}[d[c][0]]
                seen.add(h[c])
        root_kids = [c for c in range(1, len(h)) if not h[c]]
        for c in root_kids:
            want[c] = d[c]
        judge(mon, which, t, s, h, want)
        mon.ok(True, 'defect gone')
    elif which == 'FixAdvmodByUpos':
        t = tree(rng, mon, rng.choice([['advmod'], ['advmod', 'advmod:emph', 'expl', 'aux', 'cop', 'case', 'mark', 'cc', 'det', 'nummod', 'punct', 'obl', 'nsubj']]), upos=gen.UPOS)
        s = snap(t)
        h, d = heads(s), labels(s)
        want = []
        up = ['<ROOT>'] + [w['upos'] for w in s['words']]
        for c in range(len(h)):
            a, b, x = u(d[c]), up[c], d[c]
            if a == 'advmod':
                x = {'NOUN': 'obl', 'PROPN': 'obl', 'PRON': 'obl', 'DET': 'obl', 'NUM': 'obl', 'VERB': 'advcl', 'AUX': 'aux', 'CCONJ': 'cc', 'INTJ': 'discourse', 'ADV': d[c]}.get(b, 'dep')
                if b in ('ADP', 'SCONJ'):
                    x = 'mark' if up[h[c]] == 'VERB' else 'case'
            elif a == 'expl':
                x = {'AUX': 'aux', 'ADP': 'case', 'CCONJ': 'cc'}.get(b, x)
            elif a in ('aux', 'cop'):
                x = x if b == 'AUX' else 'dep'
            elif a == 'case':
                x = {'DET': 'det'}.get(b, x)
            elif a == 'mark':
                x = {'PRON': 'nsubj', 'DET': 'nsubj', 'INTJ': 'discourse'}.get(b, x)
            elif a == 'cc':
                x = {'AUX': 'aux', 'DET': 'det', 'INTJ': 'discourse'}.get(b, x)
            elif a == 'det':
                x = {'NOUN': 'nmod', 'ADJ': 'amod', 'ADV': 'advmod', 'AUX': 'aux', 'VERB': 'dep', 'X': 'dep'}.get(b, x)
            elif a == 'nummod':
                x = {'PRON': 'nmod', 'DET': 'det'}.get(b, x)
            elif a == 'punct':
                x = x if b == 'PUNCT' else 'dep'
            want.append(x)
        judge(mon, which, t, s, h, want)
        mon.ok(all(not (u(n.deprel) == 'advmod' and n.upos in ('NOUN', 'PROPN', 'PRON', 'DET', 'NUM', 'VERB', 'AUX', 'ADP', 'SCONJ', 'CCONJ', 'INTJ')) for n in t.descendants), 'defect gone', which)
    else:
        t = tree(rng, mon, ['root', 'root:x', 'dep', 'nsubj', 'parataxis'], single=rng.random() < 0.3)
        for c in t.children:
            c.deprel = rng.choice(['root', 'root:x', 'dep', 'parataxis', None])
        s = snap(t)
        h, d = heads(s), labels(s)
        wh, wd = list(h), list(d)
        first = next((c for c in range(1, len(h)) if not h[c]), None)
        for c in range(1, len(h)):
            if c == first:
                wd[c] = d[c] if u(d[c]) == 'root' else 'root'
            else:
                if not h[c]:
                    wh[c], wd[c] = first, 'parataxis'
                if u(d[c]) == 'root':
                    wd[c] = 'parataxis'
        judge(mon, which, t, s, wh, wd)
        mon.ok(not h[1:] or [u(n.deprel) for n in t.children] == ['root'] and sum(u(n.deprel) == 'root' for n in t.descendants) == 1, 'single root', which)


def rehang(rng, mon, i):
    """FixPseudoCop and FixCompoundName."""
    if rng.random() < 0.5:
        t = tree(rng, mon, ['cop', 'aux', 'nsubj', 'nsubj:pass', 'advmod', 'obj', 'obl:arg', 'mark', 'punct', 'det', 'amod', 'nmod', 'case', 'dep', 'dislocated', 'vocative', 'expl:pv', 'discourse', 'parataxis', 'iobj', 'csubj', 'advcl', 'cc', 'ccomp', 'xcomp', 'conj'], upos=['AUX', 'NOUN', 'ADJ', 'VERB'], lemmas=['be', 'stay', 'become', 'x'])
        kw = dict(lemmas=rng.choice(['stay', 'stay,become']))
        if rng.random() < 0.4:
            kw['noncopaux'] = 1
        s = snap(t)
        h, d = heads(s), labels(s)
        lem = lambda c: c and s['words'][c - 1]['lemma'] in kw['lemmas'].split(',')
        bad = [c for c in range(1, len(h)) if lem(c) and (u(d[c]) == 'cop' or kw.get('noncopaux') and u(d[c]) == 'aux')]
        wh = wd = wu = None
        up = [w['upos'] for w in s['words']]
        if len(bad) <= 1:
            wh, wd, wu = list(h), list(d), list(up)
            for c in bad:
                p = h[c]
                for k in range(1, len(h)):
                    if h[k] == p and k != c and u(d[k]) in CLAUSAL:
                        wh[k] = c
                wh[c], wd[c], wh[p], wd[p], wu[c - 1] = h[p], d[p], c, 'xcomp', 'VERB'
            if kw.get('noncopaux'):
                wu = ['VERB' if lem(k + 1) and x == 'AUX' else x for k, x in enumerate(wu)]
        once = not bad or len(bad) == 1 and not ((lem(bad[0])) and u(d[h[bad[0]]]) in ('cop', 'aux'))
        after = judge(mon, 'FixPseudoCop', t, s, wh, wd, kw, may=['upos'], idem=once)
        if wu is not None:
            mon.eq([w['upos'] for w in after['words']], wu, 'heads', 'upos')
        changed = [k for k, (a, b) in enumerate(zip(s['words'], after['words'])) if a['upos'] != b['upos']]
        mon.ok(all(lem(k + 1) for k in changed), 'frame', 'upos')
    else:
        t = tree(rng, mon, ['compound', 'compound', 'compound:x', 'nmod', 'flat', 'case'], upos=['PROPN', 'PROPN', 'NOUN'], forms=['John', 'Smith', 'Jr', 'x'] + (['30', 'a1'] if rng.random() < 0.3 else []), p_deps=0)
        s = snap(t)
        h, d = heads(s), labels(s)
        pn = lambda c: c and s['words'][c - 1]['upos'] == 'PROPN'
        group = {}
        for c in range(1, len(h)):
            if pn(c) and pn(h[c]) and u(d[c]) == 'compound':
                group.setdefault(h[c], [h[c]]).append(c)
        skip = lambda g: any(re.search(r'\d', s['words'][c - 1]['form']) for c in g)
        flat = all(len([1 for g in group.values() if c in g]) <= 1 for c in range(1, len(h)))
        wh = wd = None
        if flat:
            wh, wd = list(h), list(d)
            for p, g in group.items():
                if not skip(g):
                    g.sort()
                    wh[g[0]], wd[g[0]] = h[p], d[p]
                    for c in g[1:]:
                        wh[c], wd[c] = g[0], 'flat:name'
        judge(mon, 'FixCompoundName', t, s, wh, wd, idem=flat)
        mon.ok(not flat or not any(n.upos == n.parent.upos == 'PROPN' and n.udeprel == 'compound' and not skip(group.get(n.parent.ord, [])) for n in t.descendants if n.parent.ord in group), 'defect gone', 'compound')


def nonproj(t_heads, c):
    """Is the edge of word c non-projective?"""
    p = t_heads[c]
    a, b = sorted((c, p))
    return bool(p) and any(not under(t_heads, k, p) for k in range(a + 1, b))


def under(h, k, p):
    while k and k != p:
        k = h[k]
    return k == p


def in_gap(h, c):
    """Is the word c inside of an edge whose head does not dominate it?"""
    return any(min(k, h[k]) < c < max(k, h[k]) and not under(h, c, h[k]) for k in range(1, len(h)) if h[k])


def unclear(s, pu):
    """Do some pairs of marks cross each other (or lack their counterpart, or several marks at their edges, or start with a final mark)?"""
    form = [None] + [w['form'] for w in s['words']]
    pairs, closed = [], set()
    for a in range(1, len(form)):
        if form[a] in PAIRS and a not in closed and pu[a]:
            level = 0
            for b in range(a + 1, len(form)):
                if form[b] == PAIRS[form[a]] and pu[b]:
                    if not level:
                        pairs.append((a, b))
                        closed.add(b)
                        break
                    level -= 1
                elif form[b] == form[a] and pu[b]:
                    level += 1
    paired = {x for p in pairs for x in p}
    return (any(a < c < b < d for a, b in pairs for c, d in pairs) or any(pu[c] and c not in paired and (form[c] in PAIRS or form[c] in PAIRS.values()) for c in range(1, len(form)))
            or any(form[a + 1] in '.?!' or pu[a + 1] and pu[a + 2] or pu[b - 1] and pu[b - 2] for a, b in pairs if b > a + 1))


def punct(rng, mon, i):
    """FixPunct."""
    marks = rng.choice([[','], [',', '.', '-', ';', ':'], ['(', ')', ','], ['"', '"', '.', ','], ['«', '»', '(', ')', '„', '“', '?', '-'], ["'", '¿', '?', '.', '…']])
    shape = rng.choice(['proj', 'proj', 'proj_single', 'random', 'chain', 'attach_left', 'attach_right'])
    kw = {}
    if rng.random() < 0.3:
        kw['check_paired_punct_upos'] = 1
    if rng.random() < 0.3:
        kw['copy_to_enhanced'] = 1
    t = tree(rng, mon, ['dep', 'nsubj', 'obl:x', 'punct'], upos=['NOUN', 'VERB', 'X'], forms=['w', 'v'], shape=shape if shape != 'proj_single' else 'proj', single=True if shape == 'proj_single' else None)
    if rng.random() < 0.35:
        t = tree(rng, mon, ['dep', 'nsubj', 'obl:x'], upos=['NOUN', 'VERB', 'X'], forms=['w', 'v'], shape='proj', single=True, n=rng.choice([2, 3, 4, 5, 6]))
        if t.descendants:
            insert(rng, t)
        marks, share = None, 0
    elif rng.random() < 0.4:        # balanced marks only
        ws = list(t.descendants)
        spans = [(a, b) for a in range(len(ws)) for b in range(a + 2, len(ws))]
        used = set()
        kinds = rng.choice(['([«„¿', '(', '(['])
        for a, b in rng.sample(spans, min(len(spans), rng.choice([1, 2, 3, 12]))):
            if a not in used and b not in used and not any(isinstance(x, tuple) and (x[0] < a < x[1] < b or a < x[0] < b < x[1]) for x in used):
                if not ws[a].children and not ws[b].children:
                    used |= {a, b, (a, b)}
                    o = rng.choice(kinds)
                    for k, f in ((a, o), (b, PAIRS[o])):
                        ws[k].form, ws[k].upos, ws[k].deprel = f, 'PUNCT', 'punct'
        marks = [','] if rng.random() < 0.5 else [',', '.']
    share = 0 if marks is None else rng.choice([0.15, 0.4, 0.7])
    odd = marks is not None and rng.random() < 0.15
    for n in t.descendants:
        if n.upos != 'PUNCT' and rng.random() < share and (shape != 'proj_single' or not n.children):
            n.form, n.upos = rng.choice(marks), 'PUNCT'
            if n.parent is not t or rng.random() < 0.2:
                n.deprel = 'punct'
        elif n.parent is t and rng.random() < 0.1 or rng.random() < 0.04:
            n.deprel = rng.choice(['root', 'dep', 'root:x', 'parataxis'])
        elif odd and rng.random() < 0.2:
            n.form = rng.choice('\'"(')
    t.text = t.compute_text()
    s = snap(t)
    h, d = heads(s), labels(s)
    n = len(h) - 1
    pu = [False] + [w['upos'] == 'PUNCT' for w in s['words']]
    mon.event('block.FixPunct')
    mon.note(input=t.bundle.document.to_conllu_string(), kw=kw)
    run('FixPunct', t, **kw)
    after = frame(mon, t, s, may=['head', 'deprel'] + (['deps'] if kw.get('copy_to_enhanced') else []))
    h2, d2 = heads(after), labels(after)
    mon.state('repairs', repr(('FixPunct', sorted(kw.items()), s['words'])))
    if not n:
        return
    # one root
    mon.eq([u(x.deprel) for x in t.children], ['root'], 'single root', 'FixPunct')
    for c in range(1, n + 1):
        if d2[c] != d[c]:
            mon.ok(pu[c] and d2[c] == 'punct' or not h2[c] and u(d2[c]) == 'root' or u(d[c]) == 'root' and u(d2[c]) == 'punct', 'frame', lambda: f'deprel {d[c]} -> {d2[c]}')
    # enhanced dependencies
    if kw.get('copy_to_enhanced'):
        for c, w in enumerate(after['words'], 1):
            if pu[c]:
                mon.eq(w['deps'], [(h2[c], d2[c])], 'enhanced')
            elif h2[c] or d[c] == d2[c]:
                mon.eq(w['deps'], s['words'][c - 1]['deps'], 'enhanced')
            else:
                mon.eq(w['deps'], [(0, 'root')], 'enhanced')
    proj = not any(nonproj(h, c) for c in range(1, n + 1))
    roots = [c for c in range(1, n + 1) if not h[c]]
    leaves = not any(pu[h[c]] for c in range(1, n + 1))
    top = h2.index(0, 1)
    if u(d[top]) != 'root':
        mon.event('top not labelled')
        mon.eq([c for c in range(1, n + 1) if u(d2[c]) == 'root'], [top], 'single root', 'labels')
    marks_ok = all(pu[c] or s['words'][c - 1]['form'] not in set(PAIRS) | set(PAIRS.values()) for c in range(1, n + 1))
    if leaves and marks_ok and len(roots) > 1 and any(not pu[c] for c in roots) and all(not pu[c] or u(d[c]) != 'root' for c in roots) and all(s['words'][c - 1]['form'] in ',;:-….?!' for c in range(1, n + 1) if pu[c]):
        best = [c for c in roots if not pu[c] and u(d[c]) == 'root']
        if best:
            mon.event('several roots')
            mon.eq(top, best[0], 'single root', lambda: f'{h} {d}')
            mon.eq([h2[c] for c in roots if not pu[c]], [0 if c == top else top for c in roots if not pu[c]], 'single root', 'others')
    if leaves and len(roots) == 1 and not pu[roots[0]] and marks_ok:
        for c in range(1, n + 1):
            if not pu[c]:
                label = d[c] if u(d[top]) == 'root' or u(d[c]) != 'root' and c != top else 'root' if c == top else 'punct'
                mon.eq((h2[c], u(d2[c]) if label != d[c] else d2[c]), (h[c], label), 'heads', 'a word which is not punctuation')
        if proj and not unclear(s, pu):
            form = [None] + [w['form'] for w in s['words']]
            for c in range(1, n + 1):
                mon.ok(not nonproj(h2, c), 'projective punctuation', lambda: f'word {c}: {h2}')
            # punctuation has children only if a pair of marks encloses nothing but punctuation
            for c in range(1, n + 1):
                p = h2[c]
                if pu[p]:
                    lo, hi = p, p
                    while lo > 1 and pu[lo - 1]:
                        lo -= 1
                    while hi < n and pu[hi + 1]:
                        hi += 1
                    mon.ok(form[c] in PAIRS or form[c] in PAIRS.values(), 'projective punctuation', lambda: f'{p} has a child {c}')
                    mon.ok(lo <= c <= hi, 'projective punctuation', lambda: f'{p} has a child {c} further than other punctuation')
            mon.event('projective with marks')
            # a single pair around a complete subtree
            inner = [c for c in range(1, n + 1) if form[c] in PAIRS or form[c] in PAIRS.values()]
            if len(inner) == 2 and PAIRS.get(form[inner[0]]) == form[inner[1]]:
                a, b = inner
                tops = [c for c in range(a + 1, b) if not pu[c] and not a < h[c] < b]
                out = [h[c] for c in list(range(1, a)) + list(range(b + 1, n + 1)) if a < h[c] < b]
                if len(tops) == 1 and not out:
                    mon.eq((h2[a], h2[b]), (tops[0], tops[0]), 'paired marks')
                    mon.event('pair around a subtree')
        # ordinary marks, one after another: the highest attachment which is projective, on the lower side (unless the present one is good)
        marks = [c for c in range(1, n + 1) if pu[c]]
        forms = {c: s['words'][c - 1]['form'] for c in marks}
        pairs = match(forms)
        if proj and pairs is not None and all(f in ',;:-….?!()[]«»„“¿' for f in forms.values()):
            want = list(h)
            kind = {}
            for a, b in pairs:
                if not enclose(pu, want, a, b, kind):
                    mon.event('pair unclear')
                    return
                mon.event('pair modelled', len(pairs) > 1)
            for c in marks:
                if c not in kind:
                    attach(s, pu, want, c, mon, kind)
            for c in marks:
                mon.eq(d2[c], 'punct' if want[c] != h[c] and c not in kind else d2[c], 'heads', 'deprel')
            mon.eq(h2, want, 'highest attachment', lambda: f'{h}')


def insert(rng, t):
    """Add balanced brackets and ordinary marks to a projective tree, as its leaves."""
    words = list(t.descendants)
    spans = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        a = rng.randrange(len(words))
        b = rng.randrange(a, len(words))
        if all(b < x or y < a or x <= a and b <= y or a <= x and y <= b for x, y in spans):
            spans.append((a, b))
    kinds = rng.choice(['([«„¿', '(', '(['])

    def add(form, where, before):
        node = t.create_child(form=form, upos='PUNCT', deprel='punct')
        (node.shift_before_node if before else node.shift_after_node)(where, without_children=True)
        for p in rng.sample(words, len(words)):
            node.parent = p
            if not any(n.is_nonprojective() for n in t.descendants):
                break
        return node
    for a, b in sorted(spans, key=lambda s: s[0] - s[1]):
        o = rng.choice(kinds)
        add(o, words[a], True)
        add(PAIRS[o], words[b], False)
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
        add(rng.choice(',,.-;:'), rng.choice(t.descendants), rng.random() < 0.5)


def match(forms):
    """The pairs of brackets, by their opening ones (None if not balanced)."""
    stack, pairs = [], []
    for c, f in sorted(forms.items()):
        if f in '([«„¿':
            stack.append((c, f))
        elif f in ')]»“' or f == '?' and stack and stack[-1][1] == '¿':
            if not stack or PAIRS[stack[-1][1]] != f:
                return None
            pairs.append((stack.pop()[0], c))
    return None if stack else sorted(pairs)


def enclose(pu, h, a, b, kind):
    """The heads of a pair of brackets in a projective tree. Return False if they are not defined by simple rules."""
    inside = range(a + 1, b)
    tops = {c for c in inside if not a <= h[c] <= b} | {h[c] for c in range(1, len(h)) if not a <= c <= b and h[c] in inside}
    words = {c for c in tops if not pu[c]}
    if not words:
        return not tops
    h[a], h[b] = min(words), max(words)
    kind[a], kind[b] = 'opening', 'closing'
    return not any(nonproj(h, x) for x in range(1, len(h)))


def attach(s, pu, h, c, mon, kind):
    """The head of an ordinary mark in a projective tree where marks are leaves."""
    n, form = len(h) - 1, s['words'][c - 1]['form']
    if form == '.' and h[c] == c - 1:
        return
    span = [x for x in range(1, n + 1) if under(h, x, h[c])]
    ends = {span[0], span[-1]}
    if c in ends and len(span) == span[-1] - span[0] + 1 and all(pu[x] and h[x] == h[c] for x in ends):
        mon.event('marks around a phrase')
        return
    depth = lambda x: 0 if not x else 1 + depth(h[x])   # noqa: E731
    good = []
    for a in range(1, n + 1):
        if not pu[a] and not (a > c and form in '.?!'):
            hh = list(h)
            hh[c] = a
            if not any(nonproj(hh, x) for x in range(1, n + 1)):
                good.append(a)
    left, right = c - 1, c + 1
    while left > 0 and pu[left] and not (kind.get(left) == 'opening' and h[left] != c):
        left -= 1
    while right <= n and pu[right] and not (kind.get(right) == 'closing' and h[right] != c):
        right += 1
    if left > 0 and pu[left] or right <= n and pu[right]:
        mon.event('next to a bracket')
    sides = [side for side in ([a for a in good if a < c and not pu[left]], [a for a in good if a > c and right <= n and not pu[right]]) if side]
    if sides:
        side = max(sides, key=lambda side: depth(min(side, key=depth)))
        if h[c] not in side:
            h[c] = min(side, key=depth)
            mon.event('reattached')


CLAUSAL = ('nsubj', 'csubj', 'advmod', 'advcl', 'obj', 'iobj', 'obl', 'aux', 'mark', 'punct', 'cc', 'ccomp', 'expl', 'dislocated', 'vocative', 'discourse', 'parataxis')
SIDES = {'(': 'Ini', ')': 'Fin', '[': 'Ini', ']': 'Fin', '{': 'Ini', '}': 'Fin', '¡': 'Ini', '!': 'Fin', '¿': 'Ini', '?': 'Fin'}
TYPES = {'(': 'Brck', ')': 'Brck', '[': 'Brck', ']': 'Brck', '{': 'Brck', '}': 'Brck', '.': 'Peri', '...': 'Elip', '…': 'Elip', ',': 'Comm', ';': 'Semi', ':': 'Colo', '!': 'Excl', '?': 'Qest',
         '¡': 'Excl', '¿': 'Qest', '-': 'Dash', '–': 'Dash', '—': 'Dash', '"': 'Quot', "'": 'Quot', '„': 'Quot', '“': 'Quot', '”': 'Quot', '«': 'Quot', '»': 'Quot'}


def spaces(rng, mon, i):
    """AddPunctType, SetSpaceAfter."""
    if rng.random() < 0.3:
        t = tree(rng, mon, ['punct', 'dep'], upos=['PUNCT', 'PUNCT', 'SYM'], forms=list(TYPES) + ['w', '%'])
        for n in t.descendants:
            if rng.random() < 0.4:
                n.feats = rng.choice(['PunctType=Brck', 'PunctSide=Ini', 'Case=Nom|PunctSide=Fin|PunctType=Comm', 'PunctType=X'])
        mon.event('block.AddPunctType')
        s = snap(t)
        mon.note(input=t.bundle.document.to_conllu_string(), block='AddPunctType')
        run('AddPunctType', t)
        after = frame(mon, t, s, may=['feats'])
        for a, b in zip(s['words'], after['words']):
            want = dict(x.split('=') for x in a['feats'].split('|')) if a['feats'] != '_' else {}
            want.pop('PunctType', None)
            want.pop('PunctSide', None)
            if a['upos'] == 'PUNCT':
                for k, m in (('PunctType', TYPES), ('PunctSide', SIDES)):
                    if a['form'] in m:
                        want[k] = m[a['form']]
            mon.eq(b['feats'], '|'.join(f'{k}={v}' for k, v in sorted(want.items(), key=lambda x: x[0].lower())) or '_', 'frame', lambda: f'features of {a}')
        again(mon, 'AddPunctType', t, after)
        mon.state('repairs', repr(('AddPunctType', s['words'])))
        return
    kw = {}
    na, nb = ['¡', '¿', '(', '[', '{', '„', '/'], ['.', ',', ';', ':', '!', '?', '}', ']', ')', '/', '??', '...', '…']
    if rng.random() < 0.3:
        kw['extra_not_after'] = '$ #'
        na += ['$', '#']
    if rng.random() < 0.3:
        kw['extra_not_before'] = '% n’t'
        nb += ['%', 'n’t']
    if rng.random() < 0.2:
        kw['fix_text'] = 0
    if rng.random() < 0.1:
        kw['not_after'] = '<'
        na = ['<'] + [x for x in na if x in '$#']
    t = tree(rng, mon, ['punct', 'dep', 'goeswith'] if rng.random() < 0.4 else ['dep'], forms=rng.choice([['w', 'ab', '"', '"'], ['w', 'ab'] + na + nb + ['“', '„', '%', '$', '<', 'n’t'], ['"', 'w', '“', '„', '”', '.', '(']]), n=rng.choice([1, 2, 3, 5, 8]))
    mon.event('block.SetSpaceAfter')
    s = snap(t)
    mon.note(input=t.bundle.document.to_conllu_string(), block='SetSpaceAfter', kw=kw)
    run('SetSpaceAfter', t, **kw)
    after = frame(mon, t, s, may=['misc'], may_tree=['text', 'mwts'])
    ws = s['words']
    forms = [w['form'] for w in ws]
    if '„' in forms:
        nb = nb + ['“']
    else:
        na = na + ['“']
    no = set()     # no space after these words
    for k in range(len(ws) - 1):
        if forms[k] in na or forms[k + 1] in nb:
            no.add(k)
    q = [k for k, f in enumerate(forms) if f == '"']
    if len(q) % 2 == 0:
        for a, b in zip(q[::2], q[1::2]):
            if a < len(ws) - 1:
                no.add(a)
            no.add(b - 1)
            mon.event('quotes')
    else:
        if q[0] == 0 and len(ws) > 1:
            no.add(0)
        if q[-1] == len(ws) - 1 and len(ws) > 1:
            no.add(len(ws) - 2)
    no.discard(-1)
    gone = {k for k in no if ws[k + 1]['deprel'] == 'goeswith'}
    mon.event('goeswith', len(gone))
    no -= gone
    inside = {w: (m[0][-1] == w, j) for j, m in enumerate(s['mwts']) for w in m[0]}
    space = lambda misc: 'SpaceAfter=No' in misc.split('|')
    add = lambda misc: misc if space(misc) else '|'.join(sorted([x for x in misc.split('|') if x != '_' and not x.startswith('SpaceAfter=')] + ['SpaceAfter=No'], key=lambda x: x.split('=')[0].lower()))
    norm = lambda misc: sorted(misc.split('|'))
    wm = [w['misc'] for w in ws]
    mm = [m[2] for m in s['mwts']]
    for k in no:
        if k + 1 in inside:
            last, j = inside[k + 1]
            mon.event('multi-word token')
            if last:
                mm[j] = add(mm[j])
        else:
            wm[k] = add(wm[k])
    mon.eq([norm(w['misc']) for w in after['words']], [norm(x) for x in wm], 'spaces', lambda: (forms, kw))
    mon.eq([norm(m[2]) for m in after['mwts']], [norm(x) for x in mm], 'spaces', 'multi-word tokens')
    mon.eq([m[:2] for m in after['mwts']], [m[:2] for m in s['mwts']], 'spaces', 'multi-word tokens')
    if [norm(x) for x in wm] + [norm(x) for x in mm] != [norm(w['misc']) for w in ws] + [norm(m[2]) for m in s['mwts']] and not kw.get('fix_text') == 0:
        toks, k = [], 1
        while k <= len(ws):
            if k in inside:
                j = inside[k][1]
                toks.append((s['mwts'][j][1], space(mm[j])))
                k = s['mwts'][j][0][-1] + 1
            else:
                toks.append((forms[k - 1], space(wm[k - 1])))
                k += 1
        mon.eq(after['text'], ''.join(f + ('' if x else ' ') for f, x in toks).rstrip(), 'text')
    elif kw.get('fix_text') == 0:
        mon.eq(after['text'], s['text'], 'text')
    run('SetSpaceAfter', t, **kw)
    mon.eq(snap(t), after, 'idempotent', 'SetSpaceAfter')
    mon.state('repairs', repr(('SetSpaceAfter', sorted(kw.items()), ws)))


def translation(rng, mon, i):
    """SetTranslation."""
    n = rng.choice([1, 2, 3])
    doc = Document()
    sents = []
    for k in range(n):
        s = gen.gen_sent(rng, sid=f's{k}', canonical=True, max_n=3, p_newdoc=0)
        s.comments = [c for c in s.comments if not c.startswith('# text_') and c.strip() != '#' and not c.startswith('# json')]
        if rng.random() < 0.5:
            s.comments.insert(rng.randint(0, len(s.comments)), '# text_en = old translation')
        if rng.random() < 0.3:
            s.comments.insert(rng.randint(0, len(s.comments)), rng.choice(['# text_english = x', '# text_en_2 = y', '# xtext_en = z', '# note text_en = q', '# text_enx']))
        sents.append(s)
    src = ''.join(s.conllu() for s in sents)
    doc.from_conllu_string(src)
    lines = [rng.choice(['Hello.', 'A = b', 'x  y', 'Ž', 'a\u2028b', 'a\x85b', '']) for _ in range(rng.choice([n, n, n + 1, n - 1]))]
    over = rng.choice([0, 1])
    mon.event('block.SetTranslation')
    mon.note(input=src, lines=lines, overwrite=over)
    d = mon.scratch()
    f = os.path.join(d, 'tr.txt')
    with open(f, 'w', encoding='utf-8') as fh:
        fh.write('\n'.join(lines) + ('\n' if lines and (not lines[-1] or rng.random() < 0.8) else ''))
    plain = doc.to_conllu_string()
    create_block('ud.SetTranslation', file=f, overwrite=over).process_document(doc)
    got = doc.to_conllu_string()
    out = []
    for k, block in enumerate(plain.strip('\n').split('\n\n')):
        rows = block.split('\n')
        if k < len(lines):
            c = [j for j, r in enumerate(rows) if r.startswith('# text_en =')]
            if c and over:
                rows[c[0]] = '# text_en = ' + lines[k]
            elif not c:
                rows.insert(sum(r.startswith('#') for r in rows), '# text_en = ' + lines[k])
        out.append('\n'.join(rows))
    mon.eq(got, '\n\n'.join(out) + '\n\n', 'comments', 'SetTranslation')
    # Root.add_comment
    doc2 = Document()
    t = doc2.create_bundle().create_tree()
    t.create_child(form='x')
    coms = rng.sample(['a = b', 'c', 'Mark = 1'], rng.choice([1, 2, 3]))
    for c in coms:
        t.add_comment(c)
    mon.eq([r for r in doc2.to_conllu_string().split('\n') if r.startswith('#')][2:], ['# ' + c for c in coms], 'comments', 'add_comment')
    mon.state('translations', repr((src, lines, over)))


def convert(rng, mon, i):
    """Convert1to2 (without the transformations of coordination and ellipsis)."""
    simple = {'mwe': 'fixed', 'dobj': 'obj', 'nsubjpass': 'nsubj:pass', 'csubjpass': 'csubj:pass', 'auxpass': 'aux:pass', 'name': 'flat:name', 'foreign': 'flat', 'dobj:x': 'obj:x', 'foreign:y': 'flat:y', 'mwe:z': 'fixed:z'}
    t = tree(rng, mon, list(simple) + ['nsubj', 'amod', 'goeswith', 'flat', 'neg', 'conj', 'cc', 'cop'], upos=['CONJ', 'CCONJ', 'NOUN', 'ADV', 'DET', 'VERB'])
    for n in t.descendants:
        if rng.random() < 0.4:
            n.feats = rng.choice(['Negative=Neg', 'Aspect=Pro', 'VerbForm=Trans', 'Definite=Red', 'Foreign=Foreign', 'Case=Nom', 'Aspect=Perf|Negative=Pos'])
        if u(n.deprel) == 'nmod':
            n.deprel = 'obl'
        if n.deprel == 'neg':
            n.upos, n.feats = rng.choice(['ADV', 'DET']), '_'
    t.text = t.compute_text()
    mon.event('block.Convert1to2')
    s = snap(t)
    h, d = heads(s), labels(s)
    skip = rng.choice(['coord', 'coord', 'coord,remnants', 'coord,feats', 'coord,goeswith,flat', 'coord,deprel_simple', 'coord,upos,neg'])
    mon.note(input=t.bundle.document.to_conllu_string(), skip=skip)
    sk = skip.split(',')
    run('Convert1to2', t, skip=skip, save_stats=0)
    after = frame(mon, t, s, may=['head', 'deprel', 'upos', 'feats', 'misc'])
    h2, d2 = heads(after), labels(after)
    for w in (s, after):
        for x in w['words']:
            x['misc'] = re.sub(r'ToDo=[^|]*\|?', '', x['misc'])
    mon.eq([x['misc'].strip('|_') for x in after['words']], [x['misc'].strip('|_') for x in s['words']], 'frame', 'MISC but ToDo')
    heady = [c for c in range(1, len(h)) if u(simple.get(d[c], d[c]) if 'deprel_simple' not in sk else d[c]) in ('goeswith', 'flat') and c < h[c]]
    if 'flat' in sk:
        heady = []
    if not heady:
        mon.eq(h2, h, 'heads', 'Convert1to2')
    for c in range(1, len(h)):
        a, b = s['words'][c - 1], after['words'][c - 1]
        want = dict(x.split('=') for x in a['feats'].split('|')) if a['feats'] != '_' else {}
        if 'feats' not in sk:
            if 'Negative' in want:
                want['Polarity'] = want.pop('Negative')
            for k, x, y in (('Aspect', 'Pro', 'Prosp'), ('VerbForm', 'Trans', 'Conv'), ('Definite', 'Red', 'Cons'), ('Foreign', 'Foreign', 'Yes')):
                if want.get(k) == x:
                    want[k] = y
        if u(a['deprel']) == 'foreign' and 'deprel_simple' not in sk:
            want['Foreign'] = 'Yes'
        if a['deprel'] == 'neg' and 'neg' not in sk:
            want['Polarity'] = 'Neg'
        mon.eq(b['feats'], '|'.join(f'{k}={v}' for k, v in sorted(want.items(), key=lambda x: x[0].lower())) or '_', 'frame', lambda: f'feats {a}')
        up = 'CCONJ' if a['upos'] == 'CONJ' and 'upos' not in sk else a['upos']
        if a['deprel'] == 'cop' and up not in ('AUX', 'PRON'):
            up = 'AUX'
        mon.eq(b['upos'], up, 'frame', 'upos')
        if not heady:
            want = simple.get(a['deprel'], a['deprel']) if 'deprel_simple' not in sk else a['deprel']
            if want == 'neg' and 'neg' not in sk:
                want = {'ADV': 'advmod', 'DET': 'det', 'AUX': 'advmod'}.get(b['upos'], want)
            mon.eq(d2[c], want, 'heads', lambda: f'deprel of {a}')
    if not heady:
        after = snap(t)
        run('Convert1to2', t, skip=skip, save_stats=0)
        mon.eq(snap(t), after, 'idempotent', 'Convert1to2')
    mon.state('repairs', repr(('Convert1to2', skip, s['words'])))


PROMOTION = {'nsubj': 9, 'obj': 8, 'iobj': 7, 'obl': 6, 'advmod': 5, 'csubj': 4, 'xcomp': 3, 'ccomp': 2, 'advcl': 1}
STEPS = ['upos', 'upos_copula', 'deprel_simple', 'neg', 'nmod', 'feats', 'goeswith', 'flat', 'remnants', 'coord', 'text']


def step(rng, mon, i):
    """Convert1to2, one transformation at a time, against a model on arrays."""
    which = rng.choice(STEPS[2:5] + ['goeswith', 'flat', 'remnants', 'remnants', 'coord', 'coord', 'coord', 'text', 'feats'])
    vocab = {'deprel_simple': ['dobj', 'dobj:x', 'nsubjpass', 'nsubjpass:y', 'csubjpass', 'auxpass', 'auxpass:a', 'name', 'name:z', 'foreign', 'foreign:q', 'mwe', 'mwe:w', 'obj', 'flat'],
             'neg': ['neg', 'neg', 'neg', 'cop', 'nsubj'], 'nmod': ['nmod', 'nmod', 'nmod:tmod', 'nmod:poss', 'nmod:poss', 'nmod:x', 'nsubj', 'csubj:pass', 'cop', 'det'],
             'goeswith': ['goeswith', 'goeswith', 'goeswith:a', 'flat', 'nmod'], 'flat': ['flat', 'flat:name', 'flat', 'goeswith', 'nmod'],
             'coord': ['conj', 'conj', 'cc', 'cc', 'punct', 'punct', 'amod', 'conj:x', 'cc:y'], 'remnants': ['det', 'case', 'amod'], 'text': ['dep'], 'feats': ['dep', 'mwe']}[which]
    ups = {'neg': ['ADV', 'PART', 'AUX', 'DET', 'INTJ', 'INTJ', 'VERB', 'NOUN', 'CONJ'], 'nmod': ['VERB', 'AUX', 'ADV', 'ADJ', 'NOUN', 'PRON', 'PROPN', 'NUM', 'DET', 'X', 'CONJ']}.get(which, ['CONJ', 'NOUN', 'VERB', 'PUNCT'])
    t = tree(rng, mon, vocab, upos=ups, lemmas=[',', ';', '.', 'and', 'x'])
    ws = list(t.descendants)
    for w in ws:
        for name in ('ToDo', 'orig_deprel'):
            del w.misc[name]
        w.deprel = w.deprel or 'dep'
        if which == 'feats':
            w.feats = rng.choice(['_', 'Negative=Neg', 'Aspect=Pro', 'VerbForm=Trans', 'Definite=Red', 'Foreign=Foreign', 'Case=Nom', 'Aspect=Perf|Negative=Pos', 'Tense=Nar', 'NumType=Gen|Tense=Nar', 'Foreign=Yes|Tense=Past', 'Negative=Neg|Polarity=Pos'])
        elif which == 'neg':
            w.feats = rng.choice(['_', '_', 'PronType=Neg', 'PronType=Ind,Neg', 'Polarity=Pos', 'PronType=Ind', 'Polarity=Neg'])
    if rng.random() < 0.5:
        t.text = t.compute_text()
    if which == 'text':
        p = rng.random()
        t.text = None if p < 0.2 else t.compute_text().replace(' ', rng.choice([' ', '  ', '\u00a0'])) if p < 0.6 else rng.choice(['Other text.', 'x', t.compute_text() + ' .'])
    if which == 'remnants':
        if len(ws) < 3:
            return
        order = rng.sample(ws, len(ws))
        for w in ws:
            w.parent = t
        v = order.pop()
        v.deprel = rng.choice(['root', 'advcl', 'conj', 'obl'])
        if len(order) > 4 and rng.random() < 0.5:
            top = order.pop()
            v.parent, top.deprel = top, 'root'
        free = list(order)
        args, prev = [], []
        for _ in range(rng.randint(1, max(1, len(free) // 2))):
            a = free.pop()
            a.parent, a.deprel = v, rng.choice(list(PROMOTION) + ['advcl', 'nmod', 'obl:arg', 'nsubj:pass'])
            args.append(a)
        for a in args:
            last = a
            for _ in range(rng.choice([0, 1, 1, 2])):
                if free:
                    r = free.pop()
                    r.parent, r.deprel = last, 'remnant'
                    last = r
        for w in free:
            w.parent = rng.choice([v] + args)
            w.deprel = 'det'
    mon.event('block.Convert1to2')
    s = snap(t)
    n = len(ws)
    h, d = heads(s), labels(s)
    up = [None] + [w['upos'] for w in s['words']]
    ft = [None] + [dict(x.split('=') for x in w['feats'].split('|')) if w['feats'] != '_' else {} for w in s['words']]
    todo = [[] for _ in range(n + 1)]
    orig = [None] * (n + 1)
    text, note = s['text'], None
    kids = lambda p: [c for c in range(1, n + 1) if h[c] == p]
    for c in range(1, n + 1):
        if which == 'deprel_simple':
            a, _, b = (d[c] or '').partition(':')
            if a == 'foreign':
                ft[c]['Foreign'] = 'Yes'
            new = {'mwe': 'fixed', 'dobj': 'obj', 'nsubjpass': 'nsubj:pass', 'csubjpass': 'csubj:pass', 'auxpass': 'aux:pass', 'name': 'flat:name', 'foreign': 'flat'}.get(a)
            if new:
                if b and ':' in new:
                    todo[c].append('deprel')
                d[c] = new + ':' + b if b and ':' not in new else new
        elif which == 'neg' and d[c] == 'neg':
            if 'Neg' not in ft[c].get('PronType', ''):
                ft[c]['Polarity'] = 'Neg'
            if up[c] in ('ADV', 'PART', 'AUX'):
                d[c] = 'advmod'
            elif up[c] == 'DET':
                d[c] = 'det'
            elif up[c] == 'INTJ':
                d[c] = 'advmod'
                if up[h[c]] == 'VERB' or any(d[k] == 'cop' for k in kids(h[c])):
                    up[c] = 'PART'
            else:
                todo[c].append('neg')
        elif which == 'nmod' and (d[c] or '').split(':')[0] == 'nmod':
            p = h[c]
            pred = any('subj' in (d[k] or '') or d[k] == 'cop' for k in kids(p))
            if up[p] in ('VERB', 'AUX', 'ADV') or up[p] == 'ADJ' and pred:
                d[c] = 'obl' + d[c][4:]
            elif d[c] == 'nmod:tmod':
                d[c] = 'obl:tmod'
            elif d[c] != 'nmod:poss' and (pred or up[p] not in ('NOUN', 'PRON', 'PROPN', 'NUM', 'DET')):
                todo[c].append('nmod')
        elif which == 'feats':
            f = ft[c]
            if f.get('Negative'):
                f['Polarity'] = f.pop('Negative')
            for k, x, y in (('Aspect', 'Pro', 'Prosp'), ('VerbForm', 'Trans', 'Conv'), ('Definite', 'Red', 'Cons'), ('Foreign', 'Foreign', 'Yes')):
                if f.get(k) == x:
                    f[k] = y
            todo[c] += ['nar'] * (f.get('Tense') == 'Nar') + ['gen'] * (f.get('NumType') == 'Gen')
    if which in ('goeswith', 'flat'):
        for c in range(1, n + 1):
            p = h[c]
            if (d[c] or '').split(':')[0] == which and c < p:
                full = d[c]
                same = [k for k in kids(p) if (d[k] or '').split(':')[0] == which]
                rest = [k for k in kids(p) if k not in same]
                first = same[0]
                h[first], d[first], d[p] = h[p], d[p], full
                for k in same[1:] + rest + [p]:
                    h[k] = first
    elif which == 'coord':
        lem = [None] + [w['lemma'] for w in s['words']]
        for c in range(1, n + 1):
            if not (d[c] == 'cc' or d[c] == 'punct' and lem[c] in (',', ';')):
                continue
            sib = kids(h[c])
            conj = [k for k in sib if d[k] == 'conj']
            if not conj:
                todo[c] += ['cc-without-conj'] * (d[c] == 'cc' and h[c] < c)
            elif c < conj[0] and c < h[c]:
                pass
            elif not [k for k in conj if k > c]:
                todo[c] += ['cc-after-conj'] * (d[c] == 'cc')
            else:
                nxt = [k for k in conj if k > c][0]
                if [k for k in sib if k > c and d[k] != 'cc'][0] != nxt:
                    todo[c].append(d[c] + '-in-coord')
                else:
                    h[c] = nxt
    elif which == 'remnants':
        rem = [c for c in range(1, n + 1) if d[c] == 'remnant']
        if rem:
            d0 = list(d)
            fc = v.ord
            if d[h[rem[0]]] == 'remnant' and sum(d0[h[c]] != 'remnant' for c in rem) == 1:
                return      # a chain written backwards: its first conjunct is a guess
            level = sorted([c for c in rem if d0[h[c]] != 'remnant'], key=lambda c: PROMOTION.get(d0[h[c]], 0))
            rels = [d0[h[c]] for c in level]
            while level:
                nxt = [(k, r) for c, r in zip(level, rels) for k in kids(c) if d0[k] == 'remnant']
                for c, r in zip(level, rels):
                    orig[c] = r
                top = level[-1]
                h[top], d[top] = fc, 'conj'
                if orig[top] == d[fc]:
                    orig[top] = None
                for c in level[:-1]:
                    h[c], d[c] = top, 'orphan'
                level, rels = [k for k, _ in nxt], [r for _, r in nxt]
            mon.event('remnants', len(rem))
    elif which == 'text':
        comp = t.compute_text()
        if text is None:
            text = comp
        elif ' '.join(text.split()) != comp:
            note, text = f'ToDoOrigText = {text}', comp
    skip = ','.join(x for x in STEPS if x != which)
    stats = rng.random() < 0.5
    mon.note(input=t.bundle.document.to_conllu_string(), skip=skip, save_stats=stats)
    with captured():
        create_block('ud.Convert1to2', skip=skip, save_stats=int(stats)).apply_on_document(t.bundle.document)
    after = frame(mon, t, s, may=['head', 'deprel', 'upos', 'feats', 'misc'], may_tree=['text', 'comment'] if which == 'text' else ())
    mon.eq(heads(after), h, 'heads', f'Convert1to2 {which}')
    mon.eq(labels(after), d, 'heads', f'Convert1to2 {which} deprels')
    mon.eq([w['upos'] for w in after['words']], up[1:], 'frame', which)
    mon.eq([w['feats'] for w in after['words']], ['|'.join(f'{k}={x}' for k, x in sorted(f.items(), key=lambda y: y[0].lower())) or '_' for f in ft[1:]], 'frame', which)
    mon.eq([w.misc['ToDo'] for w in ws], [','.join(x) for x in todo[1:]], 'frame', lambda: f'{which} ToDo')
    mon.eq([w.misc['orig_deprel'] or None for w in ws], orig[1:], 'frame', 'original deprels of remnants')
    clean = lambda m: [x for x in m.split('|') if not x.startswith(('ToDo=', 'orig_deprel=')) and x != '_']
    mon.eq([clean(w['misc']) for w in after['words']], [clean(w['misc']) for w in s['words']], 'frame', 'rest of MISC')
    if which == 'text':
        mon.eq(after['text'], text if n else after['text'], 'text', 'Convert1to2')
        if n:
            rows = lambda c: [x for x in c.split('\n') if x.strip()]
            mon.eq(rows(after['comment']), rows(s['comment']) + ([' ' + note] if note else []), 'comments', 'Convert1to2')
    total = sum(len(x) for x in todo) + (1 if note else 0)
    todos = t.bundle.document.meta.get('todo')
    mon.eq(todos is not None, stats, 'frame', 'statistics of ToDo')
    if stats:
        got = {x.split()[0]: int(x.split()[1]) for x in todos.split('\n')[1:] if x.strip()}
        want = {'TOTAL': total}
        for x in todo:
            for y in x:
                want[y] = want.get(y, 0) + 1
        if note:
            want['text'] = 1
        mon.eq(got, want, 'frame', 'counts of ToDo')
    mon.state('repairs', repr(('Convert1to2 step', which, s['words'], s['text'] if which == 'text' else '')))


WORKLOADS = [Workload('climbing', climbing, 4750, 40000), Workload('righthead', righthead, 3150, 30000), Workload('labels_only', labels_only, 3800, 30000), Workload('rehang', rehang, 3800, 30000),
             Workload('punct', punct, 24000, 200000), Workload('spaces', spaces, 3800, 30000), Workload('translation', translation, 600, 4000), Workload('convert', convert, 1900, 15000),
             Workload('step', step, 8000, 80000)]
