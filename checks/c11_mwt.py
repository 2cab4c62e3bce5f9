"""C11: multi-word tokens stay disjoint, ordered and linked to their words."""
from lib import gen, refconllu as ref
from lib.treelib import heads, attrs_of, malformed
from lib.vf import Workload, captured
from udapi.core.document import Document
from udapi.block.ud.removemwt import RemoveMwt
from udapi.block.ud.joinasmwt import JoinAsMwt
from udapi.block.ud.fixmwtspace import FixMwtSpace
from udapi.block.ud.jointoken import JoinToken
from udapi.block.ud.splitunderscoretokens import SplitUnderscoreTokens
from udapi.block.util.wc import Wc
import udapi.block.ud.addmwt
import importlib

ID = 'C11'
RULE = 'distinct (token layout, operation) pairs; membership seen from words, tokens and the stored file is compared with a reference list'
NEEDS = ['oracle.membership', 'oracle.token sequence', 'oracle.range', 'oracle.words untouched', 'oracle.no-space mark', 'oracle.stored ranges',
         'events.op.create', 'events.op.dissolve', 'events.op.overlap', 'events.op.remove word', 'events.unordered words', 'events.block.RemoveMwt',
         'events.block.JoinAsMwt', 'events.block.FixMwtSpace', 'events.block.JoinToken', 'events.block.AddMwt', 'events.shifted.gap', 'events.shifted.stored', 'oracle.expansion', 'events.contraction.det.pt', 'events.contraction.clitic.es', 'events.contraction.cond.cs', 'events.contraction.pron.fr']
ASSUMPTIONS = ['the words of a multi-word token are neighbours (moving a word out of its token is a documented TODO) where the token sequence is judged; stored ranges are judged as long as tokens do not interleave']


class Tok:
    def __init__(self, mwt, words):
        self.mwt, self.words = mwt, words


def expected_tokens(t, toks):
    inside = {}
    for k in toks:
        for w in k.words:
            inside[w] = k
    out, seen = [], set()
    for w in t.descendants:
        k = inside.get(w)
        if k is None:
            out.append(w)
        elif id(k) not in seen:
            seen.add(id(k))
            out.append(k.mwt)
    return out


def judge(mon, t, toks, detail, write=True):
    inside = {}
    for k in toks:
        for w in k.words:
            mon.ok(w not in inside, 'membership', 'harness')
            inside[w] = k.mwt
    for w in t.descendants:
        mon.ok(w.multiword_token is inside.get(w), 'membership', lambda: f'word {w.ord} after {detail}')
    ms = list(t.multiword_tokens)
    mon.ok(len(ms) == len(toks) and {id(m) for m in ms} == {id(k.mwt) for k in toks}, 'membership',
           lambda: f'{[(m.form, [w.ord for w in m.words]) for m in ms]} expected {[[w.ord for w in k.words] for k in toks]} after {detail}')
    for k in toks:
        mon.ok(len(k.mwt.words) == len(k.words) and {id(w) for w in k.mwt.words} == {id(w) for w in k.words}, 'membership',
               lambda: f'words {[w.ord for w in k.mwt.words]} expected {[w.ord for w in k.words]} after {detail}')
        mon.ok(k.mwt.is_mwt() and k.mwt.root is t, 'membership', lambda: detail)
        for w in k.words:
            mon.ok(not w.is_mwt(), 'membership')
    want = expected_tokens(t, toks)
    got = list(t.token_descendants)
    mon.ok(len(got) == len(want) and all(a is b for a, b in zip(got, want)), 'token sequence',
           lambda: f'{[x.form for x in got]} expected {[x.form for x in want]} after {detail}')
    for k in toks:
        o = [w.ord for w in k.words]
        mon.eq(k.mwt.ord_range, f'{min(o)}-{max(o)}', 'range', lambda: detail)
        mon.eq(k.mwt.address(), f'{t.sent_id}#{min(o)}-{max(o)}', 'range', lambda: detail)
    if write and t.descendants:
        r = ref.parse(t.document.to_conllu_string())[0]
        mon.eq([(f'{m[0]}-{m[1]}', m[2]) for m in r.mwts],
               [(f'{min(w.ord for w in k.words)}-{max(w.ord for w in k.words)}', '_' if k.mwt.form is None else k.mwt.form)
                for k in sorted(toks, key=lambda k: min(w.ord for w in k.words))], 'stored ranges', lambda: detail)


def strip_space(attrs):
    """Attributes of a word without its spacing mark."""
    *rest, misc = attrs
    return tuple(rest) + ('|'.join(x for x in misc.split('|') if x != 'SpaceAfter=No') or '_',)


def load(rng, mon, **kw):
    s = gen.gen_sent(rng, **kw)
    doc = Document()
    doc.from_conllu_string(s.conllu())
    mon.note(input=s.conllu())
    t = list(doc.trees)[0]
    ws = list(t.descendants)
    toks = []
    for a, b, form, misc in s.mwts:
        m = ws[a - 1].multiword_token
        mon.ok(m is not None and (m.form, str(m.misc)) == (form, misc), 'membership', lambda: f'{a}-{b} {form}')
        toks.append(Tok(m, ws[a - 1:b]))
    return doc, t, toks


def history(rng, mon, i):
    doc, t, toks = load(rng, mon, p_mwt=0.7, n=rng.randint(2, 9), p_empty=0.1, p_deps=0.0)
    log = []
    mon.note(history=log)
    judge(mon, t, toks, 'loading')
    serial = 0
    for _ in range(rng.randint(2, 10)):
        ws = list(t.descendants)
        if not ws:
            break
        op = rng.choice(['create', 'create', 'create', 'dissolve', 'remove word', 'misc', 'structure'])
        before = {w: strip_space(attrs_of(w)) for w in ws}
        hs = heads(t)
        layout = tuple(len(k.words) for k in toks) + (len(ws),)
        if op == 'create':
            if len(ws) < 2:
                continue
            a = rng.randint(0, len(ws) - 2)
            words = ws[a:a + rng.choice([2, 2, 2, 3, 4])]
            serial += 1
            form = rng.choice([f'mwt{serial}', 'del', 'zur', 'vámonos'])
            misc = rng.choice([None, None, '_', '', 'X=1', 'SpaceAfter=No', {'A': 'b'}, 'SpaceAfter=No|B=c'])
            over = [k for k in toks if any(w in k.words for w in words)]
            mark = words[-1].misc['SpaceAfter'] == 'No' if rng.random() < 0.5 else rng.random() < 0.5
            words[-1].misc['SpaceAfter'] = 'No' if mark else ''
            given = list(words)
            if rng.random() < 0.4:
                rng.shuffle(given)
                mon.event('unordered words', given != words)
            log.append((op, [w.ord for w in given], form, misc, mark))
            how = rng.randint(0, 2)
            m = (t.create_multiword_token(given, form, misc) if how == 0 else t.create_multiword_token(words=given, form=form, misc=misc)
                 if how == 1 or misc is not None else t.create_multiword_token(given, form=form))
            mon.event('op.overlap', bool(over))
            toks = [k for k in toks if k not in over] + [Tok(m, words)]
            want = dict(misc) if isinstance(misc, dict) else {} if misc in (None, '_', '') else dict(x.split('=') for x in misc.split('|'))
            if mark:
                want['SpaceAfter'] = 'No'
            mon.eq(m.form, form, 'words untouched')
            mon.eq(dict(m.misc), want, 'no-space mark', lambda: f'MISC of the token after {log}')
            mon.eq([w.misc['SpaceAfter'] for w in words], [''] * len(words), 'no-space mark', lambda: f'words after {log}')
            mon.eq(m.no_space_after, want.get('SpaceAfter') == 'No', 'no-space mark')
        elif op == 'dissolve':
            if not toks:
                continue
            k = rng.choice(toks)
            log.append((op, [w.ord for w in k.words]))
            k.mwt.remove()
            toks.remove(k)
        elif op == 'remove word':
            # removing a word leaves its token to the other words, as long as there are at least two of them
            w = rng.choice(ws)
            rehang = rng.random() < 0.6
            log.append((op, w.ord, rehang))
            gone = [w] if rehang else w.descendants(add_self=True)
            w.remove(children='rehang') if rehang else w.remove()
            for k in list(toks):
                k.words = [x for x in k.words if x not in gone]
                if len(k.words) < 2:
                    toks.remove(k)
            for x in gone:
                mon.ok(x.multiword_token is None, 'membership', lambda: f'removed word after {log}')
        elif op == 'misc':
            if not toks:
                continue
            k = rng.choice(toks)
            log.append((op, [w.ord for w in k.words]))
            k.mwt.misc['Note'] = 'x'
            mon.eq(k.mwt.misc['Note'], 'x', 'words untouched')
            k.mwt.form = 'changed'
        else:
            w, p = rng.choice(ws), rng.choice(ws)
            log.append(('attach', w.ord, p.ord))
            if p is not w and not p.is_descendant_of(w):
                w.parent = p
            hs = heads(t)
        mon.event('op.' + op)
        if op not in ('remove word',):
            mon.eq(heads(t), hs, 'words untouched', lambda: f'heads after {log}')
            mon.eq([strip_space(attrs_of(w)) for w in t.descendants], [before[w] for w in ws], 'words untouched', lambda: f'{log}')
        judge(mon, t, toks, log)
        mon.state('layout and op', repr((layout, log[-1][:2])))
    mon.eq(malformed(t), None, 'words untouched')


def shifted(rng, mon, i):
    """Words which change places: the token keeps its words and is stored once, where its first word now is."""
    doc, t, toks = load(rng, mon, p_mwt=0.6, n=rng.randint(3, 9), p_empty=0.1, p_deps=0.0)
    log = []
    mon.note(history=log)
    for _ in range(rng.randint(1, 5)):
        ws = list(t.descendants)
        a, b = rng.choice(ws), rng.choice(ws)
        if a is b or a.is_descendant_of(b) or b.is_descendant_of(a):
            continue
        if toks and rng.random() < 0.5:
            k = rng.choice(toks)
            a = rng.choice(k.words)
            if rng.random() < 0.5:
                b = rng.choice([w for w in k.words if w is not a])
        if a is b:
            continue
        how = rng.choice(['shift_after_node', 'shift_before_node'])
        log.append((how, a.ord, b.ord))
        exp = [w for w in ws if w is not a]
        at = next(j for j, w in enumerate(exp) if w is b) + (how == 'shift_after_node')
        exp.insert(at, a)
        hs = [(w, w.parent) for w in ws]
        getattr(a, how)(b, without_children=True)
        mon.ok(list(t.descendants) == exp and all(w.parent is p for w, p in hs), 'words untouched', lambda: f'after {log}')
        spans = sorted((min(w.ord for w in k.words), max(w.ord for w in k.words)) for k in toks)
        gap = any(hi - lo + 1 != len(k.words) for k in toks for lo, hi in [(min(w.ord for w in k.words), max(w.ord for w in k.words))])
        mon.event('shifted.gap', gap and len(toks) > 0)
        if any(x[1] >= y[0] for x, y in zip(spans, spans[1:])):
            mon.event('shifted.interleaved')
            continue
        mon.event('shifted.stored', len(toks))
        if not gap and rng.random() < 0.5:
            judge(mon, t, toks, log)
        stored = [l.split('\t')[:2] for l in doc.to_conllu_string().split('\n') if '\t' in l and l[0] != '#']
        want = []
        for w in exp:
            for k in toks:
                if w.ord == min(x.ord for x in k.words):
                    want.append([f'{w.ord}-{max(x.ord for x in k.words)}', '_' if k.mwt.form is None else k.mwt.form])
            want.append([str(w.ord), '_' if w.form is None else w.form])
        mon.eq([x for x in stored if '.' not in x[0]], want, 'stored ranges', lambda: f'after {log}')
        if not gap:
            judge(mon, t, toks, log)
    mon.state('shifted', repr((tuple(len(k.words) for k in toks), len(log))))


def surface(t):
    """Independent list of (form, no space) of the surface tokens by the words' own view."""
    out, prev = [], None
    for w in t.descendants:
        m = w.multiword_token
        if m is None:
            out.append((w.form, w.misc['SpaceAfter'] == 'No'))
        elif m is not prev:
            out.append((m.form, m.misc['SpaceAfter'] == 'No'))
        prev = m
    return out


def pairs_text(p):
    return ''.join(f + ('' if n else ' ') for f, n in p).rstrip()


def groups(t):
    """Partition of words into tokens by the words' own view."""
    out, prev = [], None
    for w in t.descendants:
        m = w.multiword_token
        if m is not None and m is prev:
            out[-1].append(w)
        else:
            out.append([w])
        prev = m
    return out


def consistent(mon, t, detail):
    gs = groups(t)
    toks = [Tok(g[0].multiword_token, g) for g in gs if g[0].multiword_token is not None]
    mon.ok(len({id(k.mwt) for k in toks}) == len(toks), 'membership', lambda: f'a token with a gap after {detail}')
    judge(mon, t, toks, detail)
    mon.eq(malformed(t), None, 'words untouched', lambda: detail)


def remove_block(rng, mon, i):
    """ud.RemoveMwt: one word per surface token, surface text unchanged."""
    doc, t, toks = load(rng, mon, p_mwt=0.9, p_empty=0.0, p_deps=0.0)
    want = surface(t)
    gs = groups(t)
    ws = list(t.descendants)
    par = {w: w.parent for w in ws}
    firsts = [g[0] for g in gs]
    keep = {w: (w.lemma, w.upos, w.xpos, w.deprel) for w in ws}
    plain = {g[0]: attrs_of(g[0]) for g in gs if len(g) == 1}
    RemoveMwt().apply_on_document(doc)
    mon.event('block.RemoveMwt', bool(toks))
    mon.eq(list(t.multiword_tokens), [], 'membership', 'after ud.RemoveMwt')
    got = list(t.descendants)
    mon.ok(len(got) == len(firsts) and all(a is b for a, b in zip(got, firsts)), 'token sequence', lambda: f'{[w.form for w in got]}')
    mon.eq(surface(t), want, 'no-space mark', 'after ud.RemoveMwt')
    for w in got:
        p = par[w]
        while p is not t and p not in firsts:
            p = par[p]
        mon.ok(w.parent is p, 'words untouched', lambda: f'head of {w.form}')
        mon.eq((w.lemma, w.upos, w.xpos, w.deprel), keep[w], 'words untouched')
        if w in plain:
            mon.eq(attrs_of(w), plain[w], 'words untouched')
    consistent(mon, t, 'ud.RemoveMwt')
    mon.state('RemoveMwt', repr([len(g) for g in gs]))


def join_as_mwt(rng, mon, i):
    doc, t, toks = load(rng, mon, p_mwt=0.5, p_empty=0.0, p_deps=0.0)
    for w in t.descendants:
        if w.multiword_token is None:
            w.form = rng.choice(['a', 'b', 'ab', 'É', '語', '.', "n't", '1', 'x1', '-'])
            w.misc['SpaceAfter'] = 'No' if rng.random() < 0.7 else ''
            w.misc['OrigForm'] = rng.choice(['', '', 'Orig', 'ORIG'])
    mon.note(input=doc.to_conllu_string())
    revert = rng.random() < 0.6
    before = [(w.form, w.lemma, w.upos, w.xpos, str(w.feats), w.deprel, dict(w.misc)) for w in t.descendants]
    hs, want, old = heads(t), pairs_text(surface(t)), groups(t)
    ws = list(t.descendants)
    # definition: maximal runs of words outside tokens, joined where there is no space and letters meet
    runs = []
    for g in old:
        w = g[0]
        if w.multiword_token is None and runs and runs[-1][-1].multiword_token is None and runs[-1][-1].misc['SpaceAfter'] == 'No' \
                and runs[-1][-1].form[-1].isalpha() and w.form[0].isalpha():
            runs[-1].append(w)
        else:
            runs.append(list(g))
    joined = [g for g in runs if len(g) > 1 and g[0].multiword_token is None]
    JoinAsMwt(revert_orig_form=revert).apply_on_document(doc) if not revert or rng.random() < 0.5 else JoinAsMwt().apply_on_document(doc)
    mon.event('block.JoinAsMwt', len(joined))
    mon.eq(pairs_text(surface(t)), want, 'no-space mark', 'surface text after ud.JoinAsMwt')
    mon.eq([[w.ord for w in g] for g in groups(t)], [[w.ord for w in g] for g in runs], 'token sequence', 'after ud.JoinAsMwt')
    mon.eq(heads(t), hs, 'words untouched')
    inj = {w for g in joined for w in g}
    for w, b in zip(ws, before):
        form, misc = b[0], dict(b[6])
        if w in inj:
            misc.pop('SpaceAfter', None)
            if revert and misc.get('OrigForm'):
                form = misc.pop('OrigForm')
        mon.eq((w.form, w.lemma, w.upos, w.xpos, str(w.feats), w.deprel, dict(w.misc)), (form,) + b[1:6] + (misc,), 'words untouched', lambda: f'word {w.ord}')
    consistent(mon, t, 'ud.JoinAsMwt')
    mon.state('JoinAsMwt', repr([len(g) for g in runs]))


def fix_space(rng, mon, i):
    doc, t, toks = load(rng, mon, p_mwt=0.9, p_empty=0.0, p_deps=0.0)
    stay = []
    for k in toks:
        c = rng.random()
        if c < 0.4:
            k.mwt.form = ' '.join(w.form for w in k.words)
        elif c < 0.6:
            k.mwt.form = 'x y'
        if not (' ' in k.mwt.form and k.mwt.form == ' '.join(w.form for w in k.words)):
            stay.append(k)
    before = [attrs_of(w) for w in t.descendants]
    hs = heads(t)
    FixMwtSpace().apply_on_document(doc)
    mon.event('block.FixMwtSpace', len(toks) - len(stay))
    mon.eq(([attrs_of(w) for w in t.descendants], heads(t)), (before, hs), 'words untouched')
    judge(mon, t, stay, 'ud.FixMwtSpace')
    mon.state('FixMwtSpace', repr((len(toks), len(stay))))


def join_token(rng, mon, i):
    doc, t, toks = load(rng, mon, p_mwt=0.3, p_empty=0.0, p_deps=0.0)
    ws = list(t.descendants)
    value = rng.choice([None, None, 'yes'])
    name = rng.choice(['JoinToken', 'JoinToken', 'Merge'])
    for w in ws:
        if rng.random() < 0.5:
            w.misc[name] = rng.choice(['yes', 'Here'])
        if rng.random() < 0.6:
            w.misc['SpaceAfter'] = 'No'
        if w.multiword_token is not None:
            w.misc['SpaceAfter'] = ''
    mon.note(input=doc.to_conllu_string(), args=(name, value))
    want = pairs_text(surface(t))
    form = {w: w.form for w in ws}
    mark = {w: w.misc['SpaceAfter'] for w in ws}
    par = {w: w.parent for w in ws}
    into, kept = {}, []
    for w in ws:
        req = w.misc[name] != '' and (value is None or w.misc[name] == value)
        if req and kept and w.multiword_token is None and kept[-1].multiword_token is None and mark[kept[-1]] == 'No':
            p = kept[-1]
            into[w] = p
            form[p] += w.form
            mark[p] = mark[w]
        else:
            kept.append(w)
    args = {} if name == 'JoinToken' else dict(misc_name=name)
    if value:
        args['misc_value'] = value
    JoinToken(**args).apply_on_document(doc)
    mon.event('block.JoinToken', len(into))
    got = list(t.descendants)
    mon.ok(len(got) == len(kept) and all(a is b for a, b in zip(got, kept)), 'token sequence', lambda: f'{[w.form for w in got]} expected {[w.form for w in kept]}')
    mon.eq([(w.form, w.misc['SpaceAfter']) for w in got], [(form[w], mark[w]) for w in kept], 'no-space mark', 'after ud.JoinToken')
    mon.eq(pairs_text(surface(t)), want, 'no-space mark', 'text after ud.JoinToken')
    # dependencies: words not involved in joining keep their head or the word their head was joined into
    for w in kept:
        if w in into.values():
            continue
        p = par[w]
        while p in into:
            p = into[p]
        mon.ok(w.parent is p, 'words untouched', lambda: f'head of {w.form} is {w.parent.form}, expected {p.form}')
    consistent(mon, t, 'ud.JoinToken')
    mon.state('JoinToken', repr([(w in into) for w in ws]))


class Probe(udapi.block.ud.addmwt.AddMwt):
    """A minimal subclass with a fixed dictionary, exercising all documented options."""
    def __init__(self, table):
        super().__init__()
        self.table = table

    def multiword_analysis(self, node):
        a = self.table.get(node.form.lower())
        return dict(a) if a is not None else None


def add_mwt(rng, mon, i):
    doc, t, toks = load(rng, mon, p_mwt=0.4, p_empty=0.1, p_deps=0.0)
    ws = list(t.descendants)
    k = rng.choice([2, 2, 3])
    main = rng.choice([None, 0, 1, k - 1])
    shape = rng.choice([None, 'siblings', 'subtree'])
    a = dict(form=' '.join(['qa', 'qb', 'qc'][:k]), lemma=' '.join(['la', '*', 'lc'][:k]), upos=' '.join(['ADP', 'DET', '*'][:k]),
             deprel=' '.join(['*', 'det', 'case'][:k]), feats=' '.join(['_', 'Case=*|X=1', '*'][:k]))
    if main is not None:
        a['main'] = main
    if shape is not None:
        a['shape'] = shape
    mi = main or 0
    star = None
    if rng.random() < 0.5:
        star = rng.randrange(k)
        a['misc'] = ' '.join('*' if j == star else '_' if j % 2 else f'M={j}' for j in range(k))
    for w in ws:
        if rng.random() < 0.4:
            w.form = rng.choice(['Qq', 'qq', 'QQ'])
            if rng.random() < 0.2:
                w.misc['Entity'] = '(e1-x-1)'
            if rng.random() < 0.2:
                w.misc['SpacesAfter'] = '\\s'
    mon.note(input=doc.to_conllu_string(), analysis=repr(a))
    want = surface(t)
    hits = {w for w in ws if w.form.lower() == 'qq'}
    orig = {w: attrs_of(w) for w in ws}
    par = {w: w.parent for w in ws}
    misc = {w: dict(w.misc) for w in ws}
    inside = {w for w in ws if w.multiword_token is not None}
    Probe({'qq': a}).apply_on_document(doc)
    mon.event('block.AddMwt', len(hits))
    mon.eq(surface(t), want, 'token sequence', 'surface tokens after AddMwt')
    seq = list(t.descendants)
    pos = 0
    for w in ws:
        if w not in hits:
            mon.ok(seq[pos] is w, 'token sequence', lambda: f'{[x.form for x in seq]}')
            mon.eq(attrs_of(w), orig[w], 'words untouched')
            mon.ok(w.parent is par[w], 'words untouched', lambda: f'head of {w.ord}')
            pos += 1
            continue
        part = seq[pos:pos + k]
        pos += k
        mon.ok(part[mi] is w, 'token sequence', lambda: 'the main word is the original node')
        forms = a['form'].split()
        o = orig[w]
        if o[0].isupper():
            forms = [f.upper() for f in forms]
        elif o[0][0].isupper():
            forms[0] = forms[0].title()
        mon.eq([x.form for x in part], forms, 'words untouched', 'forms of the parts')
        exp = {'lemma': o[1], 'upos': o[2], 'deprel': o[5]}
        for attr, val in exp.items():
            mon.eq([getattr(x, attr) for x in part], [val if v == '*' else v for v in a[attr].split()], 'words untouched', attr)
        ofe = {} if o[4] == '_' else dict(f.split('=') for f in o[4].split('|'))
        fe = [{}, {'X': '1'}, ofe][:k]
        if ofe.get('Case'):
            fe[1]['Case'] = ofe['Case']
        mon.eq([dict(x.feats) for x in part], fe, 'words untouched', 'feats')
        if w not in inside:
            # MISC stays at the token unless it is given to a word; the spaces belong to the token, an entity to the first word
            spaces = {x: y for x, y in misc[w].items() if x in ('SpaceAfter', 'SpacesAfter', 'SpacesBefore')}
            rest = {x: y for x, y in misc[w].items() if x not in spaces}
            mi_w = [{} if v == '_' else {'M': v[2:]} if v != '*' else dict(rest) for v in a['misc'].split()] if star is not None else [{} for _ in part]
            mi_t = dict(spaces) if star is not None else dict(misc[w])
            if mi_t.get('Entity'):
                mi_w[0]['Entity'] = mi_t.pop('Entity')
            mon.eq([dict(x.misc) for x in part], mi_w, 'words untouched', 'MISC of the words')
            mon.eq(dict(w.multiword_token.misc), mi_t, 'words untouched', 'MISC of the token')
        mon.ok(w.parent is par[w], 'words untouched', lambda: f'head of the main word')
        for x in part:
            if x is not w:
                mon.ok(x.parent is (w if shape == 'subtree' else par[w]), 'words untouched', lambda: 'head of a new word')
            mon.ok(x.multiword_token is w.multiword_token and x.multiword_token is not None, 'membership', lambda: 'parts of one token')
    mon.eq(pos, len(seq), 'token sequence')
    consistent(mon, t, 'AddMwt')
    mon.state('AddMwt', repr((k, main, shape, [w in hits for w in ws])))


LANGS = {'de': ['am', 'Zur', 'ins', 'VOM'], 'fr': ['au', 'du', 'Des', 'aux'], 'es': ['al', 'Del', 'DEL'], 'pt': ['do', 'na', 'Pelo', 'à'],
         'cs': ['aby', 'kdybych', 'ses', 'naň'], 'ca': ['al', 'del', 'pels'], 'el': ['στο', 'του', 'στην']}


def add_lang(rng, mon, i):
    """The language-specific detectors keep the surface tokens and leave other words' order and forms alone."""
    lang = rng.choice(sorted(LANGS))
    mod = importlib.import_module(f'udapi.block.ud.{lang}.addmwt')
    doc, t, toks = load(rng, mon, p_mwt=0.2, p_empty=0.0, p_deps=0.0, n=rng.randint(2, 9))
    ws = list(t.descendants)
    for w in ws[:-1]:
        w.deprel = w.deprel or 'dep'
        w.upos = rng.choice(['NOUN', 'ADP', 'VERB', 'PROPN', 'SCONJ', 'PRON'])
        if w.multiword_token is None and rng.random() < 0.4:
            w.form = rng.choice(LANGS[lang])
            w.lemma = w.form.lower()
    ws[-1].upos, ws[-1].deprel = 'NOUN', 'obl'
    mon.note(input=doc.to_conllu_string(), lang=lang)
    want = surface(t)
    b = mod.AddMwt()
    n_before = len(t.multiword_tokens)
    try:
        b.apply_on_document(doc)
    except (AttributeError, IndexError):
        mon.event('gave up.' + lang)      # heuristics on structures the language never has
        return
    mon.event('lang.' + lang, len(t.multiword_tokens) - n_before)
    mon.eq(surface(t), want, 'token sequence', f'after ud.{lang}.AddMwt')
    seq = list(t.descendants)
    mon.eq([w for w in seq if w in ws], ws, 'token sequence', f'order of the words after ud.{lang}.AddMwt')
    consistent(mon, t, f'ud.{lang}.AddMwt')
    mon.state('lang', repr((lang, [w.form for w in ws])))


# what the contractions of each language stand for (form, the words' forms, the words' lemmas)
DET = {
    'de': [(a, p + ' ' + d, p + ' der') for a, p, d in [x.split() for x in (
        'am an dem/ans an das/aufs auf das/beim bei dem/durchs durch das/fürs für das/hinterm hinter dem/hinters hinter das/im in dem/ins in das/übers über das/'
        'ums um das/unterm unter dem/unters unter das/vom von dem/vorm vor dem/vors vor das/zum zu dem/zur zu der').split('/')]],
    'es': [('al', 'a el', 'a el'), ('del', 'de el', 'de el')],
    'ca': [('al', 'a el', 'a el'), ('als', 'a els', 'a el'), ('del', 'de el', 'de el'), ('dels', 'de els', 'de el'), ('pel', 'per el', 'per el'), ('pels', 'per els', 'per el')],
    'fr': [('au', 'à le', 'à le'), ('aux', 'à les', 'à le'), ('des', 'de les', 'de le'), ('du', 'de le', 'de le')],
    'pt': [(a, p + ' ' + d, p + ' ' + l) for p, l, ds in (('a', 'o', 'à:a às:as ao:o aos:os'), ('de', 'o', 'da:a das:as do:o dos:os'), ('em', 'o', 'na:a nas:as no:o nos:os'),
                                                          ('por', 'o', 'pela:a pelas:as pelo:o pelos:os'), ('de', 'um', 'dum:um duma:uma dumas:umas duns:uns'),
                                                          ('em', 'um', 'num:um numa:uma numas:umas nuns:uns'), ('de', 'esse', 'dessa:essa dessas:essas desse:esse desses:esses'),
                                                          ('de', 'este', 'desta:esta destas:estas deste:este destes:estes'), ('em', 'este', 'nesta:esta neste:este'),
                                                          ('em', 'esse', 'nesses:esses'))
           for x in ds.split() for a, d in [x.split(':')]],
    'el': [('σ' + d, 'σ ' + d, 'σε ο') for d in 'τη την τα τους τις τον το'.split()],
}
PRON = {
    'fr': [(a, a2, l) for a, a2, l in (('auquel', 'à lequel', 'à lequel'), ('auxquels', 'à lesquels', 'à lequel'), ('auxquelles', 'à lesquelles', 'à lequel'),
                                       ('desquels', 'de lesquels', 'de lequel'), ('desquelles', 'de lesquelles', 'de lequel'), ('duquel', 'de lequel', 'de lequel'))],
    'pt': [('d' + p, 'de ' + p, 'de ' + p) for p in 'ela ele eles elas'.split()] + [('nisto', 'em isto', 'em este')],
    'cs': [(p + 'č', p + ' co', p + ' co') for p in 'na o za'.split()],
}
COND = [(j + ('y' + e), w + ' by' + e, w + ' být', n, p) for j, w in (('ab', 'aby'), ('kdyb', 'když'))
        for e, n, p in (('ch', 'Sing', '1'), ('s', 'Sing', '2'), ('', '', ''), ('chom', 'Plur', '1'), ('chme', 'Plur', '1'), ('ste', 'Plur', '2'), ('šta', 'Dual', '3'))]
# clitics: (block arguments, form, UPOS, FEATS) -> (forms, lemma and relation of the pronoun); None = not a contraction
CLITIC = {
    'es': [({'verbpron': 1}, 'decirle', 'VERB', 'VerbForm=Inf', ('decir le', 'él', 'iobj')), ({'verbpron': 1}, 'verme', 'VERB', 'VerbForm=Inf', ('ver me', 'yo', 'iobj')),
           ({'verbpron': 1}, 'diciéndolos', 'VERB', 'VerbForm=Ger', ('diciéndo los', 'él', 'iobj')), ({'verbpron': 1}, 'verte', 'VERB', 'VerbForm=Inf', ('ver te', 'tú', 'iobj')),
           ({'verbpron': 1}, 'haberlas', 'AUX', 'VerbForm=Inf', None), ({'verbpron': 1}, 'pese', 'VERB', 'VerbForm=Inf', None), ({'verbpron': 1}, 'haberse', 'AUX', 'VerbForm=Inf', ('haber se', 'él', 'iobj')),
           ({'verbpron': 1}, 'tome', 'VERB', 'VerbForm=Fin', None), ({'verbpron': 1}, 'dales', 'VERB', 'VerbForm=Fin', None), ({'verbpron': 1}, 'clase', 'NOUN', '_', None), ({}, 'decirle', 'VERB', 'VerbForm=Inf', None)],
    'pt': [({}, 'vende-se', 'VERB', 'Mood=Ind', ('vende se', 'se', 'nsubj')), ({}, 'fazê-lo', 'VERB', 'VerbForm=Inf', ('fazê lo', 'ele', 'obj')),
           ({}, 'vê-los', 'VERB', 'VerbForm=Inf', ('vê los', 'eles', 'obj')), ({}, 'viu-o', 'VERB', 'Mood=Ind', ('viu o', 'ele', 'obj')),
           ({}, 'castelo', 'NOUN', '_', None), ({}, 'pôr-se', 'NOUN', '_', None), ({}, 'no', 'PRON', '_', None), ({}, 'nos', 'PRON', '_', None)],
    'fr': [({}, 'du', 'DET', '_', None), ({}, 'des', 'DET', '_', None), ({}, 'du', 'VERB', '_', None), ({}, 'auquel', 'PRON', '_', None)],
}


def contraction(rng, mon, i):
    """Typical contractions of a language stand for the words they are contracted from, attached as UD prescribes."""
    kind = rng.choice(['det', 'det', 'det', 'det other', 'pron', 'cond', 'clitic'])
    table = {'det': DET, 'det other': DET, 'pron': PRON, 'cond': {'cs': COND}, 'clitic': CLITIC}[kind]
    lang = rng.choice(sorted(table))
    if kind == 'det other' and lang not in ('es', 'ca', 'pt'):
        kind = 'det'
    row = rng.choice(table[lang])
    # verb adverb? CONTRACTION adjective? noun
    doc = Document()
    t = doc.create_bundle().create_tree()
    t.sent_id = 's1'
    verb = t.create_child(form='x', lemma='x', upos='VERB', deprel='root')
    for j in range(rng.randint(0, 2)):
        verb.create_child(form='y', lemma='y', upos='ADV', deprel='advmod').shift_after_subtree(verb)
    c = verb.create_child(form='c', lemma='c', deprel='obl')
    c.shift_after_subtree(verb)
    args = row[0] if kind == 'clitic' else {}
    form = row[1] if kind == 'clitic' else row[0]
    case = rng.choice(['low', 'low', 'Title', 'UPPER'])
    surface_form = {'low': form, 'Title': form[:1].upper() + form[1:], 'UPPER': form.upper()}[case]
    c.form, c.misc = surface_form, rng.choice(['_', 'SpaceAfter=No', 'X=1'])
    misc = str(c.misc)
    expected = None
    if kind in ('det', 'det other'):
        c.upos, c.feats = 'ADP', 'Definite=Def|Gender=Neut'
        noun = verb.create_child(form='z', lemma='z', upos='NOUN', deprel='obl')
        noun.shift_after_subtree(verb)
        adj = rng.random() < 0.5
        if adj:
            noun.create_child(form='a', lemma='a', upos='ADJ', deprel='amod').shift_before_node(noun)
        if kind == 'det':
            c.parent, c.deprel = noun, 'case'
            expected = [('ADP', noun, 'case'), ('DET', noun, 'det')]
        else:
            rel = rng.choice(['root', 'conj', 'reparandum']) if lang != 'pt' else rng.choice(['advmod', 'mark', 'fixed', 'obl'])
            c.deprel = rel
            if lang == 'pt' and rng.random() < 0.5:
                noun.parent, noun.deprel = c, 'fixed'
                expected = [('ADP', verb, rel), ('DET', c, 'fixed')]
            elif lang == 'pt':
                expected = [('ADP', verb, rel), ('DET', c, 'det')]
            elif lang == 'es':
                # the article of al, del attached from the left is re-attached to the following noun
                expected = [('ADP', verb, rel), ('DET', noun, 'det')]
            else:
                expected = [('ADP', verb, rel), ('DET', c, 'det')]
    elif kind == 'pron':
        c.upos = 'ADP' if lang == 'fr' else 'PRON'
        kid = rng.random() < 0.5
        if kid:
            kid = c.create_child(form='k', lemma='k', upos='ADV', deprel='advmod')
            kid.shift_after_node(c)
        expected = [('ADP', None, 'case'), ('PRON', verb, 'obl')]
    elif kind == 'cond':
        c.upos, c.deprel = 'SCONJ', 'mark'
        v2 = verb.create_child(form='v', lemma='v', upos='VERB', deprel='advcl')
        v2.shift_after_subtree(verb)
        c.parent = v2
        expected = [('SCONJ', v2, 'mark'), ('AUX', v2, 'aux')]
    else:
        _, _, c.upos, c.feats, exp = row
        c.deprel = 'xcomp'
        kid = c.create_child(form='k', lemma='k', upos='NOUN', deprel='obj')
        kid.shift_after_node(c)
        if exp is not None:
            expected = [(c.upos, verb, 'xcomp'), ('PRON', c, exp[2])]
    mon.note(input=doc.to_conllu_string(), lang=lang, row=repr(row), kind=kind)
    before = doc.to_conllu_string()
    others = [(w, heads_of(w)) for w in t.descendants if w is not c and w.parent is not c]
    kids = [(w, w.deprel) for w in c.children]
    importlib.import_module(f'udapi.block.ud.{lang}.addmwt').AddMwt(**args).process_document(doc)
    mon.event(f'contraction.{kind}.{lang}')
    what = f'{lang} {surface_form} {kind}'
    if expected is None:
        mon.eq(doc.to_conllu_string(), before, 'words untouched', what)
        return
    mon.eq([(m.form, str(m.misc)) for m in t.multiword_tokens], [(surface_form, misc)], 'expansion', what)
    words = list(t.multiword_tokens[0].words)
    forms = (row[4][0] if kind == 'clitic' else row[1]).split()
    forms = [f.upper() for f in forms] if case == 'UPPER' and surface_form.isupper() else [forms[0].title()] + forms[1:] if case != 'low' else forms
    if len(surface_form) > 1:       # one capital letter is both an upper-case and a title-case word
        mon.eq([w.form for w in words], forms, 'expansion', what)
    mon.eq([w.form.lower() for w in words], [f.lower() for f in forms], 'expansion', what)
    lemmas = [None, row[4][1]] if kind == 'clitic' else row[2].split()
    mon.eq([l and w.lemma for w, l in zip(words, lemmas)], lemmas, 'expansion', what)
    main = 1 if kind == 'pron' else 0
    mon.eq([w.upos for w in words], [e[0] for e in expected], 'expansion', what)
    mon.eq([w.deprel for w in words], [e[2] for e in expected], 'expansion', what)
    for w, e in zip(words, expected):
        mon.ok(w.parent is (e[1] if e[1] is not None else words[1]) or (e[1] is c and w.parent is words[0]), 'expansion', lambda: f'head of {w.form}: {w.parent.form} ({what})')
    mon.ok(words[main] is c, 'expansion', what)
    for w, h in others:
        mon.eq(heads_of(w), h, 'words untouched', what)
    for w, d in kids:
        mon.ok(w.parent is words[main] and w.deprel == d, 'words untouched', what)
    if kind == 'cond':
        want = {'Aspect': 'Imp', 'Mood': 'Cnd', 'VerbForm': 'Fin', **({'Number': row[3], 'Person': row[4]} if row[3] else {})}
        mon.eq(dict(words[1].feats), want, 'expansion', what)
    if kind == 'clitic' and lang == 'es':
        mon.eq(dict(words[0].feats), {'VerbForm': row[3].split('=')[1]}, 'expansion', what)
    mon.eq(t.compute_text().split(' '), [x for x in surface_words(t)], 'token sequence', what)
    mon.state('contraction', repr((kind, lang, form, case)))


def prepositional_phrase(rng, mon, i):
    """a partir del NOUN, à partir du NOUN: the preposition stays in the fixed expression, the article goes to the noun (as the blocks document)."""
    lang, a, form, de, le = rng.choice([('es', 'a', 'del', 'de', 'el'), ('es', 'a', 'al', 'a', 'el'), ('fr', 'à', 'du', 'de', 'le'), ('fr', 'à', 'au', 'à', 'le'),
                                        ('fr', 'à', 'des', 'de', 'les')])
    doc = Document()
    t = doc.create_bundle().create_tree()
    t.sent_id = 's1'
    verb_first = rng.random() < 0.5
    verb = t.create_child(form='verb', lemma='verb', upos='VERB', deprel='root')
    noun = verb.create_child(form='noun', lemma='noun', upos=rng.choice(['NOUN', 'PROPN']), deprel='obl')
    if not verb_first:
        noun.shift_before_node(verb)
    pre = noun.create_child(form=a, lemma=a, upos='ADP', deprel='case')
    pre.shift_before_node(noun)
    partir = pre.create_child(form='partir', lemma='partir', upos='VERB', deprel='fixed')
    partir.shift_after_node(pre)
    c = pre.create_child(form=form, lemma=form, upos='ADP', deprel='fixed')
    c.shift_after_node(partir)
    adjs = []
    for _ in range(rng.randint(0, 2)):
        adjs.append(noun.create_child(form='adj', lemma='adj', upos='ADJ', deprel='amod'))
        adjs[-1].shift_before_node(noun)
    if adjs and rng.random() < 0.5:
        adv = adjs[0].create_child(form='very', lemma='very', upos='ADV', deprel='advmod')
        adv.shift_before_node(adjs[0])
    mon.note(input=doc.to_conllu_string(), lang=lang)
    importlib.import_module(f'udapi.block.ud.{lang}.addmwt').AddMwt().process_document(doc)
    m = t.multiword_tokens
    mon.eq([x.form for x in m], [form], 'expansion')
    w = list(m[0].words)
    mon.eq([(x.form, x.upos, x.parent.form, x.deprel) for x in w], [(de, 'ADP', a, 'fixed'), (le, 'DET', 'noun', 'det')], 'expansion')
    mon.event('contraction.phrase.' + lang)
    mon.state('phrase', repr((lang, form, len(adjs), verb_first)))


def heads_of(w):
    return (w.parent.form, w.parent.upos, w.form, w.lemma, w.upos, w.deprel, str(w.feats), str(w.misc))


def surface_words(t):
    return pairs_text(surface(t)).split(' ')


WORKLOADS = [Workload('contraction', contraction, 2500, 12000), Workload('phrase', prepositional_phrase, 300, 2000), Workload('history', history, 14500, 87000), Workload('shifted', shifted, 3000, 18000), Workload('remove_block', remove_block, 2900, 17400), Workload('join_as_mwt', join_as_mwt, 2900, 17400),
             Workload('fix_space', fix_space, 1450, 8700), Workload('join_token', join_token, 3850, 23100), Workload('add_mwt', add_mwt, 3850, 23100),
             Workload('add_lang', add_lang, 2900, 17400)]
