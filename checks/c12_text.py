"""C12: sentence text and SpaceAfter marks agree."""
from lib import gen, refconllu as ref
from lib.treelib import heads, malformed, snapshot
from lib.edits import Model
from lib.vf import Workload, Logs
from udapi.core.document import Document
from udapi.block.ud.setspaceafterfromtext import SetSpaceAfterFromText
from udapi.block.ud.complywithtext import ComplyWithText

ID = 'C12'
RULE = 'distinct (token layout with spacing marks) sentences; texts are compared with an independent detokenization of the generated input'
NEEDS = ['oracle.compute_text', 'oracle.subtree text', 'oracle.text from marks', 'oracle.comply', 'oracle.repair', 'oracle.get_sentence', 'oracle.forms untouched',
         'events.partial MWT in subtree', 'events.comply changed', 'events.foreign text', 'events.repair not possible']
ASSUMPTIONS = ['tokens have non-empty forms without leading or trailing whitespace',
               'ud.ComplyWithText aligns other tokens heuristically: then only agreement of the stored and the computed text is required']


def load(rng, mon, **kw):
    s = gen.gen_sent(rng, **kw)
    doc = Document()
    doc.from_conllu_string(s.conllu())
    mon.note(input=s.conllu())
    return s, doc, list(doc.trees)[0]


def toks_of(t, words, use_mwt=True):
    """(form, no space after) of the surface tokens of the given words (words in order), from the words' own view."""
    out, seen = [], set()
    for w in words:
        m = w.multiword_token
        if use_mwt and m is not None:
            if id(m) not in seen:
                seen.add(id(m))
                out.append((m.form, str(m.misc)))
        else:
            out.append((w.form, str(w.misc)))
    return [(f, ref.kv(m).get('SpaceAfter') == 'No') for f, m in out]


def text_of(pairs):
    return ''.join(f + ('' if n else ' ') for f, n in pairs).strip(' ')


def compute(rng, mon, i):
    s, doc, t = load(rng, mon, p_mwt=0.6, p_empty=0.2, p_deps=0.1, p_notext=0.3)
    ws = list(t.descendants)
    before = snapshot(t)
    mon.eq(t.compute_text(), s.compute_text(), 'compute_text')
    plain = text_of([(w['form'], 'SpaceAfter=No' in w['misc'].split('|')) for w in s.words])
    mon.eq(t.compute_text(use_mwt=False), plain, 'compute_text', 'without MWTs')
    m = Model(t)
    for w in rng.sample(ws, min(len(ws), 5)):
        sub = m.sub(w)
        mon.eq(w.compute_text(), text_of(toks_of(t, sub)), 'subtree text', lambda: f'word {w.ord}')
        mon.eq(w.compute_text(use_mwt=False), text_of(toks_of(t, sub, False)), 'subtree text', lambda: f'word {w.ord} without MWTs')
        mon.event('partial MWT in subtree', any(x.multiword_token and any(y not in sub for y in x.multiword_token.words) for x in sub))
    # stored text wins over the computed one
    stored = s.text
    mon.eq(t.text, stored, 'get_sentence')
    for mode in [None, 'detokenize', 'warn_detokenize', 'empty', 'warn_empty', 'fatal']:
        with Logs() as lg:
            if stored is None and mode == 'fatal':
                mon.raises(lambda: t.get_sentence(if_missing='fatal'), 'get_sentence', RuntimeError)
                continue
            got = t.get_sentence() if mode is None else t.get_sentence(if_missing=mode)
        want = stored if stored is not None else '' if mode and mode.endswith('empty') else s.compute_text()
        mon.eq(got, want, 'get_sentence', mode)
        mon.eq(len(lg.messages()), int(stored is None and mode is not None and mode.startswith('warn')), 'get_sentence', lambda: f'warnings for {mode}')
    mon.eq(t.text, stored, 'get_sentence', 'left as it was')
    mon.eq(snapshot(t), before, 'forms untouched', 'computing the text changes nothing')
    t.text = 'Other text.'
    mon.eq(t.get_sentence(), 'Other text.', 'get_sentence')
    t.text = ''
    mon.eq(t.get_sentence(), '', 'get_sentence', 'an empty stored text is a text')
    t.text = None
    mon.eq(t.get_sentence(), s.compute_text(), 'get_sentence')
    # edits of marks are seen at once
    for tok in list(t.token_descendants)[:4]:
        tok.misc['SpaceAfter'] = rng.choice(['No', 'No', '', 'Yes', None])
        mon.eq(tok.no_space_after, tok.misc['SpaceAfter'] == 'No', 'compute_text')
    mon.eq(t.compute_text(), text_of(toks_of(t, ws)), 'compute_text', 'after changing marks')
    mon.state('layout', repr([(len(x.words), x.no_space_after) for x in t.token_descendants]))


def random_spacing(rng, forms):
    p = rng.random()
    return ''.join(f + (' ' if rng.random() < p else '') for f in forms).strip(' ')


def from_text(rng, mon, i):
    s, doc, t = load(rng, mon, p_mwt=0.5, p_empty=0.4, p_deps=0.0)
    for e in t.empty_nodes:
        if rng.random() < 0.5:
            e.misc['SpaceAfter'] = 'No'
    toks = list(t.token_descendants)
    if rng.random() < 0.4:
        for x in toks:     # many ways of reading the text unless it is matched token by token
            x.form = rng.choice(['a', 'aa', 'aaa', 'ab', 'b', 'a b', '.', '..'])
    if rng.random() < 0.05:
        t.text = None
        mon.raises(lambda: SetSpaceAfterFromText().apply_on_document(doc), 'text from marks', ValueError)
        return
    want = t.text = random_spacing(rng, [x.form for x in toks])
    if rng.random() < 0.3 and not any(' ' in x.form for x in toks):       # any whitespace separates tokens
        t.text = want.replace(' ', rng.choice(['\u00a0', '  ', '\t', ' \u3000']))
    raw = t.text
    mon.note(input=doc.to_conllu_string(), text=raw)
    forms = [(w.form, w.lemma, w.upos, str(w.feats), w.deprel, {k: v for k, v in w.misc.items() if k != 'SpaceAfter'}) for w in list(t.descendants) + toks if not w.is_mwt()]
    hs, rng_ = heads(t), [m.ord_range for m in t.multiword_tokens]
    inner = [w.misc['SpaceAfter'] for w in t.descendants if w.multiword_token]
    same = t.compute_text() == want
    SetSpaceAfterFromText().apply_on_document(doc)
    mon.eq(t.compute_text(), want, 'text from marks')
    mon.eq(t.text, raw, 'text from marks', 'the text itself stays')
    mon.eq([w.misc['SpaceAfter'] for w in t.descendants if w.multiword_token], inner, 'forms untouched')
    mon.eq([(w.form, w.lemma, w.upos, str(w.feats), w.deprel, {k: v for k, v in w.misc.items() if k != 'SpaceAfter'}) for w in list(t.descendants) + toks if not w.is_mwt()],
           forms, 'forms untouched')
    mon.eq((heads(t), [m.ord_range for m in t.multiword_tokens], list(t.token_descendants)), (hs, rng_, toks), 'forms untouched')
    mon.eq([e.misc['SpaceAfter'] for e in t.empty_nodes], [''] * len(t.empty_nodes), 'text from marks', 'empty nodes carry no mark')
    if not same:
        mon.eq([x.misc['SpaceAfter'] for x in toks[-1:]], [''], 'text from marks', 'last token')
    # the marks survive storing
    r = ref.parse(doc.to_conllu_string())[0]
    mon.eq(r.text, raw if raw else None, 'text from marks')
    mon.state('layout', repr((want, rng_)))


DISJOINT = ['ab', 'cd', 'efg', '3', 'h', '.', ',', 'ij', 'k', '-', '56', 'lm', 'nop', '!', 'q', 'éí', '語', 'rs', '(', ')']
SOUP = ['a', 'bc', '3', 'pm', '.', '-', 'do', "n't", 'mother-in-law', '10 000', 'dé', ',', 'aa', '..', '5', 'en', 'na']


def comply(rng, mon, i):
    disjoint = rng.random() < 0.4
    s, doc, t = load(rng, mon, p_mwt=0.4, p_empty=0.1, p_deps=0.0, max_n=9)
    toks = list(t.token_descendants)
    if disjoint:
        if len(toks) > len(DISJOINT):
            return
        for x, f in zip(toks, rng.sample(DISJOINT, len(toks))):
            x.form = f
    else:
        for x in toks:
            x.form = rng.choice(SOUP)
    forms = [x.form for x in toks]
    kind = rng.choice(['same', 'edit'])
    txt = list(forms)
    if kind == 'edit':
        for _ in range(rng.randint(1, 3)):
            k = rng.randrange(len(txt)) if txt else 0
            op = rng.choice(['replace', 'delete', 'insert', 'split', 'extend'])
            if op == 'insert' or not txt:
                txt.insert(k, rng.choice(['.', '-', 'zz', 'a', ',,', '!']))
            elif op == 'replace':
                txt[k] = rng.choice(['a', 'xx', 'bcd', '.,', '-', 'X'])
            elif op == 'delete':
                txt.pop(k)
            elif op == 'split':
                txt[k] = txt[k].replace('-', ' ') if '-' in txt[k] else txt[k][:1] + ' ' + txt[k][1:]
            else:
                txt[k] += rng.choice(['x', '.', '...'])
    text = ' '.join(random_spacing(rng, txt).split())
    loose = text
    if rng.random() < 0.2:
        loose = text.replace(' ', rng.choice(['  ', '\u00a0', ' \u3000'])) + rng.choice(['', ' '])
    t.text = loose
    mon.note(input=doc.to_conllu_string(), text=loose)
    args = {}
    for name, p in [('prefer_mwt', 0.5), ('allow_goeswith', 0.7), ('allow_add_punct', 0.7), ('allow_delete_punct', 0.7), ('allow_hyphen_goeswith', 0.7)]:
        if rng.random() > p:
            args[name] = False
    fix = rng.random() < 0.8
    if not fix:
        args['fix_text'] = False
    if rng.random() < 0.2:
        args['previous_form_label'] = ''
    mon.note(args=args)
    agreed = text == t.compute_text()
    before = snapshot(t)
    ws = list(t.descendants)
    wforms = [w.form for w in ws]
    ComplyWithText(**args).apply_on_document(doc)
    mon.event('comply changed', not agreed)
    mon.event('foreign text', int(kind == 'edit'))
    mon.eq(malformed(t), None, 'forms untouched')
    if agreed:
        mon.eq(snapshot(t), before, 'comply', 'tree already agreed with its text')
    if fix:
        mon.eq(t.text, t.compute_text(), 'comply', 'stored and computed text')
        # no text is lost
        olds = [c[len(' OrigText = '):] for c in t.comment.split('\n') if c.startswith(' OrigText = ')]
        expected = ([loose] if loose != text else []) + ([text] if t.text != text else [])
        mon.eq(olds, expected, 'comply', 'previous texts')
    else:
        mon.eq(t.text, loose, 'comply', 'fix_text=0 keeps the text')
    if kind == 'same':
        mon.eq(t.compute_text(), text, 'comply', lambda: f'tokens {forms} matched the text')
        mon.eq([w for w in t.descendants], ws, 'forms untouched', 'words')
        # new multi-word tokens only over neighbours written together
        mon.eq(''.join(x.form for x in t.token_descendants), ''.join(forms), 'forms untouched', 'surface')
        mon.eq([w.form for w in ws], wforms, 'forms untouched')
        if not args.get('prefer_mwt', True):
            mon.eq([x.form for x in t.token_descendants], forms, 'forms untouched')
    r = (ref.parse(doc.to_conllu_string()) or [None])[0]
    mon.eq(len(r.words), max(1, len(t.descendants)), 'comply')
    mon.state('comply', repr((forms, text, sorted(args))))


LETTERS = [chr(c) for c in list(range(97, 123)) + list(range(0x3b1, 0x3ca)) + list(range(0x430, 0x450))]
FRESH = [chr(c) for c in range(0x561, 0x587)]


def repairs(rng, mon, i):
    """One place where text and tokens differ, all other characters unique: the repair is fully determined by the options."""
    s, doc, t = load(rng, mon, p_mwt=0.3, p_empty=0.0, p_deps=0.0, max_n=7)
    toks = list(t.token_descendants)
    letters = rng.sample(LETTERS, len(LETTERS))
    for x in toks:
        x.form = ''.join(letters.pop() for _ in range(rng.randint(2, 4)))
        for y in ([x] if not x.is_mwt() else [x] + x.words):
            for name in ('SpaceAfter', 'CorrectForm', 'Added', 'Prev'):
                del y.misc[name]
    for w in t.descendants:
        w.feats = '_'
    args = {}
    for name in ('allow_goeswith', 'allow_add_punct', 'allow_delete_punct', 'allow_hyphen_goeswith', 'prefer_mwt'):
        if rng.random() < 0.35:
            args[name] = False
    label = rng.choice(['CorrectForm', 'CorrectForm', 'CorrectForm', 'Prev', ''])
    if label != 'CorrectForm':
        args['previous_form_label'] = label
    if rng.random() < 0.3:
        args['max_mwt_length'] = rng.choice([1, 2, 3])
    if rng.random() < 0.3:
        args['added_label'] = 'New'
    added = args.get('added_label', 'Added')
    on = lambda name: args.get(name, True)
    kind = rng.choice(['space', 'hyphen', 'digits', 'other', 'merge', 'merge', 'join', 'punct', 'puncts', 'drop', 'drop-words', 'front'])
    k = rng.randrange(len(toks))
    x, old = toks[k], toks[k].form
    txt = [y.form for y in toks]
    want = list(txt)       # surface forms afterwards
    fresh = rng.sample(FRESH, 6)
    edits = {}             # object -> form
    newnodes = []          # (word before or after which, forms, deprel, upos, lemma known, parent)
    gone, mwt, solved, changed = [], None, True, []
    lo = hi = k
    if kind == 'space':
        c = rng.randint(1, len(old) - 1)
        parts = [old[:c], old[c:]]
        if len(parts[1]) > 1 and rng.random() < 0.4:
            parts[1:] = [parts[1][:1], parts[1][1:]]
        txt[k] = ' '.join(parts)
        if on('allow_goeswith') and not x.is_mwt():
            want[k:k + 1] = parts
            changed.append((x, old))
            edits[x] = parts[0]
            newnodes = [('after', x, p, 'goeswith', 'X', None, x) for p in parts[1:]]
        else:
            solved = False
    elif kind == 'hyphen':
        x.form = old = '-'.join(old)
        want[k] = old
        txt[k] = old.replace('-', ' ')
        if on('allow_hyphen_goeswith') and on('allow_goeswith') and not x.is_mwt():
            want[k:k + 1] = txt[k].split()
            changed.append((x, old))
            edits[x] = txt[k].split()[0]
            newnodes = [('after', x, p, 'goeswith', 'X', None, x) for p in txt[k].split()[1:]]
        else:
            solved = False
    elif kind == 'digits':
        x.form = old = rng.choice(['12345', '123456,78', '12345.6'])
        want[k] = txt[k] = {'12345': '12 345', '123456,78': '123 456,78', '12345.6': '12 345.6'}[old]
        changed.append((x, old))
        edits[x] = txt[k]
    elif kind == 'other':
        new = rng.choice([''.join(fresh[:3]), old + fresh[0], old[:1] + fresh[0] + old[1:], old[:-1], old[1:]])
        want[k] = txt[k] = new
        changed.append((x, old))
        edits[x] = new
    elif kind in ('merge', 'join'):
        n = rng.randint(2, 5)
        if k + n > len(toks):
            return
        part = toks[k:k + n]
        if kind == 'merge':      # other characters too: only one token can cover it
            new = ''.join(fresh[:rng.randint(1, 6)])
        else:
            new = ''.join(y.form for y in part)
        txt[k:k + n] = [new]
        hi = k + n - 1
        if kind == 'join':
            pass     # the tokens match the text already: only the marks change
        elif any(y.is_mwt() for y in part) or n > args.get('max_mwt_length', 4):
            solved = False
        else:
            want[k:k + n] = [new]
            mwt = part
    elif kind in ('punct', 'puncts'):
        ps = [rng.choice(['!', '...', '?!', '”'])] if kind == 'punct' else rng.choice([['!', '?'], ['...', '”'], [')', '.', '!']])
        glued = rng.random() < 0.5 and kind == 'punct'
        txt[k] = old + ('' if glued else ' ') + ' '.join(ps)
        if on('allow_add_punct'):
            want[k:k + 1] = [old] + ps
            newnodes = [('after', x.words[-1], p, 'punct', 'PUNCT', p, x.words[-1]) for p in ps]
        elif glued:
            want[k] = txt[k]
            changed.append((x, old))
            edits[x] = txt[k]
        else:
            solved = False
    elif kind in ('drop', 'drop-words'):
        if len(toks) == 1:
            return
        if kind == 'drop':
            x.form = old = rng.choice(['!', '...', '”'])
            want[k] = old
        txt.pop(k)
        if kind == 'drop' and on('allow_delete_punct'):
            want.pop(k)
            gone = list(x.words)
        else:
            solved = False
    else:
        ps = rng.choice([['!'], ['(', '"'], ['...']])
        x, k = toks[0], 0
        lo = hi = 0
        txt[0] = ' '.join(ps + [txt[0]])
        if on('allow_add_punct'):
            want[0:1] = ps + [toks[0].form]
            newnodes = [('before', x.words[0], p, 'punct', 'PUNCT', None, x.words[0]) for p in ps]
        else:
            solved = False
    text = ' '.join(txt)
    t.text = text
    fix = rng.random() < 0.8
    if not fix:
        args['fix_text'] = False
    if rng.random() < 0.3:
        args['previous_text_label'] = rng.choice(['', 'Older'])
    mon.note(input=doc.to_conllu_string(), text=text, args=args, kind=kind)
    ws = list(t.descendants)
    comment = t.comment
    hs = {id(w): (w.parent, w.deprel, w.upos, w.lemma) for w in ws}
    mw = [(m, list(m.words)) for m in t.multiword_tokens]
    forms = {id(y): y.form for y in ws + [m for m, _ in mw]}
    kids = [c for w in gone for c in w.children if c not in gone]
    with Logs() as lg:
        ComplyWithText(**args).apply_on_document(doc)
    mon.eq(malformed(t), None, 'forms untouched')
    mon.event('repair not possible', not solved)
    ww = list(t.descendants)
    mon.eq([w for w in ww if id(w) in hs], [w for w in ws if w not in gone], 'repair', 'the words which were there')
    if not solved:
        mon.eq(bool(lg.messages()), True, 'repair', 'a difference left over is reported')
    mon.eq([y.form for y in t.token_descendants], want, 'repair', lambda: f'{kind}: tokens')
    for y, f in edits.items():
        mon.eq(y.form, f, 'repair')
    for y, f in changed:
        mon.eq(y.misc[label] if label else '', f if label else '', 'repair', 'previous form is kept')
        mon.eq(y.feats['Typo'] if not y.is_mwt() else '', 'Yes' if not y.is_mwt() and (label == 'CorrectForm' or kind in ('space', 'hyphen')) else '',
               'repair', 'Typo=Yes')
    ch = {id(y) for y, _ in changed}
    for y in [w for w in ws if w not in gone] + [m for m, wl in mw if not set(wl) & set(gone)]:
        if id(y) not in ch:
            mon.eq((y.form, str(y.feats) if not y.is_mwt() else '_', y.misc['CorrectForm'] + y.misc['Prev'] + y.misc[added]), (forms[id(y)], '_', ''), 'repair', lambda: f'{kind}: {y.form} has nothing to do with it')
    fresh_words = [w for w in ww if id(w) not in hs]
    mon.eq([(w.form, w.deprel, w.upos) for w in fresh_words], [n[2:5] for n in newnodes], 'repair', 'new words')
    for w, n in zip(fresh_words, newnodes):
        mon.eq(w.parent, n[6], 'repair', 'new words hang on the word they belong to')
        if n[5]:
            mon.eq(w.lemma, n[5], 'repair')
        mon.eq(str(w.misc[added]), '1' if n[3] == 'punct' else '', 'repair', 'new punctuation is marked')
    if newnodes:
        a, b = newnodes[0][0], newnodes[0][1]
        q = ww.index(b)
        mon.eq(ww[q + 1:q + 1 + len(newnodes)] if a == 'after' else ww[q - len(newnodes):q], fresh_words, 'repair', 'new words stand where the text has them')
    for w in ws:
        if w in gone:
            continue
        p0, d0, u0, l0 = hs[id(w)]
        mon.eq((w.deprel, w.upos, w.lemma), (d0, u0, l0), 'repair')
        if w in kids:
            while p0 in gone:
                p0 = hs[id(p0)][0]
        mon.eq(w.parent, p0, 'repair', lambda: f'{kind}: parent of {w.form}')
    now = [(m, list(m.words)) for m in t.multiword_tokens]
    keep = [(m, wl) for m, wl in mw if not set(wl) & set(gone)]
    mon.eq([wl for m, wl in now if m not in [k2 for k2, _ in keep]], [mwt] if mwt else [], 'repair', 'new multiword token')
    mon.eq([(m, wl) for m, wl in now if m in [k2 for k2, _ in keep]], keep, 'repair', 'old multiword tokens')
    older = args.get('previous_text_label', 'OrigText')
    if solved:
        mon.eq(t.compute_text(), text, 'repair', lambda: f'{kind}: text of the repaired tree')
        mon.eq((t.text, t.comment), (text, comment), 'repair', 'the text stays')
        mon.eq(lg.messages(), [], 'repair', 'nothing to report')
    elif fix:
        mon.eq(t.text, t.compute_text(), 'repair')
        mon.eq([x for x in t.comment.split('\n') if x.strip()], [x for x in (comment + f'\n {older} = {text}' if older else comment).split('\n') if x.strip()], 'repair', 'previous text is kept')
    else:
        mon.eq((t.text, t.comment), (text, comment), 'repair', 'fix_text=0')
    mon.state('repair', repr((kind, solved, len(toks), k, sorted(args))))


WORKLOADS = [Workload('compute', compute, 15000, 90000), Workload('from_text', from_text, 15000, 90000), Workload('comply', comply, 24000, 144000),
             Workload('repairs', repairs, 20000, 120000)]
