"""C01: CoNLL-U load followed by store is lossless."""
import glob
import io
import os

from lib import gen, refconllu as ref
from lib.vf import REPO, Workload, captured
from udapi.core.document import Document
from udapi.block.read.conllu import Conllu as Reader
from udapi.block.write.conllu import Conllu as Writer

ID = 'C01'
RULE = ('documents with distinct content hash that were loaded and stored; states also count distinct '
        '(shape, MWT layout, empty-node layout) sentence skeletons')
NEEDS = ['oracle.canonical bytes', 'oracle.assigned values', 'oracle.fixed point', 'oracle.words kept', 'oracle.empty nodes kept', 'oracle.mwts kept',
         'events.sentences', 'events.coreference header']
ASSUMPTIONS = ['MWT lines carry only ID, FORM, FEATS and MISC (UD v2)',
               'MISC keys are unique within a word; spacing marks of words inside an MWT are on the MWT line']
EMPTY_ROW = '1\t_\t_\t_\t_\t_\t0\t_\t_\tEmpty=Yes'


def load(text, how='string', mon=None):
    doc = Document()
    if how == 'string':
        doc.from_conllu_string(text)
    elif how == 'file':
        path = os.path.join(mon.scratch(), 'in.conllu')
        with open(path, 'w', encoding='utf-8', newline='') as f:
            f.write(text)
        doc = Document(path)
    elif how == 'load_conllu':
        path = os.path.join(mon.scratch(), 'in.conllu')
        with open(path, 'w', encoding='utf-8', newline='') as f:
            f.write(text)
        doc.load_conllu(path)
    else:
        Reader(filehandle=io.StringIO(text)).apply_on_document(doc)
    return doc


def store(doc, how='string', mon=None):
    if how == 'string':
        return doc.to_conllu_string()
    if how == 'file':
        path = os.path.join(mon.scratch(), 'out.conllu')
        doc.store_conllu(path)
        with open(path, encoding='utf-8', newline='') as f:
            return f.read()
    with captured() as out:
        Writer().apply_on_document(doc)
    return out.getvalue()


def touch(rng, doc):
    """Read everything lazily parsed: reading must not change what is stored."""
    for tree in doc.trees:
        for node in tree.descendants_and_empty:
            r = rng.random()
            if r < 0.3:
                _ = node.feats['Case'], node.misc['SpaceAfter'], str(node.feats), 'X' in node.misc, len(node.feats), list(node.misc)
            elif r < 0.5:
                _ = [d['deprel'] for d in node.deps]
            elif r < 0.6:
                _ = node.raw_deps, dict(node.feats), node.udeprel, node.sdeprel, repr(node)
        for mwt in tree.multiword_tokens:
            _ = mwt.ord_range, mwt.misc['SpaceAfter'], mwt.no_space_after
        _ = tree.compute_text(), tree.get_sentence(), tree.token_descendants, tree.sent_id, tree.address()


def add_empty_sentences(rng, sents, p=0.08):
    out = []
    for s in sents:
        if rng.random() < p and '/' not in (s.sent_id or ''):
            e = gen.Sent()
            e.sent_id = s.sent_id + '-empty'
            e.text = 'Empty one.'
            e.comments = [f'# sent_id = {e.sent_id}', '# text = Empty one.']
            e.words = [dict(form='_', lemma='_', upos='_', xpos='_', feats='_', head=0, deprel='_', deps='_', misc='Empty=Yes')]
            if rng.random() < 0.3:      # nothing but empty nodes
                e.empties = [(0, k, dict(gen.gen_word(rng), deps='0:root', misc='_')) for k in range(1, rng.randint(2, 3))]
            out.append(e)
        out.append(s)
    return out


def add_header(rng, sents):
    """The header of coreference annotation: after each newdoc or in the first sentence, before or among its other comments."""
    header = '# global.Entity = eid-etype-head-other'
    marked = [s for s in sents if s.newdoc]
    for s in marked or sents[:1]:
        c = s.comments
        k = next((k for k, x in enumerate(c) if x.startswith('# newdoc')), -1)
        json_at = next((k for k, x in enumerate(c) if x.startswith('# json_')), len(c))
        c.insert(k + 1 if marked or rng.random() < 0.5 else rng.randint(0, json_at), header)
    return sents


def note_states(mon, text):
    mon.state('documents', text)
    for s in ref.parse(text):
        mon.event('sentences')
        mon.event('words', len(s.words))
        mon.event('mwts', len(s.mwts))
        mon.event('empty nodes', len(s.empties))
        mon.event('comments', len(s.comments))
        mon.state('skeletons', repr(([w[6] for w in s.words], [m[:2] for m in s.mwts], [e[0] for e in s.empties])))


HOWS = ['string', 'file', 'block']


def canonical(rng, mon, i):
    sents = add_empty_sentences(rng, gen.add_mwt_feats(rng, gen.gen_doc(rng, hashes=1, zones=rng.random() < 0.3, canonical=True)))
    if sents and rng.random() < 0.1:
        add_header(rng, sents)
        mon.event('coreference header')
    text = gen.to_text(sents)
    if rng.random() < 0.15:
        text = '# doc_json_k = {"a": 1, "ž": [2]}\n# doc_json_z = "x"\n' + text
    mon.note(input=text)
    note_states(mon, text)
    doc = load(text, rng.choice(['string', 'file', 'load_conllu', 'block']), mon)
    if rng.random() < 0.5:
        touch(rng, doc)
    out = store(doc, rng.choice(HOWS), mon)
    mon.note(output=out)
    mon.eq(out, text, 'canonical bytes')
    if rng.random() < 0.3:
        mon.eq(store(doc, rng.choice(HOWS), mon), text, 'storing twice gives the same bytes')


def compare(mon, before, after, texts=True, ids=True, doc_json=True):
    """before/after: parsed reference documents; nothing lost, moved or altered."""
    mon.eq(len(after), len(before), 'sentence count')
    for k, (a, b) in enumerate(zip(before, after)):
        mwt_words = {x for s, e, _, _ in a.mwts for x in range(s, e + 1)}
        mon.eq(len(b.words), len(a.words), 'words kept', f'in sentence {k}')
        for wa, wb in zip(a.words, b.words):
            if int(wa[0]) in mwt_words:     # the reader re-serializes MISC of these
                mon.eq((wb[:9], ref.kv(wb[9])), (wa[:9], ref.kv(wa[9])), 'words kept', f'in sentence {k}')
            else:
                mon.eq(wb, wa, 'words kept', f'in sentence {k}')
        mon.eq(b.empties, a.empties, 'empty nodes kept', f'in sentence {k}')
        mon.eq([(m[:3], ref.kv(m[3])) for m in b.mwts], [(m[:3], ref.kv(m[3])) for m in a.mwts], 'mwts kept', f'in sentence {k}')
        mon.eq(b.mwt_feats, a.mwt_feats, 'mwts kept', f'in sentence {k}')
        mon.eq(b.other, a.other, 'comments kept', f'in sentence {k}')
        mon.eq(b.json, a.json, 'json kept', f'in sentence {k}')
        if doc_json:    # several document headers loaded into one Document are merged by design (use split_docs)
            mon.eq(b.doc_json, a.doc_json, 'json kept', f'in sentence {k}')
        if ids:
            mon.eq((b.newdoc, b.newpar), (a.newdoc, a.newpar), 'document and paragraph marks kept')
            if a.sent_id is not None:
                mon.eq(b.sent_id, a.sent_id, 'sent_id kept')
        if texts and a.text is not None:
            mon.eq(b.text, a.text.rstrip(), 'text kept')


def any_wellformed(rng, mon, i):
    nosid = rng.choice([0.0, 0.0, 1.0])
    sents = gen.add_mwt_feats(rng, gen.gen_doc(rng, hashes=1, zones=rng.random() < 0.3 and not nosid, canonical=False, p_nosid=nosid, p_notext=0.3))
    text = gen.to_text(sents)
    if rng.random() < 0.2:
        text = text.replace('# text = ', rng.choice(['# text=', '# text  =  ']))
    if rng.random() < 0.2:
        text = text.replace('# sent_id = ', rng.choice(['# sent_id ', '# sent_id=']))
    if rng.random() < 0.15:
        text = text.replace('\n\n', '\n\n\n')
    if rng.random() < 0.1:
        text = text.rstrip('\n') + rng.choice(['\n', ''])
    mon.note(input=text)
    note_states(mon, text)
    doc = load(text, rng.choice(['string', 'file', 'load_conllu', 'block']), mon)
    if rng.random() < 0.5:
        touch(rng, doc)
    out1 = store(doc, rng.choice(HOWS), mon)
    mon.note(output=out1)
    before, after = ref.parse(text), ref.parse(out1)
    compare(mon, before, after)
    for s, a in zip(sents, after):
        if s.text is None:
            mon.eq(a.text, s.compute_text(), 'missing text is computed')
    out2 = store(load(out1, rng.choice(['string', 'file', 'block']), mon), rng.choice(HOWS), mon)
    mon.eq(out2, out1, 'fixed point')


def assigned(rng, mon, i):
    """Sentence-level values assigned by a program are stored wherever (or whether) their comments were in the input."""
    sents = gen.gen_doc(rng, canonical=rng.random() < 0.5, p_notext=0.2)
    doc = load(gen.to_text(sents))
    want = []
    for t in doc.trees:
        lines = [x for x in (t.comment or '').split('\n') if x and not x.startswith('$')]
        marks = [x for x in ('$NEWDOC', '$NEWPAR', '$SENT_ID', '$TEXT') if rng.random() < 0.4]
        if rng.random() < 0.4:
            rng.shuffle(marks)
        for x in marks:
            lines.insert(rng.randint(0, len(lines)) if rng.random() < 0.3 else len(lines), x)
        if rng.random() < 0.2:
            lines.insert(rng.randint(0, len(lines)), ' added = v')
        t.comment = ''.join(x + '\n' for x in lines)
        if lines and rng.random() < 0.2:
            t.comment = t.comment[:-1]
        t.newdoc = rng.choice([None, None, True, 'd1', 'd 2'])
        t.newpar = rng.choice([None, None, True, 'p1', 'p 2'])
        t.text = rng.choice([None, 'New text.', 'x  y', t.text])
        if rng.random() < 0.4:
            t.json = rng.choice([{}, {'b': 1, 'a': [2, {'z': None, 'c': 'ž'}]}, {'k': 'x', 'j': ''}])
        want.append((t.sent_id, t.newdoc, t.newpar, t.text if t.text is not None else t.compute_text(), dict(t.json or {}), [x[1:] if x[:1] == ' ' else x for x in lines if x[:1] != '$']))
    mon.note(want=want, comments=[t.comment for t in doc.trees])
    out = store(doc, rng.choice(HOWS), mon)
    mon.note(output=out)
    got = ref.parse(out)
    mon.eq(len(got), len(want), 'sentence count')
    for a, (sid, nd, np, text, js, other) in zip(got, want):
        mon.eq((a.sent_id, a.newdoc, a.newpar), (sid, nd, np), 'assigned values', 'ids and marks')
        mon.eq(a.text, text.rstrip(), 'assigned values', 'text')
        mon.eq(a.json, js, 'assigned values', 'json')
        mon.eq([x.strip() for x in a.other], [x.strip() for x in other], 'assigned values', 'other comments')
    mon.eq(store(load(out), 'string', mon), out, 'fixed point')
    mon.state('documents', out)


def options(rng, mon, i):
    """print_sent_id=0 / print_text=0 drop just those comments."""
    sents = gen.gen_doc(rng, canonical=rng.random() < 0.5, p_notext=0.2)
    text = gen.to_text(sents)
    mon.note(input=text)
    ps, pt = rng.random() < 0.5, rng.random() < 0.5
    doc = load(text)
    with captured() as out:
        Writer(print_sent_id=ps, print_text=pt).apply_on_document(doc)
    out = out.getvalue()
    mon.note(output=out, options=(ps, pt))
    after = ref.parse(out)
    compare(mon, ref.parse(text), after, texts=pt, ids=ps)
    for a in after:
        mon.event('option outputs')
        if not pt:
            mon.eq(a.text, None, 'print_text=0 prints no text')
        if not ps:
            mon.eq((a.sent_id, a.newdoc, a.newpar), (None, None, None), 'print_sent_id=0 prints no IDs')


_corpus = None


def corpus():
    global _corpus
    if _corpus is None:
        _corpus = []
        for pat in ('udapi/core/tests/data/*.conllu', 'demo/*.conllu'):
            for path in sorted(glob.glob(os.path.join(REPO, pat))):
                with open(path, encoding='utf-8') as f:
                    blocks = [b for b in f.read().split('\n\n') if b.strip()]
                _corpus.append((os.path.basename(path), blocks))
    return _corpus


def real(rng, mon, i):
    """Windows of the repository's own sample corpora (real annotation, coreference included)."""
    name, blocks = corpus()[i % len(corpus())]
    k = rng.randint(1, 8)
    lo = rng.randrange(max(1, len(blocks) - k))
    text = '\n\n'.join(blocks[lo:lo + k]) + '\n\n'
    mon.note(corpus=name, input=text)
    note_states(mon, text)
    doc = load(text)
    if rng.random() < 0.5:
        touch(rng, doc)
    out1 = store(doc)
    before = ref.parse(text)
    one_header = sum(bool(s.doc_json) for s in before) <= 1 and not any(s.doc_json for s in before[1:])
    compare(mon, before, ref.parse(out1), doc_json=one_header)
    mon.eq(store(load(out1)), out1, 'fixed point')


WORKLOADS = [Workload('assigned', assigned, 1500, 15000), Workload('canonical', canonical, 5250, 40000), Workload('any', any_wellformed, 4200, 30000),
             Workload('options', options, 1400, 8400), Workload('real', real, 350, 2100)]
