"""C02: the CoNLL-U reader builds exactly the trees the file describes."""
import bz2
import gzip
import io
import lzma
import os
import re

from lib import gen, refconllu as ref
from lib.treelib import malformed
from lib.vf import Workload
from checks.c01_roundtrip import add_empty_sentences, add_header, corpus, note_states
from udapi.core.document import Document
from udapi.core.run import create_block
from udapi.block.read.conllu import Conllu as Reader
from udapi.block.read.conll import Conll as ConllReader

ID = 'C02'
RULE = 'distinct input documents; each sentence is compared with an independent parser through several entry points'
NEEDS = ['events.trailing space', 'events.comments without words', 'oracle.header of the document', 'oracle.words', 'oracle.multi-word tokens', 'oracle.empty nodes', 'oracle.enhanced deps', 'oracle.zones and bundles',
         'events.entry.gz', 'events.entry.one bundle at a time', 'events.entry.read.Conll']


def none(x):
    return None if x == '_' else x


def expected(s, k):
    """What the API must show for the parsed reference sentence s."""
    sole_empty = len(s.words) == 1 and s.words[0][9] == 'Empty=Yes'
    words = [] if sole_empty else s.words
    mw = {}
    for a, b, form, misc in s.mwts:
        for x in range(a, b + 1):
            mw[x] = (a, b, form)
    return dict(
        words=[(int(w[0]), w[1], w[2], none(w[3]), none(w[4]), ref.kv(w[5]), int(w[6]), none(w[7]),
                {k2: v for k2, v in ref.kv(w[9]).items() if not (int(w[0]) in mw and k2 == 'SpaceAfter')},
                mw.get(int(w[0]))) for w in words],
        mwts=[(a, b, form, ref.kv(misc), ref.kv(s.mwt_feats.get(a, '_'))) for a, b, form, misc in s.mwts],
        empties=[(e[0], e[1], e[2], e[3], e[4], ref.kv(e[5]), ref.kv(e[9])) for e in s.empties],
        deps=[(w[0], [] if w[8] == '_' else [tuple(d.split(':', 1)) for d in w[8].split('|')]) for w in words + s.empties],
        sent_id=s.sent_id, text=s.text, newdoc=s.newdoc or None, newpar=s.newpar or None, json=s.json,
        other=list(s.other))


def observed(root):
    def mwtkey(n):
        m = n.multiword_token
        return None if m is None else (m.words[0].ord, m.words[-1].ord, m.form)
    return dict(
        words=[(n.ord, n.form, n.lemma, n.upos, n.xpos, dict(n.feats), n.parent.ord, n.deprel, dict(n.misc), mwtkey(n))
               for n in root.descendants],
        mwts=[tuple(map(int, m.ord_range.split('-'))) + (m.form, dict(m.misc), dict(m.feats)) for m in root.multiword_tokens],
        empties=[(str(e.ord), e.form, e.lemma, e.upos, e.xpos, dict(e.feats), dict(e.misc)) for e in root.empty_nodes],
        deps=[(str(n.ord), [(str(d['parent'].ord), d['deprel']) for d in n.deps]) for n in list(root.descendants) + root.empty_nodes],
        sent_id=root.sent_id, text=root.text, newdoc=root.newdoc, newpar=root.newpar, json=root.json,
        other=[c for c in root.comment.split('\n')[:-1] if not c.startswith('$')])


LABELS = dict(words='words', mwts='multi-word tokens', empties='empty nodes', deps='enhanced deps', sent_id='sent_id', text='text',
              newdoc='newdoc', newpar='newpar', json='json', other='comments')


def judge(mon, docs, sents, entry, skip_id=False):
    mon.event('entry.' + entry)
    trees = [t for d in docs for t in d.trees]
    mon.eq(len(trees), len(sents), 'sentence count', f'via {entry}')
    last = None
    for k, (t, s) in enumerate(zip(trees, sents)):
        got, want = observed(t), expected(s, k)
        for key, label in LABELS.items():
            if key == 'sent_id' and (want[key] is None or skip_id):
                continue
            mon.eq(got[key], want[key], label, f'via {entry}, sentence {k}')
        bad = malformed(t)
        mon.ok(bad is None, 'well-formed tree', lambda: f'{bad} via {entry}, sentence {k}')
        mon.event('sentences compared')
        if s.sent_id is not None:
            bid, _, zone = s.sent_id.partition('/')
            mon.eq((t.zone, t.bundle.bundle_id), (zone, bid), 'zones and bundles', f'via {entry}')
            if last is not None and last[0] == bid:
                mon.ok(t.bundle is last[1], 'zones and bundles', f'{s.sent_id} is in another bundle than its sibling, via {entry}')
            elif last is not None:
                mon.ok(t.bundle is not last[1], 'zones and bundles', f'{s.sent_id} shares the bundle of {last[0]}, via {entry}')
            last = (bid, t.bundle)
    if sents and docs and len(docs) == 1:
        want = {}
        for s in sents:
            want.update(s.doc_json)
        mon.eq(docs[0].json, want, 'document json', f'via {entry}')


def entry_points(rng, mon, text, n):
    """Yield (entry name, documents) for the same bytes."""
    d = mon.scratch()
    path = os.path.join(d, 'in.conllu')

    def write(opener, name):
        p = os.path.join(d, name)
        with opener(p, 'wt', encoding='utf-8') as f:
            f.write(text)
        return p

    def run(reader):
        docs = reader.read_documents()
        return docs

    def string():
        doc = Document()
        doc.from_conllu_string(text)
        return [doc]

    def filename():
        return [Document(write(open, 'in.conllu'))]

    def load():
        doc = Document()
        doc.load_conllu(write(open, 'in.conllu'))
        return [doc]

    def block():
        doc = Document()
        create_block('read.Conllu', files=write(open, 'in.conllu')).run(doc)
        return [doc]

    yield_all = [
        ('string', string), ('Document(file)', filename), ('load_conllu', load), ('create_block', block),
        ('file handle', lambda: run(Reader(filehandle=io.StringIO(text)))),
        ('gz', lambda: run(Reader(files=write(gzip.open, 'in.conllu.gz')))),
        ('bz2', lambda: run(Reader(files=write(bz2.open, 'in.bz2')))),
        ('xz', lambda: run(Reader(files=[write(lzma.open, 'in.conllu.xz')]))),
        ('one bundle at a time', lambda: run(Reader(files=write(open, 'in.conllu'), bundles_per_doc=1))),
        ('split_docs', lambda: run(Reader(files=write(open, 'in.conllu'), split_docs=True))),
        ('sent_id_filter=.', lambda: run(Reader(files=write(open, 'in.conllu'), sent_id_filter='.'))),
        ('max_docs', lambda: run(Reader(files=write(open, 'in.conllu'), max_docs=1000))),
        ('BOM', lambda: run(Reader(files=write(lambda p, m, encoding: open(p, m, encoding='utf-8-sig'), 'bom.conllu')))),
        ('strict', lambda: run(Reader(files=write(open, 'in.conllu'), strict=True))),
        ('fix_cycles', lambda: run(Reader(files=write(open, 'in.conllu'), fix_cycles=True))),
    ]
    for name, fn in rng.sample(yield_all, n):
        yield name, fn()


def generated(rng, mon, i):
    noid = rng.random() < 0.1
    canonical = rng.random() < 0.5
    sents = gen.gen_doc(rng, hashes=1, zones=rng.random() < 0.4 and not noid, canonical=canonical, p_nosid=rng.choice([0.4, 1.0]) if noid else 0.0,
                        p_notext=0.2)
    gen.add_mwt_feats(rng, sents)
    if not noid:
        sents = add_empty_sentences(rng, sents)
    header = rng.random() < 0.1
    if header:
        add_header(rng, sents)
        mon.event('coreference header')
    text = gen.to_text(sents)
    if rng.random() < 0.1:
        text = '# doc_json_k = {"a": 1, "ž": [2]}\n' + text
    if rng.random() < 0.15:
        # spaces at the end of a line belong to the value of MISC or to the comment
        lines = text.split('\n')
        for k, line in enumerate(lines):
            if rng.random() < 0.3 and (line.split('\t')[-1].count('=') and '\t' in line and not line.endswith(('SpaceAfter=No', 'Empty=Yes')) or re.match('# (text|note|x) *=', line)):
                lines[k] = line + rng.choice([' ', '  ', '\u00a0', '\u3000'])
                mon.event('trailing space')
        text = '\n'.join(lines)
    mon.note(input=text)
    note_states(mon, text)
    want = ref.parse(text)
    for s in want:
        s.other = [c for c in s.other if not c.startswith(' global.Entity')]
    if rng.random() < 0.1:
        # comments followed by no word belong to no sentence
        blocks = text.split('\n\n')
        blocks.insert(rng.randrange(len(blocks)), rng.choice(['# lonely comment', '# newpar', '# text = no words\n# y = 1', '#', '# sent_id = lonely']))
        text = '\n\n'.join(blocks)
        mon.note(input=text)
        mon.event('comments without words')
    for name, docs in entry_points(rng, mon, text, 4):
        if noid and name == 'sent_id_filter=.':
            continue
        mon.note(entry=name)
        if header:
            seen = 0
            for d in docs:
                start, seen = seen, seen + sum(1 for _ in d.trees)
                if seen == start or not any(x.global_entity for x in want[:start + 1]):
                    continue
                mon.eq(d.meta.get('global.Entity'), 'eid-etype-head-other', 'header of the document')
        judge(mon, docs, want, name)


def conll_subclass(rng, mon, i):
    """read.Conll with default and permuted/ignored columns agrees with the plain reader."""
    sents = gen.gen_doc(rng, canonical=True, p_empty=0.0)
    text = gen.to_text(sents)
    want = ref.parse(text)
    mon.note(input=text)
    note_states(mon, text)
    plain = ConllReader(filehandle=io.StringIO(text)).read_documents()
    judge(mon, plain, want, 'read.Conll')
    judge_conll(mon, plain, want, 'read.Conll', ['ord', 'form', 'lemma', 'upos', 'xpos', 'feats', 'head', 'deprel', 'deps', 'misc'])
    # permute all columns but ID, FORM (used for MWT lines) and the last one (misc), with ignored junk columns
    mid = ['lemma', 'upos', 'xpos', 'feats', 'head', 'deprel', 'deps']
    idx = dict(ord=0, form=1, lemma=2, upos=3, xpos=4, feats=5, head=6, deprel=7, deps=8, misc=9)
    rng.shuffle(mid)
    drop = [c for c in mid if c not in ('head',) and rng.random() < 0.2]
    cols = ['ord', 'form'] + [c for c in mid if c not in drop]
    for _ in range(rng.choice([0, 0, 1, 2])):
        cols.insert(rng.randint(2, len(cols)), '_')
    cols.append('misc')
    lines = []
    for line in text.split('\n'):
        if line == '' or line[0] == '#':
            lines.append(line)
        else:
            f = line.split('\t')
            lines.append('\t'.join('junk%d' % j if c == '_' else f[idx[c]] for j, c in enumerate(cols)))
    permuted = '\n'.join(lines)
    mon.note(permuted=permuted, attributes=','.join(cols))
    docs = ConllReader(filehandle=io.StringIO(permuted), attributes=','.join(cols)).read_documents()
    judge_conll(mon, docs, want, 'read.Conll attributes', cols)


def judge_conll(mon, docs, sents, entry, cols):
    mon.event('entry.read.Conll')
    trees = [t for d in docs for t in d.trees]
    mon.eq(len(trees), len(sents), 'sentence count', f'via {entry}')
    pos = dict(ord=0, form=1, lemma=2, upos=3, xpos=4, feats=5, head=6, deprel=7, deps=8, misc=9)
    for t, s in zip(trees, sents):
        if len(s.words) == 1 and s.words[0][9] == 'Empty=Yes':
            continue
        mw = {x for a, b, _, _ in s.mwts for x in range(a, b + 1)}
        nodes = list(t.descendants)
        bad = malformed(t)
        mon.ok(bad is None, 'well-formed tree', lambda: f'{bad} via {entry}')
        mon.eq(len(nodes), len(s.words), 'words', f'via {entry}')
        for n, w in zip(nodes, s.words):
            for c in cols:
                if c == '_':
                    continue
                v = w[pos[c]]
                if c == 'ord':
                    got, want = n.ord, int(v)
                elif c == 'head':
                    got, want = n.parent.ord, int(v)
                elif c == 'deps':
                    got, want = n.raw_deps, v
                elif c == 'feats':
                    got, want = dict(n.feats), ref.kv(v)
                elif c == 'misc':
                    got, want = dict(n.misc), ref.kv(v)
                    if n.ord in mw:
                        want.pop('SpaceAfter', None)
                else:
                    got, want = getattr(n, c), (v if c in ('form', 'lemma') else none(v))
                mon.eq(got, want, 'words', f'{c} via {entry}')
            if 'lemma' not in cols:
                mon.eq(n.lemma, None, 'ignored columns stay unset')
        mon.eq([(m.ord_range, m.form, dict(m.misc)) for m in t.multiword_tokens],
               [(f'{a}-{b}', f, ref.kv(x)) for a, b, f, x in s.mwts], 'multi-word tokens', f'via {entry}')
        mon.eq((t.sent_id, t.text, t.newdoc, t.newpar, t.json), (s.sent_id, s.text, s.newdoc, s.newpar, s.json), 'comments', f'via {entry}')


def real(rng, mon, i):
    name, blocks = corpus()[i % len(corpus())]
    k = rng.randint(1, 8)
    lo = rng.randrange(max(1, len(blocks) - k))
    text = '\n\n'.join(blocks[lo:lo + k]) + '\n\n'
    mon.note(corpus=name, input=text)
    note_states(mon, text)
    want = ref.parse(text)
    noid = any(s.sent_id is None for s in want)
    for entry, docs in entry_points(rng, mon, text, 3):
        if noid and entry == 'sent_id_filter=.':
            continue
        judge(mon, docs, want, entry)


WORKLOADS = [Workload('generated', generated, 4300, 30000), Workload('conll', conll_subclass, 1800, 10800),
             Workload('real', real, 200, 1500)]
