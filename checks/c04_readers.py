"""C04: readers deliver every input sentence exactly once and in order."""
import bz2
import gzip
import io
import json
import lzma
import os
import re
import sys

from lib import gen
from lib.vf import Workload, captured
from udapi.core.basewriter import BaseWriter   # noqa: F401  (imports the block machinery)
from udapi.core.block import Block
from udapi.core.document import Document
from udapi.core.run import Run, create_block
from udapi.block.read.ccv import Ccv
from udapi.block.read.conll import Conll as ConllReader
from udapi.block.read.conllu import Conllu as Reader
from udapi.block.read.sentences import Sentences

ID = 'C04'
RULE = 'distinct (files layout, reader options) configurations; every delivered tree is matched to its input sentence by a unique tag'
NEEDS = ['oracle.exactly once in order', 'oracle.file starts a document', 'oracle.chunk size', 'oracle.document marks',
         'oracle.sentence-ID filter', 'oracle.max_docs', 'oracle.zone override', 'oracle.same bundle', 'events.opt.merge',
         'events.opt.bundles_per_doc', 'events.opt.split_docs', 'events.readers in parallel', 'events.ext.gz', 'events.ext.xz', 'oracle.verses', 'oracle.verses exactly once in order']
ASSUMPTIONS = ['sentence IDs are unique apart from neighbouring trees of one bundle',
               'a file without any selected sentence may produce an empty document or none']


class S:
    """One input sentence: tag (unique), bundle id, zone, newdoc flag."""

    def __init__(self, tag, sid, zone, newdoc, file):
        self.tag, self.sid, self.zone, self.newdoc, self.file = tag, sid, zone, newdoc, file

    def full_id(self):
        return None if self.sid is None else self.sid + ('/' + self.zone if self.zone else '')

    def text(self):
        out = ''
        if self.newdoc:
            out += '# newdoc' + ('' if self.newdoc is True else f' id = {self.newdoc}') + '\n'
        if self.sid is not None:
            out += f'# sent_id = {self.full_id()}\n'
        return out + f'1\t{self.tag}\t_\t_\t_\t_\t0\troot\t_\t_\n'


def make_files(rng, mon, zones, ids, nfiles=None, p_newdoc=0.25):
    """Return (paths, list of S per file); layout of blank lines and compression vary."""
    d = mon.scratch()
    nfiles = nfiles or rng.choice([1, 1, 2, 3, 4])
    paths, files, k = [], [], 0
    p_newdoc = rng.choice([0.0, p_newdoc, 0.5])
    for f in range(nfiles):
        sents = []
        nb = rng.choice([0, 1, 2, 3, 4, 6, 9]) if rng.random() < 0.9 else 0
        for b in range(nb):
            sid = None
            if ids == 'all' or (ids == 'some' and rng.random() < 0.6):
                sid = f'{rng.choice("abc")}{f}-{b}'
            zs = ['']
            if zones and sid is not None:
                zs = rng.sample(['', 'en', 'cs', 'de', 'en_x'], rng.randint(1, 3))
            for j, z in enumerate(zs):
                nd = False
                if j == 0 and rng.random() < p_newdoc:
                    nd = rng.choice([True, f'doc{k}'])
                sents.append(S(f't{k}', sid, z, nd, f))
                k += 1
                if ids == 'some' and len(zs) > 1 and rng.random() < 0.2:    # the ID is missing in between
                    sents.append(S(f't{k}', None, '', False, f))
                    k += 1
        sep = rng.choice(['\n', '\n', '\n', '\n\n'])
        text = ''.join(s.text() + sep for s in sents)
        if sents and rng.random() < 0.15:
            text = text.rstrip('\n') + rng.choice(['\n', ''])
        if rng.random() < 0.05:
            text = '\n' + text
        ext = rng.choice(['conllu', 'conllu', 'conllu', 'gz', 'bz2', 'xz', 'txt'])
        op = dict(gz=gzip.open, bz2=bz2.open, xz=lzma.open).get(ext, open)
        path = os.path.join(d, f'f{f}.{ext}')
        mon.event('ext.' + ext)
        with op(path, 'wt', encoding='utf-8') as fh:
            fh.write(text)
        paths.append(path)
        files.append(sents)
    return d, paths, files


def files_param(rng, d, paths, mon):
    how = rng.choice(['list', 'list', 'comma', 'space', 'glob', 'filelist'])
    if how == 'list':
        return paths
    if how == 'comma':
        return ','.join(paths)
    if how == 'space':
        return ' '.join(paths)
    if how == 'glob':
        mon.event('files by pattern')
        return '!' + d + '/f*.*'
    fl = os.path.join(d, 'my.filelist')
    with open(fl, 'w', encoding='utf-8') as f:
        f.write('\n'.join(paths) + '\n')
    mon.event('files by filelist')
    return '@' + fl


def tag(root):
    return root.descendants[0].form


def expected_docs(files, keep, K, split, merge, max_docs):
    """The documents (lists of bundles, a bundle is a list of sentences) by definition."""
    runs = []
    for sents in files:
        sel = []
        pending = None
        for s in sents:
            if keep(s):
                nd = s.newdoc or pending
                sel.append((s, nd))
                pending = None
            elif s.newdoc:
                pending = s.newdoc
        if merge and runs:
            runs[-1] += sel
        else:
            runs.append(sel)
    docs, counted = [], 0
    for sel in runs:
        if not sel:
            continue
        cur = None
        for s, nd in sel:
            same = cur and s.sid is not None and cur[-1][-1][0].sid == s.sid and cur[-1][-1][0].file == s.file
            new_doc = cur is None or (split and nd and not same) or (K and not same and len(cur) == K)
            if (new_doc or nd) and max_docs and counted >= max_docs:
                return docs
            if new_doc or nd:
                counted += 1
            if new_doc:
                cur = [[(s, nd)]]
                docs.append(cur)
            elif same:
                cur[-1].append((s, nd))
            else:
                cur.append([(s, nd)])
    return docs


def judge(mon, docs, want, files, K, split, merge, zone, ignore, detail):
    got = [d for d in docs if d.bundles]
    empty = len(docs) - len(got)
    flat = {tag(t) for d in got for t in d.trees}
    mon.ok(empty <= sum(1 for f in files if not any(s.tag in flat for s in f)), 'empty documents', lambda: (empty, detail))
    flat_got = [tag(t) for d in got for t in d.trees]
    flat_want = [s.tag for d in want for b in d for s, _ in b]
    mon.eq(flat_got, flat_want, 'exactly once in order', detail)
    mon.event('sentences delivered', len(flat_got))
    mon.eq([[tag(t) for t in d.trees] for d in got], [[s.tag for b in d for s, _ in b] for d in want], 'document boundaries', detail)
    by_tag = {s.tag: s for f in files for s in f}
    for d in got:
        fs = [by_tag[tag(t)].file for t in d.trees]
        if not merge:
            mon.eq(len(set(fs)), 1, 'file starts a document', detail)
        if K:
            mon.ok(len(d.bundles) <= K, 'chunk size', detail)
        if split:
            mon.ok(not any(t.newdoc for b in d.bundles[1:] for t in b), 'document marks', detail)
    for d, w in zip(got, want):
        if not ignore:
            mon.eq([[tag(t) for t in b] for b in d.bundles], [[s.tag for s, _ in b] for b in w], 'same bundle', detail)
        mon.eq([b.number for b in d.bundles], list(range(1, len(d.bundles) + 1)), 'bundle numbers', detail)
        mon.ok(all(t.bundle is b and t.document is d and b.document is d for b in d.bundles for t in b), 'tree belongs to its document')
        for t, (s, nd) in zip(d.trees, [x for b in w for x in b]):
            mon.eq(t.zone, s.zone if zone == 'keep' else zone, 'zone override' if zone != 'keep' else 'zone kept', detail)
            mon.eq(t.newdoc or False, nd or False, 'newdoc mark kept', detail)
            if s.sid is not None and not ignore:
                mon.eq(t.bundle.bundle_id, s.sid, 'bundle ID', detail)
                mon.eq(t.sent_id, s.sid + ('/' + t.zone if t.zone else ''), 'sentence ID', detail)
        if not merge and w:
            name = w[0][0][1]
            mon.eq(d.meta.get('docname'), name if name and name is not True else None, 'document name', detail)
        fresh = [b.bundle_id for b, x in zip(d.bundles, w) if x[0][0].sid is None or ignore]
        known = [b.bundle_id for b, x in zip(d.bundles, w) if not (x[0][0].sid is None or ignore)]
        mon.ok(len(set(fresh)) == len(fresh) and not set(fresh) & set(known) and all(x.isdecimal() for x in fresh), 'fresh IDs', lambda: (fresh, detail))
        if ignore:
            mon.eq([(len(b.trees), b.bundle_id, b.trees[0].sent_id) for b in d.bundles],
                   [(1, str(k), str(k) + ('/' + b.trees[0].zone if b.trees[0].zone else '')) for k, b in enumerate(d.bundles, 1)], 'ignored IDs', detail)


def options(rng, mon, zones, ids):
    o = {}
    if rng.random() < 0.5:
        o['bundles_per_doc'] = rng.choice([1, 2, 3, 5])
    if rng.random() < 0.4:
        o['split_docs'] = True
    if rng.random() < 0.3:
        o['merge'] = True
    if rng.random() < 0.3:
        o['max_docs'] = rng.choice([1, 2, 3, 50])
    if rng.random() < 0.25 and ids == 'all':
        o['sent_id_filter'] = rng.choice(['a', '[ab]', '.*-[02468]', 'b0-|c', 'zzz', '.'] + ['.*/en', '[^/]*$', '.*/(cs|_ref)$', '.*[02468](/..)?$'] * zones)
    if not zones and rng.random() < 0.25:
        o['zone'] = rng.choice(['en', 'cs_x', ''])
    if not zones and rng.random() < 0.15 and 'sent_id_filter' not in o:
        o['ignore_sent_id'] = True
    for k in o:
        mon.event('opt.' + k)
    return o


def selector(o):
    if 'sent_id_filter' not in o:
        return lambda s: True
    r = re.compile(o['sent_id_filter'])
    return lambda s: r.match(s.full_id()) is not None


def one_reader(rng, mon, i):
    zones = rng.random() < 0.4
    ids = rng.choice(['all', 'all', 'all', 'some', 'none'])
    d, paths, files = make_files(rng, mon, zones, ids)
    o = options(rng, mon, zones, ids)
    if o.get('merge') and zones:
        o.pop('merge')
    cls = rng.choice([Reader, Reader, ConllReader])
    fp = files_param(rng, d, paths, mon)
    layout = [[(s.tag, s.full_id(), s.newdoc) for s in f] for f in files]
    mon.note(files=layout, options=o, reader=cls.__name__)
    mon.state('configurations', repr((layout, sorted(o.items()), cls.__name__)))
    if len(paths) == 1 and rng.random() < 0.5:
        op = dict(gz=gzip.open, bz2=bz2.open, xz=lzma.open).get(paths[0].split('.')[-1], open)
        with op(paths[0], 'rt', encoding='utf-8') as fh:
            docs = cls(filehandle=fh, **o).read_documents()
        mon.event('filehandle')
    else:
        docs = cls(files=fp, **o).read_documents()
    mon.event('documents', len(docs))
    if o.get('ignore_sent_id'):     # every tree gets its own bundle
        for f in files:
            for s in f:
                s.sid = None
    want = expected_docs(files, selector(o), o.get('bundles_per_doc'), o.get('split_docs'), o.get('merge'), o.get('max_docs'))
    judge(mon, docs, want, files, o.get('bundles_per_doc'), o.get('split_docs'), o.get('merge'), o.get('zone', 'keep'),
          o.get('ignore_sent_id'), (layout, o))
    if 'sent_id_filter' in o:
        mon.ok(True, 'sentence-ID filter')
    if 'max_docs' in o:
        # the same without the limit must start with the same sentences
        o2 = {k: v for k, v in o.items() if k != 'max_docs'}
        full = [tag(t) for x in cls(files=fp, **o2).read_documents() for t in x.trees]
        part = [tag(t) for x in docs for t in x.trees]
        mon.eq(part, full[:len(part)], 'max_docs', (layout, o))
        mon.ok(all(x.bundles for x in docs) or any(not [s for s in f if selector(o)(s)] for f in files), 'no extra empty document', (layout, o))


class Probe(Block):
    def __init__(self, log, **kw):
        super().__init__(**kw)
        self.log = log

    def process_document(self, document):
        self.log.append([[tag(t) for t in b] for b in document.bundles])


def parallel(rng, mon, i):
    """Several readers in one scenario fill the zones of the same bundles, until all are exhausted."""
    mon.event('readers in parallel')
    K = rng.choice([0, 0, 1, 2, 3])
    nf = rng.randint(1, 3)
    sizes = [rng.randint(1, 5) for _ in range(nf)]
    d = mon.scratch()
    readers = []
    for r, z in enumerate(['en', 'cs', 'de'][:rng.choice([2, 2, 3])]):
        paths = []
        kind = rng.choice(['conllu', 'conllu', 'sentences'])
        for f, n in enumerate(sizes):
            p = os.path.join(d, f'{z}{f}.x')
            with open(p, 'w', encoding='utf-8') as fh:
                for b in range(n):
                    if kind == 'conllu':
                        fh.write(S(f'{z}{f}-{b}', f's{f}-{b}' if r == 0 or rng.random() < 0.5 else None, '', False, f).text() + '\n')
                    else:
                        fh.write(f'{z}{f}-{b}\n')
            paths.append(p)
        cls = Reader if kind == 'conllu' else Sentences
        readers.append((z, kind, cls(files=paths, zone=z, bundles_per_doc=K)))
    log = []

    class P2(Block):
        def process_document(self, document):
            log.append([[(t.zone, tag(t) if t.descendants else t.text) for t in b] for b in document.bundles])

    blocks = [(k, r, '') for z, k, r in readers] + [('p', P2(), '')]
    mon.note(sizes=sizes, K=K, readers=[(z, k) for z, k, _ in readers])
    mon.state('configurations', repr((sizes, K, [(z, k) for z, k, _ in readers])))

    class A:
        scenario = ['x']
    Run(A()).run_blocks(blocks)
    want = []
    for f, n in enumerate(sizes):
        k = K or n
        for lo in range(0, n, k):
            want.append([[(z, f'{z}{f}-{b}') for z, _, _ in readers] for b in range(lo, min(n, lo + k))])
    if K and log[-1] == [] and any(k == 'sentences' for _, k, _ in readers):
        log.pop()     # plain-text readers find out only then that nothing follows a full chunk
    mon.eq(log, want, 'parallel readers', lambda: (sizes, K, [(z, k) for z, k, _ in readers]))


def sentences(rng, mon, i):
    """read.Sentences: the same promises for plain text."""
    d = mon.scratch()
    K = rng.choice([0, 1, 2, 3])
    merge = rng.random() < 0.3
    ignore_empty = rng.random() < 0.5
    newdocs = not ignore_empty and rng.random() < 0.4
    max_docs = rng.choice([0, 0, 0, 1, 2, 3])
    split = newdocs and (max_docs > 0 or rng.random() < 0.7)   # document marks are counted even if the document is not split there
    if newdocs:
        K = 0
    paths, files = [], []
    for f in range(rng.randint(1, 4)):
        lines = [rng.choice([f'line {f}-{b}', f'line {f}-{b}', '']) for b in range(rng.choice([0, 1, 2, 3, 5, 7]))]
        p = os.path.join(d, f'{f}.txt')
        with open(p, 'w', encoding='utf-8') as fh:
            text = ''.join(x + '\n' for x in lines)
            if lines and lines[-1] and rng.random() < 0.3:
                text = text[:-1]
            fh.write(text)
        paths.append(p)
        if newdocs:
            files.append([p.split('|') for p in re.split(r'(?:^|\|)\|*(?:\||$)', '|'.join(lines)) if p])
        else:
            files.append([x for x in lines if x or not ignore_empty])
    opts = dict(bundles_per_doc=K, merge=merge, ignore_empty_lines=ignore_empty, newdoc_if_empty_line=newdocs, split_docs=split, max_docs=max_docs)
    mon.note(files=files, options=opts)
    mon.state('configurations', repr((files, opts)))
    docs = [[t.text for t in doc.trees] for doc in Sentences(files=paths, **opts).read_documents()]
    docs = [x for x in docs if x]
    if newdocs:
        mon.event('empty lines as document marks')
        if split:
            runs = [part for f in files for part in f]
        else:
            runs = [sum(f, []) for f in files if f]
            runs = [sum(runs, [])] if merge else runs
        runs = [r for r in runs if r]
    else:
        runs = [sum(files, [])] if merge else [f for f in files if f]
    want = []
    for run in runs:
        k = K or len(run) or 1
        want += [run[lo:lo + k] for lo in range(0, len(run), k)]
    mon.eq(docs, want[:max_docs] if max_docs else want, 'plain-text lines exactly once in order')


def add_sentences(rng, mon, i):
    """read.AddSentences pairs the n-th line with the n-th sentence, over any chunking."""
    n = rng.randint(1, 7)
    K = rng.choice([0, 1, 2, 3])
    d = mon.scratch()
    a, b = os.path.join(d, 'a.conllu'), os.path.join(d, 'b.txt')
    with open(a, 'w', encoding='utf-8') as fh:
        fh.write(''.join(S(f't{k}', f's{k}', '', False, 0).text() + '\n' for k in range(n)))
    with open(b, 'w', encoding='utf-8') as fh:
        fh.write(''.join(f'text t{k}\n' for k in range(n)))
    got = []

    class P2(Block):
        def process_tree(self, tree):
            got.append((tag(tree), tree.text, [x for x in (tree.comment or '').split('\n') if 'en_text' in x]))
    into = rng.choice(['text', 'en_text'])
    blocks = [('r', Reader(files=a, bundles_per_doc=K), ''), ('s', create_block('read.AddSentences', files=b, into=into), ''), ('p', P2(), '')]

    class A:
        scenario = ['x']
    mon.note(n=n, K=K, into=into)
    Run(A()).run_blocks(blocks)
    want = [(f't{k}', f'text t{k}', []) if into == 'text' else (f't{k}', None, [f' en_text = text t{k}']) for k in range(n)]
    mon.eq(got, want, 'added sentences')


def verses(rng, mon, i):
    """read.Ccv: poems in JSON; every verse is a tree, poems start documents, stanzas start paragraphs."""
    d, paths, files, facts, n = mon.scratch(), [], [], {}, 0
    tokenize = rng.random() < 0.7
    for f in range(rng.randint(1, 3)):
        poems, sents = [], []
        for p in range(rng.choice([0, 1, 1, 2, 3])):
            meta = {'p_author': {'identity': rng.choice(['A', 'Ž'])}, 'b_author': rng.choice([{}, {'x': 1}]), 'biblio': {'year': str(rng.randint(1800, 1900))}}
            poem, pid = [], f'p{f}-{p}'
            for st in range(rng.choice([1, 1, 2, 3])):
                stanza = []
                for ln in range(rng.choice([1, 2, 4])):
                    n += 1
                    words = [dict(token=t, lemma=t.lower(), morph=rng.choice(['NN', 'V']), xsampa='x' + t, phoebe='f') for t in [f'v{n}'] + rng.choices(['Žena', 'na', 'má', 'ó'], k=rng.randint(0, 4))]
                    punct, want, text = {}, [], ''
                    for k in range(len(words) + 1):
                        if k:
                            w = words[k - 1]
                            text += ('' if not want or text.endswith(('„', '-')) else ' ') + w['token']
                            want.append((w['token'], w['lemma'], w['morph'], w['xsampa'], w['phoebe']))
                        marks = rng.choice([[], [], [','], ['!', '“'], ['-']] if k else [[], [], ['„'], ['-']])
                        if marks or rng.random() < 0.1:
                            punct[str(k)] = marks
                        for m in marks:
                            text += m
                            want.append((m, m, None, '', ''))
                    line = dict(text=text, rhyme=rng.choice([None, 1, 2]), metre=rng.choice([[], ['J']]), stress=rng.choice(['0101', '']), words=words, punct=punct)
                    stanza.append(line)
                    s = S(f'v{n}', None, '', pid if not st and not ln else None, f)
                    facts[text] = (s, line, want, ln == 0, meta if not st and not ln else {})
                    s.tag = text
                    sents.append(s)
                poem.append(stanza)
            poems.append(dict(poem_id=pid, body=poem, **meta))
        paths.append(os.path.join(d, f'{f}.json'))
        with open(paths[-1], 'w', encoding='utf-8') as fh:
            json.dump(poems, fh, ensure_ascii=rng.random() < 0.5)
        files.append(sents)
    K, merge, split, max_docs = rng.choice([0, 0, 1, 2, 3]), rng.random() < 0.3, rng.random() < 0.4, rng.choice([0, 0, 0, 1, 2])
    if split or max_docs:
        K = 0
    opts = dict(bundles_per_doc=K, merge=merge, split_docs=split, max_docs=max_docs if split else 0)
    mon.note(files=[[s.tag for s in x] for x in files], options=opts, tokenize=tokenize)
    docs = Ccv(files=paths, tokenize=tokenize, **opts).read_documents()
    got = [[t for b in doc.bundles for t in b.trees] for doc in docs]
    want = expected_docs(files, lambda s: True, K, split, merge, opts['max_docs'])
    mon.eq([[t.text for t in x] for x in got if x], [[s.tag for b in x for s, _ in b] for x in want], 'verses exactly once in order')
    for t in (t for x in got for t in x):
        s, line, words, newpar, meta = facts[t.text]
        mon.eq((t.newdoc, bool(t.newpar)), (s.newdoc, newpar), 'verses')
        mon.eq({k: v for k, v in t.json.items()}, {'rhyme': line['rhyme'], 'metre': line['metre'], 'stress': line['stress'], **meta}, 'verses')
        mon.eq([(x.form, x.lemma, x.xpos, x.misc['xsampa'], x.misc['phoebe']) for x in t.descendants], words if tokenize else [], 'verses', 'words')
        if tokenize:
            mon.eq(t.compute_text(), t.text, 'verses', 'SpaceAfter')
    mon.state('verses', repr((opts, [len(x) for x in files], n)))


WORKLOADS = [Workload('one reader', one_reader, 8500, 60000), Workload('parallel', parallel, 850, 6000),
             Workload('sentences', sentences, 1400, 8400), Workload('add_sentences', add_sentences, 400, 2400),
             Workload('verses', verses, 700, 4000)]
