"""C22: tokenization, segmentation and plain-text I/O conserve the text."""
import io
import os
import re

from lib import gen, refconllu as ref
from lib.treelib import attrs_of, malformed
from lib.vf import Logs, Workload, captured
from udapi.block.read.addsentences import AddSentences
from udapi.block.read.addtext import AddText
from udapi.block.read.conllu import Conllu
from udapi.block.read.sentences import Sentences
from udapi.block.read.text import Text
from udapi.block.segment.simple import Simple as Segmenter
from udapi.block.tokenize.onwhitespace import OnWhitespace
from udapi.block.tokenize.simple import Simple
from udapi.block.ud.goeswithfromtext import GoeswithFromText
from udapi.block.ud.splitunderscoretokens import SplitUnderscoreTokens
from udapi.core.block import Block
from udapi.core.document import Document
from udapi.core.run import Run, create_block

ID = 'C22'
RULE = 'distinct (text, reader/segmenter/tokenizer/writer, options) cases in which the text was compared with what the trees, words and printed lines say'
NEEDS = ['oracle.lines read', 'oracle.document boundaries', 'oracle.paragraphs read', 'oracle.lines written', 'oracle.added sentences', 'oracle.added text', 'oracle.added paragraphs',
         'oracle.tokens', 'oracle.spacing', 'oracle.original spaces', 'oracle.new words', 'oracle.segments', 'oracle.boundaries', 'oracle.bundles', 'oracle.pipeline',
         'oracle.goeswith', 'oracle.underscores', 'oracle.refused', 'events.reader.Sentences', 'events.reader.Text', 'events.chunked', 'events.several files', 'events.empty lines',
         'events.empty file', 'events.newdoc', 'events.no final newline', 'events.CRLF', 'events.gzip', 'events.boundary', 'events.no boundary', 'events.abbreviation', 'events.several spaces',
         'events.tokenizer.Simple', 'events.tokenizer.OnWhitespace', 'events.tokenizer.custom', 'events.text does not match', 'events.more zones', 'events.split word', 'events.MWT']
ASSUMPTIONS = ['whitespace is what str.isspace() says; words of the default tokenizer are runs of str.isalnum() characters or underscores']

WORDS = ['Dog', 'the', 'A.', 'e.g.', 'např.', 'Ž', 'ž.', '3', '3.5', 'U.S.', 'end.', 'end!', 'what?"', '„A.', '(Foo', '"Bar', 'bar)', 'x.)', 'É', 'ŽLUŤ', '日本。', 'don\'t', 'a_b', '—', '...', '?!',
         'e\u0301x', 'I', '«Foo', 'foo.»', 'B.', '"', ')', '."', 'Mr.', '１２', '٣', '²', '½', '𝒳y', '\u200bz', 'ǅ.', 'ǅx', 'A\u0301.', '¿Foo', "'Tis", 'end.\'', 'É.', '–A.', '.', 'X)', 'e.g', '(e.g.', '"X."']
SPACES = [' '] * 12 + ['  ', '\u00a0', '\u3000', '\t', ' \u2003', '   ']


def sentence(rng, plain=False, lo=0):
    n = rng.choice([lo, 1, 1, 2, 3, 5, 8, 12])
    return ''.join(rng.choice(WORDS) + (' ' if plain else rng.choice(SPACES)) for _ in range(max(n, lo))).rstrip(' ' if plain else None)


class Collect(Block):
    def __init__(self):
        super().__init__()
        self.docs = []

    def process_document(self, document):
        self.docs.append(document)


class Comment(Block):
    def process_tree(self, tree):
        tree.add_comment('added = by a block ')


class Args:
    scenario = ['x']


def pipeline(*blocks):
    c = Collect()
    Run(Args()).run_blocks([('x', b, '') for b in blocks] + [('c', c, '')])
    return [d for d in c.docs if d.bundles]


def save(rng, mon, d, name, text):
    """Store a text file, possibly compressed and with other line ends; the last newline may be missing."""
    if text.endswith('\n') and not text.endswith('\n\n') and len(text) > 1 and rng.random() < 0.2:
        text = text[:-1]
        mon.event('no final newline')
    data = text
    if rng.random() < 0.15:
        data = data.replace('\n', '\r\n')
        mon.event('CRLF')
    raw = data.encode('utf-8')
    if rng.random() < 0.1:
        raw = b'\xef\xbb\xbf' + raw
    p = os.path.join(d, name)
    if rng.random() < 0.1:
        import gzip
        p += '.gz'
        raw = gzip.compress(raw)
        mon.event('gzip')
    with open(p, 'wb') as f:
        f.write(raw)
    return p


def read_lines(rng, mon, i):
    """read.Sentences and read.Text: the documents and texts a set of files stands for."""
    d = mon.scratch()
    reader = rng.choice(['Sentences', 'Sentences', 'Text'])
    mon.event('reader.' + reader)
    nfiles = rng.choice([1, 1, 2, 3])
    mon.event('several files', nfiles > 1)
    kw, opts = {}, rng.choice(['', '', 'ignore', 'newdoc', 'newdoc']) if reader == 'Sentences' else ''
    if opts == 'ignore':
        kw['ignore_empty_lines'] = True
    elif opts == 'newdoc':
        kw['newdoc_if_empty_line'] = True
    K = rng.choice([0, 0, 1, 2, 3])
    if K:
        kw['bundles_per_doc'] = K
        mon.event('chunked')
    if rng.random() < 0.3:
        kw['merge'] = True
    if rng.random() < 0.3:
        kw['rstrip'] = rng.choice(['\n', '\r\n', '\r\n ', '\n \t\u00a0', ''] if reader == 'Sentences' else ['\n', '\r\n', '\r\n ', '\n \t\u00a0'])
    split = opts == 'newdoc' and rng.random() < 0.4
    if split:
        kw['split_docs'] = True
        K = kw.pop('bundles_per_doc', 0) and 0
    if rng.random() < 0.3:
        kw['zone'] = rng.choice(['en', ''])
    rs = kw.get('rstrip', '\r\n ')
    paths, want = [], []          # want: per file a list of (text, newdoc, file start)
    for f in range(nfiles):
        lines = [rng.choice([''] * 6 + [' ', '\u00a0', '\t ']) + sentence(rng) + rng.choice(['', '', '', ' ', '  ', '\t']) if rng.random() < 0.75 else '' for _ in range(rng.choice([0, 1, 2, 4, 7]))]
        mon.event('empty lines', lines.count(''))
        mon.event('empty file', not lines)
        text = ''.join(x + '\n' for x in lines)
        p = save(rng, mon, d, f'{f}.txt', text)
        paths.append(p)
        import gzip
        with (gzip.open if p.endswith('.gz') else open)(p, 'rb') as fh:
            raw = fh.read().decode('utf-8').lstrip('\ufeff').replace('\r\n', '\n')
        items, pending = [], True
        ls = raw.split('\n')
        full = [x + '\n' for x in ls[:-1]] + ([ls[-1]] if ls[-1] else [])
        if reader == 'Text':
            para = []
            for x in full + ['\n']:
                if x == '\n':
                    if para:
                        items.append((' '.join(y.rstrip(rs) for y in para), None))
                    para = []
                else:
                    para.append(x)
        else:
            for x in full:
                if x == '\n' and opts:
                    pending = True
                    continue
                items.append((x.rstrip(rs) if rs else x, True if opts == 'newdoc' and pending else None))
                pending = False
        want.append(items)
    mon.note(files=want, options=kw, paths=paths)
    docs = pipeline(dict(Sentences=Sentences, Text=Text)[reader](files=list(paths), **kw))
    got = [[(t.text, t.newdoc) for t in doc.trees] for doc in docs]
    runs = [sum(want, [])] if kw.get('merge') else [w for w in want if w]
    exp = []
    for run in runs:
        if split:
            for x in run:
                if x[1] or not exp or x is run[0]:
                    exp.append([])
                exp[-1].append(x)
        else:
            k = K or len(run) or 1
            exp += [run[lo:lo + k] for lo in range(0, len(run), k)]
    mon.eq([[x[0] for x in d] for d in got], [[x[0] for x in d] for d in exp], 'lines read')
    mon.eq([[x[1] for x in d] for d in got], [[x[1] for x in d] for d in exp], 'document boundaries')
    mon.event('newdoc', sum(bool(x[1]) for d in exp for x in d))
    if reader == 'Text':
        mon.eq(got, exp, 'paragraphs read')
    for doc in docs:
        mon.eq([b.number for b in doc.bundles], list(range(1, len(doc.bundles) + 1)), 'bundles')
        for t in doc.trees:
            mon.ok(not t.children and not t.descendants and (t.zone == kw.get('zone', '')), 'lines read', 'a tree without words')
    mon.state('read', repr((exp, sorted(kw.items(), key=str))))


def write_lines(rng, mon, i):
    """write.Sentences prints the text of each tree on its own line; read.Sentences gets the same back."""
    zones = rng.choice([[''], [''], ['en', 'cs']])
    mon.event('more zones', len(zones) > 1)
    doc = Document()
    doc.from_conllu_string(''.join(gen.gen_sent(rng, sid=f's{k}', zone=z, max_n=5, p_newdoc=0.3 if z == zones[0] else 0).conllu() for k in range(rng.choice([1, 2, 4])) for z in zones))
    for t in doc.trees:
        c = rng.random()
        t.text = sentence(rng, lo=1) if c < 0.4 else None if c < 0.6 else t.compute_text()
        t.newpar = rng.random() < 0.3 or None
    miss = rng.choice(['detokenize', 'empty', 'warn_detokenize', 'warn_empty', 'fatal'])
    kw = {}
    if miss != 'detokenize' or rng.random() < 0.5:
        kw['if_missing'] = miss
    for k in ('newdoc', 'newpar'):
        if rng.random() < 0.5:
            kw[k] = 1
    mon.note(input=doc.to_conllu_string(), options=kw)
    want, missing = '', 0
    for k, b in enumerate(doc.bundles):
        for t in b:
            for n in ('newdoc', 'newpar'):
                if kw.get(n) and getattr(t, n) and k:
                    want += '\n'
            if t.text is not None:
                want += t.text + '\n'
            else:
                missing += 1
                if miss.endswith('detokenize'):
                    out, words = '', list(t.descendants)
                    for w in words:
                        m = w.multiword_token
                        if m is None or m.words[0] is w:
                            out += (m or w).form + ('' if (m or w).misc['SpaceAfter'] == 'No' else ' ')
                    want += out.rstrip()
                want += '\n'
    with captured() as buf, Logs() as logs:
        block = create_block('write.Sentences', **kw)
        if miss == 'fatal' and missing:
            mon.raises(lambda: block.run(doc), 'refused', RuntimeError)
            return
        block.run(doc)
    mon.eq(buf.getvalue(), want, 'lines written')
    mon.eq(len(logs.messages()) > 0, miss.startswith('warn') and missing > 0, 'lines written', 'warnings')
    lines = [t.text for t in doc.trees]
    if not kw.get('newdoc') and not kw.get('newpar') and all(x is not None and x.strip() == x and not re.search('[\r\n]', x) for x in lines):
        p = os.path.join(mon.scratch(), 'x.txt')
        with open(p, 'w', encoding='utf-8') as f:
            f.write(buf.getvalue())
        back = [t.text for d in pipeline(Sentences(files=p)) for t in d.trees]
        mon.eq(back, lines, 'pipeline', 'write and read sentences')
    mon.state('write', repr((want, kw)))


def numbered(n):
    return ''.join(f'# sent_id = s{k}\n1\tw{k}\t_\t_\t_\t_\t0\troot\t_\t_\n\n' for k in range(n))


def add_sentences(rng, mon, i):
    """The n-th line goes to the n-th sentence, however the sentences and lines are distributed to files and documents."""
    d = mon.scratch()
    n = rng.randint(1, 8)
    lines = [sentence(rng) if rng.random() < 0.9 else '' for _ in range(n)]

    def cut(parts):
        at = sorted(rng.sample(range(1, n), min(parts - 1, n - 1)))
        return list(zip([0] + at, at + [n]))
    trees, texts = cut(rng.choice([1, 1, 2, 3])), cut(rng.choice([1, 2, 3]))
    extra = rng.choice([0, 0, 0, 1, 3])
    inputs = []
    head = rng.choice(['', '', '# en = old\n', '# note\n# english_text = old\n', '# texture = 1\n'])      # sentences may have comments already
    for k, (a, b) in enumerate(trees):
        p = os.path.join(d, f'{k}.conllu')
        with open(p, 'w', encoding='utf-8') as f:
            f.write(''.join(head + numbered(n).split('\n\n')[j] + '\n\n' for j in range(a, b)))
        inputs.append(p)
    files = []
    for k, (a, b) in enumerate(texts):
        p = os.path.join(d, f'{k}.txt')
        with open(p, 'w', encoding='utf-8') as f:
            f.write(''.join(x + '\n' for x in lines[a:b]))
            if k == len(texts) - 1:
                f.write('left over\n' * extra)
        files.append(p)
        for j in range(rng.choice([0, 0, 1, 2]) if k < len(texts) - 1 else 0):       # empty files between
            files.append(os.path.join(d, f'{k}.{j}.txt'))
            open(files[-1], 'w').close()
            mon.event('empty file')
    mon.event('several files', len(files) > 1)
    kw = rng.choice([{}, dict(bundles_per_doc=rng.randint(1, 3)), dict(merge=True)])
    into = rng.choice(['text', 'en', 'english_text'])
    mon.note(lines=lines, trees=trees, texts=texts, options=kw, into=into)
    few = rng.random() < 0.15
    if few:       # not enough lines
        with open(files[-1], encoding='utf-8') as f:
            less = f.read().split('\n')[:texts[-1][1] - texts[-1][0] - 1]
        with open(files[-1], 'w', encoding='utf-8') as f:
            f.write(''.join(x + '\n' for x in less))
        if len(files) > 1 and not less:
            files.pop()
        mon.raises(lambda: pipeline(Conllu(files=inputs, **kw), AddSentences(files=files, into=into)), 'refused', IOError)
        return
    earlier = [Comment()] if rng.random() < 0.3 else []
    docs = pipeline(Conllu(files=inputs, **kw), *earlier, AddSentences(files=files, into=into))
    old = [x[1:] for x in head.split('\n')[:-1]] + [' added = by a block '] * len(earlier)
    comments = lambda t: [x for x in t.comment.split('\n') if x and x[0] != '$']
    got = [(t.descendants[0].form, t.text if into == 'text' else None, comments(t)) for doc in docs for t in doc.trees]
    mon.eq(got, [(f'w{k}', x.rstrip() if into == 'text' else None, old + ([f' {into} = {x.rstrip()}'] if into != 'text' else [])) for k, x in enumerate(lines)], 'added sentences')
    # and the stored file says so
    out = ''.join(doc.to_conllu_string() for doc in docs)
    name = 'text' if into == 'text' else into
    mon.eq([c for s in ref.parse(out) for c in s.comments if c.startswith(f'# {name} =') and not c.endswith('= old')], [f'# {name} = {x.rstrip()}' for x in lines] if into != 'text' else [f'# text = {x.rstrip()}' for x in lines],
           'added sentences', 'stored')
    mon.state('add', repr((lines, trees, texts, kw, into)))


def add_text(rng, mon, i):
    """read.AddText: marks and texts of already tokenized sentences are those of the raw text."""
    d = mon.scratch()
    docs, inputs, files, plan = rng.choice([1, 1, 2]), [], [], []
    newpar = rng.random() < 0.7
    mismatch = rng.random() < 0.15
    for k in range(docs):
        conllu = ''.join(gen.gen_sent(rng, sid=f's{j}', max_n=6, p_mwt=0.3, p_newpar=0).conllu() for j in range(rng.choice([1, 2, 4])))
        sents = ref.parse(conllu)
        raw, par, sp, texts = rng.choice(['', '', '\n', '  \n']), [], [], []
        start = True
        for s in sents:
            toks = []
            inside = {j: m for m in s.mwts for j in range(m[0], m[1] + 1)}
            for j, w in enumerate(s.words, 1):
                if j not in inside:
                    toks.append(w[1])
                elif inside[j][0] == j:
                    toks.append(inside[j][2])
            par.append(start)
            line = ''
            for j, x in enumerate(toks):
                raw += x
                last = j == len(toks) - 1
                gap = rng.choice(['', '', ' ', ' ', ' ', '\n', '  ', ' \n', '\u00a0', '\n\n']) if not last else rng.choice(['', ' ', '\n', '\n\n', '\n\n', ' \n\n', '\n\n\n', '\n \n\n'])
                raw += gap
                sp.append(gap == '')
                line += x + (' ' if gap and not last else '')
            start = '\n\n' in gap
            texts.append(line)
        if sp:
            sp[-1] = False
        if not raw.endswith((' ', '\n')) and rng.random() < 0.5:
            raw += '\n'
        if mismatch and k == 0:
            raw = '@@@' + raw
            mon.event('text does not match')
        p = os.path.join(d, f'{k}.conllu')
        with open(p, 'w', encoding='utf-8') as f:
            f.write(conllu)
        inputs.append(p)
        p = os.path.join(d, f'{k}.txt')
        with open(p, 'w', encoding='utf-8') as f:
            f.write(raw)
        files.append(p)
        plan.append((texts, par, sp))
        mon.note(**{f'conllu{k}': conllu, f'text{k}': raw})
    with Logs() as logs:
        got = pipeline(Conllu(files=inputs), AddText(files=files, add_newpar=newpar))
    mon.eq(len(got), docs, 'added text')
    mon.eq(len(logs.messages()) > 0, mismatch, 'added text', 'warnings')
    for k, (doc, (texts, par, sp)) in enumerate(zip(got, plan)):
        if mismatch and k == 0:
            continue
        mon.eq([t.text for t in doc.trees], texts, 'added text')
        mon.eq([t.compute_text() for t in doc.trees], texts, 'added text', 'computed')
        mon.eq([bool(t.newpar) for t in doc.trees], par if newpar else [False] * len(par), 'added paragraphs')
        mon.eq([x.misc['SpaceAfter'] == 'No' for t in doc.trees for x in t.token_descendants], sp, 'spacing')
    mon.state('addtext', repr(plan))


def is_word(c):
    return c.isalnum() or c == '_'


def tokens(text, simple):
    """[(form, whitespace after)] and the whitespace before, character by character."""
    out, before, kind = [], '', None
    for c in text:
        if c.isspace():
            if out:
                out[-1][1] += c
            else:
                before += c
            kind = None
        elif not simple:
            if kind == 'x':
                out[-1][0] += c
            else:
                out.append([c, ''])
            kind = 'x'
        elif is_word(c):
            if kind == 'w':
                out[-1][0] += c
            else:
                out.append([c, ''])
            kind = 'w'
        else:
            out.append([c, ''])
            kind = 'p'
    return out, before


ESC = {' ': '\\s', '\t': '\\t', '\r': '\\r', '\n': '\\n'}


def unescape(s):
    for a, b in ESC.items():
        s = s.replace(b, a)
    return s


class Chars(OnWhitespace):
    """A user-defined tokenizer: pairs of characters."""
    @staticmethod
    def tokenize_sentence(string):
        return [x for t in string.split() for x in re.findall('..?', t, re.S)]


class Lossy(OnWhitespace):
    """A tokenizer which loses text cannot be used."""
    @staticmethod
    def tokenize_sentence(string):
        return [x.upper() for x in string.split()]


def tokenize(rng, mon, i):
    kind = rng.choice(['Simple', 'Simple', 'OnWhitespace', 'OnWhitespace', 'custom'])
    text = sentence(rng) if rng.random() < 0.7 else ''.join(rng.choice(['a', 'B', '.', ',', ' ', ' ', '\t', '\u00a0', '\u2028', '_', '1', '\u0301', '語', '-', '\x1f', '\u200d', '٣', '²', '\r', '\n']) for _ in range(rng.randint(0, 12)))
    if rng.random() < 0.2:
        text = rng.choice([' ', '\t', '  ', '\u00a0 ']) + text
    if rng.random() < 0.3:
        text += rng.choice([' ', '  ', '\t', ' \t '])
    keep = rng.random() < 0.5
    zone = rng.choice(['', 'en'])
    doc = Document()
    t = doc.create_bundle().create_tree(zone)
    t.text = text
    t.comment = ' c = d\n'
    args = dict(keep_spaces=True) if keep else {}
    z = dict(zones=zone or 'all') if rng.random() < 0.3 else {}
    mon.note(text=text, kind=kind, keep=keep)
    mon.event('tokenizer.' + kind)
    if re.search(r'\s\s', text):
        mon.event('several spaces')
    {'Simple': Simple, 'OnWhitespace': OnWhitespace, 'custom': Chars}[kind](**args, **z).apply_on_document(doc)
    if kind == 'custom':
        toks, before = tokens(text, False)
        new = []
        for f, s in toks:
            parts = [f[k:k + 2] for k in range(0, len(f), 2)]
            new += [[p, ''] for p in parts[:-1]] + [[parts[-1], s]]
        toks = new
    else:
        toks, before = tokens(text, kind == 'Simple')
    words = list(t.descendants)
    mon.eq([w.form for w in words], [f for f, _ in toks], 'tokens')
    mon.eq(t.text, text, 'tokens', 'text')
    for k, w in enumerate(words, 1):
        mon.eq((w.ord, w.parent is t, w.lemma, w.upos, w.xpos, str(w.feats), w.deprel, w.multiword_token), (k, True, None, None, None, '_', None, None), 'new words', lambda: w.form)
    mon.eq(malformed(t), None, 'new words')
    no = [w.misc['SpaceAfter'] == 'No' for w in words]
    if not keep:
        mon.eq(no, [s == '' and k < len(toks) for k, (_, s) in enumerate(toks, 1)], 'spacing')
        mon.ok(all(str(w.misc) in ('_', 'SpaceAfter=No') for w in words), 'spacing', 'no other marks')
    else:
        mon.eq(no, [s == '' for _, s in toks], 'spacing')
        back = unescape(words[0].misc['SpacesBefore']) if words else ''
        for w in words:
            s = w.misc['SpacesAfter']
            mon.ok(not (s and w.misc['SpaceAfter']), 'original spaces', 'both marks')
            back += w.form + (unescape(s) if s else '' if w.misc['SpaceAfter'] == 'No' else ' ')
        if words:
            mon.eq(back, text, 'original spaces')
        for w, (_, s) in zip(words, toks):
            mon.eq(w.misc['SpacesAfter'], '' if s in ('', ' ') else ''.join(ESC.get(c, c) for c in s), 'original spaces')
            mon.ok(not re.search('[ \t\r\n]', w.misc['SpacesAfter'] + w.misc['SpacesBefore']), 'original spaces', 'not escaped')
    mon.eq(t.compute_text().split(), text.split(), 'spacing', 'computed text')
    mon.eq(t.compute_text(), ' '.join(text.split()), 'spacing', 'computed text')
    if words:
        mon.raises(lambda: Simple().apply_on_document(doc), 'refused', ValueError)
        mon.eq([id(x) for x in t.descendants], [id(x) for x in words], 'refused', 'tokenized twice')
    if any(c.upper() != c for c in text):
        doc2 = Document()
        doc2.create_bundle().create_tree(zone).text = text
        mon.raises(lambda: Lossy().apply_on_document(doc2), 'refused', ValueError)
    # The stored file
    if not re.search(r'[\x0b\x0c\x1c-\x1f\x85\u2028\u2029\r\n]', text) and words:
        s = ref.parse(doc.to_conllu_string())[0]
        mon.eq([w[1] for w in s.words], [f for f, _ in toks], 'pipeline', 'stored')
    mon.state('tokenize', repr((text, kind, keep)))


OPENING, CLOSING = '"„«¿¡‹(', '"“»›)'


def boundary(a, b):
    """Sentence-final punctuation (maybe in quotes) followed by an uppercase letter (maybe in quotes), but not after initials and abbreviations."""
    if not a or not b:
        return False
    core = a[:-1] if a[-1] in CLOSING else a
    nxt = b[1:] if b[0] in OPENING else b
    if not core or not nxt or not nxt[0].isupper() or core[-1] not in '.!?':
        return False
    if core[-1] != '.':
        return True
    word = core[1:] if core[0] in OPENING else core
    initial = len(word) == 2 and word[0].isupper()
    return not initial and not word.endswith(('např.', 'e.g.'))


def segment(rng, mon, i):
    zones = rng.choice([[''], [''], ['en', 'cs']])
    keep = rng.random() < 0.4
    doc, texts = Document(), {z: [] for z in zones}
    for k in range(rng.choice([1, 1, 2, 3])):
        b = doc.create_bundle()
        for z in zones:
            text = ''.join(rng.choice(WORDS) + rng.choice([' '] * 8 + ['  ', '\u00a0', '\t']) for _ in range(rng.choice([0, 1, 2, 5, 9])))
            if rng.random() < 0.8:
                text = text.rstrip(' ')
            b.create_tree(z).text = text
            texts[z].append(text)
    z = {}
    sel = zones
    if len(zones) > 1:
        mon.event('more zones')
        if rng.random() < 0.5:
            sel = [rng.choice(zones)]
            z = dict(zones=sel[0])
    mon.note(texts=texts, keep=keep, zones=z)
    old = list(doc.bundles)
    Segmenter(keep_spaces=keep, **z).apply_on_document(doc)
    for zone in zones:
        want, joined = [], []
        for text in texts[zone]:
            toks = text.split(' ')
            parts = [[toks[0]]]
            for a, b in zip(toks, toks[1:]):
                new = zone in sel and boundary(a, b)
                mon.event('boundary' if new else 'no boundary')
                if 'e.g' in a and b[:1].isupper():
                    mon.event('abbreviation')
                if new:
                    parts.append([b])
                else:
                    parts[-1].append(b)
            want += [' '.join(p) + (' ' if keep and k < len(parts) - 1 else '') for k, p in enumerate(parts)]
            joined.append(len(parts))
        got = [t.text for b in doc.bundles for t in b if t.zone == zone]
        pos = 0
        for text, k in zip(texts[zone], joined):
            part = got[pos:pos + k]
            mon.eq(('' if keep else ' ').join(part) if zone in sel else part[0], text, 'segments', 'text conserved')
            pos += k
        mon.eq(pos, len(got), 'segments', 'number of sentences')
        mon.eq(got, want, 'boundaries')
    mon.ok([b for b in doc.bundles if b in old] == old, 'bundles', 'original bundles')
    mon.eq([b.number for b in doc.bundles], list(range(1, len(doc.bundles) + 1)), 'bundles', 'numbers')
    ids = [b.bundle_id for b in doc.bundles]
    mon.eq(len(set(ids)), len(ids), 'bundles', lambda: ids)
    mon.ok(all(b.document is doc and len(b.trees) for b in doc.bundles), 'bundles')
    if len(zones) == 1:
        want = [f'{k}-{j}' for k, text in enumerate(texts[zones[0]], 1) for j in range(1, 1 + len(text.split(' ')))]
        mon.ok([x for x in want if x in ids] == ids, 'bundles', lambda: ids)
        n = 0
        for b in doc.bundles:
            n += 1
            if b in old:
                n = 1
            mon.eq(b.bundle_id.split('-')[1], str(n), 'bundles', 'part number')
        # Tokens may be given for already tokenized texts only by mistake
        if doc.bundles[0].trees[0].text.strip():
            Simple().apply_on_document(doc)
            mon.raises(lambda: Segmenter().apply_on_document(doc), 'refused', ValueError)
    mon.state('segment', repr((texts, keep, z)))


def chain(rng, mon, i):
    """From a raw text file to CoNLL-U and back to the raw text."""
    d = mon.scratch()
    lines = [sentence(rng, plain=True, lo=1).replace('\u200b', '') for _ in range(rng.choice([1, 2, 4]))]
    p = os.path.join(d, 'in.txt')
    with open(p, 'w', encoding='utf-8') as f:
        f.write(''.join(x + '\n' for x in lines))
    K = rng.choice([0, 1, 2])
    out = os.path.join(d, 'out.conllu')
    blocks = [Sentences(files=p, bundles_per_doc=K)]
    seg, keep, tok = rng.random() < 0.6, rng.random() < 0.3, rng.choice(['tokenize.Simple', 'tokenize.OnWhitespace'])
    if seg:
        blocks.append(Segmenter())
    blocks.append(create_block(tok, keep_spaces=int(keep)))
    docs = pipeline(*blocks)
    outs = []
    for k, doc in enumerate(docs):
        outs.append(f'{out}{k}')
        with open(outs[-1], 'w', encoding='utf-8') as f:
            f.write(doc.to_conllu_string())
    mon.note(lines=lines, seg=seg, keep=keep, tokenizer=tok)
    docs = pipeline(Conllu(files=outs))
    for t in [t for doc in docs for t in doc.trees]:
        mon.eq(t.compute_text(), t.text, 'pipeline')
        t.text = None
    with captured() as buf:
        for doc in docs:
            create_block('write.Sentences').run(doc)
    got = buf.getvalue().split('\n')[:-1]
    if not seg:
        mon.eq(got, lines, 'pipeline', 'lines')
    mon.eq(' '.join(got), ' '.join(lines), 'pipeline', 'text')
    mon.state('chain', repr((lines, seg, keep, tok)))


def fresh(rng, mon, **kw):
    s = gen.gen_sent(rng, sid='s1', **dict(dict(p_empty=0, p_deps=0, max_n=7), **kw))
    mon.note(input=s.conllu())
    doc = Document()
    doc.from_conllu_string(s.conllu())
    return doc, doc.bundles[0].trees[0]


def goeswith(rng, mon, i):
    doc, t = fresh(rng, mon, p_mwt=0.3)
    for w in t.descendants:
        w.form = w.form.replace(' ', '')
        if w.form == '_':
            w.form = 'u'
    for m in t.multiword_tokens:
        m.form = m.form.replace(' ', '')
    keep = rng.random() < 0.4
    toks = list(t.token_descendants)
    text, plan = '', []
    for x in toks:
        form, parts = x.form, [x.form]
        if len(form) > 1 and rng.random() < 0.4:
            at = sorted(rng.sample(range(1, len(form)), rng.randint(1, min(2, len(form) - 1))))
            parts = [form[a:b] for a, b in zip([0] + at, at + [len(form)])]
            mon.event('MWT' if x.is_mwt() else 'split word')
        gap = rng.choice([' ', ' ', ' ', '', '  '])
        if x is toks[-1]:
            gap = ''
        text += rng.choice([' ', ' ', '  ']).join(parts) + gap
        plan.append((x, parts, gap == ''))
    t.text = text
    if rng.random() < 0.1:
        t.text = text = text + ' more'
    words = list(t.descendants)
    before = {w: (attrs_of(w), w.parent) for w in words}
    agree = text == t.compute_text()
    matches = ''.join(text.split()) == ''.join(t.compute_text().split())
    mon.note(text=text, keep=keep)
    with Logs() as logs:
        GoeswithFromText(**(dict(keep_lemma=1) if keep else {})).apply_on_document(doc)
    mon.eq(malformed(t), None, 'goeswith')
    mon.eq(t.text, text, 'goeswith', 'text')
    if agree or not matches:
        mon.eq([id(w) for w in t.descendants], [id(w) for w in words], 'goeswith', 'unchanged')
        mon.ok(all((attrs_of(w), w.parent) == before[w] for w in words), 'goeswith', 'unchanged')
        mon.eq(len(logs.messages()) > 0, not matches, 'goeswith', 'warning')
        return
    seq, k = list(t.descendants), 0
    merged = any(m.is_mwt() and len(p) > 1 for m, p, _ in plan)
    for x, parts, tight in plan:
        last = x is toks[-1]
        if x.is_mwt():
            for w in x.words:
                mon.ok(seq[k] is w, 'goeswith', 'words of MWTs')
                mon.eq((attrs_of(w), w.parent), before[w], 'goeswith', 'words of MWTs')
                k += 1
            if len(parts) == 1:
                mon.eq(x.misc['SpaceAfter'] == 'No', tight and not last, 'goeswith', lambda: x.form)
            continue
        mon.ok(seq[k] is x, 'goeswith', lambda: [w.form for w in seq])
        a, head = before[x]
        mon.ok(x.parent is head, 'goeswith', 'head')
        lemma = a[1] if keep or len(parts) == 1 else parts[0].lower()
        mon.eq((x.form, x.lemma) + attrs_of(x)[2:6], (parts[0], lemma) + a[2:6], 'goeswith', 'first part')
        for j, p in enumerate(parts[1:], 1):
            w = seq[k + j]
            mon.eq((w.form, w.lemma, w.upos, w.xpos, w.deprel, w.parent is x), (p, None if keep else p, a[2], a[3], 'goeswith', True), 'goeswith', 'other parts')
        for j in range(len(parts)):
            mon.eq(seq[k + j].misc['SpaceAfter'] == 'No', j == len(parts) - 1 and tight and not last, 'goeswith', lambda: seq[k + j].form)
        k += len(parts)
    mon.eq(k, len(seq), 'goeswith')
    if not merged:
        mon.eq(t.compute_text(), ' '.join(text.split()), 'goeswith', 'computed text')
    mon.eq(len(logs.messages()) > 0, merged, 'goeswith', 'warning')
    mon.state('goeswith', repr((text, keep, [x.form for x in toks])))


CLOSED = {'ADP', 'AUX', 'CCONJ', 'DET', 'PART', 'PRON', 'SCONJ'}


def underscores(rng, mon, i):
    doc, t = fresh(rng, mon, p_mwt=0.4)
    for w in t.descendants:
        if rng.random() < 0.5:
            w.form = rng.choice(['a_b', 'New_York_City', '_', '__', 'x_', '_y', 'é_語', 'a__b'])
            w.lemma = rng.choice([w.form.lower(), w.form, None, 'x', 'a_b_c', 'l_m'])
    kw = {}
    if rng.random() < 0.3:
        kw['deprel'] = rng.choice(['compound', 'fixed'])
    if rng.random() < 0.3:
        kw['default_deprel'] = rng.choice(['dep', 'fixed'])
    if rng.random() < 0.3:
        kw['lemma'] = rng.choice(['form', 'split'])
    mon.note(input=doc.to_conllu_string(), options=kw)
    words = list(t.descendants)
    before = {w: (attrs_of(w), w.parent) for w in words}
    toks = [(m, list(m.words)) for m in t.multiword_tokens]
    with Logs() as logs:
        SplitUnderscoreTokens(**kw).apply_on_document(doc)
    seq, k, skipped, groups = list(t.descendants), 0, 0, {}
    for w in words:
        a, head = before[w]
        forms = a[0].split('_') if a[0] != '_' else [a[0]]
        lemma = a[1]
        if len(forms) > 1 and '' in forms:
            forms, skipped = [a[0]], skipped + 1
        elif len(forms) > 1:
            if kw.get('lemma') == 'form':
                lemma = a[0]
            ls = [None] * len(forms) if lemma is None else lemma.split('_')
            if len(ls) != len(forms):
                forms, skipped = [a[0]], skipped + 1
        if len(forms) == 1:
            ls = [lemma]
        mon.ok(seq[k] is w and w.parent is head, 'underscores', lambda: (w.form, [x.form for x in seq]))
        mon.eq([(x.form, x.lemma) for x in seq[k:k + len(forms)]], list(zip(forms, ls)), 'underscores')
        mon.eq(attrs_of(w)[2:6], a[2:6], 'underscores', 'attributes')
        rel = kw.get('deprel') or ('flat' if a[2] == 'PROPN' else 'fixed' if a[2] in CLOSED else kw.get('default_deprel', 'flat'))
        for x in seq[k + 1:k + len(forms)]:
            mon.eq((x.parent is w, x.upos, x.xpos, x.deprel), (True, a[2], a[3], rel), 'underscores', 'new words')
        mon.event('split word', len(forms) > 1)
        no = 'SpaceAfter=No' in a[6].split('|')
        mon.eq([x.misc['SpaceAfter'] == 'No' for x in seq[k:k + len(forms)]], [no and j == len(forms) - 1 for j in range(len(forms))], 'underscores', 'spacing')
        groups[w] = seq[k:k + len(forms)]
        k += len(forms)
    mon.eq(k, len(seq), 'underscores')
    mon.eq(malformed(t), None, 'underscores')
    for m, ws in toks:
        mon.eq([id(x) for x in m.words], [id(x) for w in ws for x in groups[w]], 'underscores', 'MWT')
        mon.event('MWT')
    mon.eq(len(logs.messages()), skipped, 'underscores', 'warnings')
    ids = {id(x) for m, ws in toks for w in ws for x in groups[w]}
    mon.ok(all((x.multiword_token is not None) == (id(x) in ids) for x in seq), 'underscores', 'MWT')
    mon.state('underscores', repr((kw, [before[w][0][:3] for w in words])))


WORKLOADS = [Workload('read', read_lines, 1900, 20000), Workload('write', write_lines, 1600, 20000), Workload('add_sentences', add_sentences, 800, 8000), Workload('add_text', add_text, 800, 8000),
             Workload('tokenize', tokenize, 6450, 100000), Workload('segment', segment, 4000, 60000), Workload('chain', chain, 800, 8000), Workload('goeswith', goeswith, 2400, 30000),
             Workload('underscores', underscores, 2400, 30000)]
