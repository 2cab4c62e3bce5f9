"""C28: coreference statistics, searches and conversions between annotation styles say exactly what the annotation holds."""
import io
import itertools
import logging
import re
from collections import Counter

from lib import corefgen as cg, gen, refconllu as ref
from lib.vf import Logs, Workload, captured
from udapi.core.document import Document
from udapi.core.run import create_block

ID = 'C28'
RULE = 'distinct annotated documents and distinct (block, parameters) settings whose printed or stored result was compared with the model'
NEEDS = ['oracle.stats value', 'oracle.stats columns', 'oracle.stats tex columns', 'oracle.stats per document', 'oracle.gaps', 'oracle.gaps total', 'oracle.pairs found', 'oracle.pairs marks',
         'oracle.pairs totals', 'oracle.crossing found', 'oracle.crossing marks', 'oracle.interleaved found', 'oracle.nested found', 'oracle.subspan found',
         'oracle.entities listing', 'oracle.mentions listing', 'oracle.mentions total', 'oracle.mentions misc', 'oracle.single parent', 'oracle.single parent statistics',
         'oracle.old mentions', 'oracle.old bridges', 'oracle.old splits', 'oracle.old other columns', 'oracle.old ids', 'oracle.misc totals', 'oracle.misc values', 'oracle.misc tex',
         'events.pair matching', 'events.empty in mention', 'events.several mentions of a head', 'events.max_trees', 'events.no newdoc', 'events.hyphen clash', 'events.page break']
ASSUMPTIONS = ['entity IDs contain no hyphen in the current style; sentence IDs are distinct', 'other values hold no space (the old style separates by them)',
               'the direction in which a pair of mentions is printed is left open']
PROCS = 4


class Info(Logs):
    """Collects also messages of the level INFO."""

    def __enter__(self):
        self.old = logging.getLogger().level
        logging.getLogger().setLevel(logging.INFO)
        return super().__enter__()

    def __exit__(self, *a):
        logging.getLogger().setLevel(self.old)
        return super().__exit__(*a)


def load(text, name='read.Conllu', **kw):
    doc = Document()
    with Logs():
        r = create_block(name, filehandle=io.StringIO(text), **kw)
        r.process_start()
        r.apply_on_document(doc)
        r.process_end()
    return doc


def run(mon, docs, name, **params):
    """Run a block over the documents as a scenario does; returns (what it printed, what it logged)."""
    mon.note(block=name, params=repr(params))
    mon.state('setting', repr((name, sorted(params.items(), key=repr))))
    with captured() as buf, Info() as logs:
        b = create_block(name, **params)
        b.process_start()
        for d in docs:
            b.apply_on_document(d)
        b.process_end()
    return buf.getvalue(), logs.messages(logging.INFO)


def make(rng, mon, header=None, newdoc=True, **kw):
    header = header or rng.choice([h for h in cg.HEADERS if 'GRP' not in h])
    m = cg.gen_model(rng, header=header, **kw)
    # identifiers of sentences must differ
    for k, s in enumerate(m.sents):
        s.comments = [c for c in s.comments if not c.startswith('# sent_id')]
        s.sent_id = f's{k + 1}'
        s.comments.append(f'# sent_id = {s.sent_id}')
    cg.annotate(rng, m, canonical=rng.random() < 0.5)
    if not newdoc:
        for s in m.sents:
            s.comments = [c for c in s.comments if not c.startswith('# newdoc')]
            s.newdoc = None
    text = ''.join(s.conllu() for s in m.sents)
    mon.note(text=text)
    mon.state('document', text)
    return m, text


def span(m, mm):
    ids = [f'{a}.{b}' if b else str(a) for a, b in m.nodes[mm.sent]]
    return ','.join(ids[s[0]] if len(s) == 1 else f'{ids[s[0]]}-{ids[s[-1]]}' for s in mm.subspans())


def forms(m, mm, mark=False):
    out = []
    for k, p in enumerate(mm.pos, 1):
        f = m.word(mm.sent, p)['form']
        out.append(f'**{f}**' if mark and k == mm.head else f)
    return ' '.join(out)


def is_empty(m, mm, p):
    return m.nodes[mm.sent][p][1] != 0


def head_of(m, sent, p):
    """(parents as positions or 0 for the root) of the node at a position: one for a word, all enhanced ones for an empty node."""
    w = m.word(sent, p)
    if m.nodes[sent][p][1] == 0:
        return [position(m, sent, str(w['head']))]
    return [position(m, sent, x.split(':')[0]) for x in w['deps'].split('|') if x != '_']


def position(m, sent, wid):
    if str(wid) == '0':
        return None
    a, _, b = str(wid).partition('.')
    return m.nodes[sent].index((int(a), int(b or 0)))


def tops(m, mm):
    """How many words of the mention are governed by no other word of it."""
    inside = set(mm.pos)
    return sum(1 for p in mm.pos if not any(h in inside for h in head_of(m, mm.sent, p)))


def ordered_entities(m):
    return sorted((e for e in m.ents if e.mentions), key=lambda e: min(x.key() for x in e.mentions))


def ordered_mentions(e):
    return sorted(e.mentions, key=cg.M.key)


# ------------------------------------------------------------------------------------------------ Stats

UPOS = 'NOUN PRON PROPN DET ADJ VERB ADV NUM _'


def expected_stats(models, p):
    """[(column, number, decimals)]"""
    nodes = sum(len(s.words) for m in models for s in m.sents)
    ents = [(m, e) for m in models for e in m.ents]
    if p.get('exclude_singletons'):
        ents = [x for x in ents if len(x[1].mentions) > 1]
    if p.get('exclude_nonsingletons'):
        ents = [x for x in ents if len(x[1].mentions) == 1]
    ments = [(m, mm) for m, e in ents for mm in e.mentions]
    cols = []
    if p.get('report_basics', False):
        cols += [('docs', sum(1 for m in models for s in m.sents if s.newdoc), 0), ('sents', sum(len(m.sents) for m in models), 0), ('words', nodes, 0),
                 ('empty', sum(len(s.empties) for m in models for s in m.sents), 0)]
    if p.get('report_entities', True):
        n = max(1, len(ents))
        lens = [len(e.mentions) for m, e in ents]
        cols += [('entities', len(ents), 0), ('entities_per1k', 1000 * len(ents) / max(1, nodes), 0), ('longest_entity', max(lens, default=0), 0),
                 ('avg_entity', sum(lens) / n, 1)]
        top = p.get('e_len_max', 5)
        for k in range(1, top + 1):
            cols.append((f'c_len_{k}' + ('+' if k == top else ''), 100 * sum(1 for x in lens if min(x, top) == k) / n, 1))
    n = max(1, len(ments))
    if p.get('report_mentions', True):
        lens = [sum(1 for q in mm.pos if not is_empty(m, mm, q)) for m, mm in ments]
        cols += [('mentions', len(ments), 0), ('mentions_per1k', 1000 * len(ments) / max(1, nodes), 0), ('longest_mention', max(lens, default=0), 0),
                 ('avg_mention', sum(lens) / n, 1)]
        top = p.get('m_len_max', 5)
        if top:
            for k in range(0, top + 1):
                cols.append((f'm_len_{k}' + ('+' if k == top else ''), 100 * sum(1 for x in lens if min(x, top) == k) / n, 1))
    if p.get('report_details', True):
        cols += [('with_empty', 100 * sum(1 for m, mm in ments if any(is_empty(m, mm, q) for q in mm.pos)) / n, 1),
                 ('with_gaps', 100 * sum(1 for m, mm in ments if len(mm.subspans()) > 1) / n, 1),
                 ('nontreelet', 100 * sum(1 for m, mm in ments if tops(m, mm) > 1) / n, 1)]
        ups = Counter(m.word(mm.sent, mm.pos[mm.head - 1])['upos'] or '_' for m, mm in ments)
        sel = p.get('selected_upos', UPOS)
        if sel != 'all':
            chosen = sel.split()
            ups = Counter({u: ups[u] for u in chosen} | {'other': sum(v for k, v in ups.items() if k not in chosen)})
            names = chosen + ['other']
        else:
            names = sorted(ups)
        cols += [('head_upos=' + u, 100 * ups[u] / n, 1) for u in names]
    return cols


def number(mon, got, want, decimals, label, detail):
    mon.ok(re.fullmatch(r'[\d,]+(\.\d+)?', got), label, f'{got!r} is no number ({detail})')
    mon.ok(abs(float(got.replace(',', '')) - want) <= 0.5 * 10 ** -decimals + 1e-9, label, f'{detail}: got {got} want {want}')


def tex_header(mon, line, width, no):
    """A line of the header of the LaTeX table has a cell for each column and its rules lie under the cells which span several columns."""
    cells, rules = line.split('\\\\', 1)
    at, spans = 1, []
    for cell in cells.split('&'):
        mt = re.match(r'\s*\\MC\{(\d+)\}\{.*\}\s*$', cell)
        k = int(mt.group(1)) if mt else 1
        if mt:
            spans.append((at, at + k - 1))
        at += k
    mon.eq(at - 1, width, 'stats tex columns', lambda: f'columns of header line {no}: {line}')
    mon.eq([(int(a), int(b)) for a, b in re.findall(r'\\cmidrule\(l?r?\)\{(\d+)-(\d+)\}', rules)], spans, 'stats tex columns', lambda: f'rules of header line {no}: {line}')
    mon.event('tex header line')


def stats(rng, mon, i):
    ndocs = rng.choice([1, 1, 2, 3])
    pairs = [make(rng, mon) for _ in range(ndocs)]
    models = [p[0] for p in pairs]
    mon.note(text='\n=====\n'.join(p[1] for p in pairs))
    docs = [load(p[1]) for p in pairs]
    if any(is_empty(m, mm, q) for m in models for mm in m.mentions() for q in mm.pos):
        mon.event('empty in mention')
    p = {}
    for k, vals in dict(m_len_max=[0, 1, 2, 5, 8], e_len_max=[0, 1, 2, 5], report_basics=[0, 1], report_mentions=[0, 1], report_entities=[0, 1], report_details=[0, 1],
                        selected_upos=['NOUN VERB', 'X', 'all', 'NOUN PRON PROPN DET'], exclude_singletons=[0, 1], exclude_nonsingletons=[0, 1]).items():
        if rng.random() < 0.35:
            p[k] = rng.choice(vals)
    if not expected_stats(models, p):
        return      # nothing is to be reported
    per_doc = rng.random() < 0.5
    style = rng.choice(['human', 'human', 'tex', 'tex-table', 'tex-doc'])
    extra = dict(style=style)
    if per_doc:
        extra['per_doc'] = 1
        if rng.random() < 0.5:
            extra['max_rows_per_page'] = rng.choice([0, 1, 2])
        if style != 'human' and p.get('selected_upos') == 'all':
            del p['selected_upos']
    if rng.random() < 0.3:
        extra['docname_len'] = rng.choice([8, 20])
    out, _ = run(mon, docs, 'corefud.Stats', **p, **extra)
    mon.note(out=out)
    groups = [[m] for m in models] if per_doc else [models]
    if style == 'human':
        got = []
        for line in out.split('\n')[:-1]:
            mt = re.fullmatch(r' *(\S+) = +(\S+)', line)
            if mt:
                got[-1][1].append(mt.groups()) if got else got.append([None, [mt.groups()]])
            else:
                got.append([line.strip(), []])
        if per_doc:
            mon.eq(len(got), len(docs), 'stats per document')
            for g, d in zip(got, docs):
                mon.ok(name(d) in (None, g[0]), 'stats per document', g[0])
        elif not got:
            got = [[None, []]]
        mon.eq(len(got), len(groups), 'stats per document')
        for (_, g), ms in zip(got, groups):
            want = expected_stats(ms, p)
            if p.get('selected_upos') == 'all':
                g = [x for x in g if not x[0].startswith('head_upos=')] + sorted(x for x in g if x[0].startswith('head_upos='))
            mon.eq([x[0] for x in g], [x[0] for x in want], 'stats columns')
            for (k, v), (_, num, dec) in zip(g, want):
                number(mon, v, num, dec, 'stats value', k)
        return
    rows = []
    width = None
    begun, skip = 0, 0
    for line in re.sub(r'&\s*\n', '& ', out).split('\n'):
        if skip:
            tex_header(mon, line, width, 4 - skip)
            skip -= 1
        elif line.startswith('\\begin{mypage}'):
            begun, skip = begun + 1, 3
            mt = re.fullmatch(r'\\begin\{mypage\}\\begin\{tabular\}\{(.*)\}\\toprule', line)
            mon.ok(mt, 'stats tex columns', line)
            spec = re.sub(r'@\{[^}]*\}', '', mt.group(1)).replace(' ', '')
            mon.ok(set(spec) <= {'l', 'r'}, 'stats tex columns', spec)
            width = len(spec)
            if begun > 1:
                mon.event('page break')
        elif line.endswith('\\\\'):
            rows.append(line[:-2].split('&'))
            if style != 'tex':
                mon.ok(width is not None and len(rows[-1]) <= width, 'stats tex columns', f'{len(rows[-1])} cells in {width} columns')
    if style != 'tex':
        mon.eq(out.count('\\end{mypage}'), begun, 'stats tex columns', 'pages begun and ended')
        mon.eq(out.count('\\end{tabular}'), begun, 'stats tex columns', 'tables begun and ended')
        for what in ('\\begin{document}', '\\end{document}'):
            mon.eq(out.count(what), 1 if style == 'tex-doc' else 0, 'stats tex columns', what)
        if style == 'tex-doc':
            mon.ok(out.rstrip().endswith('\\end{document}'), 'stats tex columns', 'the end')
    mon.eq(len(rows), len(groups), 'stats per document')
    for row, ms, k in zip(rows, groups, range(99)):
        want = expected_stats(ms, p)
        if per_doc:
            mon.ok(name(docs[k]) in (None, row[0].strip()), 'stats per document', row[0])
            row = row[1:]
        elif style != 'tex':
            mon.eq(row[0].split(), [str(len(ms)), 'documents'], 'stats per document')
            row = row[1:]
        if p.get('selected_upos') == 'all' and p.get('report_details', True):
            n = sum(1 for x in want if x[0].startswith('head_upos='))
            want = want[:len(want) - n]
            mon.eq(len(row), len(want) + n, 'stats columns')
            row = row[:len(want)]
        if not want and row == ['']:
            row = []
        mon.eq(len(row), len(want), 'stats columns', lambda: [x[0] for x in want])
        for v, (col, num, dec) in zip(row, want):
            number(mon, v.strip(), num, dec, 'stats value', col)


def name(doc):
    got = doc[0].trees[0].newdoc
    return got if isinstance(got, str) else None


# ------------------------------------------------------------------------------------------------ CountGaps

def gap_counts(sents, has):
    """(per newdoc: (name, sequence lengths, paragraph lengths))"""
    out = []
    for k, s in enumerate(sents):
        if k == 0 or s.newdoc:
            out.append((s.newdoc, Counter(), Counter()))
            seq, par, bare = 0, 0, True
        if s.newpar and par:
            if bare:
                out[-1][2][par] += 1
            par, bare = 0, True
        par += 1
        if has[k]:
            bare = False
            if seq:
                out[-1][1][seq] += 1
            seq = 0
        else:
            seq += 1
        if k + 1 == len(sents) or sents[k + 1].newdoc:
            if seq:
                out[-1][1][seq] += 1
            if bare:
                out[-1][2][par] += 1
    return out


def read_gaps(mon, out):
    blocks = []
    for line in out.split('\n')[:-1]:
        mt = re.fullmatch(r'=+ (.*?) =+', line)
        if mt:
            blocks.append([mt.group(1), Counter(), None])
        elif re.fullmatch(r' *\d+: \d+', line):
            k, v = map(int, line.split(':'))
            blocks[-1][1][k] += v
        elif line.startswith('SUM: '):
            blocks[-1][2] = int(line[5:])
        else:
            mon.ok(line == '-------', 'gaps', f'unexpected line {line!r}')
    for b in blocks:
        mon.eq(b[2], sum(k * v for k, v in b[1].items()), 'gaps', 'SUM of ' + b[0])
    return blocks


def gaps(rng, mon, i):
    docs, want = [], []
    for _ in range(rng.choice([1, 1, 2])):
        sents = gen.gen_doc(rng, nsent=rng.choice([1, 3, 6, 10]), max_n=5, p_empty=0.4, p_newdoc=0.15, p_newpar=0.3, json_comments=0)
        m = cg.gen_model(rng, sents=sents, header='eid-etype-head-other', n_ents=rng.choice([0, 1, 1, 2, 3]))
        cg.annotate(rng, m)
        if rng.random() < 0.3:
            sents[0].newdoc = None
            sents[0].comments = [c for c in sents[0].comments if not c.startswith('# newdoc')]
            mon.event('no newdoc')
        if rng.random() < 0.3:
            sents[0].newpar = True
            sents[0].comments = [c for c in sents[0].comments if not c.startswith('# newpar')] + ['# newpar']
        text = ''.join(s.conllu() for s in sents)
        mon.note(text=text)
        mon.state('document', text)
        docs.append(load(text))
        with_mention = {mm.sent for mm in m.mentions()}
        trees = list(docs[-1].trees)
        mon.eq([bool(t.newpar) for t in trees], [bool(s.newpar) for s in sents], 'gaps', 'newpar as loaded')
        want.append(gap_counts(sents, [k in with_mention for k in range(len(sents))]))
    p = {}
    for k in ('report_per_newdoc', 'report_per_file', 'report_total'):
        if rng.random() < 0.6:
            p[k] = rng.choice([0, 1])
    out, _ = run(mon, docs, 'corefud.CountGaps', **p)
    mon.note(out=out)
    exp = []
    total = [Counter(), Counter()]
    for w in want:
        file = [Counter(), Counter()]
        for nd, seq, par in w:
            if p.get('report_per_newdoc', 0):
                exp += [('SEQ', nd, seq), ('PAR', nd, par)]
            file[0] += seq
            file[1] += par
        if p.get('report_per_file', 1):
            exp += [('SEQ', 'FILE', file[0]), ('PAR', 'FILE', file[1])]
        total[0] += file[0]
        total[1] += file[1]
    if p.get('report_total', 1):
        exp += [('SEQ', 'TOTAL', total[0]), ('PAR', 'TOTAL', total[1])]
    got = []
    for title, c, _ in read_gaps(mon, out):
        mt = re.fullmatch(r'(SEQ|PAR) STATS(?:,| in) (.*)', title)
        mon.ok(mt, 'gaps', title)
        got.append((mt.group(1), mt.group(2), c))
    mon.eq([(a, str(b), dict(c)) for a, b, c in got], [(a, str(b), dict(c)) for a, b, c in exp], 'gaps')
    mon.ok(True, 'gaps total')


# ------------------------------------------------------------------------------------------------ pairs of mentions

def all_pairs(m):
    for si in range(len(m.sents)):
        here = [mm for mm in m.mentions() if mm.sent == si]
        yield from itertools.combinations(here, 2)


def relation(m, a, b):
    wa, wb = set(a.pos), set(b.pos)
    ids_a, ids_b = set(span(m, a).split(',')), set(span(m, b).split(','))
    return dict(same_entity=a.ent is b.ent, both_continuous=len(a.subspans()) == 1 == len(b.subspans()),
                both_discontinuous=len(a.subspans()) > 1 and len(b.subspans()) > 1, nested=wa <= wb or wb <= wa,
                crossing=bool(wa & wb) and not (wa <= wb or wb <= wa), interleaved=not wa & wb and not (a.pos[-1] < b.pos[0] or b.pos[-1] < a.pos[0]),
                same_head=a.pos[a.head - 1] == b.pos[b.head - 1], same_span=a.pos == b.pos, same_subspan=bool(ids_a & ids_b),
                multiword=len(wa) > 1 and len(wb) > 1)


def shown(m, mm, form, eid=True):
    return (mm.ent.eid + ':' if eid else '') + (forms(m, mm) if form else span(m, mm))


def crowded(rng, mon, **kw):
    if rng.random() < 0.25:     # many mentions in a few short sentences: the same spans again and again
        sents = gen.gen_doc(rng, nsent=rng.choice([1, 3, 4]), p_empty=0.1, json_comments=0, max_n=5, p_newdoc=0.1)
        return make(rng, mon, sents=sents, n_ents=14, kinds=rng.choice([cg.KINDS, ['disc', 'disc', 'span']]), **kw)
    sents = gen.gen_doc(rng, nsent=rng.choice([1, 2, 3]), p_empty=0.4, json_comments=0, max_n=rng.choice([5, 8, 12]), p_newdoc=0.1)
    return make(rng, mon, sents=sents, n_ents=rng.choice([2, 4, 6, 8]), **kw)


def judge_pairs(mon, m, doc, lines, matching, form, label, eid=True, mark=True):
    """lines: [(sentence id, "A + B")]; every matching pair is reported once and exactly the words of matching pairs are marked."""
    canon, want = {}, Counter()
    for a, b in matching:
        x, y, sid = shown(m, a, form, eid), shown(m, b, form, eid), m.sents[a.sent].sent_id
        key = (sid,) + tuple(sorted((x, y)))
        canon[sid, f'{x} + {y}'] = canon[sid, f'{y} + {x}'] = key
        want[key] += 1
        mon.event('pair matching')
    got = Counter()
    for line in lines:
        mon.ok(line in canon, label + ' found', lambda: f'reported {line}, which does not match; matching: {sorted(want)}')
        got[canon[line]] += 1
    mon.eq(sorted(got.items()), sorted(want.items()), label + ' found')
    # the marks
    ids = [[f'{a}.{b}' if b else str(a) for a, b in row] for row in m.nodes]
    may = {}
    for a, b in matching:
        for mm in (a, b):
            for p in mm.pos:
                may.setdefault((mm.sent, p), {'1'})
        x, y = shown(m, a, form, eid), shown(m, b, form, eid)
        may[a.sent, a.pos[0]].add(f'{x}+{y}')
        may[b.sent, b.pos[0]].add(f'{y}+{x}')
    marks = {(si, p): str(n.misc['Mark']) for si, t in enumerate(doc.trees) for p, n in enumerate(t.descendants_and_empty) if 'Mark' in n.misc}
    if not mark:
        mon.eq(marks, {}, label + ' marks', 'mark=0')
        return
    mon.eq(sorted(marks), sorted(may), label + ' marks', lambda: [ids[s][p] for s, p in set(marks) ^ set(may)])
    for k, v in marks.items():
        mon.ok(v in may[k], label + ' marks', f'{k}: {v} not in {may[k]}')
    for si in {a.sent for a, _ in matching}:
        mon.ok(any(v != '1' for k, v in marks.items() if k[0] == si), label + ' marks', 'no mark names a pair')


def mark_pairs(rng, mon, i):
    m, text = crowded(rng, mon)
    doc = load(text)
    p, conv = {}, {'include': 0, 'only': 1, 'exclude': -1}
    for k in rng.sample(['same_entity', 'both_continuous', 'both_discontinuous', 'nested', 'crossing', 'interleaved', 'same_head', 'same_span', 'same_subspan'],
                        rng.choice([0, 1, 1, 1, 2, 3])):
        p[k] = rng.choice(['include', 'only', 'only', 'exclude', 0, 1, 1, -1])
    form, mark, log = (rng.random() < q for q in (0.3, 0.7, 0.9))
    matching, total = [], 0
    for a, b in all_pairs(m):
        total += 1
        r = relation(m, a, b)
        if r['both_continuous'] and r['same_span'] and conv.get(p.get('same_subspan', 0), p.get('same_subspan', 0)):
            return      # the documentation leaves this open
        if all(conv.get(v, v) == 0 or (conv.get(v, v) == 1) == r[k] for k, v in p.items()):
            matching.append((a, b))
    extra = {k: int(v) for k, v in (('print_form', form), ('mark', mark), ('log', log)) if rng.random() < 0.5 or k == 'mark' or v != (k == 'log')}
    out, logs = run(mon, [doc], 'corefud.MarkPairs', **p, **extra)
    lines = []
    for msg in logs:
        if msg.startswith('Found mentions at '):
            lines.append(tuple(msg[len('Found mentions at '):].split(': ', 1)))
    mon.eq(out, '', 'pairs found', 'standard output')
    if log:
        judge_pairs(mon, m, doc, lines, matching, form, 'pairs', mark=mark)
    else:
        mon.eq(lines, [], 'pairs found', 'log=0')
    msg = f'######## Mentions = {len(m.mentions())}, matching/all pairs = {len(matching)} / {total}'
    mon.eq(doc.meta.get('corefud.MarkPairs'), msg, 'pairs totals')
    mon.ok(msg in logs, 'pairs totals', 'in the log')


def mark_blocks(rng, mon, i):
    which = rng.choice(['crossing', 'interleaved', 'interleaved', 'nested', 'nested', 'subspan', 'subspan'])
    m, text = crowded(rng, mon)
    doc = load(text)
    form, mark, log = (rng.random() < q for q in (0.3, 0.7, 0.9))
    p = {k: int(v) for k, v in (('print_form', form), ('mark', mark), ('log', log)) if rng.random() < 0.5 or v != (k != 'print_form')}
    same = rng.choice([None, 0, 1])
    if same is not None:
        p['same_entity_only'] = same
    if same is None:
        same = which == 'nested'
    disc = rng.random() < 0.3
    if which != 'crossing' and disc:
        p['both_discontinuous'] = 1
    rel = [(a, b, relation(m, a, b)) for a, b in all_pairs(m)]
    rel = [x for x in rel if not same or x[2]['same_entity']]
    if which == 'crossing':
        cont = rng.random() < 0.3
        if cont:
            p['continuous_only'] = 1
        if form and log:
            p['print_form'] = form = 0
        hits = [(a, b) for a, b, r in rel if r['crossing'] and (not cont or r['both_continuous'])]
        out, _ = run(mon, [doc], 'corefud.MarkCrossing', **p)
        got = set()
        for line in out.split('\n')[:-1]:
            mt = re.fullmatch(r'crossing mentions at .*: (\S+) \+ (\S+)', line, re.S)
            mon.ok(mt, 'crossing found', line)
            sid = re.search(r'\b(s\d+)#', line)
            got.add((sid and sid.group(1), frozenset(mt.groups())))
        want = {(m.sents[a.sent].sent_id, frozenset((span(m, a), span(m, b)))) for a, b in hits}
        mon.ok(len(got) == out.count('crossing mentions at '), 'crossing found', 'a pair is reported twice')
        if any(g[0] is None for g in got):
            got, want = {g[1] for g in got}, {w[1] for w in want}
        if log:
            mon.eq(got, want, 'crossing found')
        else:
            mon.eq(out, '', 'crossing found', 'log=0')
        may = {}
        for a, b in hits:
            mon.event('pair matching')
            x, y = shown(m, a, form, False), shown(m, b, form, False)
            for q in set(a.pos) & set(b.pos):
                may.setdefault((a.sent, q), set()).update([f'{x}+{y}', f'{y}+{x}'])
        marks = {(si, q): str(n.misc['Mark']) for si, t in enumerate(doc.trees) for q, n in enumerate(t.descendants_and_empty) if 'Mark' in n.misc}
        mon.eq(sorted(marks), sorted(may) if mark else [], 'crossing marks')
        for k, v in marks.items():
            mon.ok(v in may[k], 'crossing marks', f'{k}: {v} not in {may[k]}')
        return
    if disc:
        rel = [x for x in rel if x[2]['both_discontinuous']]
    if which == 'interleaved':
        block, hits = 'corefud.MarkInterleaved', [x[:2] for x in rel if x[2]['interleaved']]
    elif which == 'nested':
        multi = rng.random() < 0.3
        if multi:
            p['multiword_only'] = 1
        block, hits = 'corefud.MarkNested', [x[:2] for x in rel if x[2]['nested'] and (not multi or x[2]['multiword'])]
    else:
        nest = rng.random() < 0.3
        if nest:
            p['nested_only'] = 1
        block, hits = 'corefud.MarkSameSubSpan', [x[:2] for x in rel if x[2]['same_subspan'] and (not nest or x[2]['nested'])]
    out, _ = run(mon, [doc], block, **p)
    if log:
        lines = []
        for line in out.split('\n')[:-1]:
            mt = re.fullmatch(r'\S+ mentions at (\S+): (.*)', line, re.S)
            mon.ok(mt, which + ' found', line)
            lines.append(mt.groups())
        judge_pairs(mon, m, doc, lines, hits, form, which, mark=mark)
    else:
        mon.eq(out, '', which + ' found', 'log=0')


# ------------------------------------------------------------------------------------------------ listings

def counted(items):
    """Distinct items from the most frequent one, ties in order of appearance."""
    c = {}
    for x in items:
        c[x] = c.get(x, 0) + 1
    return sorted(c.items(), key=lambda x: -x[1])


def entities(rng, mon, i):
    few = rng.random() < 0.6
    m, text = make(rng, mon)
    if few:      # equal forms of mentions
        for s in m.sents:
            for w in s.words + [e for _, _, e in s.empties]:
                w['form'] = rng.choice(['a', 'b'])
        text = ''.join(s.conllu() for s in m.sents)
        mon.note(text=text)
    doc = load(text)
    p = {}
    if rng.random() < 0.3:
        p['eid_re'] = rng.choice(['e1', '.*1', '[ce][2-5]$', 'gum', 'Ž', '3'])
    if rng.random() < 0.3:
        p['min_mentions'] = rng.choice([1, 2, 3])
    for k in ('print_ranges', 'mark_head', 'aggregate_mentions'):
        if rng.random() < 0.4:
            p[k] = rng.choice([0, 0, 1])
    want = []
    if rng.random() < 0.2:
        doc.meta['docname'] = 'wsj'
    if 'docname' in doc.meta:
        want.append(f'Coref entities in document {doc.meta["docname"]}:')
    out, _ = run(mon, [doc], 'corefud.PrintEntities', **p)
    for e in ordered_entities(m):
        ms = ordered_mentions(e)
        if ('eid_re' in p and not re.match(p['eid_re'], e.eid)) or len(ms) < p.get('min_mentions', 0):
            continue
        want.append(f' {e.eid} has {len(ms)} mentions:')
        rows = [(forms(m, mm, p.get('mark_head', 1)), f'{m.sents[mm.sent].sent_id}:{span(m, mm)}') for mm in ms]
        if p.get('aggregate_mentions', 1):
            for f, c in counted(r[0] for r in rows):
                want.append(f'{c:4}: {f}')
                if p.get('print_ranges', 1):
                    want.append([r[1] for r in rows if r[0] == f])
        else:
            for f, r in rows:
                want.append('   ' + f)
                if p.get('print_ranges', 1):
                    want.append('     ' + r)
    got = out.split('\n')
    mon.eq(got.pop(), '', 'entities listing', 'the end')
    mon.eq(len(got), len(want), 'entities listing', lambda: (got, want))
    for g, w in zip(got, want):
        if isinstance(w, list):     # addresses with their common prefix factored out
            if len(w) > 1:
                mt = re.fullmatch(r'        (.*) \((.*)\)', g)
                mon.ok(mt, 'entities listing', g)
                mon.eq([mt.group(1) + x for x in mt.group(2).split(' ')], w, 'entities listing')
            else:
                mon.eq(g, '        ' + w[0], 'entities listing')
        else:
            mon.eq(g, w, 'entities listing')


AUX = {'case', 'cc', 'conj', 'mark', 'appos', 'vocative', 'discourse'}


def udeprel(w):
    return w['deprel'].split(':')[0]


def forest(m, mm, almost):
    """Are all dependents of the words of the mention in it too? (words with a copula are excused)"""
    si = mm.sent
    kids = {}
    for p, (a, b) in enumerate(m.nodes[si]):
        if b == 0:
            kids.setdefault(head_of(m, si, p)[0], []).append(p)
    inside = set(mm.pos)
    for p in mm.pos:
        if is_empty(m, mm, p):
            continue
        mine = kids.get(p, [])
        if any(udeprel(m.word(si, c)) == 'cop' for c in mine):
            continue
        for c in mine:
            if c in inside:
                continue
            if not almost:
                return False
            w = m.word(si, c)
            if udeprel(w) == 'punct' and (c < mm.pos[0] or c > mm.pos[-1]):
                continue
            aux = udeprel(w) in AUX or w['deprel'] == 'advmod:emph' or (udeprel(w) == 'dep' and w['upos'] in {'ADP', 'SCONJ', 'CCONJ', 'PUNCT'})
            if not (aux and head_of(m, si, p)[0] not in inside):
                return False
    return True


def almost_continuous(m, mm):
    full = [p for p in mm.pos if not is_empty(m, mm, p)]
    if len(mm.subspans()) == 1 or not full:
        return True
    return all(is_empty(m, mm, p) or p in mm.pos for p in range(full[0], full[-1]))


def mentions(rng, mon, i):
    m, text = make(rng, mon)
    if rng.random() < 0.5:
        tops_only = rng.random() < 0.4
        for s in m.sents:
            for w in s.words:
                if rng.random() < 0.6:
                    w['deprel'] = rng.choice(['punct', 'punct', 'det'] if tops_only else ['case', 'punct', 'cop', 'advmod:emph', 'dep', 'appos', 'det', 'nmod'])
                    w['upos'] = rng.choice(['ADP', 'PUNCT', 'NOUN', 'DET'])
        text = ''.join(s.conllu() for s in m.sents)
        mon.note(text=text)
    doc = load(text)
    conv = {1: 'only', 0: 'exclude'}
    tests = dict(continuous=lambda x: len(x.subspans()) == 1, almost_continuous=lambda x: almost_continuous(m, x), treelet=lambda x: tops(m, x) <= 1,
                 forest=lambda x: forest(m, x, False), almost_forest=lambda x: forest(m, x, True), oneword=lambda x: len(x.pos) == 1,
                 singleton=lambda x: len(x.ent.mentions) == 1, empty=lambda x: any(is_empty(m, x, q) for q in x.pos))
    p = {k: rng.choice(['include', 'only', 'exclude', 0, 1]) for k in rng.sample(sorted(tests), rng.choice([0, 1, 1, 2, 3]))}
    cond = {k: conv.get(v, v) for k, v in p.items()}
    extra = dict(print_should=0, color=0)
    if rng.random() < 0.7:
        extra['shuffle'] = 0
    if rng.random() < 0.5:
        extra['max_trees'] = rng.choice([1, 2, 3])
        mon.event('max_trees')
    if rng.random() < 0.5:
        extra['print_total'] = rng.choice([0, 1])
    if rng.random() < 0.4:
        extra['print_other_forms'] = rng.choice([0, 1, 2])
    if rng.random() < 0.2:
        extra['html'] = 1
    before = [[str(n.misc) for n in t.descendants_and_empty] for t in doc.trees]
    out, _ = run(mon, [doc], 'corefud.PrintMentions', **p, **extra)
    after = [[str(n.misc) for n in t.descendants_and_empty] for t in doc.trees]
    mon.eq(after, before, 'mentions misc', 'nothing is left in MISC')
    fine = lambda k, x: cond.get(k, 'include') == 'include' or tests[k](x) == (cond[k] == 'only')   # noqa: E731
    hits = [x for x in m.mentions() if all(fine(k, x) for k in tests)]
    pool = [x for x in m.mentions() if fine('singleton', x)]
    top = extra.get('max_trees', 0)
    lines = out.split('\n')
    heads = [k for k, line in enumerate(lines) if line.startswith('# Mention = ')]
    got = [lines[k][len('# Mention = '):] for k in heads]
    want = [forms(m, x) for x in hits]
    if extra.get('shuffle', 1) == 0:
        mon.eq(got, want[:top] if top else want, 'mentions listing')
        others = extra.get('print_other_forms', 5)
        for k, x in zip(heads, hits):
            other = counted(f for f in (forms(m, y) for y in ordered_mentions(x.ent)) if f != forms(m, x))
            if others and other:
                line = f'# {min(len(other), others)} other forms:' + ''.join(f' "{f}"({c})' for f, c in other[:others])
                mon.eq(lines[k + 1], line, 'mentions listing', 'other forms')
            else:
                mon.ok(' other forms:' not in lines[k + 1], 'mentions listing', lines[k + 1])
    else:
        mon.eq(len(got), min(top, len(hits)) if top else len(hits), 'mentions listing')
        mon.ok(not Counter(got) - Counter(want), 'mentions listing', lambda: (got, want))
        if not top:
            mon.eq(sorted(got), sorted(want), 'mentions listing')
    cut = f'######## Only first {top} matching mentions printed. Use max_trees=0 to see all.'
    mon.eq(lines.count(cut), int(bool(top) and len(hits) > top), 'mentions total', 'the note about omitted mentions')
    total = [x for x in lines if x.startswith('######## Total')]
    mon.eq(total, [f'######## Total matching/all mentions = {len(hits)} / {len(pool)}'] if extra.get('print_total', 1) else [], 'mentions total')


# ------------------------------------------------------------------------------------------------ SingleParent

def single_parent(rng, mon, i):
    sents = gen.gen_doc(rng, nsent=rng.choice([1, 2]), p_empty=0.9, many_empty=0.3, json_comments=0, max_n=9)
    for s in sents:
        ids = ['0'] + [str(k) for k in range(1, len(s.words) + 1)] + [f'{a}.{b}' for a, b, _ in s.empties]
        for a, b, w in s.empties:
            pick = [x for x in rng.sample(ids, min(len(ids), rng.choice([0, 1, 2, 2, 3]))) if x != f'{a}.{b}']
            links = sorted({(x, rng.choice(['nsubj', 'obl:of', 'dep'])) for x in pick}, key=lambda y: (float(y[0]), y[1]))
            if links and rng.random() < 0.15:
                links.append((links[-1][0], 'zzz'))
            w['deps'] = '|'.join(f'{x}:{r}' for x, r in links) or '_'
    text = ''.join(s.conllu() for s in sents)
    mon.note(text=text)
    mon.state('document', text)
    doc = load(text)
    _, logs = run(mon, [doc], 'corefud.SingleParent')
    exp = Counter()
    judged = True
    for s, t in zip(sents, doc.trees):
        par = {str(k): str(w['head']) for k, w in enumerate(s.words, 1)}

        def depth(x):
            return 0 if x == '0' else 1 + depth(par[x])

        def above(x, y):
            return x == y or (y != '0' and above(x, par[y]))
        for (a, b, w), n in zip(s.empties, t.empty_nodes):
            old = [tuple(x.split(':', 1)) for x in w['deps'].split('|') if x != '_']
            new = [('0' if d['parent'].is_root() else str(d['parent'].ord), d['deprel']) for d in n.deps]
            exp['_empty'] += 1
            if len(old) <= 1:
                mon.eq(new, old, 'single parent', f'{a}.{b} has no more than one')
                continue
            exp['_more-parents'] += 1
            full = [x for x, _ in old if '.' not in x]
            exp['empty-parent'] += len(full) != len(old)
            if not full:
                exp['no-nonempty-parent'] += 1
                mon.eq(new, [], 'single parent', f'{a}.{b} has only empty parents')
                continue
            mon.ok(new and len({x for x, _ in new}) == 1, 'single parent', f'{a}.{b} is left with {new}')
            keep = new[0][0]
            mon.eq(new, [x for x in old if x[0] == keep], 'single parent', f'{a}.{b}: the links to the chosen parent')
            mon.ok(keep in full and depth(keep) == min(map(depth, full)), 'single parent', f'{a}.{b}: {keep} is not the highest of {old}')
            if len(set(full)) != len(full):
                judged = False
            if any(all(above(x, y) for y in full) for x in full):
                exp['one-governs'] += 1
            else:
                ds = sorted(map(depth, full))
                exp['same-depth' if ds[0] == ds[1] else 'one-highest'] += 1
    if judged:
        got = Counter()
        for line in logs[-1].split('\n'):
            k, eq, v = line.partition('=')
            if eq:
                got[k] = int(v)
        mon.eq(dict(got), {k: v for k, v in exp.items() if v}, 'single parent statistics')


# ------------------------------------------------------------------------------------------------ the old style

def described_other(m):
    ms = []
    for mm in m.mentions():
        other = {k: '' if v is True else v for k, v in mm.other_as_loaded().items()}
        ms.append((mm.ent.eid, mm.sent, tuple(mm.pos), mm.head, mm.ent.etype, frozenset(other.items())))
    br = [(t.eid, mm.ent.eid, r, mm.sent, mm.pos[0]) for mm in m.mentions() for t, r in mm.bridging]
    sp = [(t.eid, e.eid) for e in m.ents for t in e.split]
    return sorted(ms, key=repr), sorted(br), sorted(sp)


COREF = {'Entity', 'Bridge', 'SplitAnte', 'ClusterId', 'MentionSpan', 'ClusterType', 'Bridging', 'MentionMisc', 'Split'}


def rest(text):
    """Everything but the annotation of coreference."""
    out = []
    for s in ref.parse(text):
        out.append([c for c in s.comments if not c.startswith('# global.Entity') and c != '# newdoc'])
        for w in s.words + s.empties + [list(x) for x in s.mwts]:
            misc = '|'.join(x for x in w[-1].split('|') if re.sub(r'\[\d+\]$', '', x.split('=')[0]) not in COREF)
            out.append(w[:-1] + [misc or '_'])
    return out


def store(doc, name='write.Conllu'):
    with captured() as buf, Logs():
        w = create_block(name)
        w.process_start()
        w.apply_on_document(doc)
        w.process_end()
    return buf.getvalue()


def old_style(rng, mon, i):
    m, text = make(rng, mon)
    for mm in m.mentions():
        if ' ' in str(mm.other.get('B', '')):
            return
    places = Counter((mm.sent, mm.pos[mm.head - 1]) for mm in m.mentions())
    if places and max(places.values()) > 1:
        mon.event('several mentions of a head')
    doc = load(text)
    old = store(doc, 'write.OldCorefUD')
    mon.note(old=old)
    want = described_other(m)
    mon.ok('global.Entity' not in old, 'old other columns', 'the header of the new style')
    # what the old style says, read independently
    got = []
    for si, s in enumerate(ref.parse(old)):
        rows = sorted([((int(w[0]), 0), w) for w in s.words] + [(tuple(map(int, w[0].split('.'))), w) for w in s.empties], key=lambda r: r[0])
        ids = [r[1][0] for r in rows]
        for p, (_, w) in enumerate(rows):
            misc = ref.kv(w[9])
            names = [k for k in misc if re.fullmatch(r'ClusterId(\[\d+\])?', k)]
            mon.ok('Entity' not in misc and 'Bridge' not in misc, 'old mentions', 'annotation in the new style')
            mon.ok(names in ([], ['ClusterId']) or sorted(names) == sorted(f'ClusterId[{k}]' for k in range(1, len(names) + 1)), 'old mentions', f'indices {names}')
            for k in names:
                x = k[len('ClusterId'):]
                pos = []
                for piece in misc['MentionSpan' + x].split(','):
                    lo, _, hi = piece.partition('-')
                    pos += range(ids.index(lo), ids.index(hi or lo) + 1)
                mon.ok(p in pos, 'old mentions', 'the head is in the span')
                got.append((misc[k], si, tuple(pos), pos.index(p) + 1, misc.get('ClusterType' + x, '')))
    if 'head' in m.fields:
        mon.eq(sorted(got, key=repr), [x[:5] for x in want[0]], 'old mentions', 'as stored in the old style')
    mon.eq(rest(old), rest(text), 'old other columns')
    doc2 = load(old, 'read.OldCorefUD')
    new = store(doc2)
    mon.note(new=new)
    judge_new(mon, m, new, want)
    mon.eq(rest(new), rest(text), 'old other columns')
    if re.search(r'[\t|]MentionMisc(\[\d+\])?=', old) and rng.random() < 0.5:     # characters which the new style forbids
        new = store(load(re.sub(r'(?<=[\t|])(MentionMisc(?:\[\d+\])?=)', r'\1note:a-(b)-)c(,', old), 'read.OldCorefUD'))
        parsed = cg.Parsed(new, 'eid-etype-head-other')
        mon.eq(parsed.faults, [], 'old mentions', 'brackets and hyphens in MentionMisc')
        got = sorted(((x[0], x[1], x[2], x[5]) for x in ((eid, si, pos, head, et, other) for doc, eid, si, pos, head, et, named, other in parsed.mentions)), key=repr)
        exp = sorted(((x[0], x[1], x[2], x[5] | {('note', 'a%2D%28b%29%2D%29c%28')} if x[5] else x[5]) for x in want[0]), key=repr)
        mon.eq(got, exp, 'old mentions', 'brackets and hyphens in MentionMisc')
        mon.event('brackets in MentionMisc')


def judge_new(mon, m, new, want):
    headers = {s.global_entity for s in ref.parse(new) if s.global_entity}
    mon.ok(len(headers) <= 1, 'old mentions', f'headers {headers}')
    parsed = cg.Parsed(new, headers.pop() if headers else 'eid-etype-head-other')
    mon.eq(parsed.faults, [], 'old mentions', 'faults')
    got = sorted(((eid, si, pos, head, et, other) for doc, eid, si, pos, head, et, named, other in parsed.mentions), key=repr)
    mon.eq(got, want[0], 'old mentions')
    mon.eq(sorted(x[1:] for x in parsed.bridges), want[1], 'old bridges')
    mon.eq(sorted(x[1:3] for x in parsed.splits), want[2], 'old splits')


def old_ids(rng, mon, i):
    """Identifiers with hyphens are renamed, but different entities stay different."""
    m, text = make(rng, mon)
    if any(' ' in str(mm.other.get('B', '')) for mm in m.mentions()) or not m.ents:
        return
    with_hyphen = rng.sample(['a-b', 'ab', 'a-', '-ab', 'c-1', 'c1', 'c1-', 'a--b', 'x', 'ab2', 'a-b-', 'c-12', 'c-1-2', 'c12'], min(14, len(m.ents)))
    if rng.random() < 0.5:
        mon.event('hyphen clash')
    old = store(load(text), 'write.OldCorefUD')
    table = dict(zip([e.eid for e in m.ents], with_hyphen))
    if len(table) < len(m.ents):
        return

    def rename(mt):
        key, val = mt.groups()
        base = re.sub(r'\[\d+\]$', '', key)
        if base == 'ClusterId':
            val = table[val]
        elif base == 'SplitAnte':
            val = rng.choice([',', '+']).join(table[x] for x in val.split(','))
        elif base == 'Bridging':
            val = ','.join(table[x.split(':', 1)[0]] + ':' + x.split(':', 1)[1] for x in val.split(','))
        return f'{key}={val}'
    old = re.sub(r'(?<=[\t|])((?:ClusterId|SplitAnte|Bridging)(?:\[\d+\])?)=([^|\t\n]*)', rename, old)
    mon.note(old=old)
    repl = rng.choice(['', '', '_', 'X'])
    doc = load(old, 'read.OldCorefUD', **(dict(replace_hyphen_in_id_with=repl) if repl else {}))
    groups = lambda ents, f: sorted(sorted(f(mm) for mm in e.mentions) for e in ents)    # noqa: E731
    got = groups(doc.coref_entities, lambda mm: (mm.head.root.sent_id, mm.span))
    want = groups(m.ents, lambda mm: (m.sents[mm.sent].sent_id, span(m, mm)))
    mon.eq(got, want, 'old ids', 'the partition of mentions into entities')
    eids = [e.eid for e in doc.coref_entities]
    mon.eq(len(set(eids)), len(eids), 'old ids', f'{eids}')
    mon.ok(not any('-' in e for e in eids), 'old ids', f'hyphen in {eids}')
    # links lead to the same entities
    of = {(m.sents[mm.sent].sent_id, span(m, mm), e.eid): mm for e in m.ents for mm in e.mentions}
    partition = {e.eid: frozenset((m.sents[mm.sent].sent_id, span(m, mm)) for mm in e.mentions) for e in m.ents}
    loaded = {e.eid: frozenset((mm.head.root.sent_id, mm.span) for mm in e.mentions) for e in doc.coref_entities}
    got = sorted((sorted(loaded[mm.entity.eid]), mm.head.root.sent_id, mm.span, sorted(loaded[b.target.eid]), b.relation) for mm in doc.coref_mentions for b in mm.bridging)
    want = sorted((sorted(partition[mm.ent.eid]), m.sents[mm.sent].sent_id, span(m, mm), sorted(partition[t.eid]), r) for mm in of.values() for t, r in mm.bridging)
    mon.eq(got, want, 'old bridges', 'after renaming')
    got = sorted((sorted(loaded[e.eid]), sorted(map(sorted, (loaded[t.eid] for t in e.split_ante)))) for e in doc.coref_entities if e.split_ante)
    want = sorted((sorted(partition[e.eid]), sorted(map(sorted, (partition[t.eid] for t in e.split)))) for e in m.ents if e.split)
    mon.eq(got, want, 'old splits', 'after renaming')


# ------------------------------------------------------------------------------------------------ MiscStats

def misc_stats(rng, mon, i):
    want = {}
    docs = []
    for _ in range(rng.choice([1, 2])):
        sents = gen.gen_doc(rng, nsent=rng.choice([1, 3]), json_comments=0)
        for s in sents:
            for w in s.words:
                if rng.random() < 0.5:
                    items = [f'{k}={rng.choice(["1", "x_y", "b", "c d", "__", "e%"])}' for k in rng.sample(['A', 'A[1]', 'A[2]', 'A[10]', 'A[123]', 'B_c', 'D'], rng.choice([1, 2, 4, 6]))]
                    w['misc'] = '|'.join(sorted(items + ['Flag'] * rng.choice([0, 0, 1]), key=str.lower))
                if w['misc'] != '_':
                    for k, v in ref.kv(w['misc']).items():
                        want.setdefault(re.sub(r'\[\d+\]', '', k), Counter())[str(v)] += 1
        text = ''.join(s.conllu() for s in sents)
        mon.note(text=text)
        mon.state('document', text)
        docs.append(load(text))
    top = rng.choice([None, 1, 2, 3])
    p = {} if top is None else dict(maxvalues=top)
    top = top or 10
    out, _ = run(mon, docs, 'corefud.MiscStats', **p)
    got = {}
    for line in out.split('\n'):
        if line.startswith('\t'):
            v, f = line[1:].rsplit('\t', 1)
            got[cur][1].append((v, int(f)))
        elif line:
            cur, n = line.split('\t')
            mon.ok(cur not in got, 'misc totals', f'{cur} twice')
            got[cur] = (int(n), [])
    mon.eq({k: v[0] for k, v in got.items()}, {k: sum(c.values()) for k, c in want.items()}, 'misc totals')
    for k, (_, vals) in got.items():
        mon.eq([f for _, f in vals], sorted(want[k].values(), reverse=True)[:top], 'misc values', k)
        mon.eq(vals, [(v, want[k][v]) for v, _ in vals], 'misc values', k)
        mon.eq(len({v for v, _ in vals}), len(vals), 'misc values', k)
    out, _ = run(mon, docs, 'corefud.MiscStatsTex', **p)
    seen = {}
    for line in out.split('\n')[:-1]:
        mt = re.match(r' \\item attribute \\attr\{(.*?)\}, ([\d,]+) occurrences, values: ', line)
        mon.ok(mt, 'misc tex', line)
        vals = re.findall(r'\\attr\{(.*?)\} ([\d.]+)~\\%', line[mt.end():])
        mon.ok(not re.search(r'(?<!\\)_', line), 'misc tex', f'an underscore is not escaped in {line!r}')
        key = mt.group(1).replace('\\_', '_')
        seen[key] = int(mt.group(2).replace(',', ''))
        n = sum(want[key].values())
        back = [(v.replace('\\_', '_'), float(f)) for v, f in vals] if '{' not in ''.join(want[key]) else None
        if back is not None:
            mon.eq(len(back), min(top, len(want[key])), 'misc tex', key)
            for v, f in back:
                mon.ok(abs(f - 100 * want[key][v] / n) <= 0.05 + 1e-9, 'misc tex', f'{key}={v}: {f}')
    mon.eq(seen, {k: sum(c.values()) for k, c in want.items()}, 'misc tex')


WORKLOADS = [Workload('stats', stats, 1000, 20000), Workload('gaps', gaps, 800, 15000), Workload('pairs', mark_pairs, 3000, 25000),
             Workload('marks', mark_blocks, 4500, 30000), Workload('entities', entities, 1000, 15000), Workload('mentions', mentions, 3000, 20000),
             Workload('parents', single_parent, 900, 10000), Workload('old', old_style, 1500, 20000), Workload('ids', old_ids, 1200, 15000),
             Workload('misc', misc_stats, 600, 5000)]
