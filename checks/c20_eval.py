"""C20: evaluation scores equal their definitions."""
import os
import re
import sys

from lib import gen
from lib.vf import Logs, Workload, captured
from udapi.core.document import Document
from udapi.core.run import create_block

ID = 'C20'
RULE = 'distinct (gold and predicted sentences, evaluation options) pairs for which every printed number was recomputed from the definition'
NEEDS = ['oracle.parsing scores', 'oracle.tokens do not match', 'oracle.F1 totals', 'oracle.F1 details', 'oracle.F1 focus', 'oracle.F1 swapped', 'oracle.conll17', 'oracle.conll18',
         'oracle.raw counts', 'oracle.counts table', 'oracle.itself', 'oracle.input unchanged', 'oracle.swapped', 'oracle.bounds', 'oracle.f1 property', 'oracle.bootstrap',
         'events.aligned words', 'events.unaligned words', 'events.nonzero MLAS', 'events.function word difference', 'events.focused token', 'events.output to a file']
ASSUMPTIONS = ['the CoNLL tables are recomputed exactly when the alignment is unambiguous (equal tokenization, or words unique in the sentence and in the same order); '
               'otherwise only the relations between the numbers are checked',
               'F1 with focus is exact when the tokens out of focus are unique in the sentence; otherwise it is bounded',
               'deprels are defined']

CONTENT = set('nsubj obj iobj csubj ccomp xcomp obl vocative expl dislocated advcl advmod discourse nmod appos nummod acl amod conj fixed flat '
              'compound list parataxis orphan goeswith reparandum root dep'.split())
FUNC = set('aux cop mark det clf case cc'.split())
UNIV = set('PronType NumType Poss Reflex Foreign Abbr Gender Animacy Number Case Definite Degree VerbForm Mood Tense Aspect Voice Evident Polarity Person Polite'.split())
IGN17 = FUNC - set() | {'punct'}
DEPRELS = ['root', 'nsubj', 'obj', 'det', 'case', 'aux', 'mark', 'punct', 'conj', 'cc', 'nmod', 'nsubj:pass', 'aux:pass', 'det:poss', 'flat', 'cop', 'strange', '_', 'clf', 'dep', 'acl:relcl']
FEATS = ['_', 'Case=Nom', 'Case=Acc', 'Case=Nom|Number=Sing', 'Number=Sing', 'Typo=Yes', 'Case=Nom|Typo=Yes', 'Foo=Bar|Number=Plur', 'Gender[psor]=Masc']


def words(rng, forms, same=None, keep=0.0):
    """Rows (form, lemma, upos, xpos, feats, head, deprel); same = gold rows to copy from with probability keep."""
    par = gen.tree_parents(rng, len(forms))
    rows = []
    for i, f in enumerate(forms, 1):
        rows.append([f, rng.choice(['l1', 'l2', '_', 'L1']), rng.choice(['NOUN', 'VERB', 'DET', '_']), rng.choice(['x', 'y', '_']),
                     rng.choice(FEATS), par[i], rng.choice(DEPRELS)])
    return rows


def conllu(rows, sid):
    out = [f'# sent_id = {sid}']
    for i, r in enumerate(rows, 1):
        out.append('\t'.join([str(i), r[0], r[1], r[2], r[3], r[4], str(r[5]), r[6], '_', r[7] if len(r) > 7 else '_']))
    return '\n'.join(out) + '\n\n'


def near(rng, gold, mapping, forms):
    """Predicted rows: copies of the aligned gold rows with noise; mapping[pred index] = gold index (1-based)."""
    n = len(forms)
    par = gen.tree_parents(rng, n)
    back = {g: p for p, g in mapping.items()}
    noise = rng.choice([0.0, 0.1, 0.3])
    rows = []
    for i in range(1, n + 1):
        row = words(rng, [forms[i - 1]])[0]
        row[5] = par[i]
        if i in mapping:
            g = gold[mapping[i] - 1]
            for k in range(1, 5):
                if rng.random() >= noise:
                    row[k] = g[k]
            if rng.random() >= noise:
                row[6] = g[6]
            elif rng.random() < 0.4 and g[6] != '_':
                row[6] = g[6].split(':')[0] + ':sub'
            row[5] = None
            if rng.random() >= noise:
                row[5] = 0 if g[5] == 0 else back.get(g[5])
        rows.append(row)
    # heads that are still undefined, without cycles
    for i in range(1, n + 1):
        if rows[i - 1][5] is None:
            rows[i - 1][5] = par[i]
    for i in range(1, n + 1):
        seen, k = set(), i
        while k and k not in seen:
            seen.add(k)
            k = rows[k - 1][5]
        if k:
            rows[k - 1][5] = 0
    return rows


def udep(d):
    return d.split(':')[0]


def ufeats(f):
    return sorted(x for x in f.split('|') if x.split('=')[0] in UNIV)


def sentence(rng, kind, swap=False):
    """(gold rows, pred rows, mapping pred -> gold, exact?)"""
    n = rng.choice([1, 2, 3, 4, 6, 9, 12])
    if kind == 'same':
        forms = [rng.choice(['a', 'b', 'the', ',', '.', 'A', 'x_y', 'Ž', 'ß', 'straße', 'σας']) for _ in range(n)]
        mapping = {i: i for i in range(1, n + 1)}
        gold = words(rng, forms)
        pf = [f if rng.random() < 0.9 or f.swapcase().lower() != f.lower() else f.swapcase() for f in forms]
    elif kind == 'unique':
        units = [f'u{k}.' for k in range(n)]

        def spans():
            out, k = [], 0
            while k < n:
                e = min(n, k + rng.choice([1, 1, 1, 1, 2, 3]))
                out.append((k, e))
                k = e
            return out
        gs, ps = spans(), spans()
        mapping = {i: gs.index(s) + 1 for i, s in enumerate(ps, 1) if s in gs}
        gold = words(rng, [''.join(units[a:b]) for a, b in gs])
        pf = [''.join(units[a:b]) for a, b in ps]
        pf = [f if rng.random() < 0.9 else f.upper() for f in pf]
        if swap and len(pf) > 1 and rng.random() < 0.4:     # neighbours change places
            for _ in range(rng.choice([1, 1, 2])):
                k = rng.randrange(len(pf) - 1)
                pf[k], pf[k + 1] = pf[k + 1], pf[k]
            mapping = {}
    else:
        gold = words(rng, [rng.choice(['a', 'b', 'c', 'the', ',']) for _ in range(n)])
        pf = [rng.choice(['a', 'b', 'c', 'the', ',']) for _ in range(rng.randint(1, 12))]
        mapping = {}
    pred = near(rng, gold, mapping, pf)
    if kind != 'ambiguous' and rng.random() < 0.2:
        for r in pred:
            if rng.random() < 0.2:
                r.append(rng.choice(['Rehanged=Yes', 'FuncChildMissing=Yes', 'FuncChildMissing=Yes|Rehanged=Yes']))
    return gold, pred, mapping


def make(rng, mon, kind, nsent=None, swap=False):
    sents = [sentence(rng, kind, swap) for _ in range(nsent or rng.choice([1, 2, 3]))]
    text = ''
    zone = rng.choice(['', '/pred', '/en_x'])
    for k, (g, p, _) in enumerate(sents):
        parts = [conllu(g, f's{k}/gold'), conllu(p, f's{k}{zone}')]
        if rng.random() < 0.3:
            parts.reverse()
        text += ''.join(parts)
    mon.note(input=text)
    doc = Document()
    doc.from_conllu_string(text)
    mon.eq(len(doc.bundles), len(sents), 'input unchanged', 'bundles')
    return doc, sents, zone


def run(mon, rng, docs, name, **kw):
    """Run the block on the documents as in a scenario; returns the printed text."""
    before = [d.to_conllu_string() for d in docs]
    path = None
    if rng.random() < 0.05 and not kw.get('print_raw'):
        path = os.path.join(mon.scratch(), f'out{len(os.listdir(mon.scratch()))}.txt')
        kw['files'] = path
        mon.event('output to a file')
    with captured() as buf, Logs():
        block = create_block(name, **kw)
        block.process_start()
        for d in docs:
            block.apply_on_document(d)
        block.process_end()
    mon.eq([d.to_conllu_string() for d in docs], before, 'input unchanged')
    if path:
        mon.eq(buf.getvalue(), '', 'input unchanged', 'nothing on standard output')
        with open(path, encoding='utf-8') as f:
            return f.read(), block
    return buf.getvalue(), block


def pct(x):
    return f'{100 * x:.2f}'


def parsing(rng, mon, i):
    docs, all_sents = [], []
    zone = rng.choice(['', '/pred'])
    for _ in range(rng.choice([1, 1, 2])):
        doc, sents, zone = make(rng, mon, 'same')
        docs.append(doc)
        all_sents += sents
    if rng.random() < 0.1:
        g, p, _ = all_sents[0]
        doc = Document()
        short = [r[:5] + [0] + r[6:] for r in p][:-1] or [p[0][:5] + [0, 'x'], p[0][:5] + [0, 'x']]
        doc.from_conllu_string(conllu(g, 's/gold') + conllu(short, 's'))
        with captured():
            mon.raises(lambda: create_block('eval.Parsing', gold_zone='gold').apply_on_document(doc), 'tokens do not match', ValueError)
    out, _ = run(mon, rng, docs, 'eval.Parsing', gold_zone='gold')
    n = uas = las = ulas = 0
    for g, p, _ in all_sents:
        for a, b in zip(g, p):
            n += 1
            if a[5] == b[5]:
                uas += 1
                las += a[6] == b[6]
                ulas += udep(a[6]) == udep(b[6])
    want = f'nodes = {n}\nUAS           = {100 * uas / n:6.2f}\nLAS (deprel)  = {100 * las / n:6.2f}\nLAS (udeprel) = {100 * ulas / n:6.2f}\n'
    mon.eq(out, want, 'parsing scores')
    mon.state('parsing', out + repr(all_sents))
    same, _ = run(mon, rng, [docs[0]], 'eval.Parsing', gold_zone='gold', zones='gold')
    mon.eq(same.split()[2], '0', 'itself', 'the gold zone is not compared with itself')


# ---------------------------------------------------------------- eval.F1

def lcs(a, b):
    """Length of the longest common subsequence."""
    prev = [0] * (len(b) + 1)
    for x in a:
        cur = [0]
        for j, y in enumerate(b):
            cur.append(prev[j] + 1 if x == y else max(prev[j + 1], cur[-1]))
        prev = cur
    return prev[-1]


ATTRS = ['form', 'form', 'form', 'form,upos', 'lemma', 'upos', 'form,deprel', 'upos,feats', 'form,lemma,xpos', 'upos,p_upos', 'form,udeprel', 'form,ord', 'dir,deprel']


def value(rows, i, name):
    v = raw_value(rows, i, name)
    return 'None' if v == '_' and name in ('upos', 'xpos', 'deprel', 'udeprel', 'p_upos') else v   # undefined values


def raw_value(rows, i, name):
    r = rows[i]
    if name == 'udeprel':
        return udep(r[6])
    if name == 'ord':
        return str(i + 1)
    if name == 'p_upos':
        return '<ROOT>' if r[5] == 0 else rows[r[5] - 1][2]
    if name == 'dir':
        return 'root' if r[5] == 0 else 'left' if i + 1 < r[5] else 'right'
    return r[['form', 'lemma', 'upos', 'xpos', 'feats', 'head', 'deprel'].index(name)]


def tokens(rows, attrs):
    return ['_'.join(value(rows, i, a) for a in attrs.split(',')) for i in range(len(rows))]


def parse_f1(out):
    d = {}
    for m in re.finditer(r'^(predicted|gold|correct|precision|recall|F1) +=  *([\d.]+)(%?)$', out, re.M):
        d[m.group(1)] = m.group(2)
    return d


def f1(rng, mon, i):
    docs, sents = [], []
    kind = rng.choice(['same', 'ambiguous', 'ambiguous', 'unique'])
    n_docs = rng.choice([1, 1, 2])
    zone = None
    for _ in range(n_docs):
        doc, s, z = make(rng, mon, kind, swap=True)
        if zone is not None and z != zone:
            continue
        zone = z
        docs.append(doc)
        sents += s
    attrs = rng.choice(ATTRS)
    focus = rng.choice([None, None, 'a', '(?i)the', 'a|b|,', '.*', 'zz', '[a-c]_.*', 'a_NOUN|the_DET', '.*_nsubj', 'NOUN'])
    if kind == 'unique' and focus is not None:
        focus = rng.choice([r'u[024]\..*', r'u.\..*', r'U?u?3.*', '.*_NOUN'])
    details = rng.choice([4, 0, 1, 100])
    kw = dict(gold_zone='gold', attributes=attrs, details=details)
    if focus is not None:
        kw['focus'] = focus
    mon.note(options=kw)
    out, block = run(mon, rng, docs, 'eval.F1', **kw)
    pred = [tokens(p, attrs) for _, p, _ in sents]
    gold = [tokens(g, attrs) for g, _, _ in sents]
    got = parse_f1(out)
    mon.eq(sorted(got), sorted(['predicted', 'gold', 'correct', 'precision', 'recall', 'F1']), 'F1 totals', lambda: out)
    exact = True
    if focus is None:
        want = sum(lcs(a, b) for a, b in zip(pred, gold))
        fp, fg = pred, gold
    else:
        rx = re.compile(focus)
        fp = [[x for x in s if rx.fullmatch(x)] for s in pred]
        fg = [[x for x in s if rx.fullmatch(x)] for s in gold]
        want = 0
        for a, b in zip(pred, gold):
            na, nb = [x for x in a if not rx.fullmatch(x)], [x for x in b if not rx.fullmatch(x)]
            if len(set(na)) < len(na) or len(set(nb)) < len(nb) or [x for x in na if x in nb] != [x for x in nb if x in na]:
                exact = False
                continue
            # The tokens out of focus are aligned in the only way; the rest is aligned between them.
            shared = [x for x in na if x in nb]
            ga, gb = gaps(a, shared), gaps(b, shared)
            want += sum(lcs([x for x in u if rx.fullmatch(x)], [x for x in v if rx.fullmatch(x)]) for u, v in zip(ga, gb))
        mon.event('focused token', sum(map(len, fp)))
    npred, ngold = sum(map(len, fp)), sum(map(len, fg))
    mon.eq(int(got['predicted']), npred, 'F1 totals', 'predicted')
    mon.eq(int(got['gold']), ngold, 'F1 totals', 'gold')
    correct = int(got['correct'])
    if exact:
        mon.eq(correct, want, 'F1 totals' if focus is None else 'F1 focus', lambda: (pred, gold))
    else:
        mon.ok(want <= correct <= sum(lcs(a, b) for a, b in zip(fp, fg)), 'F1 focus', lambda: ('bounds', correct, pred, gold))
    p, r = correct / (npred or 1), correct / (ngold or 1)
    f = 2 * p * r / (p + r) if p + r else 0
    mon.eq([got['precision'], got['recall'], got['F1']], [pct(p), pct(r), pct(f)], 'F1 totals', 'P/R/F1')
    mon.ok(abs(block.f1 - f) < 1e-9, 'f1 property')
    if details:
        counts = {}
        for s, k in ((fp, 0), (fg, 1)):
            for x in (t for q in s for t in q):
                counts.setdefault(x, [0, 0])[k] += 1
        lines = out.split('=== Details ===\n')[1].split('=== Totals ===')[0].splitlines()
        mon.ok(lines[0].split() == ['token', 'pred', 'gold', 'corr', 'prec', 'rec', 'F1'], 'F1 details')
        mon.eq(len(lines) - 1, min(details, len(counts)), 'F1 details', 'number of lines')
        sums, corr, seen = [], 0, set()
        for line in lines[1:]:
            tok, a, b, c, pr, rc, f_ = line.rsplit(None, 6)
            tok = tok.rstrip() if tok.rstrip() in counts else tok
            mon.ok(tok in counts and tok not in seen, 'F1 details', lambda: f'token {tok}')
            seen.add(tok)
            mon.eq([int(a), int(b)], counts[tok], 'F1 details', lambda: tok)
            mon.ok(int(c) <= min(int(a), int(b)), 'F1 details', lambda: tok)
            p1, r1 = int(c) / (int(a) or 1), int(c) / (int(b) or 1)
            mon.eq([pr, rc, f_], [pct(p1) + '%', pct(r1) + '%', pct(2 * p1 * r1 / (p1 + r1) if p1 + r1 else 0) + '%'], 'F1 details', lambda: tok)
            sums.append(int(a) + int(b))
            corr += int(c)
        mon.ok(sums == sorted(sums, reverse=True) and sums == sorted((sum(v) for v in counts.values()), reverse=True)[:len(sums)], 'F1 details', 'most frequent first')
        if details >= len(counts):
            mon.eq(corr, correct, 'F1 details', 'sum of correct')
    # Swapping gold and prediction swaps precision and recall (without focus, or with an unambiguous alignment).
    if exact:
        pz = docs[0].bundles[0].trees
        pz = [t.zone for t in pz if t.zone != 'gold'][0]
        out2, _ = run(mon, rng, docs, 'eval.F1', **dict(kw, gold_zone=pz))
        g2 = parse_f1(out2)
        mon.eq([g2[k] for k in ('predicted', 'gold', 'correct', 'precision', 'recall', 'F1')],
               [got[k] for k in ('gold', 'predicted', 'correct', 'recall', 'precision', 'F1')], 'F1 swapped')
    mon.state('f1', repr((attrs, focus, pred, gold)))


def gaps(seq, shared):
    out, k = [[]], 0
    for x in seq:
        if k < len(shared) and x == shared[k]:
            out.append([])
            k += 1
        else:
            out[-1].append(x)
    return out


# ---------------------------------------------------------------- CoNLL shared tasks

def counts17(g, p, mp):
    c = dict.fromkeys(('Words', 'UPOS', 'XPOS', 'Feats', 'Lemma', 'UAS', 'LAS', 'CLAS'), 0)
    back = dict(mp)
    back[0] = 0
    for i, j in mp.items():
        a, b = p[i - 1], g[j - 1]
        c['Words'] += 1
        c['UPOS'] += a[2] == b[2]
        c['XPOS'] += a[3] == b[3]
        c['Feats'] += a[4] == b[4]
        c['Lemma'] += a[1] == b[1]
        head = a[5] in back and back[a[5]] == b[5]
        c['UAS'] += head
        c['LAS'] += head and udep(a[6]) == udep(b[6])
        c['CLAS'] += head and udep(a[6]) == udep(b[6]) and udep(b[6]) not in IGN17
    t = dict(c, pred=len(p), gold=len(g), pred_c=sum(udep(r[6]) not in IGN17 for r in p), gold_c=sum(udep(r[6]) not in IGN17 for r in g),
             alig_c=sum(udep(g[j - 1][6]) not in IGN17 for j in mp.values()))
    return t


def counts18(g, p, mp, mon):
    c = dict.fromkeys(('Words', 'UPOS', 'XPOS', 'UFeats', 'AllTags', 'Lemmas', 'UAS', 'LAS', 'CLAS', 'MLAS', 'BLEX'), 0)
    back = dict(mp)
    back[0] = 0
    reh = [len(r) > 7 and 'Rehanged' in r[7] for r in p]
    miss = [len(r) > 7 and 'FuncChildMissing' in r[7] for r in p]

    def func(rows, h, skip=None):
        return [k for k, r in enumerate(rows, 1) if r[5] == h and udep(r[6]) in FUNC and not (skip and skip[k - 1])]
    for i, j in mp.items():
        a, b = p[i - 1], g[j - 1]
        fe = ufeats(a[4]) == ufeats(b[4])
        c['Words'] += 1
        c['UPOS'] += a[2] == b[2]
        c['XPOS'] += a[3] == b[3]
        c['UFeats'] += fe
        c['AllTags'] += fe and a[2] == b[2] and a[3] == b[3]
        lem = b[1] == '_' or a[1] == b[1]
        c['Lemmas'] += lem
        head = a[5] in back and back[a[5]] == b[5] and not reh[i - 1]
        c['UAS'] += head
        las = head and udep(a[6]) == udep(b[6])
        c['LAS'] += las
        if las and udep(b[6]) in CONTENT:
            c['CLAS'] += 1
            c['BLEX'] += lem
            fa, fb = func(p, i, reh), func(g, j)
            ok = a[2] == b[2] and fe and not miss[i - 1]
            kids_a = [(back.get(k), udep(p[k - 1][6]), p[k - 1][2], ufeats(p[k - 1][4])) for k in fa]
            kids_b = [(k, udep(g[k - 1][6]), g[k - 1][2], ufeats(g[k - 1][4])) for k in fb]
            c['MLAS'] += ok and kids_a == kids_b
            mon.event('function word difference', ok and kids_a != kids_b)
    mon.event('nonzero MLAS', c['MLAS'] > 0)
    return dict(c, pred=len(p), gold=len(g), pred_c=sum(udep(r[6]) in CONTENT for r in p), gold_c=sum(udep(r[6]) in CONTENT for r in g),
                alig_c=sum(udep(g[j - 1][6]) in CONTENT for j in mp.values()))


def table(total, metrics, restricted, words_acc, as_counts=False):
    lines = ['Metric     | Correct   |      Gold | Predicted | Aligned' if as_counts else 'Metric     | Precision |    Recall |  F1 Score | AligndAcc',
             '-----------+-----------+-----------+-----------+-----------']
    for m in metrics:
        c = total[m]
        pr, go, al = (total['pred_c'], total['gold_c'], total['alig_c']) if m in restricted else (total['pred'], total['gold'], total['Words'])
        if as_counts:
            lines.append('|'.join([m, str(c), str(go), str(pr), str(al)]))
        else:
            lines.append('|'.join([m, pct(c / pr if pr else 0), pct(c / go if go else 0), pct(2 * c / (pr + go) if pr + go else 0),
                                   pct(c / al if al else 0) if m != 'Words' or words_acc else '']))
    return lines


def compact(out):
    lines = out.splitlines()
    return lines[:2] + ['|'.join(x.strip() for x in line.split('|')) for line in lines[2:]]


M17 = ('Words', 'UPOS', 'XPOS', 'Feats', 'Lemma', 'UAS', 'LAS', 'CLAS')
M18 = ('Words', 'UPOS', 'XPOS', 'UFeats', 'AllTags', 'Lemmas', 'UAS', 'LAS', 'CLAS', 'MLAS', 'BLEX')


def total_of(per):
    return {k: sum(x[k] for x in per) for k in per[0]}


def conll(rng, mon, i):
    kind = rng.choice(['same', 'unique', 'unique', 'ambiguous'])
    docs, sents = [], []
    zone = None
    for _ in range(rng.choice([1, 1, 2])):
        doc, s, z = make(rng, mon, kind)
        if zone is not None and z != zone:
            continue
        zone = z
        docs.append(doc)
        sents += s
    out17, _ = run(mon, rng, docs, 'eval.Conll17', gold_zone='gold')
    out18, _ = run(mon, rng, docs, 'eval.Conll18')
    mon.state('conll', repr(sents))
    if kind == 'ambiguous':
        for out, metrics in ((out17, M17), (out18, M18)):
            rows = [line.split('|') for line in compact(out)[2:]]
            mon.eq([r[0] for r in rows], list(metrics), 'bounds')
            npred, ngold = sum(len(p) for _, p, _ in sents), sum(len(g) for g, _, _ in sents)
            best = sum(lcs([r[0].lower() for r in p], [r[0].lower() for r in g]) for g, p, _ in sents)
            w = round(float(rows[0][1]) * npred / 100)
            mon.ok(rows[0][1:4] == [pct(w / npred), pct(w / ngold), pct(2 * w / (npred + ngold))], 'bounds', lambda: rows[0])
            mon.ok(w <= best, 'bounds', 'aligned words')
            mon.ok(w > 0 or best == 0, 'bounds', 'nothing aligned')
            for r in rows[1:]:
                mon.ok(0 <= float(r[3]) <= 100 and 0 <= float(r[4]) <= 100, 'bounds', lambda: r)
                if r[0] not in ('CLAS', 'MLAS', 'BLEX'):
                    mon.ok(all(float(r[k]) <= float(rows[0][k]) for k in (1, 2, 3)), 'bounds', lambda: r)
        return
    mon.event('aligned words', sum(len(m) for _, _, m in sents))
    mon.event('unaligned words', sum(len(p) - len(m) for _, p, m in sents))
    per17 = [counts17(g, p, m) for g, p, m in sents]
    per18 = [counts18(g, p, m, mon) for g, p, m in sents]
    mon.eq(compact(out17), table(total_of(per17), M17, {'CLAS'}, True), 'conll17')
    mon.eq(compact(out18), table(total_of(per18), M18, {'CLAS', 'MLAS', 'BLEX'}, False), 'conll18')
    if rng.random() < 0.4:
        out, _ = run(mon, rng, docs, 'eval.Conll18', print_counts=1)
        mon.eq(compact(out), table(total_of(per18), M18, {'CLAS', 'MLAS', 'BLEX'}, False, True), 'counts table')
    if rng.random() < 0.4:
        m = rng.choice(['UAS', 'LAS', 'MLAS', 'BLEX', 'UPOS', 'XPOS', 'CLAS', 'UFeats', 'Lemmas'])
        out, _ = run(mon, rng, docs, 'eval.Conll18', print_raw=m, print_results=0)
        keys = ('pred_c', 'gold_c', 'alig_c', m) if m in ('CLAS', 'MLAS', 'BLEX') else ('pred', 'gold', 'Words', m)
        mon.eq(out.splitlines(), [' '.join(str(x[k]) for k in keys) for x in per18], 'raw counts')
        out, _ = run(mon, rng, docs, 'eval.Conll17', print_raw=1, print_results=0)
        mon.eq(out.splitlines(), [' '.join(str(x[k]) for k in ('pred', 'gold', 'Words', 'LAS')) for x in per17], 'raw counts')
    # swapped: precision and recall change places for the metrics that are symmetric
    if not any(len(r) > 7 for _, p, _ in sents for r in p):
        pz = [t.zone for t in docs[0].bundles[0].trees if t.zone != 'gold'][0]
        rev, _ = run(mon, rng, docs, 'eval.Conll17', gold_zone=pz)
        for a, b in zip(compact(out17)[2:], compact(rev)[2:]):
            a, b = a.split('|'), b.split('|')
            mon.eq([a[0], a[1], a[2], a[3]], [b[0], b[2], b[1], b[3]], 'swapped')


def itself(rng, mon, i):
    """A copy of the gold zone scores 100 % everywhere."""
    kind = rng.choice(['same', 'unique', 'ambiguous'])
    sents = [sentence(rng, kind)[0] for _ in range(rng.choice([1, 2]))]
    text = ''.join(conllu(g, f's{k}/gold') + conllu(g, f's{k}') for k, g in enumerate(sents))
    mon.note(input=text)
    doc = Document()
    doc.from_conllu_string(text)
    out, _ = run(mon, rng, [doc], 'eval.Parsing', gold_zone='gold')
    mon.eq([x.split()[-1] for x in out.splitlines()], [str(sum(map(len, sents)))] + ['100.00'] * 3, 'itself')
    focus = rng.choice([None, 'a|b', '(?i)the.*', '.*_NOUN', '.*'])
    attrs = rng.choice(ATTRS)
    kw = dict(gold_zone='gold', attributes=attrs)
    if focus:
        kw['focus'] = focus
    out, _ = run(mon, rng, [doc], 'eval.F1', **kw)
    got = parse_f1(out)
    mon.ok(got['predicted'] == got['gold'] == got['correct'], 'itself', lambda: out)
    if int(got['gold']):
        mon.eq([got['precision'], got['recall'], got['F1']], ['100.00'] * 3, 'itself')
    for name in ('eval.Conll17', 'eval.Conll18'):
        out, _ = run(mon, rng, [doc], name)
        for line in compact(out)[2:]:
            m = line.split('|')
            content = any(udep(r[6]) not in IGN17 if name.endswith('17') else udep(r[6]) in CONTENT for g in sents for r in g)
            if m[0] in ('CLAS', 'MLAS', 'BLEX') and not content:
                mon.eq(m[1:], ['0.00'] * 4, 'itself')
            else:
                mon.eq(m[1:4], ['100.00'] * 3, 'itself', lambda: line)
    mon.state('itself', repr((sents, attrs, focus)))


def bootstrap(rng, mon, i):
    """The resampling scripts on equal sentences: every resample has the same score."""
    import importlib
    mod = importlib.import_module(rng.choice(['udapi.block.eval.conll17', 'udapi.block.eval.conll18']))
    d = os.path.join(mon.scratch(), f'res{i}')
    want = {}
    tests = [f't{k}' for k in range(rng.choice([1, 1, 2]))]
    n = rng.randint(1, 4)
    for k in range(rng.randint(1, 4)):
        pred, gold = rng.randint(1, 20), rng.randint(1, 20)
        c = rng.randint(0, min(pred, gold))
        want[f'sys{k}'] = 2 * c / (pred + gold)
        os.makedirs(os.path.join(d, f'sys{k}'))
        for t in tests[:1]:
            with open(os.path.join(d, f'sys{k}', t), 'w') as f:
                f.write(f'{pred} {gold} {min(pred, gold)} {c}\n' * n)
    resamples = rng.choice([3, 5, 25])
    argv, err = sys.argv, sys.stderr
    try:
        sys.argv = ['x', '-d', d, '-r', str(resamples), '-t', tests[0]] + rng.choice([[], ['--randseed', '1']])
        with open(os.devnull, 'w') as sys.stderr, captured() as buf:
            mod.main()
    finally:
        sys.argv, sys.stderr = argv, err
    every = buf.getvalue().splitlines()
    lines = [x for x in every if not x.startswith('---')]
    mon.eq(len(lines), len(want), 'bootstrap')
    scores = []
    for rank, line in enumerate(lines, 1):
        m = re.match(r' *(\d+)\. +(\S+) +([\d.]+) ± *([\d.]+) \( *([\d.]+) \.\. +([\d.]+)\)(?: p=([\d.]+))?$', line)
        mon.ok(m is not None, 'bootstrap', line)
        mon.eq(int(m.group(1)), rank, 'bootstrap', 'rank')
        mon.eq([m.group(3), m.group(4), m.group(5), m.group(6)], [pct(want[m.group(2)]), '0.00', pct(want[m.group(2)]), pct(want[m.group(2)])], 'bootstrap', line)
        scores.append(want.pop(m.group(2)))
        # no resample of a worse system is better; in the last row there is nothing to compare with
        mon.eq(m.group(7), '%.3f' % (1 / (resamples + 1)) if want else None, 'bootstrap', line)
        at = every.index(line)
        mon.eq(every[at + 1:at + 2] != [] and every[at + 1].startswith('---'), bool(want) and resamples > 20, 'bootstrap', 'a line under a significant difference')
    mon.eq(scores, sorted(scores, reverse=True), 'bootstrap', 'order')
    mon.state('bootstrap', repr((scores, n)))


WORKLOADS = [Workload('parsing', parsing, 1300, 20000), Workload('f1', f1, 4900, 60000), Workload('conll', conll, 4100, 50000), Workload('itself', itself, 950, 10000),
             Workload('bootstrap', bootstrap, 98, 1000)]
