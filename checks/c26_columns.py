"""C26: the other column formats carry the attributes they claim."""
import os
import re

from lib import gen, treelib
from lib.vf import Logs, Workload, captured
from udapi.core.document import Document
from udapi.core.run import create_block

ID = 'C26'
RULE = 'distinct (format, columns, separator) settings and distinct documents read or written in them'
NEEDS = ['oracle.same as the CoNLL-U columns', 'oracle.ignored columns', 'oracle.wrong number of columns', 'oracle.conllup columns', 'oracle.conllup misc',
         'oracle.vislcg text', 'oracle.vislcg read back', 'oracle.vislcg written again', 'oracle.sdparse text', 'oracle.conll2012 mentions', 'oracle.conll2012 words',
         'oracle.head left out', 'events.separator.tab', 'events.separator.space', 'events.separator.doublespace', 'events.ord not first', 'events.no ord column',
         'events.multiword token', 'events.empty node', 'events.two headers', 'events.sentence-final multiword token', 'events.escaped', 'events.crossing mentions']
ASSUMPTIONS = ['column lists contain form and head; FORM values hold no separator',
               'CoNLL-U Plus files hold no empty nodes (documented as not implemented)',
               'VISL CG carries no form of the words of a multiword token (other than its space-separated parts) and distinguishes no empty value from _',
               'Stanford dependencies: forms of the document do not look like FORM-NUMBER']

STD = ['ord', 'form', 'lemma', 'upos', 'xpos', 'feats', 'head', 'deprel', 'deps', 'misc']


def blanked(line, keep):
    """A CoNLL-U line with the columns which are not in `keep` emptied."""
    f = line.split('\t')
    return '\t'.join(x if (a in keep or a == 'ord') else ('0' if a == 'head' and x.isdigit() else '_') for a, x in zip(STD, f))


def permuted(rng, line, columns, sep, junk):
    f = dict(zip(STD, line.split('\t')))
    out = [f[c] if c in f else junk(c) for c in columns]
    if sep == 'tab':
        return '\t'.join(out)
    return ''.join(x + (' ' * rng.choice([1, 1, 2, 5]) if sep == 'space' else ' ' * rng.choice([2, 3, 7])) for x in out).rstrip(' ')


def fits(sep, cell):
    if sep == 'tab':
        return True
    if sep == 'space':
        return not re.search(r'\s', cell)
    return '  ' not in cell and cell.strip() == cell


def gen_sents(rng, sep='tab', **kw):
    sents = gen.gen_doc(rng, **kw)
    for s in sents:
        for w in s.words + [e for _, _, e in s.empties]:
            for k in w:
                if not fits(sep, str(w[k])):
                    w[k] = 'y' if k in ('form', 'lemma') else '_'
        s.mwts = [(a, b, f if fits(sep, f) else 'y', m if fits(sep, m) else '_') for a, b, f, m in s.mwts]
        if any(c.startswith('# global.columns') for c in s.comments):
            s.comments = [c for c in s.comments if not c.startswith('# global.columns')]
    return sents


def load(block, text, **params):
    doc = Document()
    with Logs() as logs:
        import io
        r = create_block(block, filehandle=io.StringIO(text), **params)
        r.process_start()
        r.apply_on_document(doc)
        r.process_end()
    return doc, logs


def conll(rng, mon, i):
    """Any order of columns, any separator: the same trees as from the CoNLL-U columns."""
    sep = rng.choice(['tab', 'tab', 'space', 'doublespace'])
    mon.event('separator.' + sep)
    has_ord = rng.random() < 0.85
    keep = [c for c in STD if c in ('form', 'head') or rng.random() < 0.75]
    keep = [c for c in keep if c != 'ord'] + (['ord'] if has_ord else [])
    kw = {} if has_ord else dict(p_mwt=0, p_empty=0)
    sents = gen_sents(rng, sep, zones=rng.random() < 0.3, **kw)
    columns = list(keep)
    if rng.random() < 0.6:
        rng.shuffle(columns)
    else:
        columns.sort(key=STD.index)
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        columns.insert(rng.randint(0, len(columns)), '_')
    if has_ord and columns[0] != 'ord':
        mon.event('ord not first')
    if not has_ord:
        mon.event('no ord column')
    junk_values = ['_', 'x', '1-2', '3.1', '-', '.', '#', 'a=b', '0', '7', 'Entity=(e1)', 'č']

    def junk(c):
        return rng.choice(junk_values)

    def text_of(j):
        out = []
        for s in sents:
            for line in s.lines():
                out.append(line if '\t' not in line or line.startswith('#') else permuted(rng, line, columns, sep, j))
            out.append('')
        return '\n'.join(out) + '\n'
    # a line starting with # would be a comment
    for s in sents:
        for w in s.words + [e for _, _, e in s.empties]:
            for k, v in list(w.items()):
                if str(v).startswith('#'):
                    w[k] = 'h' + v
        s.mwts = [(a, b, 'h' + f if f.startswith('#') else f, 'h' + m if m.startswith('#') else m) for a, b, f, m in s.mwts]
    if columns[0] == '_':
        junk_values.remove('#')
    text = text_of(junk)
    ref_text = ''.join('\n'.join(line if '\t' not in line or line.startswith('#') else blanked(line, keep) for line in s.lines()) + '\n\n' for s in sents)
    mon.note(text=text, columns=columns, separator=sep, ref=ref_text)
    mon.state('columns', repr((columns, sep)))
    mon.state('document', text)
    if any(s.mwts for s in sents):
        mon.event('multiword token')
    if any(s.empties for s in sents):
        mon.event('empty node')
    params = dict(attributes=','.join(columns))
    if sep != 'tab' or rng.random() < 0.5:
        params['separator'] = sep
    doc, _ = load('read.Conll', text, **params)
    ref, _ = load('read.Conllu', ref_text)
    mon.eq(doc.to_conllu_string(), ref.to_conllu_string(), 'same as the CoNLL-U columns')
    mon.eq(len(doc.bundles), len(ref.bundles), 'same as the CoNLL-U columns', 'bundles')
    for tree in doc.trees:
        bad = treelib.malformed(tree)
        mon.ok(not bad, 'same as the CoNLL-U columns', bad)
    for a, b in zip(doc.nodes_and_empty, ref.nodes_and_empty):
        mon.eq(a.get_attrs(['ord', 'form', 'upos', 'xpos', 'feats', 'misc', 'deprel']) + [str(a.raw_deps)],
               b.get_attrs(['ord', 'form', 'upos', 'xpos', 'feats', 'misc', 'deprel']) + [str(b.raw_deps)], 'same as the CoNLL-U columns', 'attributes')
    if '_' in columns and sep == 'tab':
        again, _ = load('read.Conll', text_of(lambda c: rng.choice(junk_values)), **params)
        mon.eq(again.to_conllu_string(), doc.to_conllu_string(), 'ignored columns')
    if sep == 'tab':
        lines = text.split('\n')
        k = rng.choice([n for n, line in enumerate(lines) if '\t' in line and not line.startswith('#')] or [0])
        if '\t' in lines[k]:
            lines[k] = lines[k] + '\tmore' if rng.random() < 0.5 else lines[k].rsplit('\t', 1)[0]
            mon.raises(lambda: load('read.Conll', '\n'.join(lines), strict=1, **params), 'wrong number of columns', (RuntimeError, ValueError))
            # Not strict: what is missing at the end of the line is empty
            if columns[-1] not in ('head', 'ord', 'form') and lines[k].count('\t') < len(columns) - 1 and '.' not in lines[k].split('\t')[0]:
                short_doc, _ = load('read.Conll', '\n'.join(lines), **params)
                full = text.split('\n')
                full[k] = lines[k] + '\t_'
                full_doc, _ = load('read.Conll', '\n'.join(full), **params)
                mon.eq(short_doc.to_conllu_string(), full_doc.to_conllu_string(), 'wrong number of columns', 'not strict')
    if 'head' in columns and sep == 'tab':
        # an underscore instead of the head: refused, or (not strict) the root
        rows = [n for n, line in enumerate(text.split('\n')) if '\t' in line and not line.startswith('#')]
        lines = text.split('\n')
        rows = [n for n in rows if not has_ord or lines[n].split('\t')[columns.index('ord')].isdigit()]
        k = rng.choice(rows)
        f = lines[k].split('\t')
        f[columns.index('head')] = '_'
        lines[k] = '\t'.join(f)
        mon.raises(lambda: load('read.Conll', '\n'.join(lines), strict=1, **params), 'head left out', ValueError)
        f[columns.index('head')] = '0'
        lines2 = list(lines)
        lines2[k] = '\t'.join(f)
        a, log = load('read.Conll', '\n'.join(lines), strict=0, **params)
        b, _ = load('read.Conll', '\n'.join(lines2), **params)
        mon.eq(a.to_conllu_string(), b.to_conllu_string(), 'head left out')
        mon.ok(any('Empty parent' in m for m in log.messages()), 'head left out', 'no warning')
        c, log = load('read.Conll', '\n'.join(lines), strict=0, empty_parent='ignore', **params)
        mon.eq((c.to_conllu_string(), log.messages()), (b.to_conllu_string(), []), 'head left out', 'ignored')


EXTRA = ['PARSEME:MWE', 'CorefUD', 'X', 'SEMPRED', 'NER', 'cit', 'IOB']


def conllup(rng, mon, i):
    """CoNLL-U Plus: standard columns go to attributes, the others to MISC."""
    nfiles = rng.choice([1, 1, 2, 3])
    d = mon.scratch()
    docs, names, all_columns = [], [], []
    explicit = rng.random() < 0.25
    save = rng.random() < 0.3
    for k in range(nfiles):
        sents = gen_sents(rng, p_empty=0, nsent=rng.choice([1, 2, 3]))
        for s in sents:
            for w in s.words:
                for a in w:
                    if str(w[a]).startswith('#'):
                        w[a] = 'h' + w[a]
                if w['lemma'] == '_':
                    w['lemma'] = 'x'
            s.mwts = [(a, b, 'h' + f if f.startswith('#') else f, m) for a, b, f, m in s.mwts]
        keep = [c for c in STD if c in ('ord', 'form', 'head') or rng.random() < 0.7]
        extra = rng.sample(EXTRA, rng.randint(0, 3))
        columns = keep + extra
        if rng.random() < 0.6:
            rng.shuffle(columns)
        if rng.random() < 0.2:
            columns.insert(rng.randint(0, len(columns)), '_')
        if explicit and all_columns:
            columns = all_columns[0]
            keep, extra = [c for c in columns if c in STD], [c for c in columns if c in EXTRA]
        all_columns.append(columns)
        header = ' '.join({'ord': 'ID'}.get(c, c.upper()) if c in STD else c for c in columns)
        lines, ref_sents = [], []
        if not explicit:
            if rng.random() < 0.2:
                lines.append('# generator = x')
            lines.append('# global.columns = ' + header)
        want_misc = []
        for s in sents:
            for line in s.lines():
                if line.startswith('#') or '\t' not in line:
                    lines.append(line)
                    continue
                f = dict(zip(STD, line.split('\t')))
                cells, more = [], {}
                for c in columns:
                    if c in STD:
                        cells.append(f[c])
                    else:
                        v = rng.choice(['_', '_', 'v1', '(1-per', '*', 'a=b', 'B-LOC', '0'])
                        cells.append(v)
                        if v != '_' and c != '_':
                            more[c.lower().capitalize()] = v
                lines.append('\t'.join(cells))
                if '-' not in f['ord']:
                    want_misc.append(more)
            lines.append('')
        text = '\n'.join(lines) + '\n'
        nm = os.path.join(d, f'f{k}.conllup')
        with open(nm, 'w', encoding='utf-8') as fh:
            fh.write(text)
        names.append(nm)
        before = ['# generator = x'] * lines.count('# generator = x')
        docs.append((sents, keep, want_misc, header, text, before))
    if nfiles > 1 and not explicit and len(set(map(tuple, all_columns))) > 1:
        mon.event('two headers')
    params = dict(files=names)
    if explicit:
        params['attributes'] = ','.join(c if c in STD else c for c in all_columns[0])
    if save:
        params['save_global_columns'] = 1
    mon.note(texts='\n=====\n'.join(t[4] for t in docs), params=params)
    mon.state('columns', repr(all_columns))
    with Logs():
        reader = create_block('read.Conllup', **params)
        reader.process_start()
        for sents, keep, want_misc, header, text, before in docs:
            doc = Document()
            reader.apply_on_document(doc)
            mon.state('document', text)
            ref_text = ''.join('\n'.join(line if '\t' not in line or line.startswith('#') else blanked(line, keep) for line in s.lines()) + '\n\n' for s in sents)
            ref_text = ''.join(x + '\n' for x in before) + ref_text
            ref, _ = load('read.Conllu', ref_text)
            mon.eq([(n.form, n.lemma or '_', n.upos, n.deprel) for n in doc.nodes], [(n.form, n.lemma or '_', n.upos, n.deprel) for n in ref.nodes], 'conllup columns', 'attributes')
            nodes, ref_nodes = list(doc.nodes), list(ref.nodes)
            mon.eq(len(nodes), len(ref_nodes), 'conllup columns', 'nodes')
            for n, r, more in zip(nodes, ref_nodes, want_misc):
                want = {k: v for k, v in r.misc.items()}
                want.update(more)
                mon.eq({k: v for k, v in n.misc.items()}, want, 'conllup misc')
                for k in more:
                    del n.misc[k]
                r.misc = str(r.misc)
                n.misc = dict(n.misc)
            if save and not explicit:
                first = next(iter(doc.trees))
                mon.ok(f'global.columns = {header}' in first.comment, 'conllup columns', 'header kept')
                first.comment = first.comment.replace(f' global.columns = {header}\n', '')
            for r in ref_nodes:
                r.misc = dict(r.misc)
            mon.eq(doc.to_conllu_string(), ref.to_conllu_string(), 'conllup columns')
        mon.ok(reader.finished, 'conllup columns', 'reader not finished')
    # a line with fewer columns: refused, or (not strict) the rest is empty
    lines = docs[0][4].split('\n')
    columns = all_columns[0]
    rows = [k for k, x in enumerate(lines) if '\t' in x and not x.startswith('#') and (columns.index('ord') == len(columns) - 1 or x.split('\t')[columns.index('ord')].isdigit())]
    if rows and columns[-1] not in ('ord', 'form', 'head', '_') and len(columns) > 1:
        k = rng.choice(rows)
        cells = lines[k].split('\t')[:-1]
        more = dict(attributes=params['attributes']) if explicit else {}
        lines[k] = '\t'.join(cells)
        mon.raises(lambda: load('read.Conllup', '\n'.join(lines), strict=1, **more), 'wrong number of columns', RuntimeError)
        short, _ = load('read.Conllup', '\n'.join(lines), **more)
        lines[k] += '\t_'
        full, _ = load('read.Conllup', '\n'.join(lines), **more)
        mon.eq([(n.get_attrs(['ord', 'form', 'lemma', 'upos', 'xpos', 'feats', 'deprel', 'misc']), n.raw_deps) for n in short.nodes],
               [(n.get_attrs(['ord', 'form', 'lemma', 'upos', 'xpos', 'feats', 'deprel', 'misc']), n.raw_deps) for n in full.nodes], 'wrong number of columns', 'not strict')


ESC = [('§', '§sect.'), ('"', '§quot.'), ('#', '§num.'), (';', '§semi.'), ('=', '§equals.'), ('(', '§lpar.'), (')', '§rpar.'), ('|', '§verbar.')]


def visl_escape(s):
    for a, b in ESC:
        s = s.replace(a, b)
    return s


def vislcg(rng, mon, i):
    """write.Vislcg prints every token and word; read.Vislcg restores them."""
    sents = gen.gen_doc(rng, p_empty=0, p_deps=0, nsent=rng.choice([1, 1, 2, 3]))
    words = ['§', 'a§b', '"', 'x"y"', ';', '(a)', '§quot.', 'a;b#c=d|e', '"<x>"', '@', '-', 'a  b'] + gen.FORMS
    for s in sents:
        if rng.random() < 0.3 and len(s.words) > 1:
            a = rng.randint(1, len(s.words) - 1)
            s.mwts = [m for m in s.mwts if m[1] < a] + [(a, len(s.words), rng.choice(gen.FORMS), '_')]
        s.mwts = [(a, b, rng.choice(words) if (c := rng.random()) < 0.3 else ' '.join(rng.choice(['de', 'le', 'x(y)', '3']) for _ in range(rng.randint(1, 5))) if c < 0.6 else f, '_') for a, b, f, m in s.mwts]
        if any(b == len(s.words) for _, b, _, _ in s.mwts):
            mon.event('sentence-final multiword token')
        for w in s.words:
            w['upos'] = w['deps'] = w['misc'] = '_'
            if rng.random() < 0.2:
                w['form'] = rng.choice(words)
            if rng.random() < 0.2:
                w['lemma'] = rng.choice(words)
            if rng.random() < 0.3:
                w['xpos'] = rng.choice(['n', 'prn', 'a;b', '(x)', '"', 'A=1'])
            if rng.random() < 0.5:
                w['feats'] = '|'.join(rng.sample(['p3', 'sg', 'nom', 'px3sp', 'aor', 'cm', 'x(y)'], rng.randint(1, 4)))
        s.comments = []
    text = gen.to_text(sents)
    mon.note(text=text)
    mon.state('document', text)
    doc, _ = load('read.Conllu', text)
    with captured() as out:
        create_block('write.Vislcg').run(doc)
    got = out.getvalue()
    want, back = '', []
    for s in sents:
        lead = {a: (b, f) for a, b, f, _ in s.mwts}
        k, forms = 1, []
        while k <= len(s.words):
            end, form = lead.get(k, (k, s.words[k - 1]['form']))
            want += f'"<{visl_escape(form)}>"\n'
            for j in range(k, end + 1):
                w = s.words[j - 1]
                feats = '' if w['feats'] == '_' else ' ' + ' '.join(visl_escape(x) for x in w['feats'].split('|'))
                tabs = '\t' if j == k else '\t\t'
                want += f'{tabs}"{visl_escape(w["lemma"])}" {visl_escape(w["xpos"])}{feats} @{w["deprel"]} #{j}->{w["head"]}\n'
            parts = form.split()
            if end == k:
                forms.append(form)
            elif len(parts) == end - k + 1:
                forms += parts
            else:
                forms += [form] + ['_'] * (end - k)
            k = end + 1
        want += '\n'
        back.append((forms, s))
    if '§' in want:
        mon.event('escaped')
    mon.note(written=got)
    mon.eq(got, want, 'vislcg text')
    comment = rng.choice(['', '# a comment\n#another\n'])
    again, _ = load('read.Vislcg', comment + got)
    trees = list(again.trees)
    mon.eq(len(trees), len(sents), 'vislcg read back', 'sentences')
    for n, (tree, (forms, s)) in enumerate(zip(trees, back)):
        nodes = tree.descendants
        mon.eq([x.form for x in nodes], forms, 'vislcg read back', 'forms')
        mon.eq([(x.ord, x.parent.ord, x.deprel or '_') for x in nodes], [(k, w['head'], w['deprel']) for k, w in enumerate(s.words, 1)], 'vislcg read back', 'tree')
        mon.eq([(x.lemma or '_', x.xpos or '_', str(x.feats)) for x in nodes], [(w['lemma'], w['xpos'], w['feats']) for w in s.words], 'vislcg read back', 'attributes')
        mon.eq([(m.ord_range, m.form) for m in tree.multiword_tokens], [(f'{a}-{b}', f) for a, b, f, _ in s.mwts], 'vislcg read back', 'multiword tokens')
        bad = treelib.malformed(tree)
        mon.ok(not bad, 'vislcg read back', bad)
        if n == 0 and comment:
            mon.ok(' a comment\nanother\n' in tree.comment, 'vislcg read back', 'comment')
    with captured() as out:
        create_block('write.Vislcg').run(again)
    mon.eq(out.getvalue(), want, 'vislcg written again')
    # quotes in lemmas may be left unescaped
    plain = '\n'.join(re.sub(r'^(\t+)"(.*)"(.*)$', lambda m: f'{m[1]}"{m[2].replace("§quot.", chr(34))}"{m[3]}', x) if x.startswith('\t') else x for x in got.split('\n'))
    if plain != got:
        third, _ = load('read.Vislcg', plain)
        mon.eq([[(x.form, x.lemma, x.xpos) for x in t.descendants] for t in third.trees], [[(x.form, x.lemma, x.xpos) for x in t.descendants] for t in trees], 'vislcg read back', 'quotes')
    # a head that is no word of the sentence
    s = rng.choice(sents)
    lines = got.split('\n')
    rows = [k for k, line in enumerate(lines) if re.search(r'#\d+->\d+$', line)]
    k = rng.choice(rows)
    lines[k] = re.sub(r'->\d+$', f'->{len(max(sents, key=lambda x: len(x.words)).words) + rng.randint(1, 9)}', lines[k])
    mon.note(bad='\n'.join(lines))
    mon.raises(lambda: load('read.Vislcg', '\n'.join(lines)), 'vislcg read back', ValueError)


def sdparse(rng, mon, i):
    """write.Sdparse names every edge and numbers the forms which repeat."""
    sents = gen.gen_doc(rng, p_empty=0.3, p_deps=0.2)
    pool = rng.sample(gen.FORMS, 6) + ['a/b', 'c\\d']
    for s in sents:
        for w in s.words:
            if rng.random() < 0.7:
                w['form'] = rng.choice(pool)
    text = gen.to_text(sents)
    params = {k: rng.choice([0, 1]) for k in rng.sample(['print_upos', 'print_feats', 'always_ord'], rng.randint(0, 3))}
    mon.note(text=text, params=params)
    mon.state('document', text)
    doc, _ = load('read.Conllu', text)
    with captured() as out:
        create_block('write.Sdparse', **params).run(doc)
    upos, feats, always = params.get('print_upos', 1), params.get('print_feats', 0), params.get('always_ord', 0)

    def esc(x):
        return ''.join('\\' + c if c in '\\/' else c for c in x)
    want = ''
    for s in sents:
        forms = [w['form'] for w in s.words]
        cells = []
        for w in s.words:
            c = esc(w['form'])
            if upos:
                c += '/' + w['upos']
            if feats and w['feats'] != '_':
                c += ('' if upos else '/') + f'[{w["feats"]}]'
            cells.append(c)
        want += '~~~ sdparse\n' + ' '.join(cells) + '\n'

        def name(k):
            return esc(forms[k - 1] + (f'-{k}' if always or forms.count(forms[k - 1]) > 1 else ''))
        for k, w in enumerate(s.words, 1):
            if w['head']:
                want += f'{w["deprel"]}({name(w["head"])}, {name(k)})\n'
        want += '~~~\n\n'
    mon.eq(out.getvalue().replace('None(', '_('), want, 'sdparse text')


def conll2012(rng, mon, i):
    """read.Conll2012: words and the mentions of the last column."""
    style = rng.choice(['litbank', 'corrpt', 'summit'])
    columns = dict(litbank='docname,_,ord,form,_,_,_,_,_,_,_,_,coref', corrpt='ord,form,_,_,_,_,coref', summit='ord,form,_,_,_,_,_,_,coref')[style].split(',')
    text, want_words, want = '', [], {}
    first = rng.choice([0, 1])
    nd = rng.choice([1, 1, 2, 3])
    for d in range(nd):
        name = rng.choice(['doc', '1023_bleak', 'D1_C30_Folha', 'x-y']) + str(d)
        head = dict(litbank=f'({name}); part 0', corrpt=f'{name}.txt.xml', summit=f'/home/a/b/{name}.txt')[style]
        text += f'#begin document {head}\n'
        for _ in range(rng.randint(1, 3)):
            n = rng.randint(1, 9)
            words = [rng.choice([f for f in gen.FORMS if not f.startswith('#')]) for _ in range(n)]
            ms = []
            used = set()
            for e in range(rng.choice([0, 1, 2, 4, 6])):
                a = rng.randint(1, n)
                b = min(n, a + rng.choice([0, 0, 1, 2, 5]))
                num = rng.randint(1, 9)
                if any(x == num and not (b2 < a or b < a2) for a2, b2, x in ms):
                    continue    # mentions of one entity do not overlap
                if (a, b) in used:
                    continue
                used.add((a, b))
                ms.append((a, b, num))
            if any(a < a2 <= b < b2 for a, b, _ in ms for a2, b2, _ in ms):
                mon.event('crossing mentions')
            sent = len(want_words)
            for a, b, num in ms:
                want.setdefault((name.replace('-', ''), num), []).append((sent, a, b))
            want_words.append(words)
            for k, w in enumerate(words, 1):
                chunks = [f'({num})' for a, b, num in ms if a == b == k] + [f'{num})' for a, b, num in ms if a < b == k]
                rng.shuffle(chunks)
                opening = [f'({num}' for a, b, num in sorted(ms, key=lambda m: -m[1]) if a == k < b]
                pos = 0
                for o in opening:
                    pos = rng.randint(pos, len(chunks))
                    if style == 'summit':
                        pos = len(chunks)
                    chunks.insert(pos, o)
                    pos += 1
                if style == 'summit':   # no separator between the chunks: an opening one is followed by nothing but another opening one
                    cell = ''.join(chunks)
                else:
                    cell = '|'.join(chunks)
                row = []
                for c in columns:
                    row.append({'docname': name, 'ord': str(k - 1 + first), 'form': w, 'coref': cell or '_'}.get(c, rng.choice(['_', '-', 'x', '*'])))
                text += '\t'.join(row) + '\n'
            text += '\n'
        text = text + '#end document\n' if style != 'corrpt' or rng.random() < 0.5 else text[:-1] + '#end document\n'
    mon.note(text=text, style=style)
    mon.state('document', text)
    doc, log = load('read.Conll2012', text, attributes=','.join(columns))
    mon.eq([[n.form for n in t.descendants] for t in doc.trees], want_words, 'conll2012 words')
    mon.eq([t.newdoc for t in doc.trees if t.newdoc] and len([1 for t in doc.trees if t.newdoc]), nd, 'conll2012 words', 'documents')
    mon.eq(log.messages(), [], 'conll2012 words', 'warnings')
    trees = {id(t): k for k, t in enumerate(doc.trees)}
    got = {}
    for e in doc.coref_entities:
        m = re.match(r'(.*)_e(\d+)$', e.eid)
        mon.ok(m, 'conll2012 mentions', e.eid)
        got[m.group(1), int(m.group(2))] = sorted((trees[id(x.words[0].root)], x.words[0].ord, x.words[-1].ord) for x in e.mentions)
        for x in e.mentions:
            mon.eq([w.ord for w in x.words], list(range(x.words[0].ord, x.words[-1].ord + 1)), 'conll2012 mentions', 'contiguous')
    mon.eq(got, {k: sorted(v) for k, v in want.items()}, 'conll2012 mentions')


WORKLOADS = [Workload('conll', conll, 4500, 30000), Workload('conllup', conllup, 2400, 15000), Workload('vislcg', vislcg, 3000, 20000),
             Workload('sdparse', sdparse, 1800, 10800), Workload('conll2012', conll2012, 2400, 15000)]
