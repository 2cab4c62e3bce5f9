"""C27: exports to XML, HTML, JSON and LaTeX are well-formed and say what the trees say."""
import gzip
import html.parser
import io
import json
import os
import re
import xml.etree.ElementTree as ET

from lib import corefgen as cg, gen
from lib.vf import Logs, Workload, captured
from udapi.core.document import Document
from udapi.core.run import create_block

ID = 'C27'
RULE = 'distinct documents and distinct parameter settings of the writers, as read back by an XML, JSON, HTML or TeX parser'
NEEDS = ['oracle.treex words', 'oracle.treex nesting', 'oracle.treex ids unique', 'oracle.treex sentence', 'oracle.html node', 'oracle.html links', 'oracle.html sentence',
         'oracle.html script', 'oracle.sentences list', 'oracle.tikz words', 'oracle.tikz edges', 'oracle.tikz enhanced edges', 'oracle.tikz tree', 'oracle.tikz comment',
         'oracle.tikz balanced', 'oracle.coref words', 'oracle.coref mention', 'oracle.coref heads', 'oracle.coref overview', 'oracle.coref nesting', 'oracle.coref json',
         'oracle.coref ids unique', 'oracle.coref outside mentions', 'oracle.coref crossing marks',
         'events.markup character', 'events.tex character', 'events.crossing', 'events.several documents', 'events.rtl', 'events.discontinuous', 'events.empty tree']
ASSUMPTIONS = ['values hold no control characters (not allowed in XML)', 'entity and sentence IDs which differ only in punctuation are not used together',
               'the enhanced dependencies written by write.Tikz connect no empty nodes', 'zones: language_selector with at most one underscore for write.Treex']
PROCS = 4

NASTY = ['<x>', '&amp;', 'a"b', "a'b", '</script>', '<!--', ']]>', '&', '\\', '\\n', '\\u0041', '"', "'", '<', '>', '&lt;', '{', '}', '{0}', '{form}', '%', '%s', '#', '^', '~',
         '$', '_', '[', ']', '\\&', '--', 'é', '日本', '𝒳', '\u2028', 'a b', '\u00a0', '<b>', '</span>', '\\\\', '\\begin{x}', '\\"', '#1', '`', '*', '</SCRIPT >', '<!--<script>', '</style>']


def nasty(rng, sents, p=0.3):
    """Put markup characters everywhere."""
    for s in sents:
        for w in s.words + [e for _, _, e in s.empties]:
            for k in ('form', 'lemma', 'upos', 'xpos', 'deprel'):
                if rng.random() < p:
                    w[k] = rng.choice(NASTY)
                    if k == 'deprel':
                        w[k] = w[k].replace('|', '-')
            if rng.random() < p / 3:
                w['feats'] = rng.choice(['A=<x>', 'Q="', 'A=\\|B=</script>', 'A=&', 'A=1|B=2|C=3|D=4|E=5|F[x]=6,7'])
            if rng.random() < p / 3 and w['misc'] == '_':
                w['misc'] = rng.choice(['X=<x>&"\'', 'Gloss=\\', 'T=</script>', 'SpaceAfter=No|Z={}'])
        if rng.random() < p:
            s.text = rng.choice(NASTY) + ' ' + rng.choice(NASTY).strip()
            s.comments = [c for c in s.comments if not c.startswith('# text = ')] + ['# text = ' + s.text]
        if rng.random() < p and s.sent_id and '/' not in s.sent_id:
            new = s.sent_id + rng.choice(['<', '&', '"', "'", '>', '\\', '%', '#', '{', '$'])
            s.comments = [c.replace('# sent_id = ' + s.sent_id, '# sent_id = ' + new) if c == '# sent_id = ' + s.sent_id else c for c in s.comments]
            s.sent_id = new
    return sents


def load(mon, text):
    if re.search(r'[<>&"\']', text):
        mon.event('markup character')
    if re.search(r'[%$_{}~^\\]', text):
        mon.event('tex character')
    doc = Document()
    with Logs():
        r = create_block('read.Conllu', filehandle=io.StringIO(text))
        r.process_start()
        r.apply_on_document(doc)
        r.process_end()
    return doc


def write(name, doc, **params):
    with captured() as buf, Logs():
        w = create_block(name, **params)
        w.process_start()
        w.apply_on_document(doc)
        w.process_end()
    return buf.getvalue()


def make(rng, mon, **kw):
    sents = nasty(rng, gen.gen_doc(rng, zones=rng.random() < 0.4, **kw), rng.choice([0, 0.1, 0.4]))
    text = ''.join(s.conllu() for s in sents)
    doc = load(mon, text)
    mon.note(text=text)
    mon.state('document', text)
    if rng.random() < 0.2:      # zones which share the selector, longer names of languages
        bundle = rng.choice(doc.bundles)
        have = {t.zone for t in bundle.trees}
        for zone in rng.sample(['en_x', 'cs_x', 'mixed_x', 'grc-att_x', 'mixed_y'], 3):
            if zone not in have:
                bundle.create_tree(zone).create_child(form='w', deprel='root', lemma='w').create_child(form='v', deprel='x')
        mon.event('zones with one selector')
    if rng.random() < 0.15:
        doc.bundles[rng.randrange(len(doc.bundles))].create_tree('empty')
        mon.event('empty tree')
    return doc


# ------------------------------------------------------------------------------------------------ Treex

def q(tag):
    return '{http://ufal.mff.cuni.cz/pdt/pml/}' + tag


def treex(rng, mon, i):
    doc = make(rng, mon)
    out = write('write.Treex', doc)
    mon.note(out=out)
    try:
        xml = ET.fromstring(out.strip().encode())
    except ET.ParseError as err:
        mon.ok(False, 'treex well-formed', str(err))
    ids = [e.get('id') for e in xml.iter() if e.get('id') is not None]
    mon.eq(len(ids), len(set(ids)), 'treex ids unique', lambda: sorted(x for x in ids if ids.count(x) > 1))
    lms = list(xml.find(q('bundles')))
    mon.eq([e.get('id') for e in lms], [b.bundle_id for b in doc.bundles], 'treex bundles')
    for lm, bundle in zip(lms, doc.bundles):
        zones = list(lm.find(q('zones')))
        mon.eq(len(zones), len(bundle.trees), 'treex zones')
        keys = [(z.get('language'), z.get('selector')) for z in zones]
        mon.eq(keys, [tuple(t.zone.split('_')) if t.zone.count('_') == 1 else ('und', t.zone) for t in bundle.trees], 'treex zones', 'language and selector')
        for z, tree in zip(zones, bundle.trees):
            sentence = z.find(q('sentence'))
            if tree.text:
                mon.eq(sentence is not None and sentence.text, tree.text, 'treex sentence')
            else:
                mon.ok(sentence is None, 'treex sentence', 'sentence without text')
            atrees = z.find(q('trees'))
            mon.eq(len(list(atrees)), 1, 'treex trees')
            root = list(atrees)[0]
            mon.eq(root.findtext(q('ord')), '0', 'treex words', 'root ord')
            seen = []
            todo = [(root, None)]
            while todo:
                e, parent = todo.pop()
                o = int(e.findtext(q('ord')))
                if e is not root:
                    def t(x, e=e):
                        return e.findtext(q(x))
                    conll = e.find(q('conll'))
                    seen.append((o, t('form'), t('lemma'), t('tag'), t('deprel'), conll.findtext(q('pos')), conll.findtext(q('feat')), parent))
                kids = e.find(q('children'))
                kids = list(kids) if kids is not None else []
                mon.eq([int(k.findtext(q('ord'))) for k in kids], [c.ord for c in ([tree] + tree.descendants)[o].children], 'treex nesting')
                todo.extend((k, o) for k in kids)
            want = [(n.ord, n.form, n.lemma, n.upos, n.deprel, n.xpos or '_', str(n.feats), n.parent.ord) for n in tree.descendants]
            want = [tuple(None if v == '' else v for v in w) for w in want]
            mon.eq(sorted(seen), want, 'treex words')


# ------------------------------------------------------------------------------------------------ Html

def check_json(mon, data, tree_lists, label='html'):
    """The JSON of js-treex-view describes these bundles (lists of trees)."""
    mon.eq(len(data), len(tree_lists), label + ' bundles')
    for b, trees in zip(data, tree_lists):
        mon.eq(list(b['zones']), [t.zone for t in trees], label + ' zones')
        desc = []
        for tree in trees:
            z = b['zones'][tree.zone]
            mon.eq(z['sentence'], tree.text or '', label + ' sentence')
            a = z['trees']['a']
            mon.eq(a['language'], tree.zone, label + ' zones', 'language')
            nodes = a['nodes']
            desc += [['[' + tree.zone + ']', 'label'], [' ', 'space']]
            mon.eq(len(nodes), len(tree.descendants) + 1, label + ' nodes')
            ids = [n['id'] for n in nodes]
            mon.eq(len(set(ids)), len(ids), label + ' ids unique')
            mon.eq([i for i in ids if re.search(r'[#/]|^\d', i)], [], label + ' ids valid')
            at = {n: j['id'] for n, j in zip([tree] + tree.descendants, nodes)}
            for n, j in zip([tree] + tree.descendants, nodes):
                mon.eq((j['parent'], j.get('firstson')),
                       (at[n.parent] if n is not tree else None, at[n.children[0]] if n.children else None), label + ' links', 'parent and first child')
                if n is tree:
                    mon.eq(j['labels'], ['zone=' + tree.zone, 'id=' + tree.address()], label + ' labels', 'root')
                    continue
                sib = n.parent.children
                k = sib.index(n)
                mon.eq(j.get('rbrother'), at[sib[k + 1]] if k + 1 < len(sib) else None, label + ' links', 'right sibling')
                get = {x: (getattr(n, x) or '') for x in ('form', 'lemma', 'upos', 'xpos', 'deprel')}
                feats = '' if str(n.feats) == '_' else str(n.feats)
                misc = '' if str(n.misc) == '_' else str(n.misc)
                if j['data']['feats'] == '_':
                    feats = '_'
                if j['data']['misc'] == '_':
                    misc = '_'
                mon.eq(j['data'], dict(get, ord=n.ord, feats=feats, misc=misc, id=n.address()), label + ' node')
                mon.eq((j['order'], j['labels']), (n.ord, [get['form'], '#{#bb0000}' + get['upos'], '#{#0000bb}' + get['deprel']]), label + ' labels')
                mon.eq(j['hint'], 'lemma=' + get['lemma'] + '\n' + feats.replace('|', '\n'), label + ' hint')
                desc.append([get['form'], j['id']])
                if n.misc['SpaceAfter'] != 'No':
                    desc.append([' ', 'space'])
            desc.append(['\n', 'newline'])
        mon.eq(b['desc'], desc, label + ' description')


class Events(html.parser.HTMLParser):
    """A flat list of HTML events; script and style contents are kept verbatim (as browsers do)."""

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.events = []

    def handle_starttag(self, tag, attrs):
        self.events.append(('<', tag, attrs))

    def handle_endtag(self, tag):
        self.events.append(('>', tag))

    def handle_data(self, data):
        if self.events and self.events[-1][0] == 'text':
            self.events[-1] = ('text', self.events[-1][1] + data)
        else:
            self.events.append(('text', data))

    def handle_comment(self, data):
        self.events.append(('comment', data))

    def handle_decl(self, decl):
        self.events.append(('decl', decl))

    def handle_pi(self, data):
        self.events.append(('pi', data))

    def unknown_decl(self, data):
        self.events.append(('unknown', data))


VOID = {'meta', 'input', 'br', 'hr'}


class El:
    def __init__(self, tag, attrs, parent):
        self.tag, self.attrs, self.kids, self.parent = tag, dict(attrs), [], parent

    def all(self, tag=None):
        for k in self.kids:
            if isinstance(k, El):
                if tag is None or k.tag == tag:
                    yield k
                yield from k.all(tag)

    def text(self):
        return ''.join(k if isinstance(k, str) else k.text() for k in self.kids)


def parse_html(mon, text, label):
    p = Events()
    p.feed(text)
    p.close()
    root = cur = El('#', {}, None)
    for e in p.events:
        mon.ok(e[0] in '<>' or e[0] in ('text', 'decl'), label + ' markup', lambda: f'unexpected {e}')
        if e[0] == '<':
            mon.eq(len(dict(e[2])), len(e[2]), label + ' markup', f'repeated attribute {e}')
            mon.eq([a for a in dict(e[2]) if a not in ATTRS], [], label + ' markup', 'attributes')
            el = El(e[1], e[2], cur)
            cur.kids.append(el)
            if e[1] not in VOID:
                cur = el
        elif e[0] == '>':
            mon.eq(cur.tag, e[1], label + ' nesting')
            cur = cur.parent
        elif e[0] == 'text':
            cur.kids.append(e[1])
    mon.ok(cur is root, label + ' nesting', f'unclosed {cur.tag}')
    return root


ATTRS = {'lang', 'charset', 'src', 'style', 'type', 'onclick', 'id', 'class', 'title', 'href', 'checked', 'for', 'name', 'dir', 'data-id'}


def html_trees(rng, mon, i):
    doc = make(rng, mon)
    js = rng.choice(['web', '.', 'js/lib'])
    out = write('write.Html', doc, **({} if js == 'web' else {'path_to_js': js}))
    mon.note(out=out)
    page = parse_html(mon, out, 'html')
    body = [s for s in page.all('script') if 'src' not in s.attrs]
    mon.eq(len(body), 1, 'html script', 'one script with the data')
    srcs = [s.attrs['src'] for s in page.all('script') if 'src' in s.attrs]
    mon.ok(len(srcs) == 3 and all(s.startswith('https://' if js == 'web' else js + '/') for s in srcs), 'html script', srcs)
    code = body[0].text().lstrip()
    mon.ok(code.startswith('data='), 'html script', 'data')
    mon.ok(not re.search('<!--|</?script', code, re.I), 'html script', 'what ends or opens a script inside the data')
    data, end = json.JSONDecoder().raw_decode(code[5:].lstrip())
    mon.ok(code[5:].lstrip()[end:].lstrip().startswith(';'), 'html script', 'end of the data')
    check_json(mon, data, [b.trees for b in doc.bundles])


def sentences(rng, mon, i):
    doc = make(rng, mon)
    title = rng.choice(['A <b> & "c"', 'x', "it's", 7])
    mode = rng.choice(['detokenize', 'empty', 'warn_empty'])
    out = write('write.SentencesHtml', doc, title=title, if_missing=mode)
    mon.note(out=out, mode=mode)
    page = parse_html(mon, out, 'sentences')
    mon.eq([t.text() for t in page.all('title')], [str(title)], 'sentences title')
    want = [(t.sent_id, t.text if t.text is not None else (t.compute_text() if mode == 'detokenize' else '')) for t in doc.trees]
    mon.eq([(li.attrs['id'], li.text()) for li in page.all('li')], want, 'sentences list')


# ------------------------------------------------------------------------------------------------ Tikz

TEX = [(r'\textbackslash{}', '\\'), (r'\textasciitilde{}', '~'), (r'\textasciicircum{}', '^'), (r'\symbol{38}', '&'), ('$[$', '['), ('$]$', ']'),
       (r'\_', '_'), (r'\$', '$'), (r'\%', '%'), (r'\&', '&'), (r'\#', '#'), (r'\{', '{'), (r'\}', '}'),
       (r'\textasciitilde ', '~'), (r'\~{}', '~'), (r'\^{}', '^'), (r'{[}', '['), (r'{]}', ']')]


def untex(mon, s):
    """What LaTeX prints for s; a special character outside the known escapes is an error."""
    out, k = [], 0
    while k < len(s):
        for esc, ch in TEX:
            if s.startswith(esc, k):
                out.append(ch)
                k += len(esc)
                break
        else:
            mon.ok(s[k] not in '\\%$#{}^~&_', 'tikz escapes', lambda: f'unescaped {s[k]!r} in {s!r}')
            out.append(s[k])
            k += 1
    return ''.join(out)


def arguments(mon, s):
    """{a}{b}{c} -> [a, b, c] with nested braces and escapes."""
    args, k = [], 0
    while k < len(s):
        mon.eq(s[k], '{', 'tikz balanced', s)
        depth, j = 0, k
        while True:
            mon.ok(j < len(s), 'tikz balanced', lambda: f'unbalanced {s!r}')
            if s[j] == '\\' and j + 1 < len(s) and not s[j + 1].isalpha():
                j += 2
                continue
            depth += (s[j] == '{') - (s[j] == '}')
            j += 1
            if depth == 0:
                break
        args.append(s[k + 1:j - 1])
        k = j
    return args


def tikz(rng, mon, i):
    doc = make(rng, mon, nsent=rng.choice([1, 2]), max_n=8, p_empty=0)
    if rng.random() < 0.1:      # a deep tree
        node = doc.bundles[0].trees[0]
        for k in range(rng.randint(9, 13)):
            node = node.create_child(form=f'd{k}', deprel='dep')
        mon.event('deep tree')
    attrs = rng.choice([None, 'misc', 'feats,misc', 'xpos', 'form', 'form,lemma,upos', 'ord,form,feats,deprel', 'form,xpos,misc', 'lemma'])
    as_tree = rng.random() < 0.35
    enhanced = not as_tree and rng.random() < 0.5
    comment = rng.choice([None, 'text_en', 'x', 'note.1', 'sent'])
    for tree in doc.trees:
        for n in tree.descendants:
            if len(n.deps) and rng.random() < 0.2:
                n.deps[0]['deprel'] = rng.choice(['nsubj:a_b', 'x%y', 'a&b', 'conj#1', 'x{y}', 'a\\b', 'a$b_c^d~e'])
    for tree in doc.trees:
        if rng.random() < 0.5 and comment:
            tree.comment = rng.choice(['', ' first\n', ' z = 1\n', f' pre{comment} = 1\n', f' a {comment} = 1\n']) + f' {comment} = ' + rng.choice(NASTY) + ' b' + rng.choice(['', '\n', '\n other = 1\n'])
    mon.note(attrs=attrs, as_tree=as_tree, enhanced=enhanced, comment=comment, comments=[t.comment for t in doc.trees])
    mon.state('settings', repr((attrs, as_tree, enhanced, comment)))
    params = {k: v for k, v in dict(attributes=attrs, as_tree=as_tree, enhanced=enhanced, comment_attribute=comment).items() if v}
    if rng.random() < 0.3:
        params['print_preambule'] = False
    out = write('write.Tikz', doc, **params)
    mon.note(out=out)
    lines = [x for x in out.split('\n') if not x.startswith('%')]
    if params.get('print_preambule', True):
        mon.ok(lines[0].startswith(r'\documentclass') and out.rstrip().endswith(r'\end{document}') and out.count(r'\begin{document}') == 1, 'tikz preamble', lines[0])
        lines = lines[lines.index(r'\begin{document}') + 1:]
    names = (attrs or ('form,upos,deprel' if as_tree else 'form,upos')).split(',')
    blocks, cur = [], None
    for line in lines:
        if line == r'\begin{dependency}':
            mon.ok(cur is None, 'tikz environments', 'nested')
            cur = []
        elif line == r'\end{dependency}':
            mon.ok(cur is not None, 'tikz environments', 'not open')
            blocks.append(cur)
            cur = None
        elif cur is not None:
            cur.append(line)
        else:
            mon.ok(line in ('', r'\end{document}'), 'tikz environments', line)
    trees = list(doc.trees)
    mon.eq(len(blocks), len(trees), 'tikz environments', 'one for each tree')
    for block, tree in zip(blocks, trees):
        k = block.index(r'\end{deptext}')
        mon.eq(block[0], r'\begin{deptext}', 'tikz environments')
        rows = block[1:k]
        nodes = tree.descendants
        mon.eq(len(rows), len(names), 'tikz words', 'rows')
        for name, row in zip(names, rows):
            mon.ok(row.endswith(r' \\'), 'tikz words', row)
            cells = row[:-3].split(r' \& ') if nodes else []
            vals = [getattr(n, name) for n in nodes]
            vals = ['' if v is None else str(v) for v in vals]
            got = [untex(mon, c.rstrip(' ')) for c in cells]
            mon.eq([g if v else '' for g, v in zip(got, vals)] if len(got) == len(vals) else got,
                   [('' if v == '_' and name in ('feats', 'misc') and g == '' else v.rstrip(' ')) for v, g in zip(vals, got)] if len(got) == len(vals) else vals,
                   'tikz words', name)
        edges, trans, drawn, deps, guides = {}, [], {}, [], 0
        for line in block[k + 1:]:
            if line.startswith(r'\deptrans'):
                trans.append(untex(mon, arguments(mon, line[len(r'\deptrans'):])[0]))
            elif line.startswith(r'\deproot[edge below]'):
                a = arguments(mon, line[len(r'\deproot[edge below]'):])
                deps.append((0, int(a[0]), untex(mon, a[1])))
            elif line.startswith(r'\depedge[edge below]'):
                a = arguments(mon, line[len(r'\depedge[edge below]'):])
                deps.append((int(a[0]), int(a[1]), untex(mon, a[2])))
            elif line.startswith(r'\deproot'):
                a = arguments(mon, line[len(r'\deproot'):])
                mon.ok(int(a[0]) not in edges, 'tikz edges', 'repeated')
                edges[int(a[0])] = (0, untex(mon, a[1]))
            elif line.startswith(r'\depedge'):
                a = arguments(mon, line[len(r'\depedge'):])
                mon.ok(int(a[1]) not in edges, 'tikz edges', 'repeated')
                edges[int(a[1])] = (int(a[0]), untex(mon, a[2]))
            elif line.startswith(r'\node '):
                g = re.fullmatch(r'\\node \(w(\d+)\) \[yshift=\\depskip\+(\d+)\\deplevel,depnode\] at \(\\wordref\{1\}\{(\d+)\}\) \{\};', line)
                mon.ok(g is not None and g.group(1) == g.group(3) and int(g.group(1)) not in drawn, 'tikz tree', line)
                drawn[int(g.group(1))] = int(g.group(2))
            else:
                g = re.fullmatch(r'\\draw\[depguide\] \(w(\d+)\)--\(\\wordref\{1\}\{(\d+)\}\);(?: \\draw\[depedge\] \(w(\d+)\)--node\[deplabel\] (\{.*\}) \(w(\d+)\);)?', line)
                mon.ok(g is not None and g.group(1) == g.group(2), 'tikz tree', line)
                guides += 1
                if g.group(3):
                    mon.ok(g.group(3) == g.group(1), 'tikz tree', line)
                    edges[int(g.group(3))] = (int(g.group(5)), untex(mon, arguments(mon, g.group(4))[0]))
        if as_tree:
            mon.eq({o: p for o, (p, d) in edges.items()}, {n.ord: n.parent.ord for n in nodes if n.parent.ord}, 'tikz edges')
            mon.eq({o: d for o, (p, d) in edges.items()}, {n.ord: n.deprel or '' for n in nodes if n.parent.ord}, 'tikz edges', 'labels')
            depth = {0: 0}

            def d(n):
                return 0 if n.is_root() else 1 + d(n.parent)
            for n in nodes:
                depth[n.ord] = d(n)
            mon.eq(drawn, {n.ord: max(depth.values()) - depth[n.ord] for n in nodes}, 'tikz tree')
            mon.eq(guides, len(nodes), 'tikz tree', 'guides')
        else:
            mon.eq({o: p for o, (p, x) in edges.items()}, {n.ord: n.parent.ord for n in nodes}, 'tikz edges')
            mon.eq({o: x for o, (p, x) in edges.items() if p}, {n.ord: n.deprel or '' for n in nodes if n.parent.ord}, 'tikz edges', 'labels')
        want = []
        if enhanced:
            for n in nodes:
                for item in n.deps:
                    want.append((item['parent'].ord, n.ord, 'root' if item['parent'].ord == 0 else item['deprel']))
        mon.eq(sorted(deps), sorted(want), 'tikz enhanced edges')
        want = []
        if comment:
            for line in (tree.comment or '').split('\n'):
                if line.strip().startswith(comment + ' = '):
                    want.append(line.strip().split(' = ', 1)[1])
                    break
            mon.eq([t.strip() for t in trans], [w.strip() for w in want], 'tikz comment')
        else:
            mon.eq(trans, [], 'tikz comment')


# ------------------------------------------------------------------------------------------------ CorefHtml

def dom(s):
    return re.sub(r'[^\w-]', '_', 'n' + s if s[0].isdecimal() else s)


def words_of(mon, p, label):
    """Text units of a sentence: (text, is head, is empty node, enclosing spans)."""
    out = []

    def walk(e, spans, head, empty):
        for k in e.kids:
            if isinstance(k, str):
                out.append((k, head, empty, spans))
            elif k.tag == 'span' and k.attrs.get('class') == 'labels':
                continue
            elif k.tag == 'span':
                walk(k, spans + [k] if 'class' in k.attrs else spans, head, empty)
            elif k.tag == 'b':
                mon.eq(k.attrs, {'class': 'head'}, label + ' heads', 'markup')
                walk(k, spans, True, empty)
            elif k.tag == 'i':
                mon.eq(k.attrs, {'class': 'empty'}, label + ' words', 'markup')
                walk(k, spans, head, True)
            else:
                mon.ok(False, label + ' words', f'unexpected element {k.tag}')
    walk(p, [], False, False)
    return out


def check_sentence(mon, p, tree, rtl, ids, colours):
    label = 'coref'
    nodes = tree.descendants_and_empty
    mon.eq(p.attrs.get('data-id'), tree.sent_id, 'coref sentence', 'id')
    mon.eq(p.attrs.get('dir'), 'rtl' if rtl else None, 'coref sentence', 'direction')
    units = words_of(mon, p, label)
    # spell the sentence: units are forms or spaces; align greedily
    k, rest, at = 0, [], {}
    flat = []
    for text, head, empty, spans in units:
        for ch in text:
            flat.append((ch, head, empty, spans))
    while flat and flat[0][0] == '\n':
        flat.pop(0)
    pos = 0
    for n in nodes:
        form = str(n.form)
        got = ''.join(x[0] for x in flat[pos:pos + len(form)])
        mon.eq(got, form, 'coref words', f'word {n.ord}')
        chunk = flat[pos:pos + len(form)]
        at[n] = chunk[0]
        mon.ok(all((c[1], c[2], [id(s) for s in c[3]]) == (chunk[0][1], chunk[0][2], [id(s) for s in chunk[0][3]]) for c in chunk), 'coref words', 'one word in different spans')
        pos += len(form)
        if not n.no_space_after:
            mon.eq(''.join(x[0] for x in flat[pos:pos + 1]), ' ', 'coref words', f'space after {n.ord}')
            pos += 1
    mon.eq(''.join(x[0] for x in flat[pos:]).strip('\n'), '', 'coref words', 'text after the last word')
    mentions = {}
    for n in nodes:
        for m in n.coref_mentions:
            mentions[id(m)] = m
    mentions = list(mentions.values())
    cls = {id(m): f'{dom(m.entity.eid)}e{1 + [id(x) for x in m.entity.mentions].index(id(m))}' for m in mentions}
    spans = [s for s in p.all('span') if 'class' in s.attrs and s.attrs['class'] not in ('labels', 'norm')]
    mon.eq({s.attrs['class'].split(' ')[1] for s in spans}, set(cls.values()), 'coref mention', 'the marked mentions')
    pieces = {}
    for m in mentions:
        c = cls[id(m)]
        inside = [n for n in nodes if any(s.attrs['class'].split(' ')[1:2] == [c] for s in at[n][3])]
        mon.eq([n.ord for n in inside], sorted(w.ord for w in m.words), 'coref mention', lambda: f'words of {c}')
        mon.eq([w for w in inside], sorted(m.words), 'coref mention', lambda: f'words of {c}')
        runs, prev = [], None
        for k, n in enumerate(nodes):
            if n in m.words:
                if prev is None or prev != k - 1:
                    runs.append([])
                runs[-1].append(k)
                prev = k
        pieces[c] = runs
        own = [s for s in spans if s.attrs['class'].split(' ')[1] == c]
        start = [s for s in own if 'crossing' not in s.attrs['class'].split(' ')]
        mon.eq(len(start), len(runs), 'coref mention', lambda: f'number of spans of {c}')
        if len(runs) > 1:
            mon.event('discontinuous')
        e = m.entity
        for k, s in enumerate(start):
            ws = s.attrs['class'].split(' ')
            eid = e.eid + (f'[{k + 1}/{len(runs)}]' if len(runs) > 1 else '')
            want = [dom(e.eid), c] + (e.etype or 'other').split(' ') + ['m', m.head.upos if m.head.upos in ('PROPN', 'NOUN', 'PRON', 'VERB', 'DET') else 'OTHER']
            if colours:
                want.append(ws[len(want)])
                mon.ok(re.fullmatch(r'c\d+', ws[len(want) - 1]) and int(ws[len(want) - 1][1:]) < colours, 'coref classes', ws)
            if all(nodes[x].is_empty() for x in runs[k]):
                want.append('empty')
            if len(e.mentions) == 1:
                want.append('singleton')
            mon.eq(ws, want, 'coref classes')
            title = s.attrs['title'].split('\n')
            mon.eq(title[0], 'eid=' + eid, 'coref titles')
            mon.ok(s.attrs['title'].startswith(f'eid={eid}\netype={e.etype}\nhead={m.head.form}\nhead-upos={m.head.upos}'), 'coref titles', s.attrs['title'])
            tail = s.attrs['title'][len(f'eid={eid}\netype={e.etype}\nhead={m.head.form}\nhead-upos={m.head.upos}'):]
            mon.eq(tail, f'\n{m.other}' if m.other else '', 'coref titles', 'other attributes')
            first = e.mentions[0] is m and k == 0
            mon.eq(s.attrs.get('id'), dom(e.eid) if first else None, 'coref mention', 'id of the first mention')
            labels = [x for x in s.kids if isinstance(x, El)][0]
            mon.eq(labels.text(), f'{dom(eid)} {e.etype}', 'coref labels')
            if first:
                ids.append(e.eid)
    heads = {id(m.head) for m in mentions}
    for n in nodes:
        mon.eq(at[n][1], id(n) in heads, 'coref heads', f'word {n.ord}')
        mon.eq(at[n][2], n.is_empty(), 'coref words', 'empty node')
        mon.eq([s.attrs['class'] == 'norm' for s in at[n][3]], [False] * len(at[n][3]) if n.coref_mentions else [True], 'coref outside mentions', f'word {n.ord}')
    allruns = [(c, r[0], r[-1]) for c, rs in pieces.items() for r in rs]
    crossing = any(a[1] < b[1] <= a[2] < b[2] for a in allruns for b in allruns)
    if crossing:
        mon.event('crossing')
    mon.eq(any('crossing' in s.attrs['class'].split(' ') for s in spans), crossing, 'coref crossing marks')


def representative(e):
    def lf(n):
        return n.lemma if n.lemma and n.lemma != '_' else n.form
    heads = [m.head for m in e.mentions]
    for u in ('PROPN', 'NOUN'):
        for n in heads:
            if n.upos == u:
                return lf(n)
    return lf(heads[0])


def coref(rng, mon, i):
    sents = gen.gen_doc(rng, nsent=rng.choice([1, 2, 3, 5]), p_newdoc=rng.choice([0, 0.5]), p_empty=0.4, p_nosid=0)
    nasty(rng, sents, rng.choice([0, 0.2]))
    for s in sents:     # titles of documents and paragraphs
        for k, c in enumerate(s.comments):
            if c.startswith('# newdoc id = ') and rng.random() < 0.4:
                s.comments[k] = '# newdoc id = ' + rng.choice(['a <b>', 'x & y', '"q"'])
    model = cg.gen_model(rng, sents=sents, n_ents=rng.choice([2, 4, 8, 12]), header=rng.choice(['eid-etype-head-other', 'eid-etype-head-other', 'eid-head-minspan-other', 'eid-etype']))
    for e in model.ents:
        if e.etype and rng.random() < 0.15:
            e.etype = rng.choice(['<x>', 'a"b', 'a&b', "it's"])
        for m in e.mentions:
            if 'other' in model.fields and rng.random() < 0.15:
                m.other['k'] = rng.choice(['"><b>', 'a&b', "x'y"])
    cg.annotate(rng, model)
    text = ''.join(s.conllu() for s in sents)
    mon.note(text=text)
    mon.state('document', text)
    doc = load(mon, text)
    list(doc.coref_entities)
    if rng.random() < 0.08:     # a mention of many pieces
        tree = rng.choice(list(doc.trees))
        node = tree.descendants[-1]
        for k in range(24):
            node.create_child(form=f'm{k}', deprel='dep', upos=rng.choice(['NOUN', 'X'])).shift_after_subtree(tree)
        e = doc.create_coref_entity()
        e.create_mention(words=tree.descendants[-24::2])
        if rng.random() < 0.5:
            e.create_mention(words=tree.descendants[-23:-20])
        mon.event('many pieces')
    if rng.random() < 0.15:     # a document which starts with an empty sentence
        bundle = doc.create_bundle()
        bundle.bundle_id = 'last-but-one'
        tree = bundle.create_tree('')
        tree.newdoc = rng.choice([True, 'empty one'])
        if rng.random() < 0.5:
            bundle = doc.create_bundle()
            bundle.bundle_id = 'the-last'
            bundle.create_tree('').create_child(form='word', deprel='root')
        mon.event('empty sentence')
    before = doc.to_conllu_string()
    rtl, trees, colours = rng.random() < 0.3, rng.random() < 0.7, rng.choice([0, 1, 3, 7])
    if rtl:
        mon.event('rtl')
    scratch = mon.scratch()
    old = os.getcwd()
    os.chdir(scratch)
    try:
        name = rng.choice(['docs', 'd/x'])
        if rng.random() < 0.2:      # once more into the same directory
            write('write.CorefHtml', doc, docs_dir=name, show_trees=trees)
            mon.event('rerun')
        out = write('write.CorefHtml', doc, rtl=rtl, show_trees=trees, colors=colours, docs_dir=name)
        files = {}
        for d, _, fs in os.walk(scratch):
            for f in fs:
                files[os.path.relpath(os.path.join(d, f), scratch)] = gzip.open(os.path.join(d, f), 'rt', encoding='utf-8').read()
    finally:
        os.chdir(old)
    mon.note(out=out, files=files)
    mon.eq(doc.to_conllu_string(), before, 'coref unchanged document')
    groups = []
    for tree in doc.trees:
        if tree.newdoc or not groups:
            groups.append([])
        groups[-1].append(tree)
    if len(groups) > 1:
        mon.event('several documents')
    want = [f'{name}/doc{k}.html.gz' for k in range(2, len(groups) + 1)] + ([f'{name}/doc{k}.json.gz' for k in range(2, len(groups) + 1)] if trees else [])
    mon.eq(sorted(files), sorted(want), 'coref files')
    page = parse_html(mon, out, 'coref')
    script = [s for s in page.all('script') if 'src' not in s.attrs]
    mon.eq(len(script), 1, 'coref json', 'scripts')
    code = script[0].text()
    mon.ok(not re.search('<!--|</?script', code, re.I), 'coref json', 'what ends or opens a script inside the data')
    mon.ok(f'var all_docs = {len(groups)};\nvar docs_dir = "{name}";' in code, 'coref files', 'number of documents')
    rows = [[c for c in tr.all('td')] for tr in page.all('tr')][1:]
    ents = list(doc.coref_entities)
    mon.eq([[c.text() for c in r] for r in rows], [[e.eid, str(len(e.mentions)), str(representative(e))] for e in ents], 'coref overview')
    mon.eq([next(r[0].all('a')).attrs['href'] for r in rows], ['#' + dom(e.eid) for e in ents], 'coref overview', 'links')
    ids = []
    main = next(d for d in page.all('div') if d.attrs.get('id') == 'main')
    divs = [d for d in main.all('div') if d.attrs.get('class') == 'doc']
    mon.eq([d.attrs['id'] for d in divs], ['doc1'], 'coref files', 'the first document')
    domids = [e.attrs['id'] for e in page.all() if 'id' in e.attrs]
    for k in range(2, len(groups) + 1):
        part = parse_html(mon, files[f'{name}/doc{k}.html.gz'], 'coref')
        d = [x for x in part.all('div')]
        mon.eq([x.attrs for x in d], [{'class': 'doc', 'id': f'doc{k}'}], 'coref files', 'document')
        divs += d
        domids += [e.attrs['id'] for e in part.all() if 'id' in e.attrs]
    tokens = [x for x in domids]
    mon.eq(len(tokens), len(set(tokens)), 'coref ids unique', lambda: sorted(x for x in tokens if tokens.count(x) > 1))
    for d, group in zip(divs, groups):
        ps = [x for x in d.all('p')]
        mon.eq(len(ps), len(group), 'coref sentence', 'number')
        seen = []
        for x in d.all():
            if x.tag == 'h1':
                seen.append('document')
            elif x.tag == 'hr' and x.attrs.get('class') == 'par':
                seen.append('paragraph')
            elif x.tag == 'p':
                seen.append('p')
        want = []
        for t in group:
            want += ['document'] if t.newdoc else ['paragraph'] if t.newpar else []
            want.append('p')
        mon.eq(seen, want, 'coref paragraphs')
        titles = [x.text() for x in d.all('h1')]
        mon.eq(titles, [t.newdoc if t.newdoc is not True else '' for t in group if t.newdoc], 'coref titles', 'documents')
        for p, tree in zip(ps, group):
            check_sentence(mon, p, tree, rtl, ids, colours)
    mon.eq(sorted(ids), sorted(e.eid for e in ents), 'coref mention', 'first mentions')
    if trees:
        start = code.index('docs_json = [false, ') + len('docs_json = [false, ')
        data, end = json.JSONDecoder().raw_decode(code[start:].lstrip())
        mon.ok(code[start:].lstrip()[end:].lstrip().startswith('];'), 'coref json', 'end of the data')
        check_json(mon, data, [[t] for t in groups[0]], 'coref json')
        for k, group in enumerate(groups[1:], 2):
            check_json(mon, json.loads(files[f'{name}/doc{k}.json.gz']), [[t] for t in group], 'coref json')
        mon.counts['oracle.coref json'] += 1


WORKLOADS = [Workload('treex', treex, 1200, 12000), Workload('html', html_trees, 1000, 12000), Workload('sentences', sentences, 400, 4000),
             Workload('tikz', tikz, 1500, 20000), Workload('coref', coref, 1200, 14000)]
