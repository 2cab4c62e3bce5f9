"""C23: text-mode tree drawings encode exactly the tree (decoded by an independent tracer of the strokes)."""
import html
import os
import re

from lib import gen
from lib.treelib import random_tree
from lib.vf import Workload, captured
from udapi.core.document import Document
from udapi.core.run import create_block

ID = 'C23'
RULE = 'distinct (tree, options) drawings whose every stroke was traced and whose decoded heads were compared with the tree'
NEEDS = ['oracle.lines', 'oracle.attributes', 'oracle.strokes', 'oracle.decoded heads', 'oracle.headers', 'oracle.no crossing', 'oracle.fewer crossings', 'oracle.hints', 'oracle.columns', 'oracle.marked only',
         'oracle.colors only add markup', 'oracle.html only adds markup', 'events.layout.classic', 'events.layout.compact', 'events.layout.align', 'events.layout.align-words',
         'events.subtree', 'events.empty nodes', 'events.crossing', 'events.non-projective', 'events.no words', 'events.marked', 'events.rightward branch', 'events.leftward branch',
         'events.deep tree', 'events.zones restricted', 'events.entry.block', 'events.entry.node', 'events.entry.bundle', 'events.entry.document']
ASSUMPTIONS = ['one character is one column', 'node attributes do not contain line breaks']

NODE = '╼┾┮┶'
ATTRS = ['ord', 'form', 'lemma', 'upos', 'xpos', 'feats', 'deprel', 'deps', 'misc', 'misc[Gloss]', 'feats[Case]']


def key(n):
    return (0, -1) if n.is_root() else tuple(map(int, (str(n.ord) + '.0').split('.')[:2]))


def value(n, a, undef):
    """The attribute as it would be in the CoNLL-U file."""
    if a == 'deps':
        return '|'.join(f'{d["parent"].ord}:{d["deprel"]}' for d in n.deps) or undef
    if a.endswith(']'):
        name, key = a[:-1].split('[')
        return str(getattr(n, name)[key])
    v = getattr(n, a) if a != 'ord' else n.ord
    return undef if v is None else str(v)


def decode(mon, rows, where, hints, indent, top):
    """rows: (drawing without texts, is it a node?). Returns the head row of each row (None = nothing is connected to it)."""
    grid = [list(r) for r, _ in rows]
    cell = lambda r, c: grid[r][c] if 0 <= r < len(grid) and 0 <= c < len(grid[r]) else ' '
    used = {}

    def use(r, c, how):
        mon.ok((r, c, how) not in used, 'strokes', lambda: f'{where()}: {cell(r, c)} in row {r} column {c} is used twice')
        used[r, c, how] = 1
    sym = {}
    for r, (line, node) in enumerate(rows):
        at = [c for c, x in enumerate(line) if x in NODE]
        mon.ok(len(at) == (1 if node else 0), 'lines', lambda: f'{where()}: nodes in row {r}: {len(at)}')
        if node:
            sym[r] = at[0]
    head, kids = {}, {}
    for r, c in sym.items():
        use(r, c, 'node')
        x = cell(r, c)
        for step, on in ((-1, x in '┾┶'), (1, x in '┾┮')):
            rr = r
            while on:
                rr += step
                y = cell(rr, c)
                if y == '│':
                    use(rr, c, 'v')
                    continue
                if y == '╪':
                    use(rr, c, 'v')
                    mon.event('crossing')
                    continue
                ends = '╭' if step < 0 else '╰'
                thick = '┢' if step < 0 else '┡'
                mon.ok(y == ends or y == (thick if hints else '├'), 'hints' if y in '├┡┢' else 'strokes', lambda: f'{where()}: {y!r} in row {rr} column {c} on a stroke from row {r}')
                use(rr, c, 'branch')
                mon.event('leftward branch' if step < 0 else 'rightward branch')
                cc = c + 1
                while cell(rr, cc) in '─╪' and cell(rr, cc) != ' ':
                    use(rr, cc, 'h')
                    cc += 1
                mon.ok(cell(rr, cc) in NODE and cc == sym.get(rr), 'strokes', lambda: f'{where()}: a stroke in row {rr} leads to {cell(rr, cc)!r} in column {cc}')
                mon.ok(cc - c > indent, 'strokes', lambda: f'{where()}: indent in row {rr}')
                mon.ok(rr not in head, 'strokes', 'two heads')
                head[rr] = r
                if y == ends:
                    break
    # Nothing else is drawn (but the line at the very left, which leads to the top node).
    for c in range(sym[top]):
        mon.eq(cell(top, c), '─', 'strokes', where)
        use(top, c, 'h')
    for r, line in enumerate(grid):
        for c, x in enumerate(line):
            need = {'h', 'v'} if x == '╪' else set() if x == ' ' else {'h'} if x == '─' else {'v'} if x == '│' else {'node'} if x in NODE else {'branch'}
            got = {h for h in ('h', 'v', 'node', 'branch') if (r, c, h) in used}
            mon.ok(got == need, 'strokes', lambda: f'{where()}: a loose stroke {x!r} in row {r} column {c}')
    return head


def expect(mon, top, kw, lines, empty):
    """Judge the lines of one drawing."""
    o = dict(indent=1, attributes='form,upos,deprel', print_undef_as='_', mark='(ToDo|ToDoOrigText|Bug|Mark)', hints=True, layout='classic')
    o.update({k: v for k, v in kw.items() if k in o})
    root = top.root
    words = [n for n in root.descendants if top is root or n is top or n.is_descendant_of(top)]
    nodes = words if top is not root else [top] + words
    if empty and root.empty_nodes:
        if top is root:
            nodes = nodes + list(root.empty_nodes)
        else:
            nodes = nodes + [e for e in root.empty_nodes if key(words[0]) < key(e) < key(words[-1])]
        nodes = sorted(nodes, key=key)
    attrs = o['attributes'].split(',')
    mon.eq(len(lines), len(nodes), 'lines', lambda: lines)
    marked = [o['mark'] and n is not root and bool(re.search(o['mark'] + '=', str(n.misc))) for n in nodes]
    plain = [[value(n, a, o['print_undef_as']) for a in attrs] if n is not root else None for n in nodes]
    is_node = [not n.is_empty() for n in nodes]
    mon.event('empty nodes', is_node.count(False))
    mon.event('marked', sum(map(bool, marked)))
    rows = []
    if o['layout'] == 'classic':
        for line, v, m, real in zip(lines, plain, marked, is_node):
            if v is None:
                rows.append((line, True))
                continue
            text = ' '.join(v)
            text = f' **{text}**' if m else ' ' + text
            if real:
                c = min([k for k, x in enumerate(line) if x in NODE] or [0])
                mon.ok(line[c + 1:].startswith(text), 'attributes', lambda: (line, text))
                rows.append((line[:c + 1] + ' ' * len(text) + line[c + 1 + len(text):], True))
            else:
                mon.ok(line.endswith(text), 'attributes', lambda: (line, text))
                rows.append((line[:len(line) - len(text)], False))
    else:
        cols = [[x] for x in range(len(attrs))] if o['layout'] == 'align' else [list(range(len(attrs)))]
        texts = []
        for v, m in zip(plain, marked):
            t = [' '.join(v[k] for k in c) if v is not None else None for c in cols]
            texts.append([f' **{x}**' if m else ' ' + x if x is not None else None for x in t] if v is not None else None)
        width = [max([len(t[k]) for t in texts if t is not None] or [0]) for k in range(len(cols))]
        starts = set()
        for line, t, real in zip(lines, texts, is_node):
            if t is None:
                rows.append((line.rstrip(), True))
                continue
            text = ''.join(x.ljust(w) for x, w in zip(t[:-1], width)) + t[-1]
            mon.ok(line.endswith(text), 'attributes', lambda: (line, text))
            rows.append((line[:len(line) - len(text)], real))
            starts.add(len(line) - len(text))
        if o['layout'] != 'compact' and starts:
            mon.eq(len(starts), 1, 'columns', lambda: lines)
            mon.eq(starts, {max(len(r.rstrip()) for r, _ in rows)}, 'columns', lambda: lines)
    head = decode(mon, rows, lambda: '\n' + '\n'.join(lines), o['hints'], o['indent'], nodes.index(top))
    want = {r: nodes.index(n.parent) for r, n in enumerate(nodes) if n is not top and is_node[r]}
    mon.eq(head, want, 'decoded heads', lambda: '\n' + '\n'.join(lines))
    # Strokes cross only in non-projective trees.
    proj = not any(a is not n and min(n.ord, n.parent.ord) < a.ord < max(n.ord, n.parent.ord) and not a.is_descendant_of(n.parent) for n in words if n is not top for a in root.descendants)
    mon.event('non-projective', not proj)
    if proj:
        mon.ok(all('╪' not in r for r, _ in rows), 'no crossing', lambda: '\n' + '\n'.join(lines))
    mon.event('no words', not words)
    return words


def options(rng):
    kw = {}
    if rng.random() < 0.7:
        kw['layout'] = rng.choice(['classic', 'compact', 'align', 'align-words'])
    if rng.random() < 0.5:
        kw['indent'] = rng.choice([0, 1, 2, 3, 5])
    if rng.random() < 0.5:
        kw['minimize_cross'] = rng.choice([0, False])
    if rng.random() < 0.4:
        kw['hints'] = rng.choice([0, False])
    if rng.random() < 0.6:
        kw['attributes'] = ','.join(rng.sample(ATTRS, rng.choice([1, 1, 2, 3, 5])) + ([rng.choice(ATTRS)] if rng.random() < 0.15 else []))
    if rng.random() < 0.3:
        kw['print_undef_as'] = rng.choice(['-', 'N/A', 'x y', ''])
    if rng.random() < 0.4:
        kw['print_empty'] = rng.choice([0, 1])
    if rng.random() < 0.3:
        kw['mark'] = rng.choice(['', 'Gloss', '(Gloss|Lang)', 'Mark', 'a'])
    for k in ('print_sent_id', 'print_text', 'add_empty_line', 'print_comments'):
        if rng.random() < 0.3:
            kw[k] = rng.choice([0, 1])
    return kw


def load(rng, mon, nsent=1, zones=('',), **kw):
    kw = dict(dict(max_n=10, canonical=True), **kw)
    if rng.random() < 0.3:
        kw.update(p_empty=0.9, p_deps=0.8)
    doc = Document()
    doc.from_conllu_string(''.join(gen.gen_sent(rng, sid=f's{k}', zone=z, **(dict(kw, p_newdoc=0) if z != zones[0] else kw)).conllu() for k in range(nsent) for z in zones))
    for n in doc.nodes:
        if rng.random() < 0.12:
            n.misc[rng.choice(['Mark', 'Bug', 'ToDo', 'ToDoOrigText', 'Lang'])] = rng.choice(['1', 'x y'])
        if rng.random() < 0.05:
            n.form = rng.choice(['─', '│', '╭─╮', 'a╪b', '╼', '**', '<mark>', 'a  b', '\x1b[31m']) if rng.random() < 0.5 else n.form
    for t in doc.trees:
        if rng.random() < 0.1:
            for c in t.children:
                if rng.random() < 0.8:
                    c.remove()
            if not t.descendants:
                t.text = ''
        if rng.random() < 0.2:
            t.comment += rng.choice([' Mark = 1\n', ' x = y\n no value\n', ' Bug = <b>\n z = 1\n', '$GLOBAL.ENTITY\n'])
    return doc


def header(t, top, kw):
    out = []
    if kw.get('print_sent_id', 1):
        out.append('# sent_id = ' + t.sent_id + ('' if top is t else f'#{top.ord}'))
    if kw.get('print_text', 1):
        out.append('# text = ' + (t.text if top is t and t.text is not None else top.compute_text()))
    if kw.get('print_comments', 0):
        for c in [c for c in (t.comment or '').rstrip().split('\n') if c]:
            if c[1:] in ('NEWDOC', 'NEWPAR') and c[0] == '$':
                v = getattr(t, c[1:].lower())
                if v:
                    out.append(f'# {c[1:].lower()}' + ('' if v is True else f' id = {v}'))
            elif c not in ('$SENT_ID', '$TEXT', '$GLOBAL.ENTITY'):
                out.append('#' + c)
    return out


def judge(mon, out, tops, kw):
    """Split the printed text to trees (their sizes are known) and judge each of them."""
    lines = out.split('\n')
    mon.eq(lines.pop(), '', 'lines', 'the last line')
    pos = 0
    for top in tops:
        t = top.root
        h = header(t, top, kw)
        mon.eq(lines[pos:pos + len(h)], h, 'headers')
        pos += len(h)
        empty = kw.get('print_empty', 1)
        words = [n for n in t.descendants if top is t or n is top or n.is_descendant_of(top)]
        n = len(words) + (top is t)
        if empty:
            n += len(t.empty_nodes) if top is t else sum(key(words[0]) < key(e) < key(words[-1]) for e in t.empty_nodes)
        expect(mon, top, kw, lines[pos:pos + n], empty)
        pos += n
        if kw.get('add_empty_line', 1):
            mon.eq(lines[pos:pos + 1], [''], 'lines', 'empty line')
            pos += 1
    mon.eq(lines[pos:], [], 'lines', 'something more')


def is_marked(n, mark):
    return bool(mark) and bool(re.search(mark + '=', str(n.misc)))


def shown(top, empty):
    """Nodes of a drawing."""
    t = top.root
    words = [n for n in t.descendants if top is t or n is top or n.is_descendant_of(top)]
    return words + ([e for e in t.empty_nodes if top is t or key(words[0]) < key(e) < key(words[-1])] if empty else [])


def draw(rng, mon, i):
    doc = load(rng, mon, rng.choice([1, 1, 2]), zones=rng.choice([('',), ('',), ('en', 'cs')]))
    kw = options(rng)
    entry = rng.choice(['block', 'block', 'node', 'node', 'bundle', 'document', 'process_tree'])
    mon.event('entry.' + entry)
    mon.event('layout.' + kw.get('layout', 'classic'))
    mon.note(input=doc.to_conllu_string(), options=kw, entry=entry)
    tops = list(doc.trees)
    before = doc.to_conllu_string()
    with captured() as buf:
        if entry == 'block':
            z = {}
            zones = sorted({t.zone for t in tops})
            if len(zones) > 1 and rng.random() < 0.5:
                z['zones'] = rng.choice(zones)
                tops = [t for t in tops if t.zone == z['zones']]
                mon.event('zones restricted')
            if rng.random() < 0.3:
                kw['marked_only'] = 1
                mark = kw.get('mark', '(ToDo|ToDoOrigText|Bug|Mark)')
                tops = [t for t in tops if any(is_marked(n, mark) for n in list(t.descendants) + (list(t.empty_nodes) if kw.get('print_empty', 1) else []))
                        or kw.get('print_comments') and mark and re.search(f'^ {mark} = ', t.comment or '', re.M)]
            create_block('write.TextModeTrees', print_doc_meta=0, color=0, **kw, **z).run(doc)
        elif entry == 'document':
            doc.draw(print_doc_meta=0, **kw)
        elif entry == 'process_tree':         # one block for several subtrees
            block = create_block('write.TextModeTrees', color=0, marked_only=1, **kw)
            tops = [rng.choice([t] + list(t.descendants)) for t in tops for _ in range(2)]
            for top in tops:
                block.process_tree(top)
            mark = kw.get('mark', '(ToDo|ToDoOrigText|Bug|Mark)')
            tops = [x for x in tops if any(is_marked(n, mark) for n in shown(x, kw.get('print_empty', 1)))
                    or kw.get('print_comments') and mark and re.search(f'^ {mark} = ', x.root.comment or '', re.M)]
        elif entry == 'bundle':
            b = rng.choice(doc.bundles)
            tops = list(b)
            b.draw(**kw)
        else:
            t = rng.choice(tops)
            tops = [rng.choice([t] + list(t.descendants))]
            mon.event('subtree', tops[0] is not t)
            tops[0].draw(**kw)
    out = buf.getvalue()
    judge(mon, out, tops, kw)
    if kw.get('marked_only'):
        mon.eq(out.count('# sent_id = ') if kw.get('print_sent_id', 1) else len(tops), len(tops), 'marked only')
    mon.eq(doc.to_conllu_string(), before, 'lines', 'the document is not changed')
    mon.state('drawings', repr((out, sorted(kw.items()))))


ANSI = re.compile('\x1b\\[[0-9;]*m')


def colors(rng, mon, i):
    """Colours only add markup; so does HTML."""
    zones = rng.choice([('',), ('',), ('en', 'cs'), ('en', 'cs', 'x')])
    doc = load(rng, mon, rng.choice([1, 2]), zones=zones, max_n=7)
    for n in doc.nodes:
        n.form = n.form.replace('\x1b', 'e')
    kw = options(rng)
    kw.pop('mark', None)
    if rng.random() < 0.5:
        kw['print_comments'] = 1
    z = {}
    if len(zones) > 1 and rng.random() < 0.6:
        z['zones'] = ','.join(rng.sample(zones, rng.choice([1, 2])))
        mon.event('zones restricted')
    mon.note(input=doc.to_conllu_string(), options=kw, zones=z)

    def run(block, **more):
        with captured() as buf:
            create_block(block, **{**kw, **z, **more}).run(doc)
        return buf.getvalue()
    plain = run('write.TextModeTrees', mark='', print_doc_meta=0, color=0)
    colored = run('write.TextModeTrees', color=1, print_doc_meta=0)
    mon.eq(ANSI.sub('', colored), plain, 'colors only add markup')
    trees = [t for t in doc.trees if not z or t.zone in z['zones'].split(',')]
    attrs = kw.get('attributes', 'form,upos,deprel').split(',')
    if any(a in ('form', 'lemma', 'upos', 'deprel', 'ord') for a in attrs) and any(t.descendants for t in trees):
        mon.ok('\x1b[' in colored, 'colors only add markup', 'no colours')
    rev = colored.count('\x1b[7m')
    shown = [n for t in trees for n in list(t.descendants) + (list(t.empty_nodes) if kw.get('print_empty', 1) else []) if is_marked(n, '(ToDo|ToDoOrigText|Bug|Mark)')]
    hl = sum(len(re.findall('^ (?:ToDo|ToDoOrigText|Bug|Mark) = ', t.comment or '', re.M)) for t in trees) if kw.get('print_comments') else 0
    mon.eq(rev, len(shown) * len(attrs) + hl, 'colors only add markup', 'highlighted')
    # HTML
    c = rng.choice([0, 1])
    rows = rng.choice([0, 1])
    title = rng.choice(['T', 'a <b> & c'])
    page = run('write.TextModeTreesHtml', color=c, zones_in_rows=rows, title=title, print_doc_meta=0, **({} if c else dict(mark='')))
    mon.ok(f'<title>{html.escape(title)}</title>' in page, 'html only adds markup', 'title')
    body = re.fullmatch('<!DOCTYPE html>\n<html>.*<body>\n<pre>\n(.*)</pre>\n</body>\n</html>\n', page, re.S)
    mon.ok(body, 'html only adds markup', 'frame')
    body = body.group(1)
    if rows:
        mon.eq(body.count('<tr>'), sum(any(t in b.trees for t in trees) for b in doc.bundles), 'html only adds markup', 'rows')
        mon.eq(body.count('<td>'), len(trees), 'html only adds markup', 'cells')
        body = re.sub('</?t(?:able|r|d)>(?:</?tr>)?(?:</table>)?\n', '', body)
    stack = []
    for tag in re.findall('<[^>]*>', body):
        m = re.fullmatch(r"<(/?)(span|mark)((?: class='[\w\[\]]+')?)>", tag)
        mon.ok(m, 'html only adds markup', lambda: f'tag {tag}')
        if m.group(1):
            mon.ok(stack and stack.pop() == m.group(2), 'html only adds markup', 'nesting')
        else:
            stack.append(m.group(2))
    mon.eq(stack, [], 'html only adds markup', 'closed tags')
    mon.eq(html.unescape(re.sub('<[^>]*>', '', body)), plain, 'html only adds markup', lambda: page)
    mon.eq(body.count('<mark>'), (len(shown) * (len(attrs) if kw.get('layout') == 'align' else 1) + hl) if c else 0, 'html only adds markup', 'highlighted')
    # only marked trees
    page = run('write.TextModeTreesHtml', color=c, zones_in_rows=1, whole_bundle=0, marked_only=1, print_doc_meta=0)
    some = [t for t in trees if any(n.root is t for n in shown) or kw.get('print_comments') and re.search('^ (?:ToDo|ToDoOrigText|Bug|Mark) = ', t.comment or '', re.M)]
    mon.eq(page.count('<td>'), len(some), 'marked only')
    page = run('write.TextModeTreesHtml', color=c, zones_in_rows=1, whole_bundle=1, marked_only=1, print_doc_meta=0)
    mon.eq(page.count('<td>'), sum(any(s.bundle is t.bundle for s in some) for t in trees), 'marked only', 'whole bundles')
    mon.state('markup', repr((colored, sorted(kw.items()))))


def big(rng, mon, i):
    """Larger and deeper trees."""
    doc = Document()
    doc.create_bundle()
    t = doc.bundles[0].create_tree()
    n = rng.choice([30, 60, 120])
    par = gen.tree_parents(rng, n, rng.choice(['random', 'proj', 'chain', 'deep', 'attach_left', 'attach_right']))
    nodes = [t] + [t.create_child(form=f'w{k}') for k in range(1, n + 1)]
    done = set()
    while len(done) < n:
        for k in range(1, n + 1):
            if k not in done and (par[k] == 0 or par[k] in done):
                nodes[k].parent = nodes[par[k]]
                done.add(k)
    mon.event('deep tree')
    kw = options(rng)
    kw.pop('attributes', None)
    mon.note(heads=par, options=kw)
    with captured() as buf:
        t.draw(**kw)
    judge(mon, buf.getvalue(), [t], kw)
    mon.state('big', repr((par, sorted(kw.items()))))


def small(rng, mon, i):
    """All trees over few words, by their number."""
    n, k, todo = 1, i, []
    while True:
        c = (n + 1) ** (n - 1)
        if k < c:
            break
        k -= c
        n += 1
    # the k-th sequence of heads that is a tree (Pruefer code of n+1 labelled vertices)
    code = []
    for _ in range(n - 1):
        code.append(k % (n + 1))
        k //= n + 1
    deg = [1 + code.count(v) for v in range(n + 1)]
    edges = []
    for v in code:
        leaf = min(u for u in range(n + 1) if deg[u] == 1)
        edges.append((leaf, v))
        deg[leaf] -= 1
        deg[v] -= 1
    a, b = [u for u in range(n + 1) if deg[u] == 1]
    edges.append((a, b))
    par, seen = [0] * (n + 1), {0}
    while len(seen) <= n:
        for a, b in edges:
            if a in seen and b not in seen:
                par[b] = a
                seen.add(b)
            elif b in seen and a not in seen:
                par[a] = b
                seen.add(a)
    doc = Document()
    t = doc.create_bundle().create_tree()
    nodes = [t] + [t.create_child(form=f'w{j}', upos='X', deprel='d') for j in range(1, n + 1)]
    left = set(range(1, n + 1))
    ok = {0}
    while left:
        for j in sorted(left):
            if par[j] in ok:
                nodes[j].parent = nodes[par[j]]
                ok.add(j)
                left.discard(j)
    mon.note(heads=par)
    for layout in ('classic', 'compact', 'align', 'align-words'):
        for mc in (0, 1):
            for hints in (0, 1):
                kw = dict(layout=layout, minimize_cross=mc, hints=hints, indent=rng.choice([0, 1, 2]))
                mon.event('layout.' + layout)
                mon.note(options=kw)
                top = rng.choice(nodes)
                with captured() as buf:
                    t.draw(**kw)
                    top.draw(**kw)
                judge(mon, buf.getvalue(), [t, top], kw)
    mon.state('all small trees', repr(par))


def crossings(rng, mon, i):
    """minimize_cross is a heuristic, but over many trees it must avoid many crossings."""
    total = {}
    doc = Document()
    for _ in range(700):
        n = rng.randint(4, 9)
        par = gen.tree_parents(rng, n, 'random')
        t = doc.create_bundle().create_tree()
        nodes = [t] + [t.create_child(form='w') for k in range(n)]
        done = {0}
        while len(done) <= n:
            for k in range(1, n + 1):
                if k not in done and par[k] in done:
                    nodes[k].parent = nodes[par[k]]
                    done.add(k)
    layout, hints = rng.choice(['classic', 'compact', 'align', 'align-words']), rng.choice([0, 1])
    for mc in (0, 1):
        with captured() as buf:
            create_block('write.TextModeTrees', minimize_cross=mc, layout=layout, hints=hints, color=0).run(doc)
        total[mc] = buf.getvalue().count('╪')
    mon.note(total=total, layout=layout)
    mon.event('crossing', total[0])
    mon.ok(total[0] > 20 and total[1] < 0.85 * total[0], 'fewer crossings', lambda: total)
    mon.state('crossings', repr((total, layout, i)))


WORKLOADS = [Workload('crossings', crossings, 12, 200), Workload('small', small, 2350, 18200), Workload('draw', draw, 4850, 60000), Workload('colors', colors, 1300, 15000), Workload('big', big, 150, 2000)]
