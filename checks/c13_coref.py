"""C13: coreference annotation survives load and store."""
import re
from lib import gen, corefgen as cg, refconllu as ref
from lib.vf import Workload, Logs, captured
from udapi.core.document import Document
from udapi.core.run import create_block
from udapi.block.corefud.load import Load
from udapi.block.write.conllu import Conllu as ConlluWriter
from udapi.block.read.conllu import Conllu as ConlluReader

ID = 'C13'
RULE = ('distinct annotations (header, chunk sequences, links); the objects are compared with an independent model '
        'and the stored brackets are read by an independent parser')
NEEDS = ['oracle.entities', 'oracle.mention', 'oracle.head', 'oracle.other', 'oracle.bridging', 'oracle.split antecedents', 'oracle.word view',
         'oracle.stored brackets', 'oracle.stored mentions', 'oracle.rest unchanged', 'oracle.fixed point', 'oracle.reload',
         'events.discontinuous', 'events.nested', 'events.crossing', 'events.empty node', 'events.same span', 'events.GRP', 'events.cataphoric link',
         'oracle.malformed']
ASSUMPTIONS = ['one zone per document', 'mentions of one entity do not cross, share a span or interleave with a discontinuous one (not expressible)',
               'attribute values contain no bracket, hyphen, comma, less-than sign or bar (no escape is defined for them); commas occur in minspan-like fields',
               'a bridging link belongs to the only mention of its entity starting at that word (the format names the entity only)']

STRIP = re.compile(r'^d\d+\.')


def doc_nodes(doc):
    """Nodes per sentence straight from the trees: words and empty nodes in order."""
    out = []
    for b in doc.bundles:
        for t in b.trees:
            out.append(sorted(t._descendants + t.empty_nodes, key=lambda n: tuple(map(int, (str(n.ord) + '.0').split('.')[:2]))))
    return out


def judge_loaded(mon, m, doc, detail, bridging_order=True):
    grp = 'GRP' in m.fields
    nodes = doc_nodes(doc)
    by_node = {n: (si, p) for si, ns in enumerate(nodes) for p, n in enumerate(ns)}

    def eid(x):
        return STRIP.sub('', x) if grp else x

    ents = doc.coref_entities
    # with GRP the same ID may occur in several documents; here each entity has its own ID
    mon.eq(sorted(eid(e.eid) for e in ents), sorted(e.eid for e in m.ents), 'entities', lambda: detail)
    mon.ok(list(doc.eid_to_entity) == [e.eid for e in ents], 'entities', lambda: detail)
    order = sorted(m.ents, key=lambda e: min(x.key() for x in e.mentions))
    mon.eq([eid(e.eid) for e in ents], [e.eid for e in order], 'entities', lambda: f'order, {detail}')
    if grp:
        prefixes = {}
        for e in ents:
            for x in e.mentions:
                prefixes.setdefault(m.docno[by_node[x.words[0]][0]], set()).add(STRIP.match(e.eid).group())
        mon.ok(all(len(v) == 1 for v in prefixes.values()) and len(set().union(*prefixes.values())) == len(prefixes) if prefixes else True,
               'entities', lambda: f'document prefixes {prefixes}')
    model_of, obj_of = {}, {}
    for e, me in zip(ents, order):
        mon.eq(e.etype or '', me.etype, 'entity type', lambda: f'{e.eid} {detail}')
        want = sorted(me.mentions, key=cg.M.key)
        mon.eq([tuple(by_node[w] for w in x.words) for x in e.mentions], [tuple((y.sent, p) for p in y.pos) for y in want],
               'mention', lambda: f'{e.eid} {detail}')
        for x, y in zip(e.mentions, want):
            model_of[id(x)] = y
            obj_of[id(y)] = x
            mon.ok(x.entity is e, 'mention', lambda: f'{e.eid} {detail}')
            mon.ok(x.head is nodes[y.sent][y.pos[y.head - 1]], 'head',
                   lambda: f'{e.eid} {x.span}: {x.head.ord if x.head else None} expected word {y.head} {detail}')
            mon.eq({k: x.other[k] for k in x.other}, y.other_as_loaded(), 'other', lambda: f'{e.eid} {x.span} {detail}')
            got = [(eid(l.target.eid), l.relation) for l in x.bridging]
            exp = [(t.eid, r) for t, r in y.bridging]
            mon.eq(got if bridging_order else sorted(got), exp if bridging_order else sorted(exp), 'bridging', lambda: f'{e.eid} {x.span} {detail}')
            for l in x.bridging:
                mon.ok(doc.eid_to_entity[l.target.eid] is l.target, 'bridging', lambda: detail)
        mon.eq([eid(s.eid) for s in e.split_ante], [s.eid for s in me.split], 'split antecedents', lambda: f'{e.eid} {detail}')
        for s in e.split_ante:
            mon.ok(doc.eid_to_entity[s.eid] is s, 'split antecedents', lambda: detail)
    cm = doc.coref_mentions
    mon.ok([id(x) for x in cm] == [id(obj_of[id(y)]) for y in m.mentions()], 'mention', lambda: f'document order {detail}')
    for si, ns in enumerate(nodes):
        for p, n in enumerate(ns):
            exp = sorted((y for e in m.ents for y in e.mentions if y.sent == si and p in y.pos), key=cg.M.key)
            mon.ok([id(x) for x in n.coref_mentions] == [id(obj_of[id(y)]) for y in exp], 'word view',
                   lambda: f'{n.ord}: {[(x.entity.eid, x.span) for x in n.coref_mentions]} expected {[(y.ent.eid, y.pos) for y in exp]} {detail}')
            mon.eq([eid(x.eid) for x in n.coref_entities], [y.ent.eid for y in exp], 'word view', lambda: detail)


def bare(text):
    """Everything but the annotation, per sentence."""
    out = []
    for k, s in enumerate(ref.parse(text)):
        rows = []
        for w in s.words + s.empties:
            d = {a: b for a, b in ref.kv(w[9]).items() if a not in ('Entity', 'Bridge', 'SplitAnte')}
            rows.append(tuple(w[:9]) + (tuple(sorted(d.items(), key=repr)),))
        com = [c for c in s.comments if not c.startswith('# global.Entity')]
        out.append((rows, s.mwts, com))
    return out


def judge_stored(mon, m, text, out, detail):
    mon.eq(bare(out), bare(text), 'rest unchanged', lambda: detail)
    for s in ref.parse(out):
        mon.ok(s.newdoc is None or s.global_entity == m.header, 'rest unchanged', lambda: f'header {s.global_entity} {detail}')
    p = cg.Parsed(out, m.header)
    mon.eq(p.faults, [], 'stored brackets', lambda: f'{out} {detail}')
    want = cg.described(m)
    mon.eq(sorted(p.mentions, key=repr), want[0], 'stored mentions', lambda: f'{out} {detail}')
    mon.eq(sorted((d, t, s, r, si, q) for d, t, s, r, si, q in p.bridges), want[1], 'stored links', lambda: f'{out} {detail}')
    mon.eq(sorted(p.splits), want[2], 'stored links', lambda: f'{out} {detail}')


def observe(mon, m):
    ms = m.mentions()
    if 'GRP' in m.fields:
        mon.event('GRP')
    for a in ms:
        if len(a.subspans()) > 1:
            mon.event('discontinuous')
        if any(m.nodes[a.sent][p][1] for p in a.pos):
            mon.event('empty node')
        for t, _ in a.bridging:
            if min(x.key() for x in t.mentions) > a.key():
                mon.event('cataphoric link')
        for b in ms:
            if a is not b and a.sent == b.sent:
                x, y = set(a.pos), set(b.pos)
                if x < y:
                    mon.event('nested')
                elif x == y:
                    mon.event('same span')
                elif x & y and not y < x:
                    mon.event('crossing')
    mon.event('mentions', len(ms))
    mon.event('bridging links', sum(len(x.bridging) for x in ms))
    mon.event('split antecedents', sum(1 for e in m.ents if e.split))


def make(rng, canonical, **kw):
    m = cg.gen_model(rng, **kw)
    cg.annotate(rng, m, canonical)
    return m, gen.to_text(m.sents)


def load(rng, mon, text):
    way = rng.choice(['string', 'string', 'file', 'reader', 'block'])
    doc = Document()
    if way == 'string':
        doc.from_conllu_string(text)
    elif way == 'file':
        path = mon.scratch() + '/a.conllu'
        with open(path, 'w', encoding='utf-8') as f:
            f.write(text)
        doc = Document(path) if rng.random() < 0.5 else doc
        if not doc.bundles:
            doc.load_conllu(path)
    elif way == 'reader':
        path = mon.scratch() + '/a.conllu'
        with open(path, 'w', encoding='utf-8') as f:
            f.write(text)
        r = ConlluReader(files=path, split_docs=0)
        r.process_document(doc)
    else:
        doc.from_conllu_string(text)
        Load().run(doc)
    mon.event('load.' + way)
    # any of the accessors loads the annotation
    first = rng.choice(['entities', 'mentions', 'node', 'dict', 'clusters'])
    if first == 'entities':
        doc.coref_entities
    elif first == 'mentions':
        doc.coref_mentions
    elif first == 'node':
        rng.choice([n for ns in doc_nodes(doc) for n in ns]).coref_mentions
    elif first == 'dict':
        doc.eid_to_entity
    else:
        doc.coref_clusters
    return doc


def wl_roundtrip(rng, mon, i):
    m, text = make(rng, canonical=rng.random() < 0.5)
    mon.note(text=text, header=m.header)
    observe(mon, m)
    mon.state('annotation', m.header + ''.join(repr(ref.kv(w['misc']).get('Entity')) for s in m.sents for w in s.words))
    detail = f'header {m.header}'
    doc = load(rng, mon, text)
    judge_loaded(mon, m, doc, detail)
    if not m.ents:
        mon.eq(bare(doc.to_conllu_string()), bare(text), 'rest unchanged')
        return
    out = doc.to_conllu_string()
    judge_stored(mon, m, text, out, detail)
    judge_loaded(mon, m, doc, 'after store, ' + detail)
    mon.eq(doc.to_conllu_string(), out, 'fixed point', 'stored twice')
    doc2 = Document()
    doc2.from_conllu_string(out)
    judge_loaded(mon, m, doc2, 'reloaded, ' + detail, bridging_order=False)
    mon.ok(True, 'reload')
    mon.eq(doc2.to_conllu_string(), out, 'fixed point', 'reloaded and stored')


def wl_untouched(rng, mon, i):
    """Annotation that is never accessed is stored as it is."""
    m, text = make(rng, canonical=rng.random() < 0.5)
    mon.note(text=text)
    doc = Document()
    doc.from_conllu_string(text)
    mon.eq(doc.to_conllu_string(), text, 'unaccessed')


def wl_several(rng, mon, i):
    """Several documents one after another: nothing leaks from one to the next."""
    docs = [make(rng, True) for _ in range(3)]
    mon.note(text='\n@@@\n'.join(t for _, t in docs))
    objs = []
    for m, text in docs:
        d = Document()
        d.from_conllu_string(text)
        d.coref_entities
        objs.append(d)
    for (m, text), d in zip(docs, objs):
        judge_loaded(mon, m, d, m.header)
    for (m, text), d in zip(docs, objs):
        if m.ents:
            judge_stored(mon, m, text, d.to_conllu_string(), m.header)


def wl_types(rng, mon, i):
    """Mentions of one entity with different types: the entity has the first one given, the others are kept with their mentions."""
    m = cg.gen_model(rng, header=rng.choice(['eid-etype-head-other', 'eid-etype-head']))
    new = []
    for e in m.ents:
        ms = sorted(e.mentions, key=cg.M.key)
        starts = [(x.sent, x.pos[0]) for x in ms]
        if len(ms) < 2 or len(set(starts)) < len(starts) or any(len(x.subspans()) > 1 for x in ms):
            continue
        for x in ms:
            if rng.random() < 0.6:
                x.etype = rng.choice(['', 'person', 'abstract', 'place', 'odd,type'])
        given = [e.etype if x.etype is None else x.etype for x in ms]
        first = next((t for t in given if t), '')
        new.append((e, first, [(x, t) for x, t in zip(ms, given)]))
    cg.annotate(rng, m, True)
    text = gen.to_text(m.sents)
    mon.note(text=text, header=m.header)
    for e, first, ms in new:
        e.etype = first
        for x, t in ms:
            x.etype = None
            if t and t != first:
                x.other['orig_etype'] = t.replace(',', '%2C')
                mon.event('type mismatch')
            elif not t and first:
                mon.event('type omitted')
    doc = load(rng, mon, text)
    judge_loaded(mon, m, doc, 'types')
    if m.ents and 'other' in m.fields:
        again = Document()
        again.from_conllu_string(doc.to_conllu_string())
        judge_loaded(mon, m, again, 'types, stored', bridging_order=False)


def wl_header(rng, mon, i):
    """The declaration of the fields comes before the annotation, whichever sentences start documents."""
    m = cg.gen_model(rng, header=rng.choice(['eid-etype-head-other', 'eid-etype-head']), sents=gen.gen_doc(rng, nsent=rng.choice([2, 3, 4]), p_empty=0.3,
                     p_newdoc=0.5, max_n=9, json_comments=0, many_empty=0.0))
    if not m.ents:
        return
    cg.annotate(rng, m, True)
    text = gen.to_text(m.sents)
    how = rng.choice(['in memory', 'in the file', 'sentence removed'])
    mon.note(text=text, how=how)
    mon.event('header ' + how)
    if how == 'in the file' and any(s.newdoc for s in m.sents[1:]):
        k = next(k for k, s in enumerate(m.sents) if k and s.newdoc)
        s = m.sents[0]
        s.comments = [c for c in s.comments if not c.startswith(('# global.Entity', '# newdoc'))]
        s.newdoc = None
        text = gen.to_text(m.sents)
        mon.event('late header')
    doc = Document()
    doc.from_conllu_string(text)
    doc.coref_entities
    if how == 'in memory':
        for t in doc.trees:
            t.newdoc = rng.choice([None, None, True, 'd7'])
    elif how == 'sentence removed':
        used = {y.sent for y in m.mentions()}
        if 0 not in used:
            doc.bundles[0].remove()
    starts = [t.newdoc for t in doc.trees]
    out = doc.to_conllu_string()
    sents = ref.parse(out)
    mon.ok(sents[0].newdoc is not None and sents[0].global_entity == m.header, 'header', lambda: f'{how}: the first sentence has newdoc={sents[0].newdoc!r} header={sents[0].global_entity}')
    for k, s in enumerate(sents):
        mon.eq(s.newdoc, starts[k] or (True if k == 0 else None), 'header', f'document starts, {how}')
        mon.ok(s.newdoc is None or s.global_entity == m.header, 'header', how)
    again = Document()
    again.from_conllu_string(out)
    mon.eq(sorted((e.eid, e.etype or '', tuple(x.span for x in e.mentions)) for e in again.coref_entities),
           sorted((e.eid, e.etype or '', tuple(x.span for x in e.mentions)) for e in doc.coref_entities), 'header', how)


def put(m, si, p, value, front=False):
    w = m.word(si, p)
    d = [x for x in w['misc'].split('|') if x != '_']
    old = next((x[7:] for x in d if x.startswith('Entity=')), '')
    d = [x for x in d if not x.startswith('Entity=')]
    d.append('Entity=' + (value + old if front else old + value))
    w['misc'] = '|'.join(sorted(d, key=lambda x: x.split('=')[0].lower()))


def wl_malformed(rng, mon, i):
    kind = rng.choice(['closing', 'noheader', 'cross', 'unclosed', 'selfsplit', 'selfbridge', 'badhead', 'undefined'])
    mon.event('malformed.' + kind)
    m = cg.gen_model(rng, header=rng.choice(['eid-etype-head-other', 'eid-etype-head', 'eid-head']), allow_links=False)
    cg.annotate(rng, m, True)
    si = rng.randrange(len(m.sents))
    if not m.nodes[si]:
        return
    n = len(m.nodes[si])
    p = rng.randrange(n)
    has_type = 'etype' in m.fields
    new = 'new' + ('-person' if has_type else '') + '-1'
    doc = Document()
    if kind == 'closing':
        put(m, si, p, 'nope)', front=True)
    elif kind == 'noheader':
        if not m.ents:
            return
        for s in m.sents:
            s.comments = [c for c in s.comments if not c.startswith('# global.Entity')]
    elif kind == 'cross':
        if si + 1 >= len(m.sents):
            return
        put(m, si, p, '(' + new)
        put(m, si + 1, rng.randrange(len(m.nodes[si + 1])), 'new)', front=True)
    elif kind == 'unclosed':
        put(m, si, p, '(' + new)
        text = gen.to_text(m.sents)
        mon.note(text=text)
        doc.from_conllu_string(text)
        with Logs() as logs:
            judge_loaded(mon, m, doc, 'unclosed mention')
        mon.ok(any('not closed' in x for x in logs.messages()), 'malformed', 'no warning about an unclosed mention')
        return
    elif kind in ('selfsplit', 'selfbridge', 'undefined'):
        if not m.ents:
            return
        e = rng.choice(m.ents)
        f = min(e.mentions, key=cg.M.key)
        w = m.word(f.sent, f.pos[0])
        w['misc'] += {'selfsplit': f'|SplitAnte={e.eid}<{e.eid}', 'selfbridge': f'|Bridge={e.eid}<{e.eid}',
                      'undefined': f'|Bridge=nowhere<{e.eid}:part'}[kind]
    elif kind == 'badhead':
        q = rng.randint(p, n - 1)
        bad = str(q - p + 2) if rng.random() < 0.5 else 'x'
        if p == q:
            bad = 'x'
        put(m, si, p, '(new' + ('-person' if has_type else '') + f'-{bad}' + (')' if p == q else ''))
        if p != q:
            put(m, si, q, 'new)', front=True)
    text = gen.to_text(m.sents)
    mon.note(text=text, kind=kind)
    doc.from_conllu_string(text)
    mon.raises(lambda: doc.coref_entities, 'malformed', Exception)


def wl_lenient(rng, mon, i):
    """corefud.Load strict=0: a faulty mention is repaired or dropped as a whole with a message, everything else is loaded as it is."""
    kind = rng.choice(['cross', 'big head', 'no number', 'unclosed', 'bad bridge'])
    m = cg.gen_model(rng, header=rng.choice(['eid-etype-head-other', 'eid-etype-head', 'eid-head']), allow_links=kind != 'bad bridge')
    cg.annotate(rng, m, True)
    si = rng.randrange(len(m.sents))
    n = len(m.nodes[si])
    if not n:
        return
    p = rng.randrange(n)
    q = rng.randint(p, n - 1)
    etype = '-person' if 'etype' in m.fields else ''
    e = cg.Ent('new', 'person' if etype else '')
    if kind == 'cross':
        if si + 1 >= len(m.sents):
            return
        put(m, si, p, f'(new{etype}-1')
        put(m, si + 1, rng.randrange(len(m.nodes[si + 1])), 'new)', front=True)
    elif kind == 'unclosed':
        put(m, si, p, f'(new{etype}-1')
    elif kind == 'bad bridge':
        if not m.ents:
            return
        f = min(rng.choice(m.ents).mentions, key=cg.M.key)
        m.word(f.sent, f.pos[0])['misc'] += '|Bridge=' + rng.choice(['nowhere', 'a<b<c', f.ent.eid])
    else:
        size = q - p + 1
        head = size + rng.randint(1, 5) if kind == 'big head' else rng.choice(['x', '1.5', ''])
        put(m, si, p, f'(new{etype}-{head}' + (')' if p == q else ''))
        if p != q:
            put(m, si, q, 'new)', front=True)
        m.ents.append(e)
        # the head index of a mention of one word is not looked at
        e.mentions.append(cg.M(e, si, list(range(p, q + 1)), size if kind == 'big head' else 1))
    text = gen.to_text(m.sents)
    mon.note(text=text, kind=kind)
    doc = Document()
    doc.from_conllu_string(text)
    with Logs() as logs:
        create_block('corefud.Load', strict=0).apply_on_document(doc)
        if kind != 'big head' or p != q:
            mon.ok(logs.messages(), 'malformed', f'no message about {kind}')
        judge_loaded(mon, m, doc, kind)
        mon.event('lenient.' + kind)
        if m.ents:
            again = Document()
            again.from_conllu_string(doc.to_conllu_string())
            judge_loaded(mon, m, again, kind + ', stored', bridging_order=False)


def wl_none(rng, mon, i):
    """Documents without coreference: no objects, and nothing is written."""
    sents = gen.gen_doc(rng, p_newdoc=0.0, json_comments=0)
    text = gen.to_text(sents)
    mon.note(text=text)
    doc = Document()
    doc.from_conllu_string(text)
    mon.eq(list(doc.coref_entities), [], 'no entities')
    mon.eq(list(doc.coref_mentions), [], 'no entities')
    for ns in doc_nodes(doc):
        for n in ns:
            mon.eq(list(n.coref_mentions), [], 'no entities')
    ref_doc = Document()
    ref_doc.from_conllu_string(text)
    mon.eq(doc.to_conllu_string(), ref_doc.to_conllu_string(), 'no entities')


WORKLOADS = [Workload('roundtrip', wl_roundtrip, 5100, 30600), Workload('untouched', wl_untouched, 450, 2700), Workload('several', wl_several, 350, 2100),
             Workload('malformed', wl_malformed, 1550, 9300), Workload('lenient', wl_lenient, 700, 6000), Workload('none', wl_none, 450, 2700),
             Workload('types', wl_types, 600, 4000), Workload('header', wl_header, 600, 4000)]
