"""C14: coreference objects stay consistent under editing."""
import re

from lib import gen, corefgen as cg, refconllu as ref
from lib.vf import Workload, Logs, captured
from checks.c13_coref import doc_nodes, STRIP, bare
from udapi.core.document import Document
from udapi.core.coref import span_to_nodes, nodes_to_span, BridgingLinks
from udapi.block.corefud.fixinterleaved import FixInterleaved
from udapi.block.corefud.mergesamespan import MergeSameSpan
from udapi.block.corefud.movehead import MoveHead
from udapi.block.corefud.indexclusters import IndexClusters
from udapi.block.corefud.guessspan import GuessSpan
from udapi.block.corefud.delete import Delete
from udapi.block.corefud.removenocorefentities import RemoveNoCorefEntities
from udapi.block.corefud.fixentityacrossnewdoc import FixEntityAcrossNewdoc
from udapi.block.corefud.fixparentheses import FixParentheses
from udapi.block.corefud.link2cluster import Link2Cluster

ID = 'C14'
RULE = 'distinct (operation, shape of the touched mention) pairs and block runs; both directions of every link are walked after each operation'
NEEDS = ['oracle.both directions', 'oracle.mention lists', 'oracle.words', 'oracle.span', 'oracle.order', 'oracle.refused', 'oracle.entity IDs',
         'oracle.stored after edits', 'oracle.extra fields', 'events.other.self', 'events.op.words', 'events.op.span', 'events.op.head', 'events.op.entity', 'events.op.remove', 'events.op.bridging',
         'events.op.refused', 'events.op.insert word', 'events.op.reorder', 'events.block.FixInterleaved', 'events.block.MergeSameSpan', 'events.block.Link2Cluster',
         'events.block.FixEntityAcrossNewdoc', 'events.block.RemoveNoCorefEntities', 'events.block.GuessSpan', 'events.block.MoveHead', 'events.link cycle', 'events.head.gappy', 'events.one merger', 'events.parenthesis added']
ASSUMPTIONS = ['words belonging to mentions are not removed (TODO in the code)', 'one zone per document',
               'stored annotation is compared only for mentions the format can express (see C13)']


def positions(doc):
    pos, row = {}, {}
    for si, ns in enumerate(doc_nodes(doc)):
        for p, n in enumerate(ns):
            pos[n] = (si, p)
            row[n] = ns
    return pos, row


def expected_span(words, row):
    ws = set(words)
    ns = row[words[0]]
    runs = []
    for p, n in enumerate(ns):
        if n in ws:
            if runs and runs[-1][1] == p - 1:
                runs[-1][1] = p
            else:
                runs.append([p, p])
    return ','.join(str(ns[a].ord) if a == b else f'{ns[a].ord}-{ns[b].ord}' for a, b in runs)


def consistent(mon, doc, detail, sorted_mentions=True):
    """Both directions agree everywhere, lists are duplicate-free and sorted, heads are members, spans parse back."""
    pos, row = positions(doc)

    def key(m):
        w = sorted(pos[x] for x in m.words)
        return (w[0], -len(w), w[-1])

    d = doc.eid_to_entity
    ents = doc.coref_entities
    mon.ok(len({id(e) for e in ents}) == len(ents) and [e.eid for e in d.values()] == list(d) and all(a is b for a, b in zip(ents, d.values())),
           'entity IDs', lambda: f'{list(d)} {[e.eid for e in ents]} after {detail}')
    listed = {}
    for e in ents:
        for m in e.mentions:
            mon.ok(id(m) not in listed, 'mention lists', lambda: f'{e.eid} {m.span} listed twice after {detail}')
            listed[id(m)] = m
            mon.ok(m.entity is e, 'mention lists', lambda: f'{m.span} is listed in {e.eid} but belongs to {m.entity.eid} after {detail}')
            words = list(m.words)
            mon.ok(bool(words), 'words', lambda: f'{e.eid}: mention without words after {detail}')
            p = [pos.get(w) for w in words]
            mon.ok(None not in p and all(a < b for a, b in zip(p, p[1:])) and p[0][0] == p[-1][0], 'words',
                   lambda: f'{e.eid}: {[w.ord for w in words]} after {detail}')
            mon.ok(any(w is m.head for w in words), 'words', lambda: f'{e.eid}: head {m.head.ord} not in {m.span} after {detail}')
            span = m.span
            mon.eq(span, expected_span(words, row), 'span', lambda: detail)
            back = span_to_nodes(words[0].root, span)
            mon.ok(len(back) == len(words) and all(a is b for a, b in zip(back, words)), 'span', lambda: f'{span} parsed to {[x.ord for x in back]}')
            mon.eq(nodes_to_span(back), span, 'span')
            for w in words:
                mon.ok(sum(1 for x in w.coref_mentions if x is m) == 1, 'both directions',
                       lambda: f'word {w.ord} lists {e.eid} {span} {sum(1 for x in w.coref_mentions if x is m)} times after {detail}')
        if sorted_mentions:
            ks = [key(m) for m in e.mentions]
            mon.ok(ks == sorted(ks), 'order', lambda: f'{e.eid}: {[m.span for m in e.mentions]} {ks} after {detail}')
    for w in pos:
        for m in w.coref_mentions:
            mon.ok(id(m) in listed, 'both directions', lambda: f'word {w.ord} lists a mention of {m.entity.eid} which no entity lists, after {detail}')
            mon.ok(any(x is w for x in m.words), 'both directions', lambda: f'word {w.ord} lists {m.entity.eid} {m.span} after {detail}')
        ks = [key(m) for m in w.coref_mentions]
        if sorted_mentions:
            mon.ok(ks == sorted(ks), 'order', lambda: f'word {w.ord}: {[m.span for m in w.coref_mentions]} after {detail}')
        mon.ok([id(x) for x in w.coref_entities] == [id(m.entity) for m in w.coref_mentions], 'both directions')
    cm = doc.coref_mentions
    mon.ok(len(cm) == len(listed) and {id(m) for m in cm} == set(listed), 'mention lists', lambda: f'document list after {detail}')
    ks = [key(m) for m in cm]
    mon.ok(ks == sorted(ks), 'order', lambda: f'document: {[(m.entity.eid, m.span) for m in cm]} after {detail}')
    for a, b in zip(cm, cm[1:]):
        if key(a) != key(b):
            mon.ok(a < b and not b < a and b > a, 'order', lambda: f'{a.span} and {b.span} compare wrongly after {detail}')
    have = [e for e in ents if e.mentions]
    for a, b in zip(have, have[1:]):
        ka, kb = key(a.mentions[0]), key(b.mentions[0])
        if ka != kb:
            mon.ok((a < b) == (ka < kb), 'order', lambda: f'entities {a.eid} and {b.eid}')


class Rec:
    def __init__(self, obj, ent, words, head):
        self.obj, self.ent, self.words, self.head = obj, ent, set(words), head
        self.bridging = []


def matches(mon, doc, ents, recs, detail, splits=None):
    """The objects are what the history made them."""
    mon.ok([id(e) for e in doc.coref_entities] == [id(e) for e in ents], 'entity IDs', lambda: f'entities after {detail}')
    live = {id(r.obj): r for r in recs}
    cm = doc.coref_mentions
    mon.ok(len(cm) == len(recs) and {id(m) for m in cm} == set(live), 'mention lists', lambda: f'mentions after {detail}')
    for r in recs:
        mon.ok(r.obj.entity is r.ent and r.obj.head is r.head and set(r.obj.words) == r.words, 'effect',
               lambda: f'{r.obj.entity.eid} {r.obj.span} head {r.obj.head.ord}; expected {r.ent.eid} {sorted(str(w.ord) for w in r.words)} '
                       f'head {r.head.ord} after {detail}')
        mon.eq([(l.target.eid, l.relation) for l in r.obj.bridging], [(t.eid, x) for t, x in r.bridging], 'effect bridging', lambda: detail)
    if splits is None:
        return
    for e in ents:
        mon.eq([x.eid for x in e.split_ante], [x.eid for x in splits.get(id(e), ())], 'effect', lambda: f'split antecedents of {e.eid} after {detail}')
    pos, _ = positions(doc)

    def order(e):
        firsts = [(lambda p: (p[0], -len(p), p[-1]))(sorted(pos[w] for w in r.words)) for r in recs if r.ent is e]
        return (1, min(firsts), e.eid) if firsts else (0, (), e.eid)

    for r in recs:
        links = list(r.obj.bridging)
        if len(links) > 1 and len({(id(t), x) for t, x in r.bridging}) == len(links):
            want = sorted(r.bridging, key=lambda p: (order(p[0]), p[1]))
            for seq in (links, links[::-1]):
                mon.eq([(l.target.eid, l.relation) for l in sorted(seq)], [(t.eid, x) for t, x in want], 'order', lambda: f'sorted bridging links after {detail}')


def some_words(rng, ns, head=None, kind=None):
    n = len(ns)
    kind = kind or rng.choice(['one', 'run', 'run', 'run', 'any', 'all'])
    if kind == 'one':
        out = [rng.choice(ns)]
    elif kind == 'run':
        a = rng.randrange(n)
        out = ns[a:a + rng.choice([1, 2, 2, 3, 5])]
    elif kind == 'all':
        out = list(ns)
    else:
        out = rng.sample(ns, min(n, rng.choice([2, 3, 4])))
    if head is not None and head not in out:
        out = out + [head]
    return out


def wl_history(rng, mon, i):
    sents = gen.gen_doc(rng, nsent=rng.choice([1, 2, 3]), p_empty=0.5, max_n=12, json_comments=0, many_empty=0.2)
    header = rng.choice(['eid-etype-head-other', None])
    loaded = rng.random() < 0.3
    doc = Document()
    if loaded:
        m = cg.gen_model(rng, sents=sents, header='eid-etype-head-other')
        cg.annotate(rng, m, True)
    text = gen.to_text(sents)
    mon.note(text=text)
    doc.from_conllu_string(text)
    ents = list(doc.coref_entities)
    recs = []
    for e in ents:
        for x in e.mentions:
            r = Rec(x, e, x.words, x.head)
            r.bridging = [(l.target, l.relation) for l in x.bridging]
            recs.append(r)
    log = []
    fresh = 0
    splits = {id(e): list(e.split_ante) for e in ents}
    for _ in range(rng.randint(4, 18)):
        rows = doc_nodes(doc)
        ns = rng.choice([x for x in rows if x])
        op = rng.choice(['new entity', 'new mention', 'new mention', 'node entity', 'words', 'words', 'span', 'head', 'entity', 'remove', 'bridging',
                         'bridging', 'split', 'refused', 'refused', 'insert word', 'rename'])
        if op in ('words', 'span', 'head', 'entity', 'remove', 'bridging') and not recs:
            op = 'node entity'
        if op in ('new mention', 'rename') and not ents:
            op = 'new entity'
        mon.event('op.' + op)
        if op == 'new entity':
            if rng.random() < 0.5:
                before = {e.eid for e in ents}
                e = doc.create_coref_entity(etype=rng.choice([None, 'person']))
                mon.ok(e.eid not in before, 'entity IDs', 'default ID is taken')
            else:
                fresh += 1
                e = doc.create_coref_entity(eid=f'x{fresh}', etype='place')
                mon.ok(e.eid == f'x{fresh}' and e.etype == 'place', 'effect')
            mon.ok(e.mentions == [], 'effect')
            ents.append(e)
            log.append(f'entity {e.eid}')
        elif op == 'new mention':
            e = rng.choice(ents)
            ws = some_words(rng, ns)
            how = rng.choice(['words', 'head', 'head words', 'span'])
            if how == 'words':
                arg = list(ws)
                x = e.create_mention(words=arg)
                h = ws[0]
            elif how == 'head':
                h = ws[0]
                ws = [h]
                x = e.create_mention(head=h)
            elif how == 'head words':
                h = rng.choice(ws)
                x = e.create_mention(head=h, words=list(ws))
            else:
                h = rng.choice(ws)
                srt = [w for w in ns if w in ws]
                x = e.create_mention(head=h, span=expected_span(srt, {srt[0]: ns}))
            recs.append(Rec(x, e, ws, h))
            log.append(f'mention {e.eid} {how} {[str(w.ord) for w in ws]}')
        elif op == 'node entity':
            fresh += 1
            h = rng.choice(ns)
            kw = {}
            ws = [h]
            if rng.random() < 0.6:
                ws = some_words(rng, ns, head=h)
                kw['words'] = list(ws)
            e = h.create_coref_entity(eid=rng.choice([None, f'x{fresh}']), **kw)
            mon.ok(len(e.mentions) == 1, 'effect')
            ents.append(e)
            recs.append(Rec(e.mentions[0], e, ws, h))
            log.append(f'node entity {e.eid} {[str(w.ord) for w in ws]}')
        elif op in ('words', 'span'):
            r = rng.choice(recs)
            ns = next(x for x in rows if r.head in x)
            ws = some_words(rng, ns, head=r.head)
            rng.shuffle(ws)
            if op == 'words':
                arg = ws + ([rng.choice(ws)] if rng.random() < 0.2 else [])
                r.obj.words = arg
            else:
                srt = [w for w in ns if w in ws]
                parts = expected_span(srt, {srt[0]: ns}).split(',')
                if rng.random() < 0.4:
                    rng.shuffle(parts)
                r.obj.span = ','.join(parts)
            r.words = set(ws)
            log.append(f'{op} {r.ent.eid} {[str(w.ord) for w in ws]}')
            mon.state('op', (op, len(ws), len(r.obj.span.split(',')), '.' in r.obj.span))
        elif op == 'head':
            r = rng.choice(recs)
            r.head = rng.choice(sorted(r.words, key=lambda w: str(w.ord)))
            r.obj.head = r.head
            log.append(f'head {r.ent.eid}')
        elif op == 'entity':
            r = rng.choice(recs)
            e = rng.choice(ents)
            if any(t is e for t, _ in r.bridging):
                continue
            r.obj.entity = e
            r.ent = e
            log.append(f'entity -> {e.eid}')
        elif op == 'remove':
            r = rng.choice(recs)
            r.obj.remove()
            recs.remove(r)
            for w in r.words:
                mon.ok(all(x is not r.obj for x in w.coref_mentions), 'both directions', 'removed mention is still visible')
            log.append(f'remove {r.ent.eid}')
        elif op == 'bridging':
            r = rng.choice(recs)
            others = [e for e in ents if e is not r.ent]
            if not others:
                continue
            t, rel = rng.choice(others), rng.choice(cg.RELS)
            kind = rng.choice(['append', 'insert', 'set', 'del', 'new', 'query'])
            if kind == 'append':
                r.obj.bridging.append((t, rel))
                r.bridging.append((t, rel))
            elif kind == 'insert':
                k = rng.randint(0, len(r.bridging))
                r.obj.bridging.insert(k, (t, rel))
                r.bridging.insert(k, (t, rel))
            elif kind == 'set' and r.bridging:
                k = rng.randrange(len(r.bridging))
                r.obj.bridging[k] = (t, rel)
                r.bridging[k] = (t, rel)
            elif kind == 'del' and r.bridging:
                k = rng.randrange(len(r.bridging))
                del r.obj.bridging[k]
                del r.bridging[k]
            elif kind == 'new':
                BridgingLinks(r.obj, [(t, rel)])
                r.bridging = [(t, rel)]
            elif kind == 'query':
                got = r.obj.bridging('part|subset')
                mon.ok([id(x) for x in got.targets] == [id(t) for t, x in r.bridging if x.startswith(('part', 'subset'))], 'effect bridging')
                mon.ok([id(x) for x in r.obj.bridging.targets] == [id(t) for t, x in r.bridging], 'effect bridging')
            log.append(f'bridging {kind} {r.ent.eid} {t.eid} {rel}')
            for e in ents:
                mon.eq(sorted((id(l.target), l.relation) for l in e.all_bridging()),
                       sorted((id(t), x) for q in recs if q.ent is e for t, x in q.bridging), 'effect bridging', 'all_bridging')
        elif op == 'split':
            if len(ents) < 3:
                continue
            e = rng.choice(ents)
            splits[id(e)] = rng.sample([x for x in ents if x is not e], rng.choice([2, 2, 3]) if len(ents) > 3 else 2)
            e.split_ante = list(splits[id(e)])
            log.append(f'split {e.eid}')
        elif op == 'rename':
            continue
        elif op == 'insert word':
            w = rng.choice(ns)
            if w.is_empty():
                continue
            k = w.create_child(form='new')
            rng.choice([k.shift_after_node, k.shift_before_node])(w)
            log.append(f'insert at {w.ord}')
        else:
            refused(rng, mon, doc, ents, recs, rows, log)
        mon.note(history='\n'.join(log))
        mon.state('op', (op, len(recs), len(ents)))
        consistent(mon, doc, log[-1] if log else op)
        matches(mon, doc, ents, recs, log[-1] if log else op, splits)
    stored(mon, doc, ents, recs, log)


def refused(rng, mon, doc, ents, recs, rows, log):
    kind = rng.choice(['head', 'words', 'span', 'duplicate', 'forbidden', 'both', 'notmember', 'nothing', 'selfbridge', 'rename'])
    log.append('refused ' + kind)
    ns = rng.choice([x for x in rows if x])
    if kind in ('head', 'words', 'span', 'selfbridge') and not recs or kind in ('both', 'notmember', 'nothing', 'duplicate', 'rename') and not ents:
        return
    if kind == 'head':
        r = rng.choice(recs)
        cand = [w for row in rows for w in row if w not in r.words]
        if cand:
            w = rng.choice(cand)
            mon.raises(lambda: setattr(r.obj, 'head', w), 'refused', ValueError)
    elif kind in ('words', 'span'):
        r = rng.choice(recs)
        row = next(x for x in rows if r.head in x)
        cand = [w for w in row if w is not r.head]
        if cand:
            ws = rng.sample(cand, rng.randint(1, min(3, len(cand))))
            if kind == 'words':
                mon.raises(lambda: setattr(r.obj, 'words', ws), 'refused', ValueError)
            else:
                srt = [w for w in row if w in ws]
                span = expected_span(srt, {srt[0]: row})
                mon.raises(lambda: setattr(r.obj, 'span', span), 'refused', ValueError)
    elif kind == 'duplicate':
        e = rng.choice(ents)
        mon.raises(lambda: doc.create_coref_entity(eid=e.eid), 'refused', ValueError)
        mon.raises(lambda: ns[0].create_coref_entity(eid=e.eid), 'refused', ValueError)
    elif kind == 'forbidden':
        bad = 'x' + rng.choice('-=| \t()') + 'y'
        mon.raises(lambda: doc.create_coref_entity(eid=bad), 'refused', ValueError)
    elif kind == 'rename':
        e = rng.choice(ents)
        bad = 'x' + rng.choice('-=| \t()') + 'y'
        mon.raises(lambda: setattr(e, 'eid', bad), 'refused', ValueError)
    elif kind == 'both':
        e = rng.choice(ents)
        mon.raises(lambda: e.create_mention(head=ns[0], words=[ns[0]], span='1'), 'refused', ValueError)
    elif kind == 'notmember':
        e = rng.choice(ents)
        if len(ns) > 1:
            a, b = rng.sample(ns, 2)
            mon.raises(lambda: e.create_mention(head=a, words=[b]), 'refused', ValueError)
            mon.raises(lambda: e.create_mention(head=a, span=str(b.ord)), 'refused', ValueError)
    elif kind == 'nothing':
        mon.raises(lambda: rng.choice(ents).create_mention(), 'refused', ValueError)
    else:
        r = rng.choice(recs)
        mon.raises(lambda: r.obj.bridging.append((r.ent, 'part')), 'refused', ValueError)
        mon.raises(lambda: r.obj.bridging.insert(0, (r.ent, 'part')), 'refused', ValueError)
        links = [(e, 'part') for e in ents if e is not r.ent][:rng.choice([0, 1])] + [(r.ent, 'part')]
        mon.raises(lambda: BridgingLinks(r.obj, links), 'refused', ValueError)
        if r.bridging:
            mon.raises(lambda: r.obj.bridging.__setitem__(0, (r.ent, 'part')), 'refused', ValueError)


def expressible(recs, pos):
    """Can the format describe these mentions (see C13)?"""
    by_ent = {}
    for r in recs:
        by_ent.setdefault(id(r.ent), []).append(r)
    for rs in by_ent.values():
        ms = []
        for r in rs:
            p = sorted(pos[w] for w in r.words)
            ms.append((cg.M(None, p[0][0], [x[1] for x in p], 1), r))
        for k, (a, ra) in enumerate(ms):
            for b, rb in ms[:k]:
                if not cg.compatible(a, b):
                    return False
                if (a.sent, a.pos[0]) == (b.sent, b.pos[0]) and (ra.bridging or rb.bridging):
                    return False
    return True


def facts(doc):
    """What the document's coreference says, with words as (sentence, position)."""
    pos, _ = positions(doc)
    out = []
    for m in doc.coref_mentions:
        out.append((m.entity.eid, m.entity.etype or None, tuple(pos[w] for w in m.words), pos[m.head],
                    tuple(sorted((l.target.eid, l.relation) for l in m.bridging if l.target.mentions)),
                    tuple(sorted(m.other.items(), key=repr))))
    split = {}
    for e in doc.coref_entities:
        s = [x.eid for x in e.split_ante if x.mentions]
        if e.mentions and len(s) > 1:
            split[e.eid] = s
    return sorted(out, key=repr), split


def stored(mon, doc, ents, recs, log):
    pos, _ = positions(doc)
    if not recs or not expressible(recs, pos):
        return
    want = facts(doc)
    out = doc.to_conllu_string()
    mon.note(stored=out, history='\n'.join(log))
    consistent(mon, doc, 'store')
    again = Document()
    again.from_conllu_string(out)
    for e in again.coref_entities:
        mon.ok(len(e.split_ante) != 1, 'stored after edits', lambda: f'a single split antecedent of {e.eid}')
    got = facts(again)
    mon.eq(got[0], want[0], 'stored after edits')
    mon.eq(got[1], want[1], 'stored after edits', 'split antecedents')
    consistent(mon, again, 'reload')


def wl_blocks(rng, mon, i):
    which = rng.choice(['FixInterleaved', 'FixInterleaved', 'MergeSameSpan', 'MergeSameSpan', 'MoveHead', 'IndexClusters', 'GuessSpan', 'Delete',
                        'RemoveNoCorefEntities', 'FixEntityAcrossNewdoc', 'FixParentheses'])
    header = 'eid-etype-head-other'
    sents = gen.gen_doc(rng, nsent=rng.choice([1, 2, 3]), p_empty=0.4, max_n=9, json_comments=0, many_empty=0.0,
                        p_newdoc=0.5 if which == 'FixEntityAcrossNewdoc' else 0.1)
    m = cg.gen_model(rng, sents=sents, header=header, n_ents=rng.choice([2, 4, 6]))
    if which == 'RemoveNoCorefEntities':
        for e in m.ents:
            if rng.random() < 0.4:
                e.eid = 'NOCOREF' + e.eid
    if which == 'FixParentheses':
        for s in sents:
            for w in s.words:
                if rng.random() < 0.4:
                    w['lemma'] = rng.choice('()[]{}')
    if which == 'FixEntityAcrossNewdoc':      # links across documents have no document-wide form
        docs = {id(e): {m.docno[x.sent] for x in e.mentions} for e in m.ents}
        for e in m.ents:
            for x in e.mentions:
                x.bridging = [(t, r) for t, r in x.bridging if m.docno[x.sent] in docs[id(t)]]
            home = m.docno[min(e.mentions, key=cg.M.key).sent]
            e.split = [t for t in e.split if home in docs[id(t)]]
            if len(e.split) < 2:
                e.split = []
    cg.annotate(rng, m, True)
    text = gen.to_text(sents)
    mon.note(text=text, block=which)
    mon.event('block.' + which)
    mon.state('block', (which, text))
    doc = Document()
    doc.from_conllu_string(text)
    if which != 'Delete' or rng.random() < 0.5:
        doc.coref_entities
    if which in ('FixInterleaved', 'MergeSameSpan'):
        # the format cannot express same-entity crossing or same-span mentions, the API can create them
        for _ in range(rng.randint(0, 4)):
            if doc.coref_entities:
                ns = rng.choice([x for x in doc_nodes(doc) if x])
                old = [x for n in ns for x in n.coref_mentions]
                ws = list(rng.choice(old).words) if old and rng.random() < 0.6 else some_words(rng, ns)
                rng.choice(doc.coref_entities).create_mention(words=ws)
    pos, _ = positions(doc)
    before_rows = bare(text)
    spans = [(x.entity.eid, tuple(pos[w] for w in x.words), pos[x.head]) for x in doc.coref_mentions] if which != 'Delete' else []
    if which == 'FixInterleaved':
        p = {k: rng.random() < 0.5 for k in ('same_entity_only', 'both_discontinuous', 'crossing_only', 'nested_same_subspan') if rng.random() < 0.3}
        mon.note(params=repr(p))
        ents = [(x.entity.eid, tuple(pos[w] for w in x.words), x.span.split(',')) for x in doc.coref_mentions]
        run(FixInterleaved(**p), doc)
        consistent(mon, doc, which)
        mon.ok({e for e, _, _ in spans} >= {x.entity.eid for x in doc.coref_mentions}, 'block')
        judge_interleaved(mon, doc, ents, p, pos)
    elif which == 'MergeSameSpan':
        same = rng.random() < 0.5
        run(MergeSameSpan(same_entity_only=same), doc)
        consistent(mon, doc, which)
        left = [(x.entity.eid if same else None, tuple(pos[w] for w in x.words)) for x in doc.coref_mentions]
        mon.eq(len(left), len(set(left)), 'block', 'two mentions with the same span left')
        mon.eq(set(left), {(e if same else None, w) for e, w, _ in spans}, 'block', 'spans after merging')
        if not same:   # the entity whose ID comes first keeps its mention
            first = {}
            for e, w, _ in spans:
                first[w] = min(e, first.get(w, e))
            mon.eq({tuple(pos[w] for w in x.words): x.entity.eid for x in doc.coref_mentions}, first, 'block', 'entity which keeps the span')
    elif which == 'MoveHead':
        keep = rng.random() < 0.7
        want = [(x, expected_head(mon, x, keep)) for x in doc.coref_mentions]
        run(MoveHead(bugs=rng.choice(['warn', 'mark', 'ignore']), keep_head_if_possible=keep), doc)
        consistent(mon, doc, which)
        for x, h in want:
            mon.ok(x.head is h, 'block', lambda x=x, h=h: f'head of {x.span} is {x.head.ord}, expected {h.ord}')
        mon.eq(sorted((x.entity.eid, tuple(pos[w] for w in x.words)) for x in doc.coref_mentions), sorted((e, w) for e, w, _ in spans), 'block')
        for x in doc.coref_mentions:
            tops = [w for w in x.words if w.parent is None or w.parent not in x.words]
            if len(tops) == 1:
                mon.ok(x.head is tops[0], 'block', lambda: f'head of {x.span} is {x.head.ord}, the only top is {tops[0].ord}')
    elif which == 'IndexClusters':
        start = rng.choice([1, 5])
        order = [e.eid for e in doc.coref_entities]
        links = {(x.entity.eid, l.target.eid, l.relation) for x in doc.coref_mentions for l in x.bridging}
        b = IndexClusters(start=start, prefix='k')
        run(b, doc)
        consistent(mon, doc, which)
        new = dict(zip(order, [e.eid for e in doc.coref_entities]))
        mon.eq(list(new.values()), [f'k{n}' for n in range(start, start + len(order))], 'block')
        mon.eq(sorted((x.entity.eid, tuple(pos[w] for w in x.words), pos[x.head]) for x in doc.coref_mentions),
               sorted((new[e], w, h) for e, w, h in spans), 'block')
        mon.eq({(x.entity.eid, l.target.eid, l.relation) for x in doc.coref_mentions for l in x.bridging}, {(new[a], new[b], r) for a, b, r in links}, 'block')
        f = facts(doc)
        out = doc.to_conllu_string()
        d2 = Document()
        d2.from_conllu_string(out)
        mon.eq(facts(d2), f, 'stored after edits', which)
        b.process_document(d2)
        mon.eq([e.eid for e in d2.coref_entities], [f'k{n}' for n in range(start + len(order), start + 2 * len(order))], 'block', 'IDs over several documents')
    elif which == 'GuessSpan':
        run(GuessSpan(), doc)
        consistent(mon, doc, which)
        mon.eq(sorted((x.entity.eid, pos[x.head]) for x in doc.coref_mentions), sorted((e, h) for e, _, h in spans), 'block')
        for x in doc.coref_mentions:
            if not x.head.is_empty():
                sub = set(x.head.descendants(add_self=True))
                mon.ok(sub <= set(x.words) and all(w.is_empty() for w in set(x.words) - sub), 'block', lambda: f'{x.span} of head {x.head.ord}')
    elif which == 'Delete':
        run(Delete(), doc)
        mon.eq(list(doc.coref_entities), [], 'block')
        consistent(mon, doc, which)
        out = doc.to_conllu_string()
        mon.eq(bare(out), before_rows, 'block', 'rest unchanged')
        mon.ok('Entity=' not in out and 'Bridge=' not in out and 'SplitAnte=' not in out, 'block', lambda: out)
    elif which == 'RemoveNoCorefEntities':
        run(RemoveNoCorefEntities(), doc)
        consistent(mon, doc, which)
        mon.eq(sorted((x.entity.eid, tuple(pos[w] for w in x.words), pos[x.head]) for x in doc.coref_mentions),
               sorted(s for s in spans if not s[0].startswith('NOCOREF')), 'block')
        mon.eq([e.eid for e in doc.coref_entities if e.eid.startswith('NOCOREF')], [], 'block')
        f = facts(doc)
        out = doc.to_conllu_string()
        mon.ok('NOCOREF' not in out, 'block', lambda: f'removed entity in {out}')
        mon.eq(bare(out), before_rows, 'block', 'rest unchanged')
        d2 = Document()
        d2.from_conllu_string(out)
        mon.eq(facts(d2), f, 'stored after edits', which)
    elif which == 'FixEntityAcrossNewdoc':
        if not m.ents:
            return
        run(FixEntityAcrossNewdoc(), doc)
        consistent(mon, doc, which)
        docno = m.docno
        mon.eq(sorted((STRIP.sub('', x.entity.eid), tuple(pos[w] for w in x.words), pos[x.head]) for x in doc.coref_mentions), sorted(spans), 'block')
        seen = {}
        for x in doc.coref_mentions:
            seen.setdefault(x.entity.eid, set()).add(docno[pos[x.head][0]])
        mon.ok(all(len(v) == 1 for v in seen.values()), 'block', lambda: f'entity across newdoc {seen}')
        f = facts(doc)
        out = doc.to_conllu_string()
        d2 = Document()
        d2.from_conllu_string(out)
        mon.eq(facts(d2), f, 'stored after edits', which)
    else:
        mark = rng.random() < 0.5
        want = [(x.entity.eid, h, repaired(mon, x, pos)) for x, (_, _, h) in zip(doc.coref_mentions, spans)]
        marked = {pos[n] for row in doc_nodes(doc) for n in row if n.misc['Mark']}
        old = {(h, e): set(w) for e, w, h in spans}
        run(FixParentheses(mark=mark), doc)
        consistent(mon, doc, which)
        got = sorted((x.entity.eid, pos[x.head], tuple(pos[w] for w in x.words)) for x in doc.coref_mentions)
        mon.eq(got, sorted(want), 'block', 'repaired spans')
        now = {pos[n] for row in doc_nodes(doc) for n in row if n.misc['Mark']}
        if not mark:
            mon.eq(now, marked, 'block', 'mark=0')
        elif len(old) == len(spans):
            mon.eq(now - marked, {q for e, h, w in want for q in set(w) - old[h, e]} - marked, 'block', 'marked words')


def repaired(mon, x, pos):
    """Positions of the mention with the missing parentheses next to it."""
    words = list(x.words)
    row = x.head.root.descendants
    lemmas = {w.lemma for w in words}
    for a, b in ('()', '[]', '{}'):
        last, first = words[-1], words[0]
        if a in lemmas:
            if b not in lemmas and not last.is_empty() and last.ord < len(row) and row[last.ord].lemma == b:
                words.append(row[last.ord])
                mon.event('parenthesis added')
        elif b in lemmas and not first.is_empty() and first.ord > 1 and row[first.ord - 2].lemma == a:
            words.insert(0, row[first.ord - 2])
            mon.event('parenthesis added')
    return tuple(pos[w] for w in words)


def expected_head(mon, x, keep):
    """The head by the definition in the comments of corefud.MoveHead."""
    words = list(x.words)
    if len(words) < 2:
        return x.head

    def eparents(n):
        if n.raw_deps != '_':
            return [d['parent'] for d in n.deps]
        return [] if n.parent is None else [n.parent]
    cand = [w for w in words if w.parent is None or w.parent not in words]
    if len(cand) > 1:
        free = [w for w in cand if not any(p in words for p in eparents(w))]
        if not free:
            free = [w for w in cand if not all(p in words for p in eparents(w))]
            mon.event('head.cycle')
        if not free:
            return x.head
        cand = free
    if len(cand) == 1:
        return cand[0]
    anchors = [w for w in cand if not w.is_empty()]
    for w in cand:
        if w.is_empty():
            anchors += [p for p in eparents(w) if not p.is_empty()][:1]
    if anchors:
        def chain(n):
            return [n] + (chain(n.parent) if n.parent is not None else [])
        common = [n for n in chain(anchors[0]) if all(n in chain(a) for a in anchors)]
        if common[0] in cand:
            mon.event('head.gappy')
            return common[0]
    if keep and x.head in cand:
        mon.event('head.kept')
        return x.head
    mon.event('head.first')
    return cand[0]


def judge_interleaved(mon, doc, ents, p, pos):
    """Only the requested pairs are merged; what is left are unions of merged mentions."""
    by_sent = {}
    for e, w, s in ents:
        by_sent.setdefault(w[0][0], []).append((e, w, set(s)))
    left = {}
    for x in doc.coref_mentions:
        w = tuple(pos[n] for n in x.words)
        left.setdefault(w[0][0], []).append((x.entity.eid, w))

    def matches(a, b):
        if p.get('same_entity_only', True) and a[0] != b[0]:
            return False
        wa, wb = set(a[1]), set(b[1])
        if wa <= wb or wb <= wa:
            if not p.get('nested_same_subspan', True) or not a[2] & b[2]:
                return False
        elif p.get('crossing_only', False):
            if not wa & wb:
                return False
        elif a[1][-1] < b[1][0] or b[1][-1] < a[1][0]:
            return False
        return not p.get('both_discontinuous', False) or (len(a[2]) > 1 and len(b[2]) > 1)
    for si, ms in by_sent.items():
        now = sorted(left.get(si, []))
        pairs = [(a, b) for k, a in enumerate(ms) for b in ms[k + 1:] if matches(a, b)]
        if not pairs:
            mon.eq(now, sorted(m[:2] for m in ms), 'block', 'nothing is to be merged')
        elif len(pairs) == 1:
            a, b = pairs[0]
            rest = list(ms)
            rest.remove(a)
            rest.remove(b)
            union = tuple(sorted(set(a[1]) | set(b[1])))
            mon.event('one merger')
            if any(m[1] == union for m in rest):
                mon.eq(now, sorted(m[:2] for m in rest), 'block', 'the union is there already')
            else:
                mon.ok(now in [sorted([m[:2] for m in rest] + [(e, union)]) for e in (a[0], b[0])], 'block', lambda: f'merging {a} and {b}: got {now}')
        else:
            mon.event('several mergers')
            for e, w in now:
                parts = [set(m[1]) for m in ms if set(m[1]) <= set(w)]
                mon.ok(set(w) == set().union(*parts), 'block', lambda: f'{w} is no union of original mentions')
                if p.get('same_entity_only', True):
                    parts = [set(m[1]) for m in ms if m[0] == e and set(m[1]) <= set(w)]
                    mon.ok(set(w) == set().union(*parts), 'block', lambda: f'{w} is no union of original mentions of {e}')


def run(block, doc):
    with captured():
        block.process_start()
        block.apply_on_document(doc)
        block.process_end()


def wl_links(rng, mon, i):
    """Link-based annotation becomes one entity per connected component."""
    sents = gen.gen_doc(rng, nsent=rng.choice([1, 2, 3]), p_empty=0.3, max_n=8, json_comments=0, many_empty=0)
    cells = [w for s in sents for w in s.words] + [e for s in sents for _, _, e in s.empties]
    k = min(len(cells), rng.randint(1, 10))
    chosen = rng.sample(cells, k)
    up = list(range(k))
    br = {}
    forward = []
    for a in range(k):
        items = [x for x in chosen[a]['misc'].split('|') if x != '_'] + [f'nid=n{a}']
        if a and rng.random() < 0.6:
            b = rng.randrange(a)          # antecedents form a forest, in any word order; sometimes with a cycle
            up[a] = b
            items.append(f'ante=n{b}')
        elif a < k - 1 and rng.random() < 0.1:
            down = rng.randrange(a + 1, k)      # the antecedent of the topmost node is one of the others: this may close a cycle
            forward.append((a, down))
            items.append(f'ante=n{down}')
        elif rng.random() < 0.1:
            items.append('ante=missing' if rng.random() < 0.5 else f'ante=n{a}')
        if rng.random() < 0.2 and k > 1:
            t = rng.choice([x for x in range(k) if x != a])
            items.append(f'br=n{t}')
            items.append('brel=part')
            br[a] = t
        if rng.random() < 0.2:
            items.append('information-status=new')
        chosen[a]['misc'] = '|'.join(sorted(items, key=lambda x: x.split('=')[0].lower()))

    def top(a):
        while up[a] != a:
            a = up[a]
        return a

    for a, b in forward:
        if top(b) == a:
            mon.event('link cycle')
        else:
            up[a] = top(b)
    br = {a: t for a, t in br.items() if top(a) != top(t)}
    for a in range(k):
        if a not in br:
            chosen[a]['misc'] = '|'.join(x for x in chosen[a]['misc'].split('|') if not x.startswith(('br=', 'brel='))) or '_'
    text = gen.to_text(sents)
    mon.note(text=text)
    mon.event('block.Link2Cluster')
    doc = Document()
    doc.from_conllu_string(text)
    ids = {n: n.misc['nid'] for row in doc_nodes(doc) for n in row if n.misc['nid']}
    infstat = {n.misc['nid'] for n in ids if n.misc['information-status']}
    first = rng.choice([0, 1, 7])
    delete = rng.random() < 0.8
    run(Link2Cluster(id_attr='nid', ante_attr='ante', bridge_attr='br', bridge_relation_attr='brel', eid_counter=first,
                     delete_orig_attrs=delete), doc)
    consistent(mon, doc, 'Link2Cluster')
    groups = {}
    for a in range(k):
        groups.setdefault(top(a), set()).add(f'n{a}')
    linked = {f'n{a}' for a in br} | {f'n{t}' for t in br.values()}
    want = sorted(sorted(g) for g in groups.values() if len(g) > 1 or g & linked)
    got = sorted(sorted(ids[x.head] for x in e.mentions) for e in doc.coref_entities if e.mentions)
    mon.eq(got, want, 'links')
    for x in doc.coref_mentions:
        mon.ok(len(x.words) == 1 and x.words[0] is x.head, 'links')
        mon.eq(x.other['infstat'], 'new' if ids[x.head] in infstat else '', 'links', 'information status')
    mon.eq(sorted((ids[x.head], sorted(ids[y.head] for y in l.target.mentions)) for x in doc.coref_mentions for l in x.bridging),
           sorted((f'n{a}', sorted(next(g for g in groups.values() if f'n{t}' in g))) for a, t in br.items()), 'links', 'bridging')
    for e in doc.coref_entities:
        mon.ok(re.fullmatch('e[0-9]+', e.eid) and int(e.eid[1:]) >= first, 'links', e.eid)
    for row in doc_nodes(doc):
        for n in row:
            if delete:
                mon.ok(not any(n.misc[x] for x in ('nid', 'ante', 'br', 'brel')), 'links', 'original attributes stay')
            else:
                mon.eq(n.misc['nid'], ids.get(n, ''), 'links', 'original attributes are kept')
    if not delete:
        mon.eq(sum(1 for n in ids if n.misc['information-status']), len(infstat), 'links', 'original attributes are kept')


def wl_reorder(rng, mon, i):
    """Words of mentions change their position: mentions keep their words, sorted, in memory and in the file."""
    sents = gen.gen_doc(rng, nsent=rng.choice([1, 2]), p_empty=0.3, max_n=9, json_comments=0, many_empty=0.0)
    m = cg.gen_model(rng, sents=sents, header='eid-etype-head-other')
    cg.annotate(rng, m, True)
    text = gen.to_text(sents)
    mon.note(text=text)
    doc = Document()
    doc.from_conllu_string(text)
    taken = {e.eid for e in m.ents}
    if rng.random() < 0.5:      # the first access to coreference in the document
        new = doc.create_coref_entity() if rng.random() < 0.5 else doc.nodes_and_empty and next(iter(doc.nodes)).create_coref_entity()
        mon.ok(new.eid not in taken, 'entity IDs', lambda: f'{new.eid} clashes with an entity of the file')
        if not new.mentions:
            next(iter(doc.nodes)).root.descendants[0].coref_mentions
    words = {}
    for x in doc.coref_mentions:
        words[id(x)] = (x, set(x.words), x.head)
    log = []
    for _ in range(rng.randint(1, 5)):
        tree = rng.choice([t for t in doc.trees if t.descendants])
        d = tree.descendants
        n, k = rng.choice(d), rng.choice(d)
        if n is k or k.is_descendant_of(n):
            continue
        how = rng.choice(['shift_after_node', 'shift_before_node', 'shift_after_subtree', 'shift_before_subtree'])
        without = rng.random() < 0.5
        getattr(n, how)(k, without_children=without)
        log.append(f'{how} {n.form}->{n.ord} {k.ord} {without}')
        mon.event('op.reorder')
        mon.note(history=log)
        pos, row = positions(doc)
        for x, ws, h in words.values():
            got = list(x.words)
            mon.ok(set(got) == ws and x.head is h, 'words', lambda: f'{x.entity.eid}: other words after {log[-1]}')
            p = [pos[w] for w in got]
            mon.ok(p == sorted(p), 'words', lambda: f'{x.entity.eid}: words are not sorted after {log[-1]}')
            mon.eq(x.span, expected_span(got, row), 'span', lambda: log[-1])
        cm = doc.coref_mentions
        ks = [(pos[x.words[0]], -len(x.words), pos[x.words[-1]]) for x in cm]
        mon.ok(ks == sorted(ks), 'order', lambda: f'document: {[(x.entity.eid, x.span) for x in cm]} after {log[-1]}')
    recs = [Rec(x, x.entity, ws, h) for x, ws, h in words.values()]
    for r in recs:
        r.bridging = [(l.target, l.relation) for l in r.obj.bridging]
    pos, _ = positions(doc)
    if not recs or not expressible(recs, pos):
        return
    want = facts(doc)
    out = doc.to_conllu_string()
    mon.note(stored=out)
    again = Document()
    again.from_conllu_string(out)
    mon.eq(facts(again), want, 'stored after edits', 'reordered words')
    consistent(mon, again, 'reload')


OKEYS = ['appos', 'Gstype', 'infstat', 'a', 'B', 'minspan2', 'z_1', 'wiki']
OVALS = ['1', 'x', 'generic', 'a:b', 'new', True, 'p,q', '', 'Zs.9', '0']


def wl_other(rng, mon, i):
    """The extra fields of mentions: a mapping and a string of key:value pairs."""
    doc = Document()
    n = rng.choice([2, 3, 5])
    text = '# newdoc\n# global.Entity = eid-etype-head-other\n# sent_id = 1\n'
    start = {}
    for k in range(n):
        pairs = {}
        for key in rng.sample(OKEYS, rng.choice([0, 0, 1, 2, 3])):
            pairs[key] = rng.choice([v for v in OVALS if v not in ('', 'p,q')] + ['p%2Cq'])
        start[k] = pairs
        order = list(pairs)
        rng.shuffle(order)
        s = ','.join(x if pairs[x] is True else f'{x}:{pairs[x]}' for x in order)
        text += f'{k + 1}\tw{k}\t_\t_\t_\t_\t{0 if k == 0 else 1}\tdep\t_\tEntity=(e{k % 2}-t-1' + (f'-{s}' if s else '') + ')\n'
    mon.note(text=text)
    doc.from_conllu_string(text + '\n')
    mentions = [next(m for m in x.coref_mentions) for x in doc[0].get_tree().descendants]
    ref = [dict(start[k]) for k in range(n)]
    log = []

    def text_of(d):
        return ','.join(k if v is True else f'{k}:{v}' for k, v in sorted(d.items(), key=lambda p: p[0].lower()))

    def judge(k, keys=()):
        o, d = mentions[k].other, ref[k]

        def string():
            mon.eq(sorted(x for x in str(o).split(',') if x), sorted(x for x in text_of(d).split(',') if x), 'extra fields', lambda: ('string', log))
            if d != start[k]:
                mon.eq(str(o), text_of(d), 'extra fields', lambda: ('sorted', log))

        def mapping():
            mon.eq((dict(o), len(o), sorted(o)), (d, len(d), sorted(d)), 'extra fields', lambda: ('mapping', log))
            for key in rng.sample(OKEYS, 3) + list(keys):
                mon.eq((o[key], key in o), (d.get(key, ''), key in d), 'extra fields', lambda: (key, log))
        for f in rng.sample([string, mapping], rng.choice([0, 1, 2, 2])):
            f()
    esc = lambda v: v.replace(',', '%2C') if isinstance(v, str) else v
    for _ in range(rng.randint(1, 14)):
        k = rng.randrange(n)
        o, d = mentions[k].other, ref[k]
        key, v = rng.choice(OKEYS), rng.choice(OVALS + [None])
        op = rng.choice(['set', 'set', 'set', 'del', 'string', 'mapping', 'other', 'self', 'clear', 'none', 'copy', 'update', 'pop'])
        log.append((op, k, key, v))
        if op == 'set':
            o[key] = v
            if v is None or v == '':
                d.pop(key, None)
            else:
                d[key] = esc(v)
        elif op == 'del':
            del o[key]
            d.pop(key, None)
        elif op == 'pop':
            mon.eq(o.pop(key), d.pop(key, ''), 'extra fields', 'pop')
        elif op == 'string':
            new = {x: rng.choice(['1', 'a:b', True, 'p%2Cq']) for x in rng.sample(OKEYS, rng.randint(0, 3))}
            mentions[k].other = text_of(new)
            ref[k] = new
        elif op == 'mapping':
            new = {x: rng.choice(['1', 'a:b', True]) for x in rng.sample(OKEYS, rng.randint(0, 3))}
            mentions[k].other = new
            ref[k] = dict(new)
            new['changed'] = 'later'
        elif op == 'other':
            j = rng.randrange(n)
            mentions[k].other = mentions[j].other
            ref[k] = dict(ref[j])
        elif op == 'self':
            mentions[k].other = o
        elif op == 'clear':
            o.clear()
            d.clear()
        elif op == 'none':
            mentions[k].other = None
            ref[k] = {}
        elif op == 'update':
            new = {x: rng.choice(['1', 'a:b', 'p']) for x in rng.sample(OKEYS, 2)}
            o.update(new)
            d.update(new)
        else:
            c = o.copy()
            c['changed'] = 'copy'
            mon.ok('changed' not in o and 'changed' not in str(o), 'extra fields', 'copies are independent')
        mon.event('other.' + op)
        mon.note(history=log)
        for j in range(n):
            judge(j, [key])
        mon.state('other', repr((op, v, sorted(ref[k].items(), key=repr))))
    out = doc.to_conllu_string()
    again = Document()
    again.from_conllu_string(out)
    got = [dict(x.coref_mentions[0].other) for x in again[0].get_tree().descendants]
    mon.eq(got, ref, 'extra fields', lambda: ('stored', log))
    for k in range(n):
        judge(k)


WORKLOADS = [Workload('other', wl_other, 2500, 15000), Workload('reorder', wl_reorder, 2500, 15000), Workload('history', wl_history, 4000, 24000), Workload('blocks', wl_blocks, 5550, 33300), Workload('links', wl_links, 1250, 7500)]
