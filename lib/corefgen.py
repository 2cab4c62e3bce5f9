"""Independent model of CorefUD annotation: generator, serializer and bracket parser (nothing here imports the code under test)."""
from lib import gen, refconllu as ref

ETYPES = ['person', 'place', 'event', 'abstract', 'org', '']
RELS = ['part', 'subset', 'subset:inv', 'funct', '', 'contrast', 'Škola']
HEADERS = ['eid-etype-head-other', 'eid-etype-head-other', 'eid-etype-head', 'eid', 'eid-etype', 'eid-head', 'eid-head-etype-other',
           'eid-etype-head-minspan-link-identity', 'eid-etype-head-minspan-infstat-identity-other', 'eid-other', 'etype-eid-infstat-head-other',
           'eid-etype-head-other-minspan', 'GRP-etype-head-other', 'etype-GRP-head', 'entity-GRP-infstat-minspan-link-identity',
           'GRP-etype-infstat-salience-head-other', 'GRP', 'eid-other-head-etype', 'etype-eid-other-head']
KINDS = ['single', 'single', 'span', 'span', 'span', 'disc', 'full']
BASIC = {'eid', 'GRP', 'etype', 'entity', 'head', 'other'}
VALUES = {'minspan': ['1', '2,3', '1,2,5', ''], 'link': ['coref', 'ana', 'sgl', ''], 'identity': ['Berlin', 'New_York', 'Ž', ''],
          'infstat': ['new', 'giv:act', 'acc:inf', ''], 'salience': ['n', 's1', '']}
OTHER = {'nptype': ['np', 'pron'], 'Anacata': ['anaphoric', 'x:y', 'žluť'], 'gstype': ['gen', 'spec'], 'B': ['1', 'a b'], 'flag': [True]}


class M:
    """A mention of the model: sentence index, sorted positions in that sentence's node list, head index (1-based), attributes."""

    def __init__(self, ent, sent, pos, head):
        self.ent, self.sent, self.pos, self.head = ent, sent, sorted(pos), head
        self.fields = {}      # named header fields -> value as in the file
        self.other = {}       # contents of the field `other`
        self.bridging = []    # (target Ent, relation)
        self.etype = None     # type written at this mention if it differs from that of the entity

    def subspans(self):
        out = []
        for p in self.pos:
            if out and out[-1][-1] == p - 1:
                out[-1].append(p)
            else:
                out.append([p])
        return out

    def key(self):
        return (self.sent, self.pos[0], -len(self.pos), self.pos[-1], self.ent.eid)

    def other_as_loaded(self):
        d = dict(self.other)
        for k, v in self.fields.items():
            if v:
                d[k] = v.replace(',', '%2C')
        return d


class Ent:
    def __init__(self, eid, etype):
        self.eid, self.etype, self.mentions, self.split = eid, etype, [], []


class Model:
    def __init__(self, sents, header):
        self.sents, self.header, self.ents = sents, header, []
        self.fields = header.split('-')
        self.nodes = [sorted([(i, 0) for i in range(1, len(s.words) + 1)] + [(a, b) for a, b, _ in s.empties]) for s in sents]
        self.docno = []
        n = 0
        for i, s in enumerate(sents):
            if i == 0 or s.newdoc:
                n += 1
            self.docno.append(n)

    def mentions(self):
        return sorted((m for e in self.ents for m in e.mentions), key=M.key)

    def word(self, sent, p):
        a, b = self.nodes[sent][p]
        s = self.sents[sent]
        if b == 0:
            return s.words[a - 1]
        return next(e for x, y, e in s.empties if (x, y) == (a, b))


def compatible(new, old):
    """May these two mentions of one entity live together in the format?"""
    if new.sent != old.sent:
        return True
    a, b = set(new.pos), set(old.pos)
    ha, hb = (new.pos[0], new.pos[-1]), (old.pos[0], old.pos[-1])
    if ha[1] < hb[0] or hb[1] < ha[0]:
        return True
    if len(new.subspans()) > 1 or len(old.subspans()) > 1:
        return False
    return (a < b or b < a)


def gen_model(rng, sents=None, header=None, allow_links=True, n_ents=None, kinds=KINDS):
    header = header or rng.choice(HEADERS)
    if sents is None:
        sents = gen.gen_doc(rng, nsent=rng.choice([1, 2, 3, 4]), p_empty=0.5, p_newdoc=0.4 if 'GRP' in header else 0.1, json_comments=0,
                            max_n=16, many_empty=0.1)
    m = Model(sents, header)
    names = rng.choice(['e{}', 'e{}', 'e{}', 'c{}', 'gum{}x', 'Žena{}', 'a.{}', '{}'])
    has_type = 'etype' in m.fields or 'entity' in m.fields
    for k in rng.sample(range(1, 15), n_ents if n_ents is not None else rng.choice([1, 2, 3, 4, 6, 8])):
        e = Ent(names.format(k), (rng.choice(ETYPES) if has_type else ''))
        home = rng.randint(1, m.docno[-1])     # with GRP, an entity belongs to one document
        for _ in range(rng.choice([1, 1, 2, 3, 5])):
            cand = [i for i in range(len(sents)) if m.nodes[i] and ('GRP' not in m.fields or m.docno[i] == home)]
            if not cand:
                continue
            si = rng.choice(cand)
            new = gen_mention(rng, m, e, si, kinds)
            if all(compatible(new, o) for o in e.mentions):
                e.mentions.append(new)
        if e.mentions:
            m.ents.append(e)
    if allow_links:
        gen_links(rng, m)
    return m


def gen_mention(rng, m, e, si, kinds=KINDS):
    n = len(m.nodes[si])
    kind = rng.choice(kinds)
    if kind == 'full':
        pos = list(range(n))
    elif kind == 'single':
        pos = [rng.randrange(n)]
    elif kind == 'span':
        a = rng.randrange(n)
        pos = list(range(a, min(n, a + rng.choice([1, 2, 2, 3, 4, 6]))))
    else:
        pos = sorted(rng.sample(range(n), min(n, rng.choice([2, 2, 3, 4, 5]))))
    new = M(e, si, pos, rng.randint(1, len(pos)) if 'head' in m.fields else 1)
    for f in m.fields:
        if f not in BASIC:
            new.fields[f] = rng.choice(VALUES[f])
    if 'other' in m.fields:
        for k in rng.sample(sorted(OTHER), rng.choice([0, 0, 1, 2])):
            new.other[k] = rng.choice(OTHER[k])
    return new


def gen_links(rng, m):
    if len(m.ents) < 2:
        return
    for e in m.ents:
        for mm in e.mentions:
            same_start = [x for x in e.mentions if (x.sent, x.pos[0]) == (mm.sent, mm.pos[0])]
            if len(same_start) == 1 and rng.random() < 0.25:
                cand = [x for x in m.ents if x is not e and ('GRP' not in m.fields or m.docno[x.mentions[0].sent] == m.docno[mm.sent])]
                for t in rng.sample(cand, min(len(cand), rng.choice([1, 1, 2, 3]))):
                    mm.bridging.append((t, rng.choice(RELS)))
    for e in m.ents:
        if rng.random() < 0.2:
            cand = [x for x in m.ents if x is not e and ('GRP' not in m.fields or
                                                        m.docno[x.mentions[0].sent] == m.docno[e.mentions[0].sent])]
            if len(cand) >= 2:
                e.split = rng.sample(cand, rng.choice([2, 2, min(3, len(cand))]))


def attr_values(m, mm, eid):
    """Values of the header fields of an opening chunk; `other` items in their sorted order."""
    vals = []
    for f in m.fields:
        if f in ('eid', 'GRP'):
            vals.append(eid)
        elif f in ('etype', 'entity'):
            vals.append(mm.ent.etype if mm.etype is None else mm.etype)
        elif f == 'head':
            vals.append(str(mm.head))
        elif f == 'other':
            vals.append(','.join(k if v is True else f'{k}:{v}' for k, v in sorted(mm.other.items(), key=lambda x: x[0].lower())))
        else:
            vals.append(mm.fields[f])
    while vals and vals[-1] == '':
        vals.pop()
    return vals


def annotate(rng, m, canonical=True):
    """Write the annotation into the MISC columns of m.sents and the header into the comments."""
    at = {}     # (sent, pos) -> {'open': [], 'close': [], 'single': []}
    for mm in m.mentions():
        subs = mm.subspans()
        for k, sub in enumerate(subs, 1):
            eid = mm.ent.eid + (f'[{k}/{len(subs)}]' if len(subs) > 1 else '')
            vals = attr_values(m, mm, eid)
            if not canonical and mm.head == 1 and 'head' in m.fields and rng.random() < 0.3 and not any(vals[m.fields.index('head') + 1:]):
                vals = vals[:m.fields.index('head')]     # an omitted head means the first word
            item = (-len(sub), mm.key(), eid, '(' + '-'.join(vals), mm)
            if len(sub) == 1:
                at.setdefault((mm.sent, sub[0]), {}).setdefault('single', []).append(item)
            else:
                at.setdefault((mm.sent, sub[0]), {}).setdefault('open', []).append(item)
                at.setdefault((mm.sent, sub[-1]), {}).setdefault('close', []).append(item)
    misc = {}
    for (si, p), d in at.items():
        opens = sorted(d.get('open', []), key=lambda x: x[:2])
        closes = sorted(d.get('close', []), key=lambda x: (x[0], x[1]), reverse=True)
        singles = d.get('single', [])
        if not canonical:
            # openers of one entity must keep their order (longer first); the others are free
            opens = reorder(rng, opens, lambda x: x[4].ent.eid)
            rng.shuffle(closes)
            rng.shuffle(singles)
        o = [x[3] for x in opens]
        c = [x[2] + ')' for x in closes]
        s = [x[3] + ')' for x in singles]
        if canonical:
            chunks = c + o + s if o else s + c
        else:
            chunks = c + o
            for x in s:
                chunks.insert(rng.randint(0, len(chunks)), x)
        misc.setdefault((si, p), []).append(('Entity', ''.join(chunks)))
    for mm in m.mentions():
        if mm.bridging:
            links = [f'{t.eid}<{mm.ent.eid}' + (':' + r if r else '') for t, r in mm.bridging]
            cell = misc.setdefault((mm.sent, mm.pos[0]), [])
            old = next((v for k, v in cell if k == 'Bridge'), None)
            if old is not None:
                cell.remove(('Bridge', old))
                links.insert(0, old)
            cell.append(('Bridge', ','.join(links)))
    for e in sorted(m.ents, key=lambda e: min(x.key() for x in e.mentions)):
        if e.split:
            first = min(e.mentions, key=M.key)
            cell = misc.setdefault((first.sent, first.pos[0]), [])
            links = [f'{t.eid}<{e.eid}' for t in e.split]
            old = next((v for k, v in cell if k == 'SplitAnte'), None)
            if old is not None:
                cell.remove(('SplitAnte', old))
                links.insert(0, old)
            cell.append(('SplitAnte', ','.join(links)))
    for (si, p), cell in misc.items():
        w = m.word(si, p)
        items = [x for x in w['misc'].split('|') if x != '_'] + [f'{k}={v}' for k, v in cell]
        items.sort(key=lambda x: x.split('=')[0].lower())
        w['misc'] = '|'.join(items) or '_'
    for i, s in enumerate(m.sents):
        if i == 0 and not s.newdoc:
            s.newdoc = True
            s.comments.insert(0, '# newdoc')
        if s.newdoc:
            k = next(k for k, c in enumerate(s.comments) if c.startswith('# newdoc') and not c.startswith('# newdocs'))
            s.comments.insert(k + 1, f'# global.Entity = {m.header}')


def reorder(rng, items, group):
    """Random order keeping the relative order within each group."""
    out = list(items)
    rng.shuffle(out)
    queues = {}
    for x in items:
        queues.setdefault(group(x), []).append(x)
    return [queues[group(x)].pop(0) for x in out]


def scan(entity):
    """Split an Entity value into (kind, content) chunks."""
    out = []
    i = 0
    while i < len(entity):
        if entity[i] == '(':
            j = i + 1
            while j < len(entity) and entity[j] not in '()':
                j += 1
            if j < len(entity) and entity[j] == ')':
                out.append(('single', entity[i + 1:j]))
                i = j + 1
            else:
                out.append(('open', entity[i + 1:j]))
                i = j
        else:
            j = entity.index(')', i)
            out.append(('close', entity[i:j]))
            i = j + 1
    return out


class Parsed:
    """What a stored file describes: mentions as (eid, sent, pos tuple, head, etype, fields, other), links as sets; `faults` lists broken rules."""

    def __init__(self, text, header):
        self.faults = []
        self.mentions = []
        self.bridges = []
        self.splits = []
        fields = header.split('-')
        eid_i = fields.index('eid') if 'eid' in fields else fields.index('GRP')
        docno = 0
        self.sents = ref.parse(text)
        subs = []
        for si, s in enumerate(self.sents):
            if si == 0 or s.newdoc:
                docno += 1
            rows = sorted([(int(w[0]), 0, w) for w in s.words] +
                          [tuple(map(int, w[0].split('.'))) + (w,) for w in s.empties], key=lambda r: r[:2])
            opened = {}
            local = []
            per_node = []
            for p, (_, _, w) in enumerate(rows):
                misc = ref.kv(w[9])
                chunks = scan(misc.get('Entity', ''))
                kinds = [k for k, _ in chunks]
                for kind, content in chunks:
                    if kind == 'close':
                        if not opened.get(content):
                            self.faults.append(f'{s.sent_id} {w[0]}: {content} closed but not opened')
                            continue
                        rec = opened[content].pop()
                        rec['end'] = p
                    else:
                        vals = content.split('-')
                        if len(vals) > len(fields):
                            self.faults.append(f'{s.sent_id} {w[0]}: too many fields in {content}')
                        if len(vals) > 1 and vals[-1] == '':
                            self.faults.append(f'{s.sent_id} {w[0]}: empty trailing field in {content}')
                        rec = dict(eid=vals[eid_i], vals=dict(zip(fields, vals)), start=p, end=p if kind == 'single' else None, sent=si, doc=docno)
                        local.append(rec)
                        if kind == 'open':
                            opened.setdefault(vals[eid_i], []).append(rec)
                per_node.append((w[0], p, chunks, kinds))
                for link in [x for x in misc.get('Bridge', '').split(',') if x]:
                    t, src = link.split('<')
                    src, _, rel = src.partition(':')
                    if src.split('[')[0] not in [c.split('-')[eid_i].split('[')[0] for k, c in chunks if k != 'close']:
                        self.faults.append(f'{s.sent_id} {w[0]}: Bridge of {src} where no such mention starts')
                    self.bridges.append((docno, t, src, rel, si, p))
                for link in [x for x in misc.get('SplitAnte', '').split(',') if x]:
                    t, src = link.split('<')
                    self.splits.append((docno, t, src, si, p))
            for eid, recs in opened.items():
                for r in recs:
                    self.faults.append(f'{s.sent_id}: {eid} opened at {r["start"]} but never closed')
                    r['end'] = r['start']
            self._order(s, per_node, local, eid_i)
            subs += local
        self._join(subs)

    def _order(self, s, per_node, local, eid_i):
        for wid, p, chunks, kinds in per_node:
            where = f'{s.sent_id} {wid} {chunks}'
            # Rule 1: closing brackets before opening ones
            if 'open' in kinds and 'close' in kinds and kinds.index('open') < max(i for i, k in enumerate(kinds) if k == 'close'):
                self.faults.append('Rule1 ' + where)
            # Rule 2: longer mentions are opened first; Rule 3: shorter ones are closed first
            op = [r for r in local if r['start'] == p and r['end'] != p]
            lens = [r['end'] - r['start'] for r in op]
            if lens != sorted(lens, reverse=True):
                self.faults.append('Rule2 ' + where)
            closing = [c for k, c in chunks if k == 'close']
            starts = []
            pool = [r for r in local if r['end'] == p and r['start'] != p]
            for c in closing:
                mine = [r for r in pool if r['eid'] == c]
                if mine:
                    r = max(mine, key=lambda r: r['start'])
                    pool.remove(r)
                    starts.append(r['start'])
            if starts != sorted(starts, reverse=True):
                self.faults.append('Rule3 ' + where)
            # Rule 4: single-word chunks follow the opening brackets, or precede the closing ones if there is no opening bracket
            if 'single' in kinds:
                first, last = kinds.index('single'), max(i for i, k in enumerate(kinds) if k == 'single')
                if 'open' in kinds:
                    if first < max(i for i, k in enumerate(kinds) if k == 'open'):
                        self.faults.append('Rule4 ' + where)
                elif 'close' in kinds and last > kinds.index('close'):
                    self.faults.append('Rule4 ' + where)

    def _join(self, subs):
        pending = {}
        for r in sorted(subs, key=lambda r: (r['sent'], r['start'])):
            eid = r['eid']
            if not eid.endswith(']'):
                self._add(eid, r['doc'], [r])
                continue
            base, _, rest = eid.partition('[')
            k, n = map(int, rest[:-1].split('/'))
            part = pending.setdefault((r['sent'], base), [])
            if k != len(part) + 1:
                self.faults.append(f'subspan {eid} out of sequence')
            part.append(r)
            if k == n:
                self._add(base, r['doc'], part)
                pending[(r['sent'], base)] = []
        for key, part in pending.items():
            if part:
                self.faults.append(f'{key}: incomplete discontinuous mention')

    def _add(self, eid, doc, parts):
        if any(dict(p['vals'], eid='', GRP='') != dict(parts[0]['vals'], eid='', GRP='') for p in parts):
            self.faults.append(f'{eid}: subspans with different attributes')
        v = parts[0]['vals']
        pos = tuple(p for r in parts for p in range(r['start'], r['end'] + 1))
        other = frozenset(x.partition(':')[::2] for x in v.get('other', '').split(',') if x)
        named = frozenset((k, x) for k, x in v.items() if k not in BASIC and x)
        self.mentions.append((doc, eid, parts[0]['sent'], pos, int(v.get('head') or 1), v.get('etype', v.get('entity', '')), named, other))


def described(m):
    """The same description computed from the model."""
    grp = 'GRP' in m.fields
    ms = []
    for mm in m.mentions():
        ms.append((m.docno[mm.sent], mm.ent.eid, mm.sent, tuple(mm.pos), mm.head, mm.ent.etype,
                   frozenset((k, v) for k, v in mm.fields.items() if v),
                   frozenset((k, '' if v is True else v) for k, v in mm.other.items())))
    br = [(m.docno[mm.sent], t.eid, mm.ent.eid, r, mm.sent, mm.pos[0]) for mm in m.mentions() for t, r in mm.bridging]
    sp = []
    for e in m.ents:
        if e.split:
            f = min(e.mentions, key=M.key)
            sp += [(m.docno[f.sent], t.eid, e.eid, f.sent, f.pos[0]) for t in e.split]
    return sorted(ms, key=repr), sorted(br), sorted(sp), grp
