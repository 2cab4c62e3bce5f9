"""An independent CoNLL-U parser used as the oracle (nothing here imports the code under test)."""
import json
import re


class RSent:
    def __init__(self):
        self.words = []      # [id, form, lemma, upos, xpos, feats, head, deprel, deps, misc] as strings
        self.mwts = []       # (start, end, form, misc)
        self.mwt_feats = {}  # by the first word
        self.empties = []    # like words
        self.comments = []   # raw lines
        self.sent_id = self.text = self.newdoc = self.newpar = self.global_entity = None
        self.json = {}
        self.doc_json = {}
        self.other = []      # other comment lines, without '#'


def parse(text):
    sents = []
    cur = None
    for line in text.split('\n'):
        if line == '':
            if cur is not None:
                sents.append(cur)
                cur = None
            continue
        if cur is None:
            cur = RSent()
        if line[0] == '#':
            cur.comments.append(line)
            _comment(cur, line)
            continue
        cols = line.split('\t')
        assert len(cols) == 10, line
        if '-' in cols[0]:
            a, b = cols[0].split('-')
            cur.mwts.append((int(a), int(b), cols[1], cols[9]))
            if cols[5] != '_':
                cur.mwt_feats[int(a)] = cols[5]
        elif '.' in cols[0]:
            cur.empties.append(cols)
        else:
            cur.words.append(cols)
    if cur is not None:
        sents.append(cur)
    return sents


def _comment(s, line):
    m = re.match(r'# sent_id(?:\s*=\s*|\s+)(\S+)', line)
    if m:
        s.sent_id = m.group(1)
        return
    m = re.match(r'# text\s*=\s*', line)
    if m:
        s.text = line[m.end():]
        return
    if line == '# newdoc':
        s.newdoc = True
        return
    if line == '# newpar':
        s.newpar = True
        return
    m = re.match(r'# (newdoc|newpar)\s+id\s*=\s*(.+)$', line)
    if m:
        setattr(s, m.group(1), m.group(2))
        return
    m = re.match(r'# (doc_)?json_([^ =]+)\s*=\s*(.+)', line)
    if m:
        (s.doc_json if m.group(1) else s.json)[m.group(2)] = json.loads(m.group(3))
        return
    m = re.match(r'# global.Entity\s*=\s*(\S+)', line)
    if m:
        s.global_entity = m.group(1)
        return
    s.other.append(line[1:])


def kv(string):
    """FEATS/MISC string to a dict (bare keys map to True)."""
    if string == '_':
        return {}
    out = {}
    for item in string.split('|'):
        k, eq, v = item.partition('=')
        out[k] = v if eq else True
    return out
