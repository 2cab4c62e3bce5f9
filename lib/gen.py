"""Random CoNLL-U documents and trees, generated independently of the code under test."""
import json

FORMS = ['the', 'dog', 'Dog', 'barks', 'vámonos', 'zur', 'Žluťoučký', 'kůň', '日本', '語', 'مرحبا', 'don', "n't", '3,5', '10 000',
         '_', '-', '.', ',', '!', '?', '(', ')', '"', "'", '«', '»', '…', 'A&B', '<x>', 'a=b', 'a|b', '#1', 'I', 'x' * 30, 'e\u0301', '𝒳',
         ':', ';', '/', '\\', '%', '$', 'é', 'ß', 'US', 'ab', 'a', 'b', 'c']
UPOS = ['NOUN', 'VERB', 'ADJ', 'ADP', 'PUNCT', 'DET', 'PRON', 'AUX', 'PROPN', 'CCONJ', 'SCONJ', 'NUM', 'ADV', 'PART', 'X', 'SYM', 'INTJ']
XPOS = ['NN', 'VBZ', 'A-1', 'Db|x', 'NNFS1-----A----', 'X', ',']
DEPRELS = ['nsubj', 'obj', 'iobj', 'obl', 'nmod', 'amod', 'det', 'case', 'mark', 'punct', 'conj', 'cc', 'acl', 'acl:relcl', 'advcl',
           'nsubj:pass', 'aux', 'aux:pass', 'cop', 'flat', 'flat:name', 'fixed', 'compound', 'appos', 'parataxis', 'nummod',
           'obl:arg', 'dep', 'xcomp', 'ccomp', 'expl:pv', 'goeswith', 'orphan', 'discourse', 'vocative', 'list', 'root']
EDEPRELS = DEPRELS + ['nmod:of', 'obl:in:loc', 'conj:and', 'obl:v_důsledku:gen', 'nsubj:xsubj', 'ref', 'obl:a:b:c']
FEAT_NAMES = ['Case', 'Number', 'Gender', 'Person', 'Tense', 'Abbr', 'animacy', 'Foreign', 'Gender[psor]', 'PronType', 'Typo', 'VerbForm']
FEAT_VALUES = ['Nom', 'Sing', 'Plur', 'Acc', '1', '3', 'Yes', 'Fem,Masc', 'Prs', 'Past', 'Sing,Plur', 'Dual']
MISC_NAMES = ['Gloss', 'Translit', 'LTranslit', 'Lang', 'Ref', 'NewPar', 'CorrectForm', 'align', 'Zed', 'B', 'a', 'LId', 'Note', 'SpacesAfter', 'Škola']
MISC_VALUES = ['x', '1', 'a=b', 'x y', '\\n', 'ščř', '{"k":1}', 'http://a.b/c?d=e', '_', '-', '(', ')', '0', 'No', 'a,b', '<&>']
ZONES = ['en', 'cs', 'en_gold', 'en_pred', 'cs_UDPipe-2', 'x', '_ref', 'en-us']


def tree_parents(rng, n, shape=None):
    """A list of n heads (1-based, 0=root) forming a tree; index 0 unused -> returned list has length n+1."""
    shape = shape or rng.choice(['random', 'random', 'proj', 'proj', 'chain', 'star', 'attach_left', 'attach_right', 'multi', 'deep'])
    par = [0] * (n + 1)
    if n == 0:
        return par
    if shape == 'star':
        c = rng.randint(1, n)
        for i in range(1, n + 1):
            par[i] = 0 if i == c else c
        return par
    if shape == 'chain':
        order = list(range(1, n + 1))
        rng.shuffle(order)
        prev = 0
        for x in order:
            par[x] = prev
            prev = x
        return par
    if shape == 'attach_left':
        for i in range(1, n + 1):
            par[i] = rng.randint(max(0, i - 3), i - 1)
        return par
    if shape == 'attach_right':
        for i in range(1, n + 1):
            par[i] = rng.randint(i + 1, min(n, i + 3)) if i < n else 0
        return par
    if shape == 'proj':
        _proj(rng, par, list(range(1, n + 1)), 0, single=rng.random() < 0.7)
        return par
    # random recursive tree over a random permutation: mostly non-projective
    order = list(range(1, n + 1))
    rng.shuffle(order)
    placed = []
    for k, x in enumerate(order):
        if k == 0:
            par[x] = 0
        elif shape == 'multi' and rng.random() < 0.3:
            par[x] = 0
        elif shape == 'deep' and rng.random() < 0.7:
            par[x] = placed[-1]
        else:
            par[x] = rng.choice(placed)
        placed.append(x)
    return par


def _proj(rng, par, span, head, single=False):
    """Attach the words of a contiguous span projectively under head (random forest)."""
    while span:
        k = len(span) if single else rng.randint(1, len(span))
        single = False
        part, span = span[:k], span[k:]
        h = rng.choice(part)
        par[h] = head
        left = [x for x in part if x < h]
        right = [x for x in part if x > h]
        _proj(rng, par, left, h)
        _proj(rng, par, right, h)


def sorted_kv(pairs):
    """pairs: list of (key, value or True) -> canonical string."""
    pairs = sorted(pairs, key=lambda p: p[0].lower())
    return '|'.join(k if v is True else f'{k}={v}' for k, v in pairs) or '_'


def unique_lower(rng, names, k):
    out = []
    for n in rng.sample(names, min(k, len(names))):
        if n.lower() not in [x.lower() for x in out]:
            out.append(n)
    return out


def add_mwt_feats(rng, sents, p=0.2):
    for s in sents:
        for m in s.mwts:
            if rng.random() < p:
                s.mwt_feats[m[0]] = rng.choice(['Typo=Yes', 'Typo=Yes', 'Abbr=Yes|Typo=Yes'])
    return sents


class Sent:
    """words: list of dicts (1-based id = index+1); mwts: (start, end, form, misc); empties: (major, minor, dict)."""

    def __init__(self):
        self.comments = []
        self.words = []
        self.mwts = []
        self.mwt_feats = {}   # by the first word
        self.empties = []
        self.sent_id = None
        self.text = None
        self.newdoc = None
        self.newpar = None

    def lines(self):
        out = list(self.comments)
        n = len(self.words)
        by_major = {}
        for e in sorted(self.empties, key=lambda e: (e[0], e[1])):
            by_major.setdefault(e[0], []).append(e)
        mw = {m[0]: m for m in self.mwts}
        for i in range(0, n + 1):
            if i > 0:
                if i in mw:
                    s, e, form, misc = mw[i]
                    out.append(f'{s}-{e}\t{form}\t_\t_\t_\t{self.mwt_feats.get(s, "_")}\t_\t_\t_\t{misc}')
                w = self.words[i - 1]
                out.append('\t'.join([str(i), w['form'], w['lemma'], w['upos'], w['xpos'], w['feats'], str(w['head']),
                                      w['deprel'], w['deps'], w['misc']]))
            for maj, minor, e in by_major.get(i, []):
                out.append('\t'.join([f'{maj}.{minor}', e['form'], e['lemma'], e['upos'], e['xpos'], e['feats'], '_', '_',
                                      e['deps'], e['misc']]))
        return out

    def conllu(self):
        return '\n'.join(self.lines()) + '\n\n'

    def compute_text(self):
        """Independent detokenization: surface tokens and SpaceAfter=No."""
        inside = {}
        for s, e, form, misc in self.mwts:
            for k in range(s, e + 1):
                inside[k] = (s, form, misc)
        out = ''
        for i, w in enumerate(self.words, 1):
            if i in inside:
                s, form, misc = inside[i]
                if i != s:
                    continue
            else:
                form, misc = w['form'], w['misc']
            out += form
            if 'SpaceAfter=No' not in misc.split('|'):
                out += ' '
        return out.rstrip()


def gen_misc(rng, p=0.35, canonical=True, space_after=True, keys=None):
    pairs = []
    if rng.random() < p:
        for name in unique_lower(rng, keys or MISC_NAMES, rng.randint(1, 3)):
            pairs.append((name, True if rng.random() < 0.1 else rng.choice(MISC_VALUES)))
    if space_after and rng.random() < 0.25:
        pairs.append(('SpaceAfter', 'No'))
    if canonical:
        return sorted_kv(pairs)
    rng.shuffle(pairs)
    return '|'.join(k if v is True else f'{k}={v}' for k, v in pairs) or '_'


def gen_feats(rng, p=0.5, canonical=True):
    if rng.random() >= p:
        return '_'
    pairs = [(n, rng.choice(FEAT_VALUES)) for n in unique_lower(rng, FEAT_NAMES, rng.randint(1, 4))]
    if canonical:
        return sorted_kv(pairs)
    rng.shuffle(pairs)
    return '|'.join(f'{k}={v}' for k, v in pairs)


def gen_word(rng, canonical=True):
    return dict(form=rng.choice(FORMS), lemma=rng.choice(FORMS + ['_']), upos=rng.choice(UPOS + ['_']),
                xpos=rng.choice(XPOS + ['_', '_']), feats=gen_feats(rng, canonical=canonical), head=0,
                deprel=rng.choice(DEPRELS + ['_']), deps='_', misc=gen_misc(rng, canonical=canonical))


def gen_sent(rng, n=None, shape=None, p_mwt=0.3, p_empty=0.3, p_deps=0.3, canonical=True, comments=True, sid=None,
             zone='', p_newdoc=0.1, p_newpar=0.1, max_n=14, many_empty=0.05, json_comments=0.1, p_nosid=0.0, p_notext=0.0):
    s = Sent()
    if n is None:
        n = rng.choice([1, 2, 3, 4, 5, 6, 8, rng.randint(1, max_n), rng.randint(1, max_n)])
        if max_n >= 14 and rng.random() < 0.003:
            n = rng.choice([rng.randint(15, 40), rng.randint(95, 120)])
    par = tree_parents(rng, n, shape)
    for i in range(1, n + 1):
        w = gen_word(rng, canonical)
        w['head'] = par[i]
        if par[i] == 0 and rng.random() < 0.8:
            w['deprel'] = 'root'
        s.words.append(w)
    if n == 1 and rng.random() < 0.05:      # a normal word, unlike the one with nothing but Empty=Yes in MISC
        s.words[0]['misc'] = rng.choice(['Empty=No', 'Empty=Yes|Note=x', 'Emptyness=Yes'])
    if n >= 2 and rng.random() < p_mwt:
        i = 1
        while i < n:
            if rng.random() < 0.3:
                e = min(n, i + rng.choice([1, 1, 1, 2, 3]))
                s.mwts.append((i, e, rng.choice(FORMS), gen_misc(rng, canonical=canonical)))
                for k in range(i, e + 1):   # spacing marks belong to the MWT line
                    w = s.words[k - 1]
                    items = [x for x in w['misc'].split('|') if not x.startswith('SpaceAfter') or x.startswith('SpacesAfter')]
                    items.sort(key=lambda x: x.split('=')[0].lower())   # the reader re-serializes these
                    w['misc'] = '|'.join(items) or '_'
                i = e + 1
            else:
                i += 1
    if rng.random() < p_empty:
        for maj in range(0, n + 1):
            if rng.random() < 0.25:
                k = rng.randint(1, 3)
                if rng.random() < many_empty:
                    k = rng.choice([9, 10, 11, 12, rng.randint(19, 31), rng.randint(19, 31), 101 if many_empty >= 0.2 else 13])
                for minor in range(1, k + 1):
                    e = gen_word(rng, canonical)
                    e['misc'] = gen_misc(rng, canonical=canonical, space_after=False)
                    s.empties.append((maj, minor, e))
    if rng.random() < p_deps or s.empties:
        heads = [str(i) for i in range(0, n + 1)] + [f'{m}.{k}' for m, k, _ in s.empties]
        for w in s.words + [e for _, _, e in s.empties]:
            if rng.random() < 0.6 or any(w is e for _, _, e in s.empties):
                hs = rng.sample(heads, min(len(heads), rng.choice([1, 1, 2, 3])))
                hs.sort(key=lambda h: tuple(map(int, h.split('.'))))
                w['deps'] = '|'.join(f'{h}:{rng.choice(EDEPRELS)}' for h in hs)
    if comments:
        s.sent_id = (sid or f's{rng.randint(1, 999)}') + ('/' + zone if zone else '')
        if rng.random() < p_nosid:
            s.sent_id = None
        s.text = s.compute_text() if rng.random() < 0.7 else rng.choice(['A text.', 'x = y', '«Ahoj»  dva', 'a \t b', '#hash'])
        if s.text == '' or rng.random() < p_notext:
            s.text = None
        cl = []
        if rng.random() < p_newdoc:
            s.newdoc = rng.choice([True, 'doc1', 'd/x.txt', 'a b'])
            cl.append('# newdoc' + ('' if s.newdoc is True else f' id = {s.newdoc}'))
        if rng.random() < p_newpar:
            s.newpar = rng.choice([True, 'p1', 'x-p2', 'id = 3'])
            cl.append('# newpar' + ('' if s.newpar is True else f' id = {s.newpar}'))
        if s.sent_id is not None:
            cl.append(f'# sent_id = {s.sent_id}')
        if s.text is not None:
            cl.append(f'# text = {s.text}')
        extra = []
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            extra.append(rng.choice(['# text_en = Hello.', '# comment', '#no space', '# sent_ids = a b', '#  two  spaces', '# x = y = z',
                                     '# newdocs', '# s_type=decl', '# žluť ťuk', '# text_orig = a', '## double', '# tab\there',
                                     '# sent_id', '# json = {}', '#', '# ', '# a\u2028b', '# global.columns = ID FORM']))
        if extra:
            if canonical and rng.random() < 0.5:
                cl += extra
            else:
                for x in extra:
                    cl.insert(rng.randint(0, len(cl)), x)
        if rng.random() < json_comments:
            objs = {}
            for k in rng.sample(['a', 'b_c', 'Zed', 'ú', 'x.y'], rng.randint(1, 2)):
                objs[k] = rng.choice([1, 'str', {'b': [1, 2], 'a': None}, ['ž', {}], True, 1.5, {'n': {'m': 'ö'}}])
            for k in sorted(objs):
                cl.append(f'# json_{k} = {json.dumps(objs[k], ensure_ascii=False, sort_keys=True)}')
        s.comments = cl
    return s


def gen_doc(rng, nsent=None, zones=False, hashes=0, **kw):
    """A list of Sents with unique sentence IDs (per bundle; several zones may share one)."""
    nsent = nsent if nsent is not None else rng.choice([1, 1, 2, 3, 4])
    sents = []
    prefix = rng.choice(['s', 's', 'train-s', 'x.y:', 'd1_', 'ž'] + ['a#'] * hashes)
    for i in range(1, nsent + 1):
        sid = f'{prefix}{i}'
        if zones and rng.random() < 0.6:
            for j, z in enumerate(rng.sample(ZONES, rng.randint(1, 3))):
                # a document starts with a bundle, not inside one
                sents.append(gen_sent(rng, sid=sid, zone=z, **(dict(kw, p_newdoc=0.0) if j else kw)))
        else:
            sents.append(gen_sent(rng, sid=sid, **kw))
    return sents


def to_text(sents):
    return ''.join(s.conllu() for s in sents)
