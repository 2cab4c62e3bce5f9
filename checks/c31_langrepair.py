"""C31: blocks which repair a pattern of one language or treebank apply exactly their documented rule, word by word, and change nothing else."""
import importlib
import re

from lib.vf import Logs, Workload, captured
from udapi.core.document import Document
from udapi.core.node import CycleError

ID = 'C31'
RULE = 'distinct (block, parameters, sentence) cases whose resulting columns, tokens, text and printed lines were compared with an independent model of the documented rule'
ASSUMPTIONS = ['trees are valid (one child of the technical root, with relation root); words have forms; where the rule of a block is ambiguous about a label (hi.FixAux: cc against ccomp), the label is not used']


class W:
    """A word of the model."""

    def __init__(self, form='x', lemma='x', upos='NOUN', xpos='_', feats=None, deprel='dep', misc=None):
        self.form, self.lemma, self.upos, self.xpos, self.deprel = form, lemma, upos, xpos, deprel
        self.feats, self.misc, self.deps, self.parent = dict(feats or {}), dict(misc or {}), [], None

    @property
    def udep(self):
        return self.deprel.partition(':')[0]


class T:
    """A sentence of the model; mwts = [[words, form, misc]]."""

    def __init__(self, words):
        self.root, self.words, self.mwts, self.text = W('<ROOT>', '<ROOT>', '<ROOT>', deprel=None), words, [], None
        self.start = None   # newdoc or newpar
        self.comments = None   # instead of the usual ones
        self.hidden = []       # words whose SpaceAfter is not written

    def ord(self, w):
        return 0 if w is self.root else self.words.index(w) + 1

    def kids(self, w):
        return [x for x in self.words if x.parent is w]

    def prev(self, w):
        k = self.ord(w)
        return self.words[k - 2] if k > 1 else None

    def hang(self, w, parent):
        x = parent
        while x is not None:
            if x is w:
                raise CycleError('model: %s %s', w, parent)
            x = x.parent
        w.parent = parent

    def mwt_of(self, w):
        return next((m for m in self.mwts if w in m[0]), None)

    def rows(self):
        return [dict(form=w.form, lemma=w.lemma, upos=w.upos, xpos=w.xpos, feats={k: v for k, v in w.feats.items() if v}, head=self.ord(w.parent), deprel=w.deprel,
                     deps=sorted((self.ord(p), d) for p, d in w.deps), misc={k: v for k, v in w.misc.items() if v}) for w in self.words]

    def tokens(self):
        out, k = [], 0
        while k < len(self.words):
            m = self.mwt_of(self.words[k])
            if m:
                out.append((m[1], m[2]))
                k += len(m[0])
            else:
                out.append((self.words[k].form, self.words[k].misc))
                k += 1
        return out

    def plain(self):
        return ''.join(f + ('' if m.get('SpaceAfter') == 'No' else ' ') for f, m in self.tokens()).rstrip(' ')

    def mwtrows(self):
        return [(self.ord(m[0][0]), self.ord(m[0][-1]), m[1], {k: v for k, v in m[2].items() if v}) for m in self.mwts]

    def conllu(self, sent_id):
        kv = lambda d: '|'.join(f'{k}={v}' for k, v in sorted(d.items(), key=lambda x: x[0].lower())) or '_'
        out = ([f'# {self.start}'] if self.start else []) + [f'# sent_id = s{sent_id}'] + (['# text = ' + self.text] if self.text is not None else [])
        if self.comments is not None:
            out = ['#' + x for x in self.comments]
        for k, w in enumerate(self.words, 1):
            for m in self.mwts:
                if m[0][0] is w:
                    out.append(f'{k}-{self.ord(m[0][-1])}\t{m[1]}' + '\t_' * 7 + '\t' + kv(m[2]))
            out.append('\t'.join([str(k), w.form, w.lemma, w.upos, w.xpos, kv(w.feats), str(self.ord(w.parent)), w.deprel,
                                  '|'.join(f'{o}:{d}' for o, d in sorted((self.ord(p), d) for p, d in w.deps)) or '_', kv({k: v for k, v in w.misc.items() if k != 'SpaceAfter' or w not in self.hidden})]))
        return '\n'.join(out) + '\n\n'


def rows(tree):
    """The same as T.rows() of a tree of udapi."""
    return [dict(form=n.form, lemma=n.lemma, upos=n.upos or '_', xpos=n.xpos or '_', feats=dict(n.feats), head=n.parent.ord, deprel=n.deprel,
                 deps=sorted((int(e.partition(':')[0]), e.partition(':')[2]) for e in n.raw_deps.split('|') if e != '_'), misc={k: v for k, v in n.misc.items() if v}) for n in tree.descendants]


def same(mon, got, want, label, name):
    if len(got) != len(want):
        mon.eq(len(got), len(want), label, f'{name}: number of words')
    diff = [(k + 1, c, g[c], w[c]) for k, (g, w) in enumerate(zip(got, want)) for c in w if g[c] != w[c]]
    mon.ok(not diff, label, lambda: f'{name}: (word, column, is, should be): {diff[:6]}')


def sentence(rng, make, lo=1, hi=8, labels=('nsubj', 'obj', 'dep'), deps=0.0, mwts=0.0, chain=0.5, text=0.5):
    """A random tree over words from make(rng)."""
    n = rng.randint(lo, hi)
    t = T([make(rng) for _ in range(n)])
    order = rng.sample(t.words, n)
    for k, w in enumerate(order):
        if not k:
            w.parent, w.deprel = t.root, 'root'
            continue
        w.parent = order[k - 1] if rng.random() < chain * 0.4 else rng.choice(order[:k])
        if rng.random() < 0.4:   # neighbours
            near = [x for x in order[:k] if abs(t.ord(x) - t.ord(w)) == 1]
            w.parent = rng.choice(near) if near else w.parent
        if w.deprel in (None, 'dep'):
            w.deprel = rng.choice(labels)
    for w in t.words:
        if rng.random() < deps:
            w.deps = [(w.parent, w.deprel)] if rng.random() < 0.7 else []
            if rng.random() < 0.4:
                p, d = rng.choice(t.words + [t.root]), rng.choice(list(labels))
                if p is not w and (p, d) not in w.deps:
                    w.deps.append((p, d if p is not t.root else 'root'))
    k = 0
    while k + 1 < n:
        if rng.random() < mwts:
            m = rng.randint(2, min(3, n - k))
            t.mwts.append([t.words[k:k + m], ''.join(w.form for w in t.words[k:k + m]), {'SpaceAfter': 'No'} if rng.random() < 0.3 else {}])
            for w in t.words[k:k + m]:
                w.misc.pop('SpaceAfter', None)   # it belongs to the token
            k += m
        else:
            k += 1
    if rng.random() < text:
        t.text = t.plain()
    return t


def some(rng, d, p=0.5):
    """Some of the features."""
    return {k: rng.choice(v) for k, v in d.items() if rng.random() < p}


def maker(forms='x y'.split(), lemmas='x y'.split(), upos=('NOUN', 'VERB', 'AUX'), xpos=('_',), feats=None, deprels=None, misc=None, pairs=()):
    def make(rng):
        w = W(rng.choice(list(forms)), rng.choice(list(lemmas)), rng.choice(list(upos)), rng.choice(list(xpos)), some(rng, feats or {}),
              rng.choice(deprels) if deprels else 'dep', some(rng, misc or {}, 0.3))
        if pairs and rng.random() < 0.7:
            for k, v in rng.choice(list(pairs)).items():
                setattr(w, k, v.copy() if isinstance(v, dict) else v)
        return w
    return make


# ---------------------------------------------------------------- auxiliaries which are no auxiliaries
CLAUSE = 'nsubj csubj obl advmod advcl vocative discourse parataxis punct'.split()
SOME = CLAUSE + 'obj iobj ccomp xcomp conj cc mark aux cop det case nmod acl compound flat expl dislocated list fixed goeswith reparandum'.split()


def promote(t, w, moved):
    """w takes the place of its parent, which becomes its xcomp and keeps all but the moved children."""
    verb = w.parent
    w.parent, w.deprel = verb.parent, verb.deprel
    for c in t.kids(verb):
        if c is not w and c.udep in moved:
            c.parent = w
    t.hang(verb, w)
    verb.deprel = 'xcomp'


def spurious(lemmas, need_upos):
    def model(t, params):
        for w in list(t.words):
            if w.udep == 'aux' and (w.upos == 'AUX' or not need_upos) and w.lemma in lemmas:
                w.upos = 'VERB'
                promote(t, w, CLAUSE)
    return model


KK = ['баста', 'кет']
UG = 'بەر بار چىق چىقىش يۈر ئولتۇر باق ئۆت _ كۆرۈش باشلى يەت قايت چۈش قىل چاپ قورق كەلتۈر كىر'.split()
COMPOUND = 'ले दे डाल फेंक बैठ उठ रख आ पहुंच चल निकल निकाल गिरा समा धमक खडा दबोच गुजर फूंक घेर बच لے دے ڈال پھینک بیٹھ اٹھ رکھ آ لا پہنچ دیکھ پھر چل چڑھ سڑ'.split()
PHASE = 'लग चुक चाह दिखा बन करा لگ چک چاہ دکھا بن'.split()
HILEMMA = {'آنہ': 'آ', 'چاہے': 'چاہ', 'चुका': 'चुक', 'چکا': 'چک', 'दिया': 'दे', 'دیا': 'دے', 'دی': 'دے', 'دیت': 'دے', 'گی': 'گا', 'گے': 'گا', 'जाना': 'जा', 'जान': 'जा', 'گیا': 'جا', 'جائے': 'جا',
           'جاتا': 'جا', 'جاتی': 'جا', 'جان': 'جا', 'جانا': 'جا', 'جاؤ': 'جا', 'جائی': 'جا', 'جاتے': 'جا', 'جات': 'جا', 'हों': 'है', 'है.': 'है', 'ہوں': 'ہے', 'ہوا': 'ہے', 'लिया': 'ले', 'لیا': 'لے', 'لو': 'لے',
           'لی': 'لے', 'لیجیے': 'لے', 'लगा': 'लग', 'لگا': 'لگ', 'पहुंचा': 'पहुंच', 'पहुँच': 'पहुंच', 'پڑے': 'پڑ', 'پھرے': 'پھر', 'रहा': 'रह', 'रहूं': 'रह', 'رہا': 'رہ', 'رہی': 'رہ', 'رہے': 'رہ', 'سکے': 'سک', 'سکی': 'سک',
           'سکتا': 'سک', 'سکت': 'سک', 'थी': 'था', 'تھ': 'تھا', 'تھے': 'تھا', 'تھیں': 'تھا', 'उठा': 'उठ', 'اٹھا': 'اٹھ', 'والی': 'والا'}
HIFORM = {'چاہئے': 'چاہئے', 'چاہیئے': 'چاہئے', 'چاہیے': 'چاہئے', 'چاہئیں': 'چاہئے', 'دکھائیں': 'دکھا', 'ہے': 'ہے', 'لیا': 'لے'}
HIMOVED = 'nsubj csubj advmod advcl obj iobj obl aux mark punct cc expl dislocated vocative discourse parataxis'.split()
HISAFE = [x for x in SOME if not (any(x.startswith(y) for y in HIMOVED) and x not in HIMOVED)]


def hindi(t, params):
    for w in list(t.words):
        if w.upos == 'AUX':
            if w.form in HIFORM:
                w.lemma = HIFORM[w.form]
                if w.form == 'چاہئیں':
                    w.feats['Number'] = 'Plur'
            elif w.form == 'کے' and w.lemma == 'کا':
                w.upos, w.deprel = 'ADP', 'mark'
            elif w.form == 'کر' and w.lemma == 'بنا':
                w.lemma = 'کر'
            else:
                w.lemma = HILEMMA.get(w.lemma, w.lemma)
        if w.lemma in COMPOUND and w.upos == 'AUX' and w.udep == 'aux':
            w.deprel, w.upos = 'compound', 'VERB'
        elif w.lemma in ('वाला', 'والا'):
            w.upos, w.deprel = 'ADJ', 'compound'
            for f in ('AdpType', 'VerbForm', 'Aspect'):
                w.feats.pop(f, None)
        elif w.lemma in PHASE and w.upos == 'AUX' and w.udep == 'aux':
            w.upos = 'VERB'
            promote(t, w, HIMOVED)


def hiword(rng):
    w = W('x', rng.choice(COMPOUND + PHASE * 3 + list(HILEMMA) + ['वाला', 'والا', 'x', 'ہو']), rng.choice(['AUX', 'AUX', 'AUX', 'VERB', 'ADP']), '_',
          some(rng, dict(AdpType=['Post'], VerbForm=['Part', 'Inf'], Aspect=['Perf'], Number=['Sing'], Gender=['Masc'])), rng.choice(['aux', 'aux', 'aux:pass', 'case'] + HISAFE))
    if rng.random() < 0.15:
        w.form, w.lemma = rng.choice(list(HIFORM)), 'y'
    elif rng.random() < 0.05:
        w.form, w.lemma = rng.choice([('کے', 'کا'), ('کر', 'بنا'), ('x', 'کا'), ('x', 'بنا')])
    return w


KEEP = 'obj iobj obl ccomp xcomp conj list compound flat fixed goeswith reparandum'.split()


def moved_edge(t, w, parent, deprel):
    """The basic relation changes; so does the enhanced one, if the graph has the same one."""
    if w.deps:
        rest = [(p, d) for p, d in w.deps if not (p is w.parent and d.partition(':')[0] == w.udep)]
        w.deps = rest + ([(parent, deprel)] if len(rest) < len(w.deps) else [])
    t.hang(w, parent)
    w.deprel = deprel


def tener(t, params):
    for w in list(t.words):
        if w.lemma in ('tener', 'ir') and w.upos == 'AUX':
            w.upos = 'VERB'
            if w.udep == 'aux':
                main = w.parent
                moved_edge(t, w, main.parent, main.deprel)
                moved_edge(t, main, w, 'xcomp')
                for c in t.kids(main):
                    if c.udep not in KEEP:
                        moved_edge(t, c, w, c.deprel)
                for c in t.kids(w):
                    if c.form.lower() in ('que', 'a') and t.ord(w) < t.ord(c) < t.ord(main):
                        moved_edge(t, c, main, 'mark')


def toest(t, params):
    for w in t.words:
        if w.udep == 'mark' and w.lemma == 'то' and any(c.udep == 'fixed' and c.lemma == 'быть' for c in t.kids(w)):
            w.deprel = 'cc'
            w.deps = [(p, d) for p, d in w.deps if p is not w.parent] + [(w.parent, 'cc')]


# ---------------------------------------------------------------- remains of UDv1
def heneg(t, params):
    for w in t.words:
        if w.deprel == 'neg' and w.feats.get('VerbType') == 'Cop':
            w.upos, w.deprel = 'AUX', 'cop'
            del w.feats['VerbType']
            if w.misc.get('ToDo') == 'neg':
                del w.misc['ToDo']


def roneg(t, params):
    for w in t.words:
        if w.deprel == 'neg':
            if w.upos == 'PRON' and w.form == 'ne':
                w.feats = {'Polarity': 'Neg'}
            w.upos, w.deprel = 'ADV', 'advmod'


def irish(t, params):
    for w in t.words:
        f = w.feats
        if f.get('Case') == 'Com':
            f['Case'] = 'NomAcc'
        if f.get('Form') == 'Emph':
            if w.upos in ('PRON', 'ADP'):
                del f['Form']
                f['PronType'] = 'Emp'
            else:
                f['Form'] = 'Emp'
        w.deprel = {'nmod:prep': 'obl:prep', 'nmod:tmod': 'obl:tmod'}.get(w.deprel, w.deprel)
        if w.xpos == 'Abr':
            f['Abbr'] = 'Yes'
        if w.xpos == 'Cop':
            w.upos = 'AUX'
        if w.xpos == 'Foreign':
            f['Foreign'] = 'Yes'
        if 'nmod' in w.misc.get('ToDo', ''):
            del w.misc['ToDo']
        if f.get('VerbForm') in ('Inf', 'Vnoun', 'Ger'):
            before = t.prev(w)
            f['VerbForm'] = 'Vnoun' if before and before.lemma == 'ag' and before.parent is w else 'Inf'


PREFER = {'NOUN': 10, 'PRON': 9, 'ADJ': 8, 'VERB': 8, 'PUNCT': -10}


def best_child_up(t, w):
    """The best child takes the place of w, which hangs on it as the other children do."""
    kids = t.kids(w)
    best = max(kids, key=lambda c: (PREFER.get(c.upos, 0), -t.ord(c)))
    best.parent = w.parent
    w.parent = best
    for c in kids:
        if c is not best:
            c.parent = best


def galician(t, params):
    for w in list(t.words):
        if w.deprel == 'cop':
            cop = w.parent
            if cop.lemma in ('ser', 'estar'):
                w.parent, w.deprel = cop.parent, cop.deprel
                for c in t.kids(cop):
                    c.parent = w
                cop.parent, cop.deprel = w, 'cop'
            else:
                w.deprel = 'xcomp'
        if w.deprel == 'case' and t.kids(w):
            if w.upos in ('ADP', 'CONJ', 'PART'):
                best_child_up(t, w)
            else:
                w.misc['ToDo'] = 'case-upos'
        if w.deprel == 'punct' and w.upos == 'PUNCT' and t.kids(w):
            best_child_up(t, w)


def enhanced(t, params):
    for w in t.words:
        if not w.deps:
            w.deps = [(w.parent, w.deprel)]


# ---------------------------------------------------------------- lemmas and features of words
def unlemmatized(w):
    return w.lemma == '_' and w.form != '_' and w.feats.get('Typo') != 'Yes'


def lemmatize(t, params):
    unmarked = dict(Degree='Pos', Polarity='Pos', Number='Sing', Case='Nom', Gender='Masc')
    need = {'ADV': 'Degree Polarity', 'VERB': 'Polarity', 'AUX': 'Polarity', 'NOUN': 'Number Case Polarity', 'PROPN': 'Number Case Polarity', 'PRON': 'Gender Number Case', 'DET': 'Gender Number Case',
            'NUM': 'Gender Case', 'ADJ': 'Gender Number Case'}
    need.update({u: '' for u in 'PUNCT SYM ADP CCONJ SCONJ PART INTJ X'.split()})
    for w in t.words:
        if unlemmatized(w) and w.upos in need and all(w.feats.get(f, unmarked[f]) == unmarked[f] for f in need[w.upos].split()):
            if w.upos not in ('VERB', 'AUX') or w.feats.get('VerbForm') == 'Inf':
                w.lemma = w.form if w.upos == 'PROPN' else w.form.lower()


MEN = dict(zip('我們 我们 他們 他们 它們 它们 牠們 她們 她们 人們 人们'.split(), '我我他他它它牠她她人人'))


def chinese(t, params):
    rewrite = params.get('rewrite', 'empty')
    for w in t.words:
        if not (rewrite == 'all' or unlemmatized(w) or rewrite == 'form' and w.lemma == w.form):
            continue
        f = w.form
        if w.upos in ('AUX', 'VERB'):
            half = (len(f) - 1) // 2
            if f[0] in '不没沒未' and len(f) > 1:
                w.lemma, w.feats['Polarity'] = f[1:], 'Neg'
            elif len(f) > 2 and len(f) % 2 and f[half] in '不没沒未' and f[:half] == f[half + 1:]:
                w.lemma, w.feats['Mood'] = f[:half], 'Int'
            else:
                copulas = [c for c in f if c in '是爲為为']
                w.lemma = copulas[0].replace('爲', '為') if copulas else f
        else:
            w.lemma = MEN.get(f, f)


CANTO = dict(zip('𡃁仔 仲 企 係咪 出嚟 可 啦 㗎喇 喇 嚟 就嚟 死𡃁妹 老豆 蚊 蛋撻 返嚟 過嚟人 過嚟'.split(), '笭仔 重 徛 係 出唻 可以 喇 㗎嘑 嘑 唻 就唻 死笭妹 老頭 緡 蛋澾 返唻 過唻人 過唻'.split()))


def cantonese(t, params):
    for w in t.words:
        if unlemmatized(w):
            w.lemma = CANTO.get(w.form, w.form)


def esverbs(t, params):
    for w in t.words:
        f = w.form.lower()
        if w.upos not in ('VERB', 'AUX'):
            continue
        if f.endswith(('ar', 'er', 'ir')):
            w.feats, w.lemma = {'VerbForm': 'Inf'}, f
        elif f.endswith('ndo'):
            if f != 'entiendo':
                w.feats = {'VerbForm': 'Ger'}
        else:
            stem = f[:-1] if f.endswith('s') else f
            if stem[-1:] in 'oa' and stem[:-1].endswith(('ad', 'id', 'biert', 'dich', 'fech', 'hech', 'muert', 'puest', 'vist')):
                w.feats = {'VerbForm': 'Part', 'Tense': 'Past', 'Gender': w.feats.get('Gender') or ('Masc' if stem.endswith('o') else 'Fem'),
                           'Number': w.feats.get('Number') or ('Plur' if f.endswith('s') else 'Sing')}
                if stem[:-1].endswith('ad'):
                    w.lemma = stem[:-2] + 'r'


# ---------------------------------------------------------------- relative clauses, subjects
def only_edge(t, w, parent, deprel=None):
    t.hang(w, parent)
    w.deprel = deprel or w.deprel
    if len(w.deps) == 1:
        w.deps = [(parent, deprel or w.deps[0][1])]


def elque(lemmas):
    def model(t, params):
        lines = []
        for que in list(t.words):
            verb, el = que.parent, t.prev(que)
            if not (que.lemma in lemmas and que.upos == 'PRON' and t.ord(verb) > t.ord(que) and el is not None and el.lemma == 'el'):
                continue
            adp = t.prev(el)
            if adp is not None and adp.upos == 'ADP':
                if adp.udep == 'fixed':
                    adp = adp.parent
            else:
                adp = None
            if not params.get('fix'):
                name = lambda p, known: next((n for x, n in known if x is not None and x is p), 'OTHER')
                line = []
                if adp is not None:
                    line.append(f"{adp.deprel}({name(adp.parent, [(el, 'el'), (que, 'que'), (verb, 'VERB')])}, ADP)")
                line.append(f"{el.deprel}({name(el.parent, [(adp, 'ADP'), (que, 'que'), (verb, 'VERB')])}, el)")
                line.append(f'{que.deprel}(VERB, que)')
                line.append(f"{verb.deprel}({name(verb.parent, [(adp, 'ADP'), (el, 'el')])}, VERB)")
                lines.append('; '.join(line) + '\n')
                continue
            if adp is not None and (adp.parent is que or adp.parent is verb):
                only_edge(t, adp, el, 'case')
            if el.parent is que:
                only_edge(t, el, verb)
            if verb.parent in (adp, el, que):
                continue
            u = verb.udep
            label = {'nsubj': 'nsubj', 'csubj': 'nsubj', 'ccomp': 'obj', 'advcl': 'obl', 'acl': 'nmod'}.get(u, verb.deprel if u in ('xcomp', 'conj', 'appos', 'root') else None)
            if label:
                only_edge(t, el, verb.parent, label)
                only_edge(t, verb, el, 'acl:relcl')
                for c in t.kids(verb):
                    if t.ord(c) < t.ord(el) and c.udep in ('cc', 'mark', 'case', 'punct'):
                        only_edge(t, c, el)
        return ''.join(lines)
    return model


def danish(t, params):
    def dist(a, b):
        i, j = sorted([t.ord(a), t.ord(b)])
        return j - i + 10 * sum(x.form == ',' for x in t.words[i:j - 1])

    def nearer_too(w, node):
        for c in t.kids(node):
            if c is not w and dist(w, c) < dist(node, c):
                c.parent = w
    for node in list(t.words):
        kids = t.kids(node)
        subj = [c for c in kids if c.udep in ('nsubj', 'csubj')]
        if len(subj) != 2:
            continue
        xcomp, advcl, amod = [[c for c in kids if c.udep in u] for u in (('xcomp',), ('advcl',), ('amod', 'obl'))]
        loose = bool(xcomp)
        for w in xcomp or advcl or [a for a in amod if any(c.udep == 'cop' for c in t.kids(a))]:
            gain = [dist(node, s) - dist(w, s) for s in subj]   # how much nearer each subject is to w
            if loose:
                which = 0 if gain[0] >= 0 >= gain[1] else 1 if gain[1] >= 0 >= gain[0] else None
            else:
                which = 0 if gain[0] > 0 > gain[1] else 1 if gain[1] > 0 > gain[0] else None
            if which is None:
                continue
            t.hang(subj[which], w)
            if w.udep in ('xcomp',):
                nearer_too(w, node)
                w.misc['ToDo'] = 'check-xcomp'
            elif w.udep in ('amod', 'obl'):
                w.deprel = 'advcl'
                nearer_too(w, node)
            break


# ---------------------------------------------------------------- tokens
def exclamation(t, params):
    for w in list(t.words):
        def split(form, at, **misc):
            ini = form == '¡'
            p = W(form, form, 'PUNCT', 'faa' if ini else 'fat', dict(PunctType='Excl', PunctSide='Ini' if ini else 'Fin'), 'punct', misc)
            p.parent = w
            t.words.insert(at, p)
            w.misc['Mark'] = 'PunctSep'
        if re.match(r'[¡!]\w', w.form):
            split(w.form[0], t.ord(w) - 1, SpaceAfter='No')
            w.form = w.form[1:]
        if re.search(r'\w[¡!]$', w.form):
            split(w.form[-1], t.ord(w), SpaceAfter=w.misc.get('SpaceAfter'))
            w.form = w.form[:-1]
            w.misc['SpaceAfter'] = 'No'


def bulgarian(t, params):
    if len(t.words) > 1 and t.words[-1].form == '.' and t.words[-2].form.endswith('.') and t.text and not t.text.endswith(('..', '. .')):
        last = t.words[-1]
        for c in t.kids(last):
            c.parent = last.parent
        t.words.remove(last)


def portuguese(t, params):
    fine = lambda w: w.form.isalnum() and w.form.lower() != 'al'
    old, k = list(t.words), 0
    while k + 2 < len(old):
        end = k
        while end + 2 < len(old) and fine(old[end]) and old[end + 1].form == '-' and fine(old[end + 2]):
            end += 2
        if end == k:
            k += 1
            continue
        group = old[k:end + 1]
        heads = [w for w in group if w.parent not in group]
        outside = [w for w in group if w not in heads and any(c not in group for c in t.kids(w))]
        if len(heads) > 1:
            for w in heads:
                w.misc['ToDo'] = 'NonCatenaCompound'
        elif outside:
            for w in outside:
                w.misc['ToDo'] = 'HasChildrenOutsideCompound'
        else:
            for h in group[1::2]:
                for c in t.kids(h):
                    c.parent = h.parent
                t.words.remove(h)
            t.mwts.append([group[::2], ''.join(w.form for w in group), {}])
            t.text = None
        k = end + 1 if end + 1 < len(old) else end


MARATHI = [   # (token, [(lemma, upos)], [form], [lemma])
    ('घराचा', [('घर', 'NOUN'), ('चा', 'ADP')], ['घरा', 'चा'], ['घर', 'चा']), ('घराची', [('घर', 'NOUN'), ('ची', 'ADP')], ['घरा', 'ची'], ['घर', 'चा']),
    ('घराच्या', [('घर', 'NOUN'), ('ची', 'PART')], ['घरा', 'च्या'], ['घर', 'चा']), ('माझी', [('मी', 'PRON'), ('चा', 'ADP')], ['माझ', 'ची'], ['मी', 'चा']),
    ('आपल्या', [('आपण', 'PRON'), ('चा', 'ADP')], ['आपल', 'च्या'], ['आपण', 'चा']), ('घरवरती', [('घर', 'NOUN'), ('वरती', 'ADP')], ['घर', 'वरती'], ['घर', 'वरती']),
    ('घरवर', [('घर', 'NOUN'), ('वरती', 'ADP')], ['घर', 'वर'], ['घर', 'वरती']), ('घरमध्ये', [('घर', 'NOUN'), ('मध्ये', 'ADP')], ['घर', 'मध्ये'], ['घर', 'मध्ये']),
    ('घरमध्ये', [('घर', 'NOUN'), ('साठी', 'ADP')], ['_', '_'], ['घर', 'साठी']), ('घरमध्ये', [('घर', 'NOUN'), ('मध्ये', 'NOUN')], ['_', '_'], ['घर', 'मध्ये']),
    ('बोलली', [('मी', 'PRON'), ('चा', 'ADP')], ['_', '_'], ['मी', 'चा']), ('घराच्यामध्ये', [('घर', 'NOUN'), ('चा', 'ADP'), ('मध्ये', 'ADP')], ['घरा', 'च्या', 'मध्ये'], ['घर', 'चा', 'मध्ये']),
    ('घराचेमध्ये', [('घर', 'NOUN'), ('च्या', 'PART'), ('मध्ये', 'ADP')], ['घरा', 'चे', 'मध्ये'], ['घर', 'चा', 'मध्ये']),
    ('माझ्यासाठी', [('मी', 'PRON'), ('चा', 'ADP'), ('साठी', 'ADP')], ['माझ', 'च्या', 'साठी'], ['मी', 'चा', 'साठी']),
    ('घरसाठीमध्ये', [('घर', 'NOUN'), ('साठी', 'ADP'), ('मध्ये', 'ADP')], ['_', '_', '_'], ['घर', 'साठी', 'मध्ये']),
]


def marathi(t, params):
    for words, form, _ in t.mwts:
        lu = [(w.lemma, w.upos) for w in words]
        for f, key, forms, lemmas in MARATHI:
            if (f, key) == (form, lu) and all(w.form == '_' for w in words):
                for w, x, y in zip(words, forms, lemmas):
                    w.form, w.lemma = x, y
                break


def marathi_sentence(rng):
    t = sentence(rng, maker(), 1, 8)
    t.text, k = None, 0
    while k < len(t.words):
        f, key, _, _ = rng.choice(MARATHI)
        if k + len(key) <= len(t.words) and rng.random() < 0.7:
            group = t.words[k:k + len(key)]
            known = rng.random() < 0.15
            for w, (lemma, upos) in zip(group, key):
                w.form, w.lemma, w.upos = 'x' if known else '_', lemma, upos
            t.mwts.append([group, f, {}])
            k += len(key)
        else:
            t.words[k].form = rng.choice(['_', 'x', 'घराचा'])
            t.words[k].upos = rng.choice(['ADP', 'NOUN'])
            k += 1
    return t


def spaces(extra=None):
    def model(t, params):
        ws, marked = t.words, set()
        if extra:
            extra(t, marked)
        after = params.get('not_after', '¡ ¿ ( [ { „ /').split() + params.get('extra_not_after', '').split()
        before = params.get('not_before', '. , ; : ! ? } ] ) / ?? ??? !! !!! ... …').split() + params.get('extra_not_before', '').split()
        (before if any(w.form == '„' for w in ws) else after).append('“')
        marked |= {k for k in range(len(ws) - 1) if ws[k].form in after or ws[k + 1].form in before}
        quotes = [k for k, w in enumerate(ws) if w.form == '"']
        for nth, k in enumerate(quotes):
            if k == len(ws) - 1:
                if k:
                    marked.add(k - 1)
            elif len(quotes) % 2 == 0:
                if nth % 2 == 0:
                    marked.add(k)
                elif k:
                    marked.add(k - 1)
            elif k == 0:
                marked.add(0)
        change = False
        for k in marked:
            if ws[k + 1].deprel == 'goeswith':
                continue
            m = t.mwt_of(ws[k])
            if m is None:
                ws[k].misc['SpaceAfter'] = 'No'
            elif m[0][-1] is ws[k]:
                m[2]['SpaceAfter'] = 'No'
            else:
                continue
            change = True
        if change and params.get('fix_text', True):
            t.text = t.plain()
    return model


def en_extra(t, marked):
    ws = t.words
    for k in range(len(ws) - 1):
        a, b = ws[k], ws[k + 1]
        if b.form in ("n't", "'s"):
            marked.add(k)
        elif a.form == "'" and a.xpos == '``' or b.form == "'" and b.xpos == "''":
            marked.add(k)
        elif a.form == '-' and k:
            close = lambda x: x is a.parent or x.parent is a.parent
            if close(ws[k - 1]) and close(b):
                marked |= {k - 1, k}
        elif a.form == '$' and b.upos == 'NUM':
            marked.add(k)


def ro_extra(t, marked):
    ws = t.words
    for k in range(len(ws) - 1):
        a, b = ws[k].form, ws[k + 1].form
        if b[0] == '-' and any(c not in '0123456789,.' for c in b[1:]):   # -și, but neither - nor -3,1
            marked.add(k)
        if a[-1] == '-' and a != '-':
            marked.add(k)


def spaced(rng):
    t = sentence(rng, maker(forms=["n't", "'s", "'", '-', '$', '"', '"', '“', '„', '(', ')', ',', '.', '...', '/', '¿', '?', 'do', '-i', '-3,1', '-12', 's-', '-a1', '-1a', '-2,', 'it', '-urilor', '-x-', '@'],
                             upos=['NUM', 'NOUN', 'PUNCT'], xpos=['_', '``', "''"], deprels=['dep', 'dep', 'goeswith', 'nsubj'], misc=dict(SpaceAfter=['No'], Gloss=['x'])), 1, 9, mwts=0.1)
    if t.text is not None and rng.random() < 0.2:
        t.text = 'something else'
    return t


SPACE_PARAMS = dict(fix_text=[True, False], not_after=['(', '¿ $'], not_before=['.', ', .'], extra_not_after=['@', '- $'], extra_not_before=['@', "n't 's"])
FEATS = dict(Degree=['Pos', 'Cmp', 'Sup'], Polarity=['Pos', 'Neg'], Number=['Sing', 'Plur'], Case=['Nom', 'Gen'], Gender=['Masc', 'Fem'], VerbForm=['Inf', 'Fin', 'Part'], Typo=['Yes'])


def plain_words(rng):
    w = W(rng.choice(['Ab', 'ab', 'ČÍ', '_', 'A1', 'İx']), rng.choice(['_', '_', '_', 'old']), rng.choice('PUNCT SYM ADP CCONJ SCONJ PART INTJ X NOUN PROPN ADJ PRON DET NUM VERB AUX ADV'.split()),
          '_', some(rng, {k: v for k, v in FEATS.items() if k != 'Typo'}, 0.3))
    if rng.random() < 0.1:
        w.feats['Typo'] = rng.choice(['Yes', 'No'])
    if w.upos == 'ADJ':   # comparatives and negated adjectives: the comments contradict each other
        w.feats.pop('Degree', None)
        w.feats.pop('Polarity', None)
    if w.form == '_':
        w.lemma = '_'
    return w


def zh_words(rng):
    w = W(rng.choice(list(MEN) + list(CANTO) + '是 不是 沒有 没有 没能 未能 要不要 有没有 亦為 则为 更爲 以為 以爲 吃 不 不不不 好不好 知道不知道 高兴不高 學生 是不是 未'.split()), rng.choice(['_', '_', 'x']),
          rng.choice(['AUX', 'VERB', 'NOUN', 'PRON']), '_', some(rng, dict(Typo=['Yes', 'No'], Polarity=['Pos']), 0.15))
    if rng.random() < 0.3:   # verb-not-verb and near misses
        a, b = rng.choice(['要', '知道', '好', '是']), rng.choice('不没沒未無')
        w.form = a + b + rng.choice([a, a, a + '看', a[:1], '看' + a, b + a, a + b + a])
    if rng.random() < 0.3:
        w.lemma = w.form
    return w


# ---------------------------------------------------------------- periphrastic verb forms of Slavic languages (Phrase* in MISC of the head)
PAST = ('Past', 'Imp', 'Pqp')
HTETI = ('hteti', 'htjeti')
WILL = ('ќе', 'ще')


class V:
    """A word with the children which matter for verb forms."""

    def __init__(self, t, w):
        self.t, self.w, self.f, self.kids = t, w, w.feats.get, t.kids(w)
        self.refl = self.sel(lambda c: c.feats.get('Reflex') == 'Yes' and c.udep == 'expl')
        self.neg = self.sel(lambda c: c.feats.get('Polarity') == 'Neg' and c.upos == 'PART')
        self.prep = self.sel(lambda c: c.upos == 'ADP')
        self.aux = self.dep('aux')
        self.cop = self.dep('cop')
        self.cnd = self.sel(lambda c: c.feats.get('Mood') == 'Cnd' or c.deprel == 'aux:cnd')

    def sel(self, cond):
        return [c for c in self.kids if cond(c)]

    def dep(self, u, **feats):
        return [c for c in self.kids if c.udep == u and all(c.feats.get(k) in (v if isinstance(v, tuple) else (v,)) for k, v in feats.items())]

    def polarity(self, w=None):
        return (w or self.w).feats.get('Polarity') or ('Neg' if self.neg else None)

    def voice(self, w=None):
        return 'Pass' if self.refl and self.refl[0].deprel == 'expl:pass' else (w or self.w).feats.get('Voice', '')

    def reflex(self):
        return 'Yes' if self.refl else self.f('Reflex', '')

    def write(self, members, src=None, take='', **values):
        """take: features copied from the word src (or: from the head)."""
        for k in take.split():
            values[k.lower()] = (src or self.w).feats.get(k, '')
        misc = self.w.misc
        for k, v in values.items():
            key = 'Phrase' + k.capitalize()
            if v == '':
                misc.pop(key, None)
            elif v is not None:
                misc[key] = v
        misc['Phrase'] = sorted({self.t.ord(x) for x in [self.w] + members})


def verbs(fn):
    def model(t, params):
        for w in t.words:
            fn(V(t, w), w, w.feats.get)
    return model


GA = 'Gender Animacy'


def present(v, w, f):
    if f('Tense') == 'Pres' and w.upos == 'VERB' and f('VerbForm') == 'Fin' and not v.sel(lambda c: c.upos == 'AUX' and (c.lemma in WILL or c.feats.get('Mood') == 'Cnd')):
        v.write(v.refl + v.neg, take='Person Number Aspect', tense='Pres', mood='Ind', form='Fin', voice=v.voice(), polarity=v.polarity(), reflex=v.reflex())
        return
    if w.upos == 'ADJ' and f('Voice') == 'Pass':
        aux = [c for c in v.dep('aux', Tense='Pres') if c.lemma not in HTETI]
        if aux and all(c.feats.get('Tense') == 'Pres' for c in v.aux):
            v.write(aux + v.neg, take='Aspect ' + GA, tense='Pres', mood='Ind', form='Fin', voice='Pass', person=aux[0].feats.get('Person', ''), number=aux[0].feats.get('Number', ''),
                    polarity=v.polarity(aux[0]))
            return
    cop = v.dep('cop', Tense='Pres')
    if cop and not v.sel(lambda c: c.upos == 'AUX' and c.feats.get('Tense') != 'Pres'):
        v.write(cop + v.dep('aux', Mood='Ind', Tense='Pres') + v.prep + v.neg + v.refl, cop[0], 'Person Number', tense='Pres', mood='Ind', form='Fin', aspect=f('Aspect', ''),
                voice=v.voice(cop[0]), polarity=v.polarity(cop[0]), reflex=v.reflex())


def past(v, w, f):
    cop = v.dep('cop', Tense=PAST)
    if f('Person') == '0':
        v.write(v.refl + v.neg, take='Tense Person Number Mood Aspect ' + GA, voice='Pass', form=f('VerbForm', ''), polarity=v.polarity(), reflex=v.reflex())
    if f('VerbForm') in ('Part', 'PartRes') and w.upos == 'VERB' and f('Voice') != 'Pass':
        if all(c.udep == 'conj' for c in v.cnd):
            now, then = v.dep('aux', Tense='Pres'), v.dep('aux', Tense=PAST)
            person = then[0].feats.get('Person', '') if then else now[0].feats.get('Person', '') if now else '3'
            v.write(now + then + v.refl + v.neg, take='Number Aspect ' + GA, tense=f('Tense') if f('Tense') in ('Imp', 'Pqp') else 'Past', person=person, mood='Ind', form='Fin', voice=v.voice(),
                    polarity=v.polarity(), reflex=v.reflex())
    elif f('Tense') in PAST and w.upos == 'VERB' and f('VerbForm') != 'Conv':
        if not v.aux:
            v.write(v.refl + v.neg, take='Tense Person Number Aspect ' + GA, mood='Ind', form=f('VerbForm', ''), voice=v.voice(), polarity=v.polarity(), reflex=v.reflex())
    elif w.upos == 'ADJ' and f('Voice') == 'Pass' and not cop:
        then, now = v.dep('aux', Tense=PAST), v.dep('aux', Tense='Pres')
        if then and not v.cnd:
            person = now[0].feats.get('Person', '') if now else '3'
            subj = v.dep('nsubj')
            if subj and subj[0].feats.get('Person'):
                person = subj[0].feats['Person']
            v.write(then + now + v.neg, take='Aspect ' + GA, tense=then[0].feats['Tense'], number=then[0].feats.get('Number', ''), person=person, mood='Ind', voice='Pass', form='Fin', polarity=v.polarity(then[0]))
    elif cop and not v.cnd:
        now = v.dep('aux', Tense='Pres')
        person = '' if cop[0].feats.get('VerbForm') == 'Fin' else now[0].feats.get('Person', '') if now else '3'
        v.write(now + cop + v.prep + v.neg + v.refl, cop[0], 'Aspect Tense Number ' + GA, person=person, mood='Ind', form='Fin', voice=v.voice(cop[0]), polarity=v.polarity(cop[0]), reflex=v.reflex())


def future(v, w, f):
    want = [c for c in v.dep('aux', Tense='Pres') if c.lemma in HTETI]
    if want and w.upos != 'AUX':
        cop = [c for c in v.kids if c.deprel == 'cop']
        v.write(v.refl + v.neg + v.aux + cop + (v.prep if cop else []), take='Voice Aspect ' + GA, tense='Fut', mood='Ind', form='Fin', person=want[0].feats.get('Person', ''),
                number=want[0].feats.get('Number', ''), polarity=v.polarity(), reflex=v.reflex())
        return
    will = [c for c in v.kids if c.lemma in WILL]
    if f('Tense') == 'Pres' and will:
        v.write(v.refl + v.neg + will, take='Person Number Voice Aspect', tense='Fut', mood='Ind', form='Fin', polarity=v.polarity(), reflex=v.reflex())
        return
    if w.upos in ('VERB', 'ADJ'):
        aux = v.dep('aux', Tense='Fut')
        if aux:
            v.write(aux + v.refl + v.neg, take='Aspect ' + GA, tense='Fut', mood='Ind', form='Fin', person=aux[0].feats.get('Person', ''), number=aux[0].feats.get('Number', ''), voice=v.voice(),
                    polarity=v.polarity(aux[0]), reflex=v.reflex())
            return
        if f('Tense') == 'Fut':
            v.write(v.refl + v.neg, take='Person Number Aspect', tense='Fut', mood='Ind', form='Fin', voice=v.voice(), polarity=v.polarity(), reflex=v.reflex())
            return
    cop = v.dep('cop', Tense='Fut')
    if cop:
        v.write(cop + v.dep('aux', Mood='Ind') + v.prep + v.neg + v.refl, cop[0], 'Person Number', tense='Fut', mood='Ind', form='Fin', voice=v.voice(cop[0]), polarity=v.polarity(cop[0]))


def conditional(v, w, f):
    if f('VerbForm') in ('Part', 'PartRes', 'Fin') and v.cnd and not v.cop:
        v.write(v.aux + v.cnd_mood() + v.refl + v.neg, take='Number Aspect ' + GA, person=v.cnd[0].feats.get('Person') or '3', mood='Cnd', form='Fin', voice=v.voice(), polarity=v.polarity(), reflex=v.reflex())
        return
    cop = v.dep('cop', VerbForm=('Part', 'Fin'))
    if cop and v.cnd:
        v.write([c for c in v.aux + v.cnd_mood() if c.udep != 'cop'] + cop + v.neg + v.prep + v.refl, cop[0], 'Aspect Person Number ' + GA, mood='Cnd', form='Fin', voice=v.voice(cop[0]),
                polarity=v.polarity(cop[0]), reflex=v.reflex())


V.cnd_mood = lambda self: self.sel(lambda c: c.feats.get('Mood') == 'Cnd')


def converb(v, w, f):
    if f('VerbForm') == 'Conv' and w.upos == 'VERB':
        v.write(v.refl + v.neg, take='Person Number Tense Aspect ' + GA, form='Conv', voice=v.voice(), polarity=v.polarity(), reflex=v.reflex())
    elif w.upos == 'ADJ':
        aux = v.dep('aux', VerbForm='Conv')
        if aux:
            v.write(aux + v.neg, aux[0], 'Person Number Tense ' + GA, form='Conv', aspect=f('Aspect', ''), voice='Pass', polarity=v.polarity(aux[0]))
    else:
        cop = v.dep('cop', VerbForm='Conv')
        if cop:
            v.write(cop + v.prep + v.neg + v.refl, cop[0], 'Person Number Tense ' + GA, form='Conv', voice=v.voice(cop[0]), polarity=v.polarity())


def imperative(v, w, f):
    if f('Mood') == 'Imp' and w.upos == 'VERB':
        v.write(v.refl + v.neg, take='Person Number Aspect', mood='Imp', form='Fin', voice='Act', polarity=v.polarity(), reflex=v.reflex())
        return
    aux = v.dep('aux', Mood='Imp')
    if w.upos == 'ADJ' and f('Voice') == 'Pass' and aux:
        v.write(aux + v.neg, take='Aspect ' + GA, mood='Imp', form='Fin', voice='Pass', person=aux[0].feats.get('Person', ''), number=aux[0].feats.get('Number', ''), polarity=v.polarity())
        return
    cop = v.dep('cop', Mood='Imp')
    if cop:
        v.write(cop + v.prep + v.neg + v.refl, cop[0], 'Person Number', mood='Imp', form='Fin', voice=v.voice(cop[0]), polarity=v.polarity(), reflex=v.reflex())


def infinitive(v, w, f):
    if f('VerbForm') == 'Inf' and w.upos == 'VERB' and not v.aux:
        v.write(v.refl + v.neg, take='Aspect', form='Inf', voice='Pass' if v.refl and v.refl[0].deprel == 'expl:pass' else 'Act', polarity=v.polarity(), reflex=v.reflex())
        return
    aux = v.dep('aux', VerbForm='Inf')
    if w.upos == 'ADJ' and f('Voice') == 'Pass' and aux and len(aux) == len(v.aux):
        v.write(aux + v.neg + v.refl, take='Aspect Number ' + GA, form='Inf', voice='Pass', polarity=v.polarity(aux[0]), reflex=v.reflex())
        return
    cop = v.dep('cop', VerbForm='Inf')
    if cop and not v.aux:
        v.write(cop + v.prep + v.neg + v.refl, form='Inf', voice=v.voice(cop[0]), polarity=v.polarity(cop[0]), reflex=v.reflex())
    if f('VerbForm') == 'Sup':
        v.write(v.refl + v.neg, take='Aspect', form='Sup', voice='Act', polarity=v.polarity(), reflex=v.reflex())


def preprocess(t, params):
    for w in t.words:
        f = w.feats
        if (w.upos == 'VERB' or w.upos == 'AUX' and f.get('VerbForm') == 'Fin') and not f.get('Voice'):
            f['Voice'] = 'Act'
        if w.upos == 'VERB' and f.get('Case'):
            w.upos = 'ADJ'
        if w.deprel == 'aux:cnd':
            f['Mood'] = 'Cnd'
        if f.get('Polarity') == 'Pos':
            del f['Polarity']
        will = [c for c in t.kids(w) if c.lemma in WILL]
        if f.get('Tense') == 'Pres' and len(will) == 1:
            will[0].feats['Tense'] = 'Fut'
        if f.get('Gender') in ('Fem,Neut', 'Fem,Masc'):
            subj = [c for c in t.kids(w) if c.udep == 'nsubj']
            if len(subj) == 1 and not any(c.deprel == 'conj' for c in t.kids(subj[0])):
                for k in ('Gender', 'Number'):
                    f[k] = subj[0].feats.get(k, '')
        if w.upos == 'VERB' and f.get('Voice') == 'Pass':
            w.upos = 'ADJ'
        if w.deprel in ('expl:pv', 'expl:pass', 'expl:impers'):
            f['Reflex'] = 'Yes'
        if w.deprel == 'expl:pv' and w.lemma == 'ми' and f.get('PronType') == 'Prs':
            w.deprel = 'iobj'
        if f.get('Mood') == 'Sub':
            f['Mood'] = 'Cnd'


def slavic(rng):
    """A clause: a verb, participle or nonverbal predicate with auxiliaries, copulas and particles among its children."""
    feats = dict(Tense=['Pres', 'Past', 'Fut', 'Imp', 'Pqp'], VerbForm=['Fin', 'Part', 'Inf', 'Conv', 'PartRes', 'Sup'], Mood=['Ind', 'Cnd', 'Imp', 'Sub'], Person=['1', '2', '3', '0'], Number=['Sing', 'Plur'],
                 Gender=['Masc', 'Fem', 'Fem,Neut', 'Fem,Masc'], Animacy=['Anim'], Aspect=['Perf', 'Imp'], Voice=['Act', 'Pass', 'Pass'], Polarity=['Neg', 'Pos'], Reflex=['Yes'])

    def make(rng):
        kind = rng.random()
        w = W('x', rng.choice(['x', 'být', 'ми']), 'NOUN', '_', {}, 'dep')
        if kind < 0.4:
            w.upos, w.feats, w.deprel = rng.choice(['VERB', 'ADJ', 'VERB', 'ADJ', 'NOUN', 'AUX']), some(rng, feats), rng.choice(['conj', 'advcl', 'xcomp', 'conj:x'])
            if rng.random() < 0.1:
                w.feats['Case'] = 'Nom'
        elif kind < 0.7:
            w.upos, w.feats, w.deprel = 'AUX', some(rng, feats, 0.6), rng.choice(['aux', 'aux', 'aux:pass', 'aux:cnd', 'cop', 'cop', 'cop:x'])
            w.lemma = rng.choice(['být', 'být', 'hteti', 'htjeti', 'ќе', 'ще'])
        elif kind < 0.78:
            w.upos, w.feats, w.deprel = 'PRON', {'Reflex': 'Yes'} if rng.random() < 0.8 else {'PronType': 'Prs'}, rng.choice(['expl', 'expl:pass', 'expl:pv', 'expl:impers', 'obj'])
        elif kind < 0.86:
            w.upos, w.feats, w.deprel = 'PART', some(rng, dict(Polarity=['Neg', 'Neg', 'Pos']), 0.8), 'advmod'
        elif kind < 0.93:
            w.upos, w.deprel = rng.choice(['NOUN', 'PRON']), rng.choice(['nsubj', 'nsubj', 'nsubj:pass', 'obj'])
            w.feats = some(rng, dict(Person=['1', '3'], Gender=['Masc', 'Fem'], Number=['Sing']), 0.6)
        else:
            w.upos, w.deprel = 'ADP', 'case'
        return w
    t = sentence(rng, make, 2, 8, chain=0.3)
    hub = next(w for w in t.words if w.parent is t.root)
    if rng.random() < 0.7:
        hub.upos, hub.feats = rng.choice(['VERB', 'ADJ', 'NOUN']), some(rng, feats)
        for w in t.words:
            if w is not hub and rng.random() < 0.6:
                w.parent = hub
    if rng.random() < 0.6:   # the forms which come together
        theme = rng.choice([dict(Tense='Pres', VerbForm='Fin'), dict(Tense='Pres', Mood='Ind', VerbForm='Fin'), dict(VerbForm='Part', Mood='Cnd'), dict(VerbForm='Conv'), dict(Mood='Imp'), dict(Tense='Fut'), dict(VerbForm='Inf'),
                            dict(VerbForm='Part', Tense='Past')])
        for w in t.words:
            if w.upos in ('VERB', 'ADJ', 'AUX') and rng.random() < 0.7:
                w.feats.update(theme)
                if w.upos == 'ADJ' and rng.random() < 0.6:
                    w.feats['Voice'] = 'Pass'
                if w.upos == 'VERB' and rng.random() < 0.3:
                    w.feats.pop('Mood', None)
                    w.feats.pop('Voice', None)
    elif rng.random() < 0.6:   # several auxiliaries, copulas or subjects which differ
        for w in t.kids(hub):
            if rng.random() < 0.6:
                w.upos, w.deprel, w.lemma = 'AUX', rng.choice(['aux', 'aux', 'cop', 'aux:pass']), rng.choice(['být', 'být', 'htjeti'])
                w.feats = dict(some(rng, dict(Number=['Sing', 'Plur'], Gender=['Masc', 'Fem'], Aspect=['Perf', 'Imp'], Mood=['Ind', 'Ind', 'Cnd', 'Imp'], VerbForm=['Fin', 'Part', 'Inf', 'Conv'], Polarity=['Neg'], Voice=['Act', 'Pass'])),
                               Tense=rng.choice(['Pres', 'Past', 'Pqp', 'Fut', 'Imp']), Person=rng.choice('123'))
        hub.upos, hub.feats = rng.choice([('VERB', {'VerbForm': 'Part'}), ('VERB', {'VerbForm': 'Part', 'Tense': 'Past'}), ('ADJ', {'Voice': 'Pass'}), ('NOUN', {}), ('VERB', {'VerbForm': 'Inf'}), ('ADJ', {})])
        hub.feats = {**some(rng, dict(Number=['Sing', 'Plur'], Gender=['Masc', 'Fem'], Aspect=['Perf', 'Imp'], Person=['1'])), **hub.feats}
    return t


# ---------------------------------------------------------------- punctuation, pseudo-copulas, German tokens, files of CorefUD
PUNCT = {**dict.fromkeys('()[]{}', 'Brck'), '.': 'Peri', '...': 'Elip', '…': 'Elip', ',': 'Comm', ';': 'Semi', ':': 'Colo', '/': 'Colo', **dict.fromkeys('!¡', 'Excl'), **dict.fromkeys('?¿', 'Qest'),
         **dict.fromkeys('-–—', 'Dash'), **dict.fromkeys('"\'`“”„‘’‚«»‹›《》「」『』', 'Quot')}
SIDE = {**dict.fromkeys('([{¡¿《「『', 'Ini'), **dict.fromkeys(')]}!?》」』', 'Fin')}


def puncttype(t, params):
    for w in t.words:
        for key, table in (('PunctType', PUNCT), ('PunctSide', SIDE)):
            w.feats[key] = table.get(w.form, '') if w.upos == 'PUNCT' else ''


def pseudocop(t, params):
    for w in list(t.words):
        if w.lemma in params['lemmas'].split(','):
            if w.udep == 'cop' or params.get('noncopaux') and w.udep == 'aux':
                w.upos = 'VERB'
                promote(t, w, HIMOVED)
            elif params.get('noncopaux') and w.upos == 'AUX':
                w.upos = 'VERB'


HDT = {'a.': 'an', 'am': 'an', 'ans': 'an', 'aufs': 'auf', 'beim': 'bei', 'durchs': 'durch', 'fürs': 'für', 'hinterm': 'hinter', 'hinters': 'hinter', 'im': 'in', 'ins': 'in', 'übers': 'über', 'ums': 'um',
       'unterm': 'unter', 'unters': 'unter', 'vom': 'von', 'vorm': 'vor', 'vors': 'vor', 'z.': 'zu', 'zum': 'zu', 'zur': 'zu'}
ARTICLE = {'m': ('dem', 'Dat', 'Masc,Neut'), '.': ('dem', 'Dat', 'Masc,Neut'), 's': ('das', 'Acc', 'Neut'), 'r': ('der', 'Dat', 'Fem')}


def hdt(t, params):
    for w in list(t.words):
        form = w.form
        if not (w.upos == 'ADP' and w.feats.get('PronType') == 'Art' and form.lower() in HDT):
            continue
        art, case, gender = ARTICLE[form[-1].lower()]
        prep = HDT[form.lower()]
        d = W(art.upper() if form.isupper() else art, 'der', 'DET', 'ART', dict(Case=case, Definite='Def', Gender=gender, Number='Sing', PronType='Art'), 'det')
        d.parent = w
        if w.udep not in ('root', 'conj', 'reparandum'):
            d.parent, w.deprel = w.parent, 'case'
        t.words.insert(t.ord(w), d)
        t.mwts.append([[w, d], form, dict(w.misc)])
        t.mwts.sort(key=lambda m: t.ord(m[0][0]))
        w.misc = {}
        w.form = prep.upper() if form.isupper() else prep.capitalize() if form[0].isupper() else prep
        w.lemma, w.xpos, w.feats = prep, 'APPR', dict(AdpType='Prep', Case=case)


ORDINALS = 'erst zweit dritt viert fünft sechst siebt neunt zehnt dreizehnt vierzehnt fünfzehnt sechszehnt siebzehnt achtzehnt neunzehnt sechszehnt elft zwölft'.split()


def gsd(t, params):
    def ordinal(w, keep):
        w.upos, w.xpos = 'ADJ', 'ADJA'
        w.feats = {**(w.feats if keep else {}), 'NumType': 'Ord'}
        if not keep:
            w.lemma = w.form
        if w.udep == 'nummod':
            w.deprel = 'amod'
    digits = lambda x: x.isascii() and x.isdigit()
    for w in list(t.words):
        before = t.prev(w)
        if w.form == '.' and w is not t.words[-1] and before is not None and digits(before.form) and before.misc.get('SpaceAfter') == 'No':
            above = before.parent
            while above is not None and above is not w:
                above = above.parent
            if above is w:
                before.parent, before.deprel = w.parent, w.deprel
            for c in t.kids(w):
                c.parent = before
            before.misc['SpaceAfter'] = w.misc.get('SpaceAfter', '')
            before.form += '.'
            t.words.remove(w)
            ordinal(before, False)
            continue
        if w.form.endswith('.') and digits(w.form[:-1]):
            ordinal(w, False)
        stem = w.lemma[:-2] if w.lemma.lower().endswith('er') else w.lemma
        if stem.lower() in ORDINALS and not (w.lemma == 'erst' and w.upos == 'ADV'):
            w.lemma = stem
            ordinal(w, True)


def german(rng):
    w = maker(forms=['3', '14', '.', '.', '3.', 'x', '14.', '..', 'x.'], lemmas=ORDINALS + ['erster', 'Zehnter', 'Dritt', 'x', '.', 'acht', 'acht', 'achter', 'er', 'zwanzigst'], upos=['NUM', 'ADV', 'ADJ', 'PUNCT', 'NOUN'],
              feats=dict(Case=['Nom'], NumType=['Card']), deprels=['nummod', 'nummod', 'nummod:gov', 'punct', 'dep'], misc=dict(SpaceAfter=['No', 'No'], Gloss=['x']))(rng)
    if w.form in ('3', '14') and rng.random() < 0.7:
        w.misc['SpaceAfter'] = 'No'
    if w.form != 'x' and w.form != 'x.' and rng.random() < 0.9:
        w.lemma = w.form
    if w.upos == 'ADV' and w.lemma.lower() in ('erster',):
        w.upos = 'ADJ'
    return w


def concat(t, params):
    for w in t.words:
        for key in sorted(w.misc, key=lambda x: x.lower()):
            name, bracket, index = key.partition('[')
            if name.startswith('MentionMisc_'):
                whole = 'MentionMisc' + bracket + index
                item = name.partition('_')[2] + ':' + w.misc.pop(key).replace(',', '%2C')
                w.misc[whole] = w.misc[whole] + ',' + item if w.misc.get(whole) else item


def tovalidate(ts, params):
    for t in ts:
        for w in t.words:
            if w.parent is t.root:
                w.deprel = 'root'
    for t in ts:
        for w in list(t.words):
            up = w.parent
            if w.deprel == 'root' and up is not t.root:
                if up.upos == 'PUNCT' and up.parent is not t.root:   # a child of the technical root has to stay root
                    w.parent = up.parent
                w.deprel = 'cc' if w.upos == 'CCONJ' else 'amod' if w.upos == 'ADJ' and up.upos == 'PROPN' else 'obl' if w.upos == 'NOUN' and up.upos == 'VERB' else 'parataxis'
    for t, after in zip(ts, ts[1:]):
        if after.start:
            t.words[-1].misc.pop('SpaceAfter', None)


tovalidate.whole = True


def corefud(rng):
    t = sentence(rng, maker(upos=['CCONJ', 'ADJ', 'PROPN', 'NOUN', 'VERB', 'PUNCT', 'PUNCT', 'DET'], deprels=['root', 'root', 'root:x', 'dep', 'obl'], misc=dict(SpaceAfter=['No'])), 1, 6)
    for w in t.words:
        if w.parent is t.root and rng.random() < 0.5:
            w.deprel = 'dep'
    if rng.random() < 0.4:
        t.words[-1].misc['SpaceAfter'] = 'No'
    t.start = rng.choice([None, None, 'newpar', 'newdoc id = d%d' % rng.randint(1, 10**9), 'newpar id = p1'])
    return t


ES = 'comer Comprar ir oír comiendo ENTIENDO entiendo hablando hablado habladas Comida comidos abierto dicho fecha satisfecho hecha muertos puesta vistas vista dos todo ad es a s lado contar quiero'.split()
UPOS3 = ['ADP', 'CONJ', 'PART', 'PUNCT', 'NOUN', 'PRON', 'ADJ', 'VERB', 'ADV']
M = maker
TABLE = {
    'ud.kk.fixspuriousaux FixSpuriousAux': (spurious(KK, True), lambda r: sentence(r, M(lemmas=KK + ['бол', 'бастау', 'кету'], upos=['AUX', 'AUX', 'VERB'], deprels=['aux', 'aux:x'] + SOME), 2, deps=0.2, mwts=0.1), {}),
    'ud.ug.fixspuriousaux FixSpuriousAux': (spurious(UG, False), lambda r: sentence(r, M(lemmas=UG + ['ئى', 'كەل'], upos=['AUX', 'VERB', 'NOUN'], deprels=['aux', 'aux:x'] + SOME), 2, mwts=0.1), {}),
    'ud.hi.fixaux FixAux': (hindi, lambda r: sentence(r, hiword, 2, mwts=0.1), {}),
    'ud.es.fixtenerque FixTenerQue': (tener, lambda r: sentence(r, M(forms=['que', 'a', 'Que', 'A', 'tiene', 'en'], lemmas=['tener', 'ir', 'tener', 'irse', 'que'], upos=['AUX', 'AUX', 'VERB', 'SCONJ'],
                                                                   deprels=['aux', 'aux', 'aux:tense', 'mark', 'fixed', 'obj'] + SOME), 2, labels=SOME, deps=0.7), {}),
    'ud.ru.fixtoest FixToEst': (toest, lambda r: toest_sentence(r), {}),
    'ud.he.fixneg FixNeg': (heneg, lambda r: sentence(r, M(upos=['VERB', 'ADV', 'PRON'], feats=dict(VerbType=['Cop', 'Cop', 'Mod'], Polarity=['Neg']), deprels=['neg', 'neg', 'neg:x', 'advmod'], misc=dict(ToDo=['neg', 'other']))), {}),
    'ud.ro.fixneg FixNeg': (roneg, lambda r: sentence(r, M(forms=['ne', 'nu', 'Ne'], upos=['PRON', 'ADJ', 'ADV', 'PART'], feats=dict(Case=['Acc'], Polarity=['Neg', 'Pos'], Person=['1']), deprels=['neg', 'neg', 'neg:x', 'advmod'])), {}),
    'ud.ga.to2 To2': (irish, lambda r: sentence(r, M(lemmas=['ag', 'ag', 'a', 'x'], upos=['PRON', 'ADP', 'NOUN'], xpos=['Abr', 'Cop', 'Foreign', 'Noun', '_'],
                                                     feats=dict(Case=['Com', 'Gen'], Form=['Emph', 'Len', 'Emph'], VerbForm=['Inf', 'Vnoun', 'Ger', 'Part'], PronType=['Prs']),
                                                     deprels=['nmod:prep', 'nmod:tmod', 'nmod', 'obl', 'nmod:prep'], misc=dict(ToDo=['nmod', 'x-nmod', 'other']))), {}),
    'ud.gl.to2 To2': (galician, lambda r: sentence(r, M(lemmas=['ser', 'estar', 'quedar', 'x'], upos=UPOS3, deprels=['cop', 'cop', 'case', 'case', 'punct', 'punct', 'cop:x', 'nsubj', 'obj'])), {}),
    'ud.basic2enhanced Basic2Enhanced': (enhanced, lambda r: sentence(r, M(), labels=['nsubj', 'obl:arg', 'dep'], deps=0.5, mwts=0.1), {}),
    'ud.lemmatize Lemmatize': (lemmatize, lambda r: sentence(r, plain_words), {}),
    'ud.zh.lemmatize Lemmatize': (chinese, lambda r: sentence(r, zh_words), dict(rewrite=['empty', 'form', 'all'])),
    'ud.yue.lemmatize Lemmatize': (cantonese, lambda r: sentence(r, zh_words), {}),
    'ud.es.fixverbfeats FixVerbFeats': (esverbs, lambda r: sentence(r, M(forms=ES, lemmas=['x'], upos=['VERB', 'AUX', 'VERB', 'ADJ'], feats=dict(Gender=['Masc', 'Fem'], Number=['Sing', 'Plur'], VerbForm=['Fin'], Mood=['Ind']))), {}),
    'ud.es.elque ElQue': (elque(['que', 'cual']), lambda r: relative(r), dict(fix=[1, 1, 0])),
    'ud.ca.elque ElQue': (elque(['que']), lambda r: relative(r), dict(fix=[1, 1, 0])),
    'ud.da.fixmultisubject FixMultiSubject': (danish, lambda r: subjects(r), {}),
    'ud.es.fixexclamation FixExclamation': (exclamation, lambda r: sentence(r, M(forms=['¡Hola', 'Yahoo!', '¡Hola!', '!ja', 'a¡', '!', '¡', '!!', 'a!b', '¡¡x', 'x!!', '¡é!', 'no'], misc=dict(SpaceAfter=['No'], Gloss=['y']))), {}),
    'ud.bg.removedotafterabbr RemoveDotAfterAbbr': (bulgarian, lambda r: dotted(r), {}),
    'ud.pt.addhyphenmwt AddHyphenMwt': (portuguese, lambda r: hyphened(r), {}),
    'ud.mr.addformsinmwt AddFormsInMwt': (marathi, marathi_sentence, {}),
    'ud.setspaceafter SetSpaceAfter': (spaces(), spaced, SPACE_PARAMS),
    'ud.en.setspaceafter SetSpaceAfter': (spaces(en_extra), spaced, SPACE_PARAMS),
    'ud.ro.setspaceafter SetSpaceAfter': (spaces(ro_extra), spaced, SPACE_PARAMS),
}


def toest_sentence(rng):
    t = sentence(rng, maker(lemmas=['то', 'то', 'быть', 'это'], deprels=['mark', 'mark', 'fixed', 'fixed', 'cc', 'mark:x']), 2, labels=['mark', 'cc', 'dep'], deps=0.7)
    for a in t.words:
        for b in t.kids(a):
            if rng.random() < 0.4 and a.udep != 'root':
                a.lemma, b.lemma, b.deprel = 'то', 'быть', rng.choice(['fixed', 'fixed', 'fixed', 'fixed:x', 'dep'])
                a.deprel = rng.choice(['mark', 'mark', 'mark:x', 'advmod'])
    return t


def subjects(rng):
    t = sentence(rng, maker(forms=[',', 'x', 'y', 'z'], deprels='nsubj nsubj csubj:x nsubj xcomp advcl amod obl cop cop obj advmod'.split()), 4, rng.choice([7, 10, 18]), chain=0.2)
    node = rng.choice(t.words)
    for w in t.words:
        try:
            if w is not node and rng.random() < 0.5:
                t.hang(w, node)
        except CycleError:
            pass
    kids = [w for w in t.kids(node)]
    rng.shuffle(kids)
    kind = rng.choice([['xcomp'], ['xcomp', 'xcomp:x'], ['advcl'], ['amod', 'obl'], ['obl:x'], ['advcl', 'obl']])
    for k, w in enumerate(kids):
        if w.udep != 'root':
            w.deprel = 'nsubj' if k == 0 else rng.choice(['nsubj', 'csubj']) if k == 1 else rng.choice(kind) if k < 4 else rng.choice(['obj', 'advmod', 'punct', 'nsubj', 'xcomp'])
    for w in kids[2:4]:
        for c in t.kids(w)[:1]:
            c.deprel = rng.choice(['cop', 'cop', 'aux'])
    return t


def relative(rng):
    make = maker(forms=['x'], lemmas=['x', 'el', 'y'], upos=['VERB', 'NOUN', 'ADP', 'DET'], deprels='nsubj csubj ccomp advcl acl acl:relcl xcomp conj appos obj obl fixed cc mark case punct det'.split())
    t = sentence(rng, make, 4, 9, labels=['nsubj', 'obl', 'acl'], deps=0.6)
    for _ in range(rng.randint(1, 2)):
        k = rng.randint(1, len(t.words) - 2)
        adp, el, que = (t.words[k - 2] if k > 1 else None), t.words[k - 1], t.words[k]
        el.lemma = rng.choice(['el', 'el', 'el', 'lo'])
        que.lemma, que.upos = rng.choice(['que', 'que', 'cual']), rng.choice(['PRON', 'PRON', 'PRON', 'SCONJ'])
        if rng.random() < 0.7 and k + 1 < len(t.words):
            verb = rng.choice(t.words[k + 1:])
            for w, ps in ((que, [verb]), (el, [que, verb, None]), (adp, [el, que, verb, None])):
                p = rng.choice(ps)
                if w is not None and p is not None:
                    try:
                        if w.udep == 'root':
                            raise CycleError('%s %s', w, p)
                        t.hang(w, p)
                    except CycleError:
                        pass
        if adp is not None and rng.random() < 0.6:
            adp.upos = 'ADP'
            if adp.udep != 'root' and rng.random() < 0.7:
                adp.deprel = rng.choice(['case', 'fixed', 'case'])
    return t


def dotted(rng):
    t = sentence(rng, maker(forms=['г.', 'a', '.', '...', 'т.', 'x']), 1, 6)
    if rng.random() < 0.8:
        t.words[-1].form = '.'
    if len(t.words) > 1 and rng.random() < 0.7:
        t.words[-2].form = rng.choice(['г.', 'г.', '.', 'a'])
    t.text = t.plain() if t.text is not None else None
    if rng.random() < 0.6:
        t.text = (' '.join(w.form for w in t.words[:-1]) + rng.choice(['', '', '', '.', ' .'])).strip() or 'x'
    return t


def hyphened(rng):
    t = sentence(rng, maker(forms=['-', 'guarda', 'chuva', 'al', 'Al', 'b', '!', '10']), 2, 10, text=0.6)
    for k in range(1, len(t.words), 2):
        if rng.random() < 0.7:
            t.words[k].form = '-'
        if t.words[k - 1].form == '-' and rng.random() < 0.7:
            t.words[k - 1].form = 'c'
    if rng.random() < 0.6:   # flat compounds: each word hangs on the first word of its run
        first = None
        for k, w in enumerate(t.words):
            if first is None:
                first = w
                w.parent = t.root if k == 0 else t.words[0]
                w.deprel = 'root' if k == 0 else 'dep'
            else:
                w.parent, w.deprel = rng.choice([first, first, first, t.words[k - 1]]), 'dep'
                if rng.random() < 0.3 and w.form != '-':
                    first = None
    return t


for _name, _fn in dict(present=present, past=past, future=future, conditional=conditional, converb=converb, imperative=imperative, infinitive=infinitive).items():
    TABLE[f'msf.slavic.{_name} {_name.capitalize()}'] = (verbs(_fn), slavic, {})
TABLE['msf.slavic.preprocessor Preprocessor'] = (preprocess, slavic, {})
TABLE.update({
    'ud.addpuncttype AddPunctType': (puncttype, lambda r: sentence(r, M(forms=list(PUNCT) + ['x', '!!', '..', '*', '~', '', '〉'][:5], upos=['PUNCT', 'PUNCT', 'SYM', 'NOUN'],
                                                                           feats=dict(PunctType=['Dash'], PunctSide=['Ini', 'Fin'], Case=['Nom']))), {}),
    'ud.fixpseudocop FixPseudoCop': (pseudocop, lambda r: sentence(r, M(lemmas=['stay', 'seem', 'become', 'be'], upos=['AUX', 'AUX', 'VERB'], deprels=['cop', 'cop', 'aux', 'aux:pass', 'cop:x'] + HISAFE), 2, mwts=0.1),
                                     dict(lemmas=['stay,seem', 'become', 'be,stay'], noncopaux=[True, 1])),
    'ud.de.fixhdt FixHDT': (hdt, lambda r: sentence(r, M(forms=[c(x) for x in HDT for c in (str, str.upper, str.capitalize)] + ['an', 'imm'], upos=['ADP', 'ADP', 'ADP', 'DET'], xpos=['APPRART', '_'],
                                                         feats=dict(PronType=['Art', 'Art', 'Art', 'Prs'], Case=['Dat', 'Acc']), deprels=['case', 'conj', 'reparandum', 'root:x', 'mark', 'conj:x'], misc=dict(SpaceAfter=['No'])), text=0.4), {}),
    'ud.de.fixgsd FixGSD': (gsd, lambda r: sentence(r, german, 1, 9, text=0.4), {}),
    'corefud.concatmentionmisc ConcatMentionMisc': (concat, lambda r: sentence(r, M(misc={'MentionMisc_a': ['1', 'x,y'], 'MentionMisc_b': ['2', 'p:q'], 'MentionMisc_a[1]': ['z'], 'MentionMisc_c_d[1]': ['w,'], 'MentionMisc_b[12]': ['v'],
                                                                                        'MentionMisc': ['old:1'], 'Gloss': ['g']})), {}),
    'corefud.fixtovalidate FixToValidate': (tovalidate, corefud, {}),
})
# ---------------------------------------------------------------- the Google treebank
GDEPREL = {
    'ROOT': 'root', 'prep': 'case', 'ncomp': 'case:loc', 'p': 'punct', 'poss': 'nmod:poss', 'ps': 'case', 'num': 'nummod', 'number': 'nummod', 'tmod': 'nmod:tmod', 'vmod':
    'acl', 'rcmod': 'acl:relcl', 'npadvmod': 'advmod', 'preconj': 'cc:preconj', 'predet': 'det:predet', 'gobj': 'obj', 'postneg': 'neg', 'pronl': 'obj', 'oblcomp': 'obl',
    'mes': 'clf', 'mwn': 'compound:n', 'mwa': 'compound:a', 'mwv': 'compound:v', 'asp': 'aux', 'rcmodrel': 'mark:relcl', 'auxcaus': 'aux', 'topic': 'dep', 'possessive':
    'case', 'quantmod': 'det', 'agent': 'obl:agent', 'conjv': 'compound:conjv', 'advphmod': 'advmod', 'clas': 'clf', 'narg': 'nmod:arg'
}
GFEATS = {
    'proper=false': '', 'Proper=false': '', 'case=prep': '', 'case=unsp_c': '', 'gender=unsp_g': '', 'gender_antecedent=unsp_g': '', 'voice=unsp_v': '', 'number=unsp_n': '',
    'number_antecedent=unsp_n': '', 'tense=unsp_t': '', 'mood=unsp_m': '', 'animacy=unsp_r': '', 'aspect=unsp_a': '', 'case=rel': '', 'reciprocity=non-rcp': '',
    'reciprocity=rcp': 'PronType=Rcp', 'aspect=imperf': 'Aspect=Imp', 'form=long': 'Variant=Long', 'form=short': 'Variant=Short', 'person=reflex': 'Reflex=Yes',
    'case=reflex': 'Reflex=Yes', 'case=dir': 'Case=Nom', 'gender=pl_tantum': 'Number=Ptan', 'gender_antecedent=fem_a': 'Gender[psor]=Fem', 'gender_antecedent=masc_a':
    'Gender[psor]=Masc', 'gender_antecedent=neut_a': 'Gender[psor]=Neut', 'number_antecedent=sing_a': 'Number[psor]=Sing', 'number_antecedent=plur_a': 'Number[psor]=Plur',
    'person_antecedent=1_a': 'Person[psor]=1', 'person_antecedent=2_a': 'Person[psor]=2', 'person_antecedent=3_a': 'Person[psor]=3', 'definiteness=def': 'Definite=Def',
    'definiteness=indef': 'Definite=Ind', 'mood=sub1': 'Mood=Sub|Tense=Pres', 'mood=sub2': 'Mood=Sub|Tense=Past', 'mood=inter': 'PronType=Int', 'tense=cnd': 'Mood=Cnd',
    'degree=sup_a': 'Degree=Abs', 'degree=sup_r': 'Degree=Sup', 'case=obl': 'Case=Acc', 'tense=impf': 'Tense=Imp', 'animacy=rat': 'Animacy=Hum', 'animacy=irrat':
    'Animacy=Nhum', 'honorific=hon': 'Polite=Form', 'mood=psm': 'Tense=Fut', 'form=fin': 'VerbForm=Fin', 'form=ger': 'VerbForm=Ger', 'formality=fml': 'Polite=Form',
    'Evidentiality=Nfh': 'Evident=Nfh', 'Evidentiality=Fh': 'Evident=Fh'
}
DAYS = 'lundi mardi mercredi jeudi vendredi samedi dimanche janvier février mars avril mai juin juillet août septembre octobre novembre décembre'.split()
G_LANGS = 'unk ar de en es fr hi id it ja pt ru zh th'.split()


def todo(w, what):
    old = w.misc.get('ToDo')
    if not old:
        w.misc['ToDo'] = what
    elif what not in old:
        w.misc['ToDo'] = old + ',' + what


def google(t, params):
    """The part of ud.Google2ud which is not done by other blocks; those run afterwards (google.rest)."""
    lang = params['lang']
    t.comments = t.comments[2:3] if lang != 'en' else []
    # words cut in pieces
    if lang in ('de', 'fr', 'it', 'pt', 'ru'):
        glued = lambda w: w is not None and w.misc.get('SpaceAfter') == 'No'
        for k, w in enumerate(t.words):
            if w.form == '-' and glued(w) and glued(t.prev(w)):
                if 'goeswith' in (t.words[k - 1].deprel, t.words[k + 1].deprel):
                    w.deprel = 'goeswith'
                if lang == 'fr':
                    w.deprel = 'goeswith'
                    t.hang(w, t.words[k + 1])
        for w in list(t.words):
            if w.deprel != 'goeswith':
                continue
            k = t.ord(w) - 1
            right = k < t.ord(w.parent) - 1
            other = t.words[k + 1] if right else t.words[k - 1]
            if glued(w if right else other) and (lang != 'de' or other.form in ('.', "'")):
                if lang == 'de':
                    other.upos = w.upos
                if right:
                    other.form = w.form + other.form
                else:
                    other.form += w.form
                    other.misc['SpaceAfter'] = w.misc.get('SpaceAfter', '')
                if other.parent is w:
                    other.parent = w.parent
                for c in t.kids(w):
                    t.hang(c, other)
                other.feats = {**w.feats, **other.feats}
                t.words.remove(w)
            elif lang in ('de', 'pt'):
                w.deprel = 'compound'
    # prepositions under prepositions
    for w in t.words:
        lo = w.parent
        if w.deprel not in ('pobj', 'pcomp') or lo.deprel not in ('pobj', 'pcomp') or lo.parent.deprel != 'prep':
            continue
        hi = lo.parent
        if abs(t.ord(lo) - t.ord(hi)) > 1:
            lo.parent, lo.deprel = hi.parent, 'prep'
        elif lang == 'pt' or lang == 'es' and lo.form in ('entre', 'en', 'a'):
            w.parent = hi
            t.hang(lo, w)
            lo.deprel = 'case'
        elif lang == 'es' and lo.form == 'para':
            w.parent, w.deprel = hi.parent, 'obj'
            for x in (lo, hi):
                x.deprel = 'mark'
                t.hang(x, w)
        else:
            if t.ord(lo) < t.ord(hi):
                first, second = lo, hi
                lo.parent = hi.parent
                t.hang(hi, lo)
            else:
                first, second = hi, lo
            for c in t.kids(second):
                t.hang(c, first)
            second.deprel = 'fixed'
            if not (lang == 'es' and lo.form == 'par'):
                todo(second, 'unsure-multi-prep')
    # features
    for w in t.words:
        old, w.feats = w.feats, {}
        for key in sorted(old):
            name, value = key.partition('/')[2], old[key]
            if name == 'inflection_type':
                w.misc['InflectionType'] = value.capitalize()
                continue
            if 'antecedent' in name and w.upos == 'PRON':
                w.feats['PronType'] = 'Prs'
            new = GFEATS.get(f'{name}={value}')
            if new is None:
                new = f'{name}={value}' if name[0].isupper() else f'{name.capitalize()}={value.capitalize()}'
            w.feats.update(x.split('=') for x in new.split('|') if x)
        if w.feats.get('Proper') == 'True':
            if w.xpos not in ('NNP', 'NNPS'):
                w.misc['Proper'] = 'True'
            del w.feats['Proper']
    # tags
    for w in list(t.words):
        if w.xpos == 'SYM':
            w.upos = 'SYM'
            if w.deprel in ('p', 'punct'):
                if w.form in "_-.؟”'":
                    w.upos = 'PUNCT'
                else:
                    w.deprel = 'dep'
        else:
            w.upos = {'.': 'PUNCT', 'PRT': 'PART', 'NOUN': 'PROPN' if w.xpos in ('NNP', 'NNPS') else 'NOUN'}.get(w.upos, w.upos)
        if w.upos == 'VERB' and w.deprel == 'neg':
            w.upos = 'AUX'
        if w.upos == 'AFFIX':
            if w.deprel in ('suff', 'pref'):
                k = t.ord(w)
                if w.deprel == 'suff':
                    t.words[k - 2].form += w.form
                else:
                    t.words[k].form = w.form + t.words[k].form
                for c in t.kids(w):
                    c.parent = w.parent
                t.words.remove(w)
                continue
            todo(w, 'affix')
            w.upos = 'PART'
        if w.upos == 'PUNCT' and w.form in ('$', '£'):
            w.upos = 'SYM'
        if w.upos == 'NUM' and w.deprel == 'det' and not w.form.isnumeric():
            w.upos = 'DET'
        if lang == 'de' and w.upos == 'CONJ' and w.form.lower() == 'zu':
            w.deprel, w.upos, w.xpos = 'mark', 'PART', 'RP'
            if w.parent.deprel == 'aux':
                w.parent = w.parent.parent
        if w.upos == 'CONJ' and w.deprel == 'mark':
            w.upos = 'SCONJ'
        if lang == 'fr':
            if w.upos == 'PROPN' and w.form.lower() in DAYS:
                w.upos = 'NOUN'
            if w.form == 'États-Unis':
                w.upos = 'PROPN'
    # relations
    for w in list(t.words):
        w.deprel = d = GDEPREL.get(w.deprel, w.deprel)
        p = w.parent
        if d in ('nn', 'compound'):
            w.deprel = 'flat:name' if w.upos == p.upos == 'PROPN' else 'compound'
        elif d in ('pobj', 'pcomp'):
            if p.deprel not in ('case', 'prep', 'conj'):
                todo(w, d)
                w.deprel = 'obj'
                continue
            w.parent = p.parent
            t.hang(p, w)
            if p.deprel == 'conj':
                w.deprel, p.deprel = 'conj', 'case'
            else:
                w.deprel = {'pobj': 'nmod', 'pcomp': 'xcomp'}[d]
            for c in t.kids(p):
                if c.udep not in ('fixed', 'mwe'):
                    t.hang(c, w)
                    if c.upos != 'PUNCT':
                        todo(c, 'ex-adp-child')
        elif d == 'infmod':
            w.deprel, w.feats['VerbForm'] = 'xcomp', 'Inf'
        elif d == 'partmod':
            w.deprel, w.feats['VerbForm'] = 'ccomp', 'Part'
        elif d == 'suff':
            w.deprel, w.misc['OrigDeprel'] = 'dep', 'suff'
        elif d == 'gmod':
            w.deprel = 'nmod' if w.feats.get('Case') == 'Gen' else 'nmod:gmod'
        elif d == 'cc':
            if w.upos == 'PUNCT' and w.form == ',':
                w.deprel = 'punct'
        elif d == 'parataxis':
            below = [x for x in t.words if x is not w and dominates(w, x)]
            before = t.prev(below[0]) if below else None
            if before and before.udep == 'cc' and before.parent is p:
                w.deprel = 'conj'
        elif d == 'dislocated' and lang == 'fr':
            subj = next((x for x in t.kids(p) if x.udep == 'nsubj'), None)
            if subj:
                w.deprel, subj.deprel = 'nsubj', 'expl' if subj.upos == 'PRON' else 'dislocated'
        elif d == 'appos' and lang == 'fr' and p.form in ('M.', 'Mme', 'Dr'):
            w.deprel = 'flat:name'
        elif d == 'prt':
            w.deprel = 'compound:prt' if lang in ('en', 'de', 'nl', 'sv', 'da', 'no', 'th') else 'dep:prt'
        elif d == 'redup':
            w.deprel = 'compound:plur' if lang == 'id' else 'compound:redup'
        elif d == 'ig':
            if p.form == 'ki' and p.deprel not in ('prep', 'pobj'):
                w.deprel, p.upos, p.deprel = p.deprel, 'ADP', 'case'
                w.parent = p.parent
                t.hang(p, w)
            elif w.upos == 'AUX' or w.form == 'ler':
                w.deprel = 'cop'
            elif p.upos == 'AUX':
                w.deprel, p.deprel = p.deprel, 'cop'
                w.parent = p.parent
                t.hang(p, w)
            else:
                w.deprel = 'punct' if w.upos == 'PUNCT' else 'dep:ig'
    # copulas
    for w in list(t.words):
        if w.deprel in ('acomp', 'attr'):
            cop = w.parent
            w.parent, w.deprel = cop.parent, cop.deprel
            t.hang(cop, w)
            cop.deprel = 'cop'
            for c in t.kids(cop):
                t.hang(c, w)


def dominates(a, x):
    while x is not None and x is not a:
        x = x.parent
    return x is a


def google_rest(tree, params):
    """The blocks which finish the conversion, in the order and with the parameters promised."""
    lang = params['lang']
    load = lambda name, **kw: getattr(importlib.import_module('udapi.block.ud.' + name.rpartition('.')[0]), name.rpartition('.')[2])(**kw)
    blocks = [load('convert1to2.Convert1to2', **{k: v for k, v in params.items() if k == 'skip'})]
    if lang in ('de', 'es', 'fr', 'pt'):
        blocks.append(load(lang + '.addmwt.AddMwt'))
    if lang == 'es':
        blocks.append(load('joinasmwt.JoinAsMwt'))
    if lang in ('ar', 'de', 'en', 'fr', 'hi', 'ru', 'th', 'zh'):
        blocks.append(load('fixrightheaded.FixRightheaded'))
    if lang in ('pt', 'ru'):
        blocks.append(load('fixchain.FixChain'))
    for b in blocks + [load('fixpunct.FixPunct')]:
        b.process_tree(tree)


google.rest = google_rest
G_LABELS = [k for k in GDEPREL if k != 'ROOT'] + ('nn compound pobj pcomp infmod partmod suff pref gmod cc parataxis dislocated appos prt redup ig acomp attr neg det mark aux nsubj nsubjpass dobj conj punct '
                                                  'pobj pobj pcomp prep prep conj ig fixed mwe goeswith goeswith').split()


def google_sentence(rng):
    feats = {}
    for x in GFEATS:
        k, _, v = x.partition('=')
        feats.setdefault('xx/' + k, []).append(v)
    feats.update({'xx/proper': ['true', 'false'], 'xx/inflection_type': ['abc'], 'xx/Tense': ['Past'], 'xx/NumType': ['Card'], 'xx/Gender[psor]': ['Fem'], 'xx/voice': ['act', 'unsp_v'], 'xx/number': ['sing', 'plur', 'unsp_n'], 'xx/case': ['gen', 'obl']})
    glue = rng.choice([1, 1, 3])
    word = maker(forms='x y zu Zu au des du del al dos im Zum dámelo lundi Juin États-Unis M. Mme Dr ki ler en a para par entre and de 10 v2 $ £ , . - \' _'.split(), upos='NOUN NOUN PROPN VERB AUX PRT CONJ NUM DET AFFIX PRON ADP . X ADJ'.split(),
                 xpos=['_', '_', '_', 'NNP', 'NNPS', 'SYM'], deprels=G_LABELS, misc={'SpaceAfter': ['No'], 'ToDo': ['old']})

    def make(r):
        w = word(r)
        w.feats = {k: r.choice(v) for k, v in feats.items() if r.random() < 0.08}
        if r.random() < 0.2 * (glue - 1):
            w.misc['SpaceAfter'] = 'No'
        return w
    t = sentence(rng, make, 1, 9, chain=rng.choice([0.5, 1.5]))
    for w in t.words:
        if w.form in ',.' and rng.random() < 0.8:
            w.upos = '.'
        if w.form == '-' and w is t.words[-1]:
            w.form = 'x'
    for w in t.words:   # left dislocation
        near = [x for x in t.kids(w.parent) if x is not w]
        if w.parent is not t.root and near and rng.random() < 0.06:
            w.deprel, rng.choice(near).deprel = 'dislocated', 'nsubj'
    for w in t.words:   # a chain of prepositions
        if w.deprel in ('pobj', 'pcomp') and w.parent.parent and w.parent.parent.parent and rng.random() < 0.5:
            w.parent.deprel = rng.choice(['pobj', 'pcomp', 'prep', 'prep'])
            if w.parent.deprel != 'prep' and w.parent.parent.parent.parent:
                w.parent.parent.deprel = 'prep'
    cut = any(w.deprel == 'goeswith' or w.form == '-' for w in t.words)
    for w in t.words:
        if w.parent is t.root:
            w.deprel = 'root'
        if w.deprel in ('suff', 'pref') and (cut or w is t.words[-1] and w.deprel == 'pref' or w.deprel == 'suff' and all(x.deprel == 'pref' for x in t.words[:t.ord(w) - 1])):
            w.deprel = 'dep'   # an affix always has a neighbour to join
        if w.deprel in ('acomp', 'attr') and w.parent.deprel in ('acomp', 'attr'):
            w.deprel = 'nsubj'
    for w in t.words:
        if w.deprel == 'ig' and w.parent.deprel in GDEPREL:
            w.parent.deprel = 'nsubj'
    t.text = t.plain()
    if rng.random() < 0.3:   # the text alone says which words are not separated
        t.hidden = [w for w in t.words if w.misc.get('SpaceAfter')]
        t.words[-1].misc.pop('SpaceAfter', None)
    t.comments = [f' doc 1 s{rng.randint(0, 99)} ', ' ' + t.text, ' A translation.'][:rng.choice([2, 3])]
    return t


# ---------------------------------------------------------------- coordination in the enhanced graph
def shared(t, params):
    """Conjuncts get the parent of the first conjunct, dependents of the first one are shared where the conjunct has none of that relation."""
    for w in t.words:
        if w.deprel != 'conj' or w.parent is t.root:
            continue
        first = w.parent
        if (first.parent, first.deprel) not in w.deps:
            w.deps.append((first.parent, first.deprel))
        have = {c.deprel for c in t.kids(w)}
        for c in t.kids(first):
            if c.deprel in ('subj', 'subjpass', 'dobj', 'iobj', 'compl') and c.deprel not in have and (w, c.deprel) not in c.deps:
                c.deps.append((w, c.deprel))


TABLE.update({
    'ud.google2ud Google2ud': (google, google_sentence, dict(lang=G_LANGS)),
    'zellig_harris.enhancedeps EnhanceDeps': (shared, lambda r: sentence(r, maker(deprels=['conj', 'conj', 'subj', 'subjpass', 'dobj', 'iobj', 'compl', 'obj', 'dep']), 1, 8, deps=0.4), {}),
})
NAMES = sorted(TABLE)


def finish(mon, name, model, params, tree, t, sent_id):
    """The rest of the conversion is the business of other blocks: run them on the output of the model."""
    kept, t.comments = t.comments, None
    doc = Document()
    doc.from_conllu_string(t.conllu(0))
    want = next(iter(doc.trees))
    want.comment = '\n'.join(kept)
    with captured(), Logs():
        model.rest(want, params)
    same(mon, rows(tree), rows(want), 'columns', name)
    spans = lambda x: [(m.words[0].ord, m.words[-1].ord, m.form, dict(m.misc)) for m in x.multiword_tokens]
    mon.eq(spans(tree), spans(want), 'tokens', name)
    mon.eq(tree.text, want.text, 'text', name)
    mon.eq((tree.sent_id, tree.comment), (sent_id, want.comment), 'comments', name)


def case(rng, mon, i):
    name = NAMES[i % len(NAMES)]
    module, cls = name.split()
    C = getattr(importlib.import_module('udapi.block.' + module), cls)
    model, source, options = TABLE[name]
    params = {k: rng.choice(v) for k, v in options.items() if k in ('lemmas', 'lang') or rng.random() < (0.9 if k == 'fix' else 0.5)}
    ts = [source(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
    text = ''.join(t.conllu(k) for k, t in enumerate(ts))
    mon.note(block=name, params=repr(params), input=text)
    doc = Document()
    doc.from_conllu_string(text)
    trees = list(doc.trees)
    for x, t in zip(trees, ts):
        if not t.hidden:
            same(mon, rows(x), t.rows(), 'input', name)
        t.hidden = []
    fails, printed, ids = False, '', [t.comments and t.comments[0].strip().replace(' ', '-') for t in ts]
    before = [t.rows() for t in ts]
    for t in [ts] if hasattr(model, 'whole') else ts:
        try:
            printed += model(t, params) or ''
        except CycleError:
            fails = True
            break
    if fails:
        mon.event('cycle')
        def run():
            with captured(), Logs():
                C(**params).apply_on_document(doc)
        mon.raises(run, 'refuses a cycle', CycleError)
        return
    with captured() as buf, Logs():
        C(**params).apply_on_document(doc)
    for k, (tree, t) in enumerate(zip(trees, ts)):
        if t.rows() != before[k]:
            mon.event('changed.' + module)
        if hasattr(model, 'rest'):
            finish(mon, name, model, params, tree, t, ids[k])
            continue
        same(mon, rows(tree), t.rows(), 'columns', name)
        mwts = [(m.words[0].ord, m.words[-1].ord, m.form, dict(m.misc)) for m in tree.multiword_tokens]
        mon.eq(mwts, t.mwtrows(), 'tokens', name)
        mon.eq(tree.text, t.text, 'text', name)
    if model.__qualname__.startswith('elque'):
        mon.eq(buf.getvalue(), printed, 'printed', name)
        mon.event('patterns', printed.count('\n'))
    mon.state('case', repr((name, sorted(params.items()), text)))
    mon.event('block.' + module)


NEEDS = ['events.changed.' + x.split()[0] for x in NAMES] + ['events.patterns', 'events.cycle', 'oracle.columns', 'oracle.tokens', 'oracle.text', 'oracle.printed', 'oracle.comments']
WORKLOADS = [Workload('repairs', case, 110000, 1600000)]
