"""C30: blocks which mark, report or annotate words do so for exactly those words which satisfy the documented condition."""
import json
import os
import re
from collections import Counter

from lib import gen, refconllu as ref
from lib.vf import Logs, Workload, captured
from udapi.core.document import Document
from udapi.block.demo.complexity import Complexity
from udapi.block.msf.case import Case
from udapi.block.msf.createabstract import CreateAbstract
from udapi.block.msf.init import Init
from udapi.block.msf.numphrase import NumPhrase
from udapi.block.msf.removefunc import RemoveFunc
from udapi.block.mwe.normalize import Normalize
from udapi.block.mwe.tosubdeprels import ToSubDeprels
from udapi.block.ud.markbugs import MarkBugs
from udapi.block.ud.markfeatsbugs import MarkFeatsBugs
from udapi.block.ud.printfixed import PrintFixed
from udapi.block.util.findbug import FindBug
from udapi.block.util.markmwtbugsatnodes import MarkMwtBugsAtNodes

ID = 'C30'
RULE = 'distinct (document, block, parameters) cases whose marks, reports and annotations were compared with the conditions evaluated on an independent parse of the input'
ASSUMPTIONS = ['words have forms; the relation root is used anywhere, other relations too',
               'the table of adpositions and cases of msf.Case is a frozen copy of the pinned one']
TABLE = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib', 'tables.json'), encoding='utf-8'))['msf.case']


class W:
    """A word as the file has it (independent of udapi)."""

    def __init__(self, cols):
        self.ord = int(cols[0])
        self.form, self.lemma = cols[1], cols[2]
        self.upos = None if cols[3] == '_' else cols[3]
        self.feats, self.misc = ref.kv(cols[5]), ref.kv(cols[9])
        self.head = int(cols[6])
        self.deprel = None if cols[7] == '_' else cols[7]
        self.udep, _, self.sdep = (self.deprel or '').partition(':')
        self.deps = cols[8]
        self.parent, self.children = None, []


class S:
    """A sentence; words[0] is the technical root."""

    def __init__(self, r):
        self.r = r
        self.root = W(['0', '', '', '_', '_', '_', '0', '_', '_', '_'])
        self.words = [self.root] + [W(c) for c in r.words]
        for w in self.words[1:]:
            w.parent = self.words[w.head]
            w.parent.children.append(w)

    def under(self, w, x):
        while w is not None:
            if w is x:
                return True
            w = w.parent
        return False

    def subtree(self, x):
        return [w for w in self.words if self.under(w, x)]

    def nonprojective(self, w):
        a, b = sorted((w.ord, w.parent.ord))
        return any(not self.under(self.words[k], w.parent) for k in range(a + 1, b))

    def gap(self, w):
        for x in self.words:
            if not self.under(w, x):
                span = [y.ord for y in self.subtree(x)]
                if min(span) < w.ord < max(span):
                    return True
        return False


DEPRELS = ('aux fixed goeswith list flat conj appos cop mark det punct clf case cc advmod nsubj csubj nsubj:outer nsubj:pass csubj:outer obj ccomp iobj obl '
           'nmod amod acl acl:relcl advcl xcomp xcomp:pred conj:svc obl:gov nummod:numgov mark:case case:loc root aux:pass flat:name nummod:gov det:numgov nummod expl:pass parataxis orphan dep').split()
UPOS = 'NOUN PROPN PRON VERB AUX ADJ ADV ADP DET NUM PUNCT SYM CCONJ SCONJ PART X'.split()
FEATS = {'PronType': ['Prs', 'Rel', 'Int,Rel', 'Dem'], 'NumType': ['Card', 'Ord'], 'VerbForm': ['Fin', 'Fin', 'Part', 'Inf', 'Conv'], 'Mood': ['Ind', 'Imp'],
         'Case': ['Nom', 'Gen', 'Dat', 'Acc', 'Loc', 'Ins'], 'Poss': ['Yes'], 'Number': ['Sing', 'Plur'], 'Person': ['1', '3'], 'Gender': ['Masc', 'Fem'],
         'Animacy': ['Anim'], 'Polite': ['Form'], 'Abbr': ['Yes'], 'AdpType': ['Prep'], 'Emph': ['Yes'], 'Foreign': ['Yes'], 'NameType': ['Giv'], 'Style': ['Coll'], 'Typo': ['Yes'],
         'Variant': ['Short'], 'NumForm': ['Digit'], 'Aspect': ['Perf'], 'Polarity': ['Neg'], 'Tense': ['Past'], 'Case[psor]': ['Gen']}
FORMS = ['pes', 'Pes', 'a', 'A', '$', '%', '...', '-', '—', '–', ':', ';', '(', ')', 'x2', '5', ',', 'v', 'o', 'na', 'be', 'is', 'word', 'Ž', '―', 'že', 'km²', 'a.']
LEMMAS = ['be', 'být', 'v', 'na', 'za', 'mezi', 'jako', 'aby', 'a', 'i', 'tak', 'pes', 'z', 'od', 'strana', 'k', 'do', 'po', 's', '_', 'seem', 'stát', 'li', 'než', 'co', 'jen']
MISC = {'Bug': ['x', 'punct-nonproj-gap', 'aux-chain,y', 'a+b', 'no-PronTypeX', 'x,no-VerbForm', 'FeatCaseMissing2', 'xFeatMoodNotAllowed+FeatPossMissing', 'xFeatCaseNotAllowed'], 'Mwe': ['1', '1:VID', '2:LVC.cause', '1;2', '1:VID;2', '2', '3:', 'x:VID', '10:VID.x', '3'],
        'SpaceAfter': ['No'], 'MSFFunc': ['Yes', 'Yes', 'No'], 'MSFCase': ['Gen', 'Nom', 'Loc', 'Acc', 'Ine'], 'MSFVerbForm': ['Fin', 'Fin', 'Inf'], 'MSFNumber': ['Sing'],
        'MSFPerson': ['3', '1'], 'MSFGender': ['Fem'], 'MSFAnimacy': ['Anim'], 'MSFPolite': ['Form'], 'PhraseForm': ['Fin', 'Inf'], 'PhraseTense': ['Past'], 'Phrase': ['1,2'], 'PhraseMood': ['Ind'],
        'Phrasex': ['1'], 'ClauseHead': ['1'], 'xPhraseForm': ['q']}


def kvs(pairs):
    return '|'.join(f'{k}={v}' for k, v in sorted(pairs.items(), key=lambda x: x[0].lower())) or '_'


def some(rng, table, keys, p=0.35):
    return {k: rng.choice(table[k]) for k in keys if rng.random() < p}


def text_of(rng, misc=(), deprels=None, feats=None, forms=FORMS, zone=None, n=None, p_misc=0.3, mwts=None, empties=0.0, p_sub=0.2, lemmas=LEMMAS, texts=True):
    zone = rng.choice(['', '', 'en', 'id', 'id_x', 'tl', 'jv_gold']) if zone is None else zone
    few = rng.sample(deprels or DEPRELS, min(len(deprels or DEPRELS), rng.choice([3, 5, 8, 40])))
    sents = []
    for k in range(n or rng.choice([1, 1, 2, 3])):
        s = gen.gen_sent(rng, sid=f's{k + 1}', zone=zone, p_mwt=0.5 if mwts else 0.0, p_empty=empties, p_deps=empties, max_n=10, json_comments=0, p_notext=0.3 if texts else 0.0)
        for j, w in enumerate(s.words):
            w['form'] = rng.choice(forms)
            w['lemma'] = rng.choice(lemmas)
            w['upos'] = rng.choice(UPOS + ['_'])
            w['deprel'] = 'root' if w['head'] == 0 and rng.random() < 0.9 else rng.choice(few)
            w['feats'] = kvs(some(rng, FEATS, rng.sample(feats or sorted(FEATS), min(4, len(feats or FEATS)))))
            w['misc'] = kvs(some(rng, MISC, list(misc), p_misc))
        if mwts:
            s.mwts = [(a, b, f, kvs(some(rng, MISC, mwts, 0.6))) for a, b, f, _ in s.mwts]
            for a, b, *_ in s.mwts:
                for w in s.words[a - 1:b]:
                    w['misc'] = '|'.join(x for x in w['misc'].split('|') if not x.startswith('SpaceAfter')) or '_'
        sents.append(s)
    return gen.to_text(sents)


def load(text):
    d = Document()
    d.from_conllu_string(text)
    return d


def stored(doc):
    return [S(r) for r in ref.parse(doc.to_conllu_string())]


def check_rest(mon, before, after, but, what):
    """Everything but the named column values is as it was."""
    for s, t in zip(before, after):
        for a, b in zip(s.r.words, t.r.words):
            for i, (x, y) in enumerate(zip(a, b)):
                if i == 9:
                    x, y = [{k: v for k, v in ref.kv(z).items() if not any(re.fullmatch(m, k) for m in but)} for z in (x, y)]
                elif i == 7 and 'deprel' in but:
                    continue
                mon.eq(y, x, 'rest unchanged', f'{what}: column {i + 1}')
    mon.eq(len(after), len(before), 'rest unchanged', what)


# --- ud.MarkBugs ---

REQUIRED = {'PRON': 'PronType', 'DET': 'PronType', 'NUM': 'NumType', 'VERB': 'VerbForm'}


def bugs_of(s, zone):
    """(word, short name) pairs for one sentence, without the test of copula lemmas."""
    out = []
    for w in s.words[1:]:
        p = w.parent

        def log(name, node=w):
            out.append((node.ord, name))
        if w.udep in ('aux', 'fixed', 'goeswith', 'list') and p.udep == w.udep:
            log(w.udep + '-chain')
        if w.udep in ('flat', 'fixed', 'conj', 'appos', 'goeswith', 'list') and w.ord < p.ord:
            log(w.udep + '-rightheaded')
        for dep, good in (('cop', ('AUX', 'PRON')), ('det', ('DET', 'PRON')), ('punct', ('PUNCT',))):
            if w.udep == dep and w.upos not in good:
                log(dep + '-upos')
        if w.udep == 'mark' and w.upos == 'PRON':
            log('mark-upos')
        f = REQUIRED.get(w.upos)
        if f and f not in w.feats and not (f == 'VerbForm' and zone.split('_')[0] in ('id', 'jv', 'tl', 'hil', 'ifb')):
            log('no-' + f)
        if w.feats.get('VerbForm') == 'Fin':
            if w.upos not in ('VERB', 'AUX'):
                log('finverb-upos')
            if 'Mood' not in w.feats:
                log('finverb-mood')
        if len([c for c in w.children if c.udep in ('nsubj', 'csubj') and c.sdep != 'outer']) > 1:
            log('multi-subj')
        if len([c for c in w.children if c.udep == 'obj']) > 1:
            log('multi-obj')
        if p.udep in ('aux', 'cop', 'mark', 'clf', 'case') and w.udep not in ('conj', 'cc', 'punct', 'fixed', 'goeswith', 'advmod'):
            log(p.deprel + '-child')
        if w.udep == 'goeswith' and p.ord < w.ord:
            between = s.words[p.ord + 1:w.ord]
            bad = [x for x in between if x.udep != 'goeswith']
            if bad:
                log('goeswith-gap', bad[0])
            else:
                for x in [p] + between:
                    if x.misc.get('SpaceAfter') == 'No':
                        log('goeswith-space', x)
        if w.upos == 'SYM' and w.form.isalpha():
            log('sym-alpha')
        if w.upos == 'PUNCT':
            if any(c.isalpha() for c in w.form):
                log('punct-alpha')
            if w.udep not in ('punct', 'fixed', 'goeswith', 'root'):
                log('punct-deprel')
            if s.nonprojective(w):
                log('punct-nonproj')
            if s.gap(w) and not s.gap(p):
                log('punct-nonproj-gap')
    return out


def markbugs(rng, mon, i):
    """ud.MarkBugs."""
    texts = [text_of(rng, misc=['Bug', 'SpaceAfter'], n=rng.choice([1, 2, 4]), deprels=rng.choice([None, None, ['cop', 'cop', 'nsubj', 'nsubj:outer', 'punct'], ['goeswith', 'fixed', 'list', 'aux']]))
             for _ in range(rng.choice([1, 1, 2]))]
    kw = rng.choice([{}, {}, dict(tests='aux-chain|cop'), dict(skip='no-(VerbForm|NumType|PronType)'), dict(tests='^punct', skip='gap$'), dict(tests='', skip=''),
                     dict(tests='.*'), dict(max_cop_lemmas=rng.choice([0, 1, 3])), dict(save_stats=False), dict(tests='upos'), dict(skip='cop-many')])
    mon.note(input=texts, kw=kw)
    mon.state('markbugs', repr((texts, kw)))
    block = MarkBugs(**kw)
    for text in texts:
        before = [S(r) for r in ref.parse(text)]
        doc = load(text)
        zone = doc.bundles[0].trees[0].zone
        with Logs() as logs:
            block.apply_on_document(doc)
        reports = [[] for _ in before]
        cops = {}
        for k, s in enumerate(before):
            reports[k] = bugs_of(s, zone)
            for w in s.words[1:]:
                if w.udep == 'cop':
                    cops.setdefault(w.lemma if w.lemma != '_' else w.form, []).append((k, w.ord))
        top = sorted(cops, key=lambda x: -len(cops[x]))     # stable: the first one seen wins among equally frequent ones
        for lemma in top[kw.get('max_cop_lemmas', 2):]:
            for k, o in cops[lemma]:
                reports[k].append((o, 'cop-many-lemmas'))
        wanted = [[(o, b) for o, b in r if (not kw.get('tests') or re.search(kw['tests'], b)) and not (kw.get('skip') and re.search(kw['skip'], b))] for r in reports]
        after = stored(doc)
        for k, (s, t) in enumerate(zip(before, after)):
            for w, v in zip(s.words[1:], t.words[1:]):
                old = [x for x in str(w.misc.get('Bug', '')).split(',') if x]
                want = sorted(set(old) | {b for o, b in wanted[k] if o == w.ord})
                mon.eq(sorted(x for x in v.misc.get('Bug', '').split(',') if x), want, 'bugs', f'word {w.ord} of sentence {k}')
        stats = Counter(b for r in wanted for _, b in r)
        mon.event('bugs', sum(stats.values()))
        for b in stats:
            mon.event('bug.' + (b if not b.endswith('-child') else 'child'))
        lines = [m for m in logs.messages() if 'Overview' in m]
        mon.eq(len(lines), 1, 'overview')
        rows = [(a, int(b)) for a, b in (x.split() for x in lines[0].split('\n')[1:] if x.strip())]
        mon.eq(rows, sorted(stats.items(), key=lambda x: (x[1], x[0])) + [('TOTAL', sum(stats.values()))], 'overview')
        mon.eq(doc.meta.get('bugs'), lines[0] if kw.get('save_stats', True) else None, 'overview', 'document.meta')
        check_rest(mon, before, after, ['Bug'], 'MarkBugs')


# --- ud.MarkFeatsBugs, util.MarkMwtBugsAtNodes ---

class Rules(MarkFeatsBugs):
    """A language-specific block with the given rules."""

    def __init__(self, rules, **kwargs):
        super().__init__(**kwargs)
        self.rules = rules

    def process_node(self, node):
        required, allowed = self.rules.get(node.upos, ([], {}))
        self.check_required_features(node, required)
        self.check_allowed_features(node, allowed)


def featsbugs(rng, mon, i):
    """ud.MarkFeatsBugs with random rules; util.MarkMwtBugsAtNodes."""
    text = text_of(rng, misc=['Bug'], mwts=['Bug', 'Mwe', 'SpaceAfter'])
    mon.note(input=text)
    mon.state('feats', text)
    before = [S(r) for r in ref.parse(text)]
    rules = {u: (rng.sample(sorted(FEATS), rng.randint(0, 3)), {f: rng.sample(FEATS[f], rng.randint(0, len(FEATS[f]))) for f in rng.sample(sorted(FEATS), rng.randint(0, 14))}) for u in UPOS if rng.random() < 0.8}
    mon.note(rules=rules)
    doc = load(text)
    Rules(rules).apply_on_document(doc)
    after = stored(doc)
    for k, (s, t) in enumerate(zip(before, after)):
        for w, v in zip(s.words[1:], t.words[1:]):
            required, allowed = rules.get(w.upos, ([], {}))
            want = {f'Feat{f}Missing' for f in required if f not in w.feats} | {f'Feat{f}NotAllowed' for f in w.feats if f not in allowed}
            want |= {f'Feat{f}Value{x}NotAllowed' for f, x in w.feats.items() if f in allowed and x not in allowed[f]}
            mon.event('feats bugs', len(want))
            old = [x for x in w.misc.get('Bug', '').split('+') if x]
            mon.eq(sorted(x for x in v.misc.get('Bug', '').split('+') if x), sorted(set(old) | want), 'features', f'word {w.ord} of sentence {k}')
    check_rest(mon, before, after, ['Bug'], 'MarkFeatsBugs')
    doc = load(text)
    MarkMwtBugsAtNodes().apply_on_document(doc)
    after = stored(doc)
    for s, t in zip(before, after):
        mon.eq([m[:3] + (ref.kv(m[3]),) for m in t.r.mwts], [m[:3] + (ref.kv(m[3]),) for m in s.r.mwts], 'rest unchanged', 'multiword tokens')
        at = {o: ref.kv(m[3]).get('Bug') for m in s.r.mwts for o in range(m[0], m[1] + 1)}
        for w, v in zip(s.words[1:], t.words[1:]):
            old = [x for x in w.misc.get('Bug', '').split('+') if x]
            if at.get(w.ord) and at[w.ord] not in old:
                old.append(at[w.ord])
                mon.event('mwt bugs')
            mon.eq(v.misc.get('Bug', ''), '+'.join(old), 'mwt bugs', f'word {w.ord}')
    check_rest(mon, before, after, ['Bug'], 'MarkMwtBugsAtNodes')


# --- ud.PrintFixed ---

def fixed(rng, mon, i):
    """ud.PrintFixed: annotated fixed expressions, and other occurrences of known ones."""
    forms = rng.sample(FORMS, 4)
    text = text_of(rng, deprels=['fixed', 'fixed', 'fixed:x', 'punct', 'obl', 'case'], forms=forms, n=rng.choice([1, 3]))
    before = [S(r) for r in ref.parse(text)]
    only = rng.random() < 0.5
    known = [' '.join(rng.choice(forms).lower() for _ in range(rng.choice([2, 2, 3, 4]))) for _ in range(rng.choice([0, 1, 4, 8]))]
    mon.note(input=text, known=known, only_forms=only)
    mon.state('fixed', repr((text, known, only)))
    kw = dict(only_forms=only)
    if known:
        path = os.path.join(mon.scratch(), 'known.txt')
        with open(path, 'w', encoding='utf-8') as f:
            f.write(''.join(x + '\n' for x in known))
        kw['known_expressions'] = path
    longest = max([2] + [len(x.split(' ')) for x in known])
    want = []
    for s in before:
        for w in s.words[1:]:
            dependents = [c for c in w.children if c.udep == 'fixed' and c.ord > w.ord]
            if dependents:
                span = s.words[w.ord:dependents[-1].ord + 1]
                inside = [x is w or x in dependents for x in span]
                forms_ = ' '.join(x.form.lower() if y else 'X' for x, y in zip(span, inside))
                tags = ' '.join(str(x.upos) if y else 'X' for x, y in zip(span, inside))
                want.append(forms_ if only else f'{forms_} / {tags} / {w.deprel}')
                mon.event('fixed')
            else:
                for m in range(2, longest + 1):
                    span = s.words[w.ord:w.ord + m]
                    if len(span) == m and ' '.join(x.form.lower() for x in span) in known:
                        forms_ = ' '.join(x.form.lower() for x in span)
                        want.append(forms_ if only else f"{forms_} / {' '.join(str(x.upos) for x in span)} / NOT FIXED")
                        mon.event('not fixed')
                        break
    if any(w.upos is None for s in before for w in s.words[1:]):
        text = re.sub(r'(?m)^(\d+\t[^\t]*\t[^\t]*\t)_', r'\1X', text)
        want = [x.replace('None', 'X') for x in want]
    doc = load(text)
    with captured() as out:
        PrintFixed(**kw).apply_on_document(doc)
    mon.eq(out.getvalue(), ''.join(x + '\n' for x in want), 'fixed')


# --- util.FindBug ---

def findbug(rng, mon, i):
    """util.FindBug prints the bundles on which the inspected block fails."""
    text = text_of(rng, forms=['pes', 'a', 'kočka', 'b', 'c'] * 3 + ['BAD'] * rng.choice([0, 1]), n=rng.randint(1, 5))
    mon.note(input=text)
    first = rng.random() < 0.5
    dest = rng.choice(['-', 'file'])
    mon.state('findbug', repr((text, first, dest)))
    sents = ref.parse(text)
    bad = [any(w[1] == 'BAD' for w in s.words) for s in sents]
    extra = {}      # the second trees of some bundles
    if rng.random() < 0.4:
        extra = {k: rng.choice(['fine', 'fine', 'BAD']) for k in range(len(sents)) if rng.random() < 0.6}
        bad = [b or extra.get(k) == 'BAD' for k, b in enumerate(bad)]
        mon.event('bundles of several trees')

    def document():
        doc = load(text)
        for k, form in extra.items():
            doc.bundles[k].create_tree('second').create_child(form=form, deprel='root')
        return doc
    doc = document()
    path = os.path.join(mon.scratch(), 'bug.conllu')
    kw = {} if dest == '-' else dict(files=path)
    code = 'node.form = "changed" if node.form != "BAD" else 1/0'
    failed = None
    with Logs() as logs, captured() as out:
        block = FindBug(block='util.Eval', node=code, first_error_only=first, **kw)
        block.process_start()
        try:
            block.apply_on_document(doc)
        except ZeroDivisionError as e:
            failed = e
        block.process_end()
    mon.eq(failed is not None, first and any(bad), 'bug found', 'raised')
    parts = [x + '\n\n' for x in document().to_conllu_string().split('\n\n') if x.strip()]
    want = []
    for k, b in enumerate(bad):
        mine = [parts.pop(0) for _ in range(2 if k in extra else 1)]
        if b and not (first and want):
            want += mine
    mon.event('bugs found', len(want))
    got = out.getvalue()
    if dest == 'file':
        mon.eq(got, '', 'bug found', 'standard output')
        got = open(path, encoding='utf-8').read()
    mon.eq(got, ''.join(want), 'bug found', 'minimal example')
    warned = [int(m.group(1)) for m in (re.search(r'problem in bundle (\d+)', x) for x in logs.messages()) if m]
    numbers = [k for k, b in enumerate(bad, 1) if b]
    mon.eq(warned, numbers[:1] if first else numbers, 'bug found', 'numbers of bundles')
    mon.eq(doc.to_conllu_string(), document().to_conllu_string(), 'rest unchanged', 'FindBug')


# --- mwe ---

def mwe(rng, mon, i):
    """mwe.Normalize, mwe.ToSubDeprels: Parseme-like annotation in MISC Mwe."""
    text = text_of(rng, misc=['Mwe'], p_misc=0.6)
    mon.note(input=text)
    mon.state('mwe', text)
    before = [S(r) for r in ref.parse(text)]
    doc = load(text)
    with Logs():
        Normalize().apply_on_document(doc)
    after = stored(doc)
    sub = load(text)
    with Logs():
        ToSubDeprels().apply_on_document(sub)
    subs = stored(sub)
    for s, t, u in zip(before, after, subs):
        member, types = {}, {}
        for w in s.words[1:]:
            for x in w.misc.get('Mwe', '').split(';'):
                m = re.fullmatch(r'(\d+)(?::([A-Za-z.]+))?', x)
                if m:
                    member.setdefault(m.group(1), []).append(w.ord)
                    if m.group(2):
                        types[m.group(1)] = m.group(2)
        mon.event('mwes', len(member))
        for w, v, x in zip(s.words[1:], t.words[1:], u.words[1:]):
            mine = [m.group(1) for m in (re.fullmatch(r'(\d+)(?::[A-Za-z.]+)?', y) for y in w.misc.get('Mwe', '').split(';')) if m]
            want = ';'.join(n + (':' + types[n] if member[n][0] == w.ord and n in types else '') for n in mine)
            mon.eq(v.misc.get('Mwe', ''), want, 'mwe', f'word {w.ord}')
            rel = w.deprel
            for n in mine:
                if n in types and w.head and w.head in member[n]:
                    rel += ':' + types[n].lower().replace('.', '')
                    mon.event('mwe relations')
            mon.eq(x.deprel, rel, 'mwe relations', f'word {w.ord}')
    check_rest(mon, before, after, ['Mwe'], 'Normalize')
    check_rest(mon, before, subs, ['deprel'], 'ToSubDeprels')
    again = doc.to_conllu_string()
    with Logs():
        Normalize().apply_on_document(doc)
    mon.eq(doc.to_conllu_string(), again, 'mwe', 'normalized again')


# --- msf ---

SKIP = 'Abbr AdpType Emph Foreign NameType Style Typo Variant'.split()


def single_adposition(w):
    adps = [c for c in w.children if c.udep == 'case' and c.upos == 'ADP']
    if len(adps) == 1 and not any(c.udep == 'fixed' for c in adps[0].children):
        return adps[0].feats.get('Case', '')
    return ''


def guess(w):
    return {'nsubj': 'Nom', 'obj': 'Acc'}.get(w.udep, '')


def model_init(s):
    for w in s.words[1:]:
        for f, v in w.feats.items():
            if f not in SKIP:
                w.misc['MSF' + f] = v
        if 'Case' not in w.feats and single_adposition(w):
            w.misc['MSFCase'] = single_adposition(w)
        if not w.misc.get('MSFCase'):
            cases = [c.feats['Case'] for c in w.children if c.udep in ('amod', 'det') and 'Case' in c.feats]
            case = cases[0] if cases else guess(w)
            if case:
                w.misc['MSFCase'] = case
        for k in list(w.misc):
            if re.match('Phrase[A-Z]', k):
                w.misc['MSFVerbForm' if k == 'PhraseForm' else k.replace('Phrase', 'MSF')] = w.misc.pop(k)


def model_numphrase(s):
    for w in s.words[1:]:       # in the order of the words: quantifiers before their noun have been processed
        q = [c for c in w.children if c.deprel in ('nummod:gov', 'det:numgov')]
        if q and w.misc.get('MSFCase', '') in ('', 'Gen'):
            case = q[0].misc.get('MSFCase') or single_adposition(w) or guess(w)
            w.misc.pop('MSFCase', None)
            if case:
                w.misc['MSFCase'] = case


def markers(w, rel):
    return '_'.join('_'.join([c.lemma] + [x.lemma for x in c.children if x.udep == 'fixed']) for c in w.children if c.udep == rel)


def model_case(s):
    for w in s.words[1:]:
        w.misc['MSFFunc'] = 'Yes' if w.udep in ('case', 'mark', 'cc', 'aux', 'cop', 'punct') else 'No'
        if w.misc['MSFFunc'] == 'Yes' or w.udep in ('det', 'amod'):
            continue
        case = w.misc.pop('MSFCase', '')
        if any(c.udep == 'case' for c in w.children):
            key = markers(w, 'case') + '+' + case
            case = TABLE.get(key, key)
        for rel in ('mark', 'cc'):
            case = case or TABLE.get(markers(w, rel), '')
        if case:
            w.misc['MSFCase'] = case


AGREE = ['Number', 'Person', 'Gender', 'Animacy', 'Polite']


def model_abstract(s):
    """Words lose their agreement features; returns the abstract subjects: (index, features, MISC, deps)."""
    made = []
    for w in s.words[1:]:
        have = {f: w.misc['MSF' + f] for f in AGREE if w.misc.get('MSF' + f)}
        if w.misc.get('MSFVerbForm') != 'Fin' or not have:
            continue
        abstract = any(e.split(':', 1)[0] == str(w.ord) and re.match('[nc]subj', e.split(':', 1)[1]) for c in s.r.empties for e in c[8].split('|') if e != '_')
        if not abstract and not any(c.udep in ('nsubj', 'csubj') for c in w.children):
            minor = 1 + max([int(c[0].split('.')[1]) for c in s.r.empties if c[0].split('.')[0] == str(w.ord)] or [0])
            made.append((f'{w.ord}.{minor}', dict(have, PronType='Prs', Case='Nom'), dict({'MSF' + f: v for f, v in have.items()}, MSFPronType='Prs', MSFCase='Nom', MSFFunc='No'), f'{w.ord}:nsubj'))
        for f in AGREE:
            w.misc.pop('MSF' + f, None)
    return made


def model_removefunc(s):
    for w in s.words[1:]:
        if w.misc.get('MSFFunc') == 'Yes':
            w.misc = {k: v for k, v in w.misc.items() if not k.startswith('MSF')}


STEPS = {'Init': (Init, model_init), 'NumPhrase': (NumPhrase, model_numphrase), 'Case': (Case, model_case), 'CreateAbstract': (CreateAbstract, model_abstract), 'RemoveFunc': (RemoveFunc, model_removefunc)}


def msf(rng, mon, i):
    """msf.Init, NumPhrase, Case, CreateAbstract, RemoveFunc: single steps and chains."""
    text = text_of(rng, misc=[k for k in MISC if 'MSF' in k or 'hrase' in k], p_misc=rng.choice([0.0, 0.15, 0.4]), empties=0.5 if rng.random() < 0.4 else 0.0,
                   deprels=rng.choice([None, ['case', 'fixed', 'obl', 'nmod', 'mark', 'cc', 'amod', 'det', 'nsubj', 'obj', 'nummod:gov', 'det:numgov', 'nmod'], ['case', 'case', 'fixed', 'fixed', 'nmod', 'obl:gov', 'nummod:numgov', 'nummod:gov']]),
                   feats=rng.choice([None, ['Case', 'VerbForm', 'Number', 'Person', 'Gender']]), lemmas=rng.choice([LEMMAS, ['v', 'na', 'strana', 'jako', 'z', 'a', 'aby', 'tak', 'v', 'než']]), zone='')
    if rng.random() < 0.3:      # adpositions with a case of their own
        text = re.sub(r'(?m)^(\d+\t[^\t]*\t[^\t]*\t)[^\t]*(\t[^\t]*\t)[^\t]*(\t\d+\tcase)', lambda m: m.group(1) + 'ADP' + m.group(2) + rng.choice(['Case=Loc', 'Case=Gen']) + m.group(3), text)
    steps = rng.choice([['Init', 'NumPhrase', 'Case', 'CreateAbstract', 'RemoveFunc'], ['Init', 'Case', 'RemoveFunc'], [rng.choice(sorted(STEPS))], [rng.choice(sorted(STEPS))]])
    mon.note(input=text, steps=steps)
    mon.state('msf', repr((text, steps)))
    before = [S(r) for r in ref.parse(text)]
    model = [S(r) for r in ref.parse(text)]
    doc = load(text)
    made = [[] for _ in model]
    with Logs():
        for x in steps:
            STEPS[x][0]().apply_on_document(doc)
            for k, s in enumerate(model):
                made[k] += STEPS[x][1](s) or []
                for w in s.words[1:]:
                    w.misc = {a: b for a, b in w.misc.items() if b != ''}
    after = stored(doc)
    for k, (s, t) in enumerate(zip(model, after)):
        for w, v in zip(s.words[1:], t.words[1:]):
            mon.eq(v.misc, w.misc, 'msf', lambda: f'word {w.ord} of sentence {k} after {steps}')
            mon.event('msf values', sum(x.startswith('MSF') for x in w.misc))
        old = {c[0]: c for c in before[k].r.empties}
        new = {c[0]: c for c in t.r.empties}
        mon.eq(sorted((i_, ref.kv(c[5]), ref.kv(c[9]), c[8], c[3]) for i_, c in new.items() if i_ not in old), sorted((a, f, m, d, 'PRON') for a, f, m, d in made[k]), 'abstract subjects', f'sentence {k}')
        mon.eq([c for i_, c in new.items() if i_ in old], list(old.values()), 'abstract subjects', 'earlier empty nodes')
        mon.event('abstract subjects', len(made[k]))
        for w in s.words[1:]:
            if w.misc.get('MSFCase') and '+' in w.misc['MSFCase']:
                mon.event('unknown adpositions')
            elif len(w.misc.get('MSFCase', '')) == 3 and any(c.udep == 'case' for c in w.children):
                mon.event('known adpositions')
    check_rest(mon, before, after, ['MSF.*', 'Phrase.*'], steps)


def casetable(rng, mon, i):
    """msf.Case: every adposition and case of the table."""
    key = sorted(TABLE)[i % len(TABLE)]
    name, plus, case = key.partition('+')
    parts = name.split('_')
    rel = 'case' if plus else rng.choice(['mark', 'cc'])
    rows = [['1', 'x', 'x', 'NOUN', '_', '_', '0', 'root', '_', f'MSFCase={case}' if case else '_']]
    for k, p in enumerate(parts):
        rows.append([str(k + 2), p, p, 'ADP', '_', '_', '1' if k == 0 else '2', rel if k == 0 else 'fixed', '_', '_'])
    text = '\n'.join('\t'.join(r) for r in rows) + '\n\n'
    mon.note(input=text)
    mon.state('table', key)
    doc = load(text)
    with Logs():
        Case().apply_on_document(doc)
    mon.eq(next(iter(doc.trees)).descendants[0].misc['MSFCase'], TABLE[key], 'case table', key)


# --- demo.Complexity ---

def complexity(rng, mon, i):
    """demo.Complexity: counts of the phrases and clauses it names."""
    text = text_of(rng, deprels=rng.choice([None, ['conj', 'conj:svc', 'xcomp:pred', 'cc', 'punct', 'acl', 'acl:relcl', 'xcomp', 'cop', 'advcl', 'nsubj', 'aux:pass', 'root', 'nmod', 'obl', 'case']]),
                   misc=['ClauseHead'] if rng.random() < 0.2 else [], p_misc=0.2, feats=rng.choice([None, ['VerbForm', 'PronType', 'Poss']]), lemmas=[x for x in LEMMAS if x != '_'])
    text = re.sub(r'(?m)^(\d+\t[^\t]*\t[^\t]*\t)_', r'\1X', text)
    mon.note(input=text)
    mon.state('complexity', text)
    before = [S(r) for r in ref.parse(text)]
    doc = load(text)
    texts = [t.get_sentence() for t in doc.trees]
    with captured() as out:
        block = Complexity()
        block.process_start()
        block.apply_on_document(doc)
        block.process_end()
    after = stored(doc)
    lines = out.getvalue().split('\n')
    found = []
    for k, (s, sentence) in enumerate(zip(before, texts)):
        mon.eq(lines[2 * k], '# ' + sentence, 'complexity', 'text')
        words = s.words[1:]

        def np(w):
            return w.upos in ('NOUN', 'PROPN') or (w.upos == 'PRON' and w.feats.get('PronType') == 'Prs' and 'Poss' not in w.feats)

        def finite(w):
            return w.feats.get('VerbForm') in ('Fin', 'Part') and (w.upos == 'VERB' or (w.upos == 'ADJ' and any(c.deprel == 'aux:pass' for c in w.children)))

        def head(w):
            if w.udep in 'root conj acl advcl ccomp csubj obl parataxis amod dep orphan'.split() and finite(w):
                return True
            if w.udep != 'xcomp' and any(c.udep == 'cop' for c in w.children):
                return True
            x = [c for c in w.children if c.udep == 'xcomp']
            return bool(x) and any(c.udep == 'cop' for c in x[0].children)
        heads = {w for w in words if head(w)}
        clause = {w for w in words if w in heads or 'ClauseHead' in w.misc}

        def chain(w):
            out_ = []
            while w is not s.root:
                out_.append(w)
                w = w.parent
            return out_
        depth = max([len(chain(w)) for w in words] + [0])
        cdepth = max([sum(x in heads for x in chain(w)) for w in words] + [0])

        def t_units(w):
            main, deps, stack = [w], [], list(w.children)
            while stack:
                x = stack.pop()
                if x in clause:
                    deps.append(x)
                else:
                    main.append(x)
                    stack += x.children
            return [len(main) + len(s.subtree(x)) for x in deps]

        def coord(test):
            return sum(test(w) and any(c.udep == 'conj' and test(c) for c in w.children) for w in words)
        units = [n for c in s.root.children if c.deprel == 'root' for n in t_units(c)]
        nonpunct = [w for w in words if w.upos != 'PUNCT']
        want = [s.r.sent_id, len(nonpunct), depth, cdepth, sum(units) / (len(units) or 1), len(heads),
                sum(w.feats.get('VerbForm') == 'Part' and w.upos == 'ADJ' and w not in clause and (w.parent.upos in ('NOUN', 'PROPN') or (w.udep == 'conj' and w.parent.upos == 'ADJ')) for w in words),
                sum(w.deprel == 'xcomp' for w in words),
                sum(1 + sum(c.udep == 'conj' for c in w.children) for w in s.root.children),
                coord(lambda w: w.upos == 'VERB' or w in clause), coord(np), coord(lambda w: w.upos in ('ADJ', 'DET')), coord(lambda w: w.upos == 'ADV'),
                len(units), sum(len(t_units(w)) for w in words if w.deprel != 'root' and w in clause),
                sum(w.deprel == 'acl:relcl' or (w.udep == 'acl' and any('Rel' in c.feats.get('PronType', '') for c in w.children)) for w in words),
                sum(w.udep != 'conj' and np(w) and w.parent.ord < w.ord and np(w.parent) for w in words),
                sum(w.upos == 'ADJ' and w.parent.ord < w.ord and np(w.parent) for w in words),
                sum(np(w) and len([x for x in s.subtree(w) if x is not w and x.deprel not in ('conj', 'punct', 'case', 'cc', 'dep', 'cop')]) > 1 for w in words),
                coord(lambda w: True)]
        tags = [w.upos for w in nonpunct] + ['NONE', 'NONE']
        want += tags[:2] + [sum(w.form in f for w in words) for f in (['('], ['-', '–', '—', '―'], [':'], [';'])]
        mon.eq([x.strip() for x in lines[2 * k + 1].split('\t')], [str(x) for x in want], 'complexity', f'sentence {k}')
        mon.event('clauses', len(heads))
        mon.event('t-units', len(units))
        for w, v in zip(words, after[k].words[1:]):
            mon.eq('ClauseHead' in v.misc, w in clause, 'complexity', f'clause head {w.ord}')
        groups = []

        def add(name, ws):
            if ws:
                groups.append('\t'.join([name, s.r.sent_id, ' '.join(x.lemma for x in ws), ' '.join(x.upos for x in ws), str(sum(x.upos != 'PUNCT' for x in ws))]))

        def within(w):
            mine, stack = [w], [c for c in w.children if c.udep != 'conj']
            while stack:
                x = stack.pop()
                if x not in clause:
                    mine.append(x)
                    stack += x.children
            return sorted(mine, key=lambda x: x.ord)

        def units_of(w):
            main, deps, stack = [w], [], list(w.children)
            while stack:
                x = stack.pop()
                (deps if x in clause else main).append(x)
                stack += [] if x in clause else x.children
            return [sorted(main, key=lambda x: x.ord) + s.subtree(x) for x in deps]
        for w in words:
            add('clauses', s.subtree(w) if w in heads else [])
            one = [w]
            add('adjectivized_predicates', one * (w.feats.get('VerbForm') == 'Part' and w.upos == 'ADJ' and w not in clause and (w.parent.upos in ('NOUN', 'PROPN') or (w.udep == 'conj' and w.parent.upos == 'ADJ'))))
            add('controlled_predicates', one * (w.deprel == 'xcomp'))
            if w.parent is s.root:
                for x in one + [c for c in w.children if c.udep == 'conj']:
                    add('main_clauses', within(x))
                if w.deprel == 'root':
                    for u in units_of(w):
                        add('t-units', u)
            if w.deprel != 'root' and w in clause:
                for u in units_of(w):
                    add('complex_t-units', u)
            for name, test in (('verb', lambda w: w.upos == 'VERB' or w in clause), ('noun', np), ('adjective', lambda w: w.upos in ('ADJ', 'DET')), ('adverb', lambda w: w.upos == 'ADV')):
                conjuncts = [c for c in w.children if c.udep == 'conj' and test(c)]
                if test(w) and conjuncts:
                    add(f'coordinated_{name}_phrases', sorted(one + conjuncts + [x for c in conjuncts for x in c.children if x.udep == 'cc'], key=lambda x: x.ord))
            if w.deprel == 'acl:relcl' or (w.udep == 'acl' and any('Rel' in c.feats.get('PronType', '') for c in w.children)):
                add('relative_clauses', within(w))
            add('postponed_nominal_modifiers', one * (w.udep != 'conj' and np(w) and w.parent.ord < w.ord and np(w.parent)))
            add('postponed_adjective_modifiers', one * (w.upos == 'ADJ' and w.parent.ord < w.ord and np(w.parent)))
            add('complex_nominals', one * (np(w) and len([x for x in s.subtree(w) if x is not w and x.deprel not in ('conj', 'punct', 'case', 'cc', 'dep', 'cop')]) > 1))
        found.append((sentence, groups))
    mon.eq(lines[2 * len(before):], [''], 'complexity', 'lines')
    check_rest(mon, before, after, ['ClauseHead'], 'Complexity')
    doc = load(text)
    with captured() as out:
        block = Complexity(matches=True)
        block.process_start()
        block.apply_on_document(doc)
        block.process_end()
    lines = out.getvalue().split('\n')
    for sentence, groups in found:
        mon.eq(lines[0], '# ' + sentence, 'complexity matches', 'text')
        n = len(groups)
        mon.eq(sorted(lines[1:n + 1]), sorted(groups), 'complexity matches')
        lines = lines[n + 1:]
        mon.event('matches', n)
    mon.eq(lines, [''], 'complexity matches', 'lines')


WORKLOADS = [Workload('markbugs', markbugs, 3000, 40000), Workload('featsbugs', featsbugs, 1200, 15000), Workload('fixed', fixed, 1500, 15000), Workload('findbug', findbug, 1500, 6000),
             Workload('mwe', mwe, 1500, 15000), Workload('msf', msf, 3000, 40000), Workload('casetable', casetable, 350, 350), Workload('complexity', complexity, 6000, 30000)]
NEEDS = ['oracle.bugs', 'oracle.overview', 'oracle.features', 'oracle.mwt bugs', 'oracle.fixed', 'oracle.bug found', 'oracle.mwe', 'oracle.mwe relations', 'oracle.msf', 'oracle.abstract subjects',
         'oracle.case table', 'oracle.complexity', 'oracle.complexity matches', 'oracle.rest unchanged', 'events.not fixed', 'events.bugs found', 'events.known adpositions', 'events.abstract subjects', 'events.t-units',
         'events.mwt bugs', 'events.feats bugs', 'events.mwe relations'] + ['events.bug.' + b for b in
         'aux-chain fixed-chain goeswith-chain list-chain flat-rightheaded fixed-rightheaded conj-rightheaded appos-rightheaded goeswith-rightheaded list-rightheaded cop-upos mark-upos det-upos '
         'punct-upos no-PronType no-NumType no-VerbForm finverb-upos finverb-mood multi-subj multi-obj child goeswith-gap goeswith-space sym-alpha punct-alpha punct-deprel punct-nonproj '
         'punct-nonproj-gap cop-many-lemmas'.split()]
