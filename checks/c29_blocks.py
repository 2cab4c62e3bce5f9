"""C29: a converting, repairing or marking block keeps valid trees, touches only its kind of annotation, and treats every sentence by itself."""
import importlib
import re

from lib import gen, harvest, refconllu as ref
from lib.treelib import malformed
from lib.vf import Logs, Workload, captured
from udapi.core.document import Document
from udapi.core.node import CycleError
from udapi.block.write.conllu import Conllu

ID = 'C29'
RULE = 'distinct (block, parameters, document) triples whose result was compared column by column with the input, re-read from its stored form, and compared with the result sentence by sentence'
ASSUMPTIONS = ['the input is a treebank with UPOS and DEPREL filled in, where the relation root marks exactly the children of the technical root, and lemmas hold no vertical bar',
               'ad-hoc repairs of particular sentences (ud.ru.FixRemnant), blocks which need a model or the network, and zellig_harris are left out']
COLS = 'id form lemma upos xpos feats head deprel deps misc'.split()
# what each kind of block may change; 'WORDS' allows changing the number of words, 'surface' the text of the sentence
EDEPS = ['deps', 'depheads', 'head', 'deprel']
MSF = ['misc:MSF']
PHRASE = ['misc:Phrase']
BUG = ['misc:Bug$']
MWT = ['WORDS', 'mwt', 'empties']
BLOCKS = {
    'demo.complexity Complexity': ['misc:ClauseHead$'],
    'demo.rehangprepositions RehangPrepositions': ['head'],
    'msf.case Case': ['misc:MSFCase$', 'misc:MSFFunc$'],
    'msf.createabstract CreateAbstract': MSF + ['empties'],
    'msf.init Init': MSF + PHRASE,
    'msf.numphrase NumPhrase': ['misc:MSFCase$'],
    'msf.removefunc RemoveFunc': MSF,
    'msf.slavic.conditional Conditional': PHRASE,
    'msf.slavic.converb Converb': PHRASE,
    'msf.slavic.future Future': PHRASE,
    'msf.slavic.imperative Imperative': PHRASE,
    'msf.slavic.infinitive Infinitive': PHRASE,
    'msf.slavic.past Past': PHRASE,
    'msf.slavic.present Present': PHRASE,
    'msf.slavic.preprocessor Preprocessor': ['feats', 'upos', 'deprel'],
    'mwe.normalize Normalize': ['misc:Mwe$'],
    'mwe.possessives Possessives': ['misc:Mark$', 'misc:Bug$'],
    'mwe.tosubdeprels ToSubDeprels': ['deprel'],
    'transform.deproj Deproj': ['head', 'misc:pproj$'],
    'transform.flatten Flatten': ['head', 'deprel'],
    'transform.proj Proj': ['head', 'misc:pproj$'],
    'ud.addpuncttype AddPunctType': ['feats:Punct(Type|Side)$'],
    'ud.ar.fixedeprels FixEdeprels': EDEPS,
    'ud.basic2enhanced Basic2Enhanced': ['deps', 'depheads'],
    'ud.bg.removedotafterabbr RemoveDotAfterAbbr': MWT + ['surface'],
    'ud.ca.addmwt AddMwt': MWT,
    'ud.ca.elque ElQue': ['head', 'deprel', 'deps', 'depheads'],
    'ud.cs.addmwt AddMwt': MWT,
    'ud.cs.fixedeprels FixEdeprels': EDEPS,
    'ud.cs.markfeatsbugs MarkFeatsBugs': BUG,
    'ud.da.fixmultisubject FixMultiSubject': ['head', 'deprel', 'misc:ToDo$'],
    'ud.de.addmwt AddMwt': MWT,
    'ud.de.fixgsd FixGSD': ['feats', 'lemma', 'upos', 'xpos', 'deprel', 'WORDS', 'mwt', 'empties'],
    'ud.de.fixhdt FixHDT': MWT,
    'ud.el.addmwt AddMwt': MWT,
    'ud.en.setspaceafter SetSpaceAfter': ['misc:SpaceAfter$', 'mwt', 'text', 'surface'],
    'ud.es.addmwt AddMwt': MWT,
    'ud.es.elque ElQue': ['head', 'deprel', 'deps', 'depheads'],
    'ud.es.fixexclamation FixExclamation': MWT,
    'ud.es.fixtenerque FixTenerQue': ['head', 'deprel', 'upos', 'deps', 'depheads'],
    'ud.es.fixverbfeats FixVerbFeats': ['feats', 'lemma'],
    'ud.exgoogle2ud ExGoogle2ud': ['head', 'deprel', 'upos'],
    'ud.fixadvmodbyupos FixAdvmodByUpos': ['deprel'],
    'ud.fixchain FixChain': ['head'],
    'ud.fixcompoundname FixCompoundName': ['head', 'deprel'],
    'ud.fixleaf FixLeaf': ['head', 'deps', 'depheads'],
    'ud.fixmultisubjects FixMultiSubjects': ['deprel'],
    'ud.fixmwtspace FixMwtSpace': ['mwt'],
    'ud.fixpunct FixPunct': ['head', 'deprel'],
    'ud.fixpunctchild FixPunctChild': ['head'],
    'ud.fixrightheaded FixRightheaded': ['head', 'deprel'],
    'ud.fixroot FixRoot': ['head', 'deprel'],
    'ud.fr.addmwt AddMwt': MWT,
    'ud.ga.to2 To2': ['feats', 'upos', 'deprel', 'misc:ToDo$'],
    'ud.gl.to2 To2': ['head', 'deprel', 'misc:ToDo$'],
    'ud.goeswithfromtext GoeswithFromText': ['WORDS'],
    'ud.he.fixneg FixNeg': ['feats', 'upos', 'deprel', 'misc:ToDo$'],
    'ud.hi.fixaux FixAux': ['head', 'deprel', 'lemma', 'upos', 'feats'],
    'ud.id.addmwt AddMwt': MWT + ['feats'],
    'ud.id.fixgsd FixGSD': MWT + ['feats', 'upos', 'deprel', 'lemma', 'head', 'text', 'misc'],
    'ud.joinasmwt JoinAsMwt': ['mwt', 'misc:SpaceAfter$'],
    'ud.kk.fixspuriousaux FixSpuriousAux': ['head', 'deprel', 'upos'],
    'ud.la.addmwt AddMwt': MWT,
    'ud.la.markfeatsbugs MarkFeatsBugs': BUG,
    'ud.lemmatize Lemmatize': ['lemma'],
    'ud.lt.fixedeprels FixEdeprels': EDEPS,
    'ud.markbugs MarkBugs': BUG,
    'ud.markfeatsbugs MarkFeatsBugs': BUG,
    'ud.ml.markfeatsbugs MarkFeatsBugs': BUG,
    'ud.mr.addformsinmwt AddFormsInMwt': ['form', 'lemma'],
    'ud.printfixed PrintFixed': [],
    'ud.pt.addhyphenmwt AddHyphenMwt': MWT + ['misc:ToDo$', 'text'],
    'ud.pt.addmwt AddMwt': MWT + ['form', 'misc'],
    'ud.removemwt RemoveMwt': MWT,
    'ud.ro.fixneg FixNeg': ['feats', 'upos', 'deprel'],
    'ud.ro.setspaceafter SetSpaceAfter': ['misc:SpaceAfter$', 'mwt', 'text', 'surface'],
    'ud.ru.fixedeprels FixEdeprels': EDEPS,
    'ud.ru.fixtoest FixToEst': ['deprel', 'deps', 'depheads'],
    'ud.setspaceafter SetSpaceAfter': ['misc:SpaceAfter$', 'mwt', 'text', 'surface'],
    'ud.setspaceafterfromtext SetSpaceAfterFromText': ['misc:SpaceAfter$', 'mwt', 'empties'],
    'ud.sk.fixedeprels FixEdeprels': EDEPS,
    'ud.splitunderscoretokens SplitUnderscoreTokens': MWT,
    'ud.ug.fixspuriousaux FixSpuriousAux': ['head', 'deprel', 'upos'],
    'ud.yue.lemmatize Lemmatize': ['lemma'],
    'ud.zh.lemmatize Lemmatize': ['lemma', 'feats:Polarity$'],
    'ud.convert1to2 Convert1to2': ['feats', 'upos', 'head', 'deprel', 'comments', 'text', 'misc'],
    'util.markmwtbugsatnodes MarkMwtBugsAtNodes': BUG,
    'util.normalize Normalize': ['comments'],
}
NAMES = sorted(BLOCKS)
# repairs of a pattern which other annotation of the pattern's words may contradict
GIVES_UP = {'ud.es.elque ElQue': CycleError, 'ud.ca.elque ElQue': CycleError,
            'ud.sk.fixedeprels FixEdeprels': (CycleError, ValueError), 'ud.cs.fixedeprels FixEdeprels': CycleError}
PARAMS = {'ud.markbugs MarkBugs': dict(skip=['cop-many', 'cop-many|^no-']),   # the test of copulas counts them in the whole document
          'ud.es.elque ElQue': dict(fix=[None, 1]), 'ud.ca.elque ElQue': dict(fix=[None, 1])}


FORMS = {
    'ud.ca.addmwt': 'al als del dels Pel pels'.split(), 'ud.cs.addmwt': 'aby Kdyby abych kdybys abychom nač oč zač proč'.split(),
    'ud.de.addmwt': 'zum zur Im vom beim ins'.split(), 'ud.es.addmwt': 'al del Del dárselo comprarlo viéndola'.split(), 'ud.fr.addmwt': 'du des au aux Auquel'.split(),
    'ud.la.addmwt': 'mecum Tecum nobiscum virumque'.split(), 'ud.id.addmwt': 'bukunya kubaca kaubaca bukuku Membacanya rumahmu'.split(),
    'ud.pt.addhyphenmwt': ['-', '-', 'deu', 'se', 'al'], 'ud.splitunderscoretokens': ['a_b', 'Hillary_R_C', '_x', 'a__b', 'ab'],
    'ud.es.elque': ['el', 'que', 'cual', 'el', 'que'], 'ud.ca.elque': ['el', 'que', 'que', 'el'],
}
LEMMAS = {'ud.es.elque': FORMS['ud.es.elque'], 'ud.ca.elque': FORMS['ud.ca.elque'], 'ud.ru.fixtoest': ['то', 'быть'], 'ud.splitunderscoretokens': ['a_b', 'x_y_z', 'ab'],
          'ud.mr.addformsinmwt': ['चा', 'ची', 'वरती', 'मध्ये']}
UPOS = {'ud.es.elque': ['ADP', 'PRON', 'PRON', 'DET'], 'ud.ca.elque': ['ADP', 'PRON', 'PRON', 'DET'], 'ud.mr.addformsinmwt': ['NOUN', 'ADP', 'ADP', 'PART']}
DEPRELS = {'ud.ru.fixtoest': ['mark', 'fixed', 'mark', 'dep'], 'ud.fixchain': ['fixed', 'flat', 'goeswith'], 'ud.fixmultisubjects': ['nsubj', 'csubj:pass', 'nsubj:outer', 'obj'],
           'ud.da.fixmultisubject': ['nsubj', 'nsubj', 'xcomp', 'advcl', 'amod', 'cop'], 'ud.printfixed': ['fixed', 'fixed', 'case']}
MISC = {
    'msf.createabstract': {'MSFVerbForm': ['Fin', 'Fin', 'Inf'], 'MSFNumber': ['Sing', 'Plur'], 'MSFPerson': ['1', '3'], 'MSFPolite': ['Form'], 'MSFMood': ['Ind']},
    'mwe': {'Mwe': ['1:LVC.cause', '1', '2:VID', '1;2', '2', 'x', '3:IAV;1']},
    'transform.deproj': {'pproj': ['nsubj', 'obl', 'root', 'dep']},
    'ud.cs.addmwt': {'AddMwt': ['ab ť', 'a b c', 'ne ť']},
}


def spot(rng, sents, name):
    """Conditions of the block which its constants do not show."""
    name = name.split()[0]
    if name in ('ud.es.fixexclamation', 'ud.de.fixhdt', 'ud.de.fixgsd', 'ud.id.fixgsd'):   # tokenization of words which are tokens
        for s in sents:
            s.mwts = []
    for s in sents:
        for w in s.words:
            for table, attr in ((FORMS, 'form'), (LEMMAS, 'lemma'), (UPOS, 'upos'), (DEPRELS, 'deprel')):
                if name in table and rng.random() < 0.6 and (attr != 'deprel' or w['head']):
                    w[attr] = rng.choice(table[name])
            for key in (name, name.split('.')[0]):
                if key in MISC and rng.random() < 0.5:
                    items = dict(x.partition('=')[::2] for x in w['misc'].split('|') if x != '_')
                    for k, v in MISC[key].items():
                        if rng.random() < 0.6:
                            items[k] = rng.choice(v)
                    w['misc'] = '|'.join(f'{k}={v}' if v else k for k, v in sorted(items.items(), key=lambda x: x[0].lower())) or '_'
            if name == 'ud.setspaceafterfromtext' and rng.random() < 0.3:
                w['misc'] = '_'
            if name == 'ud.mr.addformsinmwt' and rng.random() < 0.7:
                w['form'] = '_'
            if name == 'ud.id.addmwt':
                form, morph, upos = rng.choice(INDONESIAN)
                w.update(form=form, xpos=rng.choice(['NSD+PS3', 'VSA+PS2']), upos=upos, misc='_' if rng.random() < 0.2 else 'MorphInd=' + morph)
            if name == 'ud.pt.addhyphenmwt' and w['form'] == '-' and any(a <= s.words.index(w) + 1 <= b for a, b, *_ in s.mwts):
                w['form'] = 'x'
            if name == 'ud.cs.addmwt' and 'AddMwt=' in w['misc']:
                w['form'] = 'abť'
            if name.endswith('fixedeprels') and w['deps'] != '_' and rng.random() < 0.8:
                adps = [x for x in CASES.get(name, CASES['ud.lt.fixedeprels'])]
                w['deps'] = '|'.join(e.split(':')[0] + ':' + rng.choice(['obl', 'obl', 'nmod', 'advcl', 'acl', 'acl:relcl', 'obl:arg']) + ':' + rng.choice(adps) +
                                     rng.choice(['', '', ':gen', ':acc', ':nom', ':loc', '_v:loc', '_' + rng.choice(adps)]) for e in w['deps'].split('|'))
                w['deps'] = '|'.join(sorted({e.split(':')[0]: e for e in w['deps'].split('|')}.values(), key=lambda e: float(e.split(':')[0])))
        if name == 'ud.markmwtbugsatnodes' or name == 'util.markmwtbugsatnodes':
            s.mwts = [(a, b, f, 'Bug=x') if rng.random() < 0.6 else (a, b, f, m) for a, b, f, m in s.mwts]
        if name == 'ud.pt.addhyphenmwt':
            s.mwts = [(a, b, 'x' if f == '-' else f, m) for a, b, f, m in s.mwts]
        if name == 'ud.fixmwtspace':
            s.mwts = [(a, b, ' '.join(w['form'] for w in s.words[a - 1:b]) if rng.random() < 0.6 else f, m) for a, b, f, m in s.mwts]
        if name == 'ud.mr.addformsinmwt':
            s.mwts = [(a, b, rng.choice(['घराचा', 'माझी', 'घरवरती', 'घरमध्ये', 'त्याच्या', 'घराच्यामध्ये']), m) for a, b, f, m in s.mwts]


INDONESIAN = [('bukunya', '^buku<n>_NSD+dia<p>_PS3$', 'NOUN'), ('Bukuku', '^buku<n>_NSD+aku<p>_PS1$', 'NOUN'), ('kubaca', '^aku<p>_PS1+baca<v>_VSA$', 'VERB'), ('X', '^x$', 'NOUN'),
              ('membacanya', '^meN+baca<v>_VSA+dia<p>_PS3$', 'VERB'), ('kaubaca', '^kamu<p>_PS2+baca<v>_VSA$', 'VERB'), ('dibacaku', '^di+baca<v>_VSP+aku<p>_PS1$', 'VERB'),
              ('semuanya', '^semua<c>_CD-+dia<p>_PS3$', 'PRON'), ('Dirinya', '^diri<n>_NSD+dia<p>_PS3$', 'PRON'), ('inipun', '^ini<b>_B--+pun<t>_T--$', 'DET'),
              ('baiknya', '^baik<a>_ASP+dia<p>_PS3$', 'ADJ'), ('didalamnya', '^dalam<r>_R--+dia<p>_PS3$', 'ADP')]
CASES = {
    'ud.ar.fixedeprels': ['في', 'إلى', 'على', 'عن', 'من'], 'ud.cs.fixedeprels': ['jako', 'na', 'během', 'když', 'počátek', 'v_duchu', 'až_počátek', 'než', 'kolem', 'po', 'mezi', 'podle', 'v'],
    'ud.lt.fixedeprels': ['kaip', 'apie', 'dėl', 'iki', 'už', 'po', 'nei', 'jei', 'per', 'lyg'], 'ud.ru.fixedeprels': ['в', 'на', 'как', 'чем', 'для', 'около', 'что', 'по'],
    'ud.sk.fixedeprels': ['ako', 'na', 'okrem', 'než', 'keď', 'počas', 'v', 'o', 'po', 'akoby'],
}


def document(rng, name, zones=False):
    vocab = harvest.frozen(name.split()[0])
    sents = vocab.season(rng, gen.gen_doc(rng, zones=zones, p_empty=0.15, json_comments=0, max_n=rng.choice([6, 10, 14])))
    labels = vocab.deprels or ['nsubj', 'obl']
    words = [x for x in vocab.any if re.match(r'^[^\W\d_]\w*$', x)] or ['x']
    for s in sents:
        for w in s.words:
            w['lemma'] = w['lemma'].replace('|', '/')
            if w['upos'] == '_':
                w['upos'] = 'X'
            if w['deprel'] == '_':
                w['deprel'] = 'dep'
            if w['head'] == 0:
                w['deprel'] = 'root'
            elif w['deprel'] == 'root':
                w['deprel'] = 'dep'
            if w['deps'] != '_' and rng.random() < 0.5:
                w['deps'] = '|'.join(sorted({e.split(':')[0]: e.split(':')[0] + ':' + rng.choice(labels) + ''.join(':' + rng.choice(words) for _ in range(rng.randint(0, 2)))
                                             for e in w['deps'].split('|')}.values(), key=lambda e: (float(e.split(':')[0]), e)))
    spot(rng, sents, name)
    return sents


def load(text):
    d = Document()
    d.from_conllu_string(text)
    return d


def footprint(a, b):
    """Which columns differ between two stored documents."""
    out = set()
    A, B = ref.parse(a), ref.parse(b)
    if len(A) != len(B):
        return {'SENTENCES'}
    for s, t in zip(A, B):
        if [c for c in s.comments if not c.startswith('# text =')] != [c for c in t.comments if not c.startswith('# text =')]:
            out.add('comments')
        if [c for c in s.comments if c.startswith('# text =')] != [c for c in t.comments if c.startswith('# text =')]:
            out.add('text')
        if s.mwts != t.mwts:
            out.add('mwt')
        if s.empties != t.empties:
            out.add('empties')
        if len(s.words) != len(t.words):
            out.add('WORDS')
            continue
        for x, y in zip(s.words, t.words):
            for k, c in enumerate(COLS):
                if x[k] == y[k]:
                    continue
                if c in ('feats', 'misc'):
                    p, q = [dict(z.partition('=')[::2] for z in w[k].split('|') if z != '_') for w in (x, y)]
                    diff = {f'{c}:{n}' for n in set(p) | set(q) if p.get(n) != q.get(n)}
                    out |= diff or {c + '-order'}
                elif c == 'deps':
                    p, q = [sorted(e.split(':')[0] for e in w[k].split('|')) for w in (x, y)]
                    out |= {'deps'} if p == q else {'deps', 'depheads'}
                else:
                    out.add(c)
    return out


def allowed(change, may):
    return any(change == m or (change.startswith(m + ':') and ':' not in m) or (':' in m and re.match(m, change)) for m in may)


def surface(doc):
    """The text of each sentence as its tokens give it, without spaces (form by form)."""
    return [''.join(tok.form or '' for tok in tree.token_descendants).replace('_', '') for tree in doc.trees]


def setting(rng, mon, i, zones=False):
    name = NAMES[i % len(NAMES)]
    module, cls = name.split()
    C = getattr(importlib.import_module('udapi.block.' + module), cls)
    params = {k: rng.choice(v) for k, v in PARAMS.get(name, {}).items()}
    params = {k: v for k, v in params.items() if v is not None}
    text = ''.join(s.conllu() for s in document(rng, name, zones=zones))
    mon.note(block=name, params=repr(params), input=text)
    return name, C, params, text


def run(C, docs, params=None, block=None, after=None):
    """Run a fresh (or the given) block over the documents as a scenario does; returns what it printed."""
    with captured() as buf, Logs():
        b = block if block is not None else C(**params)
        if block is None:
            b.process_start()
        for d in docs:
            b.apply_on_document(d)
        if block is None:
            b.process_end()
    return buf.getvalue()


def case(rng, mon, i):
    name, C, params, text = setting(rng, mon, i)
    module, may = name.split()[0], BLOCKS[name]
    doc = load(text)
    before = doc.to_conllu_string()
    surf = surface(doc)
    try:
        out = run(C, [doc], params)
    except GIVES_UP.get(name, ()):
        mon.event('gave up.' + module)
        return
    for t in doc.trees:
        mon.ok(malformed(t) is None, 'well-formed', lambda: f'{name}: {malformed(t)}')
    after = doc.to_conllu_string()
    mon.note(after=after)
    mon.state('input', repr((name, sorted(params.items()), text)))
    mon.event('block.' + module)
    change = footprint(before, after)
    if change:
        mon.event('changed.' + module)
    if name.endswith('ElQue') and not params:
        may = []
    bad = sorted(c for c in change if not allowed(c, may))
    mon.eq(bad, [], 'footprint', name)
    if 'surface' not in may and 'WORDS' in may:
        dash = str.maketrans({'–': '-'}) if name.startswith('ud.id.fixgsd') else {}   # it turns n-dashes into hyphens
        mon.eq([x.translate(dash).replace('--', '-') if dash else x for x in surface(doc)],
               [x.translate(dash).replace('--', '-') if dash else x for x in surf], 'surface', name)
    mon.eq(load(after).to_conllu_string(), after, 're-read', name)
    # the same again
    doc2 = load(text)
    out2 = run(C, [doc2], params)
    mon.eq((doc2.to_conllu_string(), out2), (after, out), 'repeatable', name)


def sentences(rng, mon, i):
    """The result for a document is the results for its sentences; a block keeps nothing from earlier documents."""
    name, C, params, text = setting(rng, mon, i)
    parts = [p + '\n\n' for p in text.split('\n\n') if p.strip()]
    doc = load(text)
    try:
        run(C, [doc], params)
        whole = doc.to_conllu_string()
        alone = []
        for p in parts:
            d = load(p)
            run(C, [d], params)
            alone.append(d.to_conllu_string())
        docs = [load(p) for p in parts]
        order = rng.sample(docs, len(docs))
        again = load(text)
        run(C, order + [again], params)
    except GIVES_UP.get(name, ()):
        return
    mon.state('input', repr((name, sorted(params.items()), text)))
    if len(parts) > 1:
        mon.event('several sentences')
    mon.eq(''.join(alone), whole, 'sentence by sentence', name)
    mon.eq([d.to_conllu_string() for d in docs], alone, 'reused block', f'{name} over {len(docs)} documents')
    mon.eq(again.to_conllu_string(), whole, 'reused block', f'{name} after {len(docs)} documents')


def zones(rng, mon, i):
    """With zones=X the trees of X are changed as they would be without it, the other trees stay as they are."""
    name, C, params, text = setting(rng, mon, i, zones=True)
    doc = load(text)
    present = sorted({t.zone for t in doc.trees})
    chosen = rng.sample(present, rng.randint(1, min(2, len(present))))
    mon.note(zones=chosen)

    def stored(d):
        return [(t.zone, conllu(t)) for t in d.trees]
    before = stored(doc)
    full = load(text)
    try:
        run(C, [full], params)
        run(C, [doc], dict(params, zones=','.join(z or '' for z in chosen)))
    except GIVES_UP.get(name, ()):
        return
    want = [x if x[0] in chosen else y for x, y in zip(stored(full), before)]
    mon.event('zones' if len(present) > len(chosen) else 'all zones')
    mon.eq(stored(doc), want, 'zones', f'{name} zones={chosen}')


def conllu(t):
    with captured() as buf:
        w = Conllu(print_sent_id=False)
        w.process_tree(t)
    return buf.getvalue()


WORKLOADS = [Workload('blocks', case, len(NAMES) * 90, len(NAMES) * 400), Workload('sentences', sentences, len(NAMES) * 30, len(NAMES) * 150),
             Workload('zones', zones, len(NAMES) * 20, len(NAMES) * 100)]
NEEDS = ['oracle.well-formed', 'oracle.footprint', 'oracle.surface', 'oracle.re-read', 'oracle.repeatable', 'oracle.sentence by sentence', 'oracle.reused block', 'oracle.zones',
         'events.several sentences', 'events.zones'] + ['events.block.' + n.split()[0] for n in NAMES]
