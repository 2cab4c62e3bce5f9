"""Vocabulary harvested from the source of a block: constants it compares attributes of nodes with (they only steer the generator towards
the block's conditions; no judgement depends on them)."""
import ast
import json
import os
import random
import re
import warnings
try:
    from re import _parser as sre
except ImportError:      # pragma: no cover
    import sre_parse as sre

UPOS = {'ADJ', 'ADP', 'ADV', 'AUX', 'CCONJ', 'CONJ', 'DET', 'INTJ', 'NOUN', 'NUM', 'PART', 'PRON', 'PROPN', 'PUNCT', 'SCONJ', 'SYM', 'VERB', 'X'}
DEPREL = re.compile(r'^[a-z]{2,12}(:[a-z]+)*$')
ATTRS = {'form': 'form', 'lemma': 'lemma', 'upos': 'upos', 'xpos': 'xpos', 'deprel': 'deprel', 'udeprel': 'deprel', 'sdeprel': 'sub'}


def from_regex(rng, pattern):
    """A string matching the pattern, as far as a simple sampler goes."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return _sample(rng, sre.parse(pattern))
    except (re.error, ValueError, KeyError, TypeError):
        return None


def _sample(rng, tokens):
    out = []
    for op, arg in tokens:
        name = str(op)
        if name == 'LITERAL':
            out.append(chr(arg))
        elif name == 'NOT_LITERAL':
            out.append('x')
        elif name == 'ANY':
            out.append(rng.choice('abx'))
        elif name == 'IN':
            out.append(_one(rng, arg))
        elif name == 'BRANCH':
            out.append(_sample(rng, rng.choice(arg[1])))
        elif name == 'SUBPATTERN':
            out.append(_sample(rng, arg[-1]))
        elif name in ('MAX_REPEAT', 'MIN_REPEAT'):
            lo, hi, sub = arg
            for _ in range(rng.randint(lo, min(int(hi), lo + 2))):
                out.append(_sample(rng, sub))
    return ''.join(out)


def _one(rng, items):
    op, arg = rng.choice(items)
    name = str(op)
    if name == 'LITERAL':
        return chr(arg)
    if name == 'RANGE':
        return chr(rng.randint(arg[0], arg[1]))
    if name == 'CATEGORY':
        return {'CATEGORY_DIGIT': '7', 'CATEGORY_SPACE': ' ', 'CATEGORY_WORD': 'w'}.get(str(arg), 'q')
    return 'z'


def frozen(name):
    """The vocabulary of a block as it was harvested by tools/mkvocab.py (later edits of the block do not move the generator)."""
    if not _FROZEN:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'vocab.json'), encoding='utf-8') as fh:
            _FROZEN.update(json.load(fh))
    return Vocab(None, _FROZEN[name])


_FROZEN = {}


class Vocab:
    def __init__(self, source, saved=None):
        if saved is not None:
            self.by_attr = {k: set(v) for k, v in saved['by_attr'].items()}
            self.feats = {k: set(v) for k, v in saved['feats'].items()}
            self.misc = {k: set(v) for k, v in saved['misc'].items()}
            self.any = list(saved['any'])
            self.patterns = {k or None: v for k, v in saved['patterns'].items()}
            self._derive()
            return
        self.by_attr = {}      # attribute -> constants
        self.feats, self.misc = {}, {}
        self.any = set()
        self.patterns = {}     # attribute or None -> regular expressions
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(source)
        docs = {id(n.body[0].value) for n in ast.walk(tree)
                if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr)}
        for n in ast.walk(tree):
            if isinstance(n, ast.Compare):
                sides = [n.left] + n.comparators
                keys = [k for s in sides for k in self._attrs(s)]
                consts = [c for s in sides for c in self._consts(s)]
                for k in keys:
                    self._add(k, consts)
            elif isinstance(n, ast.Call):
                name = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', '')
                if name in ('match', 'search', 'fullmatch', 'sub', 'compile') and n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
                    keys = [k for a in n.args[1:] for k in self._attrs(a)] or [None]
                    for k in keys:
                        self.patterns.setdefault(k, []).append(n.args[0].value)
                elif name in ('startswith', 'endswith') and isinstance(n.func, ast.Attribute):
                    for k in self._attrs(n.func.value):
                        self._add(k, [c for a in n.args for c in self._consts(a)])
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and id(n) not in docs and 0 < len(n.value) < 30 and '\n' not in n.value:
                self.any.update(w for w in n.value.split() if not re.search(r'[|\t]', w))
        self.any = sorted(self.any)
        self._derive()

    def dump(self):
        pat = {k or '': v for k, v in self.patterns.items() if not isinstance(k, tuple)}
        return dict(by_attr={k: sorted(v) for k, v in self.by_attr.items()}, feats={k: sorted(v) for k, v in self.feats.items()},
                    misc={k: sorted(v) for k, v in self.misc.items()}, any=self.any, patterns=pat)

    def _derive(self):
        self.upos = sorted(UPOS & set(self.any)) or ['NOUN', 'VERB']
        self.deprels = sorted(x for x in self.any if DEPREL.match(x))

    def _attrs(self, n):
        """Which attributes an expression looks at."""
        out = []
        for m in ast.walk(n):
            if isinstance(m, ast.Attribute) and m.attr in ATTRS:
                out.append(ATTRS[m.attr])
            elif isinstance(m, ast.Subscript) and isinstance(m.value, ast.Attribute) and m.value.attr in ('feats', 'misc') and isinstance(m.slice, ast.Constant):
                out.append((m.value.attr, str(m.slice.value)))
        return out

    def _consts(self, n):
        return [m.value for m in ast.walk(n) if isinstance(m, ast.Constant) and isinstance(m.value, str) and m.value and not re.search(r'[|\t\n]', m.value)]

    def _add(self, key, consts):
        if isinstance(key, tuple):
            d = self.feats if key[0] == 'feats' else self.misc
            vals = d.setdefault(key[1], set())
            vals.update(c for c in consts if c != key[1] and '=' not in c)
        else:
            self.by_attr.setdefault(key, set()).update(consts)

    def pick(self, rng, attr):
        pool = sorted(self.by_attr.get(attr, ()))
        pats = self.patterns.get(attr, []) + (self.patterns.get(None, []) if attr in ('form', 'lemma') else [])
        if pats and (not pool or rng.random() < 0.4):
            s = from_regex(rng, rng.choice(pats))
            if s:
                return re.sub(r'[\t\n|]', '', s) or None
        if pool and rng.random() < 0.8:
            return rng.choice(pool)
        if attr in ('form', 'lemma') and self.any:
            return rng.choice(self.any)
        if attr == 'upos':
            return rng.choice(self.upos)
        if attr == 'deprel' and self.deprels:
            return rng.choice(self.deprels)
        return None

    def season(self, rng, sents, p=None):
        """Replace attributes of random words by harvested constants."""
        p = rng.choice([0.2, 0.5, 0.8]) if p is None else p
        for s in sents:
            for w in s.words:
                for attr in ('form', 'lemma', 'upos', 'xpos', 'deprel'):
                    if rng.random() < p:
                        x = self.pick(rng, attr)
                        if x and (attr != 'form' or not re.search(r'^\s|\s$', x)):
                            w[attr] = x if not (attr == 'form' and rng.random() < 0.2) else x.capitalize()
                if rng.random() < 0.2 and w['lemma'] != '_':
                    w['form'] = w['lemma']
                for col, d in (('feats', self.feats), ('misc', self.misc)):
                    if d and rng.random() < p:
                        items = dict(x.partition('=')[::2] for x in w[col].split('|') if x != '_')
                        for k in rng.sample(sorted(d), min(len(d), rng.choice([1, 1, 2, 4]))):
                            v = rng.choice(sorted(d[k]) or ['Yes'])
                            if k and v:
                                items[k] = v
                        w[col] = '|'.join(f'{k}={v}' if v else k for k, v in sorted(items.items(), key=lambda x: x[0].lower())) or '_'
        return sents

