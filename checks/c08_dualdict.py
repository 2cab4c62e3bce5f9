"""C08: FEATS, MISC and relation labels: string and structured views agree."""
import copy

from lib import gen
from lib.vf import Workload
from udapi.core.document import Document
from udapi.core.dualdict import DualDict
from udapi.core.feats import Feats
from udapi.core.node import Node

ID = 'C08'
RULE = 'distinct (operation prefix hash, resulting mapping) states; after every operation string and mapping views are compared with a reference dict'
NEEDS = ['oracle.string view', 'oracle.mapping view', 'oracle.copies are independent', 'oracle.relation parts', 'oracle.verbatim string']
ASSUMPTIONS = ['keys contain neither | nor =, values no |; whole-mapping assignment uses non-empty values',
               'after a deletion of an absent key the string may be either the verbatim or the sorted serialization of the same mapping']
KEYS = gen.FEAT_NAMES + gen.MISC_NAMES + ['SpaceAfter', 'A', 'b', 'B2', 'c', '_x', 'Č', 'Number[psor]']
VALUES = gen.FEAT_VALUES + ['a=b', 'x y', '0', '=', 'č', '\\s', True]


class Ref:
    """Reference: a dict plus the verbatim string, if one was assigned and nothing changed since."""

    def __init__(self):
        self.d, self.verbatim, self.loose = {}, None, None

    def string(self):
        if self.verbatim is not None:
            return self.verbatim
        return gen_string(self.d)

    def assign(self, s):
        self.verbatim = s or '_'
        self.loose = None
        self.d = {}
        if self.verbatim != '_':
            for kv in self.verbatim.split('|'):
                k, eq, v = kv.partition('=')
                self.d[k] = v if eq else True

    def set(self, k, v):
        if v is None or v == '':
            self.delete(k, maybe=True)
        else:
            self.d[k] = v
            self.verbatim = None

    def delete(self, k, maybe=False):
        if k in self.d:
            del self.d[k]
            self.verbatim = None
        elif maybe and self.verbatim is not None:
            self.loose = True


def gen_string(d):
    if not d:
        return '_'
    items = sorted(d.items(), key=lambda kv: kv[0].lower())
    return '|'.join(k if v is True else f'{k}={v}' for k, v in items)


def rand_pairs(rng, n):
    keys, seen = [], set()
    for k in rng.sample(KEYS, n):
        if k.lower() not in seen:
            seen.add(k.lower())
            keys.append(k)
    return [(k, rng.choice(VALUES)) for k in keys]


class Slot:
    """A place where a DualDict lives: free-standing, node.feats, node.misc, mwt.misc."""

    def __init__(self, rng, kind, root, mwt):
        self.kind = kind
        if kind == 'free':
            self.dd = DualDict() if rng.random() < 0.5 else Feats()
        elif kind in ('feats', 'misc'):
            self.owner = rng.choice(root.descendants)
        elif kind == 'mwt':
            self.owner = mwt
        elif kind == 'root':
            self.owner = root

    def get(self):
        if self.kind == 'free':
            return self.dd
        return self.owner.feats if self.kind == 'feats' else self.owner.misc

    def assign(self, value):
        if self.kind == 'free':
            self.dd.set_mapping(value)
        elif self.kind == 'feats':
            self.owner.feats = value
        else:
            self.owner.misc = value


def check(mon, dd, ref, log, rng):
    """Compare the two views, in random order (the views are lazily synchronized)."""
    def strings():
        got = str(dd)
        if ref.loose and ref.verbatim is not None and got != ref.verbatim:
            ref.verbatim = None
        ref.loose = None
        mon.eq(got, ref.string(), 'verbatim string' if ref.verbatim is not None else 'string view', lambda: log)

    def mapping():
        views = [lambda: mon.eq(dict(dd), ref.d, 'mapping view', lambda: log), lambda: mon.eq(len(dd), len(ref.d), 'mapping view', 'len'),
                 lambda: mon.eq(sorted(dd), sorted(ref.d), 'mapping view', 'iteration')]
        rng.shuffle(views)
        for f in views:
            f()

    def items():
        for k in rng.sample(KEYS, 4) + list(ref.d)[:2]:
            mon.eq(dd[k], ref.d.get(k, ''), 'mapping view', lambda: f'item {k} after {log}')
            mon.eq(k in dd, k in ref.d, 'mapping view', lambda: f'membership of {k} after {log}')
    order = [strings, mapping, items]
    rng.shuffle(order)
    for f in order[:rng.randint(0, 3)]:
        f()
    return order


def history(rng, mon, i):
    doc = Document()
    root = doc.create_bundle().create_tree()
    for k in range(4):
        kw = {}
        if rng.random() < 0.3:
            kw = dict(feats='Case=Nom', misc='A=1')
        root.create_child(form=f'w{k}', **kw)
    mwt = root.create_multiword_token(root.descendants[:2], form='w')
    slot = Slot(rng, rng.choice(['free', 'feats', 'misc', 'misc', 'mwt', 'root']), root, mwt)
    ref = Ref()
    start = str(slot.get())
    ref.assign(start)
    log = [slot.kind]
    mon.note(history=log)
    for _ in range(rng.randint(3, 25)):
        dd = slot.get()
        op = rng.choice(['set', 'set', 'set', 'del', 'empty', 'none', 'string', 'string', 'mapping', 'clear', 'assign none', 'update', 'copy',
                         'pop', 'self', 'from other', 'assign empty', 'dualdict'])
        k, v = rng.choice(KEYS), rng.choice(VALUES)
        if ref.d and rng.random() < 0.5:
            k = rng.choice(sorted(ref.d))
        if any(k.lower() == x.lower() and k != x for x in ref.d):
            continue
        log.append((op, k, v))
        if op == 'set':
            dd[k] = v
            ref.set(k, v)
        elif op == 'del':
            del dd[k]
            ref.delete(k)
        elif op == 'empty':
            dd[k] = ''
            ref.set(k, '')
        elif op == 'none':
            dd[k] = None
            ref.set(k, None)
        elif op == 'pop':
            got = dd.pop(k)
            mon.eq(got, ref.d.get(k, ''), 'mapping view', 'pop')
            ref.delete(k, maybe=True)
        elif op in ('string', 'mapping', 'dualdict', 'update', 'from other'):
            pairs = rand_pairs(rng, rng.randint(0 if op != 'update' else 1, 4))
            log[-1] = (op, pairs)
            if op == 'string':
                rng.shuffle(pairs)
                pairs = [(a, '') if b is not True and rng.random() < 0.1 else (a, b) for a, b in pairs]      # A= with an empty value
                s = '|'.join(a if b is True else f'{a}={b}' for a, b in pairs) or rng.choice(['', '_'])
                if pairs and rng.random() < 0.1:        # a repeated key: the last value counts
                    s += f'|{pairs[0][0]}=again'
                    mon.event('repeated key')
                slot.assign(s)
                ref.assign(s)
            elif op == 'mapping':
                src = dict(pairs)
                slot.assign(src)
                ref.d, ref.verbatim = dict(pairs), None
                src['Changed'] = 'later'
            elif op == 'update':
                pairs = [(a, b) for a, b in pairs if not any(a.lower() == x.lower() and a != x for x in ref.d)]
                dd.update(dict(pairs))
                for a, b in pairs:
                    ref.set(a, b)
            else:
                src = DualDict(gen_string(dict(pairs))) if op == 'dualdict' else Node(root, misc=gen_string(dict(pairs))).misc
                if rng.random() < 0.3:
                    _ = src['A']
                slot.assign(src)
                ref.d, ref.verbatim = dict(src), None
                src['Changed'] = 'later'
        elif op == 'clear':
            dd.clear()
            ref.assign('_')
        elif op == 'assign none':
            slot.assign(None)
            ref.assign('_')
        elif op == 'assign empty':
            slot.assign('')
            ref.assign('_')
        elif op == 'self':
            slot.assign(slot.get())
            if ref.verbatim is not None:
                ref.loose = True
        elif op == 'copy':
            c = rng.choice([lambda: dd.copy(), lambda: copy.deepcopy(dd), lambda: copy.copy(dd) if False else dd.copy()])()
            mon.ok(type(c) is type(dd) and dict(c) == ref.d and str(c) == str(dd), 'copies are independent', lambda: log)
            ref.loose = None if ref.verbatim == str(dd) else ref.loose
            c['Changed'] = 'in the copy'
            mon.ok('Changed' not in dd and 'Changed' not in str(dd), 'copies are independent', lambda: log)
            c2 = dd.copy()
            dd['ChangedOrig'] = '1'
            mon.ok('ChangedOrig' not in c2 and 'ChangedOrig' not in str(c2), 'copies are independent', lambda: log)
            del dd['ChangedOrig']
            ref.verbatim = None
        mon.event('op.' + op)
        rest = check(mon, slot.get(), ref, log, rng)
        mon.state('state', repr((log[-2:], sorted(ref.d.items(), key=str))))
    for f in rest:
        f()
    if slot.kind in ('feats', 'misc', 'mwt') and all(isinstance(v, (str, bool)) for v in ref.d.values()):
        # the stored file shows the same string
        out = doc.to_conllu_string()
        col = 5 if slot.kind == 'feats' else 9
        key = '1-2' if slot.kind == 'mwt' else str(slot.owner.ord)
        line = next(x for x in out.split('\n') if x.split('\t')[0] == key)
        mon.eq(line.split('\t')[col], str(slot.get()), 'stored column')
    # a whole value taken over from another word is a copy, also by a word which had none
    a, b = (root.create_child(form=f, feats=rng.choice([None, 'Case=Gen', '_'])) for f in 'ab')
    if rng.random() < 0.5:
        a.feats['Case'] = 'Acc'
        a.misc['X'] = 'y'
    was = str(a.feats), str(a.misc)
    b.feats, b.misc = a.feats, a.misc
    mwt.feats, mwt.misc = a.feats, a.misc
    mon.eq((str(b.feats), str(b.misc), str(mwt.feats), str(mwt.misc)), was + was, 'copies are independent')
    for x in (b, mwt):
        x.feats['Number'] = 'Dual'
        x.misc['X'] = 'z'
        mon.eq((str(a.feats), str(a.misc)), was, 'copies are independent', 'another word changed')
    b.feats = a.feats
    a.feats['Poss'] = 'Yes'
    mon.ok('Poss' not in b.feats and 'Poss' not in mwt.feats, 'copies are independent', 'original changed')
    feats = Feats({'Number': rng.choice(['Sing', 'Plur', 'Dual', 'Plur,Sing', 'Dual,Plur', 'Sing,Tri'])})
    mon.eq((feats.is_singular(), feats.is_plural()), ('Sing' in feats['Number'], 'Plur' in feats['Number']), 'number tests')


def deprel(rng, mon, i):
    root = Document().create_bundle().create_tree()
    node = root.create_child(form='x')
    u, s = None, None
    log = []
    mon.note(history=log)
    for _ in range(rng.randint(2, 15)):
        op = rng.choice(['deprel', 'udeprel', 'sdeprel', 'none'])
        if op == 'deprel':
            u, s = rng.choice(['nsubj', 'obl', 'x']), rng.choice(['', 'pass', 'arg', 'a:b', 'in:loc:gen'])
            node.deprel = u + (':' + s if s else '')
        elif op == 'none':
            node.deprel, u, s = None, None, None
        elif op == 'udeprel':
            u = rng.choice(['nmod', 'acl', 'dep'])
            s = s or ''
            node.udeprel = u
        else:
            if u is None:
                continue
            s = rng.choice(['', None, 'relcl', 'v:w', 'x']) or ''
            node.sdeprel = s if s or rng.random() < 0.5 else None
        log.append((op, u, s))
        want = None if u is None else u + (':' + s if s else '')
        mon.eq((node.deprel, node.udeprel, node.sdeprel), (want, u, s), 'relation parts', lambda: log)
        mon.state('state', repr(log[-2:]))


WORKLOADS = [Workload('history', history, 36000, 216000), Workload('deprel', deprel, 6000, 36000)]
