PROPERTY = 'C14'
NEEDS = 'two discontinuous mentions with the same first word and the same number of words, the one with the alphabetically smaller entity ID ending later'
BREAKS = 'such mentions are ordered by entity ID instead of their last word'
EDITS = [('udapi/core/coref.py', '            if another._words[-1].precedes(self._words[-1]):\n                return False\n            return self._entity.eid', '            return self._entity.eid')]
DEMO = '''
from udapi.core.document import Document
def load(rows, head=''):
    text = head + ''.join('\\t'.join(str(c) for c in r) + '\\n' for r in rows) + '\\n'
    d = Document(); d.from_conllu_string(text); return d
def simple(heads, **kw):
    return load([(i, f'w{i}', f'l{i}', 'X', '_', '_', h, 'dep', '_', '_') for i, h in enumerate(heads, 1)])

d = simple([0, 1, 1])
n = list(d.nodes)
e1, e2 = d.create_coref_entity('e1'), d.create_coref_entity('e2')
m1 = e1.create_mention(words=[n[0], n[2]])
m2 = e2.create_mention(words=[n[0], n[1]])
assert not m1 < m2 and m2 < m1
assert [m.entity.eid for m in d.coref_mentions] == ['e2', 'e1']
'''
