PROPERTY = 'C06'
NEEDS = 'a leaf shifted after the subtree of an ancestor whose rightmost node is the leaf itself'
BREAKS = 'the node is placed relative to itself instead of relative to the rest of the subtree (word order is corrupted)'
EDITS = [('udapi/core/node.py', '            if node._ord > ref_ord and node is not self:\n', '            if node._ord > ref_ord and (node is not self or not without_children):\n')]
DEMO = '''
from udapi.core.document import Document
def load(rows, head=''):
    text = head + ''.join('\\t'.join(str(c) for c in r) + '\\n' for r in rows) + '\\n'
    d = Document(); d.from_conllu_string(text); return d
def simple(heads, **kw):
    return load([(i, f'w{i}', f'l{i}', 'X', '_', '_', h, 'dep', '_', '_') for i, h in enumerate(heads, 1)])

# w1 <- w4 (the last word of its subtree); w2, w3 depend on w1. w4 with children w5
d = simple([0, 1, 1, 1])
r = next(d.trees); n = r.descendants
n[3].shift_after_subtree(n[0])
assert [x.form for x in r.descendants] == ['w1', 'w2', 'w3', 'w4']
d = simple([0, 1, 1, 1, 0])
r = next(d.trees); n = r.descendants
n[3].shift_after_subtree(n[0])
assert [x.form for x in r.descendants] == ['w1', 'w2', 'w3', 'w4', 'w5']
d = simple([0, 1, 1, 0, 1, 0, 2])
r = next(d.trees); n = r.descendants
n[6].shift_after_subtree(n[0])
assert [x.form for x in r.descendants] == ['w1', 'w2', 'w3', 'w4', 'w5', 'w7', 'w6'], [x.form for x in r.descendants]
'''
