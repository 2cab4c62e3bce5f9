PROPERTY = 'C05'
NEEDS = 'moving words whose remaining child precedes another child of the old root'
BREAKS = 'children of the technical root of the old tree are not in word order'
EDITS = [('udapi/core/root.py', '                    old_root._children = sorted(old_root._children + [child])\n', '                    old_root._children.append(child)\n')]
DEMO = '''
from udapi.core.document import Document
def load(rows, head=''):
    text = head + ''.join('\\t'.join(str(c) for c in r) + '\\n' for r in rows) + '\\n'
    d = Document(); d.from_conllu_string(text); return d
def simple(heads, **kw):
    return load([(i, f'w{i}', f'l{i}', 'X', '_', '_', h, 'dep', '_', '_') for i, h in enumerate(heads, 1)])

d = simple([3, 3, 0, 0])
d2 = simple([0])
t = next(d.trees); n = t.descendants
next(d2.trees).steal_nodes([n[2]])
assert [x.form for x in t.children] == ['w1', 'w2', 'w4'], [x.form for x in t.children]
'''
