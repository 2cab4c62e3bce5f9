PROPERTY = 'C07'
NEEDS = 'a gap whose only witness is the word immediately following the node'
BREAKS = 'is_nonprojective_gap returns False for a node inside a gap'
EDITS = [('udapi/core/node.py', '        for right_node in all_nodes[self._ord:]:\n', '        for right_node in all_nodes[self._ord + 1:]:\n')]
DEMO = '''
from udapi.core.document import Document
def load(rows, head=''):
    text = head + ''.join('\\t'.join(str(c) for c in r) + '\\n' for r in rows) + '\\n'
    d = Document(); d.from_conllu_string(text); return d
def simple(heads, **kw):
    return load([(i, f'w{i}', f'l{i}', 'X', '_', '_', h, 'dep', '_', '_') for i, h in enumerate(heads, 1)])

# w1 root, w2 attached to the root, w3 depends on w1: w2 is in the gap between w1 and w3
d = simple([0, 0, 1])
n = next(d.trees).descendants
assert [x.is_nonprojective_gap() for x in n] == [False, True, False]
'''
