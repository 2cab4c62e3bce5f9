PROPERTY = 'C09'
NEEDS = 'raw_deps assigned after deps of the same node have been accessed'
BREAKS = 'the assignment is ignored'
EDITS = [('udapi/core/node.py', '        self._raw_deps = value\n        self._deps = None\n', '        self._raw_deps = value\n        if not self._deps:\n            self._deps = None\n')]
DEMO = '''
from udapi.core.document import Document
def load(rows, head=''):
    text = head + ''.join('\\t'.join(str(c) for c in r) + '\\n' for r in rows) + '\\n'
    d = Document(); d.from_conllu_string(text); return d
def simple(heads, **kw):
    return load([(i, f'w{i}', f'l{i}', 'X', '_', '_', h, 'dep', '_', '_') for i, h in enumerate(heads, 1)])

d = simple([0, 1, 1])
n = next(d.trees).descendants
n[2].raw_deps = '1:nsubj'
assert n[2].deps[0]['parent'] is n[0]
n[2].raw_deps = '2:obj'
assert n[2].raw_deps == '2:obj' and n[2].deps[0]['parent'] is n[1]
'''
