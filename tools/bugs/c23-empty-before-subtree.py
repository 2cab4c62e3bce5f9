PROPERTY = 'C23'
NEEDS = 'drawing a subtree in a sentence with an empty node before the subtree'
BREAKS = 'the drawing of the subtree contains empty nodes which do not belong to its span (or fails)'
EDITS = [('udapi/block/write/textmodetrees.py', 'empty = [e for e in root._root.empty_nodes if e > allnodes[0] and e < allnodes[-1]]', 'empty = [e for e in root._root.empty_nodes if e < allnodes[-1]]')]
DEMO = '''
from udapi.core.document import Document
def load(rows, head=''):
    text = head + ''.join('\\t'.join(str(c) for c in r) + '\\n' for r in rows) + '\\n'
    d = Document(); d.from_conllu_string(text); return d
def simple(heads, **kw):
    return load([(i, f'w{i}', f'l{i}', 'X', '_', '_', h, 'dep', '_', '_') for i, h in enumerate(heads, 1)])

import io, contextlib
rows = [(1,'a','_','X','_','_',0,'root','_','_'),('1.1','E','_','X','_','_','_','_','0:root','_'),(2,'b','_','X','_','_',1,'dep','_','_'),(3,'c','_','X','_','_',2,'dep','_','_')]
d = load(rows)
n = list(d.nodes)[1]
with contextlib.redirect_stdout(io.StringIO()) as out:
    n.draw(color=False, print_sent_id=False, print_text=False, attributes='form')
assert 'E' not in out.getvalue() and 'b' in out.getvalue() and 'c' in out.getvalue(), out.getvalue()
'''
