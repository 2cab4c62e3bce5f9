PROPERTY = 'C24'
NEEDS = 'a word with deprel=cc between another cc and its conjunct'
BREAKS = 'cc followed by another cc is not re-attached to the following conjunct'
EDITS = [('udapi/block/ud/convert1to2.py', "next(n for n in siblings if node.precedes(n) and n.deprel != 'cc')", 'next(n for n in siblings if node.precedes(n))')]
DEMO = '''
from udapi.core.document import Document
def load(rows, head=''):
    text = head + ''.join('\\t'.join(str(c) for c in r) + '\\n' for r in rows) + '\\n'
    d = Document(); d.from_conllu_string(text); return d
def simple(heads, **kw):
    return load([(i, f'w{i}', f'l{i}', 'X', '_', '_', h, 'dep', '_', '_') for i, h in enumerate(heads, 1)])

from udapi.core.run import create_block
rows = [(1,'a','a','X','_','_',0,'root','_','_'),(2,'and','and','X','_','_',1,'cc','_','_'),(3,'also','also','X','_','_',1,'cc','_','_'),(4,'b','b','X','_','_',1,'conj','_','_')]
d = load(rows)
create_block('ud.Convert1to2').process_document(d)
assert [n.parent.ord for n in d.nodes] == [0, 4, 4, 1], [n.parent.ord for n in d.nodes]
'''
