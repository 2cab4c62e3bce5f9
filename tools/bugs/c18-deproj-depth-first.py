PROPERTY = 'C18'
NEEDS = 'two candidates with the marked relation at different depths, the deeper one under an earlier sibling'
BREAKS = 'deprojectivization re-attaches the word to a deeper candidate instead of the nearest one'
EDITS = [('udapi/block/transform/deproj.py', '            queue.extend(adept.children)\n', '            queue = adept.children + queue\n')]
DEMO = '''
from udapi.core.document import Document
def load(rows, head=''):
    text = head + ''.join('\\t'.join(str(c) for c in r) + '\\n' for r in rows) + '\\n'
    d = Document(); d.from_conllu_string(text); return d
def simple(heads, **kw):
    return load([(i, f'w{i}', f'l{i}', 'X', '_', '_', h, 'dep', '_', '_') for i, h in enumerate(heads, 1)])

from udapi.core.run import create_block
# w6 was lifted to w1 from a word with deprel=obj; w4 (obj) is a child of w1, w3 (obj) is below w2, an earlier sibling
rows = [(1,'a','_','X','_','_',0,'root','_','_'),(2,'b','_','X','_','_',1,'nsubj','_','_'),(3,'c','_','X','_','_',2,'obj','_','_'),
        (4,'d','_','X','_','_',1,'obj','_','_'),(5,'e','_','X','_','_',1,'dep','_','pproj=obj')]
d = load(rows)
create_block('transform.Deproj').process_document(d)
assert [n.parent.ord for n in d.nodes] == [0, 1, 2, 1, 4], [n.parent.ord for n in d.nodes]
'''
