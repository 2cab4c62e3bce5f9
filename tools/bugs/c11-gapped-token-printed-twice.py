PROPERTY = 'C11'
NEEDS = 'a multi-word token whose words are not adjacent (a word was shifted between them) and has its second word far away'
BREAKS = 'the token line is printed again at a later word of the same token'
EDITS = [('udapi/block/write/conllu.py', 'last_mwt_id = mwt.words[-1]._ord\n', 'last_mwt_id = node._ord + len(mwt.words) - 1\n')]
DEMO = '''
from udapi.core.document import Document
def load(rows, head=''):
    text = head + ''.join('\\t'.join(str(c) for c in r) + '\\n' for r in rows) + '\\n'
    d = Document(); d.from_conllu_string(text); return d
def simple(heads, **kw):
    return load([(i, f'w{i}', f'l{i}', 'X', '_', '_', h, 'dep', '_', '_') for i, h in enumerate(heads, 1)])

rows = [('1-2','ab','_','_','_','_','_','_','_','_'),(1,'a','_','X','_','_',0,'root','_','_'),(2,'b','_','X','_','_',1,'dep','_','_'),(3,'c','_','X','_','_',1,'dep','_','_'),(4,'d','_','X','_','_',1,'dep','_','_')]
d = load(rows)
n = list(d.nodes)
n[1].shift_after_node(n[3])
ranges = [l.split('\\t')[0] for l in d.to_conllu_string().split('\\n') if l and '-' in l.split('\\t')[0]]
assert ranges == ['1-4'], ranges
'''
