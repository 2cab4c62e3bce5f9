PROPERTY = 'C31'
NEEDS = 'a contraction which starts a sentence (capitalized, not upper case)'
BREAKS = 'ud.de.FixHDT capitalizes the article split from a capitalized contraction'
EDITS = [('udapi/block/ud/de/fixhdt.py', 'up2 = 2 if up == 2 else 0', 'up2 = up')]
DEMO = '''
from udapi.core.document import Document
def load(rows, head=''):
    text = head + ''.join('\\t'.join(str(c) for c in r) + '\\n' for r in rows) + '\\n'
    d = Document(); d.from_conllu_string(text); return d
def simple(heads, **kw):
    return load([(i, f'w{i}', f'l{i}', 'X', '_', '_', h, 'dep', '_', '_') for i, h in enumerate(heads, 1)])

from udapi.core.run import create_block
rows = [(1,'Zum','zu','ADP','APPRART','PronType=Art',2,'case','_','_'),(2,'Haus','Haus','NOUN','NN','_',0,'root','_','_'),(3,'IM','in','ADP','APPRART','PronType=Art',2,'case','_','_')]
d = load(rows)
create_block('ud.de.FixHDT').process_document(d)
assert [n.form for n in d.nodes] == ['Zu', 'dem', 'Haus', 'IN', 'DEM'], [n.form for n in d.nodes]
'''
