PROPERTY = 'C31'
NEEDS = 'a participle with a present and a past auxiliary which differ in person'
BREAKS = 'msf.slavic.Past takes the person from the wrong auxiliary'
EDITS = [('udapi/block/msf/slavic/past.py', '\t\t\t\tif len(aux_pqp) > 0:\n', '\t\t\t\tif len(aux_pqp) > 0 and len(aux) == 0:\n')]
DEMO = '''
from udapi.core.document import Document
def load(rows, head=''):
    text = head + ''.join('\\t'.join(str(c) for c in r) + '\\n' for r in rows) + '\\n'
    d = Document(); d.from_conllu_string(text); return d
def simple(heads, **kw):
    return load([(i, f'w{i}', f'l{i}', 'X', '_', '_', h, 'dep', '_', '_') for i, h in enumerate(heads, 1)])

from udapi.core.run import create_block
rows = [(1,'jsem','být','AUX','_','Person=1|Tense=Pres',3,'aux','_','_'),(2,'byl','být','AUX','_','Person=2|Tense=Pqp',3,'aux','_','_'),(3,'viděl','vidět','VERB','_','Number=Sing|VerbForm=Part',0,'root','_','_')]
d = load(rows)
create_block('msf.slavic.Past').process_document(d)
n = list(d.nodes)[2]
assert n.misc['PhrasePerson'] == '2', str(n.misc)
'''
