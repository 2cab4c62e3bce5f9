PROPERTY = 'C31'
NEEDS = 'an auxiliary whose enhanced graph has a second relation of another kind to the same head'
BREAKS = 'ud.es.FixTenerQue throws away all enhanced relations to the old head, not just the basic one'
EDITS = [('udapi/block/ud/es/fixtenerque.py', "x['parent'] != node.parent or re.sub(r':.*', '', x['deprel']) != node.udeprel", "x['parent'] != node.parent")]
DEMO = '''
from udapi.core.document import Document
def load(rows, head=''):
    text = head + ''.join('\\t'.join(str(c) for c in r) + '\\n' for r in rows) + '\\n'
    d = Document(); d.from_conllu_string(text); return d
def simple(heads, **kw):
    return load([(i, f'w{i}', f'l{i}', 'X', '_', '_', h, 'dep', '_', '_') for i, h in enumerate(heads, 1)])

from udapi.core.run import create_block
rows = [(1,'Tiene','tener','AUX','_','_',3,'aux','3:aux','_'),(2,'que','que','SCONJ','_','_',1,'fixed','1:fixed','_'),(3,'comer','comer','VERB','_','_',0,'root','0:root','_'),
        (4,'bien','bien','ADV','_','_',3,'advmod','3:advmod|3:obl','_')]
d = load(rows)
create_block('ud.es.FixTenerQue').process_document(d)
t = list(d.trees)[0].descendants
assert [(n.parent.ord, n.deprel) for n in t] == [(0, 'root'), (3, 'mark'), (1, 'xcomp'), (1, 'advmod')], [(n.parent.ord, n.deprel) for n in t]
assert t[3].raw_deps.split('|') in (['1:advmod', '3:obl'], ['3:obl', '1:advmod']), t[3].raw_deps
'''
