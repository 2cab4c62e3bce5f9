PROPERTY = 'C21'
NEEDS = 'a word whose head exists only in the predicted tree'
BREAKS = 'util.MarkDiff does not mark words whose predicted head has no counterpart in the gold tree'
EDITS = [('udapi/block/util/markdiff.py', 'for p_node, g_node in zip(pred_nodes[pred_lo:pred_hi], gold_nodes[gold_lo:gold_hi]):\n                    if not self.ignore_parent and alignment.get(p_node.parent.ord - 1) !=', 'for p_node, g_node in zip(pred_nodes[pred_lo:pred_hi], gold_nodes[gold_lo:gold_hi]):\n                    if not self.ignore_parent and alignment.get(p_node.parent.ord - 1, g_node.parent.ord - 1) !=')]
DEMO = '''
from udapi.core.document import Document
def load(rows, head=''):
    text = head + ''.join('\\t'.join(str(c) for c in r) + '\\n' for r in rows) + '\\n'
    d = Document(); d.from_conllu_string(text); return d
def simple(heads, **kw):
    return load([(i, f'w{i}', f'l{i}', 'X', '_', '_', h, 'dep', '_', '_') for i, h in enumerate(heads, 1)])

from udapi.core.run import create_block
def sent(zone, rows):
    return f'# sent_id = 1/{zone}\\n' + ''.join('\\t'.join(str(c) for c in r) + '\\n' for r in rows) + '\\n'
g = [(1,'a','_','X','_','_',0,'root','_','_'),(2,'c','_','X','_','_',1,'dep','_','_')]
p = [(1,'a','_','X','_','_',0,'root','_','_'),(2,'b','_','X','_','_',1,'dep','_','_'),(3,'c','_','X','_','_',2,'dep','_','_')]
d = Document(); d.from_conllu_string(sent('gold', g) + sent('pred', p))
create_block('util.MarkDiff', gold_zone='gold').process_document(d)
m = {t.zone: [bool(n.misc['Mark']) for n in t.descendants] for t in d.trees}
assert m == {'gold': [False, True], 'pred': [False, True, True]}, m
'''
