PROPERTY = 'C31'
NEEDS = 'a conjunct which has a dependent, but of another relation'
BREAKS = 'zellig_harris.EnhanceDeps shares dependents only with conjuncts without dependents'
EDITS = [('udapi/block/zellig_harris/enhancedeps.py', '                if current_child.deprel == candidate_child.deprel:\n                    no_such_deprel = False\n                    break\n\n            # If there is no such deprel, we can add a new secondary dependence.\n            if no_such_deprel:\n                enhance_deps(', '                if current_child.deprel in target_deprels:\n                    no_such_deprel = False\n                    break\n\n            # If there is no such deprel, we can add a new secondary dependence.\n            if no_such_deprel:\n                enhance_deps(')]
DEMO = '''
from udapi.core.document import Document
def load(rows, head=''):
    text = head + ''.join('\\t'.join(str(c) for c in r) + '\\n' for r in rows) + '\\n'
    d = Document(); d.from_conllu_string(text); return d
def simple(heads, **kw):
    return load([(i, f'w{i}', f'l{i}', 'X', '_', '_', h, 'dep', '_', '_') for i, h in enumerate(heads, 1)])

from udapi.core.run import create_block
rows = [(1,'he','he','PRON','_','_',2,'subj','_','_'),(2,'saw','see','VERB','_','_',0,'root','_','_'),(3,'and','and','CCONJ','_','_',4,'cc','_','_'),(4,'took','take','VERB','_','_',2,'conj','_','_'),(5,'it','it','PRON','_','_',4,'dobj','_','_')]
d = load(rows)
create_block('zellig_harris.EnhanceDeps').process_document(d)
t = list(d.trees)[0].descendants
assert [(x['parent'].ord, x['deprel']) for x in t[0].deps] == [(4, 'subj')], t[0].deps
assert t[4].deps == [] and [(x['parent'].ord, x['deprel']) for x in t[3].deps] == [(0, 'root')]
'''
