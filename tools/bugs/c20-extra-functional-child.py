PROPERTY = 'C20'
NEEDS = 'a predicted content word whose functional children start with all gold ones and has one more'
BREAKS = 'MLAS accepts words with superfluous functional children'
EDITS = [('udapi/block/eval/conll18.py', '        if len(p_children) != len(g_children):\n', '        if len(p_children) < len(g_children):\n')]
DEMO = '''
from udapi.core.document import Document
def load(rows, head=''):
    text = head + ''.join('\\t'.join(str(c) for c in r) + '\\n' for r in rows) + '\\n'
    d = Document(); d.from_conllu_string(text); return d
def simple(heads, **kw):
    return load([(i, f'w{i}', f'l{i}', 'X', '_', '_', h, 'dep', '_', '_') for i, h in enumerate(heads, 1)])

import io, contextlib
from udapi.core.run import create_block
def sent(zone, rows):
    return f'# sent_id = 1/{zone}\\n' + ''.join('\\t'.join(str(c) for c in r) + '\\n' for r in rows) + '\\n'
g = [(1,'the','the','DET','_','_',3,'det','_','_'),(2,'all','all','DET','_','_',3,'nmod','_','_'),(3,'dog','dog','NOUN','_','_',0,'root','_','_')]
p = [g[0], (2,'all','all','DET','_','_',3,'det','_','_'), g[2]]
d = Document(); d.from_conllu_string(sent('gold', g) + sent('pred', p))
with contextlib.redirect_stdout(io.StringIO()) as out:
    b = create_block('eval.Conll18', zones='pred', print_counts=1)
    b.process_document(d); b.process_end()
row = [l.split('|') for l in out.getvalue().split('\\n') if l.startswith('MLAS')][0]
assert int(row[1]) == 0, out.getvalue()
'''
