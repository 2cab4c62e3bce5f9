PROPERTY = 'C04'
NEEDS = 'sent_id_filter skipping the beginning of one document and matching the first sentence of a later one'
BREAKS = 'the kept sentence gets the newdoc id of another (skipped) document'
EDITS = [('udapi/core/basereader.py', 'if skipped_newdoc and not tree.newdoc:', 'if skipped_newdoc:')]
DEMO = '''
import io, sys
from udapi.core.document import Document
from udapi.block.read.conllu import Conllu
text = ''
for doc in 'A', 'B':
    for i in 1, 2:
        text += (f'# newdoc id = {doc}\\n' if i == 1 else '') + f'# sent_id = {doc}{i}\\n1\\tw\\t_\\tX\\t_\\t_\\t0\\troot\\t_\\t_\\n\\n'
d = Document()
Conllu(filehandle=io.StringIO(text), sent_id_filter='B').apply_on_document(d)
assert [t.newdoc for t in d.trees] == ['B', None], [t.newdoc for t in d.trees]
'''
