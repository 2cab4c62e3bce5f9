PROPERTY = 'C26'
NEEDS = 'columns separated by three or more spaces in a doublespace file'
BREAKS = 'additional empty columns are read'
EDITS = [('udapi/block/read/conll.py', "re.split('  +', line)", "re.split('  ', line)")]
DEMO = '''
import io
from udapi.core.document import Document
from udapi.block.read.conll import Conll
text = '1  word one   X  0\\n2    two  Y  1\\n\\n'
d = Document()
Conll(filehandle=io.StringIO(text), separator='doublespace', attributes='ord,form,upos,head').apply_on_document(d)
assert [(n.form, n.upos, n.parent.ord) for n in d.nodes] == [('word one', 'X', 0), ('two', 'Y', 1)]
'''
