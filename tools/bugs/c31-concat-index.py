PROPERTY = 'C31'
NEEDS = 'mention attributes with an index of two or more digits'
BREAKS = 'corefud.ConcatMentionMisc merges attributes of different mentions'
EDITS = [('udapi/block/corefud/concatmentionmisc.py', '((\\[\\d+\\])?)', '((\\[\\d)?)')]
DEMO = '''
from udapi.core.document import Document
def load(rows, head=''):
    text = head + ''.join('\\t'.join(str(c) for c in r) + '\\n' for r in rows) + '\\n'
    d = Document(); d.from_conllu_string(text); return d
def simple(heads, **kw):
    return load([(i, f'w{i}', f'l{i}', 'X', '_', '_', h, 'dep', '_', '_') for i, h in enumerate(heads, 1)])

from udapi.core.run import create_block
rows = [(1,'a','_','X','_','_',0,'root','_','MentionMisc_p[1]=x|MentionMisc_q[12]=y')]
d = load(rows)
create_block('corefud.ConcatMentionMisc').process_document(d)
n = list(d.nodes)[0]
assert n.misc['MentionMisc[1]'] == 'p:x' and n.misc['MentionMisc[12]'] == 'q:y', str(n.misc)
'''
