PROPERTY = 'C12'
NEEDS = 'exactly max_mwt_length (default four) words written as one different form'
BREAKS = 'ud.ComplyWithText refuses to create a multi-word token of the maximal allowed length and rewrites the text instead'
EDITS = [('udapi/block/ud/complywithtext.py', 'elif len(nodes) > self.max_mwt_length:', 'elif len(nodes) >= self.max_mwt_length:')]
DEMO = '''
from udapi.core.document import Document
def load(rows, head=''):
    text = head + ''.join('\\t'.join(str(c) for c in r) + '\\n' for r in rows) + '\\n'
    d = Document(); d.from_conllu_string(text); return d
def simple(heads, **kw):
    return load([(i, f'w{i}', f'l{i}', 'X', '_', '_', h, 'dep', '_', '_') for i, h in enumerate(heads, 1)])

from udapi.core.run import create_block
d = simple([0, 1, 1, 1])
t = next(d.trees)
for n, f in zip(t.descendants, ['ab', 'cd', 'ef', 'gh']):
    n.form = f
t.text = 'xyz'
create_block('ud.ComplyWithText').process_document(d)
assert t.text == 'xyz' and [m.form for m in t.multiword_tokens] == ['xyz']
'''
