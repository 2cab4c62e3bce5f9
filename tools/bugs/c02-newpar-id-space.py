PROPERTY = 'C02'
NEEDS = 'a newdoc or newpar id with a space'
BREAKS = 'the id is not available in root.newdoc (it is treated as an ordinary comment)'
EDITS = [('udapi/block/read/conllu.py', "r'^# (newpar|newdoc)(?:\\s+id\\s*=\\s*(.+))?$'", "r'^# (newpar|newdoc)(?:\\s+id\\s*=\\s*(\\S+))?$'")]
DEMO = '''
from udapi.core.document import Document
def load(rows, head=''):
    text = head + ''.join('\\t'.join(str(c) for c in r) + '\\n' for r in rows) + '\\n'
    d = Document(); d.from_conllu_string(text); return d
def simple(heads, **kw):
    return load([(i, f'w{i}', f'l{i}', 'X', '_', '_', h, 'dep', '_', '_') for i, h in enumerate(heads, 1)])

d = load([(1, 'a', '_', 'X', '_', '_', 0, 'root', '_', '_')], '# newdoc id = my file\\n# newpar id = par 1\\n')
t = next(d.trees)
assert (t.newdoc, t.newpar) == ('my file', 'par 1')
'''
