PROPERTY = 'C03'
NEEDS = 'a cycle closed by attaching a node to a word which has no children yet'
BREAKS = 'the reader builds a cyclic structure instead of refusing it'
EDITS = [('udapi/block/read/conllu.py', '            elif node._children:\n', '            elif node._children and parent._children:\n')]
DEMO = '''
from udapi.core.document import Document
rows = [(1, 3), (2, 0), (3, 4), (4, 1)]
text = ''.join(f"{i}\\tw{i}\\t_\\tX\\t_\\t_\\t{h}\\tdep\\t_\\t_\\n" for i, h in rows) + "\\n"
try:
    Document().from_conllu_string(text)
except ValueError:
    pass
else:
    raise SystemExit('a cycle was accepted')
'''
