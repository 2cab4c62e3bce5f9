PROPERTY = 'C21'
NEEDS = 'empty nodes with a gap in their numbers and enhanced relations not looked at since reading'
BREAKS = 'util.Normalize with empty_node_ord=1 renumbers empty nodes while relations still name the old numbers'
EDITS = [('udapi/block/util/normalize.py', '                        for n in tree.descendants_and_empty:\n                            n.deps\n', '                        node.deps\n')]
DEMO = '''
from udapi.core.document import Document
def load(rows, head=''):
    text = head + ''.join('\\t'.join(str(c) for c in r) + '\\n' for r in rows) + '\\n'
    d = Document(); d.from_conllu_string(text); return d
def simple(heads, **kw):
    return load([(i, f'w{i}', f'l{i}', 'X', '_', '_', h, 'dep', '_', '_') for i, h in enumerate(heads, 1)])

from udapi.core.run import create_block
from udapi.core.document import Document
d = Document()
d.from_conllu_string("# sent_id = 1\\n1\\ta\\ta\\tX\\t_\\t_\\t0\\troot\\t0:root|1.3:dep\\t_\\n1.2\\tx\\tx\\tX\\t_\\t_\\t_\\t_\\t1:dep\\t_\\n1.3\\ty\\ty\\tX\\t_\\t_\\t_\\t_\\t1.2:obj\\t_\\n\\n")
create_block('util.Normalize', empty_node_ord=1).run(d)
t = list(d.trees)[0]
e1, e2 = t.empty_nodes
assert [str(e1.ord), str(e2.ord)] == ['1.1', '1.2']
assert [x['parent'] for x in list(t.descendants)[0].deps] == [t, e2]
assert [x['parent'] for x in e2.deps] == [e1]
'''
