PROPERTY = 'C21'
NEEDS = 'a keep_node condition which looks at the parent or children, and a deleted word between'
BREAKS = 'the condition is evaluated on the already changed tree, so other words are deleted'
EDITS = [('udapi/block/util/filter.py', "            for node in nodes_to_delete:\n                node.remove(children='rehang')", "            for node in tree.descendants:\n                if not eval(self.keep_node):\n                    node.remove(children='rehang')")]
DEMO = '''
from udapi.core.document import Document
def load(rows, head=''):
    text = head + ''.join('\\t'.join(str(c) for c in r) + '\\n' for r in rows) + '\\n'
    d = Document(); d.from_conllu_string(text); return d
def simple(heads, **kw):
    return load([(i, f'w{i}', f'l{i}', 'X', '_', '_', h, 'dep', '_', '_') for i, h in enumerate(heads, 1)])

from udapi.core.run import create_block
rows = [(1,'a','_','NOUN','_','_',0,'root','_','_'),(2,'b','_','VERB','_','_',1,'dep','_','_'),(3,'c','_','NOUN','_','_',2,'dep','_','_'),(4,'d','_','NOUN','_','_',3,'dep','_','_')]
d = load(rows)
create_block('util.Filter', keep_node='node.upos != "VERB" and (node.parent.is_root() or node.parent.upos == "VERB")').process_document(d)
assert [n.form for n in d.nodes] == ['a', 'c'], [n.form for n in d.nodes]
'''
