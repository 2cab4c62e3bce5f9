PROPERTY = 'C15'
NEEDS = 'if_empty_tree=delete in a block whose bundle has an empty tree followed by another tree'
BREAKS = 'a tree following a deleted empty tree in the same bundle is not processed'
EDITS = [('udapi/core/root.py', '        self.bundle.trees = [root for root in self.bundle.trees if root != self]', '        self.bundle.trees.remove(self)')]
DEMO = '''
from udapi.core.document import Document
from udapi.core.block import Block
class B(Block):
    seen = []
    def process_tree(self, tree):
        self.seen.append(tree.zone)
d = Document()
b = d.create_bundle()
b.create_tree('a')
b.create_tree('b').create_child(form='x')
b.create_tree('c').create_child(form='y')
B(if_empty_tree='delete').run(d)
assert B.seen == ['b', 'c'], B.seen
'''
