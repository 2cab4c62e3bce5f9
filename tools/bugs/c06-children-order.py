PROPERTY = 'C06'
NEEDS = 'a word with a contiguous subtree is moved to the right over one of its siblings'
BREAKS = 'children of the parent are no longer in word order'
EDITS = [('udapi/core/node.py', """                all_nodes[trg_ord - 1], node._ord = node, trg_ord
                trg_ord += 1
            self._parent._children.sort()
            return

        # First""", """                all_nodes[trg_ord - 1], node._ord = node, trg_ord
                trg_ord += 1
            if reference_ord < first_ord:
                self._parent._children.sort()
            return

        # First""")]
DEMO = '''
from udapi.core.root import Root
r = Root()
n = [r.create_child(form='w%d' % i) for i in range(1, 6)]
n[1].parent = n[0]
n[0].shift_after_node(n[3])
assert [x.form for x in r.descendants] == ['w3', 'w4', 'w1', 'w2', 'w5']
assert [x.form for x in r.children] == ['w3', 'w4', 'w1', 'w5'], [x.form for x in r.children]
'''
