"""Probe blocks: record every call a scenario makes and compare the visits with a snapshot taken when the document arrives."""
from udapi.core.block import Block

LOG = []      # (probe name, what, ...) in the order of the calls


def node_uid(n):
    return n.misc['uid']


def snapshot(doc):
    """[(bundle object, [(tree object, zone, [node uids], [empty uids])])] from the raw lists."""
    return [(b, [(t, t._zone, [node_uid(n) for n in t._descendants], [node_uid(n) for n in t.empty_nodes]) for t in b.trees])
            for b in doc.bundles]


class Probe(Block):
    """`edit` names what the probe changes when it visits something."""

    def __init__(self, name='p', edit='', arg=None, **kwargs):
        super().__init__(**kwargs)
        self.name, self.edit, self.arg = str(name), edit, arg
        LOG.append((self.name, 'init', arg))

    def process_start(self):
        LOG.append((self.name, 'start'))

    def process_end(self):
        LOG.append((self.name, 'end'))

    def before_process_document(self, doc):
        LOG.append((self.name, 'before', doc, snapshot(doc)))

    def after_process_document(self, doc):
        LOG.append((self.name, 'after', doc, snapshot(doc)))


def edit_node(edit, node):
    if edit == 'create':
        node.create_child(form='new').shift_before_node(node)
    elif edit == 'create after':
        node.create_child(form='new').shift_after_node(node)
    elif edit == 'remove':
        node.remove(children='rehang')
    elif edit == 'first':
        node.shift_before_node(node.root.descendants[0], without_children=True) if node.ord > 1 else None
    elif edit == 'last':
        last = node.root.descendants[-1]
        if last is not node:
            node.shift_after_node(last, without_children=True)
    elif edit == 'reattach':
        node.parent = node.root


class Node(Probe):
    def process_node(self, node):
        LOG.append((self.name, 'node', node_uid(node)))
        edit_node(self.edit, node)


class Empty(Probe):
    def process_empty_node(self, node):
        LOG.append((self.name, 'empty', node_uid(node)))
        if self.edit == 'remove':
            node.remove()
        elif self.edit == 'create':
            if node.root.descendants:
                node.root.descendants[0].create_empty_child('dep')


class Both(Node):
    def process_empty_node(self, node):
        LOG.append((self.name, 'empty', node_uid(node)))


class Tree(Probe):
    def process_tree(self, tree):
        LOG.append((self.name, 'tree', tree))
        if self.edit == 'remove':
            tree.remove()
        elif self.edit == 'create' and not tree.bundle.has_tree('zz'):
            tree.bundle.create_tree('zz')


class Treesuper(Probe):
    def process_tree(self, tree):
        LOG.append((self.name, 'tree', tree))
        super().process_tree(tree)

    def process_node(self, node):
        LOG.append((self.name, 'node', node_uid(node)))
        edit_node(self.edit, node)


class Bundle(Probe):
    def process_bundle(self, bundle):
        LOG.append((self.name, 'bundle', bundle))
        if self.edit == 'remove':
            bundle.remove()


class Bundlesuper(Probe):
    def process_bundle(self, bundle):
        LOG.append((self.name, 'bundle', bundle))
        super().process_bundle(bundle)

    def process_tree(self, tree):
        LOG.append((self.name, 'tree', tree))
        if self.edit == 'remove':
            tree.remove()


class Document(Probe):
    def process_document(self, doc):
        LOG.append((self.name, 'document', doc))


class Mention(Probe):
    def process_coref_mention(self, mention):
        LOG.append((self.name, 'mention', mention.entity.eid, mention.span))
        if self.edit == 'remove':
            mention.remove()


class Entity(Probe):
    def process_coref_entity(self, entity):
        LOG.append((self.name, 'entity', entity.eid))
        super().process_coref_entity(entity)

    def process_coref_mention(self, mention):
        LOG.append((self.name, 'mention', mention.entity.eid, mention.span))


class Fail(Probe):
    def process_document(self, doc):
        LOG.append((self.name, 'document', doc))
        raise ArithmeticError('probe failure')


class Nothing(Probe):
    """Overrides no processing method."""
