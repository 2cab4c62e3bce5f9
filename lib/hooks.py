"""Run-time hooks: wrap the public editing methods of the real classes while a workload runs."""
import contextlib

from udapi.core.node import Node
from udapi.core.root import Root

METHODS = [(Node, 'create_child'), (Node, 'remove'), (Node, 'shift_after_node'), (Node, 'shift_before_node'),
           (Node, 'shift_after_subtree'), (Node, 'shift_before_subtree'), (Root, 'steal_nodes'), (Root, 'flatten')]


@contextlib.contextmanager
def edits_watched(judge):
    """judge(root, operation name) is called after every outermost successful or refused editing call."""
    depth = [0]

    def wrap(fn, what):
        def wrapper(self, *args, **kwargs):
            root = self.root
            depth[0] += 1
            try:
                res = fn(self, *args, **kwargs)
            except Exception:
                depth[0] -= 1
                if depth[0] == 0 and not _removed(self):
                    judge(root, what + ' (refused)')
                raise
            depth[0] -= 1
            if depth[0] == 0:
                judge(root, what)
            return res
        return wrapper

    saved = [(cls, name, cls.__dict__[name]) for cls, name in METHODS if name in cls.__dict__]
    parent = Node.__dict__['parent']
    try:
        for cls, name, fn in saved:
            setattr(cls, name, wrap(fn, name))
        Node.parent = property(parent.fget, wrap(parent.fset, 'parent='))
        yield
    finally:
        for cls, name, fn in saved:
            setattr(cls, name, fn)
        Node.parent = parent


def _removed(node):
    return node is not node.root and not any(x is node for x in node.root.descendants)
