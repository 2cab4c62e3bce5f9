"""C06: each edit does exactly what it says and nothing else."""
from lib.edits import History
from lib.treelib import random_tree, shape_of, build
from lib.vf import Workload
from lib import gen
from udapi.core.document import Document

ID = 'C06'
RULE = 'distinct (tree shapes, edit with operands) pairs compared with the list-based reference model of the whole forest'
NEEDS = ['oracle.edit effect', 'events.edit.steal', 'events.edit.shift', 'events.edit.remove', 'events.edit.attach', 'events.edit.create',
         'events.edit.flatten']
ASSUMPTIONS = ['a shift relative to a subtree that itself contains moved words may take the place with or without those words into account',
               'shifting a word relative to itself is not specified']
KINDS = ['create', 'attach', 'attach', 'remove', 'shift', 'shift', 'shift', 'shift', 'shift', 'steal', 'flatten']


def one(mon, h, trees, kinds):
    shapes = [shape_of(t) for t in trees]
    kind, models = h.edit(kinds)
    mon.event('edit.' + kind)
    for m in models.values():
        bad = m.differs()
        mon.ok(bad is None, 'edit effect', lambda: f'{bad} after {h.log[-1]} on {shapes}')
    mon.state('shape and edit', repr((shapes, h.log[-1])))


def histories(rng, mon, i):
    doc = Document()
    big = rng.random() < 0.05
    trees = [random_tree(rng, 0, 40 if big else 9, doc=doc, attrs=True) for _ in range(rng.choice([1, 1, 2, 3]))]
    log = [f'start {[shape_of(t) for t in trees]}']
    mon.note(history=log)
    h = History(rng, trees, log)
    for _ in range(rng.randint(3, 25)):
        one(mon, h, trees, KINDS)


def shifts(rng, mon, i):
    """Single shifts on fresh trees, biased to non-projective (gapped) subtrees and long moves."""
    for _ in range(10):
        doc = Document()
        n = rng.randint(2, 9)
        t = build(rng, gen.tree_parents(rng, n, rng.choice(['random', 'multi', 'deep', 'chain', 'proj'])), doc=doc)
        log = [f'start {shape_of(t)}']
        mon.note(history=log)
        one(mon, History(rng, [t], log), [t], ['shift'])


WORKLOADS = [Workload('histories', histories, 16250, 97500), Workload('shifts', shifts, 13000, 78000)]
