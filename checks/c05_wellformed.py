"""C05: trees stay well-formed under every history of edits."""
import importlib
import logging

from lib import gen, hooks
from lib.edits import History
from lib.treelib import malformed, random_tree, shape_of, snapshot
from lib.vf import Violation, Workload
from checks.c01_roundtrip import corpus
from udapi.core.document import Document

ID = 'C05'
RULE = ('distinct (tree shape, edit) pairs after which the well-formedness monitor judged every involved tree; '
        'in the block workload the monitor is hooked into the editing methods while real transformation blocks run')
NEEDS = ['oracle.well-formed', 'oracle.refused edit leaves the trees unchanged', 'oracle.refused', 'events.edit.steal', 'events.edit.shift',
         'events.edit.remove', 'events.edit.attach', 'events.edit.create', 'events.edit.flatten', 'events.hooked edits']
KINDS = ['create', 'attach', 'attach', 'remove', 'shift', 'shift', 'shift', 'steal', 'flatten']


def all_wellformed(mon, trees, detail):
    for t in trees:
        bad = malformed(t)
        mon.ok(bad is None, 'well-formed', lambda: f'{bad} after {detail}')
        if not t.empty_nodes:
            continue
        mon.ok(all(e.root is t for e in t.empty_nodes), 'empty nodes know their root', detail)


def histories(rng, mon, i):
    doc = Document()
    big = rng.random() < 0.05
    trees = [random_tree(rng, 0, 40 if big else 9, doc=doc) for _ in range(rng.choice([1, 2, 3, 3]))]
    log = [f'start {[shape_of(t) for t in trees]}']
    mon.note(history=log)
    all_wellformed(mon, trees, log)
    h = History(rng, trees, log)
    for _ in range(rng.randint(5, 30)):
        if rng.random() < 0.25:
            if rng.random() < 0.3:
                t, n = h.pick()
                if n is not None:
                    h.do('create_empty_child', n.ord)
                    n.create_empty_child('dep', form='E')
            r = h.refused()
            if r is None:
                continue
            desc, fn, exc = r
            before = [snapshot(t) for t in trees]
            log.append('REFUSED ' + desc)
            err = mon.raises(fn, 'refused', Exception)
            mon.ok(isinstance(err, exc), 'refused with the documented exception', lambda: f'{desc}: {type(err).__name__}: {err}')
            mon.eq([snapshot(t) for t in trees], before, 'refused edit leaves the trees unchanged', desc)
            mon.event('refused')
            all_wellformed(mon, trees, log)
        else:
            shapes = [shape_of(t) for t in trees]
            kind, _ = h.edit(KINDS)
            mon.event('edit.' + kind)
            all_wellformed(mon, trees, log)
            mon.state('shape and edit', repr((shapes, log[-1])))


BLOCKS = [('transform.proj', 'Proj', {}), ('transform.deproj', 'Deproj', {}), ('transform.flatten', 'Flatten', {}),
          ('ud.fixpunct', 'FixPunct', {}), ('ud.fixchain', 'FixChain', {}), ('ud.fixleaf', 'FixLeaf', {}), ('ud.fixrightheaded', 'FixRightheaded', {}),
          ('ud.fixpunctchild', 'FixPunctChild', {}), ('ud.convert1to2', 'Convert1to2', {}), ('ud.fixcompoundname', 'FixCompoundName', {}),
          ('ud.fixroot', 'FixRoot', {}), ('ud.fixmultisubjects', 'FixMultiSubjects', {}), ('ud.splitunderscoretokens', 'SplitUnderscoreTokens', {}),
          ('ud.goeswithfromtext', 'GoeswithFromText', {}), ('ud.fixadvmodbyupos', 'FixAdvmodByUpos', {}),
          ('ud.jointoken', 'JoinToken', {'misc_name': 'Ref'}), ('ud.removemwt', 'RemoveMwt', {}), ('ud.complywithtext', 'ComplyWithText', {}),
          ('util.normalize', 'Normalize', {}), ('util.filter', 'Filter', {'delete_subtree': 'node.upos == "PUNCT"'}),
          ('util.filter', 'Filter', {'keep_subtree': 'node.upos == "NOUN"'}), ('segment.merge', 'Merge', {}), ('segment.simple', 'Simple', {}),
          ('util.splitsentence', 'SplitSentence', {'misc_name': 'Ref'}), ('util.joinsentence', 'JoinSentence', {'misc_name': 'Zed'}),
          ('demo.rehangprepositions', 'RehangPrepositions', {}), ('ud.cs.addmwt', 'AddMwt', {}),
          ('ud.es.addmwt', 'AddMwt', {}), ('ud.pt.addmwt', 'AddMwt', {}), ('mwe.tosubdeprels', 'ToSubDeprels', {}), ('ud.goeswithfromtext', 'GoeswithFromText', {}),
          ('tutorial.addcommas', 'AddCommas', {}), ('tutorial.removecommas', 'RemoveCommas', {}), ('tutorial.addarticles', 'AddArticles', {}),
          ('util.eval', 'Eval', {'node': 'if node.upos == "DET": node.remove(children="rehang")'}),
          ('util.eval', 'Eval', {'node': 'if node.prev_node and not node.prev_node.is_descendant_of(node) and node.ord > 1 and node.upos == "NOUN":'
                                         ' node.shift_before_subtree(node.prev_node)'})]


def blocks(rng, mon, i):
    """Real blocks edit trees; the well-formedness monitor runs after every outermost editing call and at the end."""
    if rng.random() < 0.4:
        _, bl = corpus()[i % len(corpus())]
        k = rng.randint(1, 4)
        lo = rng.randrange(max(1, len(bl) - k))
        text = '\n\n'.join(bl[lo:lo + k]) + '\n\n'
    else:
        text = gen.to_text(gen.gen_doc(rng, max_n=12, p_empty=0.15))
    mon.note(input=text)
    doc = Document()
    doc.from_conllu_string(text)
    names = []
    for _ in range(rng.randint(1, 3)):
        mod, cls, kw = rng.choice(BLOCKS)
        names.append((mod, cls, kw))
        mon.note(blocks=names)
        block = getattr(importlib.import_module('udapi.block.' + mod), cls)(**kw)

        def judge(root, what):
            mon.event('hooked edits')
            mon.event('hooked.' + what)
            bad = malformed(root)
            mon.ok(bad is None, 'well-formed', lambda: f'{bad} after {what} in block {mod}')
        with hooks.edits_watched(judge):
            try:
                block.run(doc)
            except Violation:
                raise
            except (Exception, SystemExit) as e:     # pylint: disable=broad-except
                mon.event('block gave up')     # random input may lack what a block expects; the trees must survive anyway
                mon.event('gave up: ' + mod + ' ' + type(e).__name__)
            else:
                mon.event('block ran: ' + mod)
        trees = list(doc.trees)
        for t in trees:
            bad = malformed(t)
            mon.ok(bad is None, 'well-formed', lambda: f'{bad} after block {mod}')
        mon.state('block and shapes', repr((mod, [shape_of(t) for t in trees])))
        if not trees:
            break


WORKLOADS = [Workload('histories', histories, 15050, 90300), Workload('blocks', blocks, 6000, 36000)]
