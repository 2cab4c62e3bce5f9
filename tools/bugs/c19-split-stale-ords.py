PROPERTY = 'C19'
NEEDS = 'a sentence with at least two split points (the remaining words are renumbered after the first part was moved away)'
BREAKS = 'words end up in the wrong part of the split sentence'
EDITS = [('udapi/block/util/splitsentence.py', "                    idletter = 'B' # a letter will be added to bundle ids to distinguish them\n", "                    idletter = 'B' # a letter will be added to bundle ids to distinguish them\n                    first_ids = [n.ord for n in split_points]\n"), ('udapi/block/util/splitsentence.py', 'first_node_id = split_points[i].ord\n', 'first_node_id = first_ids[i]\n'), ('udapi/block/util/splitsentence.py', 'next_first_node_id = split_points[i+1].ord\n', 'next_first_node_id = first_ids[i+1]\n')]
DEMO = '''
from udapi.core.document import Document
def load(rows, head=''):
    text = head + ''.join('\\t'.join(str(c) for c in r) + '\\n' for r in rows) + '\\n'
    d = Document(); d.from_conllu_string(text); return d
def simple(heads, **kw):
    return load([(i, f'w{i}', f'l{i}', 'X', '_', '_', h, 'dep', '_', '_') for i, h in enumerate(heads, 1)])

from udapi.core.run import create_block
rows = [(i, f'w{i}', '_', 'X', '_', '_', max(i - 1, 0), 'dep', '_', 'Split=1' if i in (3, 5, 7) else '_') for i in range(1, 9)]
d = load(rows)
create_block('util.SplitSentence', misc_name='Split').process_document(d)
assert [[n.form for n in t.descendants] for t in d.trees] == [['w1', 'w2'], ['w3', 'w4'], ['w5', 'w6'], ['w7', 'w8']], [[n.form for n in t.descendants] for t in d.trees]
'''
