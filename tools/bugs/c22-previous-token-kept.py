PROPERTY = 'C22'
NEEDS = 'two capitalized words right after a sentence boundary'
BREAKS = 'the segmenter splits also after the first word of a sentence'
EDITS = [('udapi/block/segment/simple.py', "                segments[-1] += ' ' + token\n            previous = token\n", "                segments[-1] += ' ' + token\n                previous = token\n")]
DEMO = '''
from udapi.core.document import Document
def load(rows, head=''):
    text = head + ''.join('\\t'.join(str(c) for c in r) + '\\n' for r in rows) + '\\n'
    d = Document(); d.from_conllu_string(text); return d
def simple(heads, **kw):
    return load([(i, f'w{i}', f'l{i}', 'X', '_', '_', h, 'dep', '_', '_') for i, h in enumerate(heads, 1)])

from udapi.block.segment.simple import Simple
assert Simple().segment_string('It ends. John Smith came.') == ['It ends.', 'John Smith came.']
'''
