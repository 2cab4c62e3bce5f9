PROPERTY = 'C13'
NEEDS = 'a bridging relation with a colon'
BREAKS = 'the relation is cut (or the document refused)'
EDITS = [('udapi/core/coref.py', "src_str, relation = src_str.split(':', 1)", "src_str, relation = src_str.split(':')[:2]")]
DEMO = '''
from udapi.core.document import Document
def load(rows, head=''):
    text = head + ''.join('\\t'.join(str(c) for c in r) + '\\n' for r in rows) + '\\n'
    d = Document(); d.from_conllu_string(text); return d
def simple(heads, **kw):
    return load([(i, f'w{i}', f'l{i}', 'X', '_', '_', h, 'dep', '_', '_') for i, h in enumerate(heads, 1)])

d = load([(1, 'a', '_', 'X', '_', '_', 0, 'root', '_', 'Entity=(e1)'), (2, 'b', '_', 'X', '_', '_', 1, 'dep', '_', 'Bridge=e1<e2:part:of|Entity=(e2)')],
         '# newdoc\\n# global.Entity = eid-etype-head-other\\n')
d.coref_entities
assert 'Bridge=e1<e2:part:of|' in d.to_conllu_string()
'''
