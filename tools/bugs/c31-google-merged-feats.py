PROPERTY = 'C31'
NEEDS = 'a word cut in two pieces which disagree in a feature, the removed piece first'
BREAKS = 'ud.Google2ud lets the features of the removed piece win'
EDITS = [('udapi/block/ud/google2ud.py', '        delete_node.feats.update(node.feats)\n        node.feats = delete_node.feats\n', '        node.feats.update(delete_node.feats)\n')]
DEMO = '''
from udapi.core.document import Document
def load(rows, head=''):
    text = head + ''.join('\\t'.join(str(c) for c in r) + '\\n' for r in rows) + '\\n'
    d = Document(); d.from_conllu_string(text); return d
def simple(heads, **kw):
    return load([(i, f'w{i}', f'l{i}', 'X', '_', '_', h, 'dep', '_', '_') for i, h in enumerate(heads, 1)])

from udapi.core.run import create_block
from udapi.core.document import Document
d = Document()
d.from_conllu_string("# 1\\n# ab c\\n# t\\n1\\ta\\ta\\tX\\t_\\txx/case=acc|xx/number=sing\\t2\\tgoeswith\\t_\\tSpaceAfter=No\\n2\\tb\\tb\\tNOUN\\t_\\txx/case=gen\\t3\\tdobj\\t_\\t_\\n3\\tc\\tc\\tVERB\\t_\\t_\\t0\\troot\\t_\\t_\\n\\n")
create_block('ud.Google2ud', lang='ru').run(d)
n = list(d.nodes)
assert [(x.form, str(x.feats), x.deprel) for x in n] == [('ab', 'Case=Gen|Number=Sing', 'obj'), ('c', '_', 'root')], [(x.form, str(x.feats), x.deprel) for x in n]
'''
