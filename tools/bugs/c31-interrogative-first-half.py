PROPERTY = 'C31'
NEEDS = 'a form X不Y where Y only starts with X (or X ends as Y starts)'
BREAKS = 'ud.zh.Lemmatize takes words for verb-not-verb questions which are none'
EDITS = [('udapi/block/ud/zh/lemmatize.py', "m2 = re.match(r'^(.+)([不没沒未])\\1$', node.form)", "m2 = re.match(r'^(.+)([不没沒未])\\1', node.form)")]
DEMO = '''
from udapi.core.document import Document
def load(rows, head=''):
    text = head + ''.join('\\t'.join(str(c) for c in r) + '\\n' for r in rows) + '\\n'
    d = Document(); d.from_conllu_string(text); return d
def simple(heads, **kw):
    return load([(i, f'w{i}', f'l{i}', 'X', '_', '_', h, 'dep', '_', '_') for i, h in enumerate(heads, 1)])

from udapi.core.run import create_block
rows = [(1,'好不好看','_','VERB','_','_',0,'root','_','_'),(2,'要不要','_','VERB','_','_',1,'dep','_','_')]
d = load(rows)
create_block('ud.zh.Lemmatize').process_document(d)
t = list(d.trees)[0].descendants
assert t[1].lemma == '要' and t[1].feats['Mood'] == 'Int'
assert t[0].feats['Mood'] == '' and t[0].lemma != '好', (t[0].lemma, str(t[0].feats))
'''
