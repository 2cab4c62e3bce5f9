PROPERTY = 'C14'
NEEDS = 'words of a mention replaced by a list which skips a word in the middle and the mention starts elsewhere'
BREAKS = 'a word which is no longer in the mention still refers to it'
EDITS = [('udapi/core/coref.py', '            if old_word in new_words:\n                kept_words.append(old_word)\n            else:\n', '            if old_word in new_words or old_word is self._head.root.next_node:\n                kept_words.append(old_word)\n            else:\n')]
DEMO = '''
from udapi.core.document import Document
def load(rows, head=''):
    text = head + ''.join('\\t'.join(str(c) for c in r) + '\\n' for r in rows) + '\\n'
    d = Document(); d.from_conllu_string(text); return d
def simple(heads, **kw):
    return load([(i, f'w{i}', f'l{i}', 'X', '_', '_', h, 'dep', '_', '_') for i, h in enumerate(heads, 1)])

d = simple([0, 1, 1, 1])
n = next(d.trees).descendants
e = d.create_coref_entity()
m = e.create_mention(head=n[1], words=n[0:3])
m.words = n[1:3]
assert [len(x.coref_mentions) for x in n] == [0, 1, 1, 0]
'''
