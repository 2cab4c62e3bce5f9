PROPERTY = 'C11'
NEEDS = 'a multi-word token created over words of which the last one had SpaceAfter=No and a middle one another value'
BREAKS = 'SpaceAfter=No of the last word is not moved to the multi-word token if it is not the first word too'
EDITS = [('udapi/core/root.py', '''        if words[-1].misc["SpaceAfter"] == "No":''', '''        if words[0].misc["SpaceAfter"] == "No":''')]
DEMO = '''
from udapi.core.root import Root
r = Root()
a, b, c = [r.create_child(form=x) for x in 'abc']
b.misc['SpaceAfter'] = 'No'
m = r.create_multiword_token([a, b], form='ab')
assert m.misc['SpaceAfter'] == 'No'
assert r.compute_text() == 'abc', r.compute_text()
'''
