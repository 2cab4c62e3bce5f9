PROPERTY = 'C08'
NEEDS = 'a copy made after the value was deserialized, then an edit of one of the two'
BREAKS = 'FEATS/MISC copies share the dictionary, so editing the copy changes the original'
EDITS = [('udapi/core/dualdict.py', '        return copy.deepcopy(self)', '        return copy.copy(self)')]
DEMO = '''
from udapi.core.feats import Feats
f = Feats('Case=Nom|Number=Sing')
assert f['Case'] == 'Nom'
g = f.copy()
g['Case'] = 'Gen'
assert str(g) == 'Case=Gen|Number=Sing', str(g)
assert f['Case'] == 'Nom', f['Case']
'''
