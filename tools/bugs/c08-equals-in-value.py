PROPERTY = 'C08'
NEEDS = 'a value with an equal sign, and a change of another attribute of the same object'
BREAKS = 'the value is lost when the string is deserialized'
EDITS = [('udapi/core/dualdict.py', "raw_feature.split('=', 1)", "raw_feature.split('=')")]
DEMO = '''
from udapi.core.node import Node
n = Node(None, misc='Ref=http://x/?a=b|SpaceAfter=No')
del n.misc['SpaceAfter']
assert str(n.misc) == 'Ref=http://x/?a=b', str(n.misc)
'''
