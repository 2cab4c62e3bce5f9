PROPERTY = 'C15'
NEEDS = 'two readers with a different number of documents, the longer one being first'
BREAKS = 'the remaining documents of the other reader are not processed'
EDITS = [('udapi/core/run.py', '                finished = finished and reader.finished\n', '                finished = reader.finished\n')]
DEMO = '''
import os, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as tmp:
    for name, n in (('a', 3), ('b', 1)):
        for i in range(n):
            with open(f'{tmp}/{name}{i}.conllu', 'w') as f:
                f.write(f'# sent_id = {i}\\n1\\t{name}{i}\\t_\\tX\\t_\\t_\\t0\\troot\\t_\\t_\\n\\n')
    from udapi.core.run import Run
    class A: pass
    args = A()
    args.scenario = ['read.Conllu', 'zone=a', f'files={tmp}/a0.conllu,{tmp}/a1.conllu,{tmp}/a2.conllu',
                     'read.Conllu', 'zone=b', f'files={tmp}/b0.conllu', 'util.Eval', f'tree=open("{tmp}/log", "a").write(tree.zone)']
    Run(args).execute()
    assert open(f'{tmp}/log').read() == 'abaa', open(f'{tmp}/log').read()
'''
