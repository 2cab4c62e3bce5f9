"""Freeze the vocabulary of the blocks (lib/vocab.json): python3 tools/mkvocab.py"""
import glob
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import harvest

ROOT = '/repo/udapi/block/'
out = {}
for p in sorted(glob.glob(ROOT + '**/*.py', recursive=True)):
    name = p[len(ROOT):-3].replace('/', '.')
    if name.endswith('__init__') or name.split('.')[0] in ('read', 'write', 'eval'):
        continue
    v = harvest.Vocab(open(p, encoding='utf-8').read())
    out[name] = v.dump()
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib', 'vocab.json'), 'w', encoding='utf-8') as fh:
    json.dump(out, fh, ensure_ascii=False, indent=0, sort_keys=True)
print(len(out))
