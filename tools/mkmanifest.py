#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from properties.jsonl and the checks present."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'), encoding='utf-8')]
NOTES = {}
checks, na = [], []
for p in props:
    mods = glob.glob(os.path.join(V, 'checks', p['id'].lower() + '_*.py'))
    if not mods:
        na.append(dict(property=p['id'], reason='no check built yet'))
        continue
    doc = re.match(r'"""(.*?)"""', open(mods[0], encoding='utf-8').read(), re.S).group(1)
    src = open(mods[0], encoding='utf-8').read()
    tech = re.search(r"^TECHNIQUE = '(.*)'$", src, re.M)
    note = re.search(r"^LEVEL_NOTE = \(?'(.*?)'\)?$", src, re.M | re.S)
    checks.append(dict(
        property=p['id'],
        quick_cmd=f"/opt/venv/bin/python run.py {p['id']} --tier quick",
        thorough_cmd=f"/opt/venv/bin/python run.py {p['id']} --tier thorough",
        evidence_file=f"evidence/{p['id']}.json",
        technique=tech.group(1) if tech else 'runtime monitoring: oracle over executions of the real code under generated workloads',
        level='exploration',
        level_note=re.sub(r"'\s*\n\s*'", '', note.group(1)) if note else
        'Holds on every observed execution (counts in the evidence); trusts the oracle in the check and samples the input space.'))
m = dict(version=1, setup_cmd='/opt/venv/bin/python -c "print(\'nothing to build: pure Python, stdlib only\')"',
         checks=checks, not_applicable=na,
         notes='All checks run the real code of /repo (imported from its working tree) under deterministic workloads derived from '
               'VERIF_SEED; no hooks in /repo are needed, instrumentation is attached from the harness.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w', encoding='utf-8'), indent=1, ensure_ascii=False)
print(len(checks), 'checks;', len(na), 'not claimed')
