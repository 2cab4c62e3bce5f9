"""Rewrites the 'fixed:' lines of known_findings.txt from the fix commits in /repo (the 'known:' lines stay)."""
import os
import subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {'59b0853': 'C10', '3220d65': 'C09', '5821fd2': 'C05', 'b08c097': 'C01', 'e95d159': 'C02', '0a4fbdd': 'C04', '360566b': 'C01',
        '3f3d49b': 'C04', '1d3f1e5': 'C02', 'e94f0ea': 'C04', 'd17cc96': 'C03', '6e0927f': 'C03', '3ea09cf': 'C03', '0b66cec': 'C02',
        '1b209f7': 'C02', '043e934': 'C04', '6a44686': 'C04', '3fa3cdc': 'C04', '78b689c': 'C06', '8fc2072': 'C19', '8dd457a': 'C07',
        'cf91cb7': 'C08', '882a0e0': 'C09', 'b2ee6ca': 'C11', 'bcbf88d': 'C11', '3f94cbf': 'C11', '505ce6e': 'C12', '1f2b5d7': 'C24',
        '5db0e7f': 'C12', '83b5c54': 'C13', '40a805b': 'C13', '5d27879': 'C14', '29b9c73': 'C14', '1ebe93b': 'C14', '65ab698': 'C14',
        'b2b83e0': 'C14', '597d7b8': 'C14', '0c90f15': 'C15', '24d2640': 'C15', 'aa547d1': 'C15', '4428de9': 'C04', 'a9b6e5b': 'C22',
        'eb4bbbb': 'C16', '0adfa5b': 'C16', 'ad65c3d': 'C16', 'bb10bc9': 'C16', 'd4f87ca': 'C16', 'a2ef90a': 'C16', '8408349': 'C16'}
path = os.path.join(HERE, 'known_findings.txt')
known = [l for l in open(path, encoding='utf-8') if l.startswith('known: ')] if os.path.exists(path) else []
extra = os.path.join(HERE, 'tools', 'fixprops.txt')
if os.path.exists(extra):
    PROP.update(l.split()[:2] for l in open(extra) if l.strip())
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True, check=True).stdout
with open(path, 'w', encoding='utf-8') as f:
    f.write('# Genuine defects of udapi-python found by the checks. "known:" = recorded, not repaired (reported as KNOWN-FINDING);\n'
            '# "fixed:" = repaired by the named commit in /repo (suppresses nothing).\n')
    f.writelines(known)
    for line in log.splitlines():
        h, s = line.split(' ', 1)
        if s.startswith('fix: '):
            f.write(f'fixed: property={PROP[h]} {h} {s[5:]}\n')
