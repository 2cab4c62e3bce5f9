#!/usr/bin/env python3
"""Writes the part of DESIGN.md after the marker line: properties (from the checks), findings (fixprops.txt and known-findings), seeded bugs."""
import glob, importlib, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if sys.executable != '/opt/venv/bin/python':
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python', '-B', '-W', 'ignore'] + sys.argv)
sys.path[:0] = [V, '/repo']
MARK = '<!-- everything below is generated by tools/mkdesign.py -->'
HOW = {
 'C01': "Generated documents in canonical form (independent generator: any Unicode, empty nodes, MWTs, enhanced graphs, zones, comments, paragraph marks) are loaded and stored and must come out byte for byte; documents in any accepted form are compared word by word with the independent parser, and their second round trip must be a fixed point.",
 'C02': "Every tree delivered by read.Conllu (file, string, filehandle, `Document`) is compared attribute by attribute with `lib/refconllu.py`, which was written from the format description, not from the reader.",
 'C03': "A generator of corruptions (cycles, ranges, missing and extra columns, wrong IDs) of valid sentences; the monitor requires a raised error or a repaired tree which satisfies the definition of a tree and differs only where the corruption was.",
 'C04': "Each generated sentence carries a unique tag; the monitor matches every delivered tree with its input sentence (exactly-once and order), over all layouts of files, chunk sizes, filters, zones, several readers in parallel.",
 'C05': "Random histories of 40+ kinds of edits; after every one, `treelib.malformed` checks the definition of a tree (ords, parents, children order, acyclicity, reachability, empty-node and MWT links) by public accessors on every involved tree. Hooks attached from the harness run the same monitor while real blocks edit.",
 'C06': "The same kinds of edits against a list-based model of the forest written independently: positions and heads of *all* words of all trees are compared after each edit, so a missing and a superfluous effect are both seen.",
 'C07': "All queries are re-evaluated by brute force from parent links and word order.",
 'C08': "A reference dict receives the same operations; string and mapping views are compared after each one, including the aliasing of copies.",
 'C09': "Edges are followed by node identity (not by number) through edits which renumber words, and again through the stored file.",
 'C10': "A reference list of words and empty nodes; indices, ordering, and addresses are compared after each creation, move and removal.",
 'C11': "A reference list of tokens; membership is looked at from the words, from the tokens and in the stored file; the language-specific detectors are judged by surface text and by lists of contractions with their words, lemmas, tags and attachment in typical constructions.",
 'C12': "An independent detokenizer knows the text of the generated tokens; compute_text, SetSpaceAfter*, ComplyWithText are compared with it.",
 'C13': "An independent model of entities and mentions is written as CorefUD brackets; the objects are compared with the model, and the brackets stored by udapi are parsed by an independent parser.",
 'C14': "After each operation both directions of each link (entity-mention, mention-word, head, bridging, split antecedents) are walked, and the stored annotation is parsed and compared; corefud blocks have individual models.",
 'C15': "Probe blocks log every call; the log must equal the promised sequence for the generated scenario (readers, chunks, zones, bundles, empty trees, start/end hooks, failures).",
 'C16': "Every byte of the scratch directory and of the standard output is compared with the bytes the documents stand for, for every destination, naming rule, compression and failure.",
 'C17': "A model of bundles, zones and identifiers receives the same operations; identifiers, numbers, order and refusals are compared.",
 'C18': "Projectivity by definition; lifting only to ancestors and only as far as needed; inverse property; marks by head, path and path+head schemes; brute force search for the deprojectivized head.",
 'C19': "Conservation by node identity: each word, head, token, empty node and edge before and after.",
 'C20': "Each printed number is recomputed from its definition by an independent implementation (LCS, spans, micro averages).",
 'C21': "The condition is evaluated by the monitor over a snapshot; kept, removed, marked, counted items must be exactly those.",
 'C22': "Character-level conservation: texts read, tokenized, segmented and printed are compared with the raw text.",
 'C23': "An independent tracer follows each stroke of the drawing and decodes the heads; they must be the tree's.",
 'C24': "Each repair has a model or postconditions (defect gone, frame untouched, idempotent, tree valid).",
 'C25': "Real `udapy` processes; standard output, files and exit status are compared with the in-process run of the same blocks.",
 'C26': "Files in any column layout are compared with the same trees read as CoNLL-U; printed formats are parsed by independent parsers.",
 'C27': "Written files are read by an XML parser, html.parser, json and a small TeX brace/edge reader, and compared with the trees.",
 'C28': "Each printed number or mark is recomputed from the model of the annotation (pairs of spans by brute force).",
 'C29': "88 blocks run over documents whose words, tags, relations and features are harvested from the constants of all blocks (a frozen vocabulary, `lib/vocab.json`), so that the rare conditions of the blocks are met; the monitor compares each column with the footprint of the block, re-reads the stored form, repeats the run, splits it into sentences, reuses the block object, and restricts it to zones.",
 'C31': "Each block has a second implementation of its documented rule over plain rows of the checker (`TABLE`: model, generator, parameters); the generator plants words which match the rule or miss it by one condition. The real block runs on the read document; columns, tokens, text and printed lines must equal the model's. Every block must have changed sentences (required events).",
 'C30': "Every condition is written down a second time over an independent parse of the input file (`W`, `S` in the check), from the messages and documentation of the blocks; marks, reports, statistics and annotations are compared word by word, everything else must be unchanged. Each test of ud.MarkBugs must have been hit (required events).",
}
try:
    from designextra import HOW as MORE
    HOW.update(MORE)
except ImportError:
    pass
props = {p['id']: p for p in map(json.loads, open(V + '/properties.jsonl', encoding='utf-8'))}
out = ['## Properties', '', 'The statements are in properties.jsonl. All are decided by runtime monitoring: an oracle over executions of the real code; none is left to another '
       'technique. Sizes are numbers of generated cases (quick / thorough); each case makes many oracle evaluations. The evidence files count what was observed; a check '
       'whose required oracles or events were never reached answers "inconclusive" (exit 3) instead of "held".', '']
for f in sorted(glob.glob(V + '/checks/c*.py')):
    m = importlib.import_module('checks.' + os.path.basename(f)[:-3])
    p = props[m.ID]
    out += [f"### {m.ID} {p['title']}", '', HOW.get(m.ID, (m.__doc__ or '').strip()), '']
    for w in m.WORKLOADS:
        d = (w.fn.__doc__ or '').strip().split('\n')[0]
        out.append(f"* workload `{w.name}` ({w.quick} / {w.thorough})" + (': ' + d if d else ''))
    out.append('* oracles: ' + ', '.join(n[7:] for n in m.NEEDS if n.startswith('oracle')))
    out.append('* distinct states counted: ' + m.RULE)
    for a in getattr(m, 'ASSUMPTIONS', []):
        out.append('* assumption: ' + a)
    for k in ('why_tests_cant', 'tests'):
        if isinstance(p.get(k), str):
            out.append('* why tests do not settle it: ' + p[k])
            break
    out.append('')
n = {}
for line in open(V + '/known_findings.txt', encoding='utf-8'):
    if line.startswith('fixed: property='):
        prop, commit, msg = line[len('fixed: property='):].strip().split(' ', 2)
        n.setdefault(prop, []).append(msg)
out += ['## Findings', '', f'{sum(map(len, n.values()))} genuine defects were found by the checks and repaired in /repo ("fix:" commits; known_findings.txt lists each with its commit).  '
        'By property: ' + ', '.join(f'{k} {len(v)}' for k, v in sorted(n.items())) + '.', '']
for k, v in sorted(n.items()):
    out += [f'* {k}: ' + '; '.join(x[5:] if x.startswith('fix: ') else x for x in v)]
out += ['', '## Limitations, decisions and corrected false alarms', '', open(V + '/tools/design-limits.md', encoding='utf-8').read().strip(), '',
        '## Seeded bugs', '', 'Each is in seeded/<id>/ (patch, demonstration, needs). "caught by" was measured with the quick commands (`tools/plant.py --checks all`, or own check only).', '',
        '| bug | what it breaks | needs | caught by |', '|---|---|---|---|']
res = json.load(open(V + '/tools/bugs/caught.json')) if os.path.exists(V + '/tools/bugs/caught.json') else {}
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); b = os.path.basename(os.path.dirname(d))
    cell = lambda s: str(s).replace('|', '\\|').replace('\n', ' ')
    out.append(f"| {b} | {cell(m['what_it_breaks'])} | {cell(m['needs'])} | {', '.join(res.get(b, [])) or m['property']} |")
head = open(V + '/DESIGN.md', encoding='utf-8').read().split(MARK)[0].rstrip()
open(V + '/DESIGN.md', 'w', encoding='utf-8').write(head + '\n\n' + MARK + '\n\n' + '\n'.join(out) + '\n')
print(len(out), 'lines')
