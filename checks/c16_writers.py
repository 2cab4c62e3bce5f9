"""C16: writer output goes where it was asked to, completely."""
import argparse
import bz2
import gzip
import io
import lzma
import os
import sys

from lib import gen
from lib.vf import Logs, Workload, captured
from udapi.core.block import Block
from udapi.core.document import Document
from udapi.core.run import Run, create_block

ID = 'C16'
RULE = 'distinct (writers, destinations, documents) configurations; every file of the scratch directory and standard output are compared byte for byte'
NEEDS = ['oracle.bytes at the destination', 'oracle.nothing written elsewhere', 'oracle.standard output', 'oracle.stdout usable again',
         'oracle.more documents than files', 'oracle.failure keeps stdout', 'oracle.results file', 'oracle.draw to a file', 'events.dest.stdout',
         'events.dest.list', 'events.dest.docname', 'events.dest.overwrite', 'events.dest.path', 'events.dest.filehandle',
         'events.several writers', 'events.older file replaced', 'events.compressed', 'events.newline', 'events.encoding']
ASSUMPTIONS = ['documents saved by name have different names; files overwritten in place hold one document each',
               'standard output means sys.stdout at the time the writer was created']

WRITERS = [('write.Conllu', {}), ('write.Conllu', dict(print_text=0)), ('write.Sentences', {}), ('write.TextModeTrees', dict(color=0)),
           ('write.TextModeTrees', {}), ('write.TextModeTreesHtml', {}), ('write.Html', {}), ('write.Sdparse', {}), ('write.Treex', {}),
           ('write.Tikz', {}), ('write.Vislcg', {}), ('write.SentencesHtml', {}), ('write.TextModeTrees', dict(color=1, attributes='form,feats'))]


def listing(d):
    """{relative path: bytes} of everything in the scratch directory."""
    out = {}
    for base, _, names in os.walk(d):
        for n in names:
            p = os.path.join(base, n)
            with open(p, 'rb') as f:
                out[os.path.relpath(p, d)] = f.read()
    return out


def gen_docs(rng, n):
    texts, names = [], []
    for k in range(n):
        sents = gen.gen_doc(rng, nsent=rng.choice([1, 1, 2, 3]), max_n=6, p_newdoc=0.0, json_comments=0.0)
        for s in sents:
            for w in s.words:
                if w['form'] == '_':
                    w['form'] = 'x'
        name = None
        if rng.random() < 0.8:
            name = rng.choice([f'doc{k}', f'sub/doc{k}.conllu', f'd {k}', f'ž{k}.txt', f'a/b/{k}'])
            sents[0].comments.insert(0, f'# newdoc id = {name}')
        texts.append(gen.to_text(sents))
        names.append(name)
    return texts, names


def load(text, path=None, name=None):
    doc = Document()
    doc.from_conllu_string(text)
    doc.meta['loaded_from'] = path
    if name is not None:
        doc.meta['docname'] = name
    return doc


def reference(writer, params, text, path, name):
    """What a fresh writer prints to standard output for one document."""
    doc = load(text, path, name)
    with captured() as out, Logs():
        create_block(writer, **params).run(doc)
    return out.getvalue()


def opened(path):
    ext = path.rsplit('.', 1)[-1]
    return dict(gz=gzip.open, bz2=bz2.open, xz=lzma.open).get(ext, open)


def one_writer(rng, mon, i):
    d = mon.scratch()
    os.makedirs(d + '/in')
    os.chdir(d)
    n = rng.choice([1, 1, 2, 3, 4])
    texts, names = gen_docs(rng, n)
    writer, params = rng.choice(WRITERS)
    params = dict(params)
    dest = rng.choice(['stdout', 'list', 'list', 'docname', 'overwrite', 'path', 'filehandle'])
    mon.event('dest.' + dest)
    ext = rng.choice(['.conllu', '.conllu', '.txt', '', '.gz', '.xz', '.bz2']) if dest in ('overwrite', 'path', 'list') else '.conllu'
    inputs = [f'in/f{k}.x{ext}' for k in range(n)]
    for p, t in zip(inputs, texts):
        with opened(p)(p, 'wt', encoding='utf-8') as f:
            f.write(t)
    before = listing(d)
    refs = [reference(writer, params, t, p, nm) for t, p, nm in zip(texts, inputs, names)]
    mon.eq(listing(d), before, 'nothing written elsewhere', 'printing to stdout')
    enc, newline = 'utf-8', '\n'
    if dest not in ('stdout', 'filehandle'):
        if rng.random() < 0.2:
            enc = rng.choice(['utf-16', 'utf-8-sig', 'utf-32-le'])
            params['encoding'] = enc
            mon.event('encoding')
        if rng.random() < 0.2:
            newline = rng.choice(['\r\n', '\n', '\r'])
            params['newline'] = newline
            mon.event('newline')

    want_files, want_out = {}, ''
    used = n
    fh = None
    if dest == 'stdout':
        want_out = ''.join(refs)
        if rng.random() < 0.5:
            params['files'] = '-'
    elif dest == 'list':
        files = []
        for k in range(n + rng.choice([0, 0, 0, 1, 2, -1])):
            files.append('-' if rng.random() < 0.2 else rng.choice(['o', 'new/o', 'new/er/o', 'out.d/o.x'] if not ext else ['o', 'new/o']) + f'{k}{ext}')
        if not files or files == ['-']:
            files = [f'o0{ext}']    # files='-' alone means standard output for all the documents
        used = min(n, len(files))
        for f, r in zip(files, refs):
            if f == '-':
                want_out += r
            else:
                want_files[f] = r
        how = rng.choice(['list', 'comma', 'space', 'filelist'])
        if how == 'list':
            params['files'] = files
        elif how == 'comma':
            params['files'] = ','.join(files)
        elif how == 'space':
            params['files'] = ' '.join(files)
        else:
            spaced = {f: f.replace('o', 'o p, q') for f in files if f != '-' and rng.random() < 0.3}     # one name per line
            files = [spaced.get(f, f) for f in files]
            want_files = {spaced.get(f, f): r for f, r in want_files.items()}
            with open('in/fl', 'w') as f:
                f.write('\n'.join(files))
            before = listing(d)
            params['files'] = '@in/fl'
    elif dest == 'docname':
        params['docname_as_file'] = 1
        for nm, r in zip(names, refs):
            if nm is None:
                want_out += r
            else:
                want_files[nm] = r
    elif dest == 'overwrite':
        params['overwrite'] = 1
        want_files = dict(zip(inputs, refs))
    elif dest == 'path':
        kind = rng.choice(['dir', 'dir/', 'dir/*', 'ext', 'direxts', 'here', 'dotted', 'absolute'])
        params['path'] = {'dir': 'out/put', 'dir/': 'out/', 'dir/*': 'out/*', 'ext': '*.new', 'direxts': 'out/*.new', 'here': '*/*.new', 'dotted': 'out.d/v1.2', 'absolute': os.path.join(d, 'out/deep/er')}[kind]
        for k, r in enumerate(refs):
            stem, e = os.path.splitext(f'f{k}.x{ext}')
            want_files[{'dir': f'out/put/{stem}{e}', 'dir/': f'out/{stem}{e}', 'dir/*': f'out/{stem}{e}', 'ext': f'in/{stem}.new',
                        'direxts': f'out/{stem}.new', 'here': f'in/{stem}.new', 'dotted': f'out.d/v1.2/{stem}{e}', 'absolute': f'out/deep/er/{stem}{e}'}[kind]] = r
    else:
        fh = rng.choice([io.StringIO, lambda: open('given', 'w', encoding='utf-8', newline='')])()
        params['filehandle'] = fh
    mon.note(writer=writer, params={k: v for k, v in params.items() if k != 'filehandle'}, dest=dest, inputs=inputs, names=names, texts='\n=====\n'.join(texts))
    mon.state('config', repr((writer, sorted((k, str(v)) for k, v in params.items() if k != 'filehandle'), n, names)))

    if dest in ('list', 'docname', 'path') and rng.random() < 0.4:
        for f in want_files:    # older files are replaced
            if rng.random() < 0.6 and not os.path.exists(f):
                os.makedirs(os.path.dirname(f) or '.', exist_ok=True)
                with open(f, 'w') as old:
                    old.write('an older content\n' * rng.choice([1, 1000]))
                mon.event('older file replaced')
        before = listing(d)
    if rng.random() < 0.1 and dest in ('list', 'docname', 'overwrite'):
        bad = dict(params, files='in/other', docname_as_file=1) if dest != 'overwrite' else dict(params, files='in/other')
        if dest == 'docname' and rng.random() < 0.5:
            bad = dict(params, overwrite=1)
        with captured(), Logs():
            mon.raises(lambda: create_block(writer, **bad), 'contradictory destinations are refused', ValueError)
    docs = [load(t, p, nm) for t, p, nm in zip(texts, inputs, names)]
    with captured() as out, Logs():
        here = sys.stdout
        w = create_block(writer, **params)
        w.process_start()
        for k, doc in enumerate(docs):
            if k >= used:
                mon.raises(lambda: w.apply_on_document(doc), 'more documents than files', RuntimeError)
                break
            w.apply_on_document(doc)
            mon.ok(sys.stdout is here, 'stdout usable again')
        w.process_end()
        mon.ok(sys.stdout is here and not here.closed, 'stdout usable again')
        got_out = out.getvalue()
    mon.eq(got_out, want_out, 'standard output')
    if fh is not None:
        mon.ok(not fh.closed, 'bytes at the destination', 'the given filehandle was closed')
        if isinstance(fh, io.StringIO):
            mon.eq(fh.getvalue(), ''.join(refs), 'bytes at the destination')
        else:
            fh.close()
            want_files['given'] = ''.join(refs)
    after = listing(d)
    want_set = set(before) | set(want_files)
    mon.eq(sorted(after), sorted(want_set), 'nothing written elsewhere')
    for p, content in after.items():
        if p in want_files:
            with opened(p)(p, 'rb') as f:
                got = f.read()
            if opened(p) is not open:
                mon.event('compressed')
            if opened(p) is open or enc in ('utf-8', 'utf-32-le'):
                mon.eq(got, want_files[p].replace('\n', newline).encode(enc), 'bytes at the destination', p)
            else:   # Python's text layer over a compressed stream and str.encode differ in the BOM only
                mon.eq(got.decode(enc), want_files[p].replace('\n', newline), 'bytes at the destination', p)
        else:
            mon.eq(content, before[p], 'nothing written elsewhere', p)


class Say(Block):
    def __init__(self, text):
        super().__init__()
        self.text = text

    def process_document(self, document):
        print(self.text)


def several(rng, mon, i):
    """Several writers (and printing blocks) in one scenario."""
    d = mon.scratch()
    os.makedirs(d + '/in')
    os.chdir(d)
    mon.event('several writers')
    n = rng.choice([1, 2, 3])
    texts, names = gen_docs(rng, n)
    inputs = [f'in/f{k}.conllu' for k in range(n)]
    for p, t in zip(inputs, texts):
        with open(p, 'w', encoding='utf-8') as f:
            f.write(t)
    before = listing(d)
    blocks, cfg = [], []
    with captured() as out, Logs():
        blocks.append(('read', create_block('read.Conllu', files=list(inputs)), ''))
        for b in range(rng.choice([2, 3, 4])):
            if rng.random() < 0.3:
                cfg.append(('say', f'said {b}', None, None))
                blocks.append(('say', Say(f'said {b}'), ''))
                continue
            writer, params = rng.choice(WRITERS)
            dest = rng.choice(['stdout', 'list', 'path', 'docname' if all(names) else 'list'])
            extra = {'stdout': {}, 'list': dict(files=[f'b{b}-{k}' for k in range(n)]), 'path': dict(path=f'p{b}'), 'docname': dict(docname_as_file=1)}[dest]
            if dest == 'docname' and any(c[0] == 'docname' for c in cfg):
                dest, extra = 'stdout', {}
            cfg.append((dest, writer, params, b))
            blocks.append((writer, create_block(writer, **params, **extra), ''))
        mon.note(cfg=cfg, texts='\n====\n'.join(texts), names=names)
        mon.state('config', repr((cfg, names)))
        Run(argparse.Namespace(scenario=['x'])).run_blocks(blocks)
        mon.ok(sys.stdout is out, 'stdout usable again')
        got_out = out.getvalue()
    want_out, want_files = '', {}
    for k in range(n):
        for dest, what, params, b in cfg:
            if dest == 'say':
                want_out += what + '\n'
                continue
            ref = reference(what, params, texts[k], inputs[k], names[k])
            if dest == 'stdout':
                want_out += ref
            elif dest == 'list':
                want_files[f'b{b}-{k}'] = ref
            elif dest == 'path':
                want_files[f'p{b}/f{k}.conllu'] = ref
            else:
                want_files[names[k]] = ref
    mon.eq(got_out, want_out, 'standard output')
    after = listing(d)
    mon.eq(sorted(after), sorted(set(before) | set(want_files)), 'nothing written elsewhere')
    for p, content in after.items():
        mon.eq(content, want_files[p].encode() if p in want_files else before[p], 'bytes at the destination', p)


def failing(rng, mon, i):
    """A writer which fails in the middle of a document; the next one works as if nothing had happened."""
    d = mon.scratch()
    os.chdir(d)
    texts, names = gen_docs(rng, 2)
    writer, params = rng.choice([w for w in WRITERS if w[0] not in ('write.Html',)])
    dest = rng.choice(['stdout', 'file', 'filehandle', 'badfile'])
    stop = rng.choice([None, KeyboardInterrupt, SystemExit]) if dest != 'badfile' else None
    bad = load(texts[0])
    k = rng.randint(0, len(bad.bundles))
    good = load(texts[1])
    ref = reference(writer, params, texts[1], None, names[1])
    mon.note(writer=writer, dest=dest)
    mon.state('failing', repr((writer, dest, k, len(bad.bundles))))
    if dest == 'badfile':
        os.makedirs('taken')

        def make(**kw):
            return create_block(writer, files=['taken', 'good'], **params, **kw)
    else:
        bad.create_bundle().create_tree('empty')

        def make(**kw):
            return create_block(writer, if_empty_tree='fail', **params, **kw)
    with captured() as out, Logs():
        fh = io.StringIO()
        w = make(**{'stdout': {}, 'file': dict(files=['bad', 'good']), 'filehandle': dict(filehandle=fh), 'badfile': {}}[dest])
        if stop:
            usual = w.process_document

            def interrupted(document):
                print('started')
                raise stop()
            w.process_document = interrupted
            try:
                w.apply_on_document(bad)
                mon.ok(False, 'failure keeps stdout', 'not raised')
            except stop:
                mon.event('interrupted')
            w.process_document = usual
        else:
            mon.raises(lambda: w.apply_on_document(bad), 'failure keeps stdout')
        mon.ok(sys.stdout is out and not out.closed, 'failure keeps stdout', f'{writer} {dest}')
        print('MARK')
        w.apply_on_document(good)
        mon.ok(sys.stdout is out, 'failure keeps stdout', f'{writer} {dest}')
        got = out.getvalue()
    head, tail = got.split('MARK\n')
    if dest == 'stdout':
        mon.eq(tail, ref, 'failure keeps stdout')
    else:
        mon.eq((head, tail), ('', ''), 'failure keeps stdout')
        res = fh.getvalue() if dest == 'filehandle' else open('good', encoding='utf-8').read()
        mon.ok(res == ref or (dest == 'filehandle' and res.endswith(ref)), 'failure keeps stdout', lambda: (res, ref))


def results(rng, mon, i):
    """Blocks which print once at the end: the same results on standard output, in a file and in a filehandle."""
    d = mon.scratch()
    os.chdir(d)
    n = rng.choice([1, 2, 3])
    docs_text = []
    for k in range(n):
        sents = []
        for b in range(rng.choice([1, 2])):
            for z in ('en', 'gold'):
                sents.append(gen.gen_sent(random_like(rng, b), n=3, p_mwt=0, p_empty=0, p_deps=0, sid=f's{b}', zone=z, p_newdoc=0, json_comments=0))
        docs_text.append(gen.to_text(sents))
    block, params = rng.choice([('eval.F1', dict(attributes='upos')), ('eval.Parsing', {}), ('eval.Conll17', {}), ('eval.Conll18', {}), ('eval.Conll18', dict(print_counts=1)),
                                ('eval.F1', dict(attributes='form,deprel', details=0))])
    params = dict(params, gold_zone='gold', zones='en')
    mon.note(block=block, params=params, texts='\n=====\n'.join(docs_text))
    mon.state('results', repr((block, sorted(params.items()), docs_text)))

    def run(**kw):
        with captured() as out, Logs():
            b = create_block(block, **params, **kw)
            b.process_start()
            for t in docs_text:
                b.apply_on_document(load(t))
                mon.ok(sys.stdout is out, 'stdout usable again')
            b.process_end()
            mon.ok(sys.stdout is out, 'stdout usable again', block)
            return out.getvalue()
    ref = run()
    mon.ok(len(ref.splitlines()) >= 4, 'results file')
    mon.eq(run(files='r.txt'), '', 'results file', 'something on stdout')
    mon.eq({k: v.decode() for k, v in listing(d).items()}, {'r.txt': ref}, 'results file')
    fh = io.StringIO()
    mon.eq(run(filehandle=fh), '', 'results file')
    mon.eq(fh.getvalue(), ref, 'results file')


def random_like(rng, b):
    return rng


def api(rng, mon, i):
    """The convenience methods of the API print the same bytes as the writers."""
    d = mon.scratch()
    os.chdir(d)
    texts, names = gen_docs(rng, 1)
    text, name = texts[0], names[0]
    ref = reference('write.Conllu', {}, text, None, name)
    mon.state('api', text)
    mon.note(text=text)
    doc = load(text, None, name)
    with captured() as out:
        doc.store_conllu('x/y.conllu')
        mon.eq((out.getvalue(), sys.stdout is out), ('', True), 'stdout usable again')
    mon.eq({k: v.decode() for k, v in listing(d).items()}, {'x/y.conllu': ref}, 'bytes at the destination')
    with captured() as out:
        mon.eq(doc.to_conllu_string(), ref, 'bytes at the destination')
        mon.eq((out.getvalue(), sys.stdout is out), ('', True), 'stdout usable again')
    opts = rng.choice([{}, dict(attributes='form,upos'), dict(print_sent_id=0, color=0), dict(layout='align', color=0), dict(print_doc_meta=0)])
    tree = rng.choice(list(doc.trees))
    obj = rng.choice([doc, doc[0], tree, rng.choice(tree.descendants)])
    mon.note(draw=str(obj), opts=opts)
    with captured() as out:
        obj.draw(**opts)
        printed = out.getvalue()
        mon.ok(sys.stdout is out, 'stdout usable again')
    with captured() as out:
        obj.draw(files='drawn.txt', **opts)
        mon.eq((out.getvalue(), sys.stdout is out), ('', True), 'draw to a file', str(obj))
    mon.ok(os.path.exists('drawn.txt'), 'draw to a file', f'{obj!r}: no file')
    with open('drawn.txt', encoding='utf-8', newline='') as f:
        mon.eq(f.read(), printed, 'draw to a file')
    o2 = dict(opts, print_doc_meta=0)
    with captured() as out:
        doc.draw(**o2)
        whole = out.getvalue()
        parts = ''
    with captured() as out:
        for t in doc.trees:
            t.draw(**o2)
        parts = out.getvalue()
    mon.eq(parts, whole, 'bytes at the destination', 'trees drawn one by one')


def chunks_overwritten():
    """Known finding: overwrite=1 with several documents per input file keeps only the last one."""
    import tempfile
    import shutil
    d = tempfile.mkdtemp(prefix='udapi-verif-')
    try:
        p = os.path.join(d, 'x.conllu')
        text = ''.join(f'# newdoc id = d{k}\n# sent_id = s{k}\n# text = w{k}\n1\tw{k}\t_\t_\t_\t_\t0\troot\t_\t_\n\n' for k in range(2))
        with open(p, 'w', encoding='utf-8') as f:
            f.write(text)
        Run(argparse.Namespace(scenario=['read.Conllu', f'files={p}', 'split_docs=1', 'write.Conllu', 'overwrite=1'])).execute()
        with open(p, encoding='utf-8') as f:
            return f.read() != text
    finally:
        shutil.rmtree(d, ignore_errors=True)


KNOWN = [('overwrite-several-documents', chunks_overwritten)]

WORKLOADS = [Workload('one writer', one_writer, 2950, 17700), Workload('several', several, 800, 4800), Workload('failing', failing, 800, 4800),
             Workload('results', results, 250, 1500), Workload('api', api, 600, 3600)]
