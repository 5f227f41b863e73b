"""C08 failing documents: loud, alone, no wrong output"""
import os

from vf import gen, judge, pipes, work

RULE = (
    'batches of 2-7 documents of all 8 commands in which any subset fails (target missing, empty, cut off, not XML, or a '
    'directory; source empty, not XML, without the annotated part, or not readable; output not writable), '
    'with and without --skip-errors, 1-6 threads, processes or the beam pipeline; reference = the good documents, one '
    'at a time, without the failing ones; monitors: exit status, set and bytes of the outputs; '
    'non-trivial: at least one failing and one good document'
)
PLAN = {'quick': 520, 'thorough': 12000}
REQUIRED_EVENTS = {'failing-documents': 300, 'good-documents': 500, 'skip-runs': 150, 'strict-runs': 100,
                   'retries-after-repair': 40}

FAULTS = ['target-missing', 'target-empty', 'target-cut', 'target-garbage', 'target-directory', 'target-mismatched',
          'source-empty', 'source-garbage', 'source-no-container', 'source-other-root',
          'output-directory']


def spoil(rng, fault, paths, pipe):
    source, target, output = paths
    if fault == 'target-missing':
        os.remove(target)
    elif fault == 'target-empty':
        pipes.write(target, '')
    elif fault == 'target-cut':
        data = pipes.read(target)
        pipes.write(target, data[:rng.randint(len(data) // 3, len(data) - 12)])
    elif fault == 'target-garbage':
        pipes.write(target, rng.choice(['no xml at all', b'\x00\x01\x02', '<article', '{"a": 1}']))
    elif fault == 'target-mismatched':
        data = pipes.read(target)
        pipes.write(target, data.replace(b'</article>', b'</front></article>'))
    elif fault == 'target-directory':
        os.remove(target)
        os.mkdir(target)
    elif fault == 'source-empty':
        pipes.write(source, '')
    elif fault == 'source-garbage':
        pipes.write(source, rng.choice(['no xml at all', b'\x00\x01\x02', '{"a": 1}']))
    elif fault == 'source-no-container':
        pipes.write(source, rng.choice([
            '<tei><teiHeader/></tei>', '<TEI xmlns="http://www.tei-c.org/ns/1.0"><teiHeader/></TEI>']))
    elif fault == 'source-other-root':
        pipes.write(source, '<article><front><p>this is not a training file</p></front></article>')
    elif fault == 'output-directory':
        os.mkdir(output)


def run_case(ctx):
    rng = ctx.rng
    pipe = pipes.PIPES[work.NAMES[ctx.index % len(work.NAMES)]]
    opts = [judge.SEGMENT_OPTION[pipe.name]] if pipe.name in judge.SEGMENT_OPTION else []
    n = rng.randint(2, 7)
    n_bad = rng.choice([1, 1, 2, n - 1, n])
    docs, bad = {}, {}
    order = ['%s%d' % (rng.choice('abcdef'), i) for i in range(n)]
    for name in order:
        doc = work.TRUTH[pipe.name](rng)
        docs[name] = (pipes.wrap_document(pipe, gen.render(doc.items()), rng), doc.jats.xml())
    for name in rng.sample(order, min(n, n_bad)):
        bad[name] = rng.choice(FAULTS)
    expected = {}
    for name in order:
        result, outs = pipes.run_documents(ctx, pipe, {name: docs[name]}, opts)
        if result.error is not None or not os.path.exists(outs[name]):
            ctx.violation('command-failed', pipe=pipe.name, opts=opts, error=repr(result.error), doc=docs[name])
            return
        expected[name] = pipes.read(outs[name])
    src, out, xml = ctx.new_dir('src'), ctx.new_dir('out'), ctx.new_dir('xml')
    for name in order:
        paths = [os.path.join(src, name + pipe.suffix), os.path.join(xml, name + '.xml'),
                 os.path.join(out, name + pipe.suffix)]
        pipes.write(paths[0], docs[name][0])
        pipes.write(paths[1], docs[name][1])
        if name in bad:
            spoil(rng, bad[name], paths, pipe)
            ctx.event('fault:' + bad[name])
    skip = rng.random() < 0.6
    r = rng.random()
    mode = 'threads' if r < 0.8 else ('processes' if r < 0.95 else 'beam')
    extra = opts + (['--skip-errors'] if skip else []) + ['--num-workers', '0' if mode == 'beam' else str(rng.randint(1, 6))]
    if mode == 'processes':
        extra.append('--multi-processing')
    result = pipes.run(pipe, src, out, xml, extra)
    ctx.event('skip-runs' if skip else 'strict-runs')
    ctx.event('failing-documents', len(bad))
    ctx.event('good-documents', n - len(bad))
    detail = dict(pipe=pipe.name, opts=extra, bad=bad, documents=order)
    if skip:
        ctx.require(result.error is None, 'skipped-error-stops-the-run', error=repr(result.error), **detail)
    else:
        ctx.require(result.error is not None, 'failure-not-reported', **detail)
    check_outputs(ctx, pipe, out, order, bad, expected, complete=skip, detail=detail)
    if bad and len(bad) < n:
        ctx.distinct(pipe.name, mode, skip, sorted(bad.items()), docs)
    if ctx.violations or rng.random() > 0.3:
        return
    # the cause is removed: resuming does exactly what was missing
    for name in bad:
        for p in (os.path.join(xml, name + '.xml'), os.path.join(out, name + pipe.suffix)):
            if os.path.isdir(p):
                os.rmdir(p)
        source = os.path.join(src, name + pipe.suffix)
        pipes.write(source, docs[name][0])
        pipes.write(os.path.join(xml, name + '.xml'), docs[name][1])
    result = pipes.run(pipe, src, out, xml, opts + ['--resume', '--num-workers', '2'])
    ctx.event('retries-after-repair')
    ctx.require(result.error is None, 'retry-failed', error=repr(result.error), **detail)
    check_outputs(ctx, pipe, out, order, {}, expected, complete=True, detail=detail)


def check_outputs(ctx, pipe, out, order, bad, expected, complete, detail):
    known = set()
    for name in order:
        path = os.path.join(out, name + pipe.suffix)
        known.add(name + pipe.suffix)
        if name in bad:
            ctx.require(not os.path.isfile(path), 'failed-document-has-output', name=name, fault=bad[name],
                        output=pipes.read(path) if os.path.isfile(path) else '', **detail)
            continue
        if complete:
            ctx.require(os.path.isfile(path), 'good-document-has-no-output', name=name, **detail)
        if os.path.isfile(path):
            ctx.event('outputs-compared')
            actual = pipes.read(path)
            ctx.require(actual == expected[name], 'good-document-affected', name=name,
                        expected=expected[name], actual=actual, **detail)
    ctx.require(set(os.listdir(out)) <= known, 'unexpected-files', files=os.listdir(out), **detail)
