"""C07 the result does not depend on the schedule"""
import os

from vf import gen, hostile, judge, pipes, work
from vf.delays import Delays

RULE = (
    'batches of 3-8 random documents of every command; reference = the same command, one '
    'document at a time; then the batch with 2-8 threads under injected delays at function '
    'boundaries, with worker processes, or through the beam pipeline; monitors: outputs byte '
    'for byte equal, no error, nothing left in the temporary directory; non-trivial: at least '
    'two worker threads/processes took part'
)
PLAN = {'quick': 360, 'thorough': 8000}
REQUIRED_EVENTS = {'threaded-batches': 60, 'injected-sleeps': 500, 'outputs-compared': 500}

NAMES = sorted(pipes.PIPES)


def run_case(ctx):
    rng = ctx.rng
    pipe = pipes.PIPES[NAMES[ctx.index % len(NAMES)]]
    n_docs = rng.randint(3, 8)
    if rng.random() < 0.35:
        docs = {'doc%d' % d: work.document(rng, pipe, 'hostile') for d in range(n_docs)}
        opts = hostile.options(rng, pipe.name)
    else:
        # documents whose result depends on their own target document
        docs = {}
        for d in range(n_docs):
            doc = work.TRUTH[pipe.name](rng)
            docs['doc%d' % d] = (
                pipes.wrap_document(pipe, gen.render(doc.items()), rng), doc.jats.xml())
        opts = [judge.SEGMENT_OPTION[pipe.name]] if pipe.name in judge.SEGMENT_OPTION else []
        if rng.random() < 0.3:
            opts.append('--no-preserve-tags')
        ctx.event('target-dependent-batches')
    expected = {}
    for name, doc in docs.items():
        result, outs = pipes.run_documents(ctx, pipe, {name: doc}, opts)
        if result.error is not None:
            ctx.violation('command-failed', pipe=pipe.name, opts=opts, error=repr(result.error), doc=doc)
            return
        expected[name] = pipes.read(outs[name])
    r = rng.random()
    mode = 'threads' if r < 0.72 else ('processes' if r < 0.95 else 'beam')
    workers = rng.randint(2, 8)
    extra = list(opts)
    if mode == 'beam':
        extra += ['--num-workers', '0']
    else:
        extra += ['--num-workers', str(workers)]
        if mode == 'processes':
            extra.append('--multi-processing')
    own_tmp = ctx.new_dir('tmp')
    old = os.environ['TMPDIR']
    import tempfile
    os.environ['TMPDIR'] = own_tmp
    tempfile.tempdir = None
    try:
        if mode == 'threads':
            if rng.random() < 0.6:
                # what is done once per document
                delays = Delays(rng.random(), probability=rng.choice([0.1, 0.3, 0.6]),
                                max_sleep=rng.choice([0.004, 0.02]),
                                focus=rng.choice([('/auto_annotate_',), ('/auto_annotate_', '/utils/'),
                                                  ('/annotation/target_', '/utils/', '/auto_annotate_utils'),
                                                  ('/structured_document/',), ('/annotation/',)]))
            else:
                delays = Delays(rng.random(), probability=rng.choice([0.02, 0.1, 0.3]),
                                max_sleep=rng.choice([0.001, 0.004]))
            with delays:
                result, outs = pipes.run_documents(ctx, pipe, docs, extra)
            ctx.event('threaded-batches')
            ctx.event('injected-sleeps', delays.sleeps)
            ctx.event('line-events', delays.seen)
            ctx.event('thread-switches-seen', delays.switches)
            ctx.event('delayed-lines', len(delays.counts))
            ctx.event('worker-threads', len(delays.threads) - 1)
            if len(delays.threads) > 2:
                ctx.distinct(mode, pipe.name, opts, docs)
        else:
            result, outs = pipes.run_documents(ctx, pipe, docs, extra)
            ctx.event('batches-' + mode)
            ctx.distinct(mode, pipe.name, opts, docs)
    finally:
        os.environ['TMPDIR'] = old
        tempfile.tempdir = None
    if result.error is not None:
        ctx.violation('concurrent-run-failed', pipe=pipe.name, mode=mode, workers=workers, opts=opts,
                      error=repr(result.error))
        return
    ctx.require(result.files() == sorted(n + pipe.suffix for n in docs), 'output-set-differs',
                pipe=pipe.name, mode=mode, files=result.files())
    for name, out in outs.items():
        if not os.path.exists(out):
            continue
        ctx.event('outputs-compared')
        actual = pipes.read(out)
        ctx.require(actual == expected[name], 'output-depends-on-schedule', pipe=pipe.name,
                    mode=mode, workers=workers, opts=opts, expected=expected[name], actual=actual)
    left = os.listdir(own_tmp) if mode != 'beam' else []
    ctx.require(not left, 'temporary-files-left', left=left, mode=mode, pipe=pipe.name)
