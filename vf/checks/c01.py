"""C01 text conservation"""
import os

from vf import gen, hostile, pipes, tei, work

RULE = (
    'random training documents of all 8 commands (hostile text with arbitrary existing '
    'markup, and structured documents), target values cut from the text, random options, '
    'plain or gzip files; monitor compares the label-independent text of source and output; '
    'with removal of invalid entries the output has to be the text that is labelled without '
    'the removal; non-trivial: at least one label differs between source and output'
)
PLAN = {'quick': 2000, 'thorough': 60000}
REQUIRED_EVENTS = {'text-compared': 1000, 'removal-compared': 50}

REMOVE = {
    'reference': ('--remove-invalid-references', '--segment-references', 'bibl'),
    'affiliation': ('--remove-invalid-affiliations', '--segment-affiliation', 'affiliation'),
}


def run_case(ctx):
    rng = ctx.rng
    pipe = pipes.PIPES[work.NAMES[ctx.index % len(work.NAMES)]]
    if pipe.name in REMOVE and rng.random() < 0.35:
        removal_case(ctx, pipe)
        return
    docs = {
        'doc%d' % d: work.document(rng, pipe)
        for d in range(rng.choice([1, 1, 2, 3]))
    }
    opts = hostile.options(rng, pipe.name)
    result, outs = pipes.run_documents(ctx, pipe, docs, opts)
    if result.error is not None:
        ctx.violation('command-failed', pipe=pipe.name, opts=opts, error=repr(result.error), docs=docs)
        return
    for name, out in outs.items():
        src_flat = tei.flatten_file(os.path.join(result.src, name + pipe.suffix), pipe.container)
        if not os.path.exists(out):
            ctx.violation('output-missing', pipe=pipe.name, opts=opts, doc=docs[name])
            continue
        try:
            out_flat = tei.flatten_file(out, pipe.container)
        except Exception as e:  # pylint: disable=broad-except
            ctx.violation('output-unreadable', pipe=pipe.name, error=repr(e), doc=docs[name])
            continue
        ctx.event('text-compared')
        ctx.event('chars', len(src_flat.chars))
        ctx.require(src_flat.text == out_flat.text, 'text-changed', pipe=pipe.name, opts=opts,
                    expected=src_flat.text, actual=out_flat.text, doc=docs[name])
        if src_flat.paths != out_flat.paths:
            ctx.distinct(name, docs[name])


def removal_case(ctx, pipe):
    rng = ctx.rng
    remove, segment, label = REMOVE[pipe.name]
    # every character is either inside an entry or not: no other existing markup
    docs = {'doc': work.document(rng, pipe, markup=0)}
    if rng.random() < 0.5:
        doc = work.TRUTH[pipe.name](rng)
        drop_targets(rng, doc)
        docs = {'doc': (
            pipes.wrap_document(pipe, gen.render(doc.items(), rng), rng), doc.jats.xml())}
    opts = ['--no-preserve-tags', segment]
    result, outs = pipes.run_documents(ctx, pipe, docs, opts)
    removed, removed_outs = pipes.run_documents(ctx, pipe, docs, opts + [remove])
    if result.error or removed.error:
        ctx.violation('command-failed', pipe=pipe.name, opts=opts, docs=docs,
                      error=repr(result.error or removed.error))
        return
    flat = tei.flatten_file(outs['doc'], pipe.container)
    expected = ''.join(
        c for c, path in zip(flat.chars, flat.paths) if path and path[0] == label
    )
    removed_flat = tei.flatten_file(removed_outs['doc'], pipe.container)
    ctx.event('removal-compared')
    ctx.require(removed_flat.dense == expected, 'removal-lost-or-repeated-text', pipe=pipe.name,
                expected=expected, actual=removed_flat.dense, doc=docs['doc'])
    ctx.require(all(p and p[0] == label for p in removed_flat.paths), 'removal-kept-unlabelled-text',
                pipe=pipe.name, doc=docs['doc'])
    if expected and expected != flat.dense:
        ctx.event('removal-partial')
        ctx.distinct('removal', docs)


def drop_targets(rng, doc):
    """The target document does not know some of the entries."""
    for parent in doc.jats.back + doc.jats.article_meta:
        if parent.tag in ('ref-list', 'contrib-group'):
            parent.children = [c for c in parent.children if rng.random() < 0.6]
