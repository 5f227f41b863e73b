"""C05 completeness of labels"""
import os

from vf import gen, judge, pipes, tei, truth, work
from vf.gen import El

RULE = (
    'documents of all 8 commands whose correct labels are known by construction, values '
    'verbatim, re-wrapped over lines, with typographic differences or a few wrong letters; '
    'monitor: every character of every value has the label of its field and every entry is '
    'one element of its own; titles with words missing against --matcher-score-threshold; non-trivial: at least one labelled value'
)
PLAN = {'quick': 1400, 'thorough': 40000}
REQUIRED_EVENTS = {'values-checked': 5000, 'variant:noise': 100, 'variant:typography': 100, 'threshold:found': 10, 'threshold:not-found': 10}


def run_case(ctx):
    if ctx.index % 9 == 5:
        threshold_case(ctx)
        return
    case = judge.make_case(ctx.rng, work.NAMES[ctx.index % len(work.NAMES)])
    flat, chars, paths, owner = judge.run(ctx, case)
    if flat is None:
        return
    by_block = {}
    for i, b in enumerate(owner):
        by_block.setdefault(b, []).append(i)
    seen = {}
    for b, indices in by_block.items():
        block = case.doc.blocks[b]
        if block.field is None:
            continue
        ctx.event('values-checked')
        missing = [i for i in indices if flat.paths[i][:len(paths[i])] != paths[i]]
        ctx.require(
            not missing, 'value-not-labelled', pipe=case.pipe.name, opts=case.opts, variants=case.variants,
            field=block.field, value=block.text,
            text=flat.slice_text(max(0, missing[0] - 20), missing[0] + 40) if missing else '',
            expected=paths[missing[0]] if missing else '', actual=flat.paths[missing[0]] if missing else '',
            jats=case.jats, output=getattr(case, 'output', ''))
        # the author list of a header is many values, not one entry
        if missing or case.pipe.name == 'segmentation' or block.field == 'author':
            continue
        instances = {flat.ids[i][:len(block.path)] for i in indices}
        ctx.require(len(instances) == 1, 'entry-split', pipe=case.pipe.name, opts=case.opts,
                    field=block.field, value=block.text, jats=case.jats, output=case.output)
        for instance in instances:
            ctx.require(instance not in seen, 'entries-merged', pipe=case.pipe.name, opts=case.opts,
                        field=block.field, value=block.text, other=seen.get(instance), output=case.output)
            seen[instance] = block.text
    if any(b.field for b in case.doc.blocks):
        ctx.distinct(case.pipe.name, chars)


def threshold_case(ctx):
    """A title of which every part but some words occurs, against --matcher-score-threshold."""
    rng = ctx.rng
    pipe = pipes.PIPES['header']
    v = gen.Vocab(rng)
    words = v.phrase(rng.randint(12, 24)).split(' ')
    threshold = rng.choice([0.5, 0.6, 0.7, 0.8, 0.9, 0.95, None])
    limit = threshold or 0.8
    if rng.random() < 0.5:
        # single words in between are missing
        gone, i = set(), rng.randint(3, 5)
        dense = rng.random() < 0.5
        while i < len(words) - 3:
            gone.add(i)
            i += 3 if dense else rng.randint(4, 10)
    else:
        gone = set(rng.sample(range(1, len(words) - 1), round(rng.uniform(0.15, 0.6) * len(words))))
    shown = [w for i, w in enumerate(words) if i not in gone]
    share = len(''.join(shown)) / len(''.join(words))
    far = all(i - 1 not in gone and i - 2 not in gone for i in gone | {len(words), len(words) - 1}) and min(gone) > 2
    if abs(share - limit) < 0.1 or (share > limit and not far):
        return
    lines = gen.wrap_lines(rng, ' '.join(shown), 40, 90)
    before, after = ([judge.foreign(v.phrase(rng.randint(3, 8)).lower()) for _ in range(rng.randint(0, 4))] for _ in range(2))
    items = [x for line in before + lines + after for x in (((), -1, line), gen.LB, ((), -1, '\n'))]
    jats = gen.Jats()
    jats.article_meta.append(El('title-group', El('article-title', ' '.join(words))))
    xml = pipes.wrap_document(pipe, gen.render(items), rng)
    opts = ['--matcher-score-threshold', str(threshold)] if threshold else []
    result, outs = pipes.run_documents(ctx, pipe, {'doc': (xml, jats.xml())}, opts)
    detail = dict(opts=opts, share=share, title=' '.join(words), doc=xml)
    if not ctx.require(result.error is None and os.path.exists(outs['doc']), 'command-failed', error=repr(result.error), **detail):
        return
    flat = tei.flatten_file(outs['doc'], pipe.container)
    start = len(''.join(''.join(before).split()))
    at = start
    size = len(''.join(''.join(lines).split()))
    path = truth.header_path('title')
    labelled = [x[:len(path)] == path for x in flat.paths]
    if share > limit:
        ctx.event('threshold:found')
        # first and last of the words that occur, and everything between them
        ctx.require(all(labelled[at:at + size]), 'value-above-threshold-not-labelled', output=pipes.read(outs['doc']), **detail)
    else:
        ctx.event('threshold:not-found')
        ctx.require(not any(labelled), 'value-below-threshold-labelled', output=pipes.read(outs['doc']), **detail)
    ctx.distinct('threshold', xml)
