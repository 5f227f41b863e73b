"""C18 annotating again"""
import collections
import os
import re

from vf import gen, hostile, judge, pipes, tei, work

RULE = (
    'documents of all 8 commands with known values (also with approximate occurrences, additional text and targets) and any existing labels per block, '
    'annotated with random options; then the output is annotated again, once or twice, with the same target and options, and once more with a target '
    'without values (commands and options that keep existing labels); monitors: label of every character and which characters share an '
    'element, run n against run n+1; non-trivial: at least one label'
)
PLAN = {'quick': 1200, 'thorough': 24000}
REQUIRED_EVENTS = dict([('again:' + n, 120) for n in work.NAMES] + [
    ('empty:header', 60), ('empty:affiliation', 60), ('empty:figure', 60), ('empty:table', 60), ('empty:segmentation', 60),
    ('labelled-characters', 100000), ('existing', 300), ('options', 300)])
EMPTY = b'<article><front><article-meta/></front></article>'
# with these, existing labels on all levels are kept
KEEP = {
    'header': [], 'segmentation': [], 'affiliation': ['--preserve-sub-tags'], 'figure': ['--preserve-sub-tags'], 'table': ['--preserve-sub-tags'],
}
# text directly in this element is read as one label with everything in it
NOT_ALONE = {('byline',)}


def options(rng, name):
    while True:
        opts = hostile.options(rng, name)
        if 'complex' not in opts:
            return opts


def existing(rng, name, doc):
    if rng.random() < 0.3:
        return None
    fn = work.existing_markup(rng, name, doc)

    def chosen(block):
        path = fn(block)
        return () if path in NOT_ALONE else path
    return chosen


def groups(flat):
    """which characters share the elements: per character the first one in its element, for each level"""
    first = {}
    return [tuple(first.setdefault(ids[:n + 1], i) for n in range(len(ids))) for i, ids in enumerate(flat.ids)]


def has_unmarked_heads(data):
    """a line that occurs repeatedly, not always as running head: it is recognised as one when there is no value for it"""
    body = data if isinstance(data, str) else data.decode('utf-8')
    marked = collections.defaultdict(list)
    path = []
    line = ''
    for part in re.split(r'(<[^>]*>)', body):
        if not part.startswith('<'):
            line += part
        elif re.match(r'<(?:\w+:)?lb\b', part):
            marked[' '.join(line.split())].append(list(path))
            line = ''
        elif part.startswith('</'):
            path.pop()
        elif not part.endswith('/>') and part[1] not in '!?':
            path.append(part)
    return any(len(text.split()) > 1 and len(paths) > 1 and not all('headnote' in ''.join(p) for p in paths) for text, paths in marked.items())


def annotate(ctx, pipe, data, jats, opts):
    result, outs = pipes.run_documents(ctx, pipe, {'doc': (data, jats)}, opts)
    if not ctx.require(result.error is None and os.path.exists(outs['doc']), 'command-failed', pipe=pipe.name, opts=opts,
                       error=repr(result.error), doc=data, jats=jats):
        return None, None
    out = pipes.read(outs['doc'])
    try:
        return out, tei.flatten_file(outs['doc'], pipe.container)
    except Exception as e:  # pylint: disable=broad-except
        ctx.violation('output-unreadable', pipe=pipe.name, error=repr(e), doc=data, output=out)
        return None, None


def compare(ctx, a, b, **detail):
    if not ctx.require(a.dense == b.dense, 'text-changed', **detail):
        return False

    def excerpt(i):
        return a.slice_text(max(0, i - 20), i + 40)
    wrong = [i for i in range(len(a.chars)) if a.paths[i] != b.paths[i]]
    if wrong:
        ctx.violation('labels-changed', text=excerpt(wrong[0]), first=a.paths[wrong[0]], second=b.paths[wrong[0]], **detail)
        return False
    ga, gb = groups(a), groups(b)
    wrong = [i for i in range(len(ga)) if ga[i] != gb[i]]
    if wrong:
        ctx.violation('elements-changed', text=excerpt(wrong[0]), path=a.paths[wrong[0]], **detail)
        return False
    ctx.event('labelled-characters', sum(1 for p in a.paths if p))
    return True


def run_case(ctx):
    rng = ctx.rng
    name = work.NAMES[ctx.index % len(work.NAMES)]
    pipe = pipes.PIPES[name]
    if rng.random() < 0.4:
        case = judge.make_case(rng, name)
        doc, opts, marks = case.doc, case.opts, case.existing
    else:
        doc = work.TRUTH[name](rng)
        opts = options(rng, name)
        marks = existing(rng, name, doc)
        ctx.event('options')
        ctx.event('existing', marks is not None)
    source = pipes.wrap_document(pipe, gen.render(doc.items(existing=marks)), rng)
    jats = doc.jats.xml()
    data, flat = annotate(ctx, pipe, source, jats, opts)
    if flat is None:
        return
    for n in range(rng.choice([1, 1, 2])):
        again, flat2 = annotate(ctx, pipe, data, jats, opts)
        if flat2 is None or not compare(ctx, flat, flat2, pipe=pipe.name, opts=opts, run=n + 2, source=source, before=data, output=again, jats=jats):
            return
        data, flat = again, flat2
    ctx.event('again:' + name)
    if name in KEEP and not (name == 'segmentation' and has_unmarked_heads(data)):
        again, flat2 = annotate(ctx, pipe, data, EMPTY, KEEP[name])
        if flat2 is None or not compare(ctx, flat, flat2, pipe=pipe.name, opts=KEEP[name], run='empty', before=data, output=again):
            return
        ctx.event('empty:' + name)
    if any(flat.paths):
        ctx.distinct(name, flat.dense)
