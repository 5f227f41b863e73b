"""C12 line numbers"""
import os

from vf import gen, pipes, tei, truth, work
from vf.gen import LB

RULE = (
    'header, segmentation and reference segmenter documents with known labels, whose lines are '
    'numbered (any start, step and share of the lines, number-only lines, numbers inside lines, '
    'repeated, smaller and isolated numbers at the start of other lines) and random settings of the '
    'line number options; monitor: exactly the numbers of the sequence are labelled as line number '
    'when there are enough of them, the labels of all other text are those of the document without '
    'numbers, and with too few of them the output is the one without the option; non-trivial: a '
    'document with numbers at the start of lines'
)
PLAN = {'quick': 1300, 'thorough': 26000}
REQUIRED_EVENTS = {
    'numbered:header': 120, 'numbered:segmentation': 120, 'numbered:reference_segmenter': 120,
    'rejected:header': 60, 'rejected:segmentation': 60, 'rejected:reference_segmenter': 60,
    'line-numbers': 10000, 'option:gap': 100, 'option:ratio': 100, 'option:min': 200,
    'decoys': 300, 'other-characters': 100000
}
NAMES = ['header', 'segmentation', 'reference_segmenter']
LINE_NO = {
    'header': ('note[@type="line_no"]',), 'segmentation': ('note[@type="line_no"]',),
    'reference_segmenter': ('line_no',)
}


class Line:
    def __init__(self, block, text):
        self.block = block
        self.text = text
        self.number = None
        self.decoy = None


def build(rng, name):
    doc = work.TRUTH[name](rng) if name != 'segmentation' else truth.segmentation_doc(rng, headnotes=False)
    if rng.random() < 0.6:
        v = gen.Vocab(rng)
        v.used = {w[:5].lower() for b in doc.blocks for w in b.text.split()}
        block = truth.Block(
            None, [v.phrase(rng.randint(3, 8)) for _ in range(rng.choice([8, 15, 30]))], doc.default_path)
        at = [i for i in range(1, len(doc.blocks)) if doc.blocks[i - 1].path == truth.SEG_BODY and
              doc.blocks[i].path == truth.SEG_BODY] if name == 'segmentation' else [0, len(doc.blocks)]
        if at:
            doc.blocks.insert(rng.choice(at), block)
    lines = [Line(b, line) for b in doc.blocks for line in b.lines]
    if name != 'segmentation' and rng.random() < 0.3:
        # lines that only consist of their number
        for _ in range(rng.randint(1, 4)):
            i = rng.randrange(len(lines))
            lines.insert(i, Line(lines[i].block, ''))
    return doc, lines


def plain_start(line):
    return line.text != '' and not line.text[:1].isdigit()


def run_case(ctx):
    rng = ctx.rng
    name = NAMES[ctx.index % 3]
    pipe = pipes.PIPES[name]
    doc, lines = build(rng, name)
    n_lines = len(lines)
    # -- the settings
    opts, minimum, gap, ratio = [], 10, 10, 0.1
    if n_lines < 14 or rng.random() < 0.6:
        minimum = rng.randint(2, max(2, min(12, n_lines)))
        opts += ['--min-line-numbers-per-page', str(minimum)]
        ctx.event('option:min')
    if rng.random() < 0.4:
        gap = rng.choice([0, 1, 3, 5, 20, 50])
        opts += ['--max-line-number-gap', str(gap)]
        ctx.event('option:gap')
    if rng.random() < 0.4:
        ratio = rng.choice([0.05, 0.25, 0.3, 0.5, 0.6, 0.75])
        opts += ['--min-line-number-ratio', str(ratio)]
        ctx.event('option:ratio')
    # -- which lines are numbered
    share = rng.choice(['all', 'all', 'all', 'some', 'few', 'every', 'range'])
    if share == 'all':
        chosen = list(range(n_lines))
    elif share == 'some':
        chosen = [i for i in range(n_lines) if rng.random() < 0.7]
    elif share == 'few':
        chosen = sorted(rng.sample(range(n_lines), min(n_lines, rng.randint(1, minimum))))
    elif share == 'every':
        k = rng.choice([2, 3, 5])
        chosen = list(range(rng.randrange(k), n_lines, k))
    else:
        a, b = sorted([rng.randint(0, n_lines), rng.randint(0, n_lines)])
        chosen = list(range(a, b))
    # a number that starts an unnumbered line is a decoy with its own rules
    chosen = sorted(set(chosen) | {i for i in range(n_lines) if not plain_start(lines[i])})
    # -- the numbering: runs of numbers, separated by jumps that are too large
    number = rng.choice([1, 1, 2, 17, 100, 345, rng.randint(1, 900)])
    first = number
    runs = [[]]
    jumps = rng.random() < 0.25
    for k, i in enumerate(chosen):
        if k:
            if jumps and rng.random() < 0.2:
                number += gap + 2 + rng.choice([0, 0, 1, 7])
                runs.append([])
            else:
                number += rng.choice([1, 1, 1, 1 + gap, rng.randint(1, 1 + gap)])
        lines[i].number = number
        runs[-1].append(i)
    last = number
    accepted = {i for run in runs if len(run) >= minimum for i in run}
    # -- numbers at the start of other lines
    free = [i for i in range(n_lines) if lines[i].number is None]
    decoys = []
    if free and rng.random() < 0.5:
        for _ in range(rng.randint(1, min(3, len(free), max(1, minimum - 1)))):
            kind = rng.choice(['repeated', 'larger', 'smaller', 'zero'])
            i = rng.choice(free)
            if lines[i].decoy is not None:
                continue
            if kind == 'repeated':
                before = [lines[k].number for k in chosen if k < i]
                if not before:
                    continue
                value = rng.choice(before)
            elif kind == 'larger':
                # far behind the numbering: neither continues it nor another decoy
                value = last + (gap + 2) * (3 + len(decoys)) * 100 + rng.randint(0, 50)
                if any(abs(value - d) <= gap + 2 for d in decoys):
                    continue
                decoys.append(value)
                if minimum < 2:
                    continue
            elif kind == 'smaller':
                # above the numbering, and too far from it
                if minimum < 2 or first < gap + 3 or not chosen or i > chosen[0] or any(
                        lines[k].decoy for k in range(n_lines)):
                    continue
                value = rng.randint(1, first - gap - 2)
                decoys.append(value)
            else:
                value = 0
            lines[i].decoy = value
            ctx.event('decoys')
    # larger decoys may line up: never enough of them
    if len(decoys) >= minimum:
        return
    with_number = [i for i in range(n_lines) if lines[i].number is not None]
    enough = len(accepted) >= minimum and accepted and len(accepted) / n_lines >= ratio
    if not enough:
        accepted = set()
    # -- the document
    items, chars, paths, kinds, blocks = [], [], [], [], []
    pos = {}
    # numbers may be padded (001, 002, ...)
    width = rng.choice([0, 0, 0, 3, 5])
    for i, line in enumerate(lines):
        start = pos.get(id(line.block), 0)
        prefix = line.number if line.number is not None else line.decoy
        if prefix is not None:
            sep = rng.choice([' ', ' ', '  ', '\t'])
            number = '%0*d' % (width, prefix)
            items.append(((), 0, number + sep))
            for c in number:
                chars.append(c)
                kinds.append(i if i in accepted else -1)
                paths.append(None)
                blocks.append(None)
        items.append(((), 0, line.text))
        items.append(LB)
        items.append(((), 0, '\n'))
        for ci, c in enumerate(line.text):
            if c.isspace():
                continue
            path = line.block.path
            for s, e, sub in line.block.spans:
                if s <= start + ci < e:
                    path = sub
            chars.append(c)
            kinds.append(None)
            paths.append(path)
            blocks.append(id(line.block))
        if line.text:
            pos[id(line.block)] = start + len(line.text) + 1
        else:
            ctx.event('number-only-lines')
    chars = ''.join(chars)
    if name == 'segmentation' or rng.random() < 0.5:
        opts.append('--no-preserve-tags')
    xml = pipes.wrap_document(pipe, gen.render(items), rng)
    jats = doc.jats.xml()
    info = dict(pipe=name, opts=opts, doc=xml, jats=jats)
    result, outs = pipes.run_documents(ctx, pipe, {'doc': (xml, jats)}, opts + ['--use-line-number-annotator'])
    ctx.event('documents')
    if result.error is not None:
        ctx.violation('command-failed', error=repr(result.error), **info)
        return
    if not os.path.exists(outs['doc']):
        ctx.violation('output-missing', **info)
        return
    try:
        flat = tei.flatten_file(outs['doc'], pipe.container)
    except Exception as e:  # pylint: disable=broad-except
        ctx.violation('output-unreadable', error=repr(e), **info)
        return
    if flat.dense != chars:
        ctx.violation('text-changed', actual=flat.dense, **info)
        return
    output = pipes.read(outs['doc'])
    info['output'] = output
    if not accepted:
        ctx.event('rejected:' + name)
        result2, outs2 = pipes.run_documents(ctx, pipe, {'doc': (xml, jats)}, opts)
        ctx.require(result2.error is None, 'command-failed', error=repr(result2.error), **info)
        if result2.error is None and os.path.exists(outs2['doc']):
            ctx.require(pipes.read(outs2['doc']) == output, 'not-enough-but-different',
                        minimum=minimum, numbered=len(with_number), lines=n_lines, ratio=ratio,
                        without=pipes.read(outs2['doc']), **info)
        for i in range(len(chars)):
            if LINE_NO[name][0] in flat.paths[i]:
                ctx.violation('labelled-without-enough', text=flat.slice_text(i, i + 30), minimum=minimum,
                              numbered=len(with_number), lines=n_lines, ratio=ratio, gap=gap, **info)
                break
        ctx.distinct(name, chars)
        return
    ctx.event('numbered:' + name)
    ctx.event('line-numbers', len(accepted))
    line_no = LINE_NO[name]
    other = 0
    # a number that is not a line number is text in the middle of a value: how that value is
    # labelled is not decided here
    unsure = {
        id(line.block) for i, line in enumerate(lines)
        if line.decoy is not None or (line.number is not None and i not in accepted)
    }
    everything = name == 'segmentation' and bool(unsure)
    for i in range(len(chars)):
        actual = flat.paths[i]
        if kinds[i] is not None and kinds[i] >= 0:
            if name == 'segmentation':
                ok = everything or actual in (line_no, lines[kinds[i]].block.path)
            else:
                ok = actual == line_no
            if not ok:
                ctx.violation('line-number-missed', number=lines[kinds[i]].number, actual=actual, first=first,
                              gap=gap, minimum=minimum, **info)
                break
            continue
        if line_no[0] in actual:
            ctx.violation('text-labelled-line-number', text=flat.slice_text(i, i + 30), actual=actual, **info)
            break
        if kinds[i] is not None:
            continue
        other += 1
        if actual[:len(paths[i])] != paths[i]:
            if everything or blocks[i] in unsure:
                continue
            ctx.violation('value-not-labelled', text=flat.slice_text(max(0, i - 20), i + 40), expected=paths[i],
                          actual=actual, **info)
            break
    ctx.event('other-characters', other)
    ctx.event('assertions', len(chars))
    ctx.distinct(name, chars)
