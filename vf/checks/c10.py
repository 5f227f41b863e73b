"""C10 routing by the quality gate"""
import os

from vf import gen, pipes, work
from vf.gen import El

RULE = (
    'batches of header, segmentation and fulltext documents in which each gated field is found, found with wrong letters, '
    'found in two pieces, only partly in the text, absent from the text or absent from the target document, with random '
    'gate options; reference: the output without the gate, and a model of the routing; monitors: '
    'content of the output and the failed directory; non-trivial: documents of the batch are routed both ways'
)
PLAN = {'quick': 500, 'thorough': 15000}
REQUIRED_EVENTS = {'routed-to-output': 300, 'routed-to-failed': 150, 'routed-nowhere': 100,
                   'state:partial': 50, 'state:noise': 50, 'state:absent': 50, 'state:no-target': 50, 'state:split': 20, 'split-not-alphabetical': 5,
                   'failed-for-missing-target': 50}

FIELDS = {
    'header': ['title', 'abstract'],
    'segmentation': ['title', 'abstract'],
    'fulltext': ['appendix', 'reference_list_title', 'appendix_group_title'],
}
LONG = {'abstract', 'appendix'}


def remove_target(doc, field):
    j = doc.jats
    if field == 'title':
        j.article_meta[:] = [e for e in j.article_meta if e.tag != 'title-group']
    elif field == 'abstract':
        j.article_meta[:] = [e for e in j.article_meta if e.tag != 'abstract']
    elif field == 'reference_list_title':
        j.back[:] = [e for e in j.back if e.tag != 'ref-list']
    else:
        for e in j.back:
            if e.tag == 'app-group':
                e.children[:] = [c for c in e.children if c.tag != (
                    'app' if field == 'appendix' else 'title')]


def make_doc(ctx, rng, name, partial_ok):
    """-> doc, {field: state}"""
    while True:
        doc = work.TRUTH[name](rng)
        blocks = {}
        for b in doc.blocks:
            if b.field in FIELDS[name]:
                blocks.setdefault(b.field, []).append(b)
        if any(len(v) > 1 for v in blocks.values()):
            continue
        if len(blocks) >= 1:
            break
    v = gen.Vocab(rng)
    v.used = {w[:5].lower() for b in doc.blocks for w in b.text.split()}
    states = {}
    for field in FIELDS[name]:
        if field not in blocks:
            states[field] = 'no-target'
            continue
        b = blocks[field][0]
        choices = ['found'] * 5 + ['absent', 'no-target']
        if field in LONG and len(b.text) > 90:
            choices += ['noise', 'noise']
            if partial_ok:
                choices += ['partial', 'partial']
            if field == 'abstract' and name == 'header' and len(b.lines) >= 5:
                choices += ['split', 'split', 'split', 'split']
        state = rng.choice(choices)
        if state == 'absent':
            b.lines = [v.phrase(len(line.split())) for line in b.lines]
        elif state == 'no-target':
            remove_target(doc, field)
        elif state == 'noise':
            words = b.text.split(' ')
            for i in rng.sample(range(len(words)), max(1, len(words) // 12)):
                if len(words[i]) > 4:
                    words[i] = words[i][:2] + 'x' + words[i][3:]
            b.lines = gen.wrap_lines(rng, ' '.join(words), 40, 90)
        elif state == 'partial':
            lines = [w for line in b.lines for w in line.split(' ')
                     if w not in ('Abstract', 'ABSTRACT', 'Summary')]
            b.lines = gen.wrap_lines(rng, ' '.join(lines[:int(len(lines) * 0.58)]), 40, 90)
        elif state == 'split':
            head = b.lines[:1] if b.lines[0] in ('Abstract', 'ABSTRACT', 'Summary') else []
            rest = b.lines[len(head):]
            # the order of the pieces is not the alphabetical one
            words = ' '.join(rest).split(' ')
            starts = [i for i in range(len(words) // 3, len(words) * 2 // 3 + 1) if words[i][:1] < words[0][:1]]
            at = rng.choice(starts) if starts and rng.random() < 0.9 else None
            if partial_ok or rng.random() < 0.5:
                k = rng.randint(2, len(rest) - 2)
                between = [v.phrase(rng.randint(1, 3))]
            else:
                # two pieces of about the same size, far from each other
                k = len(rest) // 2
                if at:
                    first = gen.wrap_lines(rng, ' '.join(words[:at]), 40, 90)
                    rest, k = first + gen.wrap_lines(rng, ' '.join(words[at:]), 40, 90), len(first)
                    ctx.event('split-not-alphabetical')
                between = [v.phrase(rng.randint(4, 8)) for _ in range(rng.randint(8, 20))]
            b.lines = head + rest[:k] + between + rest[k:]
        states[field] = state
        ctx.event('state:' + state)
    return doc, states


def expected_route(states, matching, required):
    for f in set(matching) | set(required):
        if states[f] == 'no-target':
            if f in required:
                return 'failed', 'missing-target'
        elif states[f] in ('absent', 'partial'):
            return 'failed', states[f]
    return 'output', None


def run_case(ctx):
    rng = ctx.rng
    name = ('header', 'segmentation', 'fulltext', 'header')[ctx.index % 4]
    pipe = pipes.PIPES[name]
    partial_ok = rng.random() < 0.35
    opts = []
    # short titles can be anywhere by chance with a low threshold
    fields = [f for f in FIELDS[name] if not partial_ok or name != 'fulltext' or f in LONG]
    if partial_ok:
        opts += ['--matcher-score-threshold', '0.5', '--fields', ','.join(fields)]
    if name == 'segmentation':
        opts.append('--no-preserve-tags')
    docs, states = {}, {}
    for i in range(rng.randint(2, 6)):
        doc, st = make_doc(ctx, rng, name, partial_ok)
        # the gate needs a target document with at least one value
        if not has_values(doc, name, partial_ok):
            continue
        key = 'doc%d' % i
        states[key] = st
        docs[key] = (pipes.wrap_document(pipe, gen.render(doc.items()), rng), doc.jats.xml())
    if not docs:
        return
    matching, required = [], []
    while not (matching or required):
        matching = rng.sample(fields, rng.randint(0, len(fields)))
        required = rng.sample(fields, rng.choice([0, 0, 1, len(fields)]))
    gate = []
    if matching:
        gate += ['--require-matching-fields', ','.join(matching)]
    if required:
        gate += ['--required-fields', ','.join(required)]
    free, free_outs = pipes.run_documents(ctx, pipe, docs, opts)
    if free.error is not None:
        ctx.violation('command-failed', pipe=name, opts=opts, error=repr(free.error))
        return
    failed = ctx.new_dir('failed') if rng.random() < 0.6 else None
    workers = ['--num-workers', str(rng.randint(1, 4))]
    result, outs = pipes.run_documents(
        ctx, pipe, docs, opts + gate + workers + (['--failed-output-path', failed] if failed else []))
    if result.error is not None:
        ctx.violation('gated-run-failed', pipe=name, opts=opts + gate, error=repr(result.error), states=states)
        return
    routes = set()
    for key in docs:
        route, why = expected_route(states[key], matching, required)
        routes.add(route)
        actual_out = os.path.exists(outs[key])
        failed_path = os.path.join(failed, key + pipe.suffix) if failed else None
        actual_failed = failed is not None and os.path.exists(failed_path)
        if why == 'missing-target':
            ctx.event('failed-for-missing-target')
        detail = dict(pipe=name, opts=opts + gate, states=states[key], why=why, doc=docs[key][0], jats=docs[key][1],
                      output=pipes.read(free_outs[key]))
        ctx.require(actual_out == (route == 'output'), 'wrong-route',
                    expected=route, actual_out=actual_out, actual_failed=actual_failed, **detail)
        ctx.require(actual_failed == (route == 'failed' and failed is not None), 'wrong-failed-route',
                    expected=route, actual_out=actual_out, actual_failed=actual_failed, **detail)
        ctx.event('routed-to-output' if actual_out else ('routed-to-failed' if actual_failed else 'routed-nowhere'))
        for path in ([outs[key]] if actual_out else []) + ([failed_path] if actual_failed else []):
            ctx.require(pipes.read(path) == pipes.read(free_outs[key]), 'gate-changes-the-document', actual=pipes.read(path), **detail)
    expected_files = {k + pipe.suffix for k in docs}
    for d in [result.out] + ([failed] if failed else []):
        ctx.require(set(os.listdir(d)) <= expected_files, 'unexpected-files', files=os.listdir(d))
    if len(routes) == 2:
        ctx.distinct(name, gate, docs)


def has_values(doc, name, restricted):
    j = doc.jats
    tags = {e.tag for e in j.article_meta}
    if name == 'fulltext':
        kinds = {c.tag for e in j.back if e.tag == 'app-group' for c in e.children}
        if restricted:
            return 'app' in kinds
        return bool(kinds) or bool(j.body)
    return bool(tags & {'title-group', 'abstract'})
