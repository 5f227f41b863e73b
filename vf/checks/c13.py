"""C13 segmentation into regions"""
import os
import re
from collections import Counter

from vf import gen, judge, pipes, tei, truth
from vf.gen import LB

RULE = (
    'segmentation documents with known values per line: any subset of the regions, unknown lines inside, between, '
    'before and after them, running heads (also equal to a value, single words, digits, too late, too rare), page '
    'numbers with and without existing label, existing labels kept or not, own segmentation configurations '
    '(limits, assignment of fields to regions) and unmerged references; oracle: line level model of the documented rules; '
    'non-trivial: at least two regions in the output'
)
PLAN = {'quick': 1300, 'thorough': 26000}
REQUIRED_EVENTS = {
    'lines': 20000, 'region:front': 1000, 'region:body': 1000, 'region:listBibl': 1000, 'region:annex': 300,
    'region:acknowledgment': 300, 'region:page': 300, 'region:headnote': 500, 'joined': 500, 'preserve': 300,
    'own-config': 300, 'found-pages': 100, 'page-decoys': 50, 'front-too-late': 50, 'head-too-late': 30, 'unmerged': 100,
    'default-limit': 20, 'page-twice': 5
}
PATH = {
    'front': truth.SEG_FRONT, 'body': truth.SEG_BODY, 'acknowledgment': truth.SEG_ACK, 'annex': truth.SEG_ANNEX,
    'reference': truth.SEG_REFS, 'page': truth.SEG_PAGE, 'headnote': truth.SEG_HEADNOTE
}
NAME = {v: k for k, v in PATH.items()}
REGION = {}
DEFAULT = {
    'front': 'title abstract keywords_title keywords manuscript_type author author_aff author_notes',
    'body': 'body_section_title body_section_paragraph body_figure body_table figure table',
    'acknowledgment': 'acknowledgment_section_title acknowledgment_section_paragraph',
    'annex': 'appendix_group_title appendix back_section_title back_section_paragraph back_figure back_table',
    'page': 'page_no', 'line_no': 'line_no', 'reference': 'reference_list_title reference', 'listBibl': 'listBibl',
}


class Line:
    def __init__(self, text, field, block=None):
        self.text = text
        self.field = field
        self.block = block
        self.existing = None
        self.region = None
        self.kept = True     # the existing label, if nothing else decides


def document_lines(rng):
    doc = truth.segmentation_doc(rng, headnotes=False)
    lines = []
    for b in doc.blocks:
        field = b.field
        if field is not None and field.startswith('unknown'):
            field = None
        lines += [Line(text, field, b) for text in b.lines]
    v = gen.Vocab(rng)
    v.used = {w[:5].lower() for line in lines for w in line.text.split()}
    return doc, lines, v


def borders(lines):
    """positions where a line can be inserted without splitting a value"""
    return [0] + [
        i for i in range(1, len(lines))
        if lines[i].block is not lines[i - 1].block or lines[i].field is None] + [len(lines)]


def insert(rng, lines, texts, first=0):
    spots = [i for i in borders(lines) if i >= first]
    chosen = sorted((rng.choice(spots) for _ in texts), reverse=True)
    for at, text in zip(chosen, reversed(texts)):
        lines.insert(at, Line(text, None, object()))


def model(ctx, lines, region_of, front_limit, head_limit, preserve, merge_references):
    for line in lines:
        line.region = region_of.get(line.field) if line.field else None
    # blocks of front that start too late
    if front_limit:
        start = 0
        given = [line.region for line in lines]
        for i, line in enumerate(lines):
            if i and given[i] != given[i - 1]:
                start = i
            if given[i] == 'front' and start > front_limit:
                line.region = None
                line.kept = False
                ctx.event('front-too-late')
    # page numbers
    if preserve:
        for line in lines:
            if line.region is None and line.kept and line.existing == 'page':
                line.region = 'page'
    low, low_line = 1, 0
    for at, number in [(i, int(line.text)) for i, line in enumerate(lines) if line.region == 'page']:
        for i in range(low_line, at):
            line = lines[i]
            if line.region is None and re.match(r'^\d+$', line.text) and low <= int(line.text) < number:
                line.region = 'page'
                low += 1
                ctx.event('found-pages')
        low, low_line = number, at
    # running heads
    counts = Counter(line.text for line in lines if line.region is None)
    needed = 2
    heads = set()
    for text, count in sorted(counts.items(), key=lambda kv: -kv[1]):
        if count < needed or re.match(r'^[\d\s.]+$', text) or len(text.split()) < 2:
            continue
        if min(i for i, line in enumerate(lines) if line.text == text) >= head_limit:
            ctx.event('head-too-late')
            continue
        if not heads:
            needed = max(2, count - 1)
        heads.add(text)
    for line in lines:
        if line.region is None and line.text in heads:
            line.region = 'headnote'
    # lines between lines of the same region
    merged = {'front', 'annex'} | ({'reference'} if merge_references else set())
    content = [line for line in lines if line.region not in ('page', 'headnote')]
    before, last = [], 'front'
    for line in content:
        before.append(last)
        last = line.region or last
    after, following = [], None
    for line in reversed(content):
        after.append(following)
        following = line.region or following
    after.reverse()
    joined = []
    for line, a, b in zip(content, before, after):
        if line.region is None and ((a == b and a in merged) or (b is None and a == 'annex')):
            joined.append((line, a))
    for line, region in joined:
        line.region = region
        ctx.event('joined')
    for line in lines:
        if line.region is None:
            # what is left keeps its label; text without any is body
            line.region = (line.existing if preserve and line.kept else None) or 'body'


def run_case(ctx):
    rng = ctx.rng
    pipe = pipes.PIPES['segmentation']
    doc, lines, v = document_lines(rng)
    if len(lines) < 2:
        return
    opts = []
    preserve = rng.random() < 0.45
    if preserve:
        ctx.event('preserve')
    else:
        opts.append('--no-preserve-tags')
    # -- page furniture
    n_regions = rng.randint(0, 2)
    for _ in range(n_regions):
        kind = rng.choice(['normal', 'normal', 'normal', 'word', 'digits', 'late', 'title'])
        count = rng.choice([1, 2, 3, 4, 5])
        if kind == 'word':
            insert(rng, lines, [v.word(8, 10)] * count)
        elif kind == 'digits':
            insert(rng, lines, ['%s. %s' % (v.number(3), v.number(2))] * count)
        elif kind == 'late':
            insert(rng, lines, [v.phrase(3)] * count, first=len(lines) * 2 // 3)
        elif kind == 'title':
            at = [i for i, line in enumerate(lines) if line.field in ('title', 'body_section_title')]
            single = [i for i in at if len(lines[i].block.lines) == 1 and len(lines[i].text.split()) > 1
                      and len(lines[i].text) > 20]
            if single:
                i = rng.choice(single)
                insert(rng, lines, [lines[i].text] * count, first=i + 1)
        else:
            insert(rng, lines, [v.phrase(rng.randint(2, 5))] * count)
    # -- existing labels
    style = rng.choice(['none', 'none', 'body', 'right', 'random'])
    labels = {}
    for line in lines:
        key = id(line.block)
        if key not in labels:
            labels[key] = {
                'none': None, 'body': 'body',
                'right': NAME.get(tuple(line.block.path)) if isinstance(line.block, truth.Block) else None,
                'random': rng.choice([None, 'front', 'body', 'annex', 'reference', 'headnote', 'acknowledgment'])
            }[style]
        line.existing = labels[key]
    # -- page numbers
    if rng.random() < 0.5:
        number = rng.choice([1, 2, 15, 345])
        spots = borders(lines)
        count = rng.randint(1, min(6, len(spots)))
        chosen = sorted(rng.sample(spots, count))
        share = rng.choice([0.3, 0.6, 1.0])
        pages = []
        for at in chosen:
            page = Line(str(number), None, object())
            page.existing = 'page' if rng.random() < share else rng.choice([None, labels and line.existing])
            pages.append((at, page))
            number += 1
        if rng.random() < 0.3:
            # a number that is not a page number: too large for its place
            at = rng.choice(spots)
            pages.append((at, Line(str(number + 3000), None, object())))
            pages.sort(key=lambda p: p[0])
        for at, page in reversed(pages):
            lines.insert(at, page)
        labelled = [i for i, line in enumerate(lines) if line.existing == 'page']
        if labelled and preserve and rng.random() < 0.5:
            # numbers that do not continue the numbering: lower than the page before, or the one of the page after
            which = rng.randrange(len(labelled))
            first, last = labelled[which], (labelled + [len(lines)])[which + 1]
            decoys = [n for n in (int(lines[first].text) - 1, 1) if 0 < n < int(lines[first].text)]
            if last < len(lines):
                decoys.append(int(lines[last].text))
            between = [i for i in borders(lines) if first < i <= last]
            if decoys and between:
                lines.insert(rng.choice(between), Line(str(rng.choice(decoys)), None, object()))
                ctx.event('page-decoys')
            if int(lines[labelled[0]].text) > 2 and rng.random() < 0.3:
                # the first page twice
                for at in sorted((rng.choice([i for i in borders(lines) if i <= labelled[0]]) for _ in range(2)), reverse=True):
                    lines.insert(at, Line('1', None, object()))
                ctx.event('page-twice')
    # -- configuration
    front_limit, head_limit = 0, 50
    mapping = {k: set(x.split()) for k, x in DEFAULT.items()}
    own = rng.random() < 0.5
    if rng.random() < 0.05:
        # running heads that start next to the default limit
        own = False
        first = rng.choice([49, 50, 51])
        at = rng.choice([i for i in borders(lines) if i <= first])
        lines[at:at] = [Line(judge.foreign(v.phrase(rng.randint(2, 5)).lower()), None, object()) for _ in range(first - at)]
        lines[first:first] = [Line(v.phrase(3), None, object())]
        insert(rng, lines, [lines[first].text] * rng.randint(1, 3), first=first + 1)
        ctx.event('default-limit')
    if own:
        ctx.event('own-config')
        front_limit = rng.choice([0, 1, 3, 8, 20])
        head_limit = rng.choice([1, 3, 10, 50, 200])
        if rng.random() < 0.4:
            field, target = rng.choice([
                ('acknowledgment', 'annex'), ('acknowledgment', 'body'), ('abstract', 'body'), ('appendix', 'body'),
                ('body_figure', 'annex')])
            for k in mapping:
                moved = {f for f in mapping[k] if f.startswith(field)}
                mapping[k] -= moved
                mapping[target] |= moved
        config = ''
        if rng.random() < 0.9:
            config += '[config]\nfront_max_start_line_index = %d\npage_header_max_first_line_index = %d\n\n' % (
                front_limit, head_limit)
        else:
            front_limit, head_limit = 0, 50
        config += '[tags]\n' + ''.join('%s = %s\n' % (k, ', '.join(sorted(x))) for k, x in mapping.items() if x)
        path = os.path.join(ctx.new_dir('config'), 'segmentation.conf')
        with open(path, 'w', encoding='utf-8') as f:
            f.write(config)
        opts += ['--segmentation-config', path]
    merge_references = rng.random() < 0.8
    if not merge_references:
        opts.append('--no-merge-references')
        ctx.event('unmerged')
    region_of = {f: region for region, fields in mapping.items() for f in fields}
    model(ctx, lines, region_of, front_limit, head_limit, preserve, merge_references)
    # -- the document
    items = []
    for i, line in enumerate(lines):
        path = PATH[line.existing] if line.existing else ()
        items += [(path, i, line.text), LB, ((), -1, '\n')]
    xml = pipes.wrap_document(pipe, gen.render(items), rng)
    jats = doc.jats.xml()
    info = dict(opts=opts, config=config if own else '', doc=xml, jats=jats)
    result, outs = pipes.run_documents(ctx, pipe, {'doc': (xml, jats)}, opts)
    ctx.event('documents')
    if result.error is not None:
        ctx.violation('command-failed', error=repr(result.error), **info)
        return
    if not os.path.exists(outs['doc']):
        ctx.violation('output-missing', **info)
        return
    try:
        flat = tei.flatten_file(outs['doc'], pipe.container)
    except Exception as e:  # pylint: disable=broad-except
        ctx.violation('output-unreadable', error=repr(e), **info)
        return
    info['output'] = pipes.read(outs['doc'])
    dense = ''.join(''.join(line.text.split()) for line in lines)
    if flat.dense != dense:
        ctx.violation('text-changed', **info)
        return
    pos = 0
    for i, line in enumerate(lines):
        size = len(''.join(line.text.split()))
        actual = set(flat.paths[pos:pos + size])
        pos += size
        expected = PATH[line.region] if line.region else ()
        ctx.event('lines')
        ctx.event('region:%s' % ('listBibl' if line.region == 'reference' else line.region))
        if actual != {expected}:
            ctx.violation(
                'wrong-region', line=line.text, line_index=i, field=line.field, existing=line.existing, expected=expected,
                actual=sorted(actual), front_limit=front_limit, head_limit=head_limit, **info)
            break
    if len({line.region for line in lines}) > 1:
        ctx.distinct(dense)
