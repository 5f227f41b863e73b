"""C23 how labels spread over the line and over untagged lines"""
import os
import re

from vf import gen, pipes, tei, truth
from vf.gen import El

RULE = (
    'header, fulltext and reference segmenter documents with values that start and end anywhere in a line, with unrelated '
    'text before, between and after them, several values per line, list items and figures with unrelated lines around; '
    'random spreading options; monitor: a model of the rule gives the label and the element of every word; '
    'non-trivial: a document in which at least one unlabelled part of a line is taken and one is not'
)
PLAN = {'quick': 4000, 'thorough': 40000}
REQUIRED_EVENTS = {'words': 20000, 'line-start-taken': 150, 'line-end-taken': 150, 'line-start-left': 150, 'line-end-left': 150,
                   'between-merged': 100, 'between-left': 100, 'list-text': 50, 'lines-before-taken': 50, 'lines-after-taken': 50,
                   'not-extended-by-option': 50, 'existing-label-kept': 100, 'existing-label-dropped': 100, 'elements-checked': 3000}

PATHS = {
    'header': {'title': ('docTitle', 'titlePart'), 'abstract': ('div[@type="abstract"]',), 'author_aff': ('byline', 'affiliation')},
    'fulltext': {'section_title': ('head',), 'section_paragraph': ('p',), 'list_item': ('list', 'item'), 'figure': ('figure',),
                 'table': ('figure[@type="table"]',), 'boxed_text_title': ('head[@type="box"]',), 'boxed_text_paragraph': ('p[@type="box"]',),
                 'reference_list_title': ('other[@type="ref-list-title"]',), 'appendix_group_title': ('head[@type="appendix-group"]',),
                 'appendix': ('figure[@xtype="appendix"]',)},
    'reference_segmenter': {'reference': ('listBibl', 'bibl')},
}
DEFAULT = {'header': truth.NOTE_OTHER, 'fulltext': ('other',), 'reference_segmenter': truth.NOTE_OTHER}
# fields whose entries on one line stay apart
SEPARATE = {'author_aff', 'reference'}
# fields that never take the rest of the line
EXACT = {'title'}


class Word:
    def __init__(self, text, field=None, first=False):
        self.text = text
        self.field = field
        self.begin = first
        self.tag = field
        # tokens: words and punctuation
        self.size = len(re.findall(r'\w+|[^\w\s]', text))


def make_values(rng, v, name):
    """-> [(field, text)] in reading order, and the target document"""
    j = gen.Jats()
    out = []
    if name == 'header':
        text = v.phrase(rng.randint(2, 9))
        out.append(('title', text))
        j.article_meta.append(El('title-group', El('article-title', text)))
        contrib = El('contrib-group')
        for _ in range(rng.randint(0, 4)):
            parts = truth.affiliation_parts(rng, v)
            out.append(('author_aff', ''.join(t for _, t in parts)))
            contrib.children.append(truth.aff_element(parts))
        j.article_meta.append(contrib)
        text = v.paragraph(rng.randint(1, 3))
        out.append(('abstract', text))
        j.article_meta.append(El('abstract', El('p', text)))
    elif name == 'reference_segmenter':
        refs = []
        for i in range(rng.randint(1, 4)):
            ref = truth.make_reference(rng, v, i)
            if ref.label:
                ref.label, ref.toks = None, ref.toks[2:]
            out.append(('reference', ref.text))
            refs.append(ref.element(i))
        j.back.append(El('ref-list', *refs))
    else:
        for _ in range(rng.randint(1, 3)):
            sec = El('sec')
            if rng.random() < 0.8:
                text = v.phrase(rng.randint(2, 6))
                out.append(('section_title', text))
                sec.children.append(El('title', text))
            for _ in range(rng.randint(0, 2)):
                text = v.paragraph(rng.randint(1, 3))
                out.append(('section_paragraph', text))
                sec.children.append(El('p', text))
            if rng.random() < 0.4:
                items = []
                for _ in range(rng.randint(1, 4)):
                    text = v.sentence(rng.randint(4, 12))
                    out.append(('list_item', text))
                    items.append(El('list-item', El('p', text)))
                sec.children.append(El('list', *items))
            for _ in range(rng.choice([0, 0, 1, 2])):
                tag = rng.choice(['fig', 'table-wrap'])
                text = v.sentence(rng.randint(4, 14))
                out.append(('figure' if tag == 'fig' else 'table', text))
                sec.children.append(El(tag, El('caption', El('p', text))))
            j.body.append(sec)
            if rng.random() < 0.3:
                title, text = v.phrase(rng.randint(3, 6)), v.paragraph(rng.randint(1, 2))
                out += [('boxed_text_title', title), ('boxed_text_paragraph', text)]
                j.body.append(El('boxed-text', El('caption', El('title', title)), El('p', text)))
        if rng.random() < 0.3:
            title = v.phrase(rng.randint(2, 5))
            out.append(('reference_list_title', title))
            j.back.append(El('ref-list', El('title', title)))
        if rng.random() < 0.3:
            title, text = v.phrase(rng.randint(3, 5)), v.paragraph(rng.randint(1, 2))
            out += [('appendix_group_title', title), ('appendix', text)]
            j.back.append(El('app-group', El('title', title), El('app', El('p', text))))
    return out, j


def make_lines(rng, v, values):
    """-> list of lines, each a list of words"""
    lines = [[]]

    def filler(n):
        lines[-1].extend(Word(w) for w in v.words(n))

    def newline():
        if lines[-1]:
            lines.append([])

    for _ in range(rng.choice([0, 0, 1, 2])):
        filler(rng.randint(2, 6))
        newline()
    for field, text in values:
        words = text.split(' ')
        start = rng.choice(['own', 'own', 'filler', 'filler', 'shared', 'shared'])
        if start != 'shared':
            newline()
        if start == 'filler' or start == 'shared' and rng.random() < 0.7:
            filler(rng.choice([1, 1, 2, 3, len(words) - 1, len(words), len(words) + 1]) or 1)
        width = rng.choice([4, 7, 10, 15, 99])
        count = 0
        for i, w in enumerate(words):
            if count >= width and rng.random() < 0.8:
                newline()
                count = 0
            lines[-1].append(Word(w, field, first=i == 0))
            count += 1
        last = len([w for w in lines[-1] if w.field == field])
        if rng.random() < 0.5:
            filler(rng.choice([1, 1, 2, 3, last - 1, last, last + 1]) or 1)
        if rng.random() < 0.6:
            newline()
            for _ in range(rng.choice([0, 0, 1, 2])):
                filler(rng.randint(1, 8))
                newline()
    return [line for line in lines if line]


def groups_of(words):
    out = []
    for w in words:
        if out and out[-1][0].field == w.field:
            out[-1].append(w)
        else:
            out.append([w])
    return out


def size(group):
    return sum(w.size for w in group)


def spread_over_line(ctx, line):
    """Model: what is unlabelled between two values of the same field belongs to
    both of them; at the start or end of a line it belongs to the value next to it if
    that has more words on the line."""
    groups = groups_of(line)
    for group in groups:
        if group[0].field and group[0].field not in SEPARATE:
            for w in group[1:]:
                w.begin = False
    taken = []
    for i, group in enumerate(groups):
        if group[0].field:
            continue
        prev = groups[i - 1] if i else None
        following = groups[i + 1] if i + 1 < len(groups) else None
        if prev and following:
            if prev[0].field == following[0].field and prev[0].field not in SEPARATE:
                taken.append((group, prev[0].field, False))
                following[0].begin = False
                ctx.event('between-merged')
            else:
                ctx.event('between-left')
        elif prev and prev[0].field not in EXACT:
            if size(prev) > size(group):
                taken.append((group, prev[0].field, False))
            ctx.event('line-end-taken' if size(prev) > size(group) else 'line-end-left')
        elif following and following[0].field not in EXACT:
            if size(following) > size(group):
                taken.append((group, following[0].field, True))
                following[0].begin = False
            ctx.event('line-start-taken' if size(following) > size(group) else 'line-start-left')
    for group, field, begin in taken:
        for i, w in enumerate(group):
            w.tag, w.begin = field, begin and i == 0
    return len(taken)


def spread(ctx, name, words, before, after):
    """Lists, and the options for figures and tables."""
    if name != 'fulltext':
        return
    # unlabelled text between two list items
    pending, in_list = [], False
    for w in words:
        if w.tag is None:
            pending.append(w)
            continue
        if w.tag == 'list_item' and in_list:
            for p in pending:
                p.tag = 'list'
            ctx.event('list-text', int(bool(pending)))
        in_list = w.tag == 'list_item'
        pending = []
    if before:
        pending = []
        for w in words:
            if w.tag is None:
                pending.append(w)
                continue
            if pending and w.tag in ('figure', 'table'):
                for p in pending:
                    p.tag, p.begin = w.tag, p is pending[0]
                w.begin = False
                ctx.event('lines-before-taken')
            pending = []
    if after:
        current = None
        for w in words:
            if w.tag is not None:
                current = w.tag if w.tag in ('figure', 'table') else None
            elif current:
                w.tag = current
                ctx.event('lines-after-taken')


def run_case(ctx):
    rng = ctx.rng
    name = ('fulltext', 'header', 'fulltext', 'reference_segmenter')[ctx.index % 4]
    pipe = pipes.PIPES[name]
    v = gen.Vocab(rng)
    values, jats = make_values(rng, v, name)
    lines = make_lines(rng, v, values)
    opts = ['--no-preserve-tags'] if rng.random() < 0.5 else []
    before = after = False
    extend = True
    if name == 'fulltext':
        extend = rng.random() < 0.75
        before, after = rng.random() < 0.35, rng.random() < 0.35
        opts += [] if extend else ['--no-extend-to-line']
        opts += ['--expand-to-previous-untagged-lines'] if before else []
        opts += ['--expand-to-following-untagged-lines'] if after else []
    taken = 0
    if extend:
        for line in lines:
            taken += spread_over_line(ctx, line)
    else:
        ctx.event('not-extended-by-option')
    marks = {}
    if name == 'fulltext' and rng.random() < 0.4:
        # lines that have a label already: one that is kept, and two that are not
        for i, line in enumerate(lines):
            if not any(w.field for w in line) and rng.random() < 0.5:
                marks[i] = rng.choice(['formula', 'formula', 'note[@type="other"]', 'p'])
                if marks[i] == 'formula' and '--no-preserve-tags' not in opts:
                    ctx.event('existing-label-kept')
                    for w in line:
                        w.tag = 'formula'
                else:
                    ctx.event('existing-label-dropped')
    words = [w for line in lines for w in line]
    spread(ctx, name, words, before, after)
    items = []
    for i, line in enumerate(lines):
        path = (marks[i],) if i in marks else ()
        items += [(path, i, ' '.join(w.text for w in line)), gen.LB, ((), 0, '\n')]
    xml = pipes.wrap_document(pipe, gen.render(items), rng)
    result, outs = pipes.run_documents(ctx, pipe, {'doc': (xml, jats.xml())}, opts)
    detail = dict(pipe=name, opts=opts, doc=xml, jats=jats.xml())
    if result.error is not None or not os.path.exists(outs['doc']):
        ctx.violation('command-failed', error=repr(result.error), **detail)
        return
    flat = tei.flatten_file(outs['doc'], pipe.container)
    detail['output'] = pipes.read(outs['doc'])
    if not ctx.require(flat.dense == ''.join(w.text for w in words), 'text-changed', actual=flat.dense, **detail):
        return
    paths = dict(PATHS[name], list=('list',), formula=('formula',))
    pos = 0
    previous = None
    seen = {}
    element = 0
    for w in words:
        ctx.event('words')
        expected = paths[w.tag] if w.tag else DEFAULT[name]
        chars = range(pos, pos + len(w.text))
        pos += len(w.text)
        wrong = [i for i in chars if flat.paths[i] != expected]
        if not ctx.require(not wrong, 'label-spread-differently', word=w.text, expected=expected,
                           actual=flat.paths[wrong[0]] if wrong else '',
                           text=flat.slice_text(max(0, pos - 40), pos + 30), **detail):
            return
        if w.tag in (None, 'list', 'formula'):
            previous = w
            continue
        # which element
        if previous is None or previous.tag != w.tag or w.begin:
            element += 1
        previous = w
        instance = flat.ids[chars[0]][:len(expected)]
        ctx.event('elements-checked')
        known = seen.setdefault(element, instance)
        ok = known == instance and len([e for e, i in seen.items() if i == instance]) == 1
        if not ctx.require(ok, 'entries-merged-or-split', word=w.text, text=flat.slice_text(max(0, pos - 40), pos + 30), **detail):
            return
    tags = {w.tag for w in words if w.field is None}
    if taken and None in tags:
        ctx.distinct(name, opts, flat.dense)
