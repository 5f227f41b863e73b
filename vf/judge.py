"""Runs documents with known labels and compares label by label."""
import os
import string

from vf import gen, pipes, tei, truth, work
from vf.gen import El

SEGMENT_OPTION = {
    'reference': '--segment-references', 'affiliation': '--segment-affiliation',
    'figure': '--segment-figures', 'table': '--segment-tables',
}
MAIN = {
    'reference': ('bibl',), 'affiliation': ('affiliation',), 'figure': ('figure',),
    'table': ('figure[@type="table"]',)
}
# fields whose value is one long text: approximate occurrences are accepted
LONG_FIELDS = {
    'title', 'abstract', 'section_paragraph', 'body_section_paragraph', 'section_title',
    'figure', 'table', 'body_figure', 'appendix', 'list_item', 'boxed_text_paragraph',
    'acknowledgment_section_paragraph'
}
CHUNK_FIELDS = {'abstract', 'section_paragraph', 'boxed_text_paragraph'}


class Case:
    def __init__(self, pipe, doc, opts, existing, variants):
        self.pipe = pipe
        self.doc = doc
        self.opts = opts
        self.existing = existing
        self.variants = variants


def make_case(rng, pipe_name, variants=None):
    pipe = pipes.PIPES[pipe_name]
    rich = {'rich': True} if pipe_name in ('header', 'affiliation') and rng.random() < 0.5 else {}
    doc = work.TRUTH[pipe_name](rng, **rich)
    opts, existing = [], None
    chosen = []

    def use(name, p):
        ok = (name in variants) if variants is not None else rng.random() < p
        if ok:
            chosen.append(name)
        return ok

    vocab = gen.Vocab(rng)
    vocab.used = {w[:5].lower() for b in doc.blocks for w in b.text.split()}
    if pipe_name in SEGMENT_OPTION:
        if use('existing-entries', 0.4):
            # the entries are already marked, only their parts are to be found
            existing = lambda block: MAIN[pipe_name] if block.field else truth.NOTE_OTHER  # noqa
            if pipe_name == 'affiliation' and use('closing-text', 0.4):
                for block in doc.blocks:
                    if block.field:
                        block.lines[-1] += rng.choice(['.', ';', ' ;', '. *'])
        else:
            opts.append(SEGMENT_OPTION[pipe_name])
            if rng.random() < 0.5:
                opts.append('--no-preserve-tags')
    elif pipe_name == 'segmentation':
        opts.append('--no-preserve-tags')
    elif rng.random() < 0.5:
        opts.append('--no-preserve-tags')
    if pipe_name in ('header', 'fulltext') and use('interrupted', 0.3):
        interrupt(rng, vocab, doc)
    if pipe_name == 'header' and use('stray-part', 0.25):
        add_stray_part(rng, vocab, doc)
    if use('filler', 0.15):
        add_filler(rng, vocab, doc)
    if use('absent-targets', 0.5):
        add_absent_targets(rng, vocab, doc)
    if use('typography', 0.4):
        change_typography(rng, doc)
    if use('noise', 0.3):
        add_noise(rng, doc)
    elif pipe_name != 'segmentation' and 'typography' not in chosen and use('threshold', 0.25):
        # (the target document has no commas between the keywords)
        threshold = '0.85' if any(b.field == 'keywords' for b in doc.blocks) else rng.choice(['0.85', '0.9'])
        opts += ['--matcher-score-threshold', threshold]
    return Case(pipe, doc, opts, existing, chosen)


def add_filler(rng, vocab, doc):
    """Many lines of unrelated text."""
    for _ in range(rng.choice([1, 2])):
        # (that much text would otherwise happen to have something similar to a short value)
        lines = [foreign(vocab.phrase(rng.randint(4, 9))) for _ in range(rng.choice([15, 40, 80]))]
        block = truth.Block(None, lines, doc.default_path)
        if doc.pipe_name == 'segmentation':
            # anywhere else it would become part of a region
            # and a running head has to start early
            first = min([i for i, b in enumerate(doc.blocks) if b.field == 'headnote'], default=0)
            positions = [i for i in range(first + 1, len(doc.blocks))
                         if doc.blocks[i].path == truth.SEG_BODY
                         and doc.blocks[i - 1].path == truth.SEG_BODY]
            if not positions:
                return
            at = rng.choice(positions)
        elif doc.pipe_name in ('fulltext', 'reference_segmenter'):
            at = rng.choice([0, len(doc.blocks)])
        else:
            at = rng.randint(0, len(doc.blocks))
        if any(b.unjudged for b in doc.blocks[max(0, at - 1):at + 1]):
            # next to a piece whose end is not exact
            continue
        doc.blocks.insert(at, block)


def add_stray_part(rng, vocab, doc):
    """The country of an affiliation is not where the affiliation is, but is named
    in unrelated text further down."""
    if not any(b.field == 'author_aff' for b in doc.blocks):
        return
    country = '%s %s' % (vocab.word(7, 9).capitalize(), vocab.word(7, 9).capitalize())
    parts = [('institution', vocab.phrase(rng.randint(4, 7))), (None, ', '), ('city', vocab.name())]
    text = ''.join(t for _, t in parts)
    gap = len(text) + rng.choice([rng.randint(14, 22), rng.randint(14, max(15, len(text)))])
    lines, length = [], 1
    while length < gap:
        word = foreign(vocab.word(5, 9))
        if not lines or len(lines[-1]) > 40:
            lines.append(word)
        else:
            lines[-1] += ' ' + word
        length += len(word) + 1
    # the words right before it may be part of the approximate match
    doc.add('author_aff', [text], truth.header_path('author_aff'), instance='stray')
    doc.add(None, lines)
    doc.add(None, [country]).unjudged = True
    doc.add(None, [vocab.phrase(5)])
    contrib = [e for e in doc.jats.article_meta if e.tag == 'contrib-group'][0]
    target = truth.Parts(parts + [('country', country)])
    # without the separators the parts are looked for one by one
    target.bare = True
    contrib.children.append(truth.aff_element(target))


def interrupt(rng, vocab, doc):
    """Unrelated lines (a page break with a table, say) in the middle of a value."""
    blocks = [b for b in doc.blocks if b.field in CHUNK_FIELDS and not b.spans and len(b.lines) >= 4 and len(b.text) > 150]
    if not blocks:
        return
    block = rng.choice(blocks)
    k = len(block.lines) // 2
    rest = truth.Block(block.field, block.lines[k:], block.path)
    block.lines = block.lines[:k]
    n = rng.randint(8, 20)
    between = [truth.Block(None, [vocab.phrase(rng.randint(4, 8)) for _ in range(count)], doc.default_path) for count in (1, n, 1)]
    # the search is approximate: where a piece ends is not exact
    between[0].unjudged = between[2].unjudged = True
    at = doc.blocks.index(block) + 1
    doc.blocks[at:at] = between + [rest]


def foreign(word):
    """A short value that is similar to nothing in the document."""
    return ''.join(chr(0x430 + ord(c) - ord('a')) if c.islower() else c for c in word)


def add_absent_targets(rng, v, doc):
    """Target values that do not occur in the document."""
    j = doc.jats
    for _ in range(rng.randint(1, 3)):
        kind = rng.choice(['title', 'abstract', 'author', 'aff', 'p', 'fig', 'table', 'ref', 'kwd'])
        if kind == 'title':
            if not any(e.tag == 'title-group' for e in j.article_meta):
                j.article_meta.insert(0, El('title-group', El('article-title', v.phrase(8))))
        elif kind == 'abstract':
            j.article_meta.append(El('abstract', El('p', v.paragraph(3))))
        elif kind == 'author':
            j.article_meta.append(El('contrib-group', El('contrib', El(
                'name', El('surname', foreign(v.name())), El('given-names', foreign(v.name()))), contrib_type='author')))
        elif kind == 'aff':
            j.article_meta.append(El('contrib-group', truth.aff_element(
                truth.affiliation_parts(rng, v))))
        elif kind == 'p':
            j.body.insert(rng.randint(0, len(j.body)), El('sec', El('title', v.phrase(3)), El('p', v.paragraph(3))))
        elif kind == 'fig':
            j.body.append(El('fig', El('caption', El('p', v.paragraph(1)))))
        elif kind == 'table':
            j.body.append(El('table-wrap', El('caption', El('p', v.paragraph(1)))))
        elif kind == 'ref':
            for e in j.back:
                if e.tag == 'ref-list':
                    ref = truth.make_reference(rng, v, 77)
                    ref.label = None
                    e.children.insert(rng.randint(0, len(e.children)), ref.element(77))
        elif kind == 'kwd':
            if not any(e.tag == 'kwd-group' for e in j.article_meta):
                j.article_meta.append(El('kwd-group', El('kwd', foreign(v.phrase(2))), El('kwd', foreign(v.phrase(2)))))


def change_typography(rng, doc):
    """Changes that the comparison is meant to ignore."""
    for block in doc.blocks:
        if block.field in (None, 'headnote', 'page') or block.field.startswith('unknown') or rng.random() < 0.5:
            continue
        kind = rng.choice(['upper', 'lower', 'dash', 'thin-space'])
        if kind == 'upper' and not block.spans and block.field not in ('reference', 'author_aff', 'author'):
            block.lines = [line.upper() for line in block.lines]
        elif kind == 'lower' and not block.spans:
            block.lines = [
                line if line in ('Abstract', 'ABSTRACT', 'Summary') else line.lower()
                for line in block.lines]
        elif kind == 'dash':
            block.lines = [line.replace('-', rng.choice('\u2013\u2014')) for line in block.lines]
        elif kind == 'thin-space' and not block.spans and block.field in LONG_FIELDS:
            block.lines = [line.replace(' ', '\u2009') if rng.random() < 0.3 else line for line in block.lines]


def add_noise(rng, doc):
    """Up to one letter in 20 of the inner words of long values is wrong."""
    for block in doc.blocks:
        if block.field in ('headnote', 'page') or block.field not in LONG_FIELDS or len(block.text) < 80 or rng.random() < 0.4:
            continue
        text = block.text
        covered = [(s, e) for s, e, _ in block.spans]
        budget = max(1, len(text) // 25)
        words = []
        pos = 0
        for w in text.split(' '):
            words.append((pos, pos + len(w)))
            pos += len(w) + 1
        inner = [
            (s, e) for s, e in words[3:-3]
            if not any(cs - 12 < e and s < ce + 12 for cs, ce in covered)
        ]
        chars = list(text)
        for s, e in rng.sample(inner, min(budget, len(inner))):
            if e - s > 3:
                i = rng.randrange(s + 1, e - 1)
                if chars[i] in string.ascii_lowercase:
                    chars[i] = rng.choice('xqy')
        noisy = ''.join(chars)
        lines, pos = [], 0
        for line in block.lines:
            lines.append(noisy[pos:pos + len(line)])
            pos += len(line) + 1
        block.lines = lines


def run(ctx, case):
    """-> (flat or None, expected characters, paths, owners)"""
    rng = ctx.rng
    doc, pipe = case.doc, case.pipe
    xml = pipes.wrap_document(pipe, gen.render(doc.items(existing=case.existing)), rng)
    jats = doc.jats.xml()
    case.xml, case.jats = xml, jats
    result, outs = pipes.run_documents(ctx, pipe, {'doc': (xml, jats)}, case.opts)
    for name in case.variants:
        ctx.event('variant:' + name)
    chars, paths, owner = doc.expected()
    if result.error is not None:
        ctx.violation('command-failed', pipe=pipe.name, opts=case.opts, error=repr(result.error), doc=xml, jats=jats)
        return None, chars, paths, owner
    if not os.path.exists(outs['doc']):
        ctx.violation('output-missing', pipe=pipe.name, opts=case.opts, doc=xml, jats=jats)
        return None, chars, paths, owner
    try:
        flat = tei.flatten_file(outs['doc'], pipe.container)
    except Exception as e:  # pylint: disable=broad-except
        ctx.violation('output-unreadable', pipe=pipe.name, error=repr(e), doc=xml)
        return None, chars, paths, owner
    if flat.dense != chars:
        ctx.violation('text-changed', pipe=pipe.name, opts=case.opts, expected=chars, actual=flat.dense)
        return None, chars, paths, owner
    case.output = pipes.read(outs['doc'])
    return flat, chars, paths, owner
