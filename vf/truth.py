"""Documents whose correct annotation is known by construction.

Every block of text is made of words that occur nowhere else in the document, the
target document contains the value of the block, hence the label every character
has to get is known without looking at the implementation."""
from vf import gen
from vf.gen import LB, El, Jats


class Block:
    """Consecutive whole lines. spans: list of (start, end, path) in terms of the
    characters of ' '.join(lines) that carry a sub label."""

    def __init__(self, field, lines, path, instance=None, spans=(), joined=False):
        self.field = field
        # starts on the line the block before ends on
        self.joined = joined
        # field of the block it may share a line with
        self.joins = field
        self.unjudged = False
        self.lines = lines
        self.path = path
        self.instance = instance
        self.spans = list(spans)

    @property
    def text(self):
        return ' '.join(self.lines)


class Doc:
    def __init__(self, pipe_name, default_path):
        self.pipe_name = pipe_name
        self.default_path = default_path
        self.blocks = []
        self.jats = Jats()

    def add(self, field, lines, path=None, **kwargs):
        block = Block(field, lines, self.default_path if path is None else path, **kwargs)
        self.blocks.append(block)
        return block

    def expected(self):
        """-> (dense characters, path per character, block index per character)"""
        chars, paths, owner = [], [], []
        for bi, block in enumerate(self.blocks):
            for ci, c in enumerate(block.text):
                if c.isspace():
                    continue
                path = block.path
                for start, end, sub in block.spans:
                    if start <= ci < end:
                        path = sub
                chars.append(c)
                paths.append(path)
                owner.append(bi)
        return ''.join(chars), paths, owner

    def items(self, existing=None):
        """existing: function block -> path of existing markup (or ())"""
        out = []
        for bi, block in enumerate(self.blocks):
            path = existing(block) if existing else ()
            for li, line in enumerate(block.lines):
                out.append((path, bi, line))
                last = li == len(block.lines) - 1
                if last and bi + 1 < len(self.blocks) and self.blocks[bi + 1].joined \
                        and self.blocks[bi + 1].field in (block.field, block.joins):
                    out.append(((), -1, ' '))
                    continue
                out.append(LB)
                out.append((() if last else path, -1 if last and not path else bi, '\n'))
        return out


def spans_of(text, parts):
    """parts: list of (value, path) occurring in this order in text"""
    out = []
    pos = 0
    for value, path in parts:
        i = text.index(value, pos)
        out.append((i, i + len(value), path))
        pos = i + len(value)
    return out


def join_parts(parts):
    """parts: strings or (string, kind, attrs...) -> text"""
    return ''.join(p if isinstance(p, str) else p[0] for p in parts)


# ---------------------------------------------------------------- header

HEADER_PATHS = {
    'title': ('docTitle', 'titlePart'),
    'abstract': ('div[@type="abstract"]',),
    'author': ('byline', 'docAuthor'),
    'author_aff': ('byline', 'affiliation'),
    'line_no': ('note[@type="line_no"]',),
}
NOTE_OTHER = ('note[@type="other"]',)


def header_path(field):
    return HEADER_PATHS.get(field) or ('note[@type="%s"]' % field,)


def other_lines(rng, v, n=None):
    return [v.phrase(rng.randint(2, 7)) for _ in range(n or rng.randint(1, 3))]


def aff_label(rng, i, rich=False):
    if rng.random() < 0.5:
        return None
    if not rich:
        return str(i + 1)
    return rng.choice([
        '%d' % (i + 1), '%d' % (i + 1), '(%d)' % (i + 1), '[%d]' % (i + 1), 'abcdef'[i], '*' * (i + 1), '+' * (i + 1),
        '\u2020' * (i + 1), '%d*' % (i + 1)
    ])


class Parts(list):
    # the target document has the parts without separators
    bare = False


def number_before(rng, v, doc, label):
    """Unrelated text that ends with a number with the last digit of the label of the affiliation that follows"""
    if not label or not label.isdigit() or rng.random() < 0.5:
        return False
    doc.add(None, ['%s %d%s' % (v.phrase(rng.randint(1, 4)), rng.randint(1, 999), label)])
    return True


def affiliation_parts(rng, v, label=None, rich=False):
    """-> list of (kind, text) in order with separators"""
    parts = Parts()
    if label:
        # the separator is in the document only
        parts += [('label', label), (None, rng.choice([' ', ' ', '. ', ' - ', '.']) if rich else ' ')]
    if rng.random() < 0.5:
        parts += [('department', 'Department of ' + v.phrase(2)), (None, ', ')]
    parts += [('institution', v.phrase(rng.randint(2, 4)))]
    if rng.random() < 0.8:
        parts += [(None, ', '), ('city', v.name())]
    if rng.random() < 0.4:
        parts += [(None, ', '), ('postcode', v.number(5))]
    if rng.random() < 0.4:
        parts += [(None, ', '), ('state', v.name())]
    if rng.random() < 0.9:
        parts += [(None, ', '), ('country', v.name())]
    if rich and rng.random() < 0.25:
        # in another order (the city before the institution, say)
        named = [p for p in parts if p[0] not in (None, 'label')]
        rng.shuffle(named)
        start = 2 if label else 0
        parts[start:] = [x for p in named for x in (p, (None, ', '))][:-1]
    parts.bare = rich and rng.random() < 0.4
    if parts.bare and parts[-1][0] == 'country' and rng.random() < 0.4:
        # the one configured alternative spelling; not known to the parts
        parts[-1] = ('alternative', 'USA')
    # (with a country that an earlier affiliation has, too, the first occurrence of the city ends the value)
    if rich and rng.random() < 0.4 and parts[-1][0] != 'alternative':
        repeat_part(rng, parts)
    return parts


def repeat_part(rng, parts):
    """The name of the city (or state) is part of the name of the institution or
    department, too: "University of Xyz, Xyz, Country"."""
    kinds = [kind for kind, _ in parts]
    for small in ('city', 'state'):
        # the last part delimits the entry
        if small not in kinds or kinds[-1] == small:
            continue
        name = parts[kinds.index(small)][1]
        big = rng.choice([k for k in ('department', 'institution') if k in kinds])
        i = kinds.index(big)
        parts[i] = (big, rng.choice(['%s of %s', '%s %s']) % (parts[i][1], name))
        return


def aff_element(parts):
    a = El('aff')
    for k, (kind, text) in enumerate(parts):
        if kind is None and getattr(parts, 'bare', False):
            pass
        elif kind is None and k and parts[k - 1][0] == 'label':
            a.children.append(' ')
        elif kind is None:
            a.children.append(text)
        elif kind == 'label':
            a.children.append(El('label', text))
        elif kind == 'institution':
            a.children.append(El('institution', text))
        elif kind == 'alternative':
            a.children.append(El('country', 'United States'))
        elif kind == 'country':
            a.children.append(El('country', text))
        else:
            a.children.append(El('addr-line', El('named-content', text, content_type=kind)))
    return a


def header_doc(rng, fields=None, rich=False):
    v = gen.Vocab(rng)
    doc = Doc('header', NOTE_OTHER)
    meta = doc.jats.article_meta

    def has(field, p):
        return (fields is None or field in fields) and rng.random() < p

    if rng.random() < 0.5:
        doc.add(None, other_lines(rng, v))
    if has('title', 0.9):
        text = v.phrase(rng.randint(3, 14))
        doc.add('title', gen.wrap_lines(rng, text), header_path('title'))
        meta.append(El('title-group', El('article-title', text)))
    if rng.random() < 0.3:
        doc.add(None, other_lines(rng, v))
    contrib = El('contrib-group')
    if has('author', 0.8):
        names = []
        for _ in range(rng.randint(1, 5)):
            given, surname = v.name(), v.name()
            names.append('%s %s' % (given, surname))
            contrib.children.append(El('contrib', El(
                'name', El('surname', surname), El('given-names', given)), contrib_type='author'))
        # line breaks between authors only
        lines, cur = [], []
        for i, n in enumerate(names):
            cur.append(n + (',' if i < len(names) - 1 else ''))
            if rng.random() < 0.4:
                lines.append(' '.join(cur))
                cur = []
        if cur:
            lines.append(' '.join(cur))
        doc.add('author', lines, header_path('author'))
    if has('author_aff', 0.8):
        n = rng.randint(1, 4)
        for i in range(n):
            label = aff_label(rng, i, rich)
            parts = affiliation_parts(rng, v, label=label, rich=rich)
            text = ''.join(t for _, t in parts)
            apart = rich and number_before(rng, v, doc, label)
            doc.add('author_aff', gen.wrap_lines(rng, text, 40, 90), header_path('author_aff'),
                    instance='aff%d' % i, joined=rich and not apart and i and rng.random() < 0.3)
            contrib.children.append(aff_element(parts))
    if contrib.children:
        meta.append(contrib)
    if rng.random() < 0.3:
        doc.add(None, other_lines(rng, v))
    if has('abstract', 0.8):
        text = v.paragraph(rng.randint(1, 5))
        lines = gen.wrap_lines(rng, text, 40, 90)
        if rng.random() < 0.6:
            lines = [rng.choice(['Abstract', 'ABSTRACT', 'Summary'])] + lines
        doc.add('abstract', lines, header_path('abstract'))
        abstract = El('abstract', El('p', text))
        meta.append(abstract)
    if has('keywords', 0.5):
        kwds = [v.phrase(rng.randint(1, 2), cap=False) for _ in range(rng.randint(2, 5))]
        doc.add('keywords', gen.wrap_lines(rng, ', '.join(kwds), 60, 90), header_path('keywords'))
        meta.append(El('kwd-group', *[El('kwd', k) for k in kwds]))
    if rng.random() < 0.6:
        doc.add(None, other_lines(rng, v))
    return doc


# ---------------------------------------------------------------- fulltext

XREF = {
    'bibr': 'biblio', 'fig': 'figure', 'table': 'table',
    'disp-formula': 'formula', 'sec': 'section', 'boxed-text': 'box'
}


def paragraph_with_xrefs(rng, v, n_sentences):
    """-> (text, [children], [(value, ref type)])"""
    children, refs = [], []
    for i in range(n_sentences):
        if i:
            children.append(' ')
        children.append(v.sentence(rng.randint(5, 10))[:-1])
        if rng.random() < 0.5:
            kind = rng.choice(sorted(XREF))
            value = {
                'bibr': lambda: '%s et al., %s' % (v.name(), v.number(4)),
                'fig': lambda: 'Figure %s' % v.number(3),
                'table': lambda: 'Table %s' % v.number(3),
                'disp-formula': lambda: 'Equation %s' % v.number(3),
                'sec': lambda: 'Section %s' % v.number(3),
                'boxed-text': lambda: 'Box %s' % v.number(3),
            }[kind]()
            children += [' (', El('xref', value, ref_type=kind), ')']
            refs.append((value, XREF[kind]))
        children.append('.')
    text = ''.join(c if isinstance(c, str) else c.text() for c in children)
    return text, children, refs


def add_paragraph(doc, rng, v, field, base):
    text, children, refs = paragraph_with_xrefs(rng, v, rng.randint(1, 4))
    lines = gen.wrap_lines(rng, text, 50, 100)
    doc.add(field, lines, base, spans=spans_of(text, [
        (value, base + ('ref[@type="%s"]' % kind,)) for value, kind in refs
    ]))
    return El('p', *children)


def caption_block(doc, rng, v, field, tag, base, number, subs=None):
    label = '%s %d.' % ('Figure' if tag == 'fig' else 'Table', number)
    caption = v.paragraph(rng.randint(1, 3))
    text = label + ' ' + caption
    lines = gen.wrap_lines(rng, text, 50, 100)
    spans = spans_of(text, [(label, subs[0]), (caption, subs[1])]) if subs else ()
    doc.add(field, lines, base, spans=spans)
    return El(tag, El('label', label), El('caption', El('p', caption)), id='%s%d' % (tag, number))


def fulltext_doc(rng, fields=None):
    v = gen.Vocab(rng)
    doc = Doc('fulltext', ('other',))
    j = doc.jats

    def has(field, p):
        return (fields is None or field in fields) and rng.random() < p

    if rng.random() < 0.5:
        doc.add(None, other_lines(rng, v))
    fig_no = {'fig': 0, 'table-wrap': 0}
    for s in range(rng.randint(1, 4)):
        sec = El('sec')
        title = v.phrase(rng.randint(2, 6))
        if rng.random() < 0.4:
            label = '%d.' % (s + 1)
            sec.children.append(El('label', label))
            doc.add('section_title', [label + ' ' + title], ('head',))
        else:
            doc.add('section_title', [title], ('head',))
        sec.children.append(El('title', title))
        for _ in range(rng.randint(0, 3)):
            sec.children.append(add_paragraph(doc, rng, v, 'section_paragraph', ('p',)))
            if rng.random() < 0.2:
                doc.add(None, other_lines(rng, v))
            if rng.random() < 0.25:
                tag = rng.choice(['fig', 'table-wrap'])
                fig_no[tag] += 1
                sec.children.append(caption_block(
                    doc, rng, v, 'figure' if tag == 'fig' else 'table', tag,
                    ('figure',) if tag == 'fig' else ('figure[@type="table"]',), fig_no[tag]))
        j.body.append(sec)
        if rng.random() < 0.15:
            title = v.phrase(3)
            label = 'Box %d' % (s + 1)
            doc.add('boxed_text_title', [label + ' ' + title], ('head[@type="box"]',))
            box = El('boxed-text', El('label', label), El('caption', El('title', title)))
            box.children.append(add_paragraph(doc, rng, v, 'boxed_text_paragraph', ('p[@type="box"]',)))
            j.body.append(box)
        if rng.random() < 0.2:
            items = []
            for _ in range(rng.randint(1, 4)):
                text = v.sentence(rng.randint(6, 12))
                doc.add('list_item', gen.wrap_lines(rng, text, 40, 90), ('list', 'item'),
                        instance='item%d' % len(doc.blocks))
                items.append(El('list-item', El('p', text)))
            sec.children.append(El('list', *items))
    if rng.random() < 0.5:
        doc.add(None, other_lines(rng, v))
    if rng.random() < 0.4:
        title = v.phrase(2)
        doc.add('reference_list_title', [title], ('other[@type="ref-list-title"]',))
        j.back.append(El('ref-list', El('title', title)))
        doc.add(None, other_lines(rng, v))
    if rng.random() < 0.3:
        title = v.phrase(3)
        doc.add('appendix_group_title', [title], ('head[@type="appendix-group"]',))
        text = v.paragraph(2)
        doc.add('appendix', gen.wrap_lines(rng, text, 40, 90), ('figure[@xtype="appendix"]',))
        j.back.append(El('app-group', El('title', title), El('app', El('p', text))))
    return doc


# ---------------------------------------------------------------- references

def ref_path(*names):
    return ('bibl',) + names


REF_SUB = {
    'label': ref_path('label'),
    'author': ref_path('author'),
    'editor': ref_path('editor'),
    'year': ref_path('date'),
    'article-title': ref_path('title[@level="a"]'),
    'source': ref_path('title[@level="j"]'),
    'publisher-name': ref_path('publisher'),
    'publisher-loc': ref_path('pubPlace'),
    'volume': ref_path('biblScope[@unit="volume"]'),
    'issue': ref_path('biblScope[@unit="issue"]'),
    'page': ref_path('biblScope[@unit="page"]'),
    'issn': ref_path('idno[@type="ISSN"]'),
    'isbn': ref_path('idno[@type="ISBN"]'),
    'doi': ref_path('idno[@type="DOI"]'),
    'pii': ref_path('idno[@type="PII"]'),
    'pmid': ref_path('idno[@type="PMID"]'),
    'pmcid': ref_path('idno[@type="PMC"]'),
    'arXiv': ref_path('idno[@type="arxiv"]'),
    'ext-link': ref_path('ptr[@type="web"]'),
}


class Ref:
    """One reference. toks: list of (text, path) covering the whole text in order;
    path None = no sub label"""

    def __init__(self):
        self.toks = []
        self.label = None
        self.citation = El('mixed-citation', publication_type='journal')
        self.kinds = []

    def raw(self, text, path=None):
        self.toks.append((text, path))
        self.citation.children.append(text)

    def el(self, el, kind):
        self.toks.append((el.text(), REF_SUB[kind]))
        self.citation.children.append(el)
        self.kinds.append(kind)

    @property
    def text(self):
        return ''.join(t for t, _ in self.toks)

    def spans(self):
        out, pos = [], 0
        for t, path in self.toks:
            if path:
                out.append((pos, pos + len(t), path))
            pos += len(t)
        return out

    def element(self, i):
        ref = El('ref', id='bib%d' % i)
        if self.label:
            ref.children.append(El('label', self.label))
        ref.children.append(self.citation)
        return ref


def make_reference(rng, v, i, idno_prefix=False):
    r = Ref()
    if rng.random() < 0.4:
        r.label = '%d.' % (i + 1) if rng.random() < 0.5 else '[%d]' % (i + 1)
        r.toks.append((r.label, REF_SUB['label']))
        r.toks.append((' ', None))
        r.kinds.append('label')
    n_authors = rng.randint(1, 3)
    for a in range(n_authors):
        surname, given = v.name(), v.name()
        # the authors of one reference form one group, separators included
        r.el(El('string-name', El('surname', surname), ' ', El('given-names', given)), 'author')
        if a < n_authors - 1:
            r.raw(', ', REF_SUB['author'])
    r.raw('. ' if rng.random() < 0.5 else ' ')
    if r.toks[-1][0] == '. ':
        # the full stop that ends a name list belongs to the names
        r.toks[-1:] = [('.', REF_SUB['author']), (' ', None)]
    if rng.random() < 0.8:
        r.raw('(')
        r.el(El('year', v.number(4)), 'year')
        r.raw('). ')
    if rng.random() < 0.9:
        r.el(El('article-title', v.phrase(rng.randint(3, 10))), 'article-title')
        r.raw('. ')
    if rng.random() < 0.8:
        r.el(El('source', v.phrase(rng.randint(2, 4))), 'source')
        r.raw(', ')
    if rng.random() < 0.15:
        r.el(El('publisher-name', v.phrase(2)), 'publisher-name')
        r.raw(', ')
        r.el(El('publisher-loc', v.phrase(1, 8, 11)), 'publisher-loc')
        r.raw(', ')
    if rng.random() < 0.7:
        r.el(El('volume', v.number(3)), 'volume')
        r.raw(', ')
    if rng.random() < 0.6:
        fpage, lpage = sorted([v.number(4), v.number(4)])
        # first and last page form one page range
        r.el(El('fpage', fpage), 'page')
        r.raw('-', REF_SUB['page'])
        r.el(El('lpage', lpage), 'page')
        r.raw('. ')
    for kind, p in (('doi', 0.3), ('pmid', 0.2), ('pmcid', 0.15), ('pii', 0.1), ('arXiv', 0.1)):
        if rng.random() < p:
            value = {
                'doi': lambda: '10.%s/%s.%s' % (v.number(4), v.word(6, 9), v.number(5)),
                'pmid': lambda: v.number(8),
                'pmcid': lambda: 'PMC' + v.number(7),
                'pii': lambda: 'S' + v.number(9),
                'arXiv': lambda: '%s.%s' % (v.number(4), v.number(5)),
            }[kind]()
            prefix = {'doi': rng.choice(['doi:', 'DOI: ', 'doi: ']), 'pmid': 'PMID: ', 'pmcid': '',
                      'pii': rng.choice(['pii: ', 'PII: ']), 'arXiv': 'arXiv: '}[kind]
            if prefix:
                r.raw(prefix, REF_SUB[kind] if idno_prefix else None)
            r.el(El('pub-id', value, pub_id_type=kind), kind)
            r.raw('. ')
    if rng.random() < 0.15:
        r.el(El('ext-link', 'https://www.%s.org/%s' % (v.word(8, 12), v.word(8, 12)),
                ext_link_type='uri'), 'ext-link')
        r.raw('. ')
    # no trailing blank
    t, path = r.toks[-1]
    r.toks[-1] = (t.rstrip(), path)
    last = r.citation.children[-1]
    if isinstance(last, str):
        r.citation.children[-1] = last.rstrip()
    return r


def reference_doc(rng, fields=None, idno_prefix=False):
    v = gen.Vocab(rng)
    doc = Doc('reference', NOTE_OTHER)
    refs = []
    for i in range(rng.randint(1, 5)):
        ref = make_reference(rng, v, i, idno_prefix=idno_prefix)
        lines = gen.wrap_lines(rng, ref.text, 50, 120)
        doc.add('reference', lines, ('bibl',), instance='ref%d' % i, spans=ref.spans())
        refs.append(ref.element(i))
        if rng.random() < 0.15:
            doc.add(None, other_lines(rng, v))
    doc.jats.back.append(El('ref-list', *refs))
    return doc


def reference_segmenter_doc(rng, fields=None):
    v = gen.Vocab(rng)
    doc = Doc('reference_segmenter', NOTE_OTHER)
    refs = []
    if rng.random() < 0.4:
        doc.add(None, other_lines(rng, v))
    for i in range(rng.randint(1, 5)):
        ref = make_reference(rng, v, i)
        lines = gen.wrap_lines(rng, ref.text, 50, 120)
        spans = []
        if ref.label:
            spans = [(0, len(ref.label), ('listBibl', 'bibl', 'label'))]
        doc.add('reference', lines, ('listBibl', 'bibl'), instance='ref%d' % i, spans=spans)
        refs.append(ref.element(i))
    if rng.random() < 0.3:
        doc.add(None, other_lines(rng, v))
    doc.jats.back.append(El('ref-list', *refs))
    return doc


# ---------------------------------------------------------------- affiliation

AFF_SUB = {
    'label': ('affiliation', 'marker'),
    'department': ('affiliation', 'orgName[@type="department"]'),
    'institution': ('affiliation', 'orgName[@type="institution"]'),
    'city': ('affiliation', 'address', 'settlement'),
    'postcode': ('affiliation', 'address', 'postCode'),
    'state': ('affiliation', 'address', 'region'),
    'country': ('affiliation', 'address', 'country'),
    'alternative': ('affiliation',),
}
AFF_ADDRESS = ('affiliation', 'address')
ADDRESS_KINDS = {'city', 'postcode', 'state', 'country'}


def affiliation_doc(rng, fields=None, rich=False):
    v = gen.Vocab(rng)
    doc = Doc('affiliation', NOTE_OTHER)
    contrib = El('contrib-group')
    for i in range(rng.randint(1, 4)):
        label = aff_label(rng, i, rich)
        parts = affiliation_parts(rng, v, label=label, rich=rich)
        text = ''.join(t for _, t in parts)
        spans = []
        apart = rich and number_before(rng, v, doc, label)
        pos = 0
        for k, (kind, t) in enumerate(parts):
            if kind:
                spans.append((pos, pos + len(t), AFF_SUB[kind]))
            elif 0 < k < len(parts) - 1 and parts[k - 1][0] in ADDRESS_KINDS and parts[k + 1][0] in ADDRESS_KINDS:
                # separators between two address parts belong to the address
                spans.append((pos, pos + len(t), AFF_ADDRESS))
            pos += len(t)
        joined = rich and not apart and i and rng.random() < 0.3
        if rich and not joined and not apart and rng.random() < 0.25:
            # unrelated text before the affiliation, on its line
            doc.add(None, [v.phrase(rng.randint(1, 4)) + rng.choice(['', ':', ';'])]).joins = 'author_aff'
            joined = True
        doc.add('author_aff', gen.wrap_lines(rng, text, 40, 90), ('affiliation',),
                instance='aff%d' % i, spans=spans, joined=joined)
        contrib.children.append(aff_element(parts))
    doc.jats.article_meta.append(contrib)
    return doc


# ---------------------------------------------------------------- figures and tables

def _fig_doc(rng, name, field, tag, base):
    v = gen.Vocab(rng)
    doc = Doc(name, NOTE_OTHER)
    for i in range(rng.randint(1, 4)):
        el = caption_block(
            doc, rng, v, field, tag, base, i + 1,
            subs=(base + ('head', 'label'), base + ('figDesc',)))
        doc.jats.body.append(el)
    return doc


def figure_doc(rng, fields=None):
    return _fig_doc(rng, 'figure', 'figure', 'fig', ('figure',))


def table_doc(rng, fields=None):
    return _fig_doc(rng, 'table', 'table', 'table-wrap', ('figure[@type="table"]',))


# ---------------------------------------------------------------- segmentation

SEG_BODY = ('body',)
SEG_FRONT = ('front',)
SEG_ACK = ('div[@type="acknowledgment"]',)
SEG_ANNEX = ('div[@type="annex"]',)
SEG_REFS = ('listBibl',)
SEG_PAGE = ('page',)
SEG_HEADNOTE = ('note[@place="headnote"]',)


def segmentation_doc(rng, fields=None, headnotes=None, pages=False):
    """Reading order front, body, acknowledgment, references, annex. Text of the
    front, the references and the annex may contain lines the target document
    does not have; what lies between two lines of such a region belongs to it,
    as does what follows the annex; any other unknown text is body."""
    v = gen.Vocab(rng)
    doc = Doc('segmentation', SEG_BODY)
    meta, j = doc.jats.article_meta, doc.jats

    def has(p):
        return rng.random() < p

    # -- front
    front = []
    if has(0.9):
        text = v.phrase(rng.randint(3, 12))
        front.append(('title', gen.wrap_lines(rng, text)))
        meta.append(El('title-group', El('article-title', text)))
    contrib = El('contrib-group')
    if has(0.7):
        names = []
        for _ in range(rng.randint(1, 4)):
            given, surname = v.name(), v.name()
            names.append('%s %s' % (given, surname))
            contrib.children.append(El('contrib', El(
                'name', El('surname', surname), El('given-names', given)), contrib_type='author'))
        front.append(('author', [', '.join(names)]))
    for i in range(rng.choice([0, 1, 2])):
        parts = affiliation_parts(rng, v)
        front.append(('author_aff', gen.wrap_lines(rng, ''.join(t for _, t in parts), 40, 90)))
        contrib.children.append(aff_element(parts))
    if contrib.children:
        meta.append(contrib)
    if has(0.8):
        text = v.paragraph(rng.randint(1, 4))
        front.append(('abstract', gen.wrap_lines(rng, text, 40, 90)))
        meta.append(El('abstract', El('p', text)))
    if has(0.4):
        kwds = [v.phrase(rng.randint(1, 2), cap=False) for _ in range(rng.randint(3, 5))]
        front.append(('keywords', [', '.join(kwds)]))
        meta.append(El('kwd-group', *[El('kwd', k) for k in kwds]))
    if front and has(0.5):
        doc.add('unknown-front', other_lines(rng, v), SEG_FRONT)
    for i, (field, lines) in enumerate(front):
        if i and has(0.25):
            doc.add('unknown-front', other_lines(rng, v), SEG_FRONT)
        doc.add(field, lines, SEG_FRONT)
    # -- body
    if has(0.3):
        doc.add(None, other_lines(rng, v))
    if has(0.9):
        for s in range(rng.randint(1, 3)):
            title = v.phrase(rng.randint(2, 5))
            sec = El('sec', El('title', title))
            doc.add('body_section_title', [title], SEG_BODY)
            for _ in range(rng.randint(0, 3)):
                text = v.paragraph(rng.randint(1, 4))
                doc.add('body_section_paragraph', gen.wrap_lines(rng, text, 40, 90), SEG_BODY)
                sec.children.append(El('p', text))
                if has(0.2):
                    doc.add(None, other_lines(rng, v))
            if has(0.3):
                sec.children.append(caption_block(
                    doc, rng, v, 'body_figure', 'fig', SEG_BODY, s + 1))
            j.body.append(sec)
    # -- back
    if has(0.4):
        title = v.phrase(rng.randint(1, 2), 8, 10)
        text = v.paragraph(rng.randint(1, 2))
        doc.add('acknowledgment_section_title', [title], SEG_ACK)
        doc.add('acknowledgment_section_paragraph', gen.wrap_lines(rng, text, 40, 90), SEG_ACK)
        j.back.append(El('ack', El('title', title), El('p', text)))
    if has(0.3):
        doc.add(None, other_lines(rng, v))
    if has(0.8):
        ref_list = El('ref-list')
        if has(0.6):
            title = v.phrase(1, 8, 10)
            ref_list.children.append(El('title', title))
            doc.add('reference_list_title', [title], SEG_REFS)
        n = rng.randint(1, 5)
        for i in range(n):
            ref = make_reference(rng, v, i)
            if (i or ref_list.children) and has(0.12):
                doc.add('unknown-reference', other_lines(rng, v), SEG_REFS)
            doc.add('reference', gen.wrap_lines(rng, ref.text, 50, 120), SEG_REFS)
            ref_list.children.append(ref.element(i))
        j.back.append(ref_list)
    if has(0.3):
        doc.add(None, other_lines(rng, v))
    if has(0.4):
        title = v.phrase(rng.randint(2, 4))
        group = El('app-group', El('title', title))
        doc.add('appendix_group_title', [title], SEG_ANNEX)
        for _ in range(rng.randint(1, 2)):
            if has(0.2):
                doc.add('unknown-annex', other_lines(rng, v), SEG_ANNEX)
            text = v.paragraph(rng.randint(1, 3))
            doc.add('appendix', gen.wrap_lines(rng, text, 40, 90), SEG_ANNEX)
            group.children.append(El('app', El('p', text)))
        j.back.append(group)
        if has(0.3):
            doc.add('unknown-annex', other_lines(rng, v), SEG_ANNEX)
    if headnotes if headnotes is not None else has(0.4):
        _interleave_page_furniture(doc, rng, v, pages)
    elif pages:
        _interleave_page_furniture(doc, rng, v, pages, header=False)
    return doc


def _interleave_page_furniture(doc, rng, v, pages, header=True):
    """Insert a running head (the same line, more than once, from the first lines
    on) and page numbers between blocks."""
    n = len(doc.blocks)
    if n < 2:
        return
    k = rng.randint(2, min(4, n)) if n > 2 else 2
    positions = sorted(rng.sample(range(n), k))
    # the first one within the first 50 lines
    count = 0
    for i, b in enumerate(doc.blocks):
        if i == positions[0] and count >= 50:
            positions[0] = 0
        count += len(b.lines)
    positions = sorted(set(positions))
    if len(positions) < 2:
        return
    text = v.phrase(rng.randint(2, 5))
    numbers = list(range(rng.choice([1, 2, 11]), 99))
    blocks = []
    for i, b in enumerate(doc.blocks):
        if i in positions:
            if pages:
                blocks.append(Block('page', [str(numbers.pop(0))], SEG_PAGE))
            if header:
                blocks.append(Block('headnote', [text], SEG_HEADNOTE))
        blocks.append(b)
    doc.blocks = blocks
