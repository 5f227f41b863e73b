"""Hostile documents: arbitrary text and markup a training file may legally
contain, with target values cut out of that text (so that matches land in
awkward places)."""
from vf import gen
from vf.gen import LB, El, Jats

MARKUP = {
    'header': [
        ('note[@type="other"]',), ('docTitle', 'titlePart'), ('div[@type="abstract"]',),
        ('byline', 'docAuthor'), ('byline', 'affiliation'), ('byline',), ('note[@type="line_no"]',),
        ('note[@type="keywords"]',), ('date',), ('div[@type="intro"]',), ('note[@type="doi"]',),
        ('page',), ('byline', 'affiliation', 'note[@type="x"]'), ('keyword',), ('email',),
    ],
    'segmentation': [
        ('body',), ('front',), ('note[@place="headnote"]',), ('note[@place="footnote"]',),
        ('div[@type="acknowledgment"]',), ('div[@type="annex"]',), ('page',),
        ('listBibl',), ('note[@type="line_no"]',), ('div[@type="toc"]',),
    ],
    'fulltext': [
        ('p',), ('head',), ('p', 'ref[@type="biblio"]'), ('figure',), ('figure[@type="table"]',),
        ('other',), ('note[@type="other"]',), ('list', 'item'), ('formula',), ('head', 'label'),
        ('p', 'ref[@type="figure"]'), ('p[@type="box"]',), ('list',), ('note',),
        ('figure', 'head', 'label'), ('list', 'item', 'ref[@type="biblio"]'),
    ],
    'reference': [
        ('bibl',), ('bibl', 'author'), ('bibl', 'title[@level="a"]'), ('bibl', 'title[@level="j"]'),
        ('bibl', 'date'), ('bibl', 'idno[@type="DOI"]'), ('bibl', 'biblScope[@unit="page"]'),
        ('bibl', 'label'), ('note[@type="other"]',), ('bibl', 'note'),
    ],
    'reference_segmenter': [
        ('listBibl', 'bibl'), ('listBibl', 'bibl', 'label'), ('listBibl',), ('note[@type="other"]',),
    ],
    'affiliation': [
        ('affiliation',), ('affiliation', 'marker'), ('affiliation', 'orgName[@type="institution"]'),
        ('affiliation', 'orgName[@type="department"]'), ('affiliation', 'address'),
        ('affiliation', 'address', 'country'), ('affiliation', 'address', 'settlement'),
        ('affiliation', 'address', 'postCode'), ('affiliation', 'orgName[@type="laboratory"]'),
        ('note[@type="other"]',), ('affiliation', 'address', 'addrLine'),
    ],
    'figure': [
        ('figure',), ('figure', 'head'), ('figure', 'head', 'label'), ('figure', 'figDesc'),
        ('figure', 'trash'), ('note[@type="other"]',),
    ],
    'table': [
        ('figure[@type="table"]',), ('figure[@type="table"]', 'head'),
        ('figure[@type="table"]', 'head', 'label'), ('figure[@type="table"]', 'figDesc'),
        ('figure[@type="table"]', 'table'), ('figure[@type="table"]', 'note'), ('note[@type="other"]',),
    ],
}

ATOMS = [
    ',', '.', ';', ':', '-', '\u2013', '\u2014', '(', ')', '[', ']', '/', '&', '<', '>', '"', "'",
    '\u2018', '\u2019', '\u201c', '\u201d', '*', '\u2020', '\u00a0', '\u2009', '\u00b5m', '\u03b1',
    '\u00e9t\u00e9', '\u00c5', 'e\u0301', '\ufb01', '\u6f22\u5b57', '\u0416\u0436', '\U0001d49c',
    '10.1234/abc.5678', 'https://example.org/a?b=c&d=e', '%', '=', '+', '~', '_', '{', '}', '|', '\\',
    'iPhone', 'McDonald', 'CamelCaseWord', 'A', 'b', '1', '12', '2019', '007', 'pH', 'et al.',
    'USA', 'United States', 'Fig. 1', 'Table 2', 'Abstract', 'Keywords:', '\u200b', '\u00ad',
    '\u0130stanbul', '\u00df', '\u2026', '\u2212', '\u00d7', '\u2032', '#', '@', '\u00a9', '\u00ae',
]

SPACES = [' ', ' ', ' ', ' ', ' ', '  ', '\n', '\t', '', ' \n ', '\u00a0']


def hostile_line(rng, vocab, n):
    out = []
    for _ in range(n):
        r = rng.random()
        if r < 0.55:
            w = vocab.word(3, 9)
            if rng.random() < 0.25:
                w = w.capitalize()
            out.append(w)
        elif r < 0.65:
            out.append(str(rng.randrange(3000)))
        elif r < 0.67:
            # a very long word (a sequence, an address, a line without spaces)
            out.append(vocab.word(3, 9) * rng.choice([10, 30, 100]))
        else:
            out.append(rng.choice(ATOMS))
        out.append(rng.choice(SPACES))
    return ''.join(out)


def container_items(rng, vocab, pipe_name, n_lines, markup=None):
    """Random lines with random existing markup."""
    markup_rate = rng.choice([0.0, 0.3, 0.8, 1.0]) if markup is None else markup
    items = []
    path, group = (), 0
    texts = []
    for i in range(n_lines):
        n_seg = rng.choice([1, 1, 1, 2, 3])
        line_text = []
        for _ in range(n_seg):
            if rng.random() < 0.6:
                path = rng.choice(MARKUP[pipe_name]) if rng.random() < markup_rate else ()
                if rng.random() < 0.7:
                    group += 1
            text = hostile_line(rng, vocab, rng.choice([0, 1, 2, 4, 8]))
            items.append((path, group, text))
            line_text.append(text)
        texts.append(''.join(line_text))
        if i < n_lines - 1 or rng.random() < 0.7:
            if rng.random() < 0.3:
                items.append((path, group, rng.choice([' ', '\n'])))
            items.append(LB)
            if rng.random() < 0.6:
                items.append((path, group, rng.choice([' ', '\n', '\n\t'])))
    return items, texts


def cut(rng, text, lo=1, hi=14):
    words = text.split()
    if not words:
        return 'zz'
    a = rng.randrange(len(words))
    b = min(len(words), a + rng.randint(lo, hi))
    value = ' '.join(words[a:b])
    r = rng.random()
    if r < 0.2 and len(value) > 6:
        i = rng.randrange(len(value))
        value = value[:i] + rng.choice('xq ') + value[i + 1:]
    elif r < 0.3:
        value = value.upper()
    return value or 'zz'


def _rich(rng, value):
    """value -> children with inline markup somewhere"""
    if len(value) < 4 or rng.random() < 0.6:
        return [value]
    i = rng.randrange(1, len(value) - 1)
    j = rng.randrange(i, len(value))
    return [value[:i], El(rng.choice(['italic', 'bold', 'sup']), value[i:j]), value[j:]]


def jats_from_text(rng, texts):
    full = ' '.join(texts)
    j = Jats()

    def c(lo=1, hi=14):
        return cut(rng, full, lo, hi)

    meta = j.article_meta
    if rng.random() < 0.8:
        meta.append(El('title-group', El('article-title', *_rich(rng, c()))))
    if rng.random() < 0.3:
        meta.append(El('article-id', c(1, 1), pub_id_type='doi'))
    contribs = []
    for _ in range(rng.randrange(3)):
        name = El('name', El('surname', c(1, 1)), El('given-names', c(1, 2)))
        contribs.append(El('contrib', name, contrib_type='author'))
    for _ in range(rng.randrange(3)):
        contribs.append(aff(rng, c))
    if contribs:
        meta.append(El('contrib-group', *contribs))
    if rng.random() < 0.6:
        meta.append(El('abstract', El('p', *_rich(rng, c(5, 40)))))
    if rng.random() < 0.4:
        meta.append(El('kwd-group', El('title', 'Keywords'), *[
            El('kwd', c(1, 2)) for _ in range(rng.randint(1, 4))]))
    if rng.random() < 0.3:
        meta.append(El('fpage', str(rng.randrange(1, 5))))
        meta.append(El('lpage', str(rng.randrange(5, 20))))
    for _ in range(rng.randrange(3)):
        sec = El('sec', El('title', c(1, 6)))
        if rng.random() < 0.3:
            sec.children.insert(0, El('label', str(rng.randrange(1, 9))))
        for _ in range(rng.randrange(3)):
            v = c(3, 30)
            p = El('p', *_rich(rng, v))
            if rng.random() < 0.5:
                p.children.append(El('xref', c(1, 2), ref_type=rng.choice(
                    ['bibr', 'fig', 'table', 'disp-formula', 'sec', 'boxed-text'])))
                p.children.append(' ' + c(1, 4))
            sec.children.append(p)
        j.body.append(sec)
    for tag in ('fig', 'table-wrap'):
        for _ in range(rng.randrange(3)):
            f = El(tag)
            if rng.random() < 0.8:
                f.children.append(El('label', c(1, 2)))
            if rng.random() < 0.8:
                f.children.append(El('caption', El('p', c(1, 12))))
            if rng.random() < 0.3:
                j.back.append(El('sec', f))
            else:
                j.body.append(f)
    if rng.random() < 0.2:
        j.body.append(El('list', *[El('list-item', El('p', c(2, 10))) for _ in range(2)]))
    if rng.random() < 0.2:
        j.body.append(El('boxed-text', El('label', c(1, 2)), El('caption', El('title', c(1, 4))), El('p', c(3, 12))))
    if rng.random() < 0.3:
        j.back.append(El('ack', El('title', c(1, 3)), El('p', c(3, 12))))
    if rng.random() < 0.3:
        j.back.append(El('app-group', El('title', c(1, 3)), El('app', El('title', c(1, 3)), El('p', c(3, 12)))))
    refs = [El('title', c(1, 2))] if rng.random() < 0.5 else []
    for i in range(rng.randrange(4)):
        refs.append(reference(rng, c, i))
    if refs:
        j.back.append(El('ref-list', *refs))
    return j


def aff(rng, c):
    a = El('aff')
    if rng.random() < 0.6:
        a.children.append(El('label', str(rng.randrange(1, 9))))
    if rng.random() < 0.6:
        a.children.append(El('institution', c(1, 5)))
        a.children.append(', ')
    if rng.random() < 0.6:
        a.children.append(El('addr-line', El('named-content', c(1, 2), content_type='city')))
        a.children.append(', ')
    if rng.random() < 0.6:
        a.children.append(El('country', c(1, 2)))
    a.children.append(c(1, 5))
    return a


def reference(rng, c, i):
    mc = El('mixed-citation', publication_type='journal')
    ch = mc.children
    if rng.random() < 0.8:
        ch += [El('string-name', El('surname', c(1, 1)), ' ', El('given-names', c(1, 1))), ', ']
    if rng.random() < 0.3:
        ch += [El('etal', 'et al.'), ' ']
    if rng.random() < 0.5:
        ch += [El('year', str(rng.randrange(1950, 2020))), '. ']
    if rng.random() < 0.8:
        ch += [El('article-title', *_rich(rng, c(2, 12))), '. ']
    if rng.random() < 0.8:
        ch += [El('source', c(1, 4)), ' ']
    if rng.random() < 0.6:
        ch += [El('volume', str(rng.randrange(1, 99))), ':']
    if rng.random() < 0.5:
        ch += [El('fpage', str(rng.randrange(1, 99))), '-', El('lpage', str(rng.randrange(100, 199))), '. ']
    if rng.random() < 0.4:
        ch += ['doi: ', El('pub-id', c(1, 1), pub_id_type=rng.choice(['doi', 'pmid', 'pmcid', 'pii', 'arXiv']))]
    if rng.random() < 0.3:
        ch += [El('ext-link', c(1, 1), ext_link_type='uri')]
    ref = El('ref', id='bib%d' % i)
    if rng.random() < 0.5:
        ref.children.append(El('label', '%d.' % (i + 1)))
    ref.children.append(mc)
    return ref


def options(rng, pipe_name):
    """Random supported command line options that must not affect the text."""
    o = []
    if rng.random() < 0.4:
        o.append('--no-preserve-tags')
    if pipe_name in ('header', 'segmentation', 'fulltext', 'reference_segmenter'):
        if pipe_name != 'fulltext' and pipe_name != 'segmentation' and rng.random() < 0.15:
            o += ['--matcher', 'complex']
    if pipe_name != 'reference' and rng.random() < 0.3:
        o += ['--use-line-number-annotator', '--min-line-numbers-per-page', str(rng.choice([1, 2, 5]))]
    if rng.random() < 0.25:
        o += ['--matcher-score-threshold', str(rng.choice([0.5, 0.6, 0.9, 1.0]))]
    if rng.random() < 0.2:
        o += ['--matcher-lookahead-lines', str(rng.choice([1, 2, 5, 20]))]
    if pipe_name == 'fulltext':
        for name in ('--no-extend-to-line', '--expand-to-previous-untagged-lines',
                     '--expand-to-following-untagged-lines'):
            if rng.random() < 0.3:
                o.append(name)
    if pipe_name == 'reference':
        if rng.random() < 0.5:
            o.append('--include-idno-prefix')
        if rng.random() < 0.5:
            o.append('--segment-references')
    if pipe_name == 'affiliation' and rng.random() < 0.5:
        o.append('--segment-affiliation')
    if pipe_name == 'figure' and rng.random() < 0.5:
        o.append('--segment-figures')
    if pipe_name == 'table' and rng.random() < 0.5:
        o.append('--segment-tables')
    if pipe_name in ('affiliation', 'figure', 'table') and rng.random() < 0.5:
        o.append('--preserve-sub-tags')
    if pipe_name == 'segmentation':
        if rng.random() < 0.3:
            o.append('--no-merge-references')
        if rng.random() < 0.3:
            o += ['--no-preserve-fields', rng.choice(['page', 'headnote', 'reference', 'body,front'])]
    if rng.random() < 0.15 and pipe_name in ('header', 'segmentation', 'fulltext'):
        o += ['--always-preserve-fields', {
            'header': 'title', 'segmentation': 'reference', 'fulltext': 'figure'
        }[pipe_name]]
    return o
