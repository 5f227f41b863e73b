"""C15 identifiers of fixed references"""
from collections import Counter
from xml.sax.saxutils import escape, quoteattr

from vf import jats
from vf.checks import c14

RULE = (
    'JATS documents whose references contain known identifiers, titles and links, each correctly marked up, marked up with '
    'prefixes, suffixes or neighbouring text, with the wrong type or letter case, split, joined, in comments or not marked up at all, in '
    'any combination and order among other parts; oracle: the expected document, built together with the source; the '
    'record of changed references is compared as well; non-trivial: a reference needs a repair'
)
PLAN = {'quick': 10000, 'thorough': 120000}
REQUIRED_EVENTS = {
    'documents': 2000, 'references': 5000, 'changed': 3000, 'unchanged': 400,
    'doi': 2000, 'mention': 500, 'pmid': 1000, 'pmcid': 1000, 'pii': 300, 'wos': 300, 'link': 500, 'title': 2000,
}
WORDS = 'alpha beta gamma delta growth of cells under stress in mice a study on the role with new methods for models'.split()


def e(text):
    return escape(text)


def pub(kind, text):
    return '<pub-id pub-id-type="%s">%s</pub-id>' % (kind, e(text))


def link(text, href=None):
    return '<ext-link ext-link-type="uri" xlink:href=%s>%s</ext-link>' % (quoteattr(text if href is None else href), e(text))


class Item:
    """A piece of a reference: source, expected result, how it starts, whether other text may follow in the same chunk"""

    def __init__(self, src, exp, kind, form, starts='text', open_end=False):
        self.src = src
        self.exp = exp
        self.kind = kind
        self.form = form
        if starts == 'element' and not (src.startswith('<') and exp.startswith('<')):
            starts = 'text'
        self.starts = starts
        self.open_end = open_end


def doi_value(rng):
    prefix = rng.choice(['10.1234', '10.1016', '10.1038', '10.12345', '10.1002.7', '10.1234.56.7'])
    alnum = 'abcdefghijklmnopqrstuvwxyz0123456789'
    core = ''.join(rng.choice(alnum) for _ in range(rng.randint(1, 4)))
    path = rng.choice([
        'j.%s.2019.01.002' % core, 's41586-020-%d-%s' % (rng.randrange(1000, 9999), core), '%s' % core, 'journal.pone.%07d' % rng.randrange(10 ** 7),
        '(SICI)1097%s' % core, '%s/v1_%s' % (core, rng.randrange(9)), 'S0140-6736(%02d)%05d-%d' % (
            rng.randrange(100), rng.randrange(10 ** 5), rng.randrange(10)), '%s[%d]%s' % (core, rng.randrange(9), core),
        '%s;%s' % (core, core)])
    if path.startswith('pmc'):
        path = 'x' + path
    return prefix + '/' + path


def pii_value(rng):
    d = ''.join(rng.choice('0123456789') for _ in range(15)) + rng.choice('0123456789X')
    return rng.choice([
        'S%s-%s(%s)%s-%s' % (d[:4], d[4:8], d[8:10], d[10:15], d[15]), 'S' + d, 'S%s-%s%s-%s' % (d[:4], d[4:10], d[10:15], d[15])])


def url_value(rng):
    return '%s://%s.example.%s/%s' % (
        rng.choice(['http', 'https']), rng.choice(['www', 'data', 'repo']), rng.choice(['org', 'com']),
        rng.choice(['', 'a/b', 'x?y=1&z=2', 'doc_%d.html' % rng.randrange(99), 'index[1]']))


URL_PREFIXES = ['https://doi.org/', 'http://doi.org/', 'https://dx.doi.org/', 'http://dx.doi.org/', 'https : // doi . org / ', 'doi.org/', 'dx.doi.org/']


def doi_item(rng, mixed):
    d = doi_value(rng)
    marked = pub('doi', d)
    label = rng.choice(['', 'doi:', 'doi: ', 'DOI ', 'https://www.example.org/ doi: ', 'See https://doi.org/ for doi: '])
    forms = ['correct', 'caps', 'prefix', 'suffix', 'both', 'bracket', 'duplicate', 'url-in', 'url-out', 'pii-in', 'other-in', 'token', 'not-a-doi']
    if mixed:
        forms += ['unmarked'] * 3 + ['unmarked-bracket', 'unmarked-label', 'unmarked-url']
    form = rng.choice(forms)
    starts = 'text' if label else 'element'
    label = e(label)
    if form == 'correct':
        return Item(label + marked, label + marked, 'doi', form, starts)
    if form == 'caps':
        return Item(label + pub(rng.choice(['DOI', 'Doi']), d), label + marked, 'doi', form, starts)
    prefix = rng.choice(['doi:', 'doi: ', 'DOI: ', 'doi '])
    suffix = rng.choice(['.', ' .', '. ', ';', ' [doi]', '[doi]', ' [pii]', '; ', '.\n', ' [doi].'])
    if form == 'prefix':
        return Item(label + pub('doi', prefix + d), label + e(prefix) + marked, 'doi', form, starts)
    if form == 'suffix':
        return Item(label + pub('doi', d + suffix), label + marked + e(suffix), 'doi', form, starts)
    if form == 'both':
        return Item(label + pub('doi', prefix + d + suffix), label + e(prefix) + marked + e(suffix), 'doi', form, starts)
    if form == 'bracket':
        after = rng.choice(['', '.'])
        return Item(label + pub('doi', '[' + d + ']' + after), label + '[' + marked + ']' + after, 'doi', form, starts)
    if form == 'duplicate':
        sep = rng.choice(['; ', ' ', '. '])
        if sep == '. ':
            sep = '; '
        return Item(label + pub('doi', d + sep + d), label + marked + e(sep + d) if sep == ' ' else label + marked + e(sep + d), 'doi', form, starts)
    if form == 'token':
        token = rng.choice([' PubMed', '. PubMed abstract', ' Epub 2019 Jan 2', '. Accessed 3 May 2019', ' (Epub 2019)', '. Error in text'])
        return Item(label + pub('doi', d + token), label + marked + e(token), 'doi', form, starts)
    if form == 'not-a-doi':
        text = rng.choice(['not available', 'none', '10.12/abc', 'in press'])
        return Item(label + pub('doi', text), label + e(text), 'no-doi', form, starts)
    if form == 'pii-in':
        p = pii_value(rng)
        return Item(label + pub('doi', p + ' [pii]; ' + d + ' [doi]'),
                    label + (pub('pii', p) if mixed else e(p)) + ' [pii]; ' + marked + ' [doi]', 'doi+pii', form, 'text')
    if form == 'other-in':
        p = 'nature%05d' % rng.randrange(10 ** 5)
        label = rng.choice(['doi: ', ' ', 'See '])
        return Item(label + pub('doi', p + ' [pii]; ' + d + ' [doi]'),
                    label + (pub('other', p) if mixed else e(p)) + ' [pii]; ' + marked + ' [doi]', 'doi+pii', form, 'text')
    u = rng.choice(URL_PREFIXES)
    href = ''.join((u + d).split())
    if '://' not in href:
        href = 'https://' + href
    if form == 'url-in':
        lead = rng.choice(['', 'Available at ', 'in press. ', 'Nature.', 'growth . '])
        return Item(lead + pub('doi', u + d), lead + link(u + d, href), 'doi', form, 'text' if lead else 'element')
    if form == 'url-out':
        lead = rng.choice(['', 'Available at ', 'in press. ', 'Nature.', 'growth . '])
        return Item(lead + u + pub('doi', d), lead + link(u + d, href), 'doi', form)
    # not marked up
    label = rng.choice(['doi:', 'doi: ', 'DOI: ', ''])
    if form == 'unmarked-bracket':
        return Item(label + '[' + e(d) + ']', label + '[' + marked + ']', 'doi', form, open_end=True)
    if form == 'unmarked-label':
        suffix = rng.choice([' [doi]', '[doi]'])
        return Item(label + e(d) + suffix, label + marked + suffix, 'doi', form, open_end='exact')
    if form == 'unmarked-url':
        lead = rng.choice(['', '', 'Available at ', 'in press. ', 'mice.'])
        return Item(lead + u + e(d), lead + link(u + d, href), 'doi', form, open_end=True)
    return Item(label + e(d), label + marked, 'doi', form, open_end=True)


def pmid_item(rng, mixed):
    n = str(rng.randrange(1, 10 ** rng.randint(1, 10)))
    marked = pub('pmid', n)
    label = rng.choice(['PMID: ', 'PMID:', 'PubMed PMID: ', 'PMID : '])
    form = rng.choice(['correct', 'caps', 'prefix', 'suffix', 'wos'] + (['unmarked'] * 3 + ['comment', 'comment-more'] if mixed else []))
    if form == 'correct':
        return Item(label + marked, label + marked, 'pmid', form, 'label')
    if form == 'caps':
        return Item(label + pub('PMID', n), label + marked, 'pmid', form, 'label')
    if form == 'prefix':
        p = rng.choice(['PMID: ', 'PMID:', 'PMID ', 'PubMed: '])
        return Item(pub('pmid', p + n), p + marked, 'pmid', form, 'element')
    if form == 'suffix':
        s = rng.choice(['.', ' ', ' [PubMed]', '; PubMed Central'])
        return Item(label + pub('pmid', n + s), label + marked + s, 'pmid', form, 'label')
    if form == 'wos':
        w = '%015d' % rng.randrange(10 ** 15)
        return Item('PMID: ' + pub('pmid', 'WOS: ' + w), 'PMID: WOS: ' + (pub('other', w) if mixed else w), 'pmid+wos', form, 'label')
    if form == 'unmarked':
        return Item(label + n, label + marked, 'pmid', form, 'label')
    after = rng.choice(['', '.', ' (in press)'])
    tail = rng.choice(['', '. ', ' see also']) if form == 'comment-more' else ''
    return Item('<comment>%s%s%s</comment>%s' % (label, n, after, tail),
                '<comment>%s</comment>%s%s%s' % (label, marked, after, tail), 'pmid', form, 'element')


def pmcid_item(rng, mixed):
    n = rng.choice(['PMC', 'PMC', 'pmc']) + str(rng.randrange(1, 10 ** rng.randint(1, 8)))
    marked = pub('pmcid', n)
    label = rng.choice(['PMCID: ', 'PMCID:', ''])
    form = rng.choice(['correct', 'caps', 'double', 'suffix'] + (['unmarked'] * 3 + ['comment', 'as-pmid'] if mixed else []))
    starts = 'label' if label else 'element'
    if form == 'correct':
        return Item(label + marked, label + marked, 'pmcid', form, starts)
    if form == 'caps':
        return Item(label + pub('PMCID', n), label + marked, 'pmcid', form, starts)
    if form == 'double':
        return Item(label + pub('pmcid', 'PMC' + n), label + 'PMC' + marked, 'pmcid', form, starts)
    if form == 'suffix':
        p = rng.choice(['', 'PMCID: ', '; '])
        s = rng.choice(['.', ' ', ' [free]'])
        return Item(label + pub('pmcid', p + n + s), label + p + marked + s, 'pmcid', form, starts)
    if form == 'unmarked':
        return Item(label + n, label + marked, 'pmcid', form, starts)
    if form == 'as-pmid':
        # the type is wrong
        return Item(label + pub('pmid', n), label + marked, 'pmcid+pmid', form, starts)
    after = rng.choice(['', '.'])
    tail = rng.choice(['', '. '])
    return Item('<comment>%s%s%s</comment>%s' % (label, n, after, tail),
                '<comment>%s</comment>%s%s%s' % (label, marked, after, tail), 'pmcid', form, 'element')


def pii_item(rng, mixed):
    p = pii_value(rng)
    marked = pub('pii', p)
    form = rng.choice(['correct', 'prefix', 'suffix', 'invalid'] + (['unmarked', 'unmarked', 'other'] if mixed else []))
    if form == 'correct':
        return Item(marked, marked, 'pii', form, 'element')
    if form == 'prefix':
        x = rng.choice(['pii: ', 'doi:', 'PII '])
        return Item(pub('pii', x + p), x + marked, 'pii', form, 'element')
    if form == 'suffix':
        x = rng.choice(['.', ' [pii]', '; '])
        return Item(pub('pii', p + x), marked + x, 'pii', form, 'element')
    if form == 'invalid':
        x = rng.choice(['none', 'abc1', 'S12'])
        return Item(pub('pii', x), x, 'no-pii', form, 'element')
    if form == 'other':
        o = 'bioin%04d' % rng.randrange(10 ** 4)
        lead = rng.choice(['pii: ', ' ', 'doi:'])
        if lead == 'doi:':
            lead = ' doi:'
        return Item(lead + o + ' [pii]', lead + pub('other', o) + ' [pii]', 'pii', form)
    lead, after = rng.choice([('pii: ', ''), ('', ' [pii]'), ('pii ', '')])
    return Item(lead + p + after, lead + marked + after, 'pii', form, open_end='' if after else 'pii')


def wos_item(rng, mixed):
    w = '%015d' % rng.randrange(10 ** 15)
    label = rng.choice(['WOS:', 'WOS: ', 'WOS : '])
    if rng.random() < 0.1:
        # too long
        return Item(label + w + '1', label + w + '1', 'no-wos', 'too-long')
    if not mixed or rng.random() < 0.3:
        x = label + pub('other', w)
        return Item(x, x, 'wos', 'correct')
    return Item(label + w, label + pub('other', w), 'wos', 'unmarked')


def link_item(rng, mixed):
    u = url_value(rng)
    lead = rng.choice(['', 'Available from: ', 'Retrieved on 3 May 2019 from '])
    starts = 'text' if lead else 'element'
    form = rng.choice(['correct', 'other-text', 'no-href', 'joined', 'joined', 'joined-w', 'doi', 'doi-repeat', 'doi-other', 'nested'])
    if form == 'correct':
        x = lead + link(u)
    elif form == 'other-text':
        x = lead + link(rng.choice(['the web site', u, 'archive of ' + u]), url_value(rng))
    elif form == 'no-href':
        x = lead + '<ext-link ext-link-type="doi">%s</ext-link>' % e(u)
    elif form == 'nested':
        x = lead + '<ext-link ext-link-type="uri" xlink:href=%s>%s<italic>x</italic></ext-link>' % (quoteattr(u), e(u))
    elif form == 'doi':
        x = lead + link('https://doi.org/' + doi_value(rng))
    elif form == 'doi-other':
        x = lead + link('https://doi.org/' + doi_value(rng) + rng.choice(['[other]', '[1]']))
    else:
        if form == 'doi-repeat':
            d = doi_value(rng)
            d2 = 'https://doi.org/' + d
            return Item(lead + link(d2 + '[' + d + ']'), lead + link(d2) + '[' + (pub('doi', d) if mixed else e(d)) + ']', 'link+doi', form, starts, open_end=mixed)
        urls = [u] + [url_value(rng) for _ in range(rng.choice([1, 1, 2]))]
        text = ''.join(urls)
        href = ('w' if form == 'joined-w' else '').join(urls)
        tail = rng.choice(['', '. ', ' (see above)'])
        return Item(lead + link(text, href) + tail, lead + ''.join(link(x) for x in urls) + tail, 'link', form, starts)
    return Item(x, x, 'link', form, starts)


QUOTES = [('"', '"'), ('\u2018', '\u2019'), ('\u201c', '\u201d')]


def title_item(rng, mixed, pmc_free):
    words = ' '.join(rng.choice(WORDS) for _ in range(rng.randint(1, 9))).capitalize()
    if rng.random() < 0.3:
        words += rng.choice([': a review', '; part two', ', a survey', ' (in press)', '?', '.'])
    inner = e(words)
    plain = True
    if rng.random() < 0.4:
        plain = False
        inner = '%s <italic>E. coli</italic>%s' % (inner + rng.choice(['', '', ',', '; PMC12']), rng.choice([' and others', ', then more', '']))
        if rng.random() < 0.2:
            inner = '<bold>In</bold> ' + inner
        elif rng.random() < 0.2:
            inner = '<bold>In</bold><italic>E. coli</italic> and others'
        if 'PMC' in inner and not pmc_free:
            inner = inner.replace('; PMC12', '')
    ends_in_text = not inner.endswith('>')
    starts_with_text = not inner.startswith('<')
    form = rng.choice(['plain', 'plain', 'quoted', 'quoted', 'comma', 'quoted-comma', 'comma-quoted', 'pmc', 'left-only', 'inner-quote'])
    lq, rq = rng.choice(QUOTES)
    lq, rq = e(lq), e(rq)

    def title(x):
        return '<article-title>%s</article-title>' % x
    src = exp = title(inner)
    if form == 'quoted':
        src, exp = title(lq + inner + rq), lq + title(inner) + rq
    elif form == 'comma':
        c = rng.choice([',', ', '])
        if not plain and rng.random() < 0.3:
            inner += '<sup>2,</sup>'
        src, exp = title(inner + c), title(inner) + c
    elif form == 'quoted-comma' and plain:
        c = rng.choice([',', ', '])
        src, exp = title(lq + inner + rq + c), lq + title(inner) + rq + c
    elif form == 'comma-quoted':
        src, exp = title(lq + inner + ',' + rq), lq + title(inner) + ',' + rq
    elif form == 'pmc' and plain and mixed and pmc_free:
        n = 'PMC%d' % rng.randrange(1, 10 ** 7)
        return Item(title(inner + '; ' + n), title(inner) + '; ' + pub('pmcid', n), 'title+pmcid', form, 'element')
    elif form == 'left-only' and starts_with_text:
        src, exp = title(lq + inner), lq + title(inner)
        return Item(src + ',' + rq, exp + ',' + rq, 'title', form, 'element')
    elif form == 'inner-quote':
        src = exp = title(lq + 'Quoted' + rq + ' ' + inner) if rng.random() < 0.7 else title('x ' + lq + inner + rq)
    else:
        form = 'plain'
    _ = ends_in_text
    return Item(src, exp, 'title', form, 'element')


def plain_item(rng):
    k = rng.randrange(6)
    if k == 0:
        x = '<person-group person-group-type="author"><name><surname>Smith</surname><given-names>J</given-names></name>, <etal>et al</etal></person-group>'
        return Item(x, x, 'plain', 'authors', 'element')
    if k == 1:
        x = '<source>J Biol Chem</source>, <year>2019</year>;<volume>294</volume>(<issue>12</issue>):<fpage>4512</fpage>-<lpage>4521</lpage>'
        return Item(x, x, 'plain', 'source', 'element')
    if k == 2:
        x = rng.choice(['Journal, 2019;294(12):4512-4521', 'Smith J, Doe A', 'vol 10, pp 12345678-12345688', 'Proc. 10.5 of 3', 'ISBN 978-3-16-148410-0',
                        'Suppl. 1, 2019-2020', 'in: Editors, Book, 1999, 2000, 12345, 67890, 12'])
        return Item(x, x, 'plain', 'text')
    if k == 3:
        x = '<comment>%s</comment>' % rng.choice(['in press', 'Published 2019', 'see note 12'])
        return Item(x, x, 'plain', 'comment', 'element')
    if k == 4:
        x = '<!-- doi:10.1234/comment PMID: 77 -->'
        return Item(x, x, 'plain', 'xml-comment', 'element')
    kind = rng.choice(['arxiv', 'isbn', 'publisher-id', 'custom', 'Custom', 'other', 'accession'])
    x = pub(kind, rng.choice(['arXiv:1234.5678', '978-3-16', 'GSE12345', 'PMID-like']))
    return Item(x, x, 'plain', 'pub-id', 'element')


MENTIONS = {
    'pmid': ['see PMID: 99', 'PMID:123456'], 'pmcid': ['see PMC99', 'PMCID: PMC1234567'],
    'pii': ['S0140-6736(05)12345-6', 'bioin1234 [pii]'], 'doi': ['doi:10.9999/xyz', 'see 10.9999/xyz[doi]'],
}


def make_reference(ctx, i):
    rng = ctx.rng
    mixed = rng.random() < 0.8
    makers = {'doi': doi_item, 'pmid': pmid_item, 'pmcid': pmcid_item, 'pii': pii_item, 'wos': wos_item, 'link': link_item}
    items = []
    seen = Counter()
    for kind in rng.sample(sorted(makers), rng.choice([0, 1, 1, 2, 2, 3, 4])):
        for _ in range(10):
            item = makers[kind](rng, mixed)
            parts = item.kind.split('+')
            if not any(seen[p] for p in parts):
                break
        else:
            continue
        for p in parts:
            seen[p] += 1
        items.append(item)
    if rng.random() < 0.6:
        title = title_item(rng, mixed, not seen['pmcid'])
        items.append(title)
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        items.append(plain_item(rng))
    for item in list(items):
        # mentioned once more, although marked up already
        if mixed and item.form in ('correct', 'caps', 'prefix', 'suffix') and item.kind in MENTIONS and rng.random() < 0.3:
            mention = rng.choice(MENTIONS[item.kind])
            items.append(Item(mention, mention, 'mention', item.kind))
    rng.shuffle(items)
    # what is not marked up ends with its text: only certain things may follow it there
    for _ in range(20):
        bad = [n for n, item in enumerate(items) if item.open_end and n + 1 < len(items) and items[n + 1].starts == 'text']
        if not bad:
            break
        rng.shuffle(items)
    else:
        items = [item for item in items if not item.open_end]
    src = exp = ''
    for n, item in enumerate(items):
        src += item.src
        exp += item.exp
        last = n + 1 == len(items)
        if item.open_end:
            sep = rng.choice(['', '.'] if item.open_end == 'exact' else ['', '.', '. ', ';', '; ', ' '])
            if not last and items[n + 1].starts == 'label':
                sep = rng.choice(['. ', '; ', ' '])
            if item.open_end == 'exact' and not last and items[n + 1].starts == 'label':
                sep = None
        else:
            sep = rng.choice(['. ', '; ', ', ', ' ', '.'])
        if sep is None:
            # a mark between the two
            sep = '<year>2001</year>. '
        src += sep
        exp += sep
    for item in items:
        for p in item.kind.split('+'):
            ctx.event(p)
        ctx.event('form:%s:%s' % (item.kind, item.form))
    ident = rng.random() < 0.9
    label = '<label>%d</label>' % i if rng.random() < 0.5 else ''
    tag = 'mixed-citation' if mixed else 'element-citation'

    def ref(x):
        return '<ref%s>%s<%s publication-type="journal">%s</%s></ref>\n' % (' id="ref%d"' % i if ident else '', label, tag, x, tag)
    return ref(src), ref(exp), ('ref%d' % i if ident else ''), [(it.kind, it.form) for it in items]


def setup_worker():
    jats.module()


def run_case(ctx):
    rng = ctx.rng
    refs = [make_reference(ctx, i) for i in range(1, rng.choice([2, 3, 4, 6]))]
    state = rng.getstate()
    data = c14.document(rng, [r[0] for r in refs]).encode('utf-8')
    rng.setstate(state)
    expected = jats.parse(c14.document(rng, [r[1] for r in refs]).encode('utf-8')).getroot()
    error, out = jats.fix_text(ctx, data)
    ctx.event('documents')
    if not ctx.require(error is None, 'command-failed', error=repr(error), source=data):
        return
    if not ctx.require(out is not None, 'output-missing', source=data):
        return
    try:
        after = jats.parse(out).getroot()
    except Exception as exc:  # pylint: disable=broad-except
        ctx.violation('output-unreadable', error=repr(exc), source=data, output=out)
        return
    meta = dict(jats.meta(after))
    jats.without_meta(after)
    exp_refs = jats.refs(expected)
    new_refs = jats.refs(after)
    src_refs = jats.refs(jats.parse(data).getroot())
    ctx.event('references', len(exp_refs))
    if not ctx.require(len(exp_refs) == len(new_refs), 'references-lost', source=data, output=out):
        return
    changed = []
    for (src, exp, ident, parts), e_ref, n_ref, s_ref in zip(refs, exp_refs, new_refs, src_refs):
        if src != exp:
            changed.append(ident)
            ctx.event('changed')
            ctx.distinct(parts)
        else:
            ctx.event('unchanged')
        same = jats.canonical(e_ref) == jats.canonical(n_ref)
        ctx.require(same, 'correct-reference-changed' if src == exp else 'reference-not-as-expected',
                    parts=repr(parts), source=src, expected=exp, actual=jats.etree.tostring(n_ref, encoding='unicode'))
        if not same:
            return
        _ = s_ref
    ctx.require(jats.canonical(expected) == jats.canonical(after), 'document-changed', source=data, output=out)
    ctx.require(
        meta.get('fix-jats-changed-reference-count') == str(len(changed))
        and meta.get('fix-jats-changed-reference-ids') == ','.join(changed),
        'record-of-changes-wrong', meta=repr(meta), expected=repr(changed), source=data)
